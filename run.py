#!/opt/venv/bin/python
"""
run.py PID [quick|thorough]     check one property
run.py --replay FILE            run the case of a replay file again
"""
import json
import os
import selectors
import shutil
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
PYTHON = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') \
    else sys.executable


def main(argv):
    if argv and argv[0] == '--replay':
        with open(argv[1]) as f:
            replay = json.load(f)
        os.environ['VERIF_SEED'] = str(replay['seed'])
        return Check(replay['property'], replay['tier'], replay['seed']) \
            .replay(replay['index'])
    pid = argv[0]
    tier = (argv[1] if len(argv) > 1
            else os.environ.get('VERIF_TIER', 'quick'))
    seed = int(os.environ.get('VERIF_SEED', '1'))
    return Check(pid, tier, seed).run()


class Share:
    """A worker process and the cases it is to run."""

    def __init__(self, first, stop, step):
        self.first, self.stop, self.step = first, stop, step
        self.proc = None
        self.report = None
        self.last = None
        self.buffer = b''
        self.beat = 0
        self.finished = False


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.known, self.fixed = read_known(pid)
        meta = module_meta(pid)
        self.workers = meta['workers'] if tier == 'quick' else \
            meta['workers_thorough']
        self.n = meta['quick_n'] if tier == 'quick' else meta['thorough_n']
        self.seconds = (meta['quick_s'] if tier == 'quick'
                        else float(os.environ.get('VERIF_THOROUGH_S',
                                                  meta['thorough_s'])))
        self.meta = meta
        self.stall = 60 if tier == 'quick' else 120
        self.reports = []
        self.violations = []
        self.lost = 0

    # -- running -------------------------------------------------------------
    def run(self):
        start = time.monotonic()
        self.tmp = tempfile.mkdtemp(prefix='verif-%s-' % self.pid)
        try:
            self._run_shares([Share(k, self.n, self.workers)
                              for k in range(min(self.workers, self.n))])
        finally:
            shutil.rmtree(self.tmp, ignore_errors=True)
        return self._conclude(time.monotonic() - start)

    def replay(self, index):
        self.tmp = tempfile.mkdtemp(prefix='verif-%s-' % self.pid)
        try:
            self._run_shares([Share(index, index + 1, 1)])
        finally:
            shutil.rmtree(self.tmp, ignore_errors=True)
        for violation in self.violations:
            print('%s: %s' % (violation['kind'], violation['msg']))
        print('reproduced' if self.violations else 'not reproduced')
        return 1 if self.violations else 0

    def _run_shares(self, shares, isolated=False):
        selector = selectors.DefaultSelector()
        deadline = time.monotonic() + self.seconds
        for share in shares:
            self._spawn(share, selector, deadline)
        while any(not s.finished for s in shares):
            for key, _ in selector.select(1.0):
                self._read(key.data, key.fileobj, selector)
            now = time.monotonic()
            for share in list(shares):
                if not share.finished and now - share.beat > self.stall:
                    self._kill(share, selector)
                    self._suspect(share, 'hang', shares, selector, deadline,
                                  isolated)
                elif not share.finished and share.proc.poll() is not None \
                        and share.buffer is None:
                    share.finished = True
                    if os.path.exists(share.report):
                        with open(share.report) as f:
                            report = json.load(f)
                        self.reports.append(report)
                        self.violations += report['violations']
                    else:
                        self._suspect(share, 'died with code %s'
                                      % share.proc.returncode, shares,
                                      selector, deadline, isolated)
        selector.close()

    def _suspect(self, share, how, shares, selector, deadline, isolated):
        # The worker hung or died: run the case it was in once more, alone.
        # Only if it hangs or dies again, it is a violation.
        share.finished = True
        self.lost += 1
        err = share_stderr(share)
        if share.last is None:
            raise SystemExit('worker of %s failed to start (%s):\n%s'
                             % (self.pid, how, err))
        if isolated:
            self.violations.append({
                'kind': 'hang' if how == 'hang' else 'died',
                'msg': 'case %s: %s (twice)\n%s' % (share.last, how, err),
                'index': share.last})
            return
        if self.lost > 6:
            return
        again = Share(share.last, share.last + 1, 1)
        self._run_shares([again], isolated=True)
        if not self.violations:
            rest = Share(share.last + share.step, share.stop, share.step)
            if rest.first < rest.stop:
                shares.append(rest)
                self._spawn(rest, selector, deadline)

    def _spawn(self, share, selector, deadline):
        fd, share.report = tempfile.mkstemp(dir=self.tmp, suffix='.json')
        os.close(fd)
        os.unlink(share.report)
        spec = {'root': ROOT, 'pid': self.pid, 'seed': self.seed,
                'tier': self.tier, 'first': share.first, 'stop': share.stop,
                'step': share.step, 'report': share.report,
                'seconds': max(1.0, deadline - time.monotonic())}
        env = dict(os.environ, TZ='UTC', PYTHONHASHSEED='0',
                   PYTHONDONTWRITEBYTECODE='1',
                   PYTHONPYCACHEPREFIX=os.path.join(self.tmp, 'pyc'),
                   PYTHONPATH='', LC_ALL='C.UTF-8')
        share.err = open(share.report + '.err', 'w+b')
        share.proc = subprocess.Popen(
            [PYTHON, '-W', 'ignore', os.path.join(ROOT, 'harness/worker.py'),
             json.dumps(spec)], stdin=subprocess.DEVNULL,
            stdout=subprocess.PIPE, stderr=share.err, env=env, cwd=self.tmp,
            start_new_session=True)
        share.beat = time.monotonic()
        os.set_blocking(share.proc.stdout.fileno(), False)
        selector.register(share.proc.stdout, selectors.EVENT_READ, share)

    @staticmethod
    def _read(share, pipe, selector):
        data = os.read(pipe.fileno(), 65536)
        share.beat = time.monotonic()
        if not data:
            Check._finish(share, pipe, selector)
            return
        lines = (share.buffer + data).split(b'\n')
        share.buffer = lines.pop()
        for line in lines:
            if line.isdigit():
                share.last = int(line)
            elif line == b'done':
                # Leaked children of the worker may hold the pipe open.
                Check._finish(share, pipe, selector)

    @staticmethod
    def _finish(share, pipe, selector):
        selector.unregister(pipe)
        pipe.close()
        share.buffer = None
        try:
            share.proc.wait(20)
        except subprocess.TimeoutExpired:
            share.proc.kill()
            share.proc.wait()
        kill_group(share.proc.pid)

    @staticmethod
    def _kill(share, selector):
        kill_group(share.proc.pid)
        share.proc.wait()
        try:
            selector.unregister(share.proc.stdout)
            share.proc.stdout.close()
        except (KeyError, ValueError):
            pass

    # -- verdict -------------------------------------------------------------
    def _conclude(self, wall):
        counters, seen, samples, lines, cases = {}, set(), [], {}, 0
        for report in self.reports:
            cases += report['cases']
            for name, n in report['counters'].items():
                counters[name] = counters.get(name, 0) + n
            seen.update(report['seen'])
            samples += report['samples']
            for name, hit in report['lines'].items():
                lines.setdefault(name, set()).update(hit)
        fresh = [v for v in self.violations if v['kind'] not in self.known]
        for kind, text in self.known.items():
            print('KNOWN-FINDING: property=%s %s' % (self.pid, text))
        evidence = {
            'property': self.pid, 'tier': self.tier, 'seed': self.seed,
            'level': 'exploration',
            'coverage': {
                'evaluations': cases,
                'distinct_nontrivial': len(seen),
                'rule': self.meta['rule'],
                'samples': samples[:6],
                'observed_events': counters,
                'jsons_lines_executed': sum(map(len, lines.values())),
                'jsons_lines_by_file': {k: len(v)
                                        for k, v in sorted(lines.items())},
                'workers': self.workers,
                'lost_workers': self.lost,
            },
            'assumptions': self.meta['assumptions'],
            'wall_s': round(wall, 2),
            'violations': len(fresh),
        }
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        path = os.path.join(ROOT, 'evidence', self.pid + '.json')
        with open(path, 'w') as f:
            json.dump(evidence, f, indent=1, sort_keys=True)
        for violation in fresh[:5]:
            replay = self._write_replay(violation)
            print('%s: %s' % (violation['kind'], violation['msg'][:3000]))
            print('VIOLATION property=%s replay=%s' % (self.pid, replay))
        if fresh:
            return 1
        need = {k: v for k, v in self.meta['need'].items()
                if counters.get(k, 0) < v}
        print('%s %s: %d cases, %d distinct, %.1f s, %s'
              % (self.pid, self.tier, cases, len(seen), wall,
                 ', '.join('%s=%s' % i for i in sorted(counters.items()))))
        if need or not cases or not seen:
            print('INCONCLUSIVE: too little was observed: %s' % need)
            return 2
        return 0

    def _write_replay(self, violation):
        folder = os.path.join(ROOT, 'replay')
        os.makedirs(folder, exist_ok=True)
        path = os.path.join(folder, '%s-%s-%s.json' % (
            self.pid, self.seed, violation['index']))
        with open(path, 'w') as f:
            json.dump({'property': self.pid, 'seed': self.seed,
                       'tier': self.tier, 'index': violation['index'],
                       'kind': violation['kind'], 'msg': violation['msg']},
                      f, indent=1)
        return os.path.relpath(path, ROOT)


def kill_group(pid):
    try:
        os.killpg(pid, 9)
    except (ProcessLookupError, PermissionError):
        pass


def share_stderr(share):
    try:
        share.err.seek(0)
        return share.err.read().decode('utf-8', 'replace')[-3000:]
    except (OSError, ValueError):
        return ''


def read_known(pid):
    """
    KNOWN_FINDINGS has lines of the forms
        finding: property=<id> key=<kind> <what fails>
        fixed: property=<id> <commit> <what failed>
    Only lines of the first form suppress something: violations of that
    property with exactly that kind.
    """
    known, fixed = {}, []
    path = os.path.join(ROOT, 'KNOWN_FINDINGS')
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                words = line.split(None, 3)
                if len(words) < 4 or words[1] != 'property=' + pid:
                    continue
                if words[0] == 'finding:' and words[2].startswith('key='):
                    known[words[2][4:]] = words[3].strip()
                elif words[0] == 'fixed:':
                    fixed.append(line.strip())
    return known, fixed


def module_meta(pid):
    code = ('import sys, json; sys.path.insert(0, %r)\n'
            'from harness import core; core.import_jsons()\n'
            'import importlib\n'
            'm = importlib.import_module("harness.props.%s")\n'
            'g = lambda n, d: getattr(m, n, d)\n'
            'print(json.dumps({"rule": m.RULE, "quick_n": m.QUICK_N,'
            '"thorough_n": g("THOROUGH_N", m.QUICK_N * 1000),'
            '"quick_s": g("QUICK_S", 90), "thorough_s": g("THOROUGH_S", 420),'
            '"workers": g("WORKERS", 4),'
            '"workers_thorough": g("WORKERS_THOROUGH", 8),'
            '"need": g("NEED", {}), "assumptions": g("ASSUMPTIONS", [])}))\n'
            % (ROOT, pid.lower()))
    with tempfile.TemporaryDirectory() as tmp:
        env = dict(os.environ, TZ='UTC', PYTHONDONTWRITEBYTECODE='1',
                   PYTHONPYCACHEPREFIX=tmp, PYTHONPATH='')
        out = subprocess.run([PYTHON, '-W', 'ignore', '-c', code], env=env,
                             stdout=subprocess.PIPE, check=True, timeout=120)
    return json.loads(out.stdout.decode().splitlines()[-1])


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
