"""
Core of the runtime-monitoring harness: workload loop, monitors' bookkeeping,
verdicts. A property module (harness/props/cNN.py) offers

    PID      the property id
    RULE     how cases are made and what makes one non-trivial
    QUICK_N  number of cases of the quick tier
    NEED     {counter: minimum} - a run that observed less is inconclusive
    case(ctx, rng, i)   drive one generated case and judge what was observed

A case is a pure function of (property, seed, index), so any case that fails,
hangs or dies can be run again on its own.
"""
import collections
import hashlib
import os
import random
import sys
import traceback

REPO = os.environ.get('VERIF_REPO', '/repo')


def import_jsons():
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import jsons
    where = os.path.realpath(jsons.__file__)
    if not where.startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError('jsons was imported from %s' % where)
    return jsons


class Violation(Exception):
    def __init__(self, kind, msg):
        Exception.__init__(self, '[%s] %s' % (kind, msg))
        self.kind = kind
        self.msg = msg


class Ctx:
    def __init__(self, pid, seed, tier):
        self.pid = pid
        self.seed = seed
        self.tier = tier
        self.counters = collections.Counter()
        self.seen = set()
        self.samples = []
        self.cleanups = []

    # -- bookkeeping -------------------------------------------------------
    def ev(self, name, n=1):
        self.counters[name] += n

    def distinct(self, *key):
        self.seen.add(digest(key))

    def sample(self, text, limit=3):
        if len(self.samples) < limit:
            self.samples.append(short(text, 600))

    # -- verdicts ----------------------------------------------------------
    def fail(self, kind, msg):
        raise Violation(kind, msg)

    def check(self, cond, kind, msg):
        self.counters['oracle_checks'] += 1
        if not cond:
            raise Violation(kind, msg() if callable(msg) else msg)


def digest(obj):
    return int.from_bytes(
        hashlib.blake2b(safe_repr(obj).encode('utf-8', 'replace'),
                        digest_size=8).digest(), 'big')


def safe_repr(obj):
    try:
        return repr(obj)
    except Exception as err:  # objects with a hostile repr
        return '<unrepresentable %s: %s>' % (type(obj).__name__, err)


def short(obj, limit=300):
    text = obj if isinstance(obj, str) else safe_repr(obj)
    return text if len(text) <= limit else text[:limit] + '...(%d)' % len(text)


def case_rng(pid, seed, index):
    return random.Random('%s/%s/%s' % (pid, seed, index))


def run_case(module, ctx, index):
    """Run one case; return None or a violation dict."""
    rng = case_rng(module.PID, ctx.seed, index)
    try:
        module.case(ctx, rng, index)
    except Violation as err:
        found = {'kind': err.kind, 'msg': err.msg}
    except BaseException as err:
        if isinstance(err, (KeyboardInterrupt, MemoryError)):
            raise
        found = {'kind': 'unexpected-%s' % type(err).__name__,
                 'msg': short('%s\n%s' % (err, traceback.format_exc()), 4000)}
    else:
        found = None
    finally:
        for cleanup in reversed(ctx.cleanups):
            cleanup()
        del ctx.cleanups[:]
    if found:
        found['index'] = index
    return found


# -- line coverage of the code under observation (sys.monitoring) ------------
class LineCoverage:
    TOOL = 3

    def __init__(self):
        self.lines = collections.defaultdict(set)
        self.prefix = os.path.join(os.path.realpath(REPO), 'jsons') + os.sep

    def start(self):
        mon = sys.monitoring
        mon.use_tool_id(self.TOOL, 'verif-coverage')
        mon.register_callback(self.TOOL, mon.events.LINE, self._line)
        mon.set_events(self.TOOL, mon.events.LINE)

    def _line(self, code, line):
        if code.co_filename.startswith(self.prefix):
            self.lines[code.co_filename[len(self.prefix):]].add(line)
        return sys.monitoring.DISABLE

    def stop(self):
        mon = sys.monitoring
        mon.set_events(self.TOOL, 0)
        mon.free_tool_id(self.TOOL)
        return {name: sorted(lines) for name, lines in self.lines.items()}


def rss_mb():
    with open('/proc/self/statm') as f:
        return int(f.read().split()[1]) * 4096 / 1e6


def forget_generated_classes():
    """
    jsons keeps every class it has seen; let it go of the generated ones to
    keep long runs within memory. (Hygiene only: failing to do so is fine.)
    """
    try:
        from jsons._common_impl import StateHolder
        table = StateHolder._announced_classes
        for key in [k for k in table
                    if 'vgen_models' in (k if isinstance(k, str)
                                         else getattr(k, '__module__', ''))]:
            del table[key]
    except Exception:
        pass
