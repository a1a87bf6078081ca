"""Concurrent use from threads behaves like sequential use."""
import datetime as dt
import random
import sys
import threading
import time
import typing
import warnings

from harness import core, gen, util
from harness.props import c19

PID = 'C23'
RULE = ('A case is a program of dumps and loads (good and bad, of shared and '
        'own classes, with options, on the library and on forks) for each of '
        'several threads, that run at the same time with a tiny switch '
        'interval and random yields at the lines of the library, while '
        'another thread registers (de)serializers for other classes, makes '
        'forks and announces classes. Each outcome (value with types, or '
        'error with message) is to be the one that a fresh process with one '
        'thread gives. Distinct are the observed interleavings of lines.')
QUICK_N = 400
THOROUGH_N = 100000
NEED = {'threads': 900, 'calls': 3000, 'switches': 300000, 'yields': 300000,
        'good': 2000, 'bad': 300, 'disturbances': 1500, 'on_forks': 300,
        'same_objects': 40, 'while_registering': 400, 'warnings_due': 100,
        'while_announcing': 400}
ASSUMPTIONS = ['Interleavings are those that CPython with a GIL can have.',
               'While a class is registered, either function may be the one '
               'that handles its subclasses.']
COVERAGE = False
TOOL = 4


class Yields:
    """Make threads yield at random lines of the library; log who runs."""

    def __init__(self, seed, rate):
        self.rng = random.Random(seed)
        self.rate = rate
        self.prefix = core.REPO + '/jsons/'
        self.order = []
        self.last = None
        self.switches = self.count = 0

    def __enter__(self):
        mon = sys.monitoring
        mon.use_tool_id(TOOL, 'verif-yields')
        mon.register_callback(TOOL, mon.events.LINE, self.line)
        mon.set_events(TOOL, mon.events.LINE)
        mon.restart_events()
        self.interval = sys.getswitchinterval()
        sys.setswitchinterval(1e-6)
        return self

    def line(self, code, line):
        if not code.co_filename.startswith(self.prefix):
            return sys.monitoring.DISABLE
        me = threading.get_ident()
        if me != self.last:
            self.last = me
            self.switches += 1
            if len(self.order) < 400:
                self.order.append((threading.current_thread().name,
                                   code.co_name, line))
        if self.rng.random() < self.rate:
            self.count += 1
            time.sleep(self.rng.choice([0, 0, 0, 1e-5]))

    def __exit__(self, *_):
        sys.setswitchinterval(self.interval)
        mon = sys.monitoring
        mon.set_events(TOOL, 0)
        mon.register_callback(TOOL, mon.events.LINE, None)
        mon.free_tool_id(TOOL)


def registering(ctx, rng, jsons):
    """While a class is registered, its subclasses are handled either way."""
    fork = jsons.fork()
    rounds, in_front = [], set()
    for _ in range(20):
        cls = type('Base', (), {})
        rounds.append((cls, type('Sub', (cls,), {})))
    current = [0]
    seen = [[], []]
    barrier = threading.Barrier(3)

    def handle(k):
        barrier.wait()
        while current[0] < len(rounds):
            _, sub = rounds[current[0]]
            if k:
                out = util.attempt(jsons.dump, sub(), fork_inst=fork)
            else:
                out = util.attempt(jsons.load, {}, sub, fork_inst=fork)
            seen[k].append(out)
            ctx.ev('while_registering')
    threads = [threading.Thread(target=handle, args=(k,)) for k in (0, 1)]
    with Yields(rng.random(), rng.choice([.05, .2, .5])):
        for t in threads:
            t.start()
        barrier.wait()
        for n, (cls, _) in enumerate(rounds):
            current[0] = n
            high = rng.random() < .8
            if high:
                in_front.add(cls)
            goal = [len(s) + rng.randint(1, 3) for s in seen]
            for _ in range(500):
                if len(seen[0]) >= goal[0] and len(seen[1]) >= goal[1]:
                    break
                time.sleep(1e-5)
            jsons.set_serializer(lambda obj, **_: 'new', cls, high,
                                 fork_inst=fork)
            jsons.set_deserializer(lambda obj, cls=None, **_: 'new', cls, high,
                                   fork_inst=fork)
            jsons.set_validator(lambda obj: True, cls, fork_inst=fork)
        current[0] = len(rounds)
        for t in threads:
            t.join()
    for out in seen[0]:
        ctx.check(out.ok and (out.value == 'new' or
                              type(out.value).__name__ == 'Sub'),
                  'while-registering', lambda: 'load: %r' % out)
    for out in seen[1]:
        ctx.check(out.ok and out.value in ('new', {}), 'while-registering',
                  lambda: 'dump: %r' % out)
    for cls, sub in rounds:
        if cls in in_front:
            out = (jsons.dump(sub(), fork_inst=fork),
                   jsons.load({}, sub, fork_inst=fork))
            ctx.check(out == ('new', 'new'), 'while-registering',
                      lambda: 'the registration has no effect: %r' % (out,))


def warned(ctx, rng, jsons):
    """Every thread gets the warnings that are due, then and afterwards."""
    fork = rng.choice([None, jsons.fork()])
    options = {'fork_inst': fork} if fork else {}
    n = rng.choice([2, 3, 4])
    naive = dt.datetime(2020, 1, 1)
    calls = [rng.choice(['text', 'text', 'dump']) for _ in range(15)]
    barrier = threading.Barrier(n)

    def thread():
        barrier.wait()
        for c in calls:
            if c == 'dump':
                jsons.dump([naive], **options)
            else:
                jsons.load(['some text', {'a': 'x'}], **options)
    threads = [threading.Thread(target=thread) for _ in range(n)]
    with warnings.catch_warnings(record=True) as found:
        warnings.simplefilter('always')
        with Yields(rng.random(), rng.choice([.05, .2, .5])):
            for t in threads:
                t.start()
            for t in threads:
                t.join()
        due = n * calls.count('dump')
        ctx.ev('warnings_due', due)
        ctx.check(len(found) == due, 'warnings', lambda: '%d warnings of '
                  '%d threads instead of %d' % (len(found), n, due))
        del found[:]
        jsons.dump(naive, **options)
        jsons.dump(naive, fork_inst=jsons.fork(**options))
        ctx.check(len(found) == 2, 'warnings-afterwards', lambda: '%d warnings '
                  'after %d threads instead of 2' % (len(found), n))


class Named:
    def __init__(self, a: int = 1):
        self.a = a


def announcing(ctx, rng, jsons):
    """Names are found while others are announced and forks are made."""
    origin = rng.choice([jsons.fork(), jsons.JsonSerializable.fork()])
    jsons.announce_class(Named, 'nowhere.Named', fork_inst=origin)
    for k in range(rng.choice([10, 300])):
        jsons.announce_class(type('K', (), {}), 'nowhere.K%d' % k,
                             fork_inst=origin)
    wrong = []
    stop = threading.Event()
    barrier = threading.Barrier(4)

    def load():
        barrier.wait()
        for k in range(25):
            name = rng.choice(['nowhere.Named', 'typing.List[nowhere.Named]'])
            source = {'a': '5'}
            if name[0] == 't':
                source = [source]
            elif k % 2:
                source['-meta'] = {'classes': {'/': name}}
                name = None
            got = util.attempt(jsons.load, source, name, fork_inst=origin)
            ctx.ev('while_announcing')
            value = got.value if got.ok else None
            value = value[0] if isinstance(value, list) else value
            if type(value) is not Named or value.a != 5:
                wrong.append('load: %r' % got)
            got = util.attempt(jsons.load, {}, 'nowhere.Nope',
                               fork_inst=origin)
            if not isinstance(got.error, jsons.exceptions.UnknownClassError):
                wrong.append('load of an unknown class: %r' % got)

    def announce():
        barrier.wait()
        k = 0
        while not stop.is_set() and k < 3000:
            k += 1
            jsons.announce_class(type('Other', (), {}), 'other.N%d' % k,
                                 fork_inst=origin)

    def fork():
        barrier.wait()
        while not stop.is_set():
            got = util.attempt(lambda: jsons.load(
                {'a': 5}, 'nowhere.Named', fork_inst=jsons.fork(origin)))
            if not got.ok or type(got.value) is not Named:
                wrong.append('load with a new fork: %r' % got)
    threads = [threading.Thread(target=t)
               for t in (load, load, announce, fork)]
    with Yields(rng.random(), rng.choice([0, .01, .1])):
        for t in threads:
            t.start()
        for t in threads[:2]:
            t.join()
        stop.set()
        for t in threads[2:]:
            t.join()
    ctx.check(not wrong, 'while-announcing', lambda: '; '.join(wrong[:3]))


def case(ctx, rng, i):
    if i % 20 == 3:
        return announcing(ctx, rng, util.jsons_())
    if i % 20 == 13:
        return warned(ctx, rng, util.jsons_())
    if i % 20 == 7:
        return registering(ctx, rng, util.jsons_())
    n = rng.choice([2, 2, 3, 4, 6])
    shared = [c19.target(ctx, rng) for _ in range(rng.randint(1, 3))]
    programs = []
    for k in range(n):
        calls = [call(ctx, rng, k, shared) for _ in range(rng.randint(1, 4))]
        programs.append([rng.choice(calls) for _ in range(rng.randint(2, 8))])
    if rng.random() < .3:
        # The same objects and classes in all threads.
        ctx.ev('same_objects')
        programs = [programs[0]] * n
    labels = {id(c): c for program in programs for c in program}

    def alone():
        return {key: util.canon_outcome(util.attempt(c.call))
                for key, c in labels.items()}
    want = util.child_result(alone)
    got = [[] for _ in programs]
    barrier = threading.Barrier(n + 1)
    stop = threading.Event()

    def thread(k):
        barrier.wait()
        for c in programs[k]:
            got[k].append((c, util.canon_outcome(util.attempt(c.call))))
    ctx.cleanups.append(forget)
    disturb = Disturber(random.Random(rng.random()), barrier, stop)
    threads = [threading.Thread(target=thread, args=(k,), name='t%d' % k)
               for k in range(n)]
    other = threading.Thread(target=disturb.run, name='other')
    with Yields(rng.random(), rng.choice([.01, .05, .2, .5])) as yields:
        other.start()
        for t in threads:
            t.start()
        for t in threads:
            t.join()
        stop.set()
        other.join()
    ctx.ev('threads', n)
    ctx.ev('yields', yields.count)
    ctx.ev('switches', yields.switches)
    ctx.ev('disturbances', disturb.count)
    ctx.distinct(yields.order)
    ctx.check(disturb.error is None, 'disturber', lambda: repr(disturb.error))
    for k, program in enumerate(programs):
        ctx.check(len(got[k]) == len(program), 'thread-died',
                  lambda: 'after %d calls' % len(got[k]))
        for c, outcome in got[k]:
            ctx.ev('calls')
            ctx.ev('good' if want[id(c)].startswith('returned') else 'bad')
            ctx.check(outcome == want[id(c)], 'disturbed', lambda:
                      '%s\nalone: %s\nthread %d of %d: %s' % (
                          c.label, want[id(c)], k, n, outcome))
    ctx.sample('%d threads: %s' % (n, [c.label[:80] for c in programs[0]]))


def call(ctx, rng, k, shared):
    jsons = util.jsons_()
    x = rng.random()
    if x < .4:
        return rng.choice(shared)
    if x < .6:
        return c19.target(ctx, rng)
    if x < .8:
        # A fork of its own, with its own registrations.
        ctx.ev('on_forks')
        fork = jsons.fork()
        when = dt.datetime(2020, 1, 1, tzinfo=dt.timezone.utc)

        def on_fork():
            jsons.set_serializer(lambda obj, **_: 'thread %d' % k, Common,
                                 fork_inst=fork)
            jsons.set_deserializer(lambda obj, cls=None, **_: k, Common,
                                   fork_inst=fork)
            dumped = jsons.dump([Common(), {'a': Common()}, when],
                                fork_inst=fork)
            return dumped, jsons.load([{}], typing.List[Common],
                                      fork_inst=fork)
        return c19.Target('calls on a fork', on_fork, None)
    if x < .9:
        inst = Facade(k, when=None)

        def facade():
            return inst.json, str(inst), Facade.from_json({'n': k}), \
                Facade.loads('{"n": %d, "when": "2020-01-01"}' % k)
        return c19.Target('facade', facade, None)

    def decorated():
        return func([{'n': k}], n=str(k))
    return c19.Target('decorated', decorated, None)


class Common:
    pass


def _setup():
    jsons = util.jsons_()

    class Facade(jsons.JsonSerializable):
        def __init__(self, n: int, when: typing.Optional[dt.date] = None):
            self.n, self.when = n, when

    from jsons.decorators import loaded

    @loaded()
    def func(items: typing.List[Facade], n: str):
        return items + [n]
    return Facade, func


core.import_jsons()
Facade, func = _setup()


def forget():
    """Keep the lists of registered classes short (hygiene only)."""
    try:
        from jsons._common_impl import StateHolder
        for lst in (StateHolder._classes_serializers,
                    StateHolder._classes_deserializers,
                    StateHolder._classes_validators):
            lst[:] = [c for c in lst if c is not Other]
    except Exception:
        pass


class Disturber:
    def __init__(self, rng, barrier, stop):
        self.rng, self.barrier, self.stop = rng, barrier, stop
        self.count = 0
        self.error = None

    def run(self):
        jsons = util.jsons_()
        self.barrier.wait()
        fork = jsons.fork()
        try:
            while not self.stop.is_set() and self.count < 60:
                self.count += 1
                cls = type('Disturbing', (), {})
                rng = self.rng
                rng.choice([
                    lambda: jsons.set_serializer(
                        lambda obj, **_: 'other', cls, rng.random() < .5,
                        fork_inst=fork),
                    lambda: jsons.set_deserializer(
                        lambda obj, cls=None, **_: 5, Other),
                    lambda: jsons.set_serializer(
                        lambda obj, **_: 5, Other, rng.random() < .5),
                    lambda: jsons.set_validator(lambda obj: False, Other),
                    lambda: jsons.fork(),
                    lambda: jsons.fork(fork),
                    lambda: jsons.announce_class(cls, 'disturbing'),
                    lambda: jsons.dump(cls(), verbose=True),
                    lambda: util.attempt(jsons.load, {'n': []}, Other),
                    lambda: jsons.get_serializer(cls),
                    lambda: util.attempt(jsons.loads, '{', dict),
                ])()
        except Exception as err:
            self.error = err


class Other:
    def __init__(self, n: int):
        self.n = n
