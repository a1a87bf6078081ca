"""Parallel dumps and loads equal serial ones."""
import collections
import multiprocessing
import os
import tempfile
import threading
import time
import typing

from harness import gen, util

PID = 'C22'
RULE = ('A case is an iterable or list of random elements (values of random '
        'types, or elements whose (de)serializers take a random time and log '
        'to a shared file) that is dumped or loaded with several tasks, '
        'threads or processes, at the top or nested, with elements that fail '
        'in some cases. Results, failures (type and message) and warnings are '
        'to be those of a single task, every element is handled once. '
        'Distinct are the orders in which elements were finished, and inputs.')
QUICK_N = 1200
THOROUGH_N = 150000
NEED = {'dumps': 400, 'loads': 400, 'threads': 500, 'processes': 80,
        'faults': 150, 'events': 2500, 'overtaking': 100, 'uneven': 200,
        'more_tasks': 150, 'warned': 5, 'nested': 100,
        'attributes': 50}
ASSUMPTIONS = ['Errors and results of processes can be pickled.']


class OwnProcess(multiprocessing.Process):
    """A kind of process of the user."""


class OwnThread(threading.Thread):
    def __init__(self, *args, **kwargs):
        super().__init__(*args, **kwargs)
        self.daemon = True

    def join(self, timeout=None):
        # Nobody knows how long a task takes.
        if timeout is None:
            super().join()


class Slow:
    """Takes its time and reports to a file."""
    path = None

    def __init__(self, n: int, delay: float = 0, fail: bool = False):
        self.n, self.delay, self.fail = n, delay, fail

    def __repr__(self):
        return 'Slow(%s, %s)' % (self.n, self.fail)


class Fault(Exception):
    pass


def slow_serializer(obj, **kwargs):
    time.sleep(obj.delay)
    note(obj.n)
    if obj.fail:
        raise Fault('fault at %s' % obj.n)
    return {'n': obj.n, 'delay': obj.delay, 'fail': obj.fail,
            'opts': sorted(k for k in kwargs if k.startswith('mark'))}


def slow_deserializer(obj, cls=None, **kwargs):
    time.sleep(obj['delay'])
    note(obj['n'])
    if obj['fail']:
        raise Fault('fault at %s' % obj['n'])
    return Slow(obj['n'], obj['delay'], kwargs.get('mark'))


def note(n):
    fd = os.open(Slow.path, os.O_WRONLY | os.O_APPEND | os.O_CREAT)
    os.write(fd, b'%d\n' % n)
    os.close(fd)


def noted():
    try:
        with open(Slow.path) as f:
            res = [int(line) for line in f]
        os.unlink(Slow.path)
    except FileNotFoundError:
        res = []
    return res


_fork = []


def fork():
    """One fork for all cases, with the slow elements."""
    if not _fork:
        jsons = util.jsons_()
        _fork.append(jsons.fork())
        jsons.set_serializer(slow_serializer, Slow, fork_inst=_fork[0])
        jsons.set_deserializer(slow_deserializer, Slow, fork_inst=_fork[0])
    return _fork[0]


def rand_tasks(ctx, rng, n):
    tasks = rng.choice([2, 2, 3, 4, 5, 7, rng.randint(2, 12)])
    if tasks > n:
        ctx.ev('more_tasks')
    elif n % tasks:
        ctx.ev('uneven')
    if rng.random() < .16:
        ctx.ev('processes')
        return {'tasks': tasks, 'task_type': rng.choice(
            [multiprocessing.Process, multiprocessing.Process, OwnProcess])}
    ctx.ev('threads')
    return {'tasks': tasks, 'task_type': rng.choice(
        [threading.Thread, threading.Thread, OwnThread])}


def case(ctx, rng, i):
    jsons = util.jsons_()
    fd, Slow.path = tempfile.mkstemp()
    os.close(fd)
    os.unlink(Slow.path)
    kind = rng.choice(['slow_dump', 'slow_load', 'dump', 'load'])
    if i % 100 == 0:
        invalid(ctx, rng, jsons)
    globals()[kind](ctx, rng, jsons)


def invalid(ctx, rng, jsons):
    for tasks in (0, -1):
        out = util.attempt(jsons.load, [1], typing.List[int], tasks=tasks)
        ctx.check(isinstance(out.error, jsons.exceptions.JsonsError),
                  'invalid', lambda: '%s tasks: %r' % (tasks, out))


def slow_elements(ctx, rng):
    n = rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 9, 13, 20, 33])
    elems = [Slow(k, rng.choice([0, 0, 0, .0005, .002]))
             for k in range(n)]
    if n and rng.random() < .35:
        ctx.ev('faults')
        for elem in rng.sample(elems, rng.choice([1, 1, min(2, n), n])):
            elem.fail = True
    return elems


def slow_dump(ctx, rng, jsons):
    ctx.ev('dumps')
    elems = slow_elements(ctx, rng)
    # Lists are dumped in sequence, tuples and other iterables in parallel.
    make = rng.choice([tuple, tuple, collections.deque, list])
    options = {'fork_inst': fork(), 'mark1': 1, 'strict': rng.random() < .4}
    shape = rng.choice([lambda v: v, lambda v: v, lambda v: v,
                        lambda v: {'a': v, 'b': 1}, lambda v: [v, (1,)],
                        lambda v: Holder(v)])
    tasks = rand_tasks(ctx, rng, len(elems))
    items = elems
    if rng.random() < .35:
        ctx.ev('attributes')
        items = [Holder(e) if rng.random() < .7 else e for e in elems]
    value = shape(make(items))
    if value.__class__ not in (tuple, list, collections.deque):
        ctx.ev('nested')
    with util.recorded_warnings():
        serial = util.attempt(jsons.dump, value, **options)
    noted()
    with util.recorded_warnings():
        parallel = util.attempt(jsons.dump, value, **options, **tasks)
    where = lambda: '%s of %s (%s) with %s and %s' % (
        make.__name__, elems, [type(e).__name__ for e in items], options,
        tasks)
    judge(ctx, serial, parallel, where)
    order(ctx, elems, where, serial.ok)


class Holder:
    item: object

    def __init__(self, item: object):
        self.item = item


def slow_load(ctx, rng, jsons):
    ctx.ev('loads')
    elems = slow_elements(ctx, rng)
    source = [{'n': e.n, 'delay': e.delay, 'fail': e.fail} for e in elems]
    ann = rng.choice([typing.List, typing.Sequence, typing.Iterable,
                      typing.Deque])[Slow]
    nest = rng.random()
    if nest < .15:
        source, ann = {'k': source, 'j': []}, typing.Dict[str, ann]
        ctx.ev('nested')
    elif nest < .25:
        source, ann = [1, source], typing.Tuple[int, ann]
        ctx.ev('nested')
    options = {'fork_inst': fork(), 'mark': 'm', 'strict': True}
    if rng.random() < .3:
        options['warn_on_fail'] = True
    tasks = rand_tasks(ctx, rng, len(elems))
    with util.recorded_warnings() as first:
        serial = util.attempt(jsons.load, source, ann, **options)
    noted()
    with util.recorded_warnings() as second:
        parallel = util.attempt(jsons.load, source, ann, **options, **tasks)
    where = lambda: '%s of %s with %s' % (ann, elems, tasks)
    judge(ctx, serial, parallel, where)
    first, second = ([str(w.message) for w in ws] for ws in (first, second))
    if first:
        ctx.ev('warned')
    ctx.check(first == second, 'warnings', lambda: '%s instead of %s; %s' % (
        second, first, where()))
    order(ctx, elems, where, serial.ok)


def judge(ctx, serial, parallel, where):
    found = util.same_outcome(serial, parallel)
    ctx.check(found is None, 'differs', lambda: '%s; serial %r, parallel %r; '
              '%s' % (found, serial, parallel, where()))
    if not serial.ok:
        ctx.check(str(serial.error) == str(parallel.error), 'message',
                  lambda: '%r instead of %r; %s' % (
                      parallel, serial, where()))
        for attr in ('source', 'target'):
            a, b = (getattr(o.error, attr, None) for o in (serial, parallel))
            ctx.check(gen.diff(a, b) is None, attr, lambda: '%r instead of %r;'
                      ' %s' % (b, a, where()))


def order(ctx, elems, where, ok):
    got = noted()
    ctx.ev('events', len(got))
    if ok and not any(e.fail for e in elems):
        ctx.check(sorted(got) == list(range(len(elems))), 'once',
                  lambda: 'handled were %s of %s; %s' % (
                      got, len(elems), where()))
    else:
        ctx.check(len(set(got)) == len(got), 'twice',
                  lambda: '%s; %s' % (got, where()))
    if got != sorted(got):
        ctx.ev('overtaking')
        ctx.distinct('order', got)


def dump(ctx, rng, jsons):
    ctx.ev('dumps')
    node = util.rand_node(ctx, rng, 2, .5)
    n = rng.choice([0, 1, 2, 3, 5, 8, 17])
    values = [node.value(rng) for _ in range(n)]
    make = rng.choice([tuple, tuple, collections.deque, list])
    options = util.rand_dump_options(rng)
    value = make(values)
    tasks = rand_tasks(ctx, rng, n)
    if rng.random() < .2:
        value = Holder(value)
        ctx.ev('nested')
    options = {k: v for k, v in options.items()
               if not (tasks['task_type'] is not threading.Thread
                       and callable(v))}
    serial = util.attempt(jsons.dump, value, **options)
    parallel = util.attempt(jsons.dump, value, **options, **tasks)
    where = lambda: '%s with %s and %s: %s' % (make.__name__, options, tasks,
                                               util.describe(node, values))
    judge(ctx, serial, parallel, where)
    ctx.distinct('dump', tasks['tasks'], repr(serial))


def load(ctx, rng, jsons):
    ctx.ev('loads')
    node = util.rand_node(ctx, rng, 2, .5)
    n = rng.choice([0, 1, 2, 3, 5, 8, 17])
    source = [jsons.dump(node.value(rng)) for _ in range(n)]
    if source and rng.random() < .3:
        ctx.ev('faults')
        k = rng.randrange(n)
        source[k] = gen.mutate_json(rng, source[k], 1)
    outer = rng.choice([typing.List, typing.List, typing.Sequence,
                        typing.Collection])[node.ann]
    options = {'strict': True} if rng.random() < .5 else {}
    if rng.random() < .2:
        outer, source = typing.Dict[str, outer], {'k': source}
        ctx.ev('nested')
    tasks = rand_tasks(ctx, rng, n)
    with util.recorded_warnings():
        serial = util.attempt(jsons.load, source, outer, **options)
        parallel = util.attempt(jsons.load, source, outer, **options, **tasks)
    where = lambda: '%s with %s of %s from %s' % (
        options, tasks, util.describe(node), repr(source)[:1500])
    judge(ctx, serial, parallel, where)
    ctx.distinct('load', tasks['tasks'], repr(source))
