"""Containers handle every element exactly once, in order."""
import collections
import decimal
import enum
import pathlib
import typing
from datetime import datetime, timedelta, timezone
from zoneinfo import ZoneInfo

from harness import gen, util

PID = 'C10'
RULE = ('A case is a random nesting of containers (or classes) with tokens in '
        'it, whose (de)serializers, registered on a fork, log every call with '
        'its options. The log of a dump and of a load must have each token '
        'exactly once, in order, with the options of the outer call; results '
        'hold what the callbacks returned, at the same places. Some cases '
        'have elements that are equal to Python but not the same, each with '
        'its own dump (or what it loads as) known. Distinct are '
        'the pairs of type and dump with more than one token.')
QUICK_N = 10000
THOROUGH_N = 2000000
NEED = {'dump_events': 8000, 'load_events': 8000, 'with_classes': 500,
        'many': 1000, 'repeated': 200, 'equals': 500,
        'typed_entries': 800}
ASSUMPTIONS = ['The order in which attributes of one object (and key and '
               'value of one dict entry) are handled is not judged.']


class Tok:
    def __init__(self, n):
        self.n = n

    def __hash__(self):
        return hash(self.n)

    def __eq__(self, other):
        return isinstance(other, Tok) and self.n == other.n

    def __repr__(self):
        return 'Tok(%s)' % self.n


class TokNode(gen.Node):
    def __init__(self, repeat):
        gen.Node.__init__(self, Tok, 'Tok')
        self.next = 0
        self.made = []
        self.repeat = repeat

    def value(self, rng):
        if self.made and rng.random() < self.repeat:
            return rng.choice(self.made)  # It may be anywhere else, too.
        self.next += 1
        self.made.append(Tok(self.next))
        return self.made[-1]

    def dump(self, value):
        return encode(value.n)


def encode(n):
    """What the token n is dumped to: anything that JSON has."""
    kind = n // 3 % 5
    if kind == 1:
        return 'token-%s' % n
    if kind == 2:
        return [n, [n]]
    if kind == 3:
        return {'token': n}
    if kind == 4:
        return n + .5
    return n


def decode(obj):
    if isinstance(obj, str):
        return int(obj[len('token-'):])
    if isinstance(obj, list):
        return obj[0]
    if isinstance(obj, dict):
        return obj['token']
    return int(obj)


def toks(value):
    if isinstance(value, Tok):
        return [value.n]
    if isinstance(value, gen.MAPS):
        return [n for v in value.values() for n in toks(v)]
    if isinstance(value, (list, tuple, set, frozenset, gen.collections.deque)):
        return [n for v in value for n in toks(v)]
    if type(value).__module__ == gen.MODULE:
        return [n for v in gen.attrs_of(value).values() for n in toks(v)] \
            if not isinstance(value, tuple) else toks(tuple(value))
    return []


class One(enum.IntEnum):
    X = 1
    Y = 2


class Two(enum.IntEnum):
    P = 1
    Q = 2


class Odd:
    """Instances are all equal, but not the same."""

    def __init__(self, odd: int):
        self.odd = odd

    def __eq__(self, other):
        return True

    def __hash__(self):
        return 1


PairA = collections.namedtuple('PairA', 'a b')
PairB = collections.namedtuple('PairB', 'c d')
AMSTERDAM = ZoneInfo('Europe/Amsterdam')
UTC = timezone.utc
# Groups of equal values, each with what it is dumped to.
EQUALS = [
    [(1, 1), (1.0, 1.0), (True, True), (One.X, 'X'), (Two.P, 'P'),
     (decimal.Decimal('1'), '1'), (decimal.Decimal('1.0'), '1.0'),
     (decimal.Decimal('1.00'), '1.00')],
    [(2, 2), (One.Y, 'Y'), (Two.Q, 'Q'), (2.0, 2.0)],
    [(0, 0), (0.0, 0.0), (-0.0, -0.0), (False, False),
     (decimal.Decimal('-0'), '-0'), (decimal.Decimal('0'), '0')],
    [(datetime(2020, 1, 1, 12, tzinfo=UTC), '2020-01-01T12:00:00Z'),
     (datetime(2020, 1, 1, 13, tzinfo=timezone(timedelta(hours=1))),
      '2020-01-01T13:00:00+01:00'),
     (datetime(2020, 1, 1, 13, tzinfo=AMSTERDAM),
      '2020-01-01T13:00:00+01:00'),
     (datetime(2020, 1, 1, 9, tzinfo=timezone(timedelta(hours=-3), 'X')),
      '2020-01-01T09:00:00-03:00')],
    [(datetime(2021, 10, 31, 2, 30, tzinfo=AMSTERDAM),
      '2021-10-31T02:30:00+02:00'),
     (datetime(2021, 10, 31, 2, 30, tzinfo=AMSTERDAM, fold=1),
      '2021-10-31T02:30:00+01:00')],
    [(timezone(timedelta(hours=1), n), {'name': n, 'offset': 3600.0})
     for n in ('CET', 'BST', 'x')],
    [(pathlib.PureWindowsPath(n), n) for n in ('C:/A', 'c:/a', 'C:/a')],
    [((1, 0), [1, 0]), ((1.0, 0), [1.0, 0]), ((True, False), [True, False]),
     (PairA(1, 0), {'a': 1, 'b': 0}), (PairB(1, 0), {'c': 1, 'd': 0}),
     (PairA(1.0, False), {'a': 1.0, 'b': False})],
    [(frozenset([1]), [1]), (frozenset([True]), [True]), ({1.0}, [1.0])],
    [([1], [1]), ([1.0], [1.0]), ([True], [True])],
    [({'k': 1}, {'k': 1}), ({'k': True}, {'k': True}),
     (collections.OrderedDict(k=1.0), {'k': 1.0})],
    [(Odd(n), {'odd': n}) for n in (1, 2, 3)],
]
# Structures that are equal to Python, with what they load as.
EQUAL_LOADS = [
    (decimal.Decimal, [(1, '1'), ('1.0', '1.0'), ('1', '1'), (True, '1')]),
    (str, [(1, '1'), (1.0, '1.0'), (True, 'True')]),
    (str, [(0, '0'), (0.0, '0.0'), (-0.0, '-0.0'), (False, 'False')]),
    (typing.List[str], [([1], ['1']), ([1.0], ['1.0']), ([True], ['True'])]),
    (typing.Tuple[str, ...], [([1], ('1',)), ([1.0], ('1.0',))]),
    (typing.Dict[str, str], [({'k': 1}, {'k': '1'}),
                             ({'k': True}, {'k': 'True'})]),
    (None, [(1, 1), (1.0, 1.0), (True, True)]),
    (None, [([1], [1]), ([1.0], [1.0]), ([True], [True])]),
    (float, [(1, 1.0), (True, 1.0), (1.0, 1.0)]),
    (float, [(0.0, 0.0), (-0.0, -0.0), (0, 0.0)]),
]


def exact(a, b):
    return type(a) is type(b) and repr(a) == repr(b)


def equals(ctx, rng, jsons):
    """Elements that are equal must not be taken for one another."""
    pairs = [rng.choice(group) for group in
             (rng.choice(EQUALS) for _ in range(rng.choice([1, 1, 2])))
             for _ in range(rng.randint(2, 6))]
    rng.shuffle(pairs)
    values, want = [v for v, _ in pairs], [d for _, d in pairs]
    options = {'strict': True} if rng.random() < .3 else {}
    ctx.ev('equals')
    for value, get in rng.sample([
            (values, list), (tuple(values), list),
            (collections.deque(values), list),
            (dict(enumerate(values)), lambda r: list(r.values())),
            ([[v] for v in values], lambda r: [e for e, in r]),
            ([{'k': v} for v in values], lambda r: [e['k'] for e in r])], 2):
        got = util.attempt(jsons.dump, value, **options)
        ctx.check(got.ok and exact(get(got.value), want), 'equals',
                  lambda: 'dump(%r, %s) gives %r' % (value, options, got))
    cls, pairs = rng.choice(EQUAL_LOADS)
    pairs = [rng.choice(pairs) for _ in range(rng.randint(2, 6))]
    source, want = [s for s, _ in pairs], [r for _, r in pairs]
    if cls is decimal.Decimal:
        want = [decimal.Decimal(w) for w in want]
    for source, ann, get in rng.sample([
            (source, typing.List[cls] if cls else None, list),
            (source, typing.Tuple[cls or object, ...], list),
            (dict(enumerate(source)), typing.Dict[int, cls or object],
             lambda r: list(r.values()))], 2):
        got = util.attempt(jsons.load, source, ann, **options)
        ctx.check(got.ok and exact(get(got.value), want), 'equals',
                  lambda: 'load(%r, %r) gives %r' % (source, ann, got))


def typed_entries(ctx, rng, jsons):
    """The option types tells the types of the values of some keys."""
    nodes = {key: gen.rand_type(rng, rng.choice([0, 0, 1]))
             for key in rng.sample(['a', 'b', 'cd', '1', '', 1, 2.5, 'types',
                                    'cls', 'é', True][:10],
                                   rng.randint(0, 6))}
    value = {key: None if rng.random() < .15 else node.value(rng)
             for key, node in nodes.items()}
    types = {key: node.ann for key, node in nodes.items()
             if rng.random() < .6}
    types.update({key: int for key in ('other', 7) if rng.random() < .3})
    options = {'strip_nulls': True} if rng.random() < .3 else {}
    want, failed = {}, None
    for key, elem in value.items():
        got = util.attempt(jsons.dump, elem, types.get(key), **options)
        if not got.ok:
            failed = got
        elif not (options and got.value is None):
            want[key] = got.value
    ctx.ev('typed_entries', len(value))
    before = dict(types)
    got = util.attempt(jsons.dump, value, types=types, **options)
    where = lambda: '%r instead of %r for %r as %s, %s' % (
        got, failed or want, value, types, options)
    if failed:
        ctx.check(type(got.error) is type(failed.error), 'typed', where)
    else:
        ctx.check(got.ok and exact(got.value, want), 'typed', where)
    ctx.check(types == before, 'types', where)


def case(ctx, rng, i):
    jsons = util.jsons_()
    if i % 10 == 1:
        typed_entries(ctx, rng, jsons)
    if i % 4 == 0:
        equals(ctx, rng, jsons)
    repeat = rng.random() < .3
    tok = TokNode(.4 if repeat else 0)
    scalars = [tok] * 8 + [gen.INT, gen.STR, gen.DATE]
    classes = rng.random() < .3
    if classes:
        node = gen.rand_class(ctx, rng, rng.choice([0, 1]), scalars=scalars,
                              defaults=False, selfref=False, untyped=False)
        if rng.random() < .3:
            node = gen.ListLike('List', node)
        ctx.ev('with_classes')
    else:
        node = gen.rand_type(rng, rng.choice([1, 2, 3]), scalars=scalars)
    value = node.value(rng)
    want = toks(value)
    if len(set(want)) < len(want):
        ctx.ev('repeated')
    fork = jsons.fork()
    log = []
    mark = object()
    strict = rng.random() < .5
    options = {'strict': strict, 'fork_inst': fork, 'custom_mark': mark}

    def note(what, kwargs):
        log.append((what, {k: kwargs.get(k) for k in options}))

    def serializer(obj, **kwargs):
        note(obj.n, kwargs)
        return encode(obj.n)

    made = {}

    def deserializer(obj, cls=None, **kwargs):
        obj = decode(obj)
        note(obj, kwargs)
        ctx.check(cls is Tok, 'load-type', lambda: 'called for %r' % cls)
        res = Tok(obj)
        made.setdefault(obj, []).append(res)
        return res
    jsons.set_serializer(serializer, Tok, fork_inst=fork)
    jsons.set_deserializer(deserializer, Tok, fork_inst=fork)
    way = {'cls': node.ann} if rng.random() < .5 else {}
    dumped = jsons.dump(value, **way, **options)
    judge(ctx, 'dump', log, want, options, not classes,
          lambda: '%s of %s' % (way, util.describe(node, value)))
    found = gen.json_diff(node.dump(value), dumped)
    ctx.check(found is None, 'dump', lambda: '%s; %s of %s' % (
        found, way, util.describe(node, value)))
    if len(want) > 1:
        ctx.ev('many')
        ctx.distinct(node.label, repr(dumped))
    del log[:]
    source = dumped
    loaded = jsons.load(source, node.ann, **options)
    # The elements of a set were dumped in the order of the set.
    judge(ctx, 'load', log, want, options, not classes,
          lambda: util.describe(node, value))
    diff = gen.diff(value, loaded)
    ctx.check(diff is None, 'load', lambda: '%s; %s' % (
        diff, util.describe(node, value)))
    got = list(tok_objects(loaded))
    ctx.check(sorted(t.n for t in got) == sorted(want)
              and all(any(m is t for m in made[t.n]) for t in got)
              and len({id(t) for t in got}) == len(got), 'load-identity',
              lambda: util.describe(node, value))
    ctx.sample('%s: %s' % (node.label, want))


def judge(ctx, what, log, want, options, ordered, where):
    ctx.ev(what + '_events', len(log))
    got = [n for n, _ in log]
    if not ordered:
        got, want = sorted(got), sorted(want)
    ctx.check(got == want, what + '-events',
              lambda: 'the tokens were handled %s, expected %s; %s'
                      % (got, want, where()))
    for n, seen in log:
        ctx.check(seen == options, what + '-options',
                  lambda: 'token %s came with %s instead of %s; %s'
                          % (n, seen, options, where()))


def tok_objects(value):
    if isinstance(value, Tok):
        yield value
    elif isinstance(value, gen.MAPS):
        for v in value.values():
            yield from tok_objects(v)
    elif isinstance(value, (list, tuple, set, frozenset,
                            gen.collections.deque)):
        for v in value:
            yield from tok_objects(v)
    elif type(value).__module__ == gen.MODULE:
        for v in gen.attrs_of(value).values():
            yield from tok_objects(v)
