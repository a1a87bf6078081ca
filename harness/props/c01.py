"""Values of the built-in and standard types survive dump and load."""
import collections
import types
from collections import abc

from harness import gen, util

PID = 'C01'
RULE = ('A case is a random type built from the scalars and containers that '
        'jsons documents and a random value of it. It is dumped (with and '
        'without the type, strict and not), compared to the reference model '
        'of the dump, sent over text (or not) and loaded again. Distinct are '
        'the pairs of type and reference dump of which the value is no bare '
        'JSON scalar. Some cases take a collection of the '
        'library that is no list or dict (UserDict, MappingProxyType, '
        'UserList, ...) or a mapping, sequence or set of the user, derived '
        'from an abstract class of collections.abc.')
QUICK_N = 12000
THOROUGH_N = 2000000
NEED = {'roundtrips': 12000, 'hashed_key_dicts': 50, 'std_values': 2000,
        'subclasses': 80, 'other_collections': 400}
ASSUMPTIONS = [
    'bool, None, float, timedelta and enum keys with a str/int base, tz-aware '
    'times, timedeltas beyond the float precision and the reserved keys '
    '"-keys" and "-meta" are not generated: JSON or the documented format '
    'cannot carry them.']


class OwnMapping(abc.Mapping):
    def __init__(self, items=()):
        self._items = dict(items)

    def __getitem__(self, key):
        return self._items[key]

    def __iter__(self):
        return iter(self._items)

    def __len__(self):
        return len(self._items)


class OwnMutableMapping(OwnMapping, abc.MutableMapping):
    def __setitem__(self, key, value):
        self._items[key] = value

    def __delitem__(self, key):
        del self._items[key]


class OwnSequence(abc.Sequence):
    def __init__(self, items=()):
        self._items = list(items)

    def __getitem__(self, index):
        return self._items[index]

    def __len__(self):
        return len(self._items)


class OwnMutableSequence(OwnSequence, abc.MutableSequence):
    def __setitem__(self, index, value):
        self._items[index] = value

    def __delitem__(self, index):
        del self._items[index]

    def insert(self, index, value):
        self._items.insert(index, value)


class OwnSet(abc.Set):
    def __init__(self, items=()):
        self._items = frozenset(items)

    def __contains__(self, item):
        return item in self._items

    def __iter__(self):
        return iter(self._items)

    def __len__(self):
        return len(self._items)


MAPPINGS = [OwnMapping, OwnMutableMapping, collections.UserDict,
            types.MappingProxyType]
SEQUENCES = [OwnSequence, OwnMutableSequence, collections.UserList]


def plain(rng, depth):
    """A value that JSON has and that isn't taken for something else."""
    kind = rng.randrange(4 + 2 * (depth > 0))
    if kind == 4:
        return [plain(rng, depth - 1) for _ in range(rng.randrange(4))]
    if kind == 5:
        return {rng.choice('abcdefgh') * rng.randint(1, 3):
                plain(rng, depth - 1) for _ in range(rng.randrange(4))}
    return [rng.choice(['', 'x', 'some text', '\u20ac', '12', 'null']),
            rng.randint(-10 ** 9, 10 ** 9), rng.random() < .5, None][kind]


def other_collections(ctx, rng, jsons):
    kind = rng.randrange(3)
    if kind == 0:
        cls = rng.choice(MAPPINGS)
        items = expected = {
            rng.choice('abcdefgh') * rng.randint(1, 3): plain(rng, 2)
            for _ in range(rng.randrange(5))}
    elif kind == 1:
        cls = rng.choice(SEQUENCES)
        items = expected = [plain(rng, 2) for _ in range(rng.randrange(5))]
    else:
        cls = OwnSet
        items = set(rng.sample(range(100), rng.randrange(5)))
        expected = None
    value = cls(items)
    dumped = jsons.dump(value, **rng.choice([{}, {'cls': cls}]))
    ctx.ev('dumps')
    if kind == 2:
        ok = type(dumped) is list and sorted(dumped) == sorted(items)
    else:
        ok = gen.json_diff(expected, dumped) is None
    ctx.check(ok, 'dump', lambda: 'dump of a %s of %.300r gave %.300r'
              % (cls.__name__, items, dumped))
    ctx.distinct(cls.__name__, repr(dumped))
    source = util.through_text(rng, jsons, dumped) if rng.random() < .5 \
        else dumped
    loaded = jsons.load(source, cls, strict=rng.random() < .5)
    ctx.ev('roundtrips')
    ctx.ev('other_collections')
    back = {0: dict, 1: list, 2: set}[kind](loaded) \
        if isinstance(loaded, cls) else None
    ctx.check(type(loaded) is cls and back == items, 'roundtrip',
              lambda: '%.300r was loaded as a %s and gave a %s: %.300r'
                      % (source, cls.__name__, type(loaded).__name__, back))


def case(ctx, rng, i):
    jsons = util.jsons_()
    if rng.random() < .06:
        return other_collections(ctx, rng, jsons)
    hashed = rng.random() < .3
    node = gen.rand_type(rng, rng.choice([0, 1, 1, 2, 2, 3]),
                         keys_hashed=hashed, subclasses=.05)
    if rng.random() < .04:  # very deep
        for _ in range(rng.randint(4, 12)):
            node = rng.choice([
                lambda: gen.ListLike('List', node),
                lambda: gen.DictLike('Dict', gen.STR, node),
                lambda: gen.TupleOf([node, gen.INT]),
                lambda: gen.optional(node)])()
            node.max_len = 1
        ctx.ev('deep_types')
    if any(s.label in node.label for s in gen.SUBCLASSES):
        ctx.ev('subclasses')
    value = node.value(rng)
    run(ctx, rng, jsons, node, value)


def run(ctx, rng, jsons, node, value):
    expected = node.dump(value)
    dump_ways = [{}, {'cls': node.ann}, {'cls': node.ann, 'strict': True}]
    for way in rng.sample(dump_ways, 2):
        dumped = jsons.dump(value, **way)
        ctx.ev('dumps')
        found = None if expected is None and value is not None else \
            gen.json_diff(expected, dumped)
        ctx.check(found is None, 'dump',
                  lambda: 'dump(%s) of %s differs from the model: %s'
                          % (way, util.describe(node, value), found))
        if isinstance(dumped, (dict, list)):
            ctx.distinct(node.label, repr(dumped))
        if '-keys' in repr(dumped):
            ctx.ev('hashed_key_dicts')
        for text in (False, True):
            source = util.through_text(rng, jsons, dumped) if text else dumped
            strict = rng.random() < .5
            loaded = jsons.load(source, node.ann, strict=strict)
            ctx.ev('roundtrips')
            diff = gen.diff(value, loaded)
            ctx.check(diff is None, 'roundtrip',
                      lambda: 'dump(%s), %s, load(strict=%s) of %s: %s '
                              '(dumped: %.500r)'
                              % (way, 'text' if text else 'no text', strict,
                                 util.describe(node, value), diff, source))
    if not node.json_native:
        ctx.ev('std_values')
    ctx.sample('%s: %r' % (node.label, value))
