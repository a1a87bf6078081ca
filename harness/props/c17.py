"""Dicts with keys that JSON has no notation for survive."""
import collections
import dataclasses
import datetime as dt
import typing

from harness import gen, util

PID = 'C17'
RULE = ('A case is a dict (of random kind, at a random place, with random '
        'values) whose keys are objects with chosen, often equal hashes, '
        'tuples, frozen sets and the like, often mixed with plain keys that '
        'equal such a hash as a number or text. Its dump is to be pure JSON '
        'with every entry once; the load of it, over text or not, is to be '
        'equal. Distinct are the dumps.')
QUICK_N = 3000
THOROUGH_N = 1500000
NEED = {'entries': 8000, 'same_hash': 500, 'mixed': 500, 'hash_is_key': 200,
        'text': 1000, 'loads': 2000, 'stripped': 200, 'transformed': 200, 'forked': 400}
ASSUMPTIONS = ['Keys whose JSON representations are equal (such as the text 5 '
               'and a path 5) cannot be told apart and are not mixed.',
               'The texts -keys and -meta are no keys of a user.']
HASHES = [0, 1, 2, 3, -2, 5, 10, 2 ** 31, 2 ** 61 - 2, -5]


class Key:
    """A key with a hash of choice."""

    def __init__(self, hash_: int, n: int):
        self.hash_, self.n = hash_, n

    def __hash__(self):
        return self.hash_

    def __eq__(self, other):
        return isinstance(other, Key) and self.n == other.n \
            and self.hash_ == other.hash_

    def __repr__(self):
        return 'Key(%s, %s)' % (self.hash_, self.n)


@dataclasses.dataclass(frozen=True)
class DKey:
    name: str
    when: dt.date

    def __hash__(self):
        return len(self.name)


class NKey(typing.NamedTuple):
    num: int
    txt: str


class IdKey:
    """Keys that only differ in the type of their value, all of one hash."""

    def __init__(self, v):
        self.v = v

    def __hash__(self):
        return 1

    def __eq__(self, other):
        return isinstance(other, IdKey) and repr(self.v) == repr(other.v)

    def __repr__(self):
        return 'IdKey(%r)' % (self.v,)


class SubKey(Key):
    pass


class KeyNode(gen.Node):
    def __init__(self):
        gen.Node.__init__(self, Key, 'Key')
        self.hashes = []

    def value(self, rng):
        if self.hashes and rng.random() < .5:
            hash_ = rng.choice(self.hashes)
        else:
            hash_ = rng.choice(HASHES)
        self.hashes.append(hash_)
        return Key(hash_, rng.randint(0, 99))

    def dump(self, value):
        return {'hash_': value.hash_, 'n': value.n}


class Name(str):
    pass


class DKeyNode(gen.Node):
    def __init__(self):
        gen.Node.__init__(self, DKey, 'DKey')

    def value(self, rng):
        return DKey(rng.choice(['', 'a', 'b', 'ab', 'k_x', 'firstName']),
                    gen.DATE.value(rng))

    def dump(self, value):
        return {'name': value.name, 'when': value.when.isoformat()}


class IdKeyNode(gen.Node):
    def __init__(self):
        gen.Node.__init__(self, IdKey, 'IdKey')

    def value(self, rng):
        return IdKey(rng.choice([0, 0., False, '', 1, 1., True, '1', None,
                                 [], [1], [True], [1.], {}, 'None']))

    def dump(self, value):
        return {'v': value.v}


class NKeyNode(gen.Node):
    def __init__(self):
        gen.Node.__init__(self, NKey, 'NKey')

    def value(self, rng):
        return NKey(rng.randint(0, 5), rng.choice('abc'))

    def dump(self, value):
        return {'num': value.num, 'txt': value.txt}


def key_nodes(rng):
    return rng.choice([KeyNode, KeyNode, KeyNode, DKeyNode, NKeyNode, IdKeyNode,
                       IdKeyNode,
                       lambda: gen.rand_hashed_key_node(rng)])()


def case(ctx, rng, i):
    jsons = util.jsons_()
    hashed = key_nodes(rng)
    # Other keys might take a text for theirs.
    with_text = isinstance(hashed, (KeyNode, DKeyNode)) and rng.random() < .5
    keys = {}
    n = rng.choice([0, 1, 2, 3, 5, 9, 20])
    val = util.rand_node(ctx, rng, 1, .2, untyped=False)
    for _ in range(n):
        keys[hashed.value(rng)] = None
    order = list(keys)
    if len({hash(k) for k in order}) < len(order):
        ctx.ev('same_hash')
    key_ann = hashed.ann
    ints = False
    if with_text:
        ints = rng.random() < .3
        extra = set()
        for _ in range(rng.randint(1, 4)):
            if order and rng.random() < .6:
                ctx.ev('hash_is_key')
                num = hash(rng.choice(order)) + rng.choice([0, 0, 0, 1])
            else:
                num = rng.randint(-3, 12)
            extra.add(num if ints else rng.choice(
                [str(num), str(num), gen.rand_text(rng)]))
        order += sorted(extra - {'-keys', '-meta'})
        rng.shuffle(order)
        key_ann = typing.Union[hashed.ann, int if ints else str]
        ctx.ev('mixed')
    value = {k: val.value(rng) for k in order}
    ctx.ev('entries', len(value))
    kind = rng.choice(gen.DICT_KINDS)
    ann, make = gen.DictLike.KINDS[kind]
    if make is None:
        make = lambda d: collections.defaultdict(val.ann, d)
    value = make(value)
    full = ann[key_ann, val.ann]
    pairs = [(hashed.dump(k) if not isinstance(k, (int, str)) else k,
              val.dump(v)) for k, v in value.items()]
    # At some place.
    place = rng.choice(['top', 'top', 'list', 'dict', 'tuple', 'class'])
    outer, outer_ann, inner = around(place, value, full)
    options = {}
    if rng.random() < .3:
        options['strict'] = rng.random() < .7
    if rng.random() < .2:
        options['cls'] = outer_ann
    where = lambda: '%s at %s with %s: %s' % (full, place, options, value)
    dumped = jsons.dump(outer, **options)
    found = gen.check_pure_json(dumped)
    ctx.check(found is None, 'pure', lambda: '%s; %s' % (found, where()))
    got = inner(dumped)
    conserved(ctx, got, pairs, where)
    ctx.distinct(repr(dumped))
    if 'cls' in options:
        del options['cls']
    text = rng.random() < .5
    source = dumped
    if text:
        ctx.ev('text')
        source = util.through_text(rng, jsons, dumped)
    back = jsons.load(source, outer_ann, **options)
    ctx.ev('loads')
    found = gen.diff(outer, back)
    ctx.check(found is None, 'load', lambda: '%s; %s; from %s; loaded %s' % (
        found, where(), source, back))
    variants(ctx, rng, jsons, value, full, hashed, val, ints)
    ctx.sample(where())


class Holder:
    def __init__(self, data, other: int):
        self.data, self.other = data, other


def around(place, value, full):
    T = typing
    if place == 'list':
        return [value, value], T.List[full], lambda d: d[1]
    if place == 'dict':
        return {'k': value, 'j': value}, T.Dict[str, full], lambda d: d['k']
    if place == 'tuple':
        return (1, value), T.Tuple[int, full], lambda d: d[1]
    if place == 'class':
        class Hold(Holder):
            def __init__(self, data: full, other: int):
                Holder.__init__(self, data, other)
        return Hold(value, 1), Hold, lambda d: d['data']
    return value, full, lambda d: d


def is_hashed(key):
    return isinstance(key, (list, dict, gen.Unordered))


def conserved(ctx, got, pairs, where):
    """Every entry is there exactly once and nothing else."""
    if any(is_hashed(k) for k, _ in pairs):
        found = gen.json_diff(gen.HashedDict(pairs), got)
    else:
        found = gen.json_diff(dict(pairs), got)
    ctx.check(found is None, 'dump', lambda: '%s; %s' % (found, where()))
    keys = got.get('-keys', {})
    ctx.check(len({str(k) for k in got}) == len(got) and
              len({str(k) for k in keys}) == len(keys), 'text-keys',
              lambda: 'keys are equal as text in %s; %s' % (got, where()))


def variants(ctx, rng, jsons, value, full, hashed, val, ints):
    where = lambda: '%s: %s' % (full, value)
    if rng.random() < .3:
        # Nulls are stripped with their keys.
        ctx.ev('stripped')
        holes = dict(value)
        for k in list(holes):
            if rng.random() < .5:
                holes[k] = None
        want = jsons.dump({k: v for k, v in holes.items() if v is not None},
                          strip_nulls=True)
        got = jsons.dump(holes, strip_nulls=True)
        ctx.check(hash_free(got) == hash_free(want), 'strip-nulls',
                  lambda: '%s / %s; %s' % (got, want, where()))
    if isinstance(hashed, KeyNode) and rng.random() < .5:
        # The (de)serializer of the keys is that of a fork; their dumps are
        # text or not.
        ctx.ev('forked')
        fork = jsons.fork()
        as_text = rng.random() < .5
        mark = object()
        seen = []

        def key_dump(obj, **kwargs):
            seen.append(kwargs.get('mark'))
            return 'K%s:%s' % (obj.hash_, obj.n) if as_text \
                else [obj.hash_, obj.n]

        def key_load(obj, cls=None, **kwargs):
            seen.append(kwargs.get('mark'))
            if as_text and (not isinstance(obj, str) or obj[0] != 'K'):
                raise ValueError(obj)
            return Key(*(map(int, obj[1:].split(':')) if as_text else obj))
        jsons.set_serializer(key_dump, Key, fork_inst=fork)
        jsons.set_deserializer(key_load, Key, fork_inst=fork)
        data = {k: n for n, k in enumerate(value) if isinstance(k, Key)}
        ann = typing.Dict[Key, int]
        if rng.random() < .3:
            data, ann = [data], typing.List[ann]
        elif rng.random() < .3:
            data, ann = {'k': data}, typing.Dict[str, ann]
        dumped = jsons.dump(data, fork_inst=fork, mark=mark)
        n_dumped = len(seen)
        loaded = util.attempt(jsons.load, dumped, ann, fork_inst=fork,
                              mark=mark)
        found = gen.diff(data, loaded.value) if loaded.ok else repr(loaded)
        ctx.check(found is None and ('-keys' not in repr(dumped)
                                     or not as_text), 'fork',
                  lambda: '%s; %s from %s' % (found, data, dumped))
        ctx.check(all(m is mark for m in seen) and len(seen) == 2 * n_dumped,
                  'fork-options', lambda: '%s; %s' % (seen, data))
    if rng.random() < .2:
        # Text is a key of JSON, of whatever subclass of str.
        ctx.ev('names')
        data = {Name(k) if type(k) is str else k: n
                for n, k in enumerate(value)}
        got = jsons.dump(data)
        want = jsons.dump({k: n for n, k in enumerate(value)})
        ctx.check(got == want, 'names',
                  lambda: '%s / %s; %s' % (got, want, where()))
    if rng.random() < .3:
        ctx.ev('transformed')
        func = lambda key: 'k_' + key
        back = lambda key: key[2:]
        data = {k: n for n, k in enumerate(value)}
        ann = typing.Dict[typing.get_args(full)[0], int]
        got = jsons.dump(data, key_transformer=func)
        if '-keys' not in got:
            return
        ok = all(isinstance(k, int) or k == '-keys' or k[:2] == 'k_'
                 for k in got)
        ctx.check(ok and len(got) == len(data) + 1, 'transform',
                  lambda: '%s; %s' % (got, where()))
        loaded = jsons.load(got, ann, key_transformer=back)
        found = gen.diff(data, loaded)
        ctx.check(found is None, 'transform-load', lambda: '%s; %s from %s' % (
            found, where(), got))


def hash_free(dumped):
    """The same for dumps that differ in the numbers of the hashed keys."""
    keys = dumped.get('-keys', {})
    return sorted((repr(keys[k] if k in keys else k), repr(v))
                  for k, v in dumped.items() if k != '-keys')
