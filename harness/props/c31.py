"""Primitives are taken as they are, or converted, or refused."""
import collections
import typing

from harness import gen, util

PID = 'C31'
RULE = ('A case is a JSON value (scalar or container, extreme and odd ones '
        'included) that is loaded as a primitive type, a NewType or subclass '
        'of one, at a random position (root, element, key, value, attribute, '
        'optional). The result must be the value itself if it is of the '
        'type, else what the type makes of it, else a DeserializationError '
        'with the value and the type. Distinct are the triples of value, '
        'type and position.')
QUICK_N = 30000
THOROUGH_N = 4000000
NEED = {'same': 3000, 'converted': 3000, 'refused': 3000, 'keys': 500,
        'attributes': 1500, 'elements': 2500, 'containers': 1000,
        'subclasses': 1000, 'root': 1500}
ASSUMPTIONS = ['Python itself says what int(x), float(x), bool(x) and str(x) '
               'are. Errors below a list or in an optional: see C05 and C09.']


class MyInt(int):
    pass


class MyFloat(float):
    pass


class MyStr(str):
    pass


NTInt = typing.NewType('NTInt', int)
NTFloat = typing.NewType('NTFloat', float)
NTBool = typing.NewType('NTBool', bool)
NTStr = typing.NewType('NTStr', str)
NTMine = typing.NewType('NTMine', MyInt)
NTDeep = typing.NewType('NTDeep', typing.NewType('NTFloat', NTFloat))
TYPES = [(int, int)] * 3 + [(float, float)] * 3 + [(bool, bool), (bool, bool),
        (str, str), (str, str), (NTInt, int), (NTFloat, float), (NTBool, bool),
        (NTStr, str), (MyInt, MyInt), (MyFloat, MyFloat), (MyStr, MyStr),
        (NTMine, MyInt),
        (NTDeep, float)]
TEXTS = ['5', '-5', '+5', ' 5 ', '5_0', '5__0', '0x10', '5.0', '5.5', '1e3',
         '1e999', 'nan', 'inf', '-Infinity', 'True', 'False', 'true', 'None',
         'null', '', ' ', 'abc', '٣', '１２', '½', '5L', '0b1', '00', '-0',
         '2020-01-01', '12:00', '\x00', '9' * 400, '9' * 5000, '1,5', '1 0']


def rand_value(rng):
    x = rng.random()
    if x < .3:
        return rng.choice(TEXTS)
    if x < .45:
        return gen.rand_int(rng)
    if x < .6:
        return rng.choice([gen.rand_float(rng), float('inf'), float('nan'),
                           -0.0, 1e22, 0.5, 2.0 ** 53])
    if x < .7:
        return rng.random() < .5
    if x < .78:
        return None
    if x < .85:
        return gen.rand_text(rng)
    return gen.rand_json(rng, 2, meta=False)


def model(value, cls):
    if value is None:
        return None
    if isinstance(value, cls):
        return value
    try:
        return cls(value)
    except (ValueError, TypeError, OverflowError):
        return None


_n = [0]


def place(ctx, rng, kind, cls, value):
    """(type, structure, how to get at it in the result)"""
    if kind == 'root':
        return cls, value, lambda r: r
    if kind == 'list':
        k = rng.randint(0, 2)
        t = rng.choice([typing.List[cls], list[cls], typing.Sequence[cls],
                        typing.Deque[cls], typing.Tuple[cls, ...]])
        return t, [value] * (k + 1), lambda r: r[k]
    if kind == 'tuple':
        return typing.Tuple[int, cls, str], [1, value, 'x'], lambda r: r[1]
    if kind == 'key':
        t = rng.choice([typing.Dict, typing.Mapping, typing.DefaultDict,
                        collections.OrderedDict])
        return t[cls, int], {value: 5}, lambda r: list(r)[0]
    if kind == 'value':
        return rng.choice([typing.Dict, typing.Mapping, typing.OrderedDict])[
            str, cls], {'k': value, 'l': value}, lambda r: r['k']
    if kind == 'optional':
        return typing.Optional[cls], value, lambda r: r
    _n[0] += 1
    name = 'Prim%d' % _n[0]
    ns = gen.gen_module().__dict__
    ns['ann_' + name] = cls
    source = {
        'attribute': 'class %s:\n def __init__(self, a: ann_%s, b: int = 0):'
                     '\n  self.a = a',
        'dataclass': '@dataclass\nclass %s:\n a: ann_%s',
        'attrs': '@attr.s(auto_attribs=True)\nclass %s:\n a: ann_%s',
        'extra': 'class %s:\n a: ann_%s',
        'NamedTuple': 'class %s(NamedTuple):\n a: ann_%s'}[kind] % (name, name)
    exec(source, ns)
    ctx.cleanups.append(lambda: ns.pop(name, None))
    return ns[name], {'a': value}, lambda r: r.a


KINDS = ['root', 'root', 'list', 'list', 'tuple', 'key', 'value', 'optional',
         'attribute', 'dataclass', 'attrs', 'extra', 'NamedTuple']


def case(ctx, rng, i):
    jsons = util.jsons_()
    ann, cls = rng.choice(TYPES)
    value = rand_value(rng)
    kind = rng.choice(KINDS)
    if kind == 'key' and (isinstance(value, (list, dict)) or
                          value in ('-keys', '-meta')):
        value = rng.choice(TEXTS)
    t, source, at = place(ctx, rng, kind, ann, value)
    strict = rng.random() < .5 and kind != 'extra'
    where = lambda: 'load(%s, %s, strict=%s) (%s is %s)' % (
        gen.brief(source), t, strict, kind, ann)
    ctx.distinct(repr(value), ann, kind)
    if ann is not cls or cls in (MyInt, MyFloat, MyStr):
        ctx.ev('subclasses')
    ctx.ev({'root': 'root', 'key': 'keys', 'list': 'elements',
            'tuple': 'elements', 'value': 'elements'}.get(kind, 'attributes'))
    if isinstance(value, (list, dict)):
        ctx.ev('containers')
        if cls in (int, float, MyInt, MyFloat):
            # Never mind what the type says: a container is no number.
            assert model(value, cls) is None
    with util.recorded_warnings() as caught:
        out = util.attempt(jsons.load, source, t, strict=strict)
    ctx.check(not caught, 'warning', lambda: '%s; %s' % (
        [str(w.message) for w in caught], where()))
    want = model(value, cls)
    if kind == 'optional' and value is None:
        ctx.ev('same')
        ctx.check(out.ok and out.value is None, 'optional', lambda:
                  '%r; %s' % (out, where()))
        return
    if want is None:
        ctx.ev('refused')
        ctx.check(isinstance(out.error, jsons.DeserializationError),
                  'accepted', lambda: '%r; %s' % (out, where()))
        if kind in ('root', 'key', 'attribute', 'dataclass', 'value') and \
                value is not None:
            ctx.check(out.error.source is value, 'source', lambda: '%r; %s' % (
                out.error.source, where()))
            ctx.check(out.error.target in (ann, cls), 'target', lambda:
                      '%r; %s' % (out.error.target, where()))
        return
    ctx.ev('same' if want is value else 'converted')
    ctx.check(out.ok, 'refused', lambda: '%r; %s' % (out, where()))
    got = at(out.value)
    found = gen.diff(want, got)
    ctx.check(found is None, 'value', lambda: '%s; %s' % (found, where()))
    ctx.sample(where() + ' gave %r' % (got,))
