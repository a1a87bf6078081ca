"""Dumps are plain JSON and the text and bytes functions agree with it."""
import datetime
import decimal
import json
import typing

from harness import gen, util

PID = 'C03'
RULE = ('A case is a random value (of built-in, standard or generated types) '
        'and random options. What dump returns must consist of exactly '
        'str/int/float/bool/None/list/dict; dumps and dumpb must give the '
        'text and bytes that the json module makes of it for random json '
        'options and encodings; loads and loadb must give what load makes of '
        'the parsed text. Values are also dumped as what they may not be (other '
        'standard types and unions), which fails or gives JSON. Distinct are the dumped texts.')
QUICK_N = 5000
THOROUGH_N = 1000000
NEED = {'purity': 3000, 'dumps': 3000, 'dumpb': 1500, 'loads': 3000,
        'loadb': 1500, 'decode_errors': 200, 'typed_loads': 1500,
        'unencodable': 8, 'falsy': 500,
        'typed_dumps': 600, 'as_other': 2000, 'as_other_ok': 1000}
ASSUMPTIONS = ['Values of subclasses of str, int and float are not generated.',
               'Enum elements are dumped by their name here.']

JD = [{}, {}, {'indent': 2}, {'separators': (',', ':')},
      {'ensure_ascii': False}, {'ensure_ascii': False}, {'indent': '\t', 'ensure_ascii': False},
      {'sort_keys': True}, {'default': repr}, {'allow_nan': True}]
JL = [{}, {}, {'parse_int': float}, {'parse_float': str},
      {'parse_float': lambda s: 1.5}, {'parse_constant': lambda s: None},
      {'object_hook': lambda d: {**d, 'hooked': 1}},
      {'object_pairs_hook': lambda ps: dict(reversed(ps))},
      {'strict': False}]
ENCODINGS = ['utf-8', 'utf-16', 'utf-32', 'utf-8-sig', 'utf-16-le', 'utf-7',
             'ascii', 'latin-1', 'cp1252']


# What is attributes of values of the standard types.
KNOWN = ['name', 'value', 'key', 'real', 'imag', 'offset', 'year', 'hour',
         'hex', 'numerator', 'days', 'tzinfo', 'parts', 'utcoffset', 'fold']


def as_other(ctx, rng):
    """A value that is dumped as something that it (maybe) is not."""
    jsons = util.jsons_()
    names = rng.sample(KNOWN, rng.randint(1, 4))
    node = rng.choice(gen.SCALARS)
    if rng.random() < .7:
        node = gen.ClassNode(ctx, rng, [
            gen.Field(name, rng.choice(gen.SCALARS)) for name in names],
            rng.choice(['plain', 'dataclass', 'attrs', 'slots', 'NamedTuple']))
    value = node.value(rng)
    others = [rng.choice(gen.SCALARS).ann for _ in range(rng.randint(1, 3))]
    if rng.random() < .7:
        others.append(node.ann)
    cls = typing.Union[tuple(others)]
    got = util.attempt(jsons.dump, value, cls)
    ctx.ev('as_other')
    if got.ok:
        ctx.ev('as_other_ok')
        ctx.ev('purity')
        # (An enum that is an int or str is plain enough if it is one of these.)
        text = util.attempt(json.dumps, got.value)
        ctx.check(text.ok, 'impure-as-other',
                  lambda: 'dump as %s of %s: %r' % (
                      cls, util.describe(node, value), text))
    else:
        ctx.check(isinstance(got.error, jsons.JsonsError), 'as-other-error',
                  lambda: repr(got))


def case(ctx, rng, i):
    jsons = util.jsons_()
    node = util.rand_node(ctx, rng, keys_hashed=rng.random() < .3)
    value = node.value(rng)
    options = util.rand_dump_options(rng, node)
    if rng.random() < .25:
        falsy(ctx, rng)
    if rng.random() < .5:
        as_other(ctx, rng)
    args = ()
    if rng.random() < .3:  # Dumped as its own type.
        ctx.ev('typed_dumps')
        options = {**options, 'cls': node.ann}
    if 'cls' in options and rng.random() < .5:
        args = (options.pop('cls'),)  # After the options of the encoder.
    dumped = jsons.dump(value, *args, **options)
    found = gen.check_pure_json(dumped)
    ctx.ev('purity')
    ctx.check(found is None, 'impure', lambda: 'dump(%s) of %s: %s' % (
        options, util.describe(node, value), found))
    where = lambda: 'options %s, %s' % (options, util.describe(node, value))

    jd = dict(rng.choice(JD))
    if jd.get('sort_keys') and 'keys' in repr(dumped):
        jd = {}
    expected = util.attempt(json.dumps, dumped, **jd)
    if args or rng.random() < .2:
        got = util.attempt(jsons.dumps, value, jd or None, *args, **options)
    else:
        got = util.attempt(jsons.dumps, value, jdkwargs=jd, **options)
    ctx.ev('dumps')
    if expected.ok:
        ctx.check(got.ok and got.value == expected.value
                  and type(got.value) is str, 'dumps',
                  lambda: 'dumps(jdkwargs=%s) %r, expected %r; %s'
                          % (jd, got, expected, where()))
        ctx.distinct(expected.value)
    else:
        return
    if not jd and not args:
        again = jsons.dumps(value, **options)
        ctx.check(again == expected.value, 'dumps',
                  lambda: 'dumps %r, expected %r' % (again, expected))
    text = expected.value
    if rng.random() < .6:
        encoding = rng.choice(ENCODINGS)
        if not text.isascii() and rng.random() < .5:
            encoding = rng.choice(['ascii', 'latin-1'])
        if args or rng.random() < .2:
            got = util.attempt(jsons.dumpb, value, encoding, jd or None, *args,
                               **options)
        else:
            got = util.attempt(jsons.dumpb, value, encoding=encoding,
                               jdkwargs=jd, **options)
        ctx.ev('dumpb')
        enc = util.attempt(text.encode, encoding)
        if enc.ok:
            ctx.check(got.ok and got.value == enc.value
                      and type(got.value) is bytes, 'dumpb',
                      lambda: 'dumpb(%s, %s) %r, expected %r; %s'
                              % (encoding, jd, got, enc, where()))
        else:
            # What cannot be encoded is not to be altered silently.
            ctx.ev('unencodable')
            ctx.check(type(got.error) is type(enc.error), 'dumpb-error',
                      lambda: 'dumpb(%s, %s) %r, expected %r; %s' % (
                          encoding, jd, got, enc, where()))
        if not args and rng.random() < .3:
            plain = util.attempt(jsons.dumpb, value, **options)
            ctx.check(plain.ok and plain.value == json.dumps(dumped).encode(),
                      'dumpb', lambda: 'dumpb %r; %s' % (plain, where()))

    # The way back.
    if rng.random() < .5:
        text = json.dumps(jsons.dump(value))
    jl = dict(rng.choice(JL))
    kwargs = {'strict': True} if rng.random() < .4 else {}
    cls = node.ann if rng.random() < .7 else None
    if cls:
        ctx.ev('typed_loads')
    expected = util.attempt(lambda: jsons.load(json.loads(text, **jl), cls,
                                               **kwargs))
    got = util.attempt(jsons.loads, text, cls, jdkwargs=jl, **kwargs)
    ctx.ev('loads')
    check_same(ctx, 'loads', expected, got, lambda: 'loads(%.300r, %s, %s)'
               % (text, jl, kwargs) + where())
    if not jl:
        got = util.attempt(jsons.loads, text, cls, **kwargs)
        check_same(ctx, 'loads', expected, got, where)
    if rng.random() < .6:
        encoding = rng.choice(ENCODINGS)
        ctx.ev('loadb')
        enc = util.attempt(text.encode, encoding)
        if enc.ok:
            got = util.attempt(jsons.loadb, enc.value, cls, encoding=encoding,
                               jdkwargs=jl, **kwargs)
            check_same(ctx, 'loadb', expected, got,
                       lambda: 'loadb(%s, %s) ' % (encoding, jl) + where())
        if rng.random() < .3:
            got = util.attempt(jsons.loadb, text.encode(), cls, jdkwargs=jl,
                               **kwargs)
            check_same(ctx, 'loadb', expected, got, where)

    # Broken text.
    if rng.random() < .3 and text:
        broken = text[:rng.randint(0, len(text) - 1)] + rng.choice(
            ['', '}', '"', ',', ']]'])
        if rng.random() < .2:
            # What some decoders would skip is no JSON.
            broken = rng.choice(['\ufeff', '\xa0', '\0', '\x0c']) + text
        plain = util.attempt(json.loads, broken)
        if not plain.ok:
            ctx.ev('decode_errors')
            for got in (util.attempt(jsons.loads, broken, cls),
                        util.attempt(jsons.loadb, broken.encode(), cls)):
                err = got.error
                ctx.check(isinstance(err, jsons.DecodeError)
                          and isinstance(err, json.JSONDecodeError)
                          and err.source == broken and err.target == cls
                          and err.pos == plain.error.pos
                          and err.doc == plain.error.doc,
                          'decode-error', lambda: 'loads(%r) %r (source %r, '
                          'target %r)' % (broken, got,
                                          getattr(err, 'source', '?'),
                                          getattr(err, 'target', '?')))
    ctx.sample(text)


T = typing
FALSY = [(datetime.timedelta(0), datetime.timedelta),
         (decimal.Decimal('0'), decimal.Decimal),
         (decimal.Decimal('-0.00'), decimal.Decimal), (0j, complex),
         (b'', bytes), (gen.collections.deque(), T.Deque[int]),
         (frozenset(), T.FrozenSet[str]), (set(), T.Set[int]), ((), tuple),
         ((), T.Tuple[int, ...]), ([], T.List[int]), ({}, T.Dict[str, int]),
         (gen.collections.OrderedDict(), T.Dict[str, int]), (0, int),
         (gen.collections.defaultdict(list), T.Dict[str, int]), ('', str),
         (False, bool), (0., float)]


class Falsy:
    """False to Python, as that has no length."""

    def __len__(self):
        return 0


class FalsyPart(Falsy):
    def __init__(self, number: int = 0):
        self.number = number


FALSY += [(FalsyPart(), FalsyPart), (Falsy(), Falsy)]


def falsy(ctx, rng):
    """What is false to Python is dumped as anything else, as any type."""
    jsons = util.jsons_()
    ctx.ev('falsy')
    value, cls = rng.choice(FALSY)
    plain = jsons.dump(value, cls)
    options = {'strict': True} if rng.random() < .3 else {}
    other = rng.choice([int, str, datetime.date])
    shapes = [(value, T.Optional[cls], lambda r: r),
              (value, T.Union[cls, other, None], lambda r: r),
              ([None, value], T.List[T.Optional[cls]], lambda r: r[1]),
              ({'k': value}, T.Dict[str, T.Optional[cls]], lambda r: r['k']),
              ((value, 1), T.Tuple[T.Optional[cls], int], lambda r: r[0]),
              (value, None, lambda r: r), ([value], None, lambda r: r[0]),
              ({'k': value}, None, lambda r: r['k']),
              (typed(cls)(value), None, lambda r: r['part']),
              (typed(T.Optional[cls])(value), None, lambda r: r['part']),
              ([typed(T.Union[None, cls])(value)], None,
               lambda r: r[0]['part'])]
    obj, ann, get = rng.choice(shapes)
    where = lambda: 'dump(%r, %s, %s) with %r' % (obj, ann, options, value)
    dumped = jsons.dump(obj, ann, **options)
    found = gen.check_pure_json(dumped)
    ctx.check(found is None, 'falsy', lambda: '%s: %s' % (found, where()))
    ctx.check(gen.diff(get(dumped), plain) is None, 'falsy', lambda:
              '%r instead of %r; %s' % (dumped, plain, where()))
    ctx.check(jsons.dumps(obj, cls=ann, **options) == json.dumps(dumped), 'falsy',
              where)


def typed(cls):
    def init(self, part):
        self.part = part
    init.__annotations__ = {'part': cls}
    return type('Typed', (), {'__init__': init, '__annotations__': {
        'part': cls}})


def check_same(ctx, kind, expected, got, where):
    found = util.same_outcome(expected, got)
    ctx.check(found is None, kind, lambda: '%s; %s' % (found, where()))
