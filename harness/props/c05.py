"""Whatever goes wrong comes out as an informative error of the library."""
import json
import pickle

from harness import gen, util

PID = 'C05'
RULE = ('Cases of four kinds: (hostile) arbitrary or mutated JSON structures, '
        'including broken -meta and -keys sections and objects that are no '
        'JSON at all, are loaded into random types; (planted) one leaf of a '
        'valid structure is replaced by a value that cannot be loaded; (dump) '
        'serializers and properties that raise arbitrary errors; (interrupt) '
        'callbacks that raise exceptions that are no errors. Distinct are the '
        'pairs of type and structure.')
QUICK_N = 15000
THOROUGH_N = 2000000
NEED = {'hostile_errors': 1000, 'hostile_loads': 150, 'planted': 800, 'unions': 200,
        'decoder_limits': 20,
        'indexes_checked': 300, 'dump_errors': 400, 'interrupts': 50,
        'recursions': 5, 'text_errors': 100}
ASSUMPTIONS = ['Errors that the json module raises when the result of a dump '
               'is to be turned into text are not judged.']


class Odd(Exception):
    def __str__(self):
        return 'odd'


class Weird(Exception):
    def __init__(self, a, b):
        self.a = a


ERRORS = [ValueError('v'), KeyError('k'), KeyError(), TypeError(), Odd(1, 2),
          Weird(1, 2), StopIteration(), RuntimeError(None), OSError(2, 'x'),
          AssertionError(), ArithmeticError('%s {} {0}'), LookupError(('a',)),
          UnicodeDecodeError('utf-8', b'x', 0, 1, 'r'), AttributeError('a'),
          NotImplementedError(), MemoryError(), RecursionError('deep'),
          StopAsyncIteration(), ExceptionGroup('g', [ValueError(1)])]


def case(ctx, rng, i):
    kind = ('hostile', 'planted', 'hostile', 'dump', 'hostile', 'planted',
            'text', 'hostile', 'dump', 'interrupt')[i % 10]
    globals()[kind](ctx, rng, util.jsons_())
    if i % 400 == 0:
        recursion(ctx, rng, util.jsons_())


def hostile(ctx, rng, jsons):
    node = util.rand_node(ctx, rng, keys_hashed=rng.random() < .3)
    kwargs = {'strict': True} if rng.random() < .5 else {}
    x = rng.random()
    if x < .35:
        source = gen.rand_json(rng, 3)
    elif x < .9:
        source = gen.mutate_json(rng, jsons.dump(
            node.value(rng), verbose=jsons.Verbosity.WITH_CLASS_INFO
            if rng.random() < .2 else False), rng.randint(1, 3))
    else:
        source = rng.choice([
            object(), b'bytes', 1j, rng.random, int, ..., Odd(), {1: object()},
            [object()], {(1, 2): 3}, frozenset([1]), node.value(rng),
            (1, 'a'), {'a', 'b'}, bytearray(b'x'), range(3), iter([1])])
    if rng.random() < .1:
        kwargs['key_transformer'] = rng.choice(util.transformers())
    cls = node.ann if rng.random() < .9 else None
    got = util.attempt(jsons.load, source, cls, **kwargs)
    where = lambda: 'load(%s, %s) of %s' % (
        gen.brief(source, 500), kwargs, util.describe(node))
    if got.ok:
        ctx.ev('hostile_loads')
        return
    ctx.ev('hostile_errors')
    judge(ctx, jsons, got.error, where)
    ctx.distinct(node.label, repr(source)[:500])
    ctx.sample('%s -> %s' % (gen.brief(source), type(got.error).__name__))


def judge(ctx, jsons, err, where):
    ctx.check(isinstance(err, jsons.DeserializationError), 'foreign-error',
              lambda: '%s escaped from %s' % (gen.brief(err), where()))
    ctx.check(isinstance(err.message, str) and err.message
              and str(err) == err.message, 'error-message',
              lambda: '%r has message %r' % (err, err.message))
    if isinstance(err, jsons.UnfulfilledArgumentError):
        ctx.check(isinstance(err.argument, str) and isinstance(err, ValueError),
                  'error-argument', lambda: repr(err))


# What no deserializer of the type can make something of.
BAD = [(gen.INT, ['abc', '', '1.5', [], {}]), (gen.FLOAT, ['abc', '', [], {}]),
       (gen.DATETIME, ['nope', '', 5, [], {}, '2020-02-30T00:00:00Z', True]),
       (gen.DATE, ['nope', '', 5, [], '2020-02-30']),
       (gen.TIME, ['nope', '', 5, [], '25:00:00']),
       (gen.UUID_, ['zz', '', 5, [], {}]), (gen.DECIMAL, ['x', {}, '1,5']),
       (gen.TIMEDELTA, ['x', [], {}]), (gen.TIMEZONE, ['x', 5, {}, [1]]),
       (gen.ZONEINFO, [{'key': 'No/Where'}, {}, 5]),
       (gen.COMPLEX, [{}, 'x', {'real': 'x', 'imag': 1}]),
       (gen.PATH, [5, [], {}])] + [
           (n, ['NOPE', 77, [1, 2, 3], {}]) for n in gen.ENUM_NODES]


def planted(ctx, rng, jsons):
    """
    A leaf that cannot be loaded within lists (whose index must be told),
    tuples, dicts and objects.
    """
    leaf, bads = rng.choice(BAD)
    bad = rng.choice(bads)
    node = leaf
    if rng.random() < .25:
        # No member can make something of it: it is the union that fails.
        ctx.ev('unions')
        others = [n for n, b in BAD if bad in b] if rng.random() < .5 else []
        node = gen.UnionOf([leaf] + others) if len(others) > 1 \
            else gen.optional(leaf)
    top, indexes, json_obj = node, [], bad
    for level in range(rng.randint(0, 4)):
        inner, inner_json = node, json_obj
        kind = rng.choice(['list', 'list', 'list', 'seq', 'tuple', 'dict',
                           'class', 'ellipsis'])
        if kind in ('list', 'seq'):
            node = gen.ListLike(rng.choice(
                ['List', 'list'] if kind == 'list' else
                ['Sequence', 'Iterable', 'Deque', 'Collection']), inner)
            if len(str(inner.ann)) > 2000:
                break
            # (Other elements of a union may be dumped as some first member.)
            n = rng.randint(1, 4) if not isinstance(top, gen.UnionOf) else 1
            at = rng.randrange(n)
            json_obj = [jsons.dump(inner.value(rng)) for _ in range(n)]
            json_obj[at] = inner_json
            indexes.insert(0, at)
        elif kind == 'tuple':
            node = gen.TupleOf([gen.INT, inner])
            json_obj = [1, inner_json]
        elif kind == 'ellipsis':
            node = gen.TupleEllipsis(inner)
            json_obj = [inner_json]
        elif kind == 'dict':
            node = gen.DictLike('Dict', gen.STR, inner)
            json_obj = {'k': inner_json}
        else:
            style = rng.choice([s for s in gen.ClassNode.STYLES
                                if 'inherit' not in s])
            field = gen.Field(rng.choice(gen.WORDS[:8]), inner)
            node = gen.ClassNode(ctx, rng, [field], style)
            json_obj = {field.name: inner_json}
    kwargs = {'strict': True} if rng.random() < .5 else {}
    got = util.attempt(jsons.load, json_obj, node.ann, **kwargs)
    where = lambda: 'load(%s, %s) of %s' % (gen.brief(json_obj, 400), kwargs,
                                            node.label)
    ctx.ev('planted')
    ctx.distinct(node.label, repr(json_obj))
    ctx.check(not got.ok, 'no-error', lambda: '%r; %s' % (got, where()))
    judge(ctx, jsons, got.error, where)
    err = got.error
    inner_bad = bad if top is not leaf or not (
        isinstance(bad, dict) and bad.get('real') == 'x') else None
    if inner_bad is not None:
        ctx.check(err.source is bad or type(err.source) is type(bad)
                  and err.source == bad, 'error-source',
                  lambda: 'source %r instead of %r; %s' % (err.source, bad,
                                                           where()))
        expect = {gen.NT_INT.ann: int, gen.NT_NO.ann: int}.get(top.ann, top.ann)
        ctx.check(err.target is expect or err.target == expect, 'error-target',
                  lambda: 'target %r instead of %r; %s' % (err.target, expect,
                                                           where()))
    # The indexes of the lists on the way, from the outside to the inside.
    rest = err.message
    for at in indexes:
        mark = 'index %d' % at
        found = rest.find(mark)
        ctx.ev('indexes_checked')
        ctx.check(found >= 0, 'error-index',
                  lambda: 'no "%s" (of %s) in %r; %s' % (mark, indexes,
                                                         err.message, where()))
        rest = rest[found + len(mark):]


def text(ctx, rng, jsons):
    texts = ['', ' ', '{', '[1,', '{"a" 1}', "{'a': 1}", 'nope', '"', '[1]]',
             '\x00', '{"a": 1,}', '\ufeff{}', 'NaN1', '[01]', '"\n"']
    if rng.random() < .1:
        # The decoder itself gives up.
        ctx.ev('decoder_limits')
        texts = ['1' * 5000, '[' * 20000, '{"a": -%s}' % ('9' * 4301),
                 '{"a":' * 20000, '[[%s]' % ('7' * 9999)]
    source = rng.choice(texts)
    cls = rng.choice([None, int, dict, gen.typing.List[int]])
    calls = [lambda: jsons.loads(source, cls)]
    if '\ufeff' not in source:
        calls.append(lambda: jsons.loadb(source.encode(), cls))
    for call in calls:
        got = util.attempt(call)
        ctx.ev('text_errors')
        err = got.error
        ctx.check(isinstance(err, jsons.DecodeError) and
                  isinstance(err, json.JSONDecodeError) and
                  isinstance(err, jsons.DeserializationError),
                  'text', lambda: 'loads(%.99r) %.999r' % (source, got))
        ctx.check(err.source in (source, source.encode()) and
                  err.target is cls, 'text-source',
                  lambda: 'loads(%.99r): source %.99r, target %r'
                          % (source, err.source, err.target))
    raw = rng.choice([b'\xff', b'{"a": "\xe9"}', b'\xc3', b'"\x80"'])
    got = util.attempt(jsons.loadb, raw, cls)
    ctx.check(isinstance(got.error, jsons.DecodeError)
              and got.error.source == raw, 'bytes',
              lambda: 'loadb(%r) %r' % (raw, got))
    got = util.attempt(jsons.loadb, rng.choice(['{}', 5, None, [1]]), cls)
    ctx.check(isinstance(got.error, jsons.DeserializationError), 'bytes',
              lambda: 'loadb(no bytes) %r' % got)
    ctx.distinct(source, str(cls))


class Tok:
    def __init__(self, n=0):
        self.n = n

    def __hash__(self):
        return self.n


class Holder:
    def __init__(self, a, tok, b):
        self.a, self.tok, self.b = a, tok, b


def failing_property(err):
    class Prop:
        @property
        def prop(self):
            raise err
    return Prop()


def dump(ctx, rng, jsons):
    """A serializer (of a fork) that fails must give a SerializationError."""
    fork = jsons.fork()
    error = rng.choice(ERRORS)

    def fail(obj, **kwargs):
        raise error
    jsons.set_serializer(fail, Tok, fork_inst=fork)
    jsons.set_deserializer(lambda obj, cls, **kw: fail(obj), Tok,
                           fork_inst=fork)
    value = rng.choice([
        lambda: Tok(), lambda: [1, Tok()], lambda: (Tok(),),
        lambda: {'a': {'b': Tok()}}, lambda: {Tok(): 1},
        lambda: gen.collections.deque([Tok()]), lambda: {Tok()},
        lambda: failing_property(error), lambda: [failing_property(error)]])()
    kwargs = {'strict': True} if rng.random() < .5 else {}
    if rng.random() < .2:
        value = Holder(1, value, 2)
        kwargs = {'strict': True}
    got = util.attempt(jsons.dump, value, fork_inst=fork, **kwargs)
    ctx.ev('dump_errors')
    ctx.distinct(repr(error), str(type(value)), str(kwargs))
    ctx.check(isinstance(got.error, jsons.SerializationError)
              and isinstance(got.error, jsons.JsonsError)
              and isinstance(got.error.message, str), 'foreign-error',
              lambda: 'dump with %r inside: %s' % (error, gen.brief(got.error)))
    chain, seen = got.error, []
    while chain is not None:
        seen.append(chain)
        chain = chain.__cause__
    ctx.check(any(e is error for e in seen), 'lost-cause',
              lambda: '%r is not in the chain of causes %r' % (error, seen))
    got = util.attempt(pickle.loads, pickle.dumps(got.error))
    ctx.check(got.ok and isinstance(got.value, jsons.SerializationError),
              'pickle', lambda: repr(got))
    # Loading.
    T = gen.typing
    source, cls = rng.choice([
        (5, Tok), ([5], T.List[Tok]), ({'a': 5}, T.Dict[str, Tok]),
        ([5], T.Tuple[Tok]), ([5], T.Tuple[Tok, ...]), (5, T.Optional[Tok]),
        (5, T.Union[Tok, None])])
    got = util.attempt(jsons.load, source, cls, fork_inst=fork)
    ctx.check(isinstance(got.error, jsons.DeserializationError),
              'foreign-error', lambda: 'load with %r inside: %s'
              % (error, gen.brief(got.error)))


def interrupt(ctx, rng, jsons):
    fork = jsons.fork()
    error = rng.choice([KeyboardInterrupt(), SystemExit(3), GeneratorExit()])

    def fail(obj, *args, **kwargs):
        raise error
    jsons.set_serializer(fail, Tok, fork_inst=fork)
    jsons.set_deserializer(fail, Tok, fork_inst=fork)
    T = gen.typing
    for call in (lambda: jsons.dump([Tok()], fork_inst=fork),
                 lambda: jsons.dump(Holder(1, Tok(), 2), fork_inst=fork),
                 lambda: jsons.load([1], T.List[Tok], fork_inst=fork),
                 lambda: jsons.load(1, T.Union[Tok, int], fork_inst=fork)):
        caught = None
        try:
            call()
        except BaseException as err:
            caught = err
        ctx.ev('interrupts')
        ctx.check(caught is error, 'interrupt',
                  lambda: '%r inside came out as %r' % (error, caught))
    ctx.distinct(repr(error))


def recursion(ctx, rng, jsons):
    """Nesting beyond the recursion limit must be reported, too."""
    deep = []
    deeper = deep
    for _ in range(3000):
        deeper.append([])
        deeper = deeper[0]
    loop = {}
    loop['loop'] = loop
    for call, cls in ((lambda: jsons.load(deep), jsons.DeserializationError),
                      (lambda: jsons.dump(deep), jsons.SerializationError),
                      (lambda: jsons.dump(loop), jsons.SerializationError),
                      (lambda: jsons.load(loop), jsons.DeserializationError)):
        got = util.attempt(call)
        ctx.ev('recursions')
        ctx.check(isinstance(got.error, cls), 'recursion',
                  lambda: 'an endless structure: %s' % gen.brief(got.error))
    # And nothing may linger.
    ctx.check(jsons.load(jsons.dump([[1]]), gen.typing.List[list]) == [[1]],
              'recursion', 'wrong result after a recursion error')
