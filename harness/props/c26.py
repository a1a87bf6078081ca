"""Transforming is dumping and loading."""
import copy

from harness import gen, util

PID = 'C26'
RULE = ('A case is a pair of generated classes that share some fields (also '
        'renamed, reordered, with more or fewer, in other class styles, or '
        'in lists, dicts and tuples of such objects), an object, and options '
        'and a mapper for the transformation. The result must be that of '
        'dumping, mapping and loading one by one; the shared fields must have '
        'the values of the object, of which nothing may change; and the '
        'mapper must be called once with precisely the dump. Distinct are '
        'the pairs of classes with options.')
QUICK_N = 6000
THOROUGH_N = 2000000
NEED = {'transformed': 3000, 'shared_fields': 5000, 'mapped': 1500,
        'errors': 300, 'mapper_errors': 150, 'fork': 600, 'containers': 500,
        'renamed': 500, 'dump_options': 1200, 'load_options': 1200}
ASSUMPTIONS = ['A fork is used for the half that it is given for: as load '
               'argument and as dump argument, respectively.']


class Boom(Exception):
    pass


class Token:
    def __init__(self, n):
        self.n = n

    def __eq__(self, other):
        return type(other) is Token and self.n == other.n


class TokenNode(gen.Node):
    def __init__(self):
        gen.Node.__init__(self, Token, 'Token')

    def value(self, rng):
        return Token(rng.randint(0, 99))

    def dump(self, value):
        return [value.n]


_fork = []


def fork():
    if not _fork:
        jsons = util.jsons_()
        _fork.append(jsons.fork())
        jsons.set_serializer(lambda obj, **_: [obj.n], Token,
                             fork_inst=_fork[0])
        jsons.set_deserializer(lambda obj, cls=None, **_: Token(obj[0]),
                               Token, fork_inst=_fork[0])
    return _fork[0]


STYLES = [s for s in gen.ClassNode.STYLES if 'inherit' not in s
          and s != 'NamedTuple']


def rand_pair(ctx, rng, depth, toks):
    """Two classes, and the names of the fields in both that correspond."""
    source = gen.rand_class(ctx, rng, 1, style=rng.choice(STYLES),
                            nfields=rng.randint(1, 5), selfref=False)
    if toks:
        source = gen.ClassNode(ctx, rng, [f for f in source.fields
                                          if not f.has_default] +
                               [gen.Field('tok_en', TokenNode())], 'plain')
    pairs = {}
    fields = []
    renames = {}
    for f in source.fields:
        if rng.random() < .2:
            continue
        name = f.name
        if rng.random() < .15:
            name = 'new_' + name
            renames[f.name] = name
        pairs[f.name] = name
        fields.append(gen.Field(name, f.node, f.default, f.has_default))
    for k in range(rng.choice([0, 0, 0, 1, 2])):
        node = rng.choice([gen.INT, gen.STR, gen.DATETIME])
        fields.append(gen.Field('more%d' % k, node, node.value(rng),
                                rng.random() < .7))
    rng.shuffle(fields)
    fields.sort(key=lambda f: f.has_default)
    target = gen.ClassNode(ctx, rng, fields, rng.choice(STYLES))
    return source, target, pairs, renames


def case(ctx, rng, i):
    jsons = util.jsons_()
    toks = rng.random() < .25
    source, target, pairs, renames = rand_pair(ctx, rng, 1, toks)
    wrap = rng.choice([None] * 5 + ['list', 'dict', 'tuple'])
    n = 1 if wrap is None else rng.randint(0, 3)
    values = [source.value(rng) for _ in range(n)]
    if wrap is None:
        obj, cls = values[0], target.ann
    else:
        ctx.ev('containers')
        obj = {'list': lambda: values, 'tuple': lambda: tuple(values),
               'dict': lambda: {'k%d' % k: v for k, v in enumerate(values)}
               }[wrap]()
        cls = {'list': lambda: gen.typing.List[target.ann],
               'tuple': lambda: gen.typing.Tuple[target.ann, ...],
               'dict': lambda: gen.typing.Dict[str, target.ann]}[wrap]()
    # Options.
    args, dump_kw, load_kw = {}, {}, {}
    clean = rng.random() < .5
    dump_args = []
    if not clean:
        if rng.random() < .5:
            ctx.ev('dump_options')
            dump_kw = util.rand_dump_options(rng, verbose=False)
        elif rng.random() < .5:
            ctx.ev('dump_options')
            dump_args = [rng.random() < .5]
            args['dump_args'] = dump_args
        if rng.random() < .6:
            ctx.ev('load_options')
            load_kw = rng.choice([
                {'strict': True}, {'strict': False},
                {'key_transformer': str.lower},
                {'attr_getters': {'more0': lambda: 7, 'x': lambda: 1}},
                {'strict': True, 'attr_getters': {}}])
        if rng.random() < .2 and wrap is None:
            args['dump_cls'] = source.ann
    if toks:
        ctx.ev('fork')
        if rng.random() < .8:
            load_kw = {**load_kw, 'fork_inst': fork()}
        if rng.random() < .8 and not dump_args:
            dump_kw = {**dump_kw, 'fork_inst': fork()}
    if dump_kw or rng.random() < .2:
        args['dump_kwargs'] = dump_kw
    log = []
    how = rng.choice(['new', 'mutate', 'raise' if rng.random() < .3
                      else 'new', 'junk' if rng.random() < .4 else 'new'])
    junk = rng.choice([0, 0, 1, 2, 3, 4])
    boom = rng.choice([Boom('x'), jsons.DeserializationError('d', 1, int),
                       KeyError('k')])

    def one(dumped):
        if not isinstance(dumped, dict):
            return dumped
        if how == 'mutate':
            for a, b in renames.items():
                if a in dumped:
                    dumped[b] = dumped.pop(a)
            return dumped
        return {renames.get(k, k): v for k, v in dumped.items()}

    def mapper(dumped):
        log.append(copy.deepcopy(dumped))
        if how == 'raise':
            raise boom
        if how == 'junk':
            return [[dumped], {}, [], None, 0][junk]
        if wrap is None:
            return one(dumped)
        if wrap == 'dict':
            return {k: one(v) for k, v in dumped.items()}
        return [one(v) for v in dumped]
    if renames or how == 'junk' or rng.random() < .3:
        args['mapper'] = mapper
    kinds = (sorted(args), sorted(dump_kw), sorted(load_kw))
    where = lambda: 'transform(%s, %s, %s, %s), mapper %s\n%s\n%s' % (
        gen.brief(obj, 600), cls, args, load_kw, how, source.source,
        target.source)
    # What is it to be?
    before = util.canon(obj)
    args_before = copy.copy(dump_kw), list(dump_args), copy.copy(load_kw)
    dumped = util.attempt(jsons.dump, obj, args.get('dump_cls'), *dump_args,
                          **dump_kw)
    want = dumped
    if dumped.ok:
        arg = copy.deepcopy(dumped.value)
        want = util.attempt(
            lambda: jsons.load(mapper(arg) if 'mapper' in args else arg, cls,
                               **load_kw))
    del log[:]
    out = util.attempt(jsons.transform, obj, cls, **args, **load_kw)
    ctx.distinct(source.label, target.label, kinds)
    found = util.same_outcome(want, out)
    ctx.check(found is None, 'composition', lambda: '%s; %s' % (found,
                                                                where()))
    if not want.ok:
        ctx.ev('errors')
        ctx.check(str(want.error) == str(out.error), 'error',
                  lambda: '%r / %r; %s' % (want, out, where()))
    ctx.check(util.canon(obj) == before and args_before == (
        dump_kw, dump_args, load_kw), 'modified', lambda: '%s; %s' % (
            before, where()))
    if 'mapper' in args:
        ctx.ev('mapped')
        ctx.check(len(log) == (1 if dumped.ok else 0) and
                  (not log or util.canon(log[0]) == util.canon(dumped.value)),
                  'mapper', lambda: 'called with %s instead of %r; %s' % (
                      log, dumped, where()))
        if how == 'raise' and dumped.ok:
            ctx.ev('mapper_errors')
            ctx.check(out.error is boom, 'mapper-error',
                      lambda: '%r; %s' % (out, where()))
    if not out.ok:
        return
    ctx.ev('transformed')
    # Options apart, the shared fields have the values of the object.
    if not clean or how == 'junk' or toks and not (
            'fork_inst' in dump_kw and 'fork_inst' in load_kw):
        return
    if renames:
        ctx.ev('renamed')
    results = [out.value] if wrap is None else list(
        out.value.values() if wrap == 'dict' else out.value)
    ctx.check(len(results) == len(values), 'elements', where)
    for a, b in zip(values, results):
        ctx.check(type(b) is target.cls, 'type', lambda: '%r; %s' % (
            out, where()))
        for f in target.fields:
            old = [k for k, v in pairs.items() if v == f.name]
            expected = getattr(a, source.attr(old[0])) if old else f.default
            ctx.ev('shared_fields')
            found = gen.diff(expected, getattr(b, target.attr(f)))
            ctx.check(found is None, 'field', lambda: '%s: %s; %s' % (
                f.name, found, where()))
    ctx.sample(where())
