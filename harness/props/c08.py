"""Missing arguments: given value, getter, default, None, else an error."""
from harness import gen, util

PID = 'C08'
RULE = ('A case is a random class (also with *args, **kwargs and keyword-only '
        'parameters and odd defaults) and a random subset of its parameters '
        'that is present, and getters for some of the others and for further '
        'attributes; alone or within containers. The result is compared to a '
        'model of the precedence. Distinct are the pairs of class and sets.')
QUICK_N = 8000
THOROUGH_N = 2000000
NEED = {'loads': 2500, 'refused': 800, 'getters_called': 800,
        'defaults_used': 600, 'nones_used': 80, 'extra_getters': 200,
        'existing': 200, 'init_only': 150}
ASSUMPTIONS = ['No getters are given for keys that are present: whose value '
               'counts then is not documented.']


class Agreeable:
    """Claims to be equal to anything."""

    def __eq__(self, other):
        return True

    def __ne__(self, other):
        return False

    __hash__ = None


def case(ctx, rng, i):
    jsons = util.jsons_()
    node = gen.rand_class(ctx, rng, rng.choice([0, 0, 1]), selfref=False)
    if rng.random() < .15:
        node = special(ctx, rng)
    elif rng.random() < .06:
        node = init_only(ctx, rng)
    named = node.style == 'NamedTuple'
    value = node.make({f.name: f.node.value(rng) for f in node.fields})
    full = jsons.dump(value)
    share = rng.choice([0, .3, .7, .9, 1])
    obj, expected, getters, counts, missing = {}, {}, {}, {}, set()
    used = rng.random() < .6 and not named

    def getter(name, result):
        counts[name] = 0

        def get():
            counts[name] += 1
            return result
        return get
    for f in node.fields:
        if rng.random() < share:
            obj[f.name] = full[f.name]
            expected[f.name] = getattr(value, node.attr(f))
        elif used and rng.random() < .6:
            expected[f.name] = rng.choice([object(), None, 5, [1], Agreeable()])
            getters[f.name] = getter(f.name, expected[f.name])
        elif f.has_default:
            expected[f.name] = f.default
            ctx.ev('defaults_used')
        elif isinstance(f.node, gen.OptionalOf) or f.node is gen.NONE \
                or isinstance(f.node, gen._Untyped):
            expected[f.name] = None
            ctx.ev('nones_used')
        else:
            missing.add(f.name)
    extra = {}
    open_ended = node.style in ('plain', 'plain_inherit', 'dataclass', 'attrs',
                                'dc_inherit', 'dc_kwonly')
    if open_ended and rng.random() < .3:
        for name in ('extra_one', 'extra_two')[:rng.randint(1, 2)]:
            extra[name] = rng.choice([object(), None, 7])
            getters[name] = getter(name, extra[name])
            ctx.ev('extra_getters')
        if node.style != 'attrs' and rng.random() < .5:
            # These may exist already.
            ctx.ev('existing')
            for name in extra:
                setattr(node.cls, name, rng.choice([None, 0, 'there']))
    strict = rng.random() < .4
    kwargs = {'strict': strict}
    if getters or rng.random() < .3:
        kwargs['attr_getters'] = getters
    before = dict(getters)
    n = rng.choice([0, 0, 0, 1, 2, 3])
    times = max(n, 1)
    if n:
        ann, source = rng.choice([
            (gen.typing.List[node.ann], [obj] * n),
            (gen.typing.Dict[str, node.ann], {str(k): obj for k in range(n)}),
            (gen.typing.Tuple[node.ann, ...], [obj] * n),
            (gen.typing.Optional[gen.typing.List[node.ann]], [obj] * n)])
    else:
        ann, source = node.ann, obj
    got = util.attempt(jsons.load, source, ann, **kwargs)
    where = lambda: 'load(%s, %s) of %s; getters %s: %r' % (
        gen.brief(source, 300), kwargs, util.describe(node), counts, got)
    ctx.distinct(node.label, sorted(obj), sorted(getters), n)
    ctx.check(getters == before, 'getters-changed', where)
    if missing:
        ctx.ev('refused')
        ctx.check(not got.ok, 'not-refused', where)
        err = got.error
        ctx.check(isinstance(err, jsons.DeserializationError), 'error', where)
        if not n:
            ctx.check(isinstance(err, jsons.UnfulfilledArgumentError)
                      and err.argument in missing and err.target is node.cls,
                      'error-argument', where)
        elif 'Optional' not in str(ann):
            ctx.check(any(m in err.message for m in missing) and err.target is node.cls,
                      'error-names', where)
        return
    ctx.ev('loads')
    ctx.check(got.ok, 'refused', where)
    results = [got.value] if not n else list(got.value.values()) \
        if isinstance(got.value, dict) else list(got.value)
    ctx.check(len(results) == times, 'count', where)
    for result in results:
        ctx.check(type(result) is node.cls, 'type', where)
        for f in node.fields:
            have, want = getattr(result, node.attr(f)), expected[f.name]
            same = have is want or not isinstance(want, Agreeable) and \
                f.name not in getters and gen.diff(want, have) is None
            if f.name not in obj and f.name not in getters and f.has_default \
                    and node.style.startswith('plain'):
                same = have is f.default
            ctx.check(same, 'value', lambda: '%s is %s instead of %s; %s' % (
                f.name, gen.brief(have), gen.brief(want), where()))
        for name, want in extra.items():
            ctx.check(getattr(result, name, results) is want, 'extra', where)
        if open_ended:
            ctx.check(set(vars(result)) == {*map(node.attr, node.fields)} |
                      set(extra), 'attributes', where)
    for name, count in counts.items():
        ctx.ev('getters_called', count)
        ctx.check(count == times, 'getter-calls', where)
    # Nothing may be left of the getters for the next load.
    if getters and not n:
        for name in extra:
            if name in vars(node.cls):
                delattr(node.cls, name)
        got = util.attempt(jsons.load, full, node.ann)
        ctx.check(got.ok and gen.diff(value, got.value) is None, 'leftover',
                  where)
    ctx.sample('%s: %s' % (node.label, sorted(obj)))


def special(ctx, rng):
    """Classes with parameters of other kinds and odd defaults."""
    fields = [gen.Field(n, rng.choice([gen.INT, gen.STR, gen.optional(gen.INT)]))
              for n in ('first', 'second', 'third')]
    for f in fields[1:]:
        if rng.random() < .6 or fields[1].has_default:
            f.has_default = True
            f.default = rng.choice([Agreeable(), None, 0, '', object()])
    node = gen.ClassNode(ctx, rng, fields, 'plain')
    d = lambda f: ' = ' + 'v_%s_d%d' % (node.name, fields.index(f)) \
        if f.has_default else ''
    a = lambda f: '%s: v_%s_t%d%s' % (f.name, node.name, fields.index(f), d(f))
    star = rng.choice(['*args', '*', '*args'])
    node.posonly = rng.choice([0, 0, 1, 2])
    slash = ['', '/, '][node.posonly == 1], ['', '/, '][node.posonly == 2]
    kw = rng.choice([', **kwargs', ''])
    node.source = (
        'class %s:\n'
        '    def __init__(self, %s, %s%s, %s%s, %s%s):\n'
        '        self.first, self.second, self.third = first, second, third\n'
        '        if %s or %s: raise RuntimeError("unexpected arguments")\n'
    ) % (node.name, a(fields[0]), slash[0], a(fields[1]), slash[1], star,
         a(fields[2]), kw,
         'args' if 'args' in star else '()', 'kwargs' if kw else '()')
    exec(node.source, gen.gen_module().__dict__)
    node.cls = node.ann = gen.gen_module().__dict__[node.name]
    return node


def init_only(ctx, rng):
    """Data classes with fields for the constructor only."""
    fields = [gen.Field(n, rng.choice([gen.INT, gen.DATETIME,
                                       gen.optional(gen.INT),
                                       gen.ListLike('List', gen.UUID_)]))
              for n in ('first', 'second', 'third')]
    for f in fields[1:]:
        if rng.random() < .5 or fields[1].has_default:
            f.has_default, f.default = True, rng.choice([None, 0, 'x'])
    node = gen.ClassNode(ctx, rng, fields, 'dataclass')
    ctx.ev('init_only')
    lines = ['@dataclass', 'class %s:' % node.name]
    for i, f in enumerate(fields):
        lines.append('    %s: dataclasses.InitVar[v_%s_t%d]%s' % (
            f.name, node.name, i, ' = v_%s_d%d' % (node.name, i)
            if f.has_default else ''))
    lines += ['    def __post_init__(self, first, second, third):',
              '        self.first, self.second, self.third = '
              'first, second, third']
    node.source = '\n'.join(lines)
    exec(node.source, gen.gen_module().__dict__)
    node.cls = node.ann = gen.gen_module().__dict__[node.name]
    return node
