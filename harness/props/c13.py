"""Verbose dumps carry what is needed to load them without a type."""
import datetime as dt
import sys
import typing

from harness import gen, util
from harness.props import c12

PID = 'C13'
RULE = ('A case is an object of a generated class (nested classes, classes in '
        'containers, subclasses in attributes of a base type) that is dumped '
        'with a verbosity, compared with the plain dump, checked for the '
        'class names by path and loaded without (or with) a type. Distinct '
        'are the pairs of class tree and verbose dump.')
QUICK_N = 4500
THOROUGH_N = 1000000
NEED = {'typeless_loads': 1000, 'container_loads': 400,
        'hints_checked': 3000, 'subclass_values': 200,
        'dump_times': 500, 'base_loads': 40, 'nested_elements': 300,
        'dumps_as_base': 60, 'in_main': 200, 'unannounced': 500,
        'transformed': 800, 'optional_dicts': 100, 'unions': 40}


def case(ctx, rng, i):
    jsons = util.jsons_()
    V = jsons.Verbosity
    util.set_zone(ctx, rng.choice(['UTC', 'UTC', 'XXX-9', 'XXX5:30']))
    subs = rng.random() < .7
    ctx.has_union = False
    node = rand_class(ctx, rng, rng.choice([0, 1, 1, 2]), subs)
    if rng.random() < .15 and not any(
            f.node in (gen.SELF, gen.SELF_LIST) for f in node.fields):
        in_main(ctx, node.cls)
    elsewhere = {'fork_inst': jsons.fork()} if rng.random() < .4 else {}
    value = node.value(rng)
    where = lambda: util.describe(node, value)
    to = fro = gen.same
    if rng.random() < .3:
        ctx.ev('transformed')
        label, to, fro = rng.choice(c12.PAIRS)
    names = {} if to is gen.same else {'key_transformer': to}
    plain = jsons.dump(value, **names)
    levels = [V.WITH_CLASS_INFO, V.WITH_EVERYTHING, True,
              V.WITH_CLASS_INFO | V.WITH_DUMP_TIME, V.WITH_DUMP_TIME,
              V.WITH_NOTHING, False]
    level = rng.choice(levels[:4] + levels)
    before = dt.datetime.now(dt.timezone.utc)
    dumped = jsons.dump(value, verbose=level, **names)
    after = dt.datetime.now(dt.timezone.utc)
    bare = without_meta(dumped)
    found = gen.diff(plain, bare, order=False)
    ctx.check(found is None, 'verbose-differs', lambda: '%s: %s; %s' % (
        level, found, where()))
    level = V.from_value(level)
    classes = V.WITH_CLASS_INFO in level
    times = V.WITH_DUMP_TIME in level
    check_meta(ctx, dumped, value, classes, times, before, after, where, to)
    if names:
        names = {'key_transformer': fro}
    ctx.distinct(node.label, repr(dumped))
    if not classes:
        if subs or ctx.has_union:
            return  # What it was cannot be told.
        loaded = jsons.load(dumped, node.cls, **names)
        found = gen.diff(value, loaded)
        ctx.check(found is None, 'load', lambda: '%s: %s; %s' % (
            level, found, where()))
        return
    if not names and rng.random() < .5:
        # (Keys that are no text are not transformed unless they become it.)
        dumped = util.through_text(rng, jsons, dumped)
    way = rng.choice([{}, {}, {'cls': node.cls}])
    if node.tuple_like:  # These carry no class info of their own.
        way = {'cls': node.cls}
    ctx.ev('typed_loads' if way else 'typeless_loads')
    strict = {'strict': rng.random() < .5, **names}
    if elsewhere:  # All classes can be imported, none were announced there.
        ctx.ev('unannounced')
        strict.update(elsewhere)
    if not node.tuple_like and rng.random() < .3:
        return in_container(ctx, rng, jsons, node, dumped, value, strict,
                            to, where)
    if node.base and not names and rng.random() < .6:
        as_base(ctx, rng, jsons, node, value, where)
    loaded = jsons.load(dumped, **way, **strict)
    found = gen.diff(value, loaded)
    ctx.check(found is None, 'load', lambda: '%s: %s %s; %s from %.1500r' % (
        found, way, strict, where(), dumped))
    ctx.sample('%s: %r' % (node.label, dumped))


def in_main(ctx, cls):
    """Make the class one of the main module."""
    main = sys.modules['__main__']
    was, cls.__module__ = cls.__module__, '__main__'
    try:
        typing.get_type_hints(cls)
    except NameError:  # It has annotations that are texts.
        cls.__module__ = was
        return
    ctx.ev('in_main')
    setattr(main, cls.__name__, cls)
    ctx.cleanups.append(lambda: delattr(main, cls.__name__))


def as_base(ctx, rng, jsons, node, value, where):
    """What is dumped strictly as a base class tells that class."""
    base = node.base.cls
    ctx.ev('dumps_as_base')
    plain = jsons.dump(value, base, strict=True)
    dumped = jsons.dump(value, base, strict=True, verbose=rng.choice([
        True, jsons.Verbosity.WITH_CLASS_INFO]))
    found = gen.diff(plain, without_meta(dumped), order=False)
    ctx.check(found is None, 'verbose-differs', lambda: 'as %s: %s; %s' % (
        base, found, where()))
    want = jsons.load(plain, base)
    loaded = jsons.load(util.through_text(rng, jsons, dumped),
                        strict=rng.random() < .5)
    found = gen.diff(want, loaded)
    ctx.check(found is None and type(loaded) is base, 'load-as-base',
              lambda: 'as %s: %s; %s from %.1500r' % (base, found, where(),
                                                      dumped))


def in_container(ctx, rng, jsons, node, dumped, value, strict, to, where):
    """Elements of containers come with class info of their own."""
    T = gen.typing
    kind = rng.choice(['list', 'dict', 'tuple', 'set-like'])
    types = [node.cls] + ([node.base.cls] if node.base else [])
    cls = rng.choice(types)
    if kind == 'list':
        source, want = [dumped, dumped], [value, value]
        cls = rng.choice([None, T.List[cls], T.Sequence[cls]])
    elif kind == 'dict':
        source = {to('k'): dumped, to('x'): dumped}
        want = {'k': value, 'x': value}
        cls = rng.choice([None, T.Dict[str, cls], T.Mapping[str, cls]])
    elif kind == 'tuple':
        source, want = [dumped, 3], (value, 3)
        cls = T.Tuple[cls, int]
    else:
        source, want = [dumped], gen.collections.deque([value])
        cls = T.Deque[cls]
    ctx.ev('container_loads')
    if node.base:
        ctx.ev('base_loads')
    loaded = jsons.load(source, cls, **strict)
    found = gen.diff(want, loaded)
    ctx.check(found is None, 'load', lambda: '%s: %s %s; %s from %.1500r' % (
        found, cls, strict, where(), source))


class SubValue(gen.Node):
    """A type of which the values are of subclasses."""
    hashable = False

    def __init__(self, base, subs, ctx):
        gen.Node.__init__(self, base.ann, 'sub of %s' % base)
        self.subs = subs
        self.ctx = ctx

    def value(self, rng):
        self.ctx.ev('subclass_values')
        return rng.choice(self.subs).value(rng)


def rand_class(ctx, rng, depth, subs):
    node = gen.rand_class(ctx, rng, 0, selfref=rng.random() < .5,
                          untyped=False)
    if not depth or node.base:
        return node
    extra = []
    for i in range(rng.randint(1, 2)):
        # There is no class info for each value of a dict or named tuple.
        flat = node.style == 'NamedTuple' or rng.random() < .3
        kid = rand_class(ctx, rng, depth - 1, subs and not flat)
        if subs and not flat and rng.random() < .4:
            base = gen.rand_class(ctx, rng, 0, 'plain', selfref=False,
                                  defaults=False, untyped=False)
            kids = [derive(ctx, rng, base, 'plain_inherit')
                    for _ in range(rng.randint(1, 2))]
            kid = SubValue(base, kids, ctx)
        name = 'sub_%d' % i if node.style == 'NamedTuple' else rng.choice(
            ['sub_%d', 'p%d', 'inner%d']) % i
        extra.append(gen.Field(name, wrap(
            ctx, rng, kid, flat, flat and node.style != 'NamedTuple')))
    fields = [f for f in node.fields if not f.has_default] + extra + \
        [f for f in node.fields if f.has_default]
    return gen.ClassNode(ctx, rng, fields, node.style)


def derive(ctx, rng, base, style):
    taken = {f.name for f in base.fields}
    names = [n for n in gen.rand_names(rng, 2, 0) if n not in taken]
    fields = base.fields + [gen.Field(n, rng.choice(gen.SCALARS))
                            for n in names]
    return gen.ClassNode(ctx, rng, fields, style, base)


def wrap(ctx, rng, node, flat, union):
    x = rng.random()
    if x < .3 or x < .4 and not flat:
        return node
    ctx.ev('nested_elements')
    if x < .4:
        key = rng.choice([gen.STR, gen.INT, gen.DATE,
                          gen.rand_hashed_key_node(rng)])
        typed = gen.DictLike(rng.choice(gen.DICT_KINDS), key, node)
        ctx.ev('optional_dicts')
        if not union or rng.random() < .4:
            return gen.OptionalOf(typed)
        ctx.ev('unions')
        ctx.has_union = True
        members = [typed, gen.rand_class(ctx, rng, 0, 'plain', selfref=False,
                                         untyped=False)]
        rng.shuffle(members)
        return gen.UnionOf(members)
    if x < .6:
        return gen.ListLike(rng.choice(['List', 'list', 'Sequence', 'Deque']),
                            node)
    if x < .7:
        return gen.TupleOf([gen.INT, node])
    if x < .9 and flat:
        return gen.DictLike(rng.choice(gen.DICT_KINDS), gen.STR, node)
    return gen.OptionalOf(node)


def without_meta(obj):
    if isinstance(obj, dict):
        return {k: without_meta(v) for k, v in obj.items() if k != '-meta'}
    if isinstance(obj, list):
        return [without_meta(v) for v in obj]
    return obj


def full_name(cls):
    return '%s.%s' % (cls.__module__, cls.__qualname__)


def check_meta(ctx, dumped, value, classes, times, before, after, where, to):
    """value is an object of a generated class, dumped with meta."""
    if isinstance(value, tuple):  # Named tuples have none of their own.
        return
    if not classes and not times:
        ctx.check('-meta' not in dumped, 'meta', where)
        return
    meta = dumped.get('-meta')
    ctx.check(isinstance(meta, dict), 'meta',
              lambda: '%r; %s' % (meta, where()))
    expected = set()
    if classes:
        expected.add('classes')
        check_hints(ctx, dumped, value, meta.get('classes'), '', where, to)
    if times:
        expected.add('dump_time')
        ctx.ev('dump_times')
        when = gen.parse_rfc3339(meta.get('dump_time', ''))
        ctx.check(when is not None and when.utcoffset() == dt.timedelta(0)
                  and before.replace(microsecond=0) <= when <= after,
                  'dump-time', lambda: '%r between %s and %s' % (
                      meta, before, after))
    ctx.check(set(meta) == expected, 'meta', lambda: '%r has not %s; %s' % (
        meta, expected, where()))


def check_hints(ctx, dumped, value, hints, path, where, to):
    for name, v in gen.attrs_of(value).items():
        if type(v).__module__ == gen.MODULE and not isinstance(v, tuple) \
                and to(name) in dumped:
            check_hints(ctx, dumped[to(name)], v, hints,
                        path + '/' + to(name), where, to)
    ctx.ev('hints_checked')
    ctx.check(isinstance(hints, dict)
              and hints.get(path or '/') == full_name(type(value)),
              'class-hint', lambda: 'at %r expected %s in %r; %s' % (
                  path, full_name(type(value)), hints, where()))
