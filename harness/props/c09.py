"""Unions take the first member that fits, in both directions."""
import typing

from harness import gen, util

PID = 'C09'
RULE = ('A case is a union of two to four (some: 16) random types, alone or in a '
        'container or class, with a dump of a value of any of its members '
        '(changed or not) or arbitrary JSON. Loading is compared to loading '
        'the members one by one, and so is dumping. Distinct are the pairs of '
        'union and structure.')
QUICK_N = 4000
THOROUGH_N = 2000000
NEED = {'loads': 2000, 'later_members': 700, 'no_member': 150, 'dumps': 2500,
        'nested': 500, 'nones': 200, 'refusing': 800, 'large': 80, 'permuted': 2000, 'permuted_dumps': 800,
        'other_classes': 800, 'postponed': 200}
ASSUMPTIONS = ['The oracle takes what jsons does for the single members; '
               'these are judged by other properties.']

# jsons does not find an end when it dumps a path (or a class of it) as if it
# were of some unrelated user class: it takes all attributes for data then.
SCALARS = [s for s in gen.SCALARS if s is not gen.PATH]


def case(ctx, rng, i):
    jsons = util.jsons_()
    items = [util.rand_node(ctx, rng, rng.choice([0, 1]), .3,
                            scalars=SCALARS)
             for _ in range(rng.randint(2, 4) if rng.random() < .93
                            else rng.randint(5, 16))]
    ctx.ev('large', len(items) > 8)
    if rng.random() < .3:
        items.insert(rng.randint(0, len(items)), gen.NONE)
    union = gen.UnionOf(items)
    if typing.get_origin(union.ann) is not typing.Union:
        return  # All members were the same.
    members = typing.get_args(union.ann)
    strict = rng.random() < .5
    kwargs = {'strict': True} if strict else {}
    if rng.random() < .3:
        kwargs['fork_inst'] = refusing(ctx, rng, members)
    # Loading.
    value = union.value(rng)
    source = None
    if rng.random() < .9:
        source = jsons.dump(value)
        if rng.random() < .35:
            source = gen.mutate_json(rng, source)
        elif rng.random() < .1:
            source = gen.rand_json(rng)
    else:
        ctx.ev('nones')
    source = without_meta(source)
    singles = [util.attempt(jsons.load, source, m, **kwargs) for m in members]
    got = util.attempt(jsons.load, source, union.ann, **kwargs)
    where = lambda: 'load(%s, %s) of %s gave %r; the members: %r' % (
        gen.brief(source, 500), kwargs, union, got, singles)
    ctx.distinct(union.label, repr(source))
    good = [n for n, s in enumerate(singles) if s.ok]
    if good:
        ctx.ev('loads')
        ctx.ev('later_members', good[0] > 0)
        ctx.check(got.ok and gen.diff(singles[good[0]].value, got.value)
                  is None, 'load', where)
    else:
        ctx.ev('no_member')
        ctx.check(not got.ok and isinstance(
            got.error, jsons.DeserializationError) and
            (source is None or got.error.target == union.ann and
             got.error.source is source), 'load-error', where)
    # The same within something else.
    cls = gen.ClassNode(ctx, rng, [gen.Field('attr', union)], rng.choice(
        ['plain', 'dataclass', 'attrs', 'slots']))
    wrap, get, ann = rng.choice([
        (lambda x: [x, x], lambda r: r[1], typing.List[union.ann]),
        (lambda x: {'k': x}, lambda r: r['k'], typing.Dict[str, union.ann]),
        (lambda x: [1, x], lambda r: r[1], typing.Tuple[int, union.ann]),
        (lambda x: [x], lambda r: r[0], typing.Tuple[union.ann, ...]),
        (lambda x: {'attr': x}, lambda r: getattr(r, cls.attr('attr')),
         cls.ann)])
    # (The typing module may take a cached, "equal" union of another order.)
    kept = not typing.get_args(ann) or any(
        typing.get_args(a) == members for a in typing.get_args(ann))
    inner = util.attempt(jsons.load, wrap(source), ann, **kwargs)
    ctx.ev('nested')
    ctx.check(not kept or inner.ok == bool(good) and (not inner.ok or gen.diff(
        singles[good[0]].value, get(inner.value)) is None), 'nested',
        lambda: 'within %s: %r; %s' % (ann, inner, where()))
    permuted(ctx, rng, items, source, kwargs)
    # Dumping.
    if rng.random() < .2:
        value = util.rand_node(ctx, rng, 1,
                               scalars=SCALARS).value(rng)
    if has_path(value):
        return
    singles = [util.attempt(jsons.dump, value, m, **kwargs) for m in members]
    got = util.attempt(jsons.dump, value, union.ann, **kwargs)
    where = lambda: 'dump(%s, %s) as %s gave %r; the members: %r' % (
        gen.brief(value, 500), kwargs, union, got, singles)
    if value is None and type(None) in members:
        ctx.check(got.ok and got.value is None, 'dump-none', where)
        return
    # Classes that the value is no instance of come last.
    other = [is_other(jsons, value, m, kwargs) for m in members]
    good = [s for late in (False, True) for s, o in zip(singles, other)
            if s.ok and o is late]
    if good:
        ctx.ev('dumps')
        ctx.ev('other_classes', any(other))
        ctx.ev('postponed', good[0] is not [s for s in singles if s.ok][0])
        ctx.check(got.ok and gen.diff(good[0].value, got.value) is None,
                  'dump', where)
    else:
        ctx.check(isinstance(got.error, jsons.SerializationError),
                  'dump-error', where)
    ctx.sample('%s: %r' % (union, source))


def is_other(jsons, value, member, kwargs):
    return isinstance(member, type) and member is not object and \
        member not in type(value).__mro__ and \
        jsons.get_serializer(member, **{k: v for k, v in kwargs.items()
                                        if k == 'fork_inst'}) \
        is jsons.default_object_serializer


class Refused(Exception):
    pass


def refusing(ctx, rng, members):
    # A fork in which some members refuse some or all values.
    jsons = util.jsons_()
    fork = jsons.fork()
    ctx.ev('refusing')
    for member in members:
        if not isinstance(member, type) or member in (int, str) \
                or rng.random() < .4:  # (int and str are used elsewhere.)
            continue
        err = rng.choice([
            jsons.ValidationError('refused'), jsons.exceptions.JsonsError('no'),
            jsons.DeserializationError('refused', None, None), Refused('no'),
            ValueError('refused'), AttributeError('no'), KeyError('no'),
            jsons.SerializationError('no'), NotImplementedError()])
        how = rng.randrange(3)
        if how == 0:
            jsons.set_validator(rng.choice([raising(err), lambda _: False]),
                                member, fork_inst=fork)
        elif how == 1:
            jsons.set_deserializer(raising(err), member, fork_inst=fork)
        if how == 2 or rng.random() < .3:
            jsons.set_serializer(raising(err), member, fork_inst=fork)
    return fork


def raising(err):
    def func(*_, **__):
        raise err
    return func


def permuted(ctx, rng, items, source, kwargs):
    # Unions of the same members in another order, used in the same call.
    jsons = util.jsons_()
    unions = []
    for _ in range(rng.randint(2, 4)):
        order = list(items)
        rng.shuffle(order)
        node = gen.UnionOf(order)
        if rng.random() < .3:
            node = gen.UnionOf(order[:rng.randint(2, len(order))])
        if typing.get_origin(node.ann) is typing.Union:
            unions.append(node)
    style = rng.choice(['class', 'tuple', 'builtin'])
    expected = [util.attempt(jsons.load, source, u.ann, **kwargs)
                for u in unions]
    fields = [gen.Field('attr%s' % n, u) for n, u in enumerate(unions)]
    wrapped = {f.name: source for f in fields}
    if style == 'tuple':
        ann = typing.Tuple[tuple(u.ann for u in unions)]
        if [typing.get_args(a) for a in typing.get_args(ann)] != \
                [typing.get_args(u.ann) for u in unions]:
            return
        wrapped = [source] * len(unions)
        get = list
    else:
        if style == 'builtin':
            fields = [gen.Field(f.name, ListOf(f.node)) for f in fields]
            wrapped = {k: [v] for k, v in wrapped.items()}
        cls = gen.ClassNode(ctx, rng, fields,
                            rng.choice(['plain', 'dataclass', 'attrs']))
        ann = cls.ann
        get = lambda obj: [getattr(obj, cls.attr(f))[0]
                           if style == 'builtin'
                           else getattr(obj, cls.attr(f)) for f in fields]
    got = util.attempt(jsons.load, wrapped, ann, **kwargs)
    where = lambda: 'load(%s) of %s gave %r instead of %r' % (
        gen.brief(source, 500), ' / '.join(map(str, unions)), got, expected)
    ctx.ev('permuted')
    ctx.check(got.ok == all(e.ok for e in expected), 'permuted', where)
    if got.ok:
        ctx.check(all(gen.diff(e.value, v) is None
                      for e, v in zip(expected, get(got.value))),
                  'permuted', where)
        if style == 'tuple' or has_path(get(got.value)):
            return
        kwargs_ = {'strict': True} if rng.random() < .5 or \
            '__annotations__' not in vars(ann) else {}
        if 'fork_inst' in kwargs:
            kwargs_['fork_inst'] = kwargs['fork_inst']
        values = get(got.value)
        expected = [util.attempt(jsons.dump, v, u.ann, **kwargs_)
                    for u, v in zip(unions, values)]
        if not all(e.ok for e in expected):
            return
        expected = {f.name: [e.value] if style == 'builtin' else e.value
                    for f, e in zip(fields, expected)}
        dumped = util.attempt(jsons.dump, got.value, **kwargs_)
        ctx.ev('permuted_dumps')
        ctx.check(dumped.ok and len(dumped.value) == len(expected) and
                  gen.diff(expected, {
                      k: dumped.value[k] for k in expected
                      if k in dumped.value}) is None, 'permuted-dump', lambda: 'dump of %s as %s gave %r instead '
                  'of %r' % (gen.brief(values, 500), ' / '.join(
                      map(str, unions)), dumped, expected))


class ListOf(gen.Node):
    """Unlike typing.List, list takes no cached "equal" argument."""
    def __init__(self, node):
        gen.Node.__init__(self, list[node.ann], 'list[%s]' % node)


def has_path(value):
    if isinstance(value, gen.MAPS):
        return any(map(has_path, value.keys())) or \
            any(map(has_path, value.values()))
    if isinstance(value, (list, tuple, set, frozenset, gen.collections.deque)):
        return any(map(has_path, value))
    return isinstance(value, gen.pathlib.PurePath) or \
        type(value).__module__ == gen.MODULE and any(
            map(has_path, gen.attrs_of(value).values()))


def without_meta(obj):
    if isinstance(obj, dict):
        return {k: without_meta(v) for k, v in obj.items() if k != '-meta'}
    if isinstance(obj, list):
        return [without_meta(v) for v in obj]
    return obj
