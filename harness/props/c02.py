"""Objects of user classes survive dump and load."""
from harness import gen, shapes, util

PID = 'C02'
RULE = ('A case is a generated class (12 styles: plain, inherited, dataclass, '
        'frozen, slots, keyword only, attrs, named tuple...; random fields, '
        'defaults, nested classes, self references, string annotations) or a '
        'hierarchy (chains, diamonds), mutually recursive or inner classes, and '
        'an object of it (or several objects of a class without hints that '
        'got different attributes one by one). The object is dumped, compared to the reference '
        'model, sent over text (or not) and loaded again, strict and not. '
        'Distinct are the pairs of class and dump.')
QUICK_N = 4500
THOROUGH_N = 1000000
NEED = dict({'dynamic': 250, 'strict_dumps': 2000, 'roundtrips': 6000, 'self_references': 50, 'nested_classes': 500,
             'chains': 100, 'diamonds': 40, 'inner': 80, 'mutual': 80},
            **{'style_' + s: 50 for s in gen.ClassNode.STYLES})
ASSUMPTIONS = [
    'Classes are importable and their constructor takes every attribute; '
    'unions of several classes, TypedDict, Generic[T] and properties are not '
    'generated here.']


def dynamic(ctx, rng, jsons):
    """Objects of one class that got different attributes one by one."""
    ns = gen.gen_module().__dict__
    gen._counter[0] += 1
    name = 'Bare%d' % gen._counter[0]
    base = rng.choice(['', '(OrigBare)'])
    source = ('class OrigBare:\n    one = 1\n' if base else '') \
        + 'class %s%s:\n    %s' % (name, base, rng.choice(
            ['pass', 'def __init__(self):\n        self.always = True']))
    exec(source, ns)
    ctx.cleanups.append(lambda: [ns.pop(n, None) for n in (name, 'OrigBare')])
    cls = ns[name]
    count = rng.randint(0, 4)
    for _ in range(rng.randint(2, 4)):
        obj = cls()
        for attr in rng.sample(['a', 'b', 'c', 'x_y', '_under', 'name', 'e',
                                'items', 'cls', 'value'],
                               count if rng.random() < .8
                               else rng.randint(0, 5)):
            setattr(obj, attr, rng.choice(
                [None, 1, 'text', True, 2.5, [], [1, 'x'], {}, {'k': [0]}]))
        want = dict(vars(obj), **({'one': 1} if base else {}))
        got = jsons.dump(obj)
        diff = gen.json_diff(want, got)
        ctx.check(diff is None, 'dump', lambda: 'dump of a %s with %r gave %r'
                  % (source, vars(obj), got))
        back = jsons.load(util.through_text(rng, jsons, got), cls)
        ctx.check(type(back) is cls and all(
            gen.json_diff(v, getattr(back, k, 'nothing')) is None
            for k, v in want.items()) and set(vars(back)) <= set(want),
                  'roundtrip', lambda: '%r was loaded as a %s with %r'
                  % (got, source, vars(back)))
        ctx.ev('dynamic')
        ctx.distinct('dynamic', repr(got))


def case(ctx, rng, i):
    jsons = util.jsons_()
    if rng.random() < .04:
        return dynamic(ctx, rng, jsons)
    if rng.random() < .25:
        node = shapes.rand_shape(ctx, rng)
        outer = node if rng.random() < .8 else gen.ListLike('List', node)
        return run(ctx, rng, jsons, outer, outer.value(rng), node)
    style = gen.ClassNode.STYLES[i % len(gen.ClassNode.STYLES)] \
        if i % 2 else None
    node = gen.rand_class(ctx, rng, rng.choice([0, 1, 1, 2]), style=style,
                          keys_hashed=rng.random() < .2)
    ctx.ev('style_' + node.style)
    value = node.value(rng)
    for f in node.fields:
        if f.node in (gen.SELF, gen.SELF_LIST) and getattr(
                value, node.attr(f)):
            ctx.ev('self_references')
        if isinstance(f.node, gen.ClassNode):
            ctx.ev('nested_classes')
    links = [f for f in node.fields if f.node is gen.SELF]
    if links and rng.random() < .4:
        ctx.ev('long_chains')
        for n in range(rng.choice([5, 12, 30])):
            if n % 5 == 0 and len(repr(node.dump(value))) > 9000:
                break
            nexxt = node.value(rng)
            setattr(nexxt, node.attr(rng.choice(links)), value)
            value = nexxt
    outer, outer_value = node, value
    x = rng.random()
    if x < .15:
        outer = gen.ListLike(rng.choice(['List', 'Sequence', 'Deque']), node)
    elif x < .25:
        outer = gen.DictLike('Dict', gen.STR, node)
    elif x < .3:
        outer = gen.TupleOf([gen.INT, node])
    elif x < .35:
        outer = gen.TupleEllipsis(node)
    elif x < .4:
        outer = gen.optional(node)
    if outer is not node:
        outer_value = outer.value(rng)
    run(ctx, rng, jsons, outer, outer_value, node)


def run(ctx, rng, jsons, node, value, cls_node):
    expected = node.dump(value)
    dump_ways = [{}, {'cls': node.ann}]
    if '<untyped>' not in str(node):  # These are left out if it is strict.
        dump_ways.append({'cls': node.ann, 'strict': True})
        ctx.ev('strict_dumps')
    for way in dump_ways if rng.random() < .3 else [rng.choice(dump_ways)]:
        dumped = jsons.dump(value, **way)
        found = gen.json_diff(expected, dumped)
        ctx.check(found is None, 'dump',
                  lambda: 'dump(%s) of %s differs from the model: %s'
                          % (way, describe(cls_node, node, value), found))
        ctx.distinct(cls_node.source.replace(cls_node.name, ''), repr(dumped))
        for text in (False, True):
            source = util.through_text(rng, jsons, dumped) if text else dumped
            strict = rng.random() < .5
            loaded = jsons.load(source, node.ann, strict=strict)
            ctx.ev('roundtrips')
            diff = gen.diff(value, loaded)
            ctx.check(diff is None, 'roundtrip',
                      lambda: 'dump(%s), %s, load(strict=%s) of %s: %s '
                              '(dumped: %.500r)'
                              % (way, 'text' if text else 'no text', strict,
                                 describe(cls_node, node, value), diff,
                                 source))
    ctx.sample(describe(cls_node, node, value))


def describe(cls_node, node, value):
    res = util.describe(cls_node)
    if node is not cls_node:
        res += '\nin %s' % node.label
    return res + '\n%s: %s' % ([f.label() for f in cls_node.fields],
                               gen.brief(gen.attrs_of(value) or value, 500))
