"""What load returns is of the type that was asked for, at every level."""
from harness import gen, util

PID = 'C06'
RULE = ('A case is a random type and a JSON structure that is no exact dump of '
        'one of its values: a dump with one to four random changes, the dump '
        'of another type, or arbitrary JSON. If load accepts it, the result '
        'must be a member of the type at every level. Distinct are the pairs '
        'of type and structure that were accepted.')
QUICK_N = 8000
THOROUGH_N = 3000000
NEED = {'accepted': 1200, 'refused': 2000, 'accepted_mutants': 600,
        'subclasses': 100, 'python_sources': 800}
ASSUMPTIONS = ['A bool counts as an int. -meta sections, that may rightly '
               'change the type, are not in the input.']


def without_meta(obj):
    if isinstance(obj, dict):
        return {k: without_meta(v) for k, v in obj.items() if k != '-meta'}
    if isinstance(obj, list):
        return [without_meta(v) for v in obj]
    return obj


def case(ctx, rng, i):
    jsons = util.jsons_()
    node = util.rand_node(ctx, rng, keys_hashed=rng.random() < .2)
    if rng.random() < .05:
        node = gen.rand_type(rng, rng.choice([0, 1, 2]), subclasses=.7)
        if any(s.label in node.label for s in gen.SUBCLASSES):
            ctx.ev('subclasses')
    if rng.random() < .15:
        node = gen.UnionOf([node] + [util.rand_node(ctx, rng, 1)
                                     for _ in range(rng.randint(1, 3))])
        if rng.random() < .4:
            node = rng.choice([lambda: gen.ListLike('List', node),
                               lambda: gen.DictLike('Dict', gen.STR, node)])()
    x = rng.random()
    valid = jsons.dump(node.value(rng))
    if x < .65:
        source = gen.mutate_json(rng, valid, rng.choice([1, 1, 1, 2, 4]))
    elif x < .8:
        other = util.rand_node(ctx, rng)
        source = jsons.dump(other.value(rng))
    elif x < .9:
        source = gen.rand_json(rng, 3)
    else:
        source = swapped(rng, valid)
    source = without_meta(source)
    strict = rng.random() < .5
    sources = [source, util.through_text(rng, jsons, source)]
    if rng.random() < .3:
        sources.append(as_python(rng, source))
        if sources[-1] != source:
            ctx.ev('python_sources')
    for src in sources:
        got = util.attempt(jsons.load, src, node.ann, strict=strict)
        if not got.ok:
            ctx.ev('refused')
            continue
        ctx.ev('accepted')
        if x < .65:
            ctx.ev('accepted_mutants')
        ctx.distinct(node.label, repr(source))
        found = gen.misfit(node, got.value)
        ctx.check(found is None, 'misfit',
                  lambda: 'load(%s, strict=%s) of %s gave %s: %s' % (
                      gen.brief(src, 500), strict, util.describe(node),
                      gen.brief(got.value, 500), found))
        ctx.sample('load(%r, %s)' % (source, node.label))


def as_python(rng, obj):
    """Tuples and sets, that some formats have, instead of lists."""
    if isinstance(obj, dict):
        # zoneinfo itself takes a tuple as a key and a default, and returns it.
        return {k: v if k == 'key' else as_python(rng, v)
                for k, v in obj.items()}
    if not isinstance(obj, list):
        return obj
    res = [as_python(rng, v) for v in obj]
    kinds = [tuple, tuple, list]
    if not any(isinstance(v, (list, dict, set)) for v in res):
        try:
            set(res)
            kinds += [set, frozenset]
        except TypeError:
            pass
    return rng.choice(kinds)(res)


def swapped(rng, obj):
    """Scalars of other types at one or all of the leaves."""
    obj = [gen.mutate_json(rng, obj, 0)]
    spots = [(c, k) for c, k in gen.spots_of(obj)
             if not isinstance(c[k], (list, dict))]
    if not spots:
        return obj[0]
    for cur, key in rng.sample(spots, min(len(spots),
                                          rng.choice([1, 1, 2, 50]))):
        value = cur[key]
        cur[key] = rng.choice([
            lambda: str(value), lambda: [value], lambda: {'': value},
            lambda: None, lambda: not value, lambda: 1.0, lambda: 1,
            lambda: '1', lambda: 'true', lambda: '', lambda: 0,
            lambda: float('nan')])()
    return obj[0]
