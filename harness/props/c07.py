"""Strict loading refuses unknown attributes at any depth."""
from harness import gen, util

PID = 'C07'
RULE = ('A case is a valid dump of an instance of a random class, wrapped in '
        'up to four levels of containers and classes. The load must succeed '
        'strictly; with one or more unknown keys planted it must fail strictly '
        '(naming key and class) and succeed otherwise. Distinct are the pairs '
        'of type and planted structure.')
QUICK_N = 4000
THOROUGH_N = 2000000
NEED = {'keys': 200, 'planted': 3000, 'named': 1000, 'controls': 3000, 'deep': 800,
        'lenient': 500}
ASSUMPTIONS = ['Named tuples are documented to take lists and dicts and are '
               'not judged. Within a union (that tries its members) only '
               'the failure as such is required.']


def case(ctx, rng, i):
    jsons = util.jsons_()
    while True:
        node = gen.rand_class(ctx, rng, rng.choice([0, 0, 1]),
                              rng.choice(['frozen', 'attrs_frozen'])
                              if rng.random() < .15 else None,
                              keys_hashed=rng.random() < .2)
        if node.style != 'NamedTuple':
            break
    way = {}
    if rng.random() < .2:
        # Meta information of the object itself changes nothing.
        ctx.ev('with_meta')
        way['verbose'] = rng.choice([jsons.Verbosity.WITH_DUMP_TIME,
                                     jsons.Verbosity.WITH_EVERYTHING])
    valid = jsons.dump(node.value(rng), **way)
    kwargs = {}
    if rng.random() < .15:
        kwargs['key_transformer'] = lambda s: s  # must not matter
    outer = util.Nested(ctx, rng, node, valid,
                        rng.choice([0, 0, 1, 1, 2, 3, 4]))
    got = util.attempt(jsons.load, outer.json, outer.node.ann, strict=True,
                       **kwargs)
    ctx.ev('controls')
    ctx.check(got.ok, 'refused-clean',
              lambda: 'strict load(%s) of %s: %r' % (
                  gen.brief(outer.json, 500), util.describe(outer.node), got))
    # Unknown keys.
    names = {f.name for f in node.fields}
    unknown = [n for n in gen.WORDS + gen.ODD_NAMES + [
        '', ' ', '_x', '__init__', 'Name', 'self', '-x', '1', 'a.b', 'é',
        '__class__', '__dict__', '-cls', 'args', 'kwargs'] if n not in names]
    planted = {rng.choice(unknown): gen.rand_json(rng, 1, False)
               for _ in range(rng.choice([1, 1, 1, 2, 3]))}
    if rng.random() < .3:  # Unknown keys without much of a value.
        planted = {k: rng.choice([None, False, 0, '', [], {}])
                   for k in planted}
    items = list(valid.items())
    for key, value in planted.items():
        items.insert(rng.randint(0, len(items)), (key, value))
    spoiled = dict(items)
    source = planted_at(outer, spoiled)
    got = util.attempt(jsons.load, source, outer.node.ann, strict=True,
                       **kwargs)
    where = lambda: 'load(%s) with %r planted, of %s, strictly: %r' % (
        gen.brief(source, 500), planted, util.describe(outer.node), got)
    ctx.ev('planted')
    if len(outer.kinds) > 1:
        ctx.ev('deep')
    ctx.distinct(outer.node.label, repr(source))
    ctx.check(not got.ok, 'accepted', where)
    err = got.error
    ctx.check(isinstance(err, jsons.DeserializationError), 'error', where)
    if not outer.through_union:
        ctx.ev('named')
        ctx.check(any(repr(k)[1:-1] in err.message or k in err.message
                      for k in planted) and node.cls.__name__ in err.message
                  and err.target is node.cls, 'error-names', where)
        if not outer.through_list:
            ctx.check(isinstance(err, jsons.exceptions.SignatureMismatchError) and
                      err.argument in planted, 'error-argument', where)
    if set(planted) <= set(gen.WORDS):
        source = planted_at(outer, {**valid, **{k: 5 for k in planted}})
        got = util.attempt(jsons.load, source, outer.node.ann, **kwargs)
        ctx.ev('lenient')
        ctx.check(got.ok, 'lenient', where)
    ctx.sample('%s: %r' % (outer.node.label, planted))


def planted_at(outer, inner):
    if not outer.path:
        return inner
    res = outer.json
    cur = root = [res]
    key = 0
    for step in outer.path:
        cur[key] = dict(cur[key]) if isinstance(cur[key], dict) \
            else list(cur[key])
        cur, key = cur[key], step
    cur[key] = inner
    return root[0]
