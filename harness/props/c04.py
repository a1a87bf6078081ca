"""Dump and load change nothing but what they return."""
import copy

from harness import gen, util

PID = 'C04'
RULE = ('A case is a random value (or JSON structure) and random options. It '
        'is dumped (loaded) repeatedly while snapshots of the argument and of '
        'the options are compared; between the calls everything mutable in '
        'the previous result is emptied. Distinct are the pairs of type and '
        'dump.')
QUICK_N = 4000
THOROUGH_N = 1000000
NEED = {'dump_argument_checks': 4000, 'load_argument_checks': 4000,
        'results_destroyed': 4000, 'option_checks': 2000,
        'verbose_loads': 200, 'text_options': 2000, 'hashed_key_dicts': 50,
        'untyped_loads': 2000}
ASSUMPTIONS = [
    'Non-strict loading into exactly the type of the JSON value (e.g. plain '
    'dict) or Any returns that value itself, as documented; such targets are not '
    'generated for the aliasing check.']


def destroy(obj, seen=None):
    """Empty everything mutable that can be reached from obj."""
    seen = set() if seen is None else seen
    if id(obj) in seen:
        return
    seen.add(id(obj))
    if isinstance(obj, gen.MAPS):
        parts = list(obj.keys()) + list(obj.values())
    elif isinstance(obj, (list, tuple, set, frozenset, gen.collections.deque)):
        parts = list(obj)
    elif type(obj).__module__ == gen.MODULE:
        parts = list(gen.attrs_of(obj).values())
    else:
        return
    for part in parts:
        destroy(part, seen)
    if isinstance(obj, (dict, list, set, gen.collections.deque,
                        gen.collections.ChainMap)):
        obj.clear()
        if isinstance(obj, list):
            obj.append('destroyed')
        elif isinstance(obj, dict) and type(obj) is dict:
            obj['destroyed'] = 1


def case(ctx, rng, i):
    jsons = util.jsons_()
    node = util.rand_node(ctx, rng, keys_hashed=rng.random() < .4,
                          defaults=False, untyped=False)
    value = node.value(rng)
    where = lambda: util.describe(node, value)

    # Dump.
    before = copy.deepcopy(value)
    options = util.rand_dump_options(rng, node)
    options_before = {k: copy.copy(v) for k, v in options.items()}
    first = jsons.dump(value, **options)
    keep = copy.deepcopy(first)
    ctx.distinct(node.label, repr(keep))
    if '-keys' in repr(keep):
        ctx.ev('hashed_key_dicts')
    for turn in range(2):
        found = gen.diff(before, value)
        ctx.ev('dump_argument_checks')
        ctx.check(found is None, 'dump-changed-argument',
                  lambda: 'dump(%s) changed its argument: %s; %s'
                          % (options, found, where()))
        destroy(first)
        ctx.ev('results_destroyed')
        found = gen.diff(before, value)
        ctx.check(found is None, 'dump-aliases-argument',
                  lambda: 'the result of dump(%s) shares state with the '
                          'argument: %s; %s' % (options, found, where()))
        first = jsons.dump(value, **options)
        found = gen.diff(keep, first)
        ctx.check(found is None, 'dump-not-repeatable',
                  lambda: 'dump(%s) again: %s; %s' % (options, found, where()))
    ctx.ev('option_checks')
    ctx.check(options == options_before, 'dump-changed-options',
              lambda: '%s became %s' % (options_before, options))

    texts(ctx, rng, jsons, node, value)
    untyped(ctx, rng, jsons)

    # Load.
    verbose = rng.random() < .25
    source = jsons.dump(value, verbose=jsons.Verbosity.WITH_CLASS_INFO) \
        if verbose else jsons.dump(value)
    if verbose:
        ctx.ev('verbose_loads')
    if rng.random() < .3:
        source = util.through_text(rng, jsons, source)
    if rng.random() < .2:
        spoil(rng, source)
    keep_source = copy.deepcopy(source)
    kwargs = {'strict': True} if rng.random() < .4 else {}
    if rng.random() < .3:
        kwargs['key_transformer'] = rng.choice(util.transformers())
    getters = None
    if rng.random() < .3:
        getters = {name: (lambda: 5) for name in rng.sample(gen.WORDS, 2)}
        kwargs['attr_getters'] = getters
        keep_getters = dict(getters)
    first = util.attempt(jsons.load, source, node.ann, **kwargs)
    keep = copy.deepcopy(first.value)
    for turn in range(2):
        found = gen.diff(keep_source, source)
        ctx.ev('load_argument_checks')
        ctx.check(found is None, 'load-changed-argument',
                  lambda: 'load(%s) changed its argument: %s; %s'
                          % (kwargs, found, where()))
        if getters is not None:
            ctx.check(getters == keep_getters, 'load-changed-options',
                      lambda: 'attr_getters %s' % (getters,))
        if 'key_transformer' not in kwargs:
            # (With it, there may be keys without hint: those are exempt.)
            destroy(first.value)
            ctx.ev('results_destroyed')
        found = gen.diff(keep_source, source)
        ctx.check(found is None, 'load-aliases-argument',
                  lambda: 'the result of load(%s) shares state with the '
                          'argument: %s; %s' % (kwargs, found, where()))
        again = util.attempt(jsons.load, source, node.ann, **kwargs)
        ctx.check(again.ok == first.ok
                  and type(again.error) is type(first.error),
                  'load-not-repeatable', lambda: '%r / %r' % (first, again))
        first = again
        if first.ok:
            found = gen.diff(keep, first.value)
            ctx.check(found is None, 'load-not-repeatable',
                      lambda: 'load(%s) of %.500r again: %s; %s'
                              % (kwargs, source, found, where()))
    ctx.sample('%s %s' % (node.label, kwargs))


def untyped(ctx, rng, jsons):
    """JSON that is loaded without a type is no alias either."""
    ctx.ev('untyped_loads')
    source = json_value(rng, 3)
    keep = copy.deepcopy(source)
    kwargs = rng.choice([{}, {}, {'strict': True}, {'strict': False},
                         {'key_transformer': str}])
    first = jsons.load(source, **kwargs)
    keep_first = copy.deepcopy(first)
    destroy(first)
    found = gen.diff(keep, source)
    ctx.check(found is None, 'load-aliases-argument', lambda: 'the result of '
              'load(%s) shares state with the argument: %s; %r' % (
                  kwargs, found, keep))
    found = gen.diff(keep_first, jsons.load(source, **kwargs))
    ctx.check(found is None, 'load-not-repeatable', lambda: 'load(%s) of %r '
              'again: %s' % (kwargs, keep, found))


def json_value(rng, depth):
    x = rng.random()
    if depth and x < .4:
        return [json_value(rng, rng.choice([0, depth - 1]))
                for _ in range(rng.choice([0, 1, 2, 3]))]
    if depth and x < .5:  # All of a kind.
        node = rng.choice([gen.INT, gen.FLOAT, gen.BOOL, gen.STR])
        return [node.value(rng) for _ in range(rng.randint(1, 4))]
    if depth and x < .9:
        return {rng.choice(gen.WORDS): json_value(rng, depth - 1)
                for _ in range(rng.choice([0, 1, 2]))}
    return rng.choice([gen.INT, gen.FLOAT, gen.BOOL, gen.STR, gen.NONE]).value(
        rng) if x < .97 else '2020-01-01T00:00:00Z'


def texts(ctx, rng, jsons, node, value):
    """The text and bytes API, with options for the json module and types."""
    more = {}
    if rng.random() < .5:
        # The types of the values of a dict, by key.
        value = {'k%d' % n: value for n in range(rng.randint(1, 2))}
        more['types'] = {k: rng.choice([None, type(value[k])])
                         for k in rng.sample(sorted(value), 1)}
    if rng.random() < .3:
        more['strip_attr'] = rng.sample(gen.WORDS, 2)
    jdkwargs = rng.choice([{}, {'indent': 1}, {'sort_keys': False},
                           {'separators': (',', ':')}, {'skipkeys': False}])
    options = dict(more, jdkwargs=jdkwargs)
    kept = copy.deepcopy({**more, 'jdkwargs': jdkwargs}) \
        if 'types' not in more else {
            **more, 'types': dict(more['types']), 'jdkwargs': dict(jdkwargs)}
    call = rng.choice([jsons.dumps, jsons.dumpb])
    first = util.attempt(call, value, **options)
    again = util.attempt(call, value, **options)
    ctx.ev('text_options')
    ctx.check(options == kept, 'dump-changed-options',
              lambda: '%s: %s became %s' % (call.__name__, kept, options))
    ctx.check(first.ok == again.ok and first.value == again.value,
              'dump-not-repeatable', lambda: '%s with %s: %r, then %r; %s' % (
                  call.__name__, kept, first, again,
                  util.describe(node, value)))
    if not first.ok:
        return
    jdkwargs = rng.choice([{}, {'parse_int': int}, {'parse_float': float},
                           {'strict': True}])
    kept = dict(jdkwargs)
    call = jsons.loads if isinstance(first.value, str) else jsons.loadb
    for _ in range(2):
        util.attempt(call, first.value, rng.choice([None, node.ann]),
                     jdkwargs=jdkwargs)
        ctx.check(jdkwargs == kept, 'load-changed-options',
                  lambda: '%s: %s became %s' % (call.__name__, kept, jdkwargs))


def spoil(rng, source):
    """Break something somewhere to have loads that fail halfway."""
    spots = []

    def walk(obj):
        items = obj.items() if isinstance(obj, dict) else enumerate(obj)
        for key, elem in list(items):
            spots.append((obj, key))
            if isinstance(elem, (dict, list)):
                walk(elem)
    if isinstance(source, (dict, list)):
        walk(source)
    if spots:
        obj, key = rng.choice(spots)
        obj[key] = rng.choice([None, 'broken', [], {}, -1])
