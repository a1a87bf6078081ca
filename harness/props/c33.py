"""The default (de)serializers do for a user what dump and load do."""
import collections.abc
import datetime as dt
import decimal
import enum
import inspect
import pathlib
import typing
import uuid
from zoneinfo import ZoneInfo

from harness import gen, shapes, util

PID = 'C33'
RULE = ('Two kinds of cases. Direct: the default function for a random value '
        '(or its JSON) is obtained from jsons by its name and called with no '
        'more than the value, or the value, type and documented options; the '
        'result must be that of dump (load) with these. Delegating: in a '
        'fork, functions that only pass on what they get to the defaults are '
        'registered for a random choice of types (of the standard and of the '
        'user); dumping and loading random values with random options, and '
        'damaged JSON, must give the same results, errors and warnings as in '
        'a fork without these. Distinct are the triples of type, way and '
        'functions.')
QUICK_N = 8000
THOROUGH_N = 1500000
NEED = {'direct_dumps': 2000, 'direct_loads': 2000, 'bare': 600,
        'delegated_calls': 20000, 'same_dumps': 2000, 'same_loads': 1600,
        'same_errors': 400, 'with_classes': 800, 'verbose': 200,
        'named_tuples': 60, 'unions': 100, 'altered': 800}
ASSUMPTIONS = [
    'Errors of defaults that are called directly are not judged, nor are '
    'meta information of a JSON and lists of tasks that these get.',
    'A class with a serializer of the user may be taken by a union for any '
    'value that this serializer accepts; classes in unions get none.',
    'Delegating functions for types that are registered already are '
    'registered with low priority, for that does not alter the order of the '
    'types.']
STANDARD = [int, float, bool, str, type(None), list, tuple, dt.datetime,
            dt.date, dt.time, dt.timedelta, dt.timezone, ZoneInfo, complex,
            decimal.Decimal, uuid.UUID, pathlib.PurePath, enum.Enum,
            collections.abc.Mapping, collections.abc.Iterable, object,
            typing.List, typing.Tuple, typing.Union, typing.Optional]
LOAD_ONLY = [dict, typing.Dict, typing.DefaultDict]


def default(ctx, jsons, func):
    """The function as a user gets it."""
    res = getattr(jsons, func.__name__, None)
    ctx.check(res is func, 'exported',
              lambda: '%s is %r' % (func.__name__, res))
    return res


def subtypes(node):
    """The user classes within a type."""
    res, todo, seen = [], [node], set()
    while todo:
        n = todo.pop()
        if n is None or id(n) in seen or not isinstance(n, gen.Node):
            continue
        seen.add(id(n))
        if isinstance(n, (gen.ClassNode, shapes.Shape)):
            res.append(n.cls)
            todo += [f.node for f in n.fields]
        for v in vars(n).values():
            todo += v if isinstance(v, (list, tuple)) else [v]
    return res


def case(ctx, rng, i):
    jsons = util.jsons_()
    x = rng.random()
    if x < .08:
        node = union(ctx, rng)
    elif x < .16:
        node = shapes.rand_shape(ctx, rng)
    else:
        node = util.rand_node(ctx, rng, rng.choice([0, 1, 2]), .4,
                              keys_hashed=rng.random() < .2)
    if subtypes(node):
        ctx.ev('with_classes')
    value = node.value(rng)
    where = lambda: util.describe(node, value)
    if i % 2:
        direct(ctx, rng, jsons, node, value, where)
    else:
        delegate(ctx, rng, jsons, node, value, where)


class UnionNode(gen.Node):
    def __init__(self, nodes):
        self.nodes = nodes
        gen.Node.__init__(self, typing.Union[tuple(n.ann for n in nodes)],
                          'Union of %s' % [n.label for n in nodes])

    def value(self, rng):
        return rng.choice(self.nodes).value(rng)


def union(ctx, rng):
    ctx.ev('unions')
    classes = rng.random() < .5
    return UnionNode([
        gen.rand_class(ctx, rng, 0) if classes and rng.random() < .7
        else rng.choice(gen.SCALARS) for _ in range(rng.randint(2, 4))])


# ---------------------------------------------------------------------------
# Called by a user
# ---------------------------------------------------------------------------
OPTIONS = {'default_object_serializer': (
    'strip_nulls', 'strip_privates', 'strip_properties',
    'strip_class_variables', 'strip_attr', 'key_transformer', 'strict',
    'verbose'),
    'default_dict_serializer': ('strict', 'strip_nulls', 'key_transformer'),
    'default_enum_serializer': ('use_enum_name', 'key_transformer')}


def direct(ctx, rng, jsons, node, value, where):
    func = jsons.get_serializer(type(value))
    if hasattr(value, '_fields') and rng.random() < .5:
        ctx.ev('named_tuples')
        func = default(ctx, jsons, jsons.default_tuple_serializer)
        func = getattr(jsons, 'default_namedtuple_serializer', None)
        ctx.check(func, 'exported', where)
    elif node.label.startswith('Union of') and rng.random() < .5:
        func = jsons.get_serializer(node.ann)
    func = default(ctx, jsons, func)
    options = {}
    if rng.random() < .7:
        chosen = util.rand_dump_options(rng, verbose=False)
        known = OPTIONS.get(func.__name__, ())
        if 'serializer' in func.__name__ and known == () and rng.random() < .7:
            known = ()  # Called with nothing.
        options = {k: v for k, v in chosen.items()
                   if k in known or func.__name__.startswith(
                       ('default_list', 'default_iter', 'default_tuple',
                        'default_named'))}
    if rng.random() < .2:
        options['fork_inst'] = rng.choice([jsons.fork(),
                                           jsons.JsonSerializable])
    if func is jsons.default_object_serializer and rng.random() < .2 \
            and 'key_transformer' not in options:
        ctx.ev('verbose')
        options['verbose'] = jsons.Verbosity.WITH_CLASS_INFO
    args = ()
    if func is jsons.get_serializer(node.ann) and (
            node.label.startswith('Union of') or rng.random() < .4):
        args = (node.ann,)
    if not options and not args:
        ctx.ev('bare')
    want = util.attempt(jsons.dump, value, *args, **options)
    called = dict(options)
    if args and 'cls' not in inspect.signature(func).parameters:
        args = ()
    got = util.attempt(func, value, *args, **called)
    if want.ok:
        ctx.ev('direct_dumps')
        ctx.distinct(func.__name__, node.label, sorted(options), len(args))
        ctx.check(got.ok and repr(got.value) == repr(want.value)
                  and type(got.value) is type(want.value), 'direct-dump',
                  lambda: '%s(%s %s): %r instead of %r; %s' % (
                      func.__name__, args, options, got, want, where()))
    # The other way around.
    dumped = jsons.dump(value, node.ann)
    source = util.through_text(rng, jsons, dumped)
    if rng.random() < .4:
        ctx.ev('altered')
        source = damage(rng, source)
    options = {}
    if type(source) is node.ann or rng.random() < .5:
        options['strict'] = True
    if rng.random() < .2:
        options['fork_inst'] = rng.choice([jsons.fork(),
                                           jsons.JsonSerializable])
    want = util.attempt(jsons.load, source, node.ann, **options)
    func = jsons.get_deserializer(node.ann)
    if func is jsons.default_tuple_deserializer \
            and hasattr(node.ann, '_fields') and rng.random() < .5:
        ctx.ev('named_tuples')
        func = getattr(jsons, 'default_namedtuple_deserializer', None)
        ctx.check(func, 'exported', where)
    func = default(ctx, jsons, func)
    if func is jsons.default_mapping_deserializer and rng.random() < .4 \
            and typing.get_origin(node.ann) is dict:
        func = jsons.default_dict_deserializer
    if want.ok:
        ctx.ev('direct_loads')
        ctx.distinct(func.__name__, node.label, sorted(options))
        by_name = 'cls' in inspect.signature(func).parameters \
            and rng.random() < .3
        got = util.attempt(func, source, cls=node.ann, **options) if by_name \
            else util.attempt(func, source, node.ann, **options)
        ctx.check(got.ok and gen.diff(want.value, got.value) is None,
                  'direct-load', lambda: '%s(%r, %s): %r instead of %r; %s' % (
                      func.__name__, source, options, got, want, where()))
    # Without a type at all.
    func = default(ctx, jsons, jsons.get_deserializer(type(source)))
    if rng.random() < .3 and optional_cls(func):
        ctx.ev('bare')
        want = util.attempt(jsons.load, source)
        got = util.attempt(func, source)
        if want.ok:
            ctx.check(got.ok and gen.diff(want.value, got.value) is None,
                      'bare-load', lambda: '%s(%r): %r instead of %r' % (
                          func.__name__, source, got, want))


def optional_cls(func):
    """Whether the function can be called with nothing but the JSON."""
    params = list(inspect.signature(func).parameters.values())[1:]
    return all(p.default is not p.empty or p.kind in (
        p.VAR_KEYWORD, p.VAR_POSITIONAL) for p in params)


# ---------------------------------------------------------------------------
# Called by what a user registered
# ---------------------------------------------------------------------------
def delegate(ctx, rng, jsons, node, value, where):
    plain, fork = jsons.fork(), jsons.fork()
    classes = subtypes(node)
    calls = [0]

    def serializer(func):
        def delegated(obj, **kwargs):
            calls[0] += 1
            return func(obj, **kwargs)

        def with_cls(obj, cls=None, **kwargs):
            calls[0] += 1
            return func(obj, cls=cls, **kwargs)
        return rng.choice([delegated, with_cls])

    def deserializer(func):
        def delegated(obj, cls, **kwargs):
            calls[0] += 1
            return func(obj, cls, **kwargs)

        def by_name(obj, cls=None, **kwargs):
            calls[0] += 1
            return func(obj, cls=cls, **kwargs)
        return delegated if rng.random() < .5 or func.__name__ == \
            'default_zone_info_deserializer' else by_name

    chosen = []
    share = rng.choice([.1, .4, 1])
    for cls in STANDARD + LOAD_ONLY:
        if rng.random() < share:
            chosen.append('load %s' % cls)
            jsons.set_deserializer(deserializer(default(
                ctx, jsons, jsons.get_deserializer(cls, plain))), cls, False,
                fork_inst=fork)
        if rng.random() < share and cls not in LOAD_ONLY:
            chosen.append('dump %s' % cls)
            jsons.set_serializer(serializer(default(
                ctx, jsons, jsons.get_serializer(cls, plain))), cls, False,
                fork_inst=fork)
    for cls in classes:
        if rng.random() < share:
            chosen.append(cls.__name__)
            jsons.set_deserializer(deserializer(default(
                ctx, jsons, jsons.get_deserializer(cls, plain))), cls,
                fork_inst=fork)
            if not node.label.startswith('Union of'):
                jsons.set_serializer(serializer(default(
                    ctx, jsons, jsons.get_serializer(cls, plain))), cls,
                    fork_inst=fork)
    options = util.rand_dump_options(rng, node)
    if options.get('verbose'):
        ctx.ev('verbose')

    def both(func, *args, **kwargs):
        res = []
        for inst in (plain, fork):
            with util.recorded_warnings() as caught:
                res.append(util.attempt(func, *args, fork_inst=inst, **kwargs))
            res.append([(w.category, str(w.message)) for w in caught])
        return res
    about = lambda: 'delegating for %s; %s' % (chosen, where())
    want, warned, got, warned2 = both(jsons.dump, value, **options)
    found = agree(want, got)
    ctx.check(found is None, 'dump', lambda: 'dump(%s): %s; %s' % (
        options, found, about()))
    ctx.check(warned == warned2, 'dump-warnings', lambda: '%s / %s; %s' % (
        warned, warned2, about()))
    ctx.ev('same_dumps' if want.ok else 'same_errors')
    options = {'cls': node.ann} if rng.random() < .7 else {}
    if rng.random() < .3 and not node.label.startswith('Union of'):
        options['verbose'] = jsons.Verbosity.WITH_CLASS_INFO
    source = util.attempt(jsons.dump, value, fork_inst=plain, **options)
    if source.ok:
        source = source.value
        if rng.random() < .6:
            source = util.through_text(rng, jsons, source)
        if rng.random() < .4:
            source = damage(rng, source)
        cls = None if rng.random() < .15 else node.ann
        options = {'strict': True} if rng.random() < .4 else {}
        want, warned, got, warned2 = both(jsons.load, source, cls, **options)
        found = agree(want, got)
        ctx.check(found is None, 'load', lambda: 'load(%r, %s, %s): %s; %s' % (
            source, 'untyped' if cls is None else 'typed', options, found,
            about()))
        ctx.check(warned == warned2, 'load-warnings', lambda: '%s / %s; %s'
                  % (warned, warned2, about()))
        ctx.ev('same_loads' if want.ok else 'same_errors')
    ctx.ev('delegated_calls', calls[0])
    ctx.distinct(node.label, tuple(chosen))
    ctx.sample(about())


def agree(want, got):
    found = util.same_outcome(want, got)
    if found is None and not want.ok and str(want.error) != str(got.error) \
            and ' at 0x' not in str(want.error):
        found = '%r / %r' % (want, got)
    return found


def damage(rng, source):
    """A JSON structure with one part of it replaced, removed or added."""
    if isinstance(source, dict) and source and rng.random() < .85:
        res = dict(source)
        key = rng.choice(list(res))
        x = rng.random()
        if x < .6:
            res[key] = damage(rng, res[key])
        elif x < .8:
            del res[key]
        else:
            res['surplus'] = 1
        return res
    if isinstance(source, list) and source and rng.random() < .85:
        res = list(source)
        k = rng.randrange(len(res))
        res[k] = damage(rng, res[k])
        return res
    return rng.choice([None, 5, 'x', [], {}, True, 1.5, [None], {'a': []}])
