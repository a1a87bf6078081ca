"""A type that is given by its name is that type."""
import collections
import datetime
import decimal
import enum
import importlib.abc
import importlib.machinery
import json
import sys
import typing
import uuid

from harness import gen, util

PID = 'C32'
RULE = ('A case names random types (builtins, standard and generated classes '
        'by their module or as announced in a fork, generic types of these) '
        'and loads dumps (mutated or not), null and arbitrary JSON with the '
        'name where the type could be: as the argument and in the meta information of an object or its attributes. The '
        'outcome must be that of the type. Names that nothing has (mutated '
        'ones, of other forks, of modules that cannot be imported) must fail '
        'with the error for those. Distinct are the pairs of name and '
        'structure.')
QUICK_N = 6000
THOROUGH_N = 1000000
NEED = {'empty_tuples': 40, 'by_argument': 4000, 'by_meta': 1000,
        'attribute_meta': 700, 'announced': 800, 'generic': 1500,
        'unknown': 2500, 'broken_modules': 300, 'other_fork': 100,
        'nulls': 150, 'failing': 500, 'texts': 300, 'renamed': 100,
        'foreign_meta': 250, 'union_meta': 150,
        'no_generics': 150, 'fresh': 300}
ASSUMPTIONS = ['The outcome with the type itself is judged by other '
               'properties.',
               'What a name means that several things have (a builtin, an '
               'importable and an announced class) is not judged.']

SCALARS = [gen.INT, gen.FLOAT, gen.STR, gen.BOOL, gen.COMPLEX, gen.DATETIME,
           gen.DATE, gen.TIME, gen.TIMEDELTA, gen.DECIMAL, gen.UUID_,
           gen.ENUM_NODES[0], gen.ENUM_NODES[3], gen.NONE]
ERRORS = [ImportError, ValueError, AttributeError, TypeError, RuntimeError,
          SyntaxError, OSError, KeyError, ZeroDivisionError, RecursionError,
          UnicodeError, AssertionError, LookupError]


class Broken(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    """Has modules that fail to import in many ways."""
    PREFIX = 'vbroken_'

    def find_spec(self, name, path, target=None):
        if name.startswith(self.PREFIX):
            return importlib.machinery.ModuleSpec(name, self)

    def exec_module(self, module):
        number = int(module.__name__[len(self.PREFIX):])
        raise ERRORS[number]('this module is broken')


class Fresh(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    """Has packages and modules that nothing has imported yet."""
    PREFIX = 'vfresh_'
    number = 0
    imported = []

    def find_spec(self, name, path, target=None):
        if name.startswith(self.PREFIX):
            return importlib.machinery.ModuleSpec(name, self, is_package=True)

    def exec_module(self, module):
        self.imported.append(module.__name__)
        # Only the last part of vfresh_1.mod.sub has the class.
        if module.__name__.count('.') == int(module.__name__.split('_')[1]):
            module.Thing = type('Thing', (Other,),
                                {'__module__': module.__name__})


def fresh(ctx, rng, jsons, options):
    """The class of a module is found by importing that."""
    Fresh.number += 1
    depth = rng.choice([0, 0, 1, 2, 3])
    module = '%s%d_%d%s' % (Fresh.PREFIX, depth, Fresh.number, ''.join(
        '.part%d' % n for n in range(depth)))
    ctx.ev('fresh')
    name = module + '.Thing'
    del Fresh.imported[:]
    wrap = rng.choice(['%s', 'typing.List[%s]', 'typing.Dict[str, %s]'])
    obj, given = {'a': '5'}, wrap % name
    if wrap == '%s' and rng.random() < .5:
        obj, given = {'a': '5', '-meta': {'classes': {'/': name}}}, None
    source = [obj] if 'List' in wrap else {'k': obj} if 'Dict' in wrap else obj
    got = util.attempt(jsons.load, source, given, **options)
    value = got.value if got.ok else None
    if wrap != '%s' and got.ok:
        value = value[0] if 'List' in wrap else value['k']
    ctx.check(got.ok and type(value) is sys.modules[module].Thing
              and value.a == 5 and Fresh.imported.count(module) == 1, 'fresh',
              lambda: '%r for load(%r, %r)' % (got, source, given))
    for known in list(sys.modules):
        if known.startswith(Fresh.PREFIX):
            del sys.modules[known]


sys.meta_path[:0] = [Broken(), Fresh()]


class World:
    """A fork and the names that it knows."""

    def __init__(self, ctx, rng):
        self.ctx, self.rng = ctx, rng
        self.jsons = util.jsons_()
        self.fork = rng.choice([self.jsons.fork,
                                self.jsons.JsonSerializable.fork])()
        self.other = self.jsons.fork(self.fork)
        self.announced = {}

    def scalar(self):
        node = self.rng.choice(SCALARS)
        cls = node.ann
        return (cls.__name__ if cls.__module__ == 'builtins'
                else '%s.%s' % (cls.__module__, cls.__name__)), node

    def user_class(self):
        rng = self.rng
        node = gen.rand_class(self.ctx, rng, 0, selfref=False)
        name = '%s.%s' % (gen.MODULE, node.name)
        x = rng.random()
        if x < .5:
            return name, node
        self.ctx.ev('announced')
        if x < .7:
            # Not importable, announced by its own name.
            del gen.gen_module().__dict__[node.name]
            self.jsons.announce_class(node.cls, fork_inst=self.fork)
        else:
            name = '%s%d' % (rng.choice([
                'thing', 'some.thing', 'Some Name', 'a-b', 'é', 'no.mod.C',
                'typing.Nope', 'intx', '/x', '{}', 'x:y', "it's"]),
                len(self.announced))
            self.jsons.announce_class(node.cls, name, fork_inst=self.fork)
        self.announced[name] = node
        return name, node

    def rand(self, depth=1):
        """A name and the type (node) that it stands for."""
        rng = self.rng
        if depth <= 0 or rng.random() < .45:
            return self.user_class() if rng.random() < .45 else self.scalar()
        self.ctx.ev('generic')
        comma = rng.choice([', ', ',', ' , ', ',  '])
        kind = rng.choice(['list', 'tuple', 'dict', 'optional', 'union'])
        if kind == 'list':
            kind = rng.choice([k for k in gen.ListLike.KINDS
                               if 'et' not in k])
            name, node = self.rand(depth - 1)
            return '%s[%s]' % (self.typing(kind), name), gen.ListLike(
                kind, node)
        if kind == 'tuple' and rng.random() < .1:
            self.ctx.ev('empty_tuples')
            return 'typing.Tuple[()]', gen.TupleOf([])
        if kind == 'tuple':
            parts = [self.rand(depth - 1) for _ in range(rng.randint(1, 3))]
            return 'typing.Tuple[%s]' % comma.join(n for n, _ in parts), \
                gen.TupleOf([n for _, n in parts])
        if kind == 'dict':
            kind = rng.choice(list(gen.DictLike.KINDS))
            name, node = self.rand(depth - 1)
            return '%s[str%s%s]' % (self.typing(kind), comma, name), \
                gen.DictLike(kind, gen.STR, node)
        if kind == 'optional':
            name, node = self.rand(depth - 1)
            return 'typing.Optional[%s]' % name, gen.OptionalOf(node)
        parts = [self.rand(depth - 1) for _ in range(rng.randint(2, 3))]
        return 'typing.Union[%s]' % comma.join(n for n, _ in parts), \
            gen.UnionOf([n for _, n in parts])

    @staticmethod
    def typing(kind):
        return kind if kind[0].islower() else 'typing.' + kind


def case(ctx, rng, i):
    world = World(ctx, rng)
    jsons = world.jsons
    name, node = world.rand(rng.choice([0, 1, 1, 2]))
    cls = node.ann
    if rng.random() < .03:
        name, cls = rng.choice([
            ('object', object), ('typing.Any', typing.Any), ('list', list),
            ('dict', dict), ('tuple', tuple), ('NoneType', type(None)),
            ('set', set)])
    options = {'fork_inst': world.fork}
    if rng.random() < .4:
        options['strict'] = True
    for _ in range(2):
        source = source_of(ctx, rng, jsons, node)
        ctx.distinct(name, repr(source))
        where = lambda: '%r of %s from %s with %s' % (
            name, util.describe(node), gen.brief(source, 600), options)
        ctx.ev('by_argument')
        compare(ctx, 'argument', jsons, source, cls, name, options, where)
        texts(ctx, rng, jsons, source, cls, name, options, where)
        if cls is node.ann:
            meta(ctx, rng, world, source, node, name, options, where)
    if rng.random() < .1:
        fresh(ctx, rng, jsons, options)
    known = [name] + list(world.announced)
    for _ in range(rng.randint(0, 2)):
        unknown(ctx, rng, world, source, rng.choice(known), options)
    if world.announced:
        renamed(ctx, rng, world, options)
    ctx.sample('%s: %s' % (name, util.describe(node)))


def source_of(ctx, rng, jsons, node):
    x = rng.random()
    if x < .06:
        ctx.ev('nulls')
        return None
    if x < .12:
        source = gen.rand_json(rng)
    else:
        source = jsons.dump(node.value(rng), fork_inst=jsons.fork())
        if x < .35:
            source = gen.mutate_json(rng, source)
    return without_meta(source)


def compare(ctx, kind, jsons, source, cls, given, options, where,
            get=lambda r: r):
    """Loading as what is given equals loading as the class."""
    expected = util.attempt(jsons.load, source, cls, **options)
    got = util.attempt(jsons.load, source, given, **options)
    judge(ctx, kind, expected, got, where)


def judge(ctx, kind, expected, got, where):
    found = util.same_outcome(expected, got)
    ctx.check(found is None, kind, lambda: '%s; %r instead of %r: %s' % (
        found, got, expected, where()))
    if not expected.ok:
        ctx.ev('failing')
        ctx.check(str(got.error) == str(expected.error)
                  and getattr(got.error, 'target', None)
                  == getattr(expected.error, 'target', None), kind,
                  lambda: '%r instead of %r: %s' % (got, expected, where()))


def texts(ctx, rng, jsons, source, cls, name, options, where):
    x = rng.random()
    if x < .2:
        ctx.ev('texts')
        text = json.dumps(source)
        expected = util.attempt(jsons.loads, text, cls, **options)
        got = util.attempt(*rng.choice([
            (jsons.loads, text, name), (jsons.loadb, text.encode(), name)]),
            **options)
        judge(ctx, 'text', expected, got, where)


def meta(ctx, rng, world, source, node, name, options, where):
    jsons = world.jsons
    was = name
    if isinstance(node, gen.ClassNode) and isinstance(source, dict) \
            and '-keys' not in source:
        ctx.ev('by_meta')
        told = dict(source)
        if rng.random() < .3:
            ctx.ev('union_meta')
            name, node = rng.choice([
                ('typing.Optional[%s]', gen.OptionalOf(node)),
                ('typing.Union[float, %s]', gen.UnionOf([gen.FLOAT, node])),
                ('typing.Union[%s, int]', gen.UnionOf([node, gen.INT]))])
            name %= was
        told['-meta'] = {'classes': {'/': name}}
        expected = util.attempt(jsons.load, source, node.ann, **options)
        got = util.attempt(jsons.load, told, **options)
        if expected.ok or options.get('strict') is None:
            judge_ok(ctx, 'meta', expected, got, where)
    elif x_untyped(source):
        # Of an attribute that has no type.
        ctx.ev('attribute_meta')
        for holder in (Holder, Typed):
            told = {'part': source, 'more': 1, '-meta': {'classes': {
                '/': '%s.%s' % (__name__, holder.__name__),
                '/part': name}}}
            expected = util.attempt(jsons.load, source, node.ann, **options)
            got = util.attempt(jsons.load, told, **options)
            if got.ok:
                ctx.check(type(got.value) is holder, 'attribute', where)
                got = util.Outcome(got.value.part)
            judge_ok(ctx, 'attribute', expected, got, where)


def x_untyped(source):
    return source is not None and not isinstance(source, dict)


def judge_ok(ctx, kind, expected, got, where):
    ctx.check(expected.ok == got.ok and (not got.ok or gen.diff(
        expected.value, got.value) is None), kind, lambda:
        '%r instead of %r: %s' % (got, expected, where()))


class Holder:
    def __init__(self, part, more):
        self.part, self.more = part, more


class Typed:
    def __init__(self, more: int, part: object):
        self.part, self.more = part, more


def exists(world, name):
    import builtins
    if hasattr(builtins, name) or name in world.announced \
            or name == 'NoneType':
        return True
    module, _, attr = name.rpartition('.')
    return module in sys.modules and hasattr(sys.modules[module], attr)


def unknown(ctx, rng, world, source, known, options):
    """Names that nothing has."""
    jsons = world.jsons
    options = dict(options)
    x = rng.random()
    bad = None
    if x < .06:
        # Cannot have a type in brackets, failing in different ways.
        ctx.ev('no_generics')
        name = rng.choice([
            'http.HTTPStatus[int]', 'sys.modules[int]', 'typing.Generic[int]',
            'sys.path[str]', 'int[int]', 'print[int]', 'typing.Any[int]',
            'enum.Enum[str]', 'collections.OrderedDict[]', 'os[int]',
            'typing.List[int, int, int]', 'typing.Union[]', 'json.loads[str]',
            'typing.Dict[str]', 'typing.Optional[int, str]', 'sys.argv[int]',
            'typing.ClassVar[int, str]', 'string.digits[int]'])
        if rng.random() < .03:
            depth = rng.choice([1200, 1800])
            name = 'list[' * depth + 'int' + ']' * depth
        obj, cls = rng.choice([
            (source, name), ({'-meta': {'classes': {'/': name}}}, None),
            ({'part': 1, 'more': 1, '-meta': {'classes': {
                '/': __name__ + '.Typed', '/part': name}}}, None)])
        got = util.attempt(jsons.load, obj, cls, **options)
        ctx.check(isinstance(got.error, jsons.exceptions.UnknownClassError),
                  'no-generic', lambda: '%r for %s' % (got, name[:100]))
        return
    if x < .2:
        ctx.ev('broken_modules')
        name = Broken.PREFIX + '%d.%s' % (rng.randrange(len(ERRORS)),
                                          rng.choice(['X', 'int', 'x.Y']))
    elif x < .35 and world.announced:
        ctx.ev('other_fork')
        name = rng.choice(list(world.announced))
        options['fork_inst'] = rng.choice(
            [world.other, jsons.fork(), jsons.JsonSerializable])
        if name.startswith(gen.MODULE):
            jsons.announce_class(world.announced[name].cls, 'unused',
                                 fork_inst=options['fork_inst']) \
                if options['fork_inst'] is world.other else None
    elif x < .5:
        name = rng.choice(['vnope.X', 'harness.gen.Nope', 'vnope', 'Int',
                           'typing.Nope', '.', '..', '', 'int.X', ' int',
                           'builtins.Nope', 'harness.nope.X', '[]',
                           'typing.List[int', '\0', '💥.x'])
    elif x < .6:
        ctx.ev('foreign_meta')
        name = bad = rng.choice([5, 1.5, True, [], ['int'], {}, {'a': 'int'}])
    else:
        at = rng.randint(0, len(known))
        name = rng.choice([
            lambda: known + 'x', lambda: 'x' + known, lambda: known.upper(),
            lambda: known[:at] + 'x' + known[at:], lambda: known[1:],
            lambda: known[:at] + known[at + 1:],
            lambda: known.split('.')[-1], lambda: known.split('.')[-1],
            lambda: 'x.' + known.split('.')[-1],
            lambda: rng.choice(['no.such.', 'typing.x.', 'builtins.x.', 'x.y.',
                                'datetime.datetime.', '.', '..']) + rng.choice(
                [known.split('.')[-1], 'int', 'str', 'NoneType', 'dict']),
            lambda: known.split('.')[0]])()
        if '[' in name or ']' in name:
            name = 'typing.List[%s]' % known + 'x'
            return
    if bad is None and x >= .35 and exists(world, name):
        return
    ctx.ev('unknown')
    generic = bad is None and rng.random() < .25 and not set(name) & set('[],') \
        and name == name.strip()
    given = rng.choice(['typing.List[%s]', 'typing.Dict[str, %s]',
                        'typing.Union[int, %s]', 'list[%s]',
                        'typing.List[typing.Tuple[%s, int]]']) % name \
        if generic else name
    shapes = [({'-meta': {'classes': {'/': given}}}, None)]
    if bad is None:
        shapes += [(source, given), ({}, given)]
    shapes.append(({'part': [1], 'more': 1, '-meta': {'classes': {
        '/': __name__ + '.Holder', '/part': given}}}, None))
    obj, cls = rng.choice(shapes)
    if given in ('', [], {}) and cls is None and '/part' in obj['-meta']['classes']:
        return
    got = util.attempt(jsons.load, obj, cls, **options)
    where = lambda: '%r for load(%r, %r, %s)' % (got, obj, cls, options)
    ctx.check(isinstance(got.error, jsons.exceptions.UnknownClassError),
              'unknown', where)
    told = given.strip() if isinstance(given, str) else str(given)
    if generic or given == '[]':  # The part that is unknown.
        told = name.strip(' []')
    ctx.check(told in str(got.error), 'unknown-name', where)


def renamed(ctx, rng, world, options):
    """A name is that of the class announced last; classes have many names."""
    ctx.ev('renamed')
    jsons = world.jsons
    name = rng.choice(list(world.announced))
    before = jsons.fork(world.fork)
    jsons.announce_class(Other, name, fork_inst=world.fork)
    load = lambda fork: util.attempt(
        jsons.load, {'-meta': {'classes': {'/': name}}, 'a': 1},
        fork_inst=fork)
    got = load(world.fork)
    ctx.check(got.ok and type(got.value) is Other and got.value.a == 1,
              'renamed', lambda: '%r: %r' % (name, got))
    got = load(before)
    ctx.check(not got.ok or type(got.value) is world.announced[name].cls,
              'renamed', lambda: '%r before: %r' % (name, got))
    jsons.announce_class(Other, 'second name', fork_inst=world.fork)
    got = load(world.fork)
    ctx.check(got.ok and type(got.value) is Other, 'renamed',
              lambda: '%r after: %r' % (name, got))


class Other:
    def __init__(self, a: int):
        self.a = a


def without_meta(obj):
    if isinstance(obj, dict):
        return {k: without_meta(v) for k, v in obj.items() if k != '-meta'}
    if isinstance(obj, list):
        return [without_meta(v) for v in obj]
    return obj
