"""What cannot be handled harms nothing else."""
import re
import threading

from harness import core, gen, util

PID = 'C27'
RULE = ('Dumps: a case is a random tree of objects (plain, data, attrs '
        'classes), lists, tuples and dicts with some values in it whose '
        'serializer raises. A model tells which attributes must be missing '
        'and which warnings must come; strictly it must fail. Loads: a case '
        'is a nested type of lists, tuples, dicts and classes and a structure '
        'of it with unfit leaves. With the option to warn, precisely the '
        'elements with an unfit leaf below (but not within an inner list) '
        'must be missing in the result, with a warning each; without, it '
        'must fail. Distinct are the trees with their failing places.')
QUICK_N = 14000
THOROUGH_N = 2000000
NEED = {'dumps': 2500, 'class_vars': 1000, 'dropped_attributes': 1500, 'kept_attributes': 5000,
        'strict_failures': 300, 'loads': 2500, 'dropped_elements': 2000,
        'kept_elements': 5000, 'load_failures': 900, 'parallel': 150, 'parallel_dumps': 500, 'untyped': 500,
        'clean': 300, 'suppressed': 300}
ASSUMPTIONS = ['An error of a property itself is no failing attribute: it '
               'fails the dump of the object.']


class Bad:
    def __init__(self, n):
        self.n = n


class Odd(Exception):
    pass


ERRORS = [ValueError('v'), KeyError('k'), ZeroDivisionError(), Odd('a', 'b'),
          Odd(5), TypeError(), RecursionError('r'), StopIteration('s'),
          OSError(2, 'no file'), UnicodeDecodeError('utf8', b'x', 0, 1, 'u')]
_fork = []


def fork():
    if not _fork:
        jsons = util.jsons_()
        _fork.append(jsons.fork())

        def serializer(obj, **_):
            raise ERRORS[obj.n]
        jsons.set_serializer(serializer, Bad, fork_inst=_fork[0])
        jsons.set_serializer(lambda obj, **_: obj.__name__, type,
                             fork_inst=_fork[0])
    return _fork[0]


class Fail(Exception):
    pass


_counter = [0]


class Tree:
    """A random tree with failing values, and what its dump must be."""

    def __init__(self, ctx, rng, share, dataclasses):
        self.ctx, self.rng, self.share = ctx, rng, share
        self.dataclasses = dataclasses
        self.warned = []
        self.bad = 0
        self.vars = {}
        self.public = set()

    def value(self, depth):
        rng = self.rng
        x = rng.random()
        if x < self.share:
            self.bad += 1
            return Bad(rng.randrange(len(ERRORS)))
        if depth <= 0 or x < self.share + .3:
            return rng.choice([1, 'x', None, True, 1.5, 'y' * 30])
        if x < .75:
            return self.object(depth - 1)
        kids = [self.value(depth - 1) for _ in range(rng.randint(0, 3))]
        return rng.choice([
            lambda: kids, lambda: tuple(kids),
            lambda: {'k%d' % i: v for i, v in enumerate(kids)}])()

    def object(self, depth):
        rng = self.rng
        names = gen.rand_names(rng, rng.randint(0, 5), 0)
        if rng.random() < .3:
            self.ctx.ev('privates')
            names = [n if rng.random() < .5 else '_' + n for n in names]
        _counter[0] += 1
        name = 'Holder%d' % _counter[0]
        ns = gen.gen_module().__dict__
        style = rng.choice(['@dataclass', '@attr.s(auto_attribs=True)']) \
            if self.dataclasses else rng.choice(
                ['@dataclass', '@attr.s(auto_attribs=True)', '', '', 'slots'])
        if style in ('', 'slots'):
            lines = ['class %s:' % name]
            if style:
                lines += ['    __slots__ = %r' % names]
            lines += ['    def __init__(self%s):' % ''.join(
                ', ' + n for n in names)]
            lines += ['        self.%s = %s' % (n, n) for n in names] or \
                ['        pass']
        else:
            lines = [style, 'class %s:' % name] + [
                '    %s: typing.Any' % n for n in names] + ['    pass']
        kind = None
        if rng.random() < .2:
            # A class variable with a class, or an inner class.
            self.ctx.ev('class_vars')
            kind = rng.choice(['int', 'dict', 'datetime.date', 'Tree_',
                               'collections.OrderedDict', 'inner'])
            ns['Tree_'] = Tree
            lines += ['    kind_ = %s' % kind] if kind != 'inner' else [
                '    class Inner:', '        pass']
        exec('\n'.join(lines), ns)
        self.ctx.cleanups.append(lambda: ns.pop(name, None))
        if kind not in (None, 'inner'):
            self.vars[ns[name]] = ns[name].kind_.__name__
        res = ns[name](*[self.value(depth) for _ in names])
        res.__class__.NAMES_ = names
        if 'attr.s' in style:
            # These are dumped by the names of their parameters.
            self.public.add(ns[name])
        return res

    def model(self, value):
        if isinstance(value, Bad):
            raise Fail()
        if isinstance(value, (list, tuple)):
            return [self.model(v) for v in value]
        if isinstance(value, dict):
            return {k: self.model(v) for k, v in value.items()}
        if type(value).__module__ == gen.MODULE:
            res = {}
            # In the order of a dump, in which what is warned of shows.
            for n in sorted(type(value).NAMES_):
                key = n.lstrip('_') if type(value) in self.public else n
                try:
                    res[key] = self.model(getattr(value, n))
                    self.ctx.ev('kept_attributes')
                except Fail:
                    self.ctx.ev('dropped_attributes')
                    self.warned.append((n, type(value).__name__))
            if type(value) in self.vars:
                res['kind_'] = self.vars[type(value)]
            return res
        return value


def case(ctx, rng, i):
    if i % 2:
        dump_case(ctx, rng)
    else:
        load_case(ctx, rng)
        if i % 8 == 0:
            untyped_case(ctx, rng)


def dump_case(ctx, rng):
    jsons = util.jsons_()
    ctx.ev('dumps')
    strict = rng.random() < .25
    tree = Tree(ctx, rng, rng.choice([0, .05, .15, .3]), strict)
    obj = tree.object(rng.randint(0, 4)) if rng.random() < .8 \
        else tree.value(rng.randint(0, 4))
    options = {}
    if rng.random() < .2:
        # Elements of tuples are dumped in threads.
        ctx.ev('parallel_dumps')
        obj = tuple(rng.choice([obj, tree.object(rng.randint(0, 2))])
                    for _ in range(rng.randint(1, 4)))
        options = {'tasks': rng.randint(2, 4), 'task_type': threading.Thread}
        if any(set(options) & set(dir(e)) for e in obj):
            options = {}
    plain = '<BAD>' not in show(obj)
    if plain:
        ctx.ev('clean')
    where = lambda: 'dump(%s, strict=%s, %s)' % (
        core.short(show(obj), 1500), strict, options)
    ctx.distinct(show(obj))
    fork_ = fork()
    suppressed = rng.random() < .2
    if suppressed:
        ctx.ev('suppressed')
        fork_ = jsons.fork(fork_)
        rng.choice([
            lambda: jsons.suppress_warnings(True, fork_),
            lambda: jsons.suppress_warning('attribute-not-serialized', fork_)
        ])()
    # NAMES_ is no attribute of theirs to be dumped.
    with util.recorded_warnings() as caught:
        out = util.attempt(jsons.dump, obj, strict=strict, fork_inst=fork_,
                           strip_attr=['NAMES_'], **options)
    found = [str(w.message) for w in caught]
    if strict:
        ctx.check(out.ok == plain, 'strict', lambda: '%r; %s' % (out,
                                                                 where()))
        ctx.check(not found, 'strict-warning', lambda: '%s; %s' % (found,
                                                                   where()))
        if not plain:
            ctx.ev('strict_failures')
            ctx.check(isinstance(out.error, jsons.SerializationError),
                      'strict-error', lambda: '%r; %s' % (out, where()))
            return
    try:
        want = tree.model(obj)
        failed = False
    except Fail:
        failed = True
    if failed:
        ctx.check(isinstance(out.error, jsons.SerializationError),
                  'root', lambda: '%r; %s' % (out, where()))
        return
    ctx.check(out.ok, 'fails', lambda: '%r; %s' % (out, where()))
    diff = gen.json_diff(want, out.value)
    ctx.check(diff is None, 'survivors', lambda: '%s; %s' % (diff, where()))
    if suppressed:
        ctx.check(not found, 'suppressed', lambda: '%s; %s' % (found,
                                                               where()))
        return
    named = []
    for text in found:
        match = re.match('Failed to dump attribute "(.*?)" of object of type '
                         '"(.*?)"', text)
        ctx.check(match, 'other-warning', lambda: '%s; %s' % (text, where()))
        named.append(match.groups())
    ctx.check(sorted(named) == sorted(tree.warned), 'warnings',
              lambda: '%s instead of %s; %s' % (named, tree.warned, where()))
    ctx.sample(where())


def show(value):
    if isinstance(value, Bad):
        return '<BAD>'
    if isinstance(value, (list, tuple)):
        return '%s(%s)' % (type(value).__name__, ', '.join(map(show, value)))
    if isinstance(value, dict):
        return '{%s}' % ', '.join('%s: %s' % (k, show(v))
                                  for k, v in value.items())
    if type(value).__module__ == gen.MODULE:
        return '%s(%s)' % (type(value).__name__, ', '.join(
            '%s=%s' % (n, show(getattr(value, n)))
            for n in type(value).NAMES_))
    return repr(value)


# ---------------------------------------------------------------------------
LEAVES = [(gen.DATETIME, [5, 'x', {}, None]), (gen.INT, ['x', {}, None, [1]]),
          (gen.DECIMAL, ['x', {}, None]), (gen.DATE, ['2020-13-01', [], None]),
          (gen.UUID_, ['x', None, 5]), (gen.ENUM_NODES[0], ['NOPE', None]),
          (gen.COMPLEX, [{}, 'x', None]), (gen.TIME, ['25:00:00', None])]


class Shape:
    """A nested type, a structure of it, and what its load must be."""

    def __init__(self, ctx, rng, share):
        self.ctx, self.rng, self.share = ctx, rng, share
        self.bad = 0
        self.lists = 0

    def node(self, depth):
        rng = self.rng
        x = rng.random()
        if depth <= 0 or x < .12:
            return rng.choice(LEAVES)
        if x < .6:
            return 'list', rng.choice(gen.LIST_KINDS), self.node(depth - 1)
        if x < .7:
            return 'dict', rng.choice(['Dict', 'dict', 'Mapping']), \
                self.node(depth - 1)
        if x < .8:
            return 'tuple', [self.node(depth - 1)
                             for _ in range(rng.randint(1, 3))]
        if x < .87:
            return 'ellipsis', self.node(depth - 1)
        kids = [self.node(depth - 1) for _ in range(rng.randint(1, 3))]
        fields = [gen.Field('f%d' % k, self.type_of(kid))
                  for k, kid in enumerate(kids)]
        style = rng.choice([s for s in gen.ClassNode.STYLES
                            if 'inherit' not in s])
        return 'class', gen.ClassNode(self.ctx, rng, fields, style), kids

    def type_of(self, node):
        if isinstance(node[0], gen.Node):
            return node[0]
        if node[0] == 'list':
            return gen.ListLike(node[1], self.type_of(node[2]))
        if node[0] == 'dict':
            return gen.DictLike(node[1], gen.STR, self.type_of(node[2]))
        if node[0] == 'tuple':
            return gen.TupleOf([self.type_of(n) for n in node[1]])
        if node[0] == 'ellipsis':
            return gen.TupleEllipsis(self.type_of(node[1]))
        return node[1]

    def make(self, node):
        """(structure, expected value or Fail, expected warnings)"""
        rng, ctx = self.rng, self.ctx
        if isinstance(node[0], gen.Node):
            if rng.random() < self.share:
                self.bad += 1
                return rng.choice(node[1]), Fail, []
            value = node[0].value(rng)
            return util.jsons_().dump(value), value, []
        if node[0] == 'list':
            self.lists += 1
            out, res, warned = [], [], []
            for k in range(rng.choice([0, 1, 2, 3, 5])):
                source, value, more = self.make(node[2])
                out.append(source)
                warned += more
                if value is Fail:
                    ctx.ev('dropped_elements')
                    warned.append(k)
                else:
                    ctx.ev('kept_elements')
                    res.append(value)
            make = gen.ListLike(node[1], gen.INT).make
            if not issubclass(make, gen.collections.deque):
                return out, res, warned
            return out, make(res), warned
        if node[0] == 'dict':
            made = {'k%d' % k: self.make(node[2])
                    for k in range(rng.randint(0, 3))}
        elif node[0] == 'ellipsis':
            made = dict(enumerate(self.make(node[1])
                                  for _ in range(rng.randint(0, 3))))
        elif node[0] == 'tuple':
            made = dict(enumerate(map(self.make, node[1])))
        else:
            made = {'f%d' % k: self.make(n) for k, n in enumerate(node[2])}
        warned = []
        failed = False
        for _, value, more in made.values():
            if failed:
                # What comes after a failure is not loaded anymore; but this
                # depends on the order.
                self.unsure = True
            warned += more
            failed = failed or value is Fail
        out = {k: v[0] for k, v in made.items()}
        res = {k: v[1] for k, v in made.items()}
        if node[0] in ('tuple', 'ellipsis'):
            out, res = list(out.values()), tuple(res.values())
        if failed:
            return out, Fail, warned
        if node[0] == 'class':
            res = node[1].make(res)
        return out, res, warned
    unsure = False


def load_case(ctx, rng):
    jsons = util.jsons_()
    ctx.ev('loads')
    shape = Shape(ctx, rng, rng.choice([0, .05, .15, .3]))
    options = {}
    depth = rng.randint(1, 4)
    parallel = rng.random() < .15
    if parallel:
        ctx.ev('parallel')
        node = 'list', rng.choice(gen.LIST_KINDS), rng.choice(
            LEAVES + [('tuple', [rng.choice(LEAVES) for _ in range(2)])])
        options.update(tasks=rng.randint(2, 5), task_type=threading.Thread)
    else:
        node = shape.node(depth)
        if rng.random() < .7:
            node = 'list', rng.choice(gen.LIST_KINDS), node
    if rng.random() < .4:
        options['strict'] = True
    source, want, warned = shape.make(node)
    cls = shape.type_of(node).ann
    ctx.distinct(repr(source), str(cls))
    where = lambda: 'load(%s, %s, %s)' % (source, cls, options)
    fork_ = jsons.fork()
    suppressed = rng.random() < .2
    if suppressed:
        ctx.ev('suppressed')
        rng.choice([
            lambda: jsons.suppress_warnings(True, fork_),
            lambda: jsons.suppress_warning('element-not-deserialized', fork_)
        ])()
    with util.recorded_warnings() as caught:
        out = util.attempt(jsons.load, source, cls, warn_on_fail=True,
                           fork_inst=fork_, **options)
    texts = [str(w.message) for w in caught]
    if want is Fail:
        ctx.check(isinstance(out.error, jsons.DeserializationError), 'fits',
                  lambda: '%r; %s' % (out, where()))
    else:
        found = gen.diff(want, out.value) if out.ok else repr(out)
        ctx.check(found is None, 'elements', lambda: '%s; %s' % (found,
                                                                 where()))
    if suppressed:
        ctx.check(not texts, 'suppressed', lambda: '%s; %s' % (texts,
                                                               where()))
    elif not shape.unsure:
        got = [int(re.match(r'Could not deserialize element at index (\d+)\. ',
                            t).group(1)) for t in texts]
        ctx.check(sorted(got) == sorted(warned), 'warned',
                  lambda: '%s instead of %s; %s' % (texts, warned, where()))
    # Without the option nothing is left out.
    with util.recorded_warnings() as caught:
        out = util.attempt(jsons.load, source, cls, fork_inst=fork_, **options)
    if shape.bad:
        ctx.ev('load_failures')
        ctx.check(isinstance(out.error, jsons.DeserializationError),
                  'unfit', lambda: '%r; %s' % (out, where()))
    else:
        ctx.ev('clean')
        found = gen.diff(want, out.value) if out.ok else repr(out)
        ctx.check(found is None and not caught, 'clean',
                  lambda: '%s; %s' % (found, where()))
    ctx.sample(where())


# ---------------------------------------------------------------------------
BROKEN = [object(), b'x', 1j, range(2), Odd]


def untyped(rng, depth, share):
    """A structure without types, its load and the indexes warned of."""
    x = rng.random()
    if depth <= 0 or x < .2:
        if rng.random() < share:
            return rng.choice(BROKEN), Fail, []
        value = rng.choice([1, 'x', None, True, 1.5, [], {}])
        return value, value, []
    kind = 'list' if x < .6 else 'dict' if x < .8 else 'tuple'
    source, res, warned = [], [], []
    for n in range(rng.randint(0, 4)):
        elem, value, more = untyped(rng, depth - 1, share)
        source.append(elem)
        warned += more
        if value is Fail and kind != 'list':
            # The rest is not loaded anymore.
            source += [1] * rng.randint(0, 2)
            return pack(kind, source), Fail, warned
        if value is Fail:
            warned.append(n)
        else:
            res.append(value)
    return pack(kind, source), pack(kind, res), warned


def pack(kind, elems):
    if kind == 'dict':
        return {'k%d' % n: e for n, e in enumerate(elems)}
    return elems if kind == 'list' else tuple(elems)


def untyped_case(ctx, rng):
    jsons = util.jsons_()
    ctx.ev('untyped')
    source, want, warned = untyped(rng, rng.randint(1, 4),
                                   rng.choice([.05, .15, .3]))
    cls, options = None, {}
    if rng.random() < .4:
        # The type of what is given.
        options['strict'] = True
        cls = rng.choice([type(source), None]) if type(source) in (
            list, tuple, dict) else None
    where = lambda: 'load(%r, %s, %s)' % (source, cls, options)
    ctx.distinct(re.sub('0x[0-9a-f]+', '', repr(source)))
    with util.recorded_warnings() as caught:
        out = util.attempt(jsons.load, source, cls, warn_on_fail=True,
                           **options)
    if want is Fail:
        ctx.check(isinstance(out.error, jsons.DeserializationError), 'fits',
                  lambda: '%r; %s' % (out, where()))
    else:
        found = gen.diff(want, out.value) if out.ok else repr(out)
        ctx.check(found is None, 'elements', lambda: '%s; %s' % (found,
                                                                 where()))
    texts = [str(w.message) for w in caught]
    got = [int(re.match(r'Could not deserialize element at index (\d+)\. ',
                        t).group(1)) for t in texts]
    ctx.check(sorted(got) == sorted(warned), 'warned',
              lambda: '%s instead of %s; %s' % (texts, warned, where()))
