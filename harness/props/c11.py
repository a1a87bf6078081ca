"""Strip options remove precisely what they say, at every depth."""
from harness import gen, util

PID = 'C11'
RULE = ('A case is a tree of objects of generated classes (plain, slotted, '
        'dataclasses, attrs, inheriting) with public and private attributes, '
        'properties, class variables and nulls, in containers, and a '
        'random combination of strip options. The dump is compared with a '
        'model. Distinct are the combinations of class trees and options.')
QUICK_N = 8000
THOROUGH_N = 2000000
NEED = {'dumps': 4000, 'stripped': 5000, 'kept': 8000, 'nested_objects': 2000,
        'overridden': 500, 'odd_names': 500, 'deep': 400}
ASSUMPTIONS = ['Attributes that share a name with a class variable (such as '
               'dataclass fields with a default) are not generated: they are '
               'both. Named tuples are no objects in this sense.']
NAMES = ['alpha', 'beta', 'gamma', 'delta', 'name', 'value', 'meta', 'x',
         'item_count', 'Upper', 'json_data', 'n', 'get', 'keys', 'id', 'é',
         'strip_nulls', 'cls', 'parent', 'real', 'class_', 'property_'] + [
             'm%d' % n for n in range(40)]
# That are only set by setattr.
ODD_NAMES = ['alpha beta', 'x;y', 'a,b', 'a.b', ' ', '1', 'alpha ', '-x',
             'name|value', '_private one', '_', 'x*', 'ALPHA', '[x]', '"n"']
_n = [0]


class Cls:
    """A generated class: its members by category."""

    def __init__(self, ctx, rng, base=None):
        _n[0] += 1
        self.name = 'S%d' % _n[0]
        self.style = base.style if base else rng.choice(
            ['plain', 'plain', 'dataclass', 'slots', 'attrs'])
        self.base = base
        taken = {m for m in base.all()} if base else set()
        taken |= {m.lstrip('_') for m in taken}
        names = [n for n in NAMES if n not in taken]
        rng.shuffle(names)
        pick = lambda: ('' if rng.random() < .7 else
                        rng.choice(['_', '_', '__' if self.style == 'plain'
                                    else '_'])) + names.pop()
        count = lambda: rng.choice([0, 1, 1, 2])
        self.attrs = [pick() for _ in range(count() + 1)]
        self.props = {pick(): rng.choice(['None', '1', 'self._own'])
                      for _ in range(count())}
        self.vars = {pick(): rng.choice([None, 5, 'text'])
                     for _ in range(count())}
        if base and rng.random() < .6:
            self.override(rng, ctx)
        if self.style == 'attrs':  # These lose their underscore by attrs.
            self.attrs = [a.lstrip('_') for a in self.attrs]
        self.source = self._source()
        ns = gen.gen_module().__dict__
        exec(self.source, ns)
        self.cls = ns[self.name]
        ctx.cleanups.append(lambda: ns.pop(self.name, None))

    def override(self, rng, ctx):
        """Let members take the place of inherited ones, of any kind."""
        for cls in self.base.chain():
            for name in list(cls.props) + list(cls.vars):
                if name.startswith('__') or rng.random() < .4:
                    continue
                ctx.ev('overridden')
                if rng.random() < .5:
                    self.vars.pop(name, None)
                    self.props[name] = rng.choice(['None', '1', 'self._own'])
                else:
                    self.props.pop(name, None)
                    self.vars[name] = rng.choice([None, 6, 'other'])

    def all(self):
        return (self.base.all() if self.base else []) + self.attrs \
            + list(self.props) + list(self.vars)

    def all_attrs(self):
        return (self.base.all_attrs() if self.base else []) + self.attrs

    def _source(self):
        mark = {'dataclass': '@dataclass\n',
                'attrs': '@attr.s(auto_attribs=True)\n'}.get(self.style, '')
        lines = ['%sclass %s%s:' % (mark, self.name, '(%s)' % self.base.name
                                    if self.base else '')]
        if self.style in ('dataclass', 'attrs'):
            lines += ['    %s: object' % a for a in self.attrs]
            lines += ['    %s = %r' % v for v in self.vars.items()]
        else:
            if self.style == 'slots':
                lines.append('    __slots__ = %r' % (tuple(self.attrs),))
            lines += ['    %s = %r' % v for v in self.vars.items()]
            args = self.all_attrs()
            plain = ['a%d' % i for i in range(len(args))]
            lines.append('    def __init__(self, %s):' % ', '.join(plain))
            if self.base:
                lines.append('        super().__init__(%s)' % ', '.join(
                    plain[:len(args) - len(self.attrs)]))
            lines += ['        self.%s = %s' % pair for pair in list(
                zip(args, plain))[len(args) - len(self.attrs):]]
        for name, body in self.props.items():
            lines += ['    @property', '    def %s(self):' % name,
                      '        return %s' % body.replace('self._own', '[None]')]
        lines += ['    def method(self): return 1',
                  '    @staticmethod', '    def static(): return 2',
                  '    @classmethod', '    def klass(cls): return 3']
        return '\n'.join(lines)

    def real(self, name, own=None):
        """The name after the mangling of names with two underscores."""
        for cls in self.chain():
            if name in cls.attrs or name in cls.props or name in cls.vars:
                if name.startswith('__'):
                    return '_%s%s' % (cls.name.lstrip('_'), name)
        return name

    def chain(self):
        return ([self] if not self.base else [self] + self.base.chain())


class Obj:
    """An instance with what it is made of."""

    def __init__(self, cls, values):
        self.cls, self.values, self.more = cls, values, {}
        self.obj = cls.cls(*[make(v) for v in values])


def make(value):
    if isinstance(value, Obj):
        return value.obj
    if isinstance(value, list):
        return [make(v) for v in value]
    if isinstance(value, tuple):
        return tuple(make(v) for v in value)
    if isinstance(value, dict):
        return {k: make(v) for k, v in value.items()}
    return value


def rand_value(ctx, rng, classes, depth):
    x = rng.random()
    if depth <= 0 or x < .5:
        return rng.choice([None, None, 0, '', False, 'text', 5, 1.5])
    sub = lambda: rand_value(ctx, rng, classes, depth - 1)
    if x < .7:
        ctx.ev('nested_objects')
        return rand_obj(ctx, rng, classes, depth - 1)
    kids = [sub() for _ in range(rng.randint(0, 3))]
    if x < .8:
        return kids
    if x < .87:
        return tuple(kids)
    return dict(zip(rng.sample(['k', '_private', 'alpha', 'x', '1'], 3), kids))


def rand_obj(ctx, rng, classes, depth):
    cls = rng.choice(classes)
    res = Obj(cls, [rand_value(ctx, rng, classes, depth)
                    for _ in cls.all_attrs()])
    if cls.style in ('plain', 'dataclass') and rng.random() < .25:
        for name in rng.sample(ODD_NAMES, rng.randint(1, 4)):
            ctx.ev('odd_names')
            res.more[name] = rng.choice([None, 0, 'odd', [None]])
            setattr(res.obj, name, res.more[name])
    return res


def case(ctx, rng, i):
    jsons = util.jsons_()
    classes = [Cls(ctx, rng) for _ in range(rng.randint(1, 2))]
    if rng.random() < .4:
        classes.append(Cls(ctx, rng, rng.choice(classes)))
        while rng.random() < .35 and len(classes) < 8:
            ctx.ev('deep')
            classes.append(Cls(ctx, rng, classes[-1]))
    obj = rand_obj(ctx, rng, classes, rng.choice([1, 2, 3]))
    options = {}
    for name in ('strip_nulls', 'strip_privates', 'strip_properties',
                 'strip_class_variables'):
        if rng.random() < .45:
            options[name] = rng.random() < .85
    if rng.random() < .4:
        pool = NAMES[:22] + ODD_NAMES[:rng.choice([0, 99])] + ['_' + n for n in NAMES[:22]] + [
            n for c in classes for n in c.all()] * 2
        names = rng.sample(pool, rng.randint(0, 5))
        options['strip_attr'] = rng.choice(
            [names, tuple(names), set(names), names[0] if names else '',
             frozenset(names), dict.fromkeys(names)])
        if rng.random() < .3:
            # A single name, perhaps one that looks like several.
            options['strip_attr'] = rng.choice(
                ODD_NAMES + [n for c in classes for n in c.all()])
    model = expect(ctx, obj, options)
    source, value = rng.choice([
        (model, obj.obj), ([model], [obj.obj]), ({'k': model}, {'k': obj.obj}),
        ([None, model], (None, obj.obj))])
    dumped = jsons.dump(value, **options)
    ctx.ev('dumps')
    found = gen.json_diff(source, dumped)
    ctx.check(found is None, 'strip', lambda: '%s: dump with %s of\n%s' % (
        found, options, '\n'.join(c.source for c in classes)))
    ctx.distinct([(c.style, c.attrs, c.props, c.vars) for c in classes],
                 sorted(options.items(), key=str))
    ctx.sample('%s: %r' % (options, dumped))


def expect(ctx, value, options):
    if isinstance(value, (list, tuple)):
        return [expect(ctx, v, options) for v in value]
    if isinstance(value, dict):
        res = {k: expect(ctx, v, options) for k, v in value.items()}
        if options.get('strip_nulls'):
            res = {k: v for k, v in res.items() if v is not None}
        return res
    if not isinstance(value, Obj):
        return value
    names = options.get('strip_attr', ())
    names = [names] if isinstance(names, str) else list(names)
    members = {}
    for name, v in zip(value.cls.all_attrs(), value.values):
        members[value.cls.real(name)] = (expect(ctx, v, options), None)
    for name, v in value.more.items():
        members[name] = (v, None)
    for cls in reversed(value.cls.chain()):
        for name, body in cls.props.items():
            members[cls.real(name)] = (
                {'None': None, '1': 1, 'self._own': [None]}[body],
                'strip_properties')
        for name, v in cls.vars.items():
            members[cls.real(name)] = (v, 'strip_class_variables')
    res = {}
    for name, (v, kind) in members.items():
        if kind and options.get(kind) or name in names \
                or name.startswith('_') and options.get('strip_privates') \
                or v is None and options.get('strip_nulls'):
            ctx.ev('stripped')
            continue
        ctx.ev('kept')
        if value.cls.style == 'attrs' and not options.get('strip_privates'):
            name = name.lstrip('_')
        res[name] = v
    return res
