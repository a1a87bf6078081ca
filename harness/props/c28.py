"""Strict dumps as a class take only that class into account."""
import collections
import typing

from harness import gen, util

PID = 'C28'
RULE = ('A case is a generated hierarchy of classes (annotated, with '
        'annotated constructors, slotted, data and attrs classes) with '
        'attributes of scalar types or of these very classes (also in lists, '
        'tuples and optionals), class variables and properties that children '
        'override, and an object whose attributes hold instances of children '
        'of the declared classes. It is dumped strictly and non-strictly, '
        'with or without a class or element type, and compared with a model. '
        'Distinct are the hierarchies with the type of the dump.')
QUICK_N = 6000
THOROUGH_N = 1500000
NEED = {'dumps': 8000, 'narrowed': 3000, 'by_attribute': 1000,
        'by_element': 1000, 'left_out': 5000, 'undeclared': 4000, 'full': 8000, 'overridden': 500,
        'text': 500, 'mixed_styles': 500, 'metaclasses': 1000}
ASSUMPTIONS = ['Values of dicts and attributes that are declared in '
               '__slots__ only have no declared type; a list without type '
               'whose elements are of one class is a list of that class.']
_n = [0]
NAMES = ['alpha', 'beta', 'gamma', 'delta', 'name', 'value', 'x', 'item',
         'parent', 'child', 'Upper', 'strict', 'cls', 'obj', 'é', 'id_',
         'types', 'n', 'keys', 'mode', 'kind', '_private', '_own', 'y1',
         'html_page', 'size', 'color', 'owner']


class Cls:
    def __init__(self, ctx, rng, style, base, others):
        _n[0] += 1
        self.name = 'H%d' % _n[0]
        self.style, self.base = style, base
        taken = {n.lstrip('_') for c in self.chain() if c is not self
                 for n in list(c.fields) + list(c.vars) + list(c.props)}
        names = [n for n in NAMES if n.lstrip('_') not in taken]
        if style == 'attrs':
            names = [n for n in names if n[0] != '_']
        rng.shuffle(names)
        self.fields = {}
        for _ in range(rng.randint(0, 3)):
            # (kind, class or None)
            kind = rng.choice(['scalar', 'one', 'optional', 'list', 'tuple',
                               'ellipsis', 'dict', 'any', 'bare']) \
                if others else 'scalar'
            self.fields[names.pop()] = (kind, rng.choice(others)
                                        if others else None)
        self.vars = {names.pop(): rng.choice([1, 'v', None])
                     for _ in range(rng.choice([0, 0, 1]))}
        self.props = {names.pop(): rng.choice(['2', '"p"'])
                      for _ in range(rng.choice([0, 0, 1]))}
        if base and rng.random() < .4:
            for c in base.chain():
                for n in c.vars:
                    ctx.ev('overridden')
                    self.vars[n] = 'over%d' % _n[0]
                for n in c.props:
                    ctx.ev('overridden')
                    self.props[n] = '"over%d"' % _n[0]
        # What only the constructor tells.
        self.late = [n for n in self.fields if rng.random() < .5] \
            if style == 'both' else []
        self.meta = ''
        if rng.random() < .3:
            self.meta = rng.choice(['(metaclass=abc.ABCMeta)', '(abc.ABC)'])
            ctx.ev('metaclasses')
        ns = gen.gen_module().__dict__
        self.source = self._source()
        exec(self.source, ns)
        self.cls = ns[self.name]
        ctx.cleanups.append(lambda: ns.pop(self.name, None))

    def chain(self):
        """From the root to self."""
        return (self.base.chain() if self.base else []) + [self]

    def all_fields(self):
        return {n: f for c in self.chain() for n, f in c.fields.items()}

    def declarer(self, name):
        return [c for c in self.chain() if name in c.fields][0]

    def members(self):
        res = {}
        for c in self.chain():
            res.update({n: ('var', v) for n, v in c.vars.items()})
            res.update({n: ('prop', eval(v)) for n, v in c.props.items()})
        return res

    @staticmethod
    def ann(field):
        kind, cls = field
        return {'scalar': 'object', 'any': 'typing.Any', 'bare': 'list',
                'one': '%s', 'optional': 'typing.Optional[%s]',
                'list': 'typing.List[%s]', 'tuple': 'typing.Tuple[int, %s]',
                'ellipsis': 'typing.Tuple[%s, ...]',
                'dict': 'typing.Dict[str, %s]'}[kind].replace(
                    '%s', cls.name if cls else '')

    def _source(self):
        base = '(%s)' % self.base.name if self.base else self.meta
        mark = {'dataclass': '@dataclass\n',
                'attrs': '@attr.s(auto_attribs=True)\n'}.get(self.style, '')
        lines = ['%sclass %s%s:' % (mark, self.name, base)]
        if self.style == 'slots':
            lines.append('    __slots__ = %r' % (tuple(self.fields),))
        elif self.style != 'init':
            lines += ['    %s: %s' % (n, self.ann(f))
                      for n, f in self.fields.items() if n not in self.late]
            lines += ['    __annotations__ = {}'] \
                if self.style == 'annotated' and not self.fields else []
        lines += ['    %s = %r' % v for v in self.vars.items()]
        if self.style not in ('dataclass', 'attrs'):
            every = self.all_fields()
            args = ['%s: %s' % (n, self.ann(f))
                    if self.style in ('init', 'both') else n
                    for n, f in every.items()]
            lines.append('    def __init__(self, %s):' % ', '.join(args)
                         if args else '    def __init__(self):')
            lines += ['        self.%s = %s' % (n, n) for n in every]
            lines.append('        pass')
        for name, body in self.props.items():
            lines += ['    @property', '    def %s(self):' % name,
                      '        return %s' % body]
        lines.append('    def method(self): pass')
        return '\n'.join(lines)


class Case:
    def __init__(self, ctx, rng):
        self.ctx, self.rng = ctx, rng
        styles = rng.choice([['dataclass'], ['attrs'], ['init'], ['slots'],
                             ['annotated'], ['both'], ['both', 'annotated'], ['slots', 'annotated', 'init'],
                             ['slots', 'annotated'], ['slots', 'init']])
        self.style = '+'.join(styles)
        if len(styles) > 1:
            ctx.ev('mixed_styles')
        self.classes = []
        for _ in range(rng.randint(2, 5)):
            base = rng.choice(self.classes) \
                if self.classes and rng.random() < .75 else None
            style = rng.choice(styles)
            if base and style == 'annotated' and any(
                    c.style in ('init', 'both') for c in base.chain()):
                style = 'both' if 'both' in styles else 'init'  # What only a replaced __init__ tells is lost.
            self.classes.append(Cls(ctx, rng, style, base,
                                    list(self.classes)))
        self.extras, self.alive = {}, []

    def source(self):
        return '\n'.join(c.source for c in self.classes)

    def sub(self, cls):
        """A class that is a child of cls, mostly."""
        kids = [c for c in self.classes if cls in c.chain()]
        return self.rng.choice(kids)

    def obj(self, cls, depth=0):
        kwargs = {n: self.field(f, depth) for n, f in cls.all_fields().items()}
        res = cls.cls(**kwargs)
        if self.rng.random() < .25 and hasattr(res, '__dict__'):
            # What no class declares.
            self.ctx.ev('undeclared')
            for name in self.rng.sample(['extra', 'aaa', 'zzz', 'Own', 'ö'],
                                        self.rng.randint(1, 2)):
                res.__dict__[name] = self.rng.choice([1, None, 'e', [2]])
                self.extras.setdefault(id(res), {})[name] = \
                    res.__dict__[name]
        self.alive.append(res)
        return res

    def field(self, field, depth):
        kind, cls = field
        rng = self.rng
        if kind == 'scalar':
            return rng.choice([1, 'x', None, True, 1.5])
        new = lambda: self.obj(self.sub(cls) if depth < 3 else cls, depth + 1)
        n = rng.choice([0, 1, 2, 3]) if depth < 2 else 0
        if kind == 'optional' and depth >= 2 or kind == 'any' and depth >= 2:
            return None
        return {'one': new, 'any': new,
                'optional': lambda: rng.choice([None, new()]),
                'list': lambda: [new() for _ in range(n)],
                'bare': lambda: [new() for _ in range(n)],
                'tuple': lambda: (1, new()),
                'ellipsis': lambda: tuple(new() for _ in range(n)),
                'dict': lambda: {'k%d' % k: new() for k in range(n)}}[kind]()

    def cls_of(self, obj):
        return [c for c in self.classes if c.cls is type(obj)][0]

    def model(self, obj, cls, strict):
        """cls: a Cls or None."""
        if obj is None:
            return None
        own = self.cls_of(obj)
        extras = self.extras.get(id(obj), {})
        if not strict or not cls:
            cls = own
        else:
            self.ctx.ev('left_out', len(extras))
            extras = {}
        if cls is not own:
            self.ctx.ev('narrowed')
            self.ctx.ev('left_out',
                        len(own.all_fields()) - len(cls.all_fields()))
        else:
            self.ctx.ev('full')
        res = dict(extras)
        declared = cls.members()
        for name, (_, value) in own.members().items():
            if name in declared:
                res[name] = value
        for name, (kind, sub) in cls.all_fields().items():
            value = getattr(obj, name)
            typed = strict and cls.declarer(name).style != 'slots'
            if typed and sub:
                self.ctx.ev('by_attribute')
            t = sub if typed else None
            if kind == 'scalar':
                res[name] = value
            elif kind in ('one', 'optional'):
                res[name] = self.model(value, t, strict)
            elif kind in ('list', 'ellipsis'):
                t = t or self.common(value)
                res[name] = [self.model(v, t, strict) for v in value]
            elif kind == 'tuple':
                res[name] = [1, self.model(value[1], t, strict)]
            elif kind == 'dict':
                res[name] = {k: self.model(v, None, strict)
                             for k, v in value.items()}
            elif kind == 'any':
                res[name] = self.model(value, None, strict)
            elif kind == 'bare':
                t = self.common(value)
                res[name] = [self.model(v, t, strict) for v in value]
        return res

    def common(self, objs):
        # A list without type is a list of the class of its elements.
        same = {self.cls_of(v) for v in objs}
        return same.pop() if len(same) == 1 else None


def case(ctx, rng, i):
    jsons = util.jsons_()
    c = Case(ctx, rng)
    top = rng.choice(c.classes)
    kind = rng.choice(['one', 'one', 'list', 'tuple', 'ellipsis', 'deque',
                       'iterable', 'dict', 'optional', 'attr'])
    objs = [c.obj(c.sub(top)) for _ in range(rng.randint(1, 3))]
    t = top.cls
    for strict in (True, False):
        one = lambda o: c.model(o, top, strict)
        if kind != 'one':
            ctx.ev('by_element')
        if kind in ('one', 'optional', 'attr'):
            value, want = objs[0], one(objs[0])
            cls = typing.Optional[t] if kind == 'optional' else t
        elif kind == 'tuple':
            cls = typing.Tuple[(int,) + (t,) * len(objs)]
            value, want = (3,) + tuple(objs), [3] + [one(o) for o in objs]
        elif kind == 'dict':
            cls = typing.Dict[str, t]
            value = {'a': objs[0]}
            want = {'a': c.model(objs[0], None, strict)}
        else:
            cls, make = {'list': (typing.List[t], list),
                         'ellipsis': (typing.Tuple[t, ...], tuple),
                         'deque': (typing.Deque[t], collections.deque),
                         'iterable': (typing.Iterable[t], list)}[kind]
            value, want = make(objs), [one(o) for o in objs]
        if kind == 'attr':
            cls = None
            want = c.model(objs[0], None, strict)
        where = lambda: 'dump of %s as %s, strict=%s\n%s' % (
            gen.brief(value, 600), cls, strict, c.source())
        ctx.ev('dumps')
        out = util.attempt(jsons.dump, value, cls, strict=strict)
        found = gen.json_diff(want, out.value) if out.ok else repr(out)
        ctx.check(found is None, 'attributes', lambda: '%s; %s' % (found,
                                                                   where()))
        if rng.random() < .15:
            ctx.ev('text')
            import json
            text = util.attempt(jsons.dumps, value, cls=cls, strict=strict)
            ctx.check(text.ok and json.loads(text.value) == want, 'text',
                      lambda: '%r; %s' % (text, where()))
    ctx.distinct(c.style, [(list(k.fields.values()), k.base and k.base.name)
                           for k in c.classes], kind)
    ctx.sample(where())
