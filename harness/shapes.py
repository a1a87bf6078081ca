"""Classes of more elaborate shapes than those of gen.rand_class."""
from harness import gen

STYLES = ('plain', 'slots', 'dataclass', 'frozen', 'dcslots', 'kwonly',
          'attrs', 'attrs_slots')
DECO = {'dataclass': '@dataclass', 'frozen': '@dataclass(frozen=True)',
        'dcslots': '@dataclass(slots=True)',
        'kwonly': '@dataclass(kw_only=True)',
        'attrs': '@attr.s(auto_attribs=True)',
        'attrs_slots': '@attr.s(auto_attribs=True, slots=True)'}
OPTIONS = ['', '', 'kw_only=True', 'repr=False', 'compare=False',
           'hash=False', 'metadata={"x": 1}', 'default_factory']
MIXIN = ('    def act(self):\n        return 1\n'
         '    @staticmethod\n    def stat(x: int):\n        return x\n'
         '    @classmethod\n    def make(cls):\n        return cls\n')


class Shape(gen.Node):
    """A node of a class that is made by some source."""

    def __init__(self, ctx, label, source, name, fields):
        self.source, self.name, self.fields = source, name, fields
        ns = gen.gen_module().__dict__
        before = set(ns)
        exec(source, ns)
        mine = set(ns) - before
        self.cls = ns[name]
        gen.Node.__init__(self, self.cls, '%s %s' % (label, name))
        ctx.cleanups.append(lambda: [ns.pop(n, None) for n in mine])

    def value(self, rng):
        return self.cls(**{f.name: f.node.value(rng) for f in self.fields})

    def dump(self, value):
        return {f.name: f.node.dump(getattr(value, f.name))
                for f in self.fields}


def new_name(rng):
    gen._counter[0] += 1
    return '%sS%d' % (rng.choice(gen.CLASS_PREFIXES), gen._counter[0])


def put(ctx, name, value):
    ns = gen.gen_module().__dict__
    ns[name] = value
    ctx.cleanups.append(lambda: ns.pop(name, None))
    return name


def fields_of(ctx, rng, names, nested=None):
    res = []
    for name in names:
        node = gen.rand_type(rng, rng.choice([0, 0, 1]), nested)
        res.append(gen.Field(name, node))
        res[-1].ann = put(ctx, 'v_%s_%d' % (name, gen._counter[0]), node.ann)
        if rng.random() < .2:
            res[-1].ann = repr(res[-1].ann)
    return res


def hierarchy(ctx, rng):
    """A chain or a diamond of classes with fields at every level."""
    style = rng.choice(STYLES)
    diamond = style in ('plain', 'dataclass', 'frozen', 'kwonly', 'attrs') \
        and rng.random() < .4
    levels = 4 if diamond else rng.randint(2, 5)
    top = new_name(rng)
    names = gen.rand_names(rng, rng.randint(2, 8), .1, 'plain')
    if 'attrs' in style:
        names = [n for n in names if n[0] != '_'] or ['q']
    fields = fields_of(ctx, rng, names)
    own = [[] for _ in range(levels)]
    for f in fields:
        rng.choice(own).append(f)
    parents = {0: [], 1: [0], 2: [0], 3: [1, 2]} if diamond else {
        k: [k - 1] if k else [] for k in range(levels)}
    called = [('%s_%d' % (top, k)) if k < levels - 1 else top
              for k in range(levels)]
    known = {}
    lines = []
    mixin = rng.random() < .2 and style in ('plain', 'dataclass', 'kwonly')
    if mixin:
        lines += ['class %s_mixin:' % top, MIXIN]
    for k in range(levels):
        known[k] = []
        for p in parents[k]:
            known[k] += [f for f in known[p] if f not in known[k]]
        known[k] += own[k]
        bases = [called[p] for p in parents[k]]
        if mixin and k == levels - 1:
            bases.insert(rng.randint(0, len(bases)), top + '_mixin')
        if style in DECO:
            lines.append(DECO[style])
        lines.append('class %s(%s):' % (called[k], ', '.join(bases)))
        if style == 'slots':
            lines.append('    __slots__ = %r' % (rng.choice([tuple, list])(
                f.name for f in own[k]),))
        if style in DECO:
            for f in own[k]:
                more = ''
                if style in ('dataclass', 'frozen', 'kwonly'):
                    option = rng.choice(OPTIONS)
                    if option == 'default_factory':
                        option = 'kw_only=True, default_factory=list'
                    if option:
                        more = ' = field(%s)' % option
                lines.append('    %s: %s%s' % (f.name, f.ann, more))
            if style in ('dataclass', 'frozen') and rng.random() < .2:
                lines.append('    def __post_init__(self):\n        pass')
            lines.append('    pass')
            continue
        lines.append('    def __init__(%s):' % ', '.join(
            ['self'] + ['%s: %s' % (f.name, f.ann) for f in known[k]]))
        lines += ['        %s.__init__(%s)' % (called[p], ', '.join(
            ['self'] + [f.name for f in known[p]])) for p in parents[k]]
        lines += ['        self.%s = %s' % (f.name, f.name) for f in own[k]]
        lines.append('        pass')
    ctx.ev('diamonds' if diamond else 'chains')
    return Shape(ctx, style, '\n'.join(lines), top, known[levels - 1])


class Mutual(Shape):
    """Two classes that refer to each other."""
    WAYS = [('Optional[%s]', lambda rng, new: new() if rng.random() < .5
             else None, lambda v, d: None if v is None else d(v)),
            ('List[%s]', lambda rng, new: [new() for _ in range(
                rng.choice([0, 1, 2]))], lambda v, d: [d(e) for e in v]),
            ('Dict[str, %s]', lambda rng, new: {
                k: new() for k in rng.sample(['a', 'b_c', '/', ''],
                                             rng.choice([0, 1, 2]))},
             lambda v, d: {k: d(e) for k, e in v.items()}),
            ('Tuple[%s, ...]', lambda rng, new: tuple(
                new() for _ in range(rng.choice([0, 1, 2]))),
             lambda v, d: [d(e) for e in v]),
            ('Optional[List[%s]]', lambda rng, new: None
             if rng.random() < .4 else [new()],
             lambda v, d: None if v is None else [d(e) for e in v])]

    def __init__(self, ctx, rng):
        style = rng.choice(['plain', 'dataclass', 'attrs', 'slots',
                            'NamedTuple'])
        names = [new_name(rng), new_name(rng)]
        self.plain = [fields_of(ctx, rng, ['num', 'text_']),
                      fields_of(ctx, rng, ['other'])]
        self.links = [[], []]
        for k in (0, 1):
            for n in range(rng.randint(1, 3)):
                self.links[k].append(('link%d' % n, rng.choice(self.WAYS),
                                      rng.choice([1 - k, 1 - k, k])))
        if all(to == k for k in (0, 1) for _, _, to in self.links[k]):
            self.links[0][0] = ('link0', self.WAYS[0], 1)
        lines = []
        for k in (0, 1):
            params = [(f.name, f.ann) for f in self.plain[k]] + [
                (n, repr(way[0] % names[to]))
                for n, way, to in self.links[k]]
            if style in DECO:
                lines.append(DECO[style])
            lines.append('class %s%s:' % (
                names[k], '(NamedTuple)' if style == 'NamedTuple' else ''))
            if style in ('plain', 'slots'):
                if style == 'slots':
                    lines.append('    __slots__ = %r' % (
                        [n for n, _ in params],))
                lines.append('    def __init__(self, %s):' % ', '.join(
                    '%s: %s' % p for p in params))
                lines += ['        self.%s = %s' % (n, n) for n, _ in params]
            else:
                lines += ['    %s: %s' % p for p in params]
        ctx.ev('mutual')
        Shape.__init__(self, ctx, 'mutual ' + style, '\n'.join(lines),
                       names[0], [])
        self.classes = [gen.gen_module().__dict__[n] for n in names]

    def value(self, rng, k=0, depth=0):
        kwargs = {f.name: f.node.value(rng) for f in self.plain[k]}
        for name, way, to in self.links[k]:
            if depth > 2:
                # None, [], {} or ().
                kwargs[name] = {'Op': None, 'Li': [], 'Di': {}, 'Tu': ()}[
                    way[0][:2]]
            else:
                kwargs[name] = way[1](
                    rng, lambda: self.value(rng, to, depth + 1))
        return self.classes[k](**kwargs)

    def dump(self, value, k=0):
        res = {f.name: f.node.dump(getattr(value, f.name))
               for f in self.plain[k]}
        for name, way, to in self.links[k]:
            res[name] = way[2](getattr(value, name),
                               lambda v, to=to: self.dump(v, to))
        return res


def inner(ctx, rng):
    """A class with a class in it that is the type of an attribute."""
    name = new_name(rng)
    fields = fields_of(ctx, rng, ['alpha', 'beta_'])
    style = rng.choice(['plain', 'dataclass'])
    within = rng.choice(['Inner', 'Part', 'inner_'])
    ref = repr('%s.%s' % (name, within)) if rng.random() < .5 or \
        style == 'plain' else within
    wrap = rng.choice(['%s', 'List[%s]', 'Dict[str, %s]'])
    ann = repr(wrap % ref.strip("'")) if ref[0] == "'" else wrap % ref
    params = [(f.name, f.ann) for f in fields]
    lines = ['@dataclass' if style == 'dataclass' else '',
             'class %s:' % name, '    @dataclass', '    class %s:' % within]
    lines += ['        %s: %s' % p for p in params]
    if style == 'dataclass':
        lines += ['    part: %s' % ann, '    count: int']
    else:
        lines += ['    def __init__(self, part: %s, count: int):' % ann,
                  '        self.part, self.count = part, count']
    ctx.ev('inner')

    class Part(gen.Node):
        def __init__(self, cls):
            self.cls = cls
            gen.Node.__init__(self, cls, within)

        def value(self, rng):
            return self.cls(*(f.node.value(rng) for f in fields))

        def dump(self, value):
            return {f.name: f.node.dump(getattr(value, f.name))
                    for f in fields}
    res = Shape(ctx, 'outer', '\n'.join(lines), name, [])
    part = Part(getattr(res.cls, within))
    if wrap[0] == 'L':
        part = gen.ListLike('List', part)
    elif wrap[0] == 'D':
        part = gen.DictLike('Dict', gen.STR, part)
    res.fields = [gen.Field('part', part), gen.Field('count', gen.INT)]
    return res


def rand_shape(ctx, rng):
    return rng.choice([hierarchy, hierarchy, Mutual, inner])(ctx, rng)
