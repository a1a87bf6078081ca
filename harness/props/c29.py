"""Attributes that are no constructor parameters are restored."""
import copy
from datetime import datetime

from harness import gen, util

PID = 'C29'
RULE = ('A case is a generated class (plain, slotted, data, attrs, frozen, '
        'inheriting) with constructor parameters, further attributes that '
        'are annotated in it or in its base or not at all, properties with '
        'and without setter and class variables, and an instance, that is '
        'dumped (also verbosely, or with more keys planted) and loaded. Each '
        'attribute must be restored with its type, properties must still '
        'work, and the class must be what it was. Distinct are the pairs of '
        'class and structure.')
QUICK_N = 4000
THOROUGH_N = 1500000
NEED = {'inherited_constructors': 100, 'annotated': 1800, 'inherited': 500, 'unannotated': 1500,
        'planted': 1500, 'verbose': 700, 'by_meta': 250, 'read_only': 1200,
        'setters': 800, 'class_vars': 1000, 'ignored': 400, 'unfit': 150,
        'nested': 700, 'marked': 250,
        'refused': 200, 'getters': 300, 'slots_beside_ignored': 100}
ASSUMPTIONS = ['Without annotation or class info a value is taken as it is '
               'in the JSON. Names with double underscores are not used.']
WORDS = ['alpha', 'beta', 'gamma', 'delta', 'name', 'value', 'x', 'item',
         'parent', 'child', 'upper', 'strict', 'cls', 'obj', 'é', 'id_',
         'types', 'n', 'keys', 'mode', 'kind', '_private', '_own', 'y1',
         'html_page', 'size', 'color', 'owner', 'meta_hints', 'instance',
         'attr_getters', 'fork_inst', 'key_transformer', 'json', 'load']
_n = [0]


class Thing(gen.Node):
    """A generated class."""

    def __init__(self, ctx, rng, base=None, depth=1, inner=False):
        self.ctx = ctx
        _n[0] += 1
        self.name = 'Thing%d' % _n[0]
        self.base = base
        self.style = base.style if base else rng.choice(
            ['plain', 'plain', 'plain', 'dataclass', 'attrs', 'slots',
             'frozen'])
        names = [w for w in WORDS if w not in (base.all() if base else ())]
        if self.style in ('attrs',):
            names = [w for w in names if w[0] != '_']
        rng.shuffle(names)
        self.node = lambda: Thing(ctx, rng, None, depth - 1, True) \
            if depth > 0 and rng.random() < .25 \
            else util.rand_node(ctx, rng, 1, .25, untyped=False)
        pick = lambda n: [names.pop() for _ in range(rng.randint(0, n))]
        params = {w: self.node() for w in pick(3)}
        self.params = {**(base.params if base else {}), **params}
        # Annotated, no parameters.
        self.own = {w: self.node() for w in pick(2)}
        self.annotated = {**(base.annotated if base else {}), **self.own}
        self.inherited = set(base.annotated) if base else set()
        # What such a class does not take is ignored.
        self.closed = self.style in ('slots', 'frozen')
        if self.style == 'frozen':
            self.own, self.annotated = {}, {}
        self.loose = names[:3]
        del names[:3]
        self.read_only = pick(1)
        self.setters = pick(1) if not self.closed and not inner else []
        self.vars = {w: rng.choice([1, 'v', None, [1]]) for w in pick(0 if inner else 1)}
        self.marked = rng.random() < .4
        ns = gen.gen_module().__dict__
        self.source = self._source(params, ns)
        exec(self.source, ns)
        self.cls = ns[self.name]
        gen.Node.__init__(self, self.cls, '%s(%s)%s' % (
            self.style, ', '.join('%s: %s' % p for p in self.params.items()),
            ' + %s' % self.annotated))
        ctx.cleanups.append(lambda: ns.pop(self.name, None))

    def all(self):
        return set(self.params) | set(self.annotated) | set(self.read_only) \
            | set(self.setters) | set(self.vars) | {'back_' + s
                                                    for s in self.setters}

    def _source(self, params, ns):
        ann = lambda w, node: '%s: ann_%s_%s' % (w, self.name, w)
        for w, node in {**self.params, **self.own}.items():
            ns['ann_%s_%s' % (self.name, w)] = node.ann
        base = '(%s)' % self.base.name if self.base else ''
        mark = {'dataclass': '@dataclass', 'frozen': '@dataclass(frozen=True)',
                'attrs': '@attr.s(auto_attribs=True)'}.get(self.style, '')
        lines = [mark, 'class %s%s:' % (self.name, base)]
        if self.style == 'slots':
            lines.append('    __slots__ = %r' % (
                tuple(params) + tuple(self.own),))
        if mark:
            lines += ['    ' + ann(w, n) for w, n in params.items()]
            extra = ' = field(init=False, repr=False)' \
                if self.style == 'dataclass' else ' = attr.ib(init=False)'
            lines += ['    ' + ann(w, n) + extra for w, n in self.own.items()]
        else:
            lines += ['    ' + ann(w, n) for w, n in self.own.items()]
            if self.base and self.base.style == self.style == 'plain' \
                    and not params:
                self.ctx.ev('inherited_constructors')
            else:
                lines.append('    def __init__(self%s):' % ''.join(
                    ', ' + ann(w, n) for w, n in self.params.items()))
                lines += ['        self.%s = %s' % (w, w)
                          for w in self.params] or ['        pass']
        for w, v in self.vars.items():
            ann = ''
            if self.marked:
                self.ctx.ev('marked')
                ann = var_ann(v)
            lines.append('    %s%s = %r' % (w, ann, v))
        lines.append('    def method(self): return 5')
        for w in self.read_only:
            lines += ['    @property', '    def %s(self):' % w,
                      '        return %r' % ('of ' + w)]
        for w in self.setters:
            lines += ['    @property', '    def %s(self):' % w,
                      '        return self.__dict__.get("back_%s")' % w,
                      '    @%s.setter' % w,
                      '    def %s(self, v):' % w,
                      '        if v == "refused":',
                      '            raise _refusal',
                      '        self.__dict__["back_%s"] = v' % w]
        return '\n'.join(lines)

    def value(self, rng):
        res = self.cls(**{w: n.value(rng) for w, n in self.params.items()})
        for w, n in self.annotated.items():
            if rng.random() < .8 or self.style in ('dataclass', 'attrs',
                                                   'slots'):
                setattr(res, w, n.value(rng))
        return res


def getters(ctx, rng, jsons, thing, source, how, where):
    """Attributes that are not in the structure may come from getters."""
    ctx.ev('getters')
    names = thing.setters + list(thing.vars) + thing.loose
    made = {w: rng.choice([5, 'got', [1], None, datetime.now()])
            for w in names if w not in thing.params and rng.random() < .6}
    source = {k: v for k, v in source.items() if k not in made}
    calls = []

    def getter(w):
        return lambda: calls.append(w) or made[w]
    out = util.attempt(jsons.load, source,
                       attr_getters={w: getter(w) for w in made}, **how)
    say = lambda: 'getters for %s: %r; %s' % (made, out, where())
    ctx.check(out.ok and type(out.value) is thing.cls, 'getters', say)
    for w, v in made.items():
        ctx.check(getattr(out.value, w, '<missing>') is v, 'getter', say)
    for w in thing.setters:
        if w in made:
            ctx.check(w not in out.value.__dict__, 'getter-property', say)
    for w in thing.vars:
        ctx.check(gen.diff(thing.vars[w], getattr(thing.cls, w)) is None,
                  'getter-class-var', say)


def var_ann(value):
    return ': ' + {int: 'ClassVar[int]', str: '"ClassVar[str]"',
                   list: 'ClassVar[List[int]]'}.get(type(value), 'ClassVar')


def case(ctx, rng, i):
    jsons = util.jsons_()
    thing = Thing(ctx, rng)
    if rng.random() < .35:
        thing = Thing(ctx, rng, thing)
    value = thing.value(rng)
    verbose = rng.random() < .3
    options = {}
    natives = [1, 'x', None, True, 1.5, [1, 'a'], {'k': [None]}, [], {},
               '2020-01-01T00:00:00Z', '5']
    loose = {}
    if not thing.closed:
        for w in thing.loose[:rng.randint(0, 2)]:
            if verbose and rng.random() < .6:
                # Only the class info tells what it is.
                ctx.ev('by_meta')
                node = gen.rand_class(ctx, rng, 0, selfref=False,
                                      untyped=False, style=rng.choice(
                                          ['plain', 'dataclass', 'attrs']))
                loose[w] = node.value(rng)
            else:
                ctx.ev('unannotated')
                loose[w] = copy.deepcopy(rng.choice(natives[:7]))
            setattr(value, w, loose[w])
        for w in thing.setters:
            ctx.ev('setters')
            setattr(value, w, rng.choice([1, 'x', [1]]))
    if verbose:
        ctx.ev('verbose')
        options['verbose'] = jsons.Verbosity.WITH_CLASS_INFO
    source = jsons.dump(value, **options)
    planted = {}
    if rng.random() < .6:
        ctx.ev('planted')
        for w in thing.loose[2:] + ['with space', '', '1', 'new']:
            if rng.random() < .5:
                planted[w] = copy.deepcopy(rng.choice(natives))
        items = list({**source, **planted}.items())
        rng.shuffle(items)
        source = dict(items)
    cls = thing.cls
    how = {'cls': cls}
    if verbose and rng.random() < .6:
        how = {}
    where = lambda: 'load(%s, %s) of %s\n%s' % (
        gen.brief(source, 800), how, gen.brief(value, 400), '\n'.join(
            t.source for t in (thing.base, thing) if t))
    ctx.distinct(thing.label, repr(source))
    before = dict(cls.__dict__)
    # An attribute that does not fit its annotation.
    inner = [w for w, n in thing.annotated.items() if w in source and
             n in (gen.UUID_, gen.INT, gen.DATETIME, gen.DATE, gen.TIME,
                   gen.DECIMAL, gen.COMPLEX)]
    if inner:
        ctx.ev('unfit')
        out = util.attempt(jsons.load, {**source, inner[0]: 'no'}, **how)
        ctx.check(isinstance(out.error, jsons.DeserializationError), 'unfit',
                  lambda: '%s: %r; %s' % (inner[0], out, where()))
    if thing.setters and rng.random() < .5:
        # A value that the setter does not accept.
        ctx.ev('refused')
        error = rng.choice([ValueError('no'), TypeError('no'), KeyError('no'),
                            RuntimeError(), NotImplementedError()])
        gen.gen_module()._refusal = error
        out = util.attempt(jsons.load, {**source, thing.setters[0]: 'refused'},
                           **how)
        ctx.check(isinstance(out.error, jsons.DeserializationError),
                  'refused', lambda: '%r: %r; %s' % (error, out, where()))
    if not thing.closed and rng.random() < .3:
        getters(ctx, rng, jsons, thing, source, how, where)
    out = util.attempt(jsons.load, source, **how)
    ctx.check(out.ok, 'fails', lambda: '%r; %s' % (out, where()))
    res = out.value
    ctx.check(type(res) is cls, 'type', lambda: '%r; %s' % (out, where()))

    def same(what, want, got, name):
        found = gen.diff(want, got)
        ctx.check(found is None, what, lambda: '%s: %s; %s' % (name, found,
                                                               where()))
    for w, n in thing.params.items():
        same('parameter', getattr(value, w), getattr(res, w), w)
    for w, n in thing.annotated.items():
        if hasattr(value, w):
            ctx.ev('inherited' if w in thing.inherited else 'annotated')
            if isinstance(n, (Thing, gen.ClassNode)):
                ctx.ev('nested')
            same('annotated', getattr(value, w), getattr(res, w, '<missing>'),
                 w)
    for w, v in loose.items():
        same('loose', v, getattr(res, w, '<missing>'), w)
    for w, v in planted.items():
        if thing.closed:
            ctx.ev('ignored')
            if thing.annotated:
                ctx.ev('slots_beside_ignored')
            ctx.check(not hasattr(res, w), 'ignored', lambda: '%s; %s' % (
                w, where()))
        else:
            same('planted', v, getattr(res, w, '<missing>'), w)
    for t in (thing, thing.base):
        for w in t.read_only if t else ():
            ctx.ev('read_only')
            same('property', 'of ' + w, getattr(res, w), w)
            ctx.check(w not in getattr(res, '__dict__', ()), 'read-only',
                      where)
        for w in t.setters if t else ():
            same('setter', getattr(value, w), getattr(res, w), w)
        for w, v in t.vars.items() if t else ():
            ctx.ev('class_vars')
            same('class-var', v, getattr(res, w), w)
            same('class-var', v, getattr(t.cls, w), w)
    ctx.check(res.method() == 5, 'method', where)
    ctx.check(list(before) == list(cls.__dict__) and all(
        v is cls.__dict__[k] for k, v in before.items()), 'class-changed',
        where)
    if hasattr(res, '__dict__'):
        extra = set(res.__dict__) - set(thing.all()) - set(loose) \
            - set(planted) - set(thing.base.all() if thing.base else ())
        ctx.check(not extra, 'more', lambda: '%s; %s' % (extra, where()))
    ctx.sample(where())
