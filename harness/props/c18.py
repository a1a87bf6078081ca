"""The registered serializer for the closest class is the one used."""
import datetime as dt
import enum
import typing
import uuid

from harness import gen, util

PID = 'C18'
RULE = ('A case is a history of registrations of tagged (de)serializers for '
        'classes of a generated hierarchy (some with builtin roots), builtin '
        'and abstract classes, None and NewTypes, one by one or several at '
        'once, with both priorities, on a fork or (in a child process) on '
        'the whole library. In between values are dumped and loaded at random '
        'places; the function that answers (and what the getters report) is '
        'compared with a sequential model. Distinct are the histories.')
QUICK_N = 5000
THOROUGH_N = 300000
NEED = {'registrations': 3000, 'dumps': 6000, 'loads': 5000, 'getters': 4000,
        'by_parent': 1500, 'by_default': 1500, 'exact': 1500, 'several': 300,
        'low_prio': 500, 'in_child': 20, 'builtins': 300,
        'case_only': 300, 'same_name': 300, 'metaclasses': 150}
ROOTS = {'int': int, 'str': str, 'dict': dict, 'float': float, 'list': list,
         'datetime': dt.datetime, 'enum': enum.Enum, 'exception': Exception,
         'date': dt.date, 'uuid': uuid.UUID}
# The defaults: with an own function per exact class and in order of lookup.
EXACT = [int, str, float, bool, type(None), dt.datetime, dt.date, enum.Enum,
         list, tuple, uuid.UUID, object]
SER = [uuid.UUID, list, enum.IntEnum, enum.Enum, bool, float, int, str,
       dt.datetime, dt.date, tuple, typing.Mapping, typing.Iterable, object]
DES = [uuid.UUID, enum.IntEnum, enum.Enum, bool, float, int, str, dt.datetime,
       dt.date, tuple, list, typing.Mapping, dict, typing.Iterable, object]
_counter = [0]
SAMPLES = {int: 5, str: 'x', dict: {'a': 1}, float: 1.5, list: [1],
           dt.datetime: dt.datetime(2020, 1, 1, tzinfo=dt.timezone.utc),
           dt.date: dt.date(2020, 1, 1), bool: True,
           uuid.UUID: uuid.UUID(int=5), tuple: (1, 2)}


class Hierarchy:
    def __init__(self, ctx, rng):
        _counter[0] += 1
        tag = str(_counter[0])
        self.root = rng.choice([None] * 6 + list(ROOTS))
        self.classes = []
        self.source = []
        ns = {'ROOTS': ROOTS, '__name__': 'vgen_h' + tag, 'enum': enum,
              'ns_': gen.gen_module()}
        n = rng.randint(2, 7)
        names = {}
        if self.root == 'enum':
            self._enums(ns, n, tag)
        for i in range(n if self.root != 'enum' else 0):
            bases = []
            if self.classes and rng.random() < .8:
                bases = rng.sample(self.classes, min(
                    len(self.classes), rng.choice([1, 1, 1, 2])))
                # An order that makes an MRO possible: the latest first.
                bases.sort(key=self.classes.index, reverse=True)
                bases = [b for b in bases if not any(
                    o is not b and issubclass(o, b) for o in bases)]
            bases = [names[b] for b in bases]
            if not bases:
                bases = ['ROOTS[%r]' % self.root] if self.root else []
            name = rng.choice(['Cls', 'Model', 'Unions', 'Obj', 'Str', 'int_']
                              ) + tag + 'x%d' % i
            if self.classes and rng.random() < .2:  # Differs in case only.
                other = rng.choice(list(names.values())).swapcase()
                if other not in ns:
                    ctx.ev('case_only')
                    name = other
            if not self.root and not bases and rng.random() < .12:
                ctx.ev('metaclasses')
                bases = ['metaclass=ns_.%s' % rng.choice(gen.METAS)]
            line = 'class %s(%s):\n    pass' % (name, ', '.join(bases))
            try:
                exec(line, ns)
            except TypeError:  # These bases have no common MRO.
                line = 'class %s(%s):\n    pass' % (name, bases[0])
                exec(line, ns)
            self.source.append(line)
            names[ns[name]] = name
            if self.classes and rng.random() < .2:
                ctx.ev('same_name')
                ns[name].__name__ = rng.choice(self.classes).__name__
                self.source.append('%s.__name__ = %r' % (name,
                                                         ns[name].__name__))
            self.classes.append(ns[name])

    def _enums(self, ns, n, tag):
        for i in range(n):
            name = 'En%sx%d' % (tag, i)
            base = 'enum.Enum' if i == 0 or i % 2 else 'Ebase' + tag
            if i == 0:
                exec('class Ebase%s(enum.Enum):\n    pass' % tag, ns)
                self.classes.append(ns['Ebase' + tag])
            line = 'class %s(%s):\n    A = 1\n    B = 2' % (name, base)
            exec(line, ns)
            self.source.append(line)
            self.classes.append(ns[name])

    def value(self, cls):
        if issubclass(cls, enum.Enum):
            return list(cls)[0] if list(cls) else None
        for base, sample in SAMPLES.items():
            if issubclass(cls, base) and base is not bool:
                if base is dt.date and issubclass(cls, dt.datetime):
                    continue
                if base is dt.datetime:
                    return cls(2020, 1, 1, tzinfo=dt.timezone.utc)
                if base is dt.date:
                    return cls(2020, 1, 1)
                if base is uuid.UUID:
                    return cls(int=5)
                return cls(sample)
        return cls()


class Registry:
    """The model."""

    def __init__(self, order):
        self.funcs = {c: 'default' for c in EXACT}
        self.order = list(order)

    def set(self, tag, cls, high):
        if cls is None:
            cls = type(None)
        else:
            self.order.insert(0 if high else len(self.order), cls)
        self.funcs[cls] = tag

    def get(self, cls):
        """The tag, and how it was found."""
        if cls in self.funcs:
            return self.funcs[cls], 'exact'
        for parent in self.order:
            if isinstance(parent, typing.NewType):
                continue
            if issubclass(cls, parent):
                tag = self.funcs.get(parent, 'default')
                return tag, 'by_parent' if tag != 'default' else 'by_default'
        raise AssertionError(cls)


def case(ctx, rng, i):
    if rng.random() < .08:
        ctx.ev('in_child')
        util.in_child(ctx, lambda: Run(ctx, rng, None).run())
        ctx.ev('in_child')
    else:
        jsons = util.jsons_()
        base = jsons.fork() if rng.random() < .8 \
            else jsons.JsonSerializable.fork()
        Run(ctx, rng, base).run()


class Run:
    def __init__(self, ctx, rng, fork):
        self.ctx, self.rng, self.fork = ctx, rng, fork
        self.jsons = util.jsons_()
        self.way = {} if fork is None else {'fork_inst': fork}
        self.tree = Hierarchy(ctx, rng)
        self.ser, self.des = Registry(SER), Registry(DES)
        self.history = ['root %s' % self.tree.root] + self.tree.source
        self.calls = []
        self.funcs = {}
        self.newtypes = {}
        self.high = rng.choice([.9, .7, .2])
        # What takes part: the hierarchy, and now and then builtin classes.
        self.extra = []
        if rng.random() < .4:
            self.extra = rng.sample([int, str, dt.datetime, dt.date, object,
                                     uuid.UUID, float], rng.randint(1, 3))
            ctx.ev('builtins')
        for cls in rng.sample(self.tree.classes,
                              min(len(self.tree.classes), 2)):
            nt = typing.NewType('New%s' % cls.__name__, cls)
            nt.__module__ = cls.__module__
            self.newtypes[nt] = cls
            if rng.random() < .5:
                nested = typing.NewType('Newer%s' % cls.__name__, nt)
                nested.__module__ = cls.__module__
                self.newtypes[nested] = cls

    def where(self):
        return '\n'.join(self.history)

    def run(self):
        for _ in range(self.rng.randint(3, 14)):
            if self.rng.random() < .5:
                self.register()
            for _ in range(self.rng.randint(1, 4)):
                self.probe()
        for cls in self.tree.classes:
            self.probe(cls)
        self.ctx.distinct(self.where())
        self.ctx.sample(self.where())

    def register(self):
        rng = self.rng
        tag = 't%d' % len(self.funcs)
        side = rng.choice(['ser', 'des'])
        func = self.serializer(tag) if side == 'ser' \
            else self.deserializer(tag)
        self.funcs[tag] = func
        pool = self.tree.classes + self.extra + [None] * (rng.random() < .1)
        if rng.random() < .12 and self.newtypes:
            pool = list(self.newtypes)
        high = rng.random() < self.high
        classes = [rng.choice(pool)]
        arg = classes[0]
        if rng.random() < .25:
            self.ctx.ev('several')
            classes = [rng.choice(pool) for _ in range(rng.randint(1, 4))]
            arg = rng.choice([list, tuple])(classes)
        if not high:
            self.ctx.ev('low_prio')
        self.ctx.ev('registrations')
        self.history.append('set %s %s for %s, high_prio=%s' % (
            side, tag, arg, high))
        set_ = self.jsons.set_serializer if side == 'ser' \
            else self.jsons.set_deserializer
        if high and rng.random() < .5:
            set_(func, arg, **self.way)
        elif rng.random() < .5:
            set_(func, arg, high, **self.way)
        else:
            set_(func, cls=arg, high_prio=high, **self.way)
        model = getattr(self, side)
        for cls in classes:
            model.set(tag, cls, high)

    def serializer(self, tag):
        def func(obj, cls=None, **kwargs):
            self.calls.append((tag, obj, cls))
            return {'tag': tag}
        return func

    def deserializer(self, tag):
        def func(obj, cls=None, **kwargs):
            self.calls.append((tag, obj, cls))
            return Loaded(tag)
        return func

    def probe(self, cls=None):
        rng = self.rng
        cls = cls or rng.choice(self.tree.classes * 2 + self.extra)
        x = rng.random()
        if x < .35:
            self.dump(cls)
        elif x < .65:
            self.load(cls)
        elif x < .75:
            self.newtype()
        elif x < .8:
            self.none()
        else:
            self.getters(cls)

    def value(self, cls):
        return SAMPLES[cls] if cls in SAMPLES else self.tree.value(cls) \
            if cls is not object else object()

    def dump(self, cls):
        rng = self.rng
        value = self.value(cls)
        if value is None:  # An enum without members
            return
        given = {}
        want, how = self.ser.get(cls)
        as_cls = None
        if rng.random() < .4 and cls is not object:
            bases = [c for c in self.tree.classes + self.extra
                     if issubclass(cls, c) and c is not object]
            as_cls = rng.choice(bases)
            given = {'cls': as_cls}
            want, how = self.ser.get(as_cls)
        if isinstance(value, (Exception, dict, list)) \
                and want == 'default' and as_cls:
            return
        self.ctx.ev('dumps')
        self.ctx.ev(how)
        del self.calls[:]
        places = ['top'] * 3
        if not given and list not in self.extra:
            places += ['list', 'dict']
        place = rng.choice(places)
        source = {'top': value, 'list': [value], 'dict': {'k': value}}[place]
        if place == 'dict' and {object, str} & set(self.extra):
            source, place = value, 'top'
        got = self.jsons.dump(source, **given, **self.way)
        if place != 'top':
            got = got[0 if place == 'list' else 'k']
        self.judge('dump of %r (%s) at %s with %s' % (value, cls, place, given),
                   got, want, value, as_cls)

    def judge(self, what, got, want, value, cls, tag_of=None):
        where = lambda: '%s gave %r, expected the one of %s; %s' % (
            what, got, want, self.where())
        tag = tag_of(got) if tag_of else (
            got.get('tag') if isinstance(got, dict) else None)
        self.ctx.check((tag or 'default') == want, 'answer', where)
        if want == 'default':
            self.ctx.check(not any(c[1] is value for c in self.calls),
                           'calls', lambda: '%s; %s' % (
                self.calls, where()))
        else:
            ok = len(self.calls) == 1 and self.calls[0][0] == want and \
                self.calls[0][1] is value and self.calls[0][2] is cls
            self.ctx.check(ok, 'calls', lambda: '%s instead of %s; %s' % (
                self.calls, (want, value, cls), where()))

    def load(self, cls, ann=None, want=None):
        rng = self.rng
        if cls is object:
            return  # This is loaded by the type of the structure.
        if not want:
            want, how = self.des.get(cls)
            self.ctx.ev(how)
        ann = ann or cls
        source = {'x': 1} if want != 'default' else fitting(cls)
        if source is None:
            return
        self.ctx.ev('loads')
        del self.calls[:]
        place = rng.choice(['top', 'top', 'list', 'dict', 'optional'])
        if list in self.extra or {object, str} & set(self.extra):
            place = 'top'
        given, at, inner = {
            'top': (source, ann, lambda r: r),
            'list': ([source], typing.List[ann], lambda r: r[0]),
            'dict': ({'k': source}, typing.Dict[str, ann], lambda r: r['k']),
            'optional': (source, typing.Optional[ann], lambda r: r)}[place]
        got = inner(self.jsons.load(given, at, strict=True, **self.way))
        self.judge('load as %s at %s' % (ann, place), got, want, source, ann,
                   lambda r: r.tag if isinstance(r, Loaded) else None)

    def newtype(self):
        if not self.newtypes:
            return
        nt = self.rng.choice(list(self.newtypes))
        cls = self.newtypes[nt]
        want = self.des.funcs.get(nt)
        if not want and nt.__supertype__ is not cls:
            self.ctx.ev('nested_newtypes')
            want = self.des.funcs.get(nt.__supertype__)
        want = want or self.des.get(cls)[0]
        if want == 'default':
            return
        got = self.jsons.get_deserializer(nt, self.way.get('fork_inst')) \
            if self.fork else self.jsons.get_deserializer(nt)
        self.ctx.check(got is self.funcs[want], 'newtype', lambda:
                       '%s gets %s, expected %s; %s' % (
                           nt, self.name(got), want, self.where()))
        self.load(cls, nt, want)

    def none(self):
        want = self.ser.funcs[type(None)]
        del self.calls[:]
        got = self.jsons.dump(None, **self.way)
        self.judge('dump of None', got, want, None, None)
        got = self.jsons.dump([None], **self.way)
        self.ctx.check(got == [{'tag': want}] or want == 'default'
                       and got == [None], 'none', lambda: '%s, expected %s; %s'
                       % (got, want, self.where()))

    def name(self, func):
        return next((t for t, f in self.funcs.items() if f is func),
                    getattr(func, '__name__', func))

    def getters(self, cls):
        self.ctx.ev('getters')
        for model, get in ((self.ser, self.jsons.get_serializer),
                           (self.des, self.jsons.get_deserializer)):
            want, _ = model.get(cls)
            got = get(cls, self.fork) if self.fork else get(cls)
            ok = got is self.funcs[want] if want != 'default' else \
                got is not None and got.__module__.startswith('jsons.')
            self.ctx.check(ok, 'getter', lambda: '%s gets %s, expected %s; %s'
                           % (cls, self.name(got), want, self.where()))


class Loaded:
    def __init__(self, tag):
        self.tag = tag

    def __repr__(self):
        return 'Loaded(%s)' % self.tag


def fitting(cls):
    """A structure that the default of a class takes."""
    if issubclass(cls, enum.Enum):
        return 'A' if list(cls) else None
    for base, source in ((dt.datetime, '2020-01-01T00:00:00Z'),
                         (dt.date, '2020-01-01'), (bool, True), (int, 5),
                         (str, 'x'), (float, 1.5), (list, [1]),
                         (dict, {'a': 1}), (tuple, [1]),
                         (uuid.UUID, str(uuid.UUID(int=5)))):
        if issubclass(cls, base):
            return source
    return None if issubclass(cls, Exception) else {}
