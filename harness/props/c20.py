"""Forks are isolated from their origin and from each other."""
import collections
import copy
import datetime
import typing

from harness import gen, util
from harness.props import c18

PID = 'C20'
RULE = ('A case is a tree of forks (of a fork, of the serializable base, or in '
        'a child process of the library itself) in which serializers, '
        'deserializers, validators, class names and warning settings are set '
        'in random order, with dumps and loads and new forks in between. '
        'After every step some forks, regularly all, are probed for all of '
        'these and compared with the model: a copy of the origin at the time '
        'of forking, plus what was set on it since. Distinct are histories.')
QUICK_N = 800
THOROUGH_N = 200000
NEED = {'forks': 1500, 'settings': 2000, 'probes': 8000, 'serializer': 1500,
        'deserializer': 1500, 'validator': 1500, 'announced': 1500,
        'warnings': 1500, 'in_child': 20, 'nested': 1000,
        'zone': 1000, 'learned': 300}
ASSUMPTIONS = ['Classes derived from the serializable base without forking '
               'share its settings; only forks are isolated.']
CODES = ['element-not-deserialized', 'attribute-not-serialized']


class Plain1:
    pass


class Plain2:
    pass


class Model:
    """What the model knows of one fork."""

    def __init__(self):
        self.ser = c18.Registry(c18.SER)
        self.des = c18.Registry(c18.DES)
        self.validators = {}
        self.names = {}
        self.suppress_all = False
        self.suppressed = set()
        self.delta = None
        self.plus = 0

    def copy(self):
        res = copy.copy(self)
        res.ser, res.des = copy.copy(self.ser), copy.copy(self.des)
        for reg in (res.ser, res.des):
            reg.funcs, reg.order = dict(reg.funcs), list(reg.order)
        res.validators = dict(self.validators)
        res.names = dict(self.names)
        res.suppressed = set(self.suppressed)
        return res


def case(ctx, rng, i):
    jsons = util.jsons_()
    if rng.random() < .1:
        util.in_child(ctx, lambda: Run(ctx, rng, None).run())
        ctx.ev('in_child')
    else:
        root = rng.choice([jsons.fork, jsons.JsonSerializable.fork])()
        Run(ctx, rng, root).run()


class Run:
    def __init__(self, ctx, rng, root):
        self.ctx, self.rng = ctx, rng
        self.jsons = util.jsons_()
        self.tree = c18.Hierarchy(ctx, rng)
        while self.tree.root not in (None, 'int', 'str'):
            self.tree = c18.Hierarchy(ctx, rng)
        self.classes = self.tree.classes
        self.forks = [(root, Model())]
        self.history = list(self.tree.source)
        self.tags = 0
        self.log = []
        self.local = [type('Local', (), {}) for _ in range(3)]

    def where(self):
        return '\n'.join(self.history)

    def way(self, fork):
        return {} if fork is None else {'fork_inst': fork}

    def run(self):
        rng = self.rng
        for _ in range(rng.randint(3, 16)):
            at = rng.randrange(len(self.forks))
            if rng.random() < .35:
                self.fork(at)
            else:
                self.setting(at)
            for k in rng.sample(range(len(self.forks)),
                                min(2, len(self.forks))):
                self.probe(k, rng.choice(self.PROBES))
        for k in range(len(self.forks)):
            for what in self.PROBES:
                self.probe(k, what)
        self.ctx.distinct(self.where())
        self.ctx.sample(self.where())

    def fork(self, at):
        origin, model = self.forks[at]
        self.ctx.ev('forks')
        name = self.rng.choice([None, None, 'MyFork', 'int'])
        if origin is None:
            new = self.jsons.fork(**({'name': name} if name else {}))
        elif hasattr(origin, 'fork') and self.rng.random() < .5:
            new = origin.fork(name)
        else:
            new = self.jsons.fork(origin, name=name)
        self.ctx.check(name is None or new.__name__ == name, 'fork-name',
                       lambda: '%r instead of %r' % (new.__name__, name))
        self.ctx.check(all(new is not f for f, _ in self.forks),
                       'fork-identity', self.where)
        self.history.append('fork %d = fork of %d' % (len(self.forks), at))
        self.forks.append((new, model.copy()))

    def setting(self, at):
        rng, jsons = self.rng, self.jsons
        fork, model = self.forks[at]
        way = self.way(fork)
        self.ctx.ev('settings')
        what = rng.choice(['ser', 'ser', 'des', 'des', 'validator', 'announce',
                           'suppress', 'suppress_all', 'use', 'delta',
                           'learn', 'learn'])
        self.tags += 1
        tag = 't%d' % self.tags
        cls = rng.choice(self.classes)
        self.history.append('fork %d: %s %s %s' % (at, what, tag, cls))
        method = fork is not None and hasattr(fork, 'set_serializer')
        if what == 'ser':
            func = lambda obj, **kwargs: self.note(tag, kwargs) or {'tag': tag}
            high = rng.random() < .8
            if method and rng.random() < .5:
                fork.set_serializer(func, cls, high)
            else:
                jsons.set_serializer(func, cls, high, **way)
            model.ser.set(tag, cls, high)
        elif what == 'des':
            func = lambda obj, cls=None, **kwargs: self.note(tag, kwargs) \
                or c18.Loaded(tag)
            high = rng.random() < .8
            if method and rng.random() < .5:
                fork.set_deserializer(func, cls, high)
            else:
                jsons.set_deserializer(func, cls, high, **way)
            model.des.set(tag, cls, high)
        elif what == 'delta':
            jsons.set_serializer(
                lambda obj, **kwargs: '%s:%r' % (tag, obj.total_seconds()),
                datetime.timedelta, **way)
            jsons.set_deserializer(
                lambda obj, cls=None, **kwargs: datetime.timedelta(
                    seconds=float(obj[len(tag) + 1:])),
                datetime.timedelta, **way)
            plus = self.tags
            jsons.set_deserializer(
                lambda obj, cls=None, **kwargs: float(obj + plus), float,
                **way)
            model.delta, model.plus = tag, plus
        elif what == 'validator':
            cls = rng.choice([Plain1, Plain2])
            jsons.set_validator(lambda obj: self.log.append(tag) or True,
                                rng.choice([cls, [cls]]), **way)
            model.validators[cls] = tag
        elif what == 'announce':
            name = rng.choice(['some-name', 'other.name', 'third'])
            cls = rng.choice(self.local)
            jsons.announce_class(cls, name, **way)
            model.names[name] = cls
        elif what == 'suppress':
            code = rng.choice(CODES)
            jsons.suppress_warning(code, **way)
            model.suppressed.add(code)
        elif what == 'suppress_all':
            flag = rng.random() < .5
            jsons.suppress_warnings(flag, **way)
            model.suppress_all = flag
        elif what == 'learn':
            self.learn(fork, model)
        else:
            self.use(fork)

    def note(self, tag, kwargs):
        self.log.append((tag, kwargs.get('fork_inst')))

    def use(self, fork):
        """Something that might leave traces."""
        way = self.way(fork)
        cls = self.rng.choice(self.classes)
        util.attempt(self.jsons.dump, self.tree.value(cls), verbose=True,
                     **way)
        util.attempt(self.jsons.load, {}, cls, **way)
        util.attempt(self.jsons.load, ['x'], typing.List[int], **way)

    def learn(self, fork, model):
        """What a fork dumps verbosely, it can load again; others cannot."""
        rng, way = self.rng, self.way(fork)
        self.ctx.ev('learned')
        _learnt[0] += 1
        inner = type('Inner%d' % _learnt[0], (), {})
        outer = type('Outer%d' % _learnt[0], (), {})
        obj = outer()
        shape = rng.choice([lambda v: v, lambda v: [v, 1], lambda v: (v,),
                            Holder, lambda v: {'k': v}])
        obj.part = shape(inner())
        direct = type(obj.part) is inner
        dumped = self.jsons.dump(obj, verbose=True, **way)
        for cls in (inner, outer):
            name = '%s.%s' % (cls.__module__, cls.__name__)
            if name in dumped['-meta']['classes'].values():
                model.names[name] = cls
        self.ctx.check(outer in model.names.values(), 'learned', self.where)
        if rng.random() < .5:
            got = util.attempt(self.jsons.load, dumped, **way)
            self.ctx.check(got.ok and type(got.value) is outer and (
                not direct or type(got.value.part) is inner),
                'learned', lambda: '%r from %r; %s' % (
                    got, dumped, self.where()))

    PROBES = ['serializer', 'deserializer', 'validator', 'announced',
              'warnings', 'nested', 'zone']

    def probe(self, k, what):
        fork, model = self.forks[k]
        del self.log[:]
        self.ctx.ev('probes')
        self.ctx.ev(what)
        where = lambda msg: '%s: fork %d: %s; %s' % (what, k, msg,
                                                     self.where())
        getattr(self, 'probe_' + what)(fork, model, self.way(fork), where)

    def probe_serializer(self, fork, model, way, where):
        cls = self.rng.choice(self.classes)
        want, _ = model.ser.get(cls)
        got = self.jsons.dump(self.tree.value(cls), **way)
        tag = got.get('tag', 'default') if isinstance(got, dict) \
            else 'default'
        self.ctx.check(tag == want, 'serializer', lambda: where(
            '%s was dumped by %s, not by %s' % (cls, tag, want)))

    def probe_deserializer(self, fork, model, way, where):
        cls = self.rng.choice(self.classes)
        want, _ = model.des.get(cls)
        got = self.jsons.load(c18.fitting(cls), cls, strict=True, **way)
        tag = got.tag if isinstance(got, c18.Loaded) else 'default'
        self.ctx.check(tag == want, 'deserializer', lambda: where(
            '%s was loaded by %s, not by %s' % (cls, tag, want)))

    def probe_nested(self, fork, model, way, where):
        """In every nested call the fork is the same."""
        T = typing
        cls = self.rng.choice(self.classes)
        value = self.tree.value(cls)
        want, _ = model.ser.get(cls)
        shape = self.rng.choice([
            lambda v: [v, (v,)], lambda v: {'a': {'b': v}},
            lambda v: Holder(v), lambda v: [Holder([v])],
            lambda v: Pair(1, v), lambda v: (Pair(v, 0),),
            lambda v: collections.deque([v, {'k': (v,)}]),
            lambda v: Holder(Pair([v], v)),
            lambda v: {(1, 2): [v]}, lambda v: {Key(v): 1}])
        self.jsons.dump(shape(value), strict=self.rng.random() < .5, **way)
        if self.rng.random() < .5:
            ann, shape = self.rng.choice([
                (T.Optional[cls], lambda v: v),
                (T.List[T.Optional[cls]], lambda v: [None, v]),
                (T.Dict[str, cls], lambda v: {'k': v}),
                (T.Tuple[int, cls], lambda v: (1, v)),
                (T.Set[cls], lambda v: {v} if v.__hash__ else [v])])
            self.judge_log(want, fork, where)
            del self.log[:]
            self.jsons.dump(shape(value), ann, **way)
        self.judge_log(want, fork, where)
        want, _ = model.des.get(cls)
        source = c18.fitting(cls)
        del self.log[:]
        given, at = self.rng.choice([
            ([source, source], T.List[cls]), ({'k': source}, T.Dict[str, cls]),
            ([1, source], T.Tuple[int, cls]),
            ([[source]], T.List[T.Optional[T.Set[cls]]]),
            ({'first': 1, 'other': source}, typed_pair(cls)),
            ([1, source], typed_pair(cls)),
            ({'item': {'k': [source]}}, typed_holder(T.Dict[str, T.List[cls]])),
            ({'item': source}, typed_holder(cls)),
            ({'item': [source]}, typed_holder(T.Deque[cls])),
            ({'k': source}, T.DefaultDict[str, cls]),
            ({'k': source}, T.Mapping[str, T.Optional[cls]]),
            ([source], T.Tuple[cls, ...]), ([source], T.Iterable[cls])])
        self.jsons.load(given, at, strict=True, **way)
        self.judge_log(want, fork, where)

    def probe_zone(self, fork, model, way, where):
        """The parts of values are handled by the fork too."""
        secs = self.rng.choice([0, 3600, -12600])
        zone = datetime.timezone(datetime.timedelta(seconds=secs), 'some')
        got = self.jsons.dump(zone, **way)
        self.ctx.check(got.get('name') == 'some' and got.get('offset') == (
            float(secs) if model.delta is None
            else '%s:%r' % (model.delta, float(secs))), 'zone',
            lambda: where('dumped %r' % (got,)))
        back = self.jsons.load(got, datetime.timezone, **way)
        self.ctx.check(back == zone and back.tzname(None) == 'some', 'zone',
                       lambda: where('loaded %r from %r' % (back, got)))
        back = self.jsons.load({'real': 1, 'imag': 2}, complex, **way)
        self.ctx.check(back == complex(1 + model.plus, 2 + model.plus),
                       'complex', lambda: where('loaded %r' % (back,)))

    def judge_log(self, want, fork, where):
        tags = {t for t, _ in self.log}
        ok = tags == (set() if want == 'default' else {want})
        if fork is not None:
            ok = ok and all(f is fork for _, f in self.log)
        self.ctx.check(ok, 'nested', lambda: where(
            '%s instead of %s' % (self.log, want)))

    def probe_validator(self, fork, model, way, where):
        for cls in (Plain1, Plain2):
            del self.log[:]
            self.jsons.load({}, cls, **way)
            want = [model.validators[cls]] if cls in model.validators else []
            self.ctx.check(self.log == want, 'validator', lambda: where(
                '%s was validated by %s, not by %s' % (cls, self.log, want)))

    def probe_announced(self, fork, model, way, where):
        names = {n for _, m in self.forks for n in m.names}
        for name in sorted(names | {'some-name', 'other.name', 'third'}):
            out = util.attempt(self.jsons.load,
                               {'-meta': {'classes': {'/': name}}}, **way)
            want = model.names.get(name)
            ok = type(out.value) is want if want else isinstance(
                out.error, self.jsons.exceptions.UnknownClassError)
            self.ctx.check(ok, 'announced', lambda: where(
                '%s: %r, expected %s' % (name, out, want)))

    def probe_warnings(self, fork, model, way, where):
        for code in CODES:
            with util.recorded_warnings() as caught:
                if code == CODES[0]:
                    got = self.jsons.load(['x', {}], typing.List[Plain3],
                                          warn_on_fail=True, **way)
                    ok = len(got) == 1
                else:
                    got = self.jsons.dump(Raising(), **way)
                    ok = got == {'a': 1}
            want = not model.suppress_all and code not in model.suppressed
            self.ctx.check(ok and len(caught) == want
                           and (not want or code in str(caught[0].message)),
                           'warnings', lambda: where('%s: %s, %s' % (
                               code, got, [str(w.message) for w in caught])))


class Plain3:
    pass


class Unjsonable:
    """Of which an attribute cannot be dumped."""

    @property
    def prop(self):
        raise ValueError('no')


class Raising:
    def __init__(self):
        self.a = 1
        self.b = Unjsonable()


Pair = collections.namedtuple('Pair', ['first', 'other'])
_learnt = [0]


class Key:
    def __init__(self, part):
        self.part = part


def typed_pair(cls):
    return typing.NamedTuple('TypedPair', [('first', int), ('other', cls)])


def typed_holder(cls):
    def init(self, item):
        self.item = item
    init.__annotations__ = {'item': cls}
    return type('TypedHolder', (), {'__init__': init})


class Holder:
    item: object

    def __init__(self, item):
        self.item = item
