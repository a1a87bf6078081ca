"""Calls do not influence one another."""
import datetime as dt
import json
import typing
import warnings

from harness import gen, util

PID = 'C19'
RULE = ('A case is a few target calls (dumps, loads, good and bad, with '
        'options) and a history of other calls: dumps, loads, failures, '
        'interrupted calls, registrations for other classes, any on forks, '
        'classes of the same name, decorated functions, transformations, '
        'changes of results. One forked child makes the target calls at once, '
        'another one after the history; outcomes (values with all types, or '
        'errors with messages) are to be the same. Distinct are the pairs of '
        'history and outcomes.')
QUICK_N = 1000
THOROUGH_N = 250000
NEED = {'targets': 700, 'history': 2000, 'good': 500, 'bad': 100,
        'same_name': 150, 'registrations': 150, 'interrupted': 100,
        'failures': 300, 'same_value': 200}
ASSUMPTIONS = ['Warnings are not compared (Python itself drops repeated ones).',
               'Only classes that can be imported by name are loaded by the '
               'class info of a verbose dump; of others with the same name '
               'the one that was announced last is taken.']


def case(ctx, rng, i):
    targets = [target(ctx, rng) for _ in range(rng.randint(1, 3))]
    history = [event(ctx, rng, targets)
               for _ in range(rng.choice([1, 2, 4, 8, 16]))]
    ctx.ev('targets', len(targets))
    ctx.ev('history', len(history))

    def outcomes():
        return [util.canon_outcome(util.attempt(t.call)) for t in targets]

    def after():
        for _, func in history:
            try:
                func()
            except BaseException:
                pass
        return outcomes()

    def twice():
        return outcomes() and outcomes()
    def changed():
        change()
        return outcomes()

    def changed_after():
        outcomes()
        for kind, func in history:
            if kind != 'interrupt':
                try:
                    func()
                except Exception:
                    pass
        if last:
            util.attempt(last)
        change()
        return outcomes()
    x = rng.random()
    change = last = None
    if x < .2:
        change = change_of(rng, targets)
        last = failure_of(rng, targets)
    if change:
        # A class is other than it was in the calls before.
        ctx.ev('changes')
        want = util.child_result(changed)
        got = util.child_result(changed_after)
    else:
        want = util.child_result(outcomes)
        got = util.child_result(after if x < .9 else twice)
    for t, a, b in zip(targets, want, got):
        ctx.ev('good' if a.startswith('returned') else 'bad')
        ctx.check(a == b, 'influenced', lambda: '%s\nalone: %s\nafter: %s\n'
                  'history: %s' % (t.label, a, b, [n for n, _ in history]))
    ctx.distinct([n for n, _ in history], want)
    ctx.sample('%s after %s' % ([t.label[:100] for t in targets],
                                [n for n, _ in history]))


def failure_of(rng, targets):
    """The last call before a class changes may be one that fails."""
    jsons = util.jsons_()
    nodes = [t.node for t in targets]
    classes = [c for n in nodes for c in classes_of(n)]
    if not classes or rng.random() < .4:
        return None
    cls = rng.choice(classes)
    return rng.choice([
        lambda: jsons.load({'no such attribute': 1}, cls, strict=True),
        lambda: jsons.load({}, cls),
        lambda: jsons.load([{}, 5, None], typing.List[cls]),
        lambda: jsons.dump(Unable(), cls, strict=True),
        lambda: jsons.dump([cls, Unable()], strict=True)])


class Unable:
    """An object without what there should be."""

    def __getattr__(self, name):
        raise RuntimeError(name)


def change_of(rng, targets):
    classes = [c for t in targets for c in classes_of(t.node)]
    if not classes:
        return None
    cls = rng.choice(classes)
    kind = rng.choice(['property', 'variable', 'init', 'hint', 'private'])

    def change():
        if kind == 'property':
            cls.added = property(lambda self: 7)
        elif kind == 'variable':
            cls.added = [5]
        elif kind == 'private':
            cls._added = 'p'
        elif kind == 'hint':
            cls.__annotations__ = {**getattr(cls, '__annotations__', {}),
                                   'added': int}
        else:
            def __init__(self, added: dt.date = None):
                self.added = added
            cls.__init__ = __init__

    return change


class Target:
    def __init__(self, label, call, node):
        self.label, self.call, self.node = label, call, node


def target(ctx, rng):
    jsons = util.jsons_()
    node = util.rand_node(ctx, rng, 2, .6, keys_hashed=rng.random() < .2) \
        if rng.random() < .8 else util.rand_node(
            ctx, rng, 1, .4, scalars=gen.STD + gen.ENUM_NODES)
    value = node.value(rng)
    res = target_of(rng, jsons, node, value)
    res.value = value
    return res


def target_of(rng, jsons, node, value):
    kind = rng.choice(['dump', 'dump', 'load', 'load', 'verbose', 'union',
                       'getters', 'fork', 'text'])
    strict = rng.random() < .4
    if kind == 'dump':
        options = util.rand_dump_options(rng, node)
        # The class info may tell of a class that cannot be imported.
        return Target('dump with %s of %s' % (options, util.describe(node)),
                      lambda: jsons.dump(value, **options), node)
    if kind == 'verbose':
        def call():
            dumped = jsons.dump(value,
                                verbose=jsons.Verbosity.WITH_CLASS_INFO)
            return dumped, jsons.load(dumped)
        return Target('verbose trip of %s' % util.describe(node), call, node)
    source = jsons.dump(value)
    if rng.random() < .4:
        source = gen.mutate_json(rng, source, rng.randint(1, 2))
    ann = node.ann
    options = {'strict': True} if strict else {}
    if kind == 'union':
        ann = typing.Union[typing.List[int], node.ann, str]
    if kind == 'getters' and isinstance(node, gen.ClassNode):
        name = rng.choice(node.fields).name if node.fields else 'x'
        options['attr_getters'] = {name: lambda: 5}
    if kind == 'fork':
        def call():
            fork = jsons.fork()
            jsons.set_deserializer(lambda obj, cls=None, **_: dt.time(5),
                                   dt.time, fork_inst=fork)
            return jsons.load(source, ann, fork_inst=fork, **options)
        return Target('load on a fork as %s' % util.describe(node), call, node)
    if kind == 'text':
        text = json.dumps(source)
        return Target('loads as %s of %s' % (util.describe(node), text),
                      lambda: jsons.loads(text, ann, **options), node)
    return Target('load with %s as %s of %s' % (
        options, util.describe(node), repr(source)[:500]),
        lambda: jsons.load(source, ann, **options), node)


class Other:
    def __init__(self, n: int = 1):
        self.n = n


class Interrupting:
    pass


class Stop(BaseException):
    pass


def namesake(ctx, rng, node):
    """Another class with the names of the class of a node."""
    ctx.ev('same_name')
    fields = [gen.Field(name, rng.choice([gen.INT, gen.STR, gen.DATE]))
              for name in rng.sample(['x', 'name', 'q_z', 'age', 'value'], 2)]
    if isinstance(node, gen.ClassNode) and node.fields and rng.random() < .5:
        fields[0].name = node.fields[0].name
        if fields[0].name == fields[1].name:
            del fields[1]
    other = gen.ClassNode(ctx, rng, fields, rng.choice(['dataclass',
                                                        'plain', 'attrs']))
    cls = classes_of(node)
    if cls:
        cls = rng.choice(cls)
        other.cls.__name__ = cls.__name__
        other.cls.__qualname__ = cls.__qualname__
        other.cls.__module__ = cls.__module__
    return other


def classes_of(node):
    """The generated classes within a type."""
    res, todo, seen = [], [node], set()
    while todo:
        n = todo.pop()
        if id(n) in seen or not isinstance(n, gen.Node):
            continue
        seen.add(id(n))
        if isinstance(n, gen.ClassNode):
            res.append(n.cls)
            todo += [f.node for f in n.fields]
        for value in vars(n).values():
            todo += value if isinstance(value, (list, tuple)) else [value]
    return res


def event(ctx, rng, targets):
    jsons = util.jsons_()
    kind = rng.choice(['dump', 'load', 'bad_load', 'bad_load', 'bad_dump',
                       'register', 'register_fork', 'same_name', 'same_name',
                       'interrupt', 'decorate', 'transform', 'serializable',
                       'getters', 'validator', 'mutate', 'target', 'lookup',
                       'announce', 'warn', 'register_same', 'same_value',
                       'same_value'])
    aim = rng.choice(targets)
    near = aim.node
    node = rng.choice([near, util.rand_node(ctx, rng, 1, .5)])
    value = node.value(rng)
    options = util.rand_dump_options(rng)
    strict = {'strict': True} if rng.random() < .5 else {}
    if kind == 'dump':
        return kind, lambda: jsons.dump(value, **options)
    if kind == 'same_value':
        # The very value of a target, with other options.
        ctx.ev('same_value')
        more = rng.choice([
            options, {}, {'strip_nulls': True}, {'verbose': True},
            {'strip_privates': True, 'strip_properties': True},
            {'key_transformer': str.upper}, {'strict': True},
            {'cls': near.ann}, {'strip_attr': gen.WORDS[::2]}])
        if rng.random() < .5:
            more = {**more, 'strip_microseconds': True, 'use_enum_name': False}

        def same_value():
            dumped = jsons.dump(aim.value, **more)
            more.pop('cls', None)
            jsons.load(dumped, near.ann, **more)
        return kind, same_value
    if kind == 'load':
        return kind, lambda: jsons.load(jsons.dump(value), node.ann, **strict)
    if kind == 'bad_load':
        ctx.ev('failures')
        source = gen.mutate_json(rng, jsons.dump(value), 2)
        more = rng.choice([{}, {'warn_on_fail': True},
                           {'key_transformer': str.upper}])
        return kind, lambda: jsons.load(source, node.ann, **strict, **more)
    if kind == 'bad_dump':
        ctx.ev('failures')
        return kind, lambda: jsons.dump([value, Failing(), Other()], **options)
    if kind == 'register':
        ctx.ev('registrations')
        high = rng.random() < .5

        def register():
            jsons.set_serializer(lambda obj, **_: 'other', Other, high)
            jsons.set_deserializer(lambda obj, cls=None, **_: Other(9), Other,
                                   high)
            jsons.set_serializer(lambda obj, **_: 'fail', [Failing, Loose])
            jsons.dump(Other())
        return kind, register
    if kind == 'register_fork':
        ctx.ev('registrations')
        classes = classes_of(near) + [dt.datetime, str, int, dict, list]
        cls = rng.choice(classes)

        def register_fork():
            fork = jsons.fork()
            jsons.set_serializer(lambda obj, **_: 'x', cls, fork_inst=fork)
            jsons.set_deserializer(lambda obj, cls=None, **_: 5, cls,
                                   fork_inst=fork)
            jsons.set_validator(lambda obj: False, cls, fork_inst=fork)
            jsons.suppress_warnings(fork_inst=fork)
            util.attempt(jsons.dump, value, fork_inst=fork)
            util.attempt(jsons.load, jsons.dump(value), node.ann,
                         fork_inst=fork)
        return kind, register_fork
    if kind == 'same_name':
        other = namesake(ctx, rng, near)
        inst = other.value(rng)

        def same():
            dumped = jsons.dump(inst, **options)
            jsons.load(dumped, other.cls)
            jsons.dump([inst], typing.List[other.cls], strict=True)
        return kind, same
    if kind == 'register_same':
        ctx.ev('registrations')
        other = namesake(ctx, rng, near).cls
        if rng.random() < .3:  # Or one of which the name differs in case.
            other.__name__ = other.__name__.swapcase()
        high = rng.random() < .6

        def register_same():
            jsons.set_serializer(lambda obj, **_: 'same', other, high)
            jsons.set_deserializer(lambda obj, cls=None, **_: 5, other, high)
            jsons.set_validator(lambda obj: False, other)
        return kind, register_same
    if kind == 'interrupt':
        ctx.ev('interrupted')

        def stop(obj, cls=None, **kwargs):
            raise Stop()

        def interrupt():
            jsons.set_serializer(stop, Interrupting)
            jsons.set_deserializer(stop, Interrupting)
            call = rng.choice([
                lambda: jsons.dump([value, Interrupting(), value], **options),
                lambda: jsons.load([{}], typing.List[Interrupting]),
                lambda: jsons.load({}, typing.Union[int, Interrupting])])
            try:
                call()
            except Stop:
                pass
            jsons.get_deserializer(dict)
        return kind, interrupt
    if kind == 'decorate':
        def decorate():
            from jsons.decorators import loaded, dumped

            @loaded()
            def func(a: node.ann, b: Other) -> node.ann:
                return jsons.dump(a)

            @dumped(strip_nulls=True)
            def func2(a) -> Other:
                return Other()
            func2(value)
            func(jsons.dump(value), {'n': 1})
        return kind, decorate
    if kind == 'transform':
        return kind, lambda: jsons.transform(Other(5), Loose)
    if kind == 'serializable':
        def serializable():
            base = jsons.JsonSerializable.with_dump(
                fork=True, key_transformer=jsons.KEY_TRANSFORMER_CAMELCASE)
            base = base.with_load(fork=True, strict=True)
            base.set_serializer(lambda obj, **_: 'q', str)
            cls = type('Facade', (base,), {'a_b': 1})
            cls().json, str(cls()), cls.from_json({})
        return kind, serializable
    if kind == 'getters':
        cls = rng.choice(classes_of(near) or [Other])
        getters = {name: lambda: 'getter' for name in gen.WORDS}
        return kind, lambda: jsons.load({}, cls, attr_getters=getters)
    if kind == 'validator':
        def validator():
            jsons.set_validator(lambda obj: False, [Other, Loose])
            util.attempt(jsons.load, {}, Other)
        return kind, validator
    if kind == 'mutate':
        return kind, lambda: wreck(jsons.dump(value, **options))
    if kind == 'target':
        return kind, rng.choice(targets).call
    if kind == 'announce':
        return kind, lambda: (jsons.announce_class(Other, 'another'),
                              jsons.load({'-meta': {'classes': {
                                  '/': 'another'}}}))
    if kind == 'warn':
        def warn():
            jsons.suppress_warnings(True)
            jsons.dump(Loose())
            jsons.suppress_warnings(False)
            jsons.suppress_warning('attribute-not-serialized')
        return kind, warn
    cls = rng.choice(classes_of(near) or [Other])
    return kind, lambda: (jsons.get_serializer(cls),
                          jsons.get_deserializer(node.ann),
                          jsons.get_serializer(jsons.fork()))


class Failing:
    @property
    def x(self):
        raise KeyError('x')


class Loose:
    def __init__(self, n: int = 2):
        self.n = n
        self.other = object


def wreck(obj):
    for elem in (obj.values() if isinstance(obj, dict) else
                 obj if isinstance(obj, list) else ()):
        wreck(elem)
    if isinstance(obj, (list, dict)):
        obj.clear()
