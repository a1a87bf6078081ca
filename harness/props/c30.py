"""Warnings come when documented, can be suppressed, and change nothing."""
import collections
import datetime
import inspect
import typing
import re

from harness import core, gen, util

PID = 'C30'
RULE = ('A case is a random history over a tree of forks (of the functions\' '
        'state or of the serializable base; in some cases the global state, '
        'in a process of its own): forking, suppressing all or one code of '
        'warnings, lifting it, and operations that must warn a known number '
        'of times (attributes that fail, elements that fail, hashed keys '
        'without a hint, naive datetimes, decorated static methods) or not '
        'at all (dumps and loads of generated types). A model of the '
        'suppression state tells which warnings must come; the outcome must '
        'be that of the same operation where nothing is suppressed. Distinct '
        'are the pairs of state and operation.')
QUICK_N = 4000
THOROUGH_N = 600000
NEED = {'operations': 10000, 'warnings': 7000, 'suppressed': 2500,
        'clean': 1500, 'forks': 2500, 'settings': 5000, 'global': 60,
        'attribute-not-serialized': 800, 'element-not-deserialized': 800,
        'hashed-keys-without-hint': 800, 'datetime-without-tz': 800,
        'decorated-static': 600, 'lifted': 250}
ASSUMPTIONS = ['A fork starts with the suppression state of its origin at '
               'that time. Lifting the suppression of all warnings leaves '
               'the codes suppressed that were so on their own.']
CODES = ['attribute-not-serialized', 'element-not-deserialized',
         'hashed-keys-without-hint', 'datetime-without-tz',
         'decorated-static']
# These suppress none of the above.
OTHER_CODES = ['no-such-code', ''] + [
    how(code) for code in CODES
    for how in (lambda c: 'some-' + c, lambda c: c + '-2', lambda c: c[:-2],
                str.upper, lambda c: 'a %s b' % c)]


class Bad:
    pass


class Holder:
    def __init__(self, **attrs):
        self.__dict__.update(attrs)


class Open:
    """Takes any attribute, none with a hint."""


def refuse(obj, **_):
    raise ValueError('refused')


_open = {}
_n = [0]


def names(rng, n):
    return ['a%d' % i for i in range(n)]


def op_attributes(ctx, rng, fork):
    jsons = util.jsons_()
    attrs = {}
    n = 0
    for name in names(rng, rng.randint(1, 4)):
        if rng.random() < .5:
            attrs[name] = Bad()
            n += 1
        else:
            attrs[name] = rng.choice([1, 'x', Holder(b=2), [1]])
    obj = Holder(**attrs)
    k = rng.randint(1, 2)
    obj = [obj] * k if rng.random() < .5 else {
        'k%d' % i: obj for i in range(k)}
    return (lambda f: jsons.dump(obj, fork_inst=f)), n * k, sorted(
        '%s=%s' % (k, type(v).__name__) for k, v in attrs.items())


def op_elements(ctx, rng, fork):
    jsons = util.jsons_()
    data, n = [], 0
    for _ in range(rng.randint(1, 5)):
        if rng.random() < .4:
            data.append(rng.choice(['x', [], {}]))
            n += 1
        else:
            data.append(rng.randint(0, 99))
    cls = typing.List[int]
    if rng.random() < .3:
        data, cls = {'k': data}, typing.Dict[str, cls]
    return (lambda f: jsons.load(data, cls, warn_on_fail=True, fork_inst=f)), \
        n, data


def op_hashed(ctx, rng, fork):
    jsons = util.jsons_()
    data, n = {}, 0
    for name in names(rng, rng.randint(1, 4)):
        if rng.random() < .6:
            data[name] = {'-keys': {'h': [1, 2]}, 'h': 'v'}
            n += 1
        else:
            data[name] = rng.choice([5, {'h': 1}, [{'-keys': {}}]])
    return (lambda f: jsons.load(data, Open, fork_inst=f)), n, data


def op_naive(ctx, rng, fork):
    jsons = util.jsons_()
    value, n = [], 0
    for _ in range(rng.randint(1, 4)):
        when = datetime.datetime(rng.randint(1980, 2030), rng.randint(1, 12),
                                 rng.randint(1, 28), 12)
        if rng.random() < .5:
            n += 1
        else:
            when = when.replace(tzinfo=datetime.timezone.utc)
        value.append(when)
    how = rng.choice(['list', 'dict', 'object', 'tuple'])
    obj = {'list': lambda: value, 'tuple': lambda: tuple(value),
           'dict': lambda: {'k%d' % i: v for i, v in enumerate(value)},
           'object': lambda: Holder(**{
               'a%d' % i: v for i, v in enumerate(value)})}[how]()
    return (lambda f: jsons.dump(obj, fork_inst=f)), n, (how, value)


def op_static(ctx, rng, fork):
    import jsons.decorators
    jsons = util.jsons_()
    decorator = rng.choice([jsons.decorators.loaded,
                            jsons.decorators.dumped])
    static = rng.random() < .6
    what = staticmethod(len) if static else Holder

    def act(f):
        try:
            decorator(fork_inst=f)(what)
        except jsons.exceptions.InvalidDecorationError as err:
            return 'invalid'
        return 'fine'
    return act, int(static), (decorator.__name__, static)


def op_clean(ctx, rng, fork):
    jsons = util.jsons_()
    node = util.rand_node(ctx, rng, 2, .5)
    value = node.value(rng)
    naive = count_naive(value)
    ctx.ev('clean')

    def act(f):
        dumped = jsons.dump(value, node.ann, fork_inst=f)
        jsons.dump(value, fork_inst=f)
        return jsons.load(dumped, node.ann, fork_inst=f)
    return act, (None if naive else 0), util.describe(node, value)


def count_naive(value):
    """Whether there is a naive datetime somewhere."""
    if isinstance(value, datetime.datetime):
        return value.tzinfo is None
    if isinstance(value, gen.MAPS):
        return any(map(count_naive, list(value) + list(value.values())))
    if isinstance(value, (list, tuple, set, frozenset, collections.deque)):
        return any(map(count_naive, value))
    if getattr(value, '__iter__', None) \
            and not isinstance(value, (str, bytes)):
        return True
    if type(value).__module__ in (gen.MODULE,):
        return any(map(count_naive, gen.attrs_of(value).values()))
    return False


OPS = {'attribute-not-serialized': op_attributes,
       'element-not-deserialized': op_elements,
       'hashed-keys-without-hint': op_hashed,
       'datetime-without-tz': op_naive,
       'decorated-static': op_static,
       None: op_clean}


class State:
    def __init__(self, fork, name, everything=False, codes=()):
        self.fork, self.name = fork, name
        self.everything, self.codes = everything, set(codes)


def case(ctx, rng, i):
    if i % 20 == 0:
        ctx.ev('global')
        util.in_child(ctx, lambda: run(ctx, rng, True))
    else:
        run(ctx, rng, False)


def run(ctx, rng, use_global):
    jsons = util.jsons_()
    history = []
    serializable = rng.random() < .4
    if use_global:
        # The control is made of what the global state is at the start.
        jsons.set_serializer(refuse, Bad)
        control = jsons.fork()
        root = None
        states = [State(None, 'global')]
        if rng.random() < .5:
            states = [State(jsons.JsonSerializable.fork(), 'f0')] + states
    else:
        control = jsons.JsonSerializable.fork() if serializable \
            else jsons.fork()
        jsons.set_serializer(refuse, Bad, fork_inst=control)
        states = [State(jsons.fork(control), 'f0')]
    for _ in range(rng.randint(4, 16)):
        state = rng.choice(states)
        kw = {} if state.fork is None else {'fork_inst': state.fork}
        x = rng.random()
        if x < .15 and len(states) < 6:
            new = state.fork.fork() if hasattr(state.fork, 'fork') \
                else jsons.fork(**kw)
            jsons.set_serializer(refuse, Bad, fork_inst=new)
            states.append(State(new, 'f%d' % len(states), state.everything,
                                state.codes))
            history.append('%s forked from %s' % (states[-1].name,
                                                  state.name))
            ctx.ev('forks')
        elif x < .45:
            ctx.ev('settings')
            if rng.random() < .5:
                value = rng.random() < .5
                if value and rng.random() < .5:
                    jsons.suppress_warnings(**kw)
                else:
                    jsons.suppress_warnings(value, **kw)
                if state.everything and not value:
                    ctx.ev('lifted')
                state.everything = value
                history.append('suppress_warnings(%s) on %s' % (value,
                                                                state.name))
            else:
                code = rng.choice(CODES if rng.random() < .6
                                  else OTHER_CODES)
                jsons.suppress_warning(code, **kw)
                state.codes.add(code)
                history.append('suppress_warning(%s) on %s' % (code,
                                                               state.name))
        else:
            operate(ctx, rng, control, state, history)
    ctx.sample('\n'.join(history))


def operate(ctx, rng, control, state, history):
    jsons = util.jsons_()
    code = rng.choice(CODES + [None])
    act, count, what = OPS[code](ctx, rng, state.fork)
    where = lambda: '%s on %s: %s\nafter %s' % (
        code or 'clean', state.name, core.short(what, 1500),
        '\n'.join(history))
    fork = state.fork
    if fork is None:
        fork = inspect.signature(
            jsons.suppress_warnings).parameters['fork_inst'].default
    with util.recorded_warnings() as caught:
        out = util.attempt(act, fork)
    found = [str(w.message) for w in caught]
    with util.recorded_warnings() as caught:
        ref = util.attempt(act, control)
    found_ref = [str(w.message) for w in caught]
    ctx.ev('operations')
    ctx.distinct(state.everything, sorted(state.codes), code, what)
    ctx.check(ref.ok, 'fails', lambda: '%r; %s' % (ref, where()))
    diff = same(ref, out)
    ctx.check(diff is None, 'result', lambda: '%s; %s' % (diff, where()))
    if count is None:
        code = 'datetime-without-tz'
        ctx.check(found_ref, 'missing', where)
        count = len(found_ref)
    check_warnings(ctx, found_ref, code, count, lambda: 'control; ' + where())
    if state.everything or code in state.codes:
        ctx.ev('suppressed')
        count = 0
    check_warnings(ctx, found, code, count, where)
    if count:
        ctx.ev(code)
        ctx.ev('warnings', count)


def same(a, b):
    if a.ok and b.ok:
        text = [util.canon_outcome(x) for x in (a, b)]
        if text[0] == text[1] or gen.diff(a.value, b.value) is None:
            return None
        return '%s / %s' % tuple(text)
    return None if a.ok == b.ok else '%r / %r' % (a, b)


def check_warnings(ctx, found, code, count, where):
    ctx.check(len(found) == count, 'warnings',
              lambda: '%d instead of %s: %s; %s' % (len(found), count,
                                                    found, where()))
    for text in found:
        # The warning tells how to suppress it.
        ctx.check(code and re.search(r'suppress_warning\(\W?%s\W?\)' % code,
                                     text), 'code',
                  lambda: '%s; %s' % (text, where()))
