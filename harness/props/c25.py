"""The decorators load arguments, dump results and alter nothing else."""
import copy
import inspect
import json
import typing

from harness import gen, util

PID = 'C25'
RULE = ('A case is a generated function (plain, method, class or static '
        'method, coroutine; parameters of all kinds, annotated or not, with '
        'and without defaults, hostile names) that is decorated with random '
        'options and called with arguments passed in random ways. It logs '
        'what it gets; the binding of the signature tells what that must be: '
        'each given argument loaded (dumped) as annotated, all else '
        'identical. Likewise for what it returns or raises. Distinct are the '
        'triples of signature, options and way of calling.')
QUICK_N = 5000
THOROUGH_N = 1500000
NEED = {'special': 200, 'calls': 3000, 'arguments': 6000, 'by_keyword': 1000, 'variadic': 500,
        'kw_only': 500, 'defaults': 500, 'methods': 500, 'coroutines': 400,
        'raised': 150, 'returned': 2000, 'text': 300, 'load_errors': 50,
        'off': 500, 'private': 200, 'refused': 20,
        'named_like': 200, 'equal_defaults': 150,
        'passed_none': 60, 'awaitables': 80}
ASSUMPTIONS = ['Arguments without annotation are loaded or dumped without a '
               'type, as documented.',
               'Annotations that are strings are not exercised; the name and '
               'signature of the decorated function are not claimed.']
NAMES = ['a', 'b', 'name', 'x', 'cls', 'self', 'args', 'kwargs', 'fork_inst',
         'mapper', 'obj', 'func', 'decorated', 'parameters', 'strict', 'json',
         'load', 'result', 'loader', 'value', 'klass', 'mcs', 'this']
_counter = [0]


NO = object()  # No default.


class Token:
    """Handled by a fork only."""

    def __init__(self, n):
        self.n = n

    def __eq__(self, other):
        return isinstance(other, Token) and self.n == other.n


class TokenNode(gen.Node):
    def __init__(self):
        gen.Node.__init__(self, Token, 'Token')

    def value(self, rng):
        return Token(rng.randint(0, 99))


_fork = []


def fork():
    if not _fork:
        jsons = util.jsons_()
        _fork.append(jsons.JsonSerializable.fork())
        jsons.set_serializer(lambda obj, **_: {'tok': obj.n}, Token,
                             fork_inst=_fork[0])
        jsons.set_deserializer(lambda obj, cls=None, **_: Token(obj['tok']),
                               Token, fork_inst=_fork[0])
    return _fork[0]


class Param:
    def __init__(self, kind, name, node, default):
        self.kind, self.name, self.node = kind, name, node
        self.default = default
        self.passable = False

    def source(self):
        res = {'args': '*', 'kwargs': '**'}.get(self.kind, '') + self.name
        if self.node:
            res += ': ann_%s' % self.name
        if self.default is not NO:
            res += ' = dflt_%s' % self.name
        return res


def rand_param_node(ctx, rng, toks):
    x = rng.random()
    if x < .2:
        return None
    if toks and x < .5:
        return TokenNode()
    return util.rand_node(ctx, rng, 1, .3, untyped=False)


def rand_params(ctx, rng, names, toks):
    params = []
    n_pos = rng.choice([0, 0, 0, 1])
    n_std = rng.choice([0, 1, 1, 2, 3])
    had_default = False
    for k in range(n_pos + n_std):
        node = rand_param_node(ctx, rng, toks)
        default = NO
        if had_default or rng.random() < .25:
            had_default = True
            default = None if rng.random() < .25 else object()
        params.append(Param('pos' if k < n_pos else 'std', names.pop(), node,
                            default))
    if rng.random() < .3:
        params.append(Param('args', names.pop(),
                            rand_param_node(ctx, rng, toks), NO))
    if rng.random() < .35:
        for _ in range(rng.randint(1, 2)):
            params.append(Param(
                'kw', names.pop(), rand_param_node(ctx, rng, toks),
                rng.choice([object(), None])
                if rng.random() < .35 else NO))
    if rng.random() < .3:
        params.append(Param('kwargs', names.pop(),
                            rand_param_node(ctx, rng, toks), NO))
    return params


def signature_source(params):
    parts = []
    star = False
    for i, p in enumerate(params):
        if p.kind == 'args':
            star = True
        if p.kind == 'kw' and not star:
            parts.append('*')
            star = True
        parts.append(p.source())
        if p.kind == 'pos' and (i + 1 == len(params)
                                or params[i + 1].kind != 'pos'):
            parts.append('/')
    return ', '.join(parts)


class Awaitable:
    """Not to be awaited by anyone but who called."""

    def __await__(self):
        raise AssertionError('awaited')


class Boom(Exception):
    pass


def case(ctx, rng, i):
    import jsons.decorators
    jsons_ = util.jsons_()
    if i % 40 == 0:
        refused(ctx, jsons_)
    broken = rng.random() < .12
    style = rng.choice(['function'] * 4 + ['method', 'method', 'classmethod',
                                           'staticmethod'])
    is_async = rng.random() < .2
    names = rng.sample(NAMES, len(NAMES))
    first = {'method': 'self', 'classmethod': 'cls'}.get(style)
    like = None
    if rng.random() < .1:
        # Named like an attribute of arguments. (Whether one that is named
        # self is an instance is told by that.)
        like = rng.choice(['upper', 'index', 'items', 'real', 'copy', 'strip',
                           'count', 'year', 'value'])
        names = [n for n in names if n not in ('self', 'cls', like)]
        if rng.random() < .4:
            names += ['klass_', 'me', 'this_', 'self_', 'cls_', 'mcls', 'owner']
            rng.shuffle(names)
            names.sort(key=['klass', 'mcs', 'this'].count)
    if first and first in names:
        names.remove(first)
    if first:
        ctx.ev('methods')
    toks = rng.random() < .4
    params = rand_params(ctx, rng, names, toks)
    ret_node = rand_param_node(ctx, rng, toks)
    # The decorator and its options.
    loading = rng.random() < .6
    mapper, deco = (jsons_.load, jsons.decorators.loaded) if loading \
        else (jsons_.dump, jsons.decorators.dumped)
    deco_kwargs, map_kwargs = {}, {}
    text = rng.random()
    if text < .25 and not toks:
        ctx.ev('text')
        mapper = rng.choice([jsons_.loads, jsons_.loadb] if loading
                            else [jsons_.dumps, jsons_.dumpb])
        deco_kwargs['loader' if loading else 'dumper'] = mapper
    if toks:
        map_kwargs['fork_inst'] = deco_kwargs['fork_inst'] = fork()
    else:
        map_kwargs['fork_inst'] = jsons_.JsonSerializable
    if rng.random() < .3:
        extra = rng.choice([{'strict': True}, {'strip_nulls': True},
                            {'key_transformer':
                             jsons_.KEY_TRANSFORMER_CAMELCASE}]
                           if not loading else [{'strict': True}])
        map_kwargs.update(extra)
        deco_kwargs.update(extra)
    do_params = rng.random() < .8
    do_return = rng.random() < .8
    if not do_params or rng.random() < .3:
        deco_kwargs['parameters'] = do_params
    if not do_return or rng.random() < .3:
        deco_kwargs['returnvalue'] = do_return

    def arg(node):
        """Something to pass, or to return."""
        node = node or rng.choice([gen.INT, gen.STR, gen.DATETIME])
        value = node.value(rng)
        if loading:
            value = jsons_.dump(value, fork_inst=map_kwargs['fork_inst'])
            if broken and rng.random() < .7:
                value = rng.choice([None, 'x', {'x': 1}, [{}], 1.5, value])
            if mapper is jsons_.loads:
                value = json.dumps(value)
            elif mapper is jsons_.loadb:
                value = json.dumps(value).encode()
        return value

    for p in params:
        if p.default is not NO and rng.random() < .5:
            # One that could be passed as well.
            value = arg(p.node)
            if value is not None:
                p.default, p.passable = value, True
    # The function.
    _counter[0] += 1
    name = attr = 'func%d' % _counter[0]
    class_name = rng.choice(['Owner', '_Owner', '__Owner', '_', 'Owner_'])
    if like:
        ctx.ev('named_like')
        name = attr = like
    elif style != 'function' and rng.random() < .2:
        ctx.ev('private')
        name = '__' + name
        attr = '_%s%s' % (class_name.lstrip('_'), name) \
            if class_name != '_' else name
    elif rng.random() < .15:
        # As special methods (e.g. __call__) are named, or a hidden function.
        ctx.ev('special')
        name = attr = '__%s%s' % (name, '' if style == 'function'
                                  and rng.random() < .5 else '__')
    log = []
    boom = Boom() if rng.random() < .1 else None
    returned = arg(ret_node)
    if not do_return and rng.random() < .2:
        ctx.ev('awaitables')
        returned = Awaitable()
    ns = {'log': log, 'RETURN': returned, 'BOOM': boom, 'deco':
          deco(**deco_kwargs) if deco_kwargs or rng.random() < .5 else deco()}
    for p in params:
        if p.node:
            ns['ann_' + p.name] = p.node.ann
        if p.default is not NO:
            ns['dflt_' + p.name] = p.default
    if ret_node:
        ns['ann_return'] = ret_node.ann
    sig = signature_source(params)
    if first:
        sig = first + (', ' + sig if sig else '')
        if params and params[0].kind == 'pos':
            sig = sig  # The first is positional-only then too.
    lines = ['%sdef %s(%s)%s:' % ('async ' if is_async else '', name, sig,
                                  ' -> ann_return' if ret_node else ''),
             '    log.append(dict(locals()))',
             '    if BOOM: raise BOOM', '    return RETURN']
    lines.insert(0, '@deco')
    if style in ('classmethod', 'staticmethod'):
        lines.insert(0, '@' + style)
    if style != 'function':
        lines = ['class %s:' % class_name] + ['    ' + line for line in lines]
    source = '\n'.join(lines)
    exec(source, ns)
    if is_async:
        ctx.ev('coroutines')
    # The call.
    owner = None
    if style == 'function':
        func = ns[name]
    else:
        owner = ns[class_name]() if style == 'method' or rng.random() < .3 \
            else ns[class_name]
        func = getattr(owner, attr)
    args, kwargs, expect, raw = arguments(ctx, rng, params, arg)
    where = lambda: '%s\nwith %s, called with %r %r' % (
        source, deco_kwargs, args, kwargs)
    call = lambda: func(*args, **kwargs)
    if is_async:
        plain = call
        call = lambda: run(plain())
    ctx.ev('calls')
    ctx.distinct(sig, sorted(deco_kwargs), len(args), sorted(kwargs))

    def mapped(value, node):
        return mapper(value, cls=node.ann if node else None, **map_kwargs)
    # What would loading or dumping the arguments give?
    wanted = {}
    omitted = set()
    failure = None
    for p, value in expect:
        if value is OMITTED:
            omitted.add(p.name)
            value = p.default
        if not do_params or p.name in omitted:
            wanted.setdefault(id(p), []).append(value)
            continue
        out = util.attempt(mapped, value, p.node)
        if not out.ok:
            failure = failure or out
            break
        wanted.setdefault(id(p), []).append(out.value)
    out = util.attempt(call)
    if failure:
        ctx.ev('load_errors')
        ctx.check(not log and type(out.error) is type(failure.error),
                  'failure', lambda: '%r instead of %r; %s' % (out, failure,
                                                               where()))
        return
    ctx.check(len(log) == 1, 'called', lambda: 'called %d times: %r; %s' % (
        len(log), out, where()))
    got = dict(log[0])
    if first:
        self_ = got.pop(first)
        want = owner if style == 'method' else ns[class_name]
        ctx.check(self_ is want, first, lambda: '%r; %s' % (self_, where()))
    for p in params:
        value = got.pop(p.name)
        want = wanted.get(id(p), [])
        if p.kind == 'args':
            ok = type(value) is tuple and len(value) == len(want)
            pairs = list(zip(want, value))
        elif p.kind == 'kwargs':
            ok = list(value) == [k for k, q in raw if q is p]
            pairs = list(zip(want, value.values()))
        else:
            ok = True
            pairs = [(want[0], value)]
        ctx.check(ok, 'variadic', lambda: '%s = %r; %s' % (p.name, value,
                                                           where()))
        for a, b in pairs:
            ctx.ev('arguments')
            if not do_params or p.name in omitted:
                ctx.check(a is b, 'untouched', lambda: '%s: %r instead of %r; '
                          '%s' % (p.name, b, a, where()))
            else:
                found = gen.diff(a, b)
                ctx.check(found is None, 'argument', lambda: '%s: %s; %s' % (
                    p.name, found, where()))
    ctx.check(not got, 'locals', lambda: '%s; %s' % (got, where()))
    if boom:
        ctx.ev('raised')
        ctx.check(out.error is boom, 'raised', lambda: '%r; %s' % (out,
                                                                   where()))
        return
    ctx.ev('returned')
    if not do_return:
        ctx.ev('off')
        ctx.check(out.ok and out.value is returned, 'return-untouched',
                  lambda: '%r instead of %r; %s' % (out, returned, where()))
        return
    want = util.attempt(mapped, returned, ret_node)
    found = util.same_outcome(want, out)
    ctx.check(found is None, 'return', lambda: '%s; %s' % (found, where()))
    ctx.sample('%s\ncalled with %r %r' % (source, args, kwargs))


def run(coroutine):
    """Without a loop: the functions await nothing."""
    try:
        coroutine.send(None)
    except StopIteration as stop:
        return stop.value
    raise AssertionError('awaits')


OMITTED = object()


def given(ctx, rng, p, arg):
    if p.passable and rng.random() < .5:
        ctx.ev('equal_defaults')
        return copy.deepcopy(p.default)  # This is to be mapped, if passed.
    if p.default is None and rng.random() < .5:
        ctx.ev('passed_none')  # This may be refused, though it is default.
        return None
    return arg(p.node)


def arguments(ctx, rng, params, arg):
    """Arguments to pass, and what each parameter is to get of these."""
    args, kwargs, expect, raw = [], {}, [], []
    by_keyword = False
    has_args = any(p.kind == 'args' for p in params)
    more = has_args and rng.random() < .6
    for p in params:
        if p.kind in ('pos', 'std'):
            if p.default is not NO and not more and (
                    rng.random() < .5 or p.kind == 'pos' and by_keyword):
                ctx.ev('defaults')
                expect.append((p, OMITTED))
                by_keyword = True
                continue
            if p.kind == 'std' and not more and (by_keyword
                                                 or rng.random() < .3):
                by_keyword = True
            value = given(ctx, rng, p, arg)
            if by_keyword:
                ctx.ev('by_keyword')
                kwargs[p.name] = value
            else:
                args.append(value)
            expect.append((p, value))
        elif p.kind == 'args':
            if more:
                for _ in range(rng.randint(1, 3)):
                    ctx.ev('variadic')
                    value = arg(p.node)
                    args.append(value)
                    expect.append((p, value))
        elif p.kind == 'kw':
            ctx.ev('kw_only')
            if p.default is not NO and rng.random() < .5:
                ctx.ev('defaults')
                expect.append((p, OMITTED))
                continue
            kwargs[p.name] = value = given(ctx, rng, p, arg)
            expect.append((p, value))
        else:
            keys = ['k1', 'k2', 'fork_inst_', 'cls_', 'to']
            # Names of parameters that cannot be passed by these.
            keys += [q.name for q in params
                     if q.kind in ('pos', 'args', 'kwargs')]
            for key in rng.sample(keys, rng.randint(0, 3)):
                ctx.ev('variadic')
                kwargs[key] = value = arg(p.node)
                expect.append((p, value))
                raw.append((key, p))
    return args, kwargs, expect, raw


def refused(ctx, jsons):
    from jsons.decorators import dumped, loaded
    from jsons.exceptions import InvalidDecorationError
    ctx.ev('refused')
    for call in (lambda: loaded(loader=print), lambda: dumped(dumper=print),
                 lambda: loaded()(Token), lambda: dumped()(Token),
                 lambda: loaded()(staticmethod(print)),
                 lambda: loaded(loader=jsons.dump)):
        with util.recorded_warnings():
            out = util.attempt(call)
        ctx.check(isinstance(out.error, InvalidDecorationError), 'refused',
                  lambda: repr(out))
