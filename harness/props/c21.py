"""Registered validators see every loaded value of their class."""
import typing

from harness import gen, util

PID = 'C21'
RULE = ('A case is a random type with user classes, a valid structure of it '
        'and a fork with recording validators for some of the classes that '
        'occur (or for their bases, or several at once). After a load, each '
        'value in the result whose class has a validator must be among the '
        'recorded ones, identical, and the result must be that of the same '
        'load without validators. Then the same load is repeated with one of '
        'the recorded calls failing. Distinct are the pairs of type and '
        'choice of validators.')
QUICK_N = 4000
THOROUGH_N = 1500000
NEED = {'values': 8000, 'instances': 1500, 'calls': 10000, 'failures': 1800,
        'by_false': 400, 'by_error': 400, 'by_base': 150, 'parallel': 60,
        'dumps': 1000, 'verbose': 200, 'generics': 500, 'keys': 100,
        'twins': 200}
ASSUMPTIONS = ['Values without a declared type are judged if they are '
               'instances of user classes only.',
               'A union may still succeed with another member, and it gives '
               'its own error if it does not; OrderedDict and '
               'DefaultDict may go to the validator of dict; an error of a '
               'validator within a union or optional is only required to be one of the '
               'library. Defaults are not loaded and not validated.']


class Odd(Exception):
    pass


def declared(node, value):
    """All values in a result, with the class that they were loaded as."""
    if value is None:
        return
    if isinstance(node, gen.OptionalOf):
        yield from declared(node.item, value)
    elif isinstance(node, gen.Scalar):
        cls = gen.SCALAR_TYPES[id(node)]
        if isinstance(node.ann, type) and issubclass(node.ann, cls):
            cls = node.ann  # E.g. PurePosixPath, which may have other bases.
        yield value, cls, node.ann
    elif isinstance(node, gen.ListLike):
        if node.kind in ('List', 'list', 'Set', 'set', 'Deque', 'FrozenSet'):
            yield value, node.make, node.ann
        for v in value:
            yield from declared(node.item, v)
    elif isinstance(node, (gen.TupleOf, gen.TupleEllipsis)):
        yield value, tuple, node.ann
        items = node.items if isinstance(node, gen.TupleOf) \
            else [node.item] * len(value)
        for n, v in zip(items, value):
            yield from declared(n, v)
    elif isinstance(node, gen.DictLike):
        if node.kind in ('Dict', 'dict', 'OrderedDict', 'DefaultDict'):
            yield value, type(value), node.ann
        for k, v in value.items():
            for elem, cls, ann in declared(node.key, k):
                yield elem, cls, 'key'
            yield from declared(node.val, v)
    elif isinstance(node, gen.ClassNode):
        yield value, node.cls, node.ann
        for f in node.fields:
            v = getattr(value, node.attr(f))
            if f.has_default and v is f.default:
                continue
            if f.node is gen.SELF:
                yield from declared(gen.optional(node), v)
            elif f.node is gen.SELF_LIST:
                yield v, list, list
                for e in v:
                    yield from declared(node, e)
            else:
                yield from declared(f.node, v)


def case(ctx, rng, i):
    jsons = util.jsons_()
    node = util.rand_node(ctx, rng, class_share=.6,
                          keys_hashed=rng.random() < .2)
    if rng.random() < .2:
        node = rng.choice([lambda: gen.ListLike('List', node),
                           lambda: gen.DictLike('Dict', gen.STR, node),
                           lambda: gen.TupleEllipsis(node)])()
    parallel = rng.random() < .06
    if parallel:
        # Lists within it are loaded in processes of their own, unseen.
        node = gen.ListLike('List', rng.choice(
            [lambda: rng.choice([gen.INT, gen.DATETIME, gen.PATH]),
             lambda: gen.rand_class(ctx, rng, 0, selfref=False)])())
        parallel = not any(w in node.label[5:] for w in (
            'List', 'Seq', 'Iter', 'Coll', 'Deque', 'Set', 'set', '...',
            'list', 'Any', 'object', 'untyped', 'Dict', 'dict', 'Mapping'))
    value = node.value(rng)
    options = {}
    dump_options = {}
    if isinstance(node, gen.ClassNode) and rng.random() < .3 and \
            not node.tuple_like and not has_dict(node):
        ctx.ev('verbose')
        dump_options['verbose'] = jsons.Verbosity.WITH_CLASS_INFO
    source = jsons.dump(value, **dump_options)
    cls = node.ann
    if dump_options and rng.random() < .5:
        cls = None
    if rng.random() < .4:
        options['strict'] = True
    if parallel:
        import threading
        ctx.ev('parallel')
        options.update(tasks=rng.randint(2, 4), task_type=threading.Thread)
    plain = util.attempt(jsons.load, source, cls, **options)
    ctx.check(plain.ok, 'plain', lambda: '%r; %s' % (plain, util.describe(
        node, value)))
    # Which classes have a validator?
    found = list(declared(node, plain.value))
    classes = list({c: None for _, c, _ in found})
    chosen = rng.sample(classes, rng.randint(0, len(classes)))
    users = [c for c in classes if c.__module__ == gen.MODULE]
    if users and rng.random() < .8:
        chosen.append(rng.choice(users))
    for c in users:
        if len(c.__mro__) > 2 and c.__mro__[1] is not tuple and \
                rng.random() < .5:
            chosen.append(c.__mro__[1])
            if rng.random() < .6 and c in chosen:
                chosen.remove(c)
    chosen = list(dict.fromkeys(chosen))
    rng.shuffle(chosen)
    fork = rng.choice([jsons.fork, jsons.JsonSerializable.fork])()
    other = jsons.fork(fork)
    log, fail_at = [], []

    def validator(tag):
        def func(obj):
            log.append((tag, obj))
            if fail_at and len(log) == fail_at[0]:
                if isinstance(fail_at[1], BaseException):
                    raise fail_at[1]
                return fail_at[1]
            return rng2.choice([True, True, 1, 'yes', [0], object()])
        return func

    rng2 = __import__('random').Random(i)
    model = {}
    order = []
    todo = list(chosen)
    while todo:
        n = rng.randint(1, min(3, len(todo)))
        now, todo = todo[:n], todo[n:]
        tag = 'v%d' % len(todo)
        jsons.set_validator(validator(tag),
                            now[0] if n == 1 and rng.random() < .7
                            else rng.choice([list, tuple])(now),
                            fork_inst=fork)
        for c in now:
            model[c] = tag
            order.append(c)

    for c in users:
        if rng.random() < .2:
            # Not for a class of the same name or one that differs in case.
            ctx.ev('twins')
            name = rng.choice([c.__name__.swapcase(), c.__name__])
            twin = type(name, (), {'__module__': c.__module__})
            jsons.set_validator(lambda obj: False, twin, fork_inst=fork)

    def tag_of(c):
        if c in model:
            return model[c]
        for parent in order:
            if issubclass(c, parent):
                return model[parent]
        return None
    where = lambda: 'load(%s, %s, %s) with validators for %s; %s' % (
        gen.brief(source, 500), cls, options,
        [c.__name__ for c in chosen], util.describe(node, value))
    # Dumps do not validate.
    if i % 3 == 0:
        ctx.ev('dumps')
        out = util.attempt(jsons.dump, value, fork_inst=fork, **dump_options)
        same = out.ok and (dump_options or gen.json_diff(source, out.value)
                           is None)
        ctx.check(same and not log, 'dump', lambda: '%r, %d validated; %s' % (
            out, len(log), where()))
    # Nothing fails.
    out = util.attempt(jsons.load, source, cls, fork_inst=fork, **options)
    ctx.distinct(node.label, sorted(c.__name__ for c in chosen))
    ctx.ev('calls', len(log))
    found = util.same_outcome(plain, out)
    ctx.check(found is None, 'result', lambda: '%s; %s' % (found, where()))
    seen = {(tag, id(obj)) for tag, obj in log}
    for elem, c, ann in declared(node, out.value):
        tag = tag_of(c)
        if tag is None:
            continue
        if issubclass(c, dict) and dict in model:
            tag = model[dict] if (model[dict], id(elem)) in seen else tag
        ctx.ev('values')
        if c.__module__ == gen.MODULE:
            ctx.ev('instances')
        elif c in (list, tuple, dict, set, frozenset):
            ctx.ev('generics')
        if ann == 'key':
            ctx.ev('keys')
        if c not in model:
            ctx.ev('by_base')
        ctx.check((tag, id(elem)) in seen, 'unseen',
                  lambda: '%s of %s was not validated (by %s); %s' % (
                      gen.brief(elem), c, tag, where()))
    n_calls = len(log)
    del log[:]
    # A fork of before the registrations is not affected.
    out = util.attempt(jsons.load, source, cls, fork_inst=other, **options)
    ctx.check(not log and util.same_outcome(plain, out) is None, 'other',
              lambda: '%r, %d validated; %s' % (out, len(log), where()))
    # One call fails.
    if not n_calls:
        return
    for _ in range(2):
        bad = rng.choice([False, False, 0, None, '', [],
                          ValueError('no good'), ValueError(),
                          KeyError('key'), Odd('x', 'y'), TypeError('t'),
                          ZeroDivisionError(), AssertionError('a'),
                          jsons.JsonsError('mine'),
                          jsons.ValidationError('v'),
                          jsons.DeserializationError('d', 1, int)])
        del log[:]
        fail_at[:] = [rng.randint(1, n_calls), bad]
        out = util.attempt(jsons.load, source, cls, fork_inst=fork, **options)
        ctx.ev('failures')
        ctx.ev('by_error' if isinstance(bad, Exception) else 'by_false')
        say = lambda: 'call %s gives %r: %r; %s' % (
            fail_at[0], bad, out, where())
        if 'Optional' in node.label or 'Union' in node.label:
            ctx.check(isinstance(out.error, (jsons.JsonsError, type(None))),
                      'failure-kind', say)
            continue
        ctx.check(type(out.error) is jsons.ValidationError, 'failure', say)
        message = bad.args[0] if isinstance(bad, Exception) and bad.args \
            else 'Validation failed.'
        ctx.check(out.error.message == message, 'message', say)
        if 'tasks' not in options:
            ctx.check(len(log) == fail_at[0], 'goes-on', say)
    # And nothing of it lasts.
    del fail_at[:]
    out = util.attempt(jsons.load, source, cls, fork_inst=fork, **options)
    found = util.same_outcome(plain, out)
    ctx.check(found is None, 'afterwards', lambda: '%s; %s' % (found, where()))
    ctx.sample(where())


def has_dict(node):
    return 'Dict' in node.label or 'dict' in node.label or \
        'Mapping' in node.label or 'NamedTuple' in node.label
