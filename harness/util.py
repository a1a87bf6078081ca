"""Helpers that the property modules share."""
import contextlib
import json
import os
import pickle
import re
import sys
import tempfile
import time
import traceback
import warnings

from harness import core, gen


def jsons_():
    import jsons
    return jsons


class Outcome:
    """What a call did: returned a value or raised an error."""

    def __init__(self, value=None, error=None):
        self.value, self.error = value, error

    @property
    def ok(self):
        return self.error is None

    def __repr__(self):
        return 'returned %s' % core.short(self.value) if self.ok else \
            'raised %s: %s' % (type(self.error).__name__,
                               core.short(str(self.error)))


def attempt(func, *args, **kwargs):
    try:
        return Outcome(func(*args, **kwargs))
    except Exception as err:
        return Outcome(error=err)


def same_outcome(a, b, order=True):
    """None if two outcomes agree: equal values or errors of the same type."""
    if a.ok != b.ok:
        return '%r / %r' % (a, b)
    if a.ok:
        return gen.diff(a.value, b.value, order=order)
    return None if type(a.error) is type(b.error) else '%r / %r' % (a, b)


def in_child(ctx, func, timeout=60):
    """
    Run func() in a forked child, for what changes global state. What it
    observes comes back; a violation in the child is one of the case.
    """
    fd, path = tempfile.mkstemp()
    os.close(fd)
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            ctx.counters.clear()
            ctx.seen = set()
            ctx.samples = []
            found = None
            try:
                func()
            except core.Violation as err:
                found = (err.kind, err.msg)
            except BaseException as err:
                found = ('unexpected-%s' % type(err).__name__,
                         core.short('%s\n%s' % (err, traceback.format_exc()),
                                    4000))
            with open(path, 'wb') as f:
                pickle.dump((found, ctx.counters, ctx.seen, ctx.samples), f)
            code = 0
        finally:
            os._exit(code)
    _, status = os.waitpid(pid, 0)
    try:
        if status:
            raise core.Violation('child-died', 'status %s' % status)
        with open(path, 'rb') as f:
            found, counters, seen, samples = pickle.load(f)
    finally:
        os.unlink(path)
    ctx.counters.update(counters)
    ctx.seen |= seen
    ctx.samples = (ctx.samples + samples)[:3]
    if found:
        raise core.Violation(*found)


def child_result(func):
    """What func() returns (something to pickle) in a forked child."""
    read, write = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            os.close(read)
            try:
                result = (True, func())
            except BaseException as err:
                result = (False, '%s\n%s' % (err, traceback.format_exc()))
            with os.fdopen(write, 'wb') as f:
                pickle.dump(result, f)
            code = 0
        finally:
            os._exit(code)
    os.close(write)
    with os.fdopen(read, 'rb') as f:
        data = f.read()
    _, status = os.waitpid(pid, 0)
    if status:
        raise core.Violation('child-died', 'status %s' % status)
    ok, result = pickle.loads(data)
    if not ok:
        raise core.Violation('unexpected-in-child', core.short(result, 4000))
    return result


def canon(value, depth=0):
    """A text that tells apart what diff() tells apart."""
    if depth > 40:
        return '...'
    sub = lambda v: canon(v, depth + 1)
    name = type(value).__qualname__
    if isinstance(value, (list, tuple, gen.collections.deque)):
        return '%s[%s]' % (name, ', '.join(map(sub, value)))
    if isinstance(value, (set, frozenset)):
        return '%s{%s}' % (name, ', '.join(sorted(map(sub, value))))
    if isinstance(value, gen.MAPS):
        return '%s{%s}' % (name, ', '.join(
            '%s: %s' % (sub(k), sub(v)) for k, v in value.items()))
    if isinstance(value, type) or callable(value):
        return 'callable %s' % getattr(value, '__qualname__', name)
    if type(value).__module__ in (gen.MODULE, '__main__') or \
            type(value).__module__.startswith('harness.props'):
        return '%s(%s)' % (name, ', '.join(
            '%s=%s' % (k, sub(v))
            for k, v in sorted(gen.attrs_of(value).items())))
    return re.sub(r' at 0x[0-9a-f]+', '', '%s:%r' % (name, value))


def canon_outcome(outcome):
    if outcome.ok:
        return 'returned %s' % canon(outcome.value)
    return 'raised %s: %s' % (type(outcome.error).__name__, re.sub(
        r' at 0x[0-9a-f]+', '', str(outcome.error)))


@contextlib.contextmanager
def recorded_warnings():
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter('always')
        yield caught


def through_text(rng, jsons, dumped):
    """The JSON structure after a trip over text."""
    return json.loads(json.dumps(dumped, ensure_ascii=rng.random() < .5))


def describe(node, value=None):
    text = getattr(node, 'source', None) or node.label
    if value is not None:
        text += '\nvalue: %s' % core.short(value, 700)
    return core.short(text, 2500)


def rand_node(ctx, rng, depth=2, class_share=.4, **kwargs):
    """A random type with or without user classes in it."""
    if rng.random() < class_share:
        return gen.rand_class(ctx, rng, min(depth, 1), **kwargs)
    scalars = kwargs.get('scalars', gen.SCALARS)
    keys_hashed = kwargs.get('keys_hashed', False)
    return gen.rand_type(
        rng, rng.randint(0, depth), keys_hashed=keys_hashed, scalars=scalars,
        classes=lambda: gen.rand_class(ctx, rng, 0, **kwargs))


def transformers():
    jsons = jsons_()
    return [jsons.KEY_TRANSFORMER_SNAKECASE, jsons.KEY_TRANSFORMER_CAMELCASE,
            jsons.KEY_TRANSFORMER_PASCALCASE, jsons.KEY_TRANSFORMER_LISPCASE]


def rand_dump_options(rng, node=None, verbose=True):
    """Random options of dump, not to judge their effect."""
    jsons = jsons_()
    res = {}
    for name, p in (('strip_nulls', .3), ('strip_privates', .3),
                    ('strip_properties', .3), ('strip_class_variables', .3),
                    ('strict', .3)):
        if rng.random() < p:
            res[name] = rng.random() < .8
    if rng.random() < .3:
        res['key_transformer'] = rng.choice(
            transformers() + [lambda s: 'k_' + s, str.upper])
    elif verbose and rng.random() < .3:
        res['verbose'] = jsons.Verbosity.WITH_CLASS_INFO
    if rng.random() < .3:
        names = rng.sample(gen.WORDS, 3)
        res['strip_attr'] = rng.choice([names[0], names, tuple(names), []])
    if rng.random() < .2:
        res['use_enum_name'] = True
    if node is not None and rng.random() < .3:
        res['cls'] = node.ann
    return res


class Nested:
    """A type (node) and a JSON structure for it around some inner ones."""

    def __init__(self, ctx, rng, node, json_obj, levels, kinds=None):
        self.path = []
        self.kinds = []
        for _ in range(levels):
            kind = rng.choice(kinds or ['list', 'list', 'seq', 'tuple', 'dict',
                                        'class', 'ellipsis', 'optional'])
            if node.hashable and rng.random() < .5:
                kind = 'key'
            node, json_obj, at = self._wrap(ctx, rng, node, json_obj, kind)
            if at is not None:
                self.path[:0] = at if isinstance(at, list) else [at]
            self.kinds.insert(0, 'list' if kind == 'key' and len(
                self.path) and self.path[0] != '-keys' else kind)
        self.node, self.json = node, json_obj
        self.through_list = bool({'list', 'seq'} & set(self.kinds))
        self.through_union = 'optional' in self.kinds

    @staticmethod
    def _wrap(ctx, rng, node, json_obj, kind):
        fresh = lambda: jsons_().dump(node.value(rng))
        if kind == 'key' and node.hashable and isinstance(json_obj,
                                                          (list, dict)):
            ctx.ev('keys')
            number = rng.choice([0, -1, 5, 2 ** 61 - 2, '7', '-12'])
            out = {number: 1, '-keys': {number: json_obj}}
            if rng.random() < .4:
                other = node.value(rng)
                if node.dump(other) != json_obj:
                    out.update({99: 2})
                    out['-keys'][99] = jsons_().dump(other)
            return gen.DictLike(rng.choice(['Dict', 'dict']), node, gen.INT), \
                out, ['-keys', number]
        if kind == 'key':
            kind = 'list'
        if kind in ('list', 'seq'):
            res = gen.ListLike(rng.choice(
                ['List', 'list'] if kind == 'list' else
                ['Sequence', 'Iterable', 'Deque', 'Collection',
                 'MutableSequence']), node)
            n = rng.randint(1, 4)
            at = rng.randrange(n)
            out = [fresh() for _ in range(n)]
            out[at] = json_obj
            return res, out, at
        if kind == 'tuple':
            items = [gen.INT, gen.STR]
            out = [1, 'x']
            at = rng.randint(0, 2)
            items.insert(at, node)
            out.insert(at, json_obj)
            return gen.TupleOf(items), out, at
        if kind == 'ellipsis':
            out = [fresh() for _ in range(rng.randint(0, 2))]
            out.append(json_obj)
            return gen.TupleEllipsis(node), out, len(out) - 1
        if kind == 'dict':
            out = {'k%d' % i: fresh() for i in range(rng.randint(0, 2))}
            out['at'] = json_obj
            return gen.DictLike(rng.choice(gen.DICT_KINDS), gen.STR, node), \
                out, 'at'
        if kind == 'class':
            style = rng.choice([s for s in gen.ClassNode.STYLES
                                if 'inherit' not in s])
            names = gen.rand_names(rng, 3, 0)
            fields = [gen.Field(names[0], gen.INT), gen.Field(names[1], node),
                      gen.Field(names[2], gen.STR)]
            if style == 'NamedTuple':
                for f in fields:
                    f.name = 'f_' + f.name
            res = gen.ClassNode(ctx, rng, fields, style)
            return res, {fields[0].name: 1, fields[1].name: json_obj,
                         fields[2].name: 'x'}, fields[1].name
        if kind == 'optional':
            return gen.optional(node), json_obj, None
        raise AssertionError(kind)


def set_zone(ctx, name):
    """Let the process have a local timezone until the end of the case."""
    if os.environ.get('TZ') == name:
        return
    before = os.environ.get('TZ')

    def switch(to):
        if to is None:
            os.environ.pop('TZ', None)
        else:
            os.environ['TZ'] = to
        time.tzset()
    switch(name)
    ctx.cleanups.append(lambda: switch(before))
