"""Key transformers apply to every key once and invert on load."""
import contextlib
import random
import re

from harness import gen, util

PID = 'C12'
RULE = ('A case is either a value of a random type, dumped with a key '
        'transformer and compared with a model of which keys are transformed, '
        'then loaded with the inverse; or a set of names, brought in each of '
        'the four documented cases from each other. Distinct are the pairs of '
        'dump and transformer.')
QUICK_N = 8000
THOROUGH_N = 1500000
NEED = {'dumps': 2000, 'loads': 2000, 'keys_transformed': 3000,
        'builtin_pairs': 500, 'names': 2000, 'privates': 100,
        'permuted': 250, 'object_keys': 200}
ASSUMPTIONS = ['The built-in transformers are only inverted on names of words '
               'of two or more lower case letters; names like a_b or x_1 have '
               'no unambiguous camelCase.']
SNAKE = ['name', 'first_name', 'list_of_things', 'is_ok', 'total_sum', 'url',
         'html_page', 'data', 'some_value', 'parent_item', 'age', 'éé',
         'the_quick_brown_fox', 'meta_info', 'json', 'key_transformer',
         'strip_nulls', 'cls', 'obj', 'strict', 'kwargs', 'fork_inst', 'args',
         'meta', 'keys', 'items', 'real', 'offset', 'verbose']
SNAKE_KEY = gen.Scalar(str, 'snake', lambda rng: rng.choice(SNAKE), gen.same,
                       True)


def case(ctx, rng, i):
    if rng.random() < .2:
        return names(ctx, rng)
    if rng.random() < .12:
        return privates(ctx, rng)
    jsons = util.jsons_()
    builtin = rng.random() < .35
    if builtin:
        ctx.ev('builtin_pairs')
        to = rng.choice([jsons.KEY_TRANSFORMER_CAMELCASE,
                         jsons.KEY_TRANSFORMER_PASCALCASE,
                         jsons.KEY_TRANSFORMER_LISPCASE,
                         jsons.KEY_TRANSFORMER_SNAKECASE])
        fro = jsons.KEY_TRANSFORMER_SNAKECASE
        label = to.__name__
    else:
        label, to, fro = rng.choice(PAIRS if rng.random() < .4 else PAIRS[:5])
        if label[:4] == 'perm':
            ctx.ev('permuted')
    options = {'strict': True} if rng.random() < .4 else {}
    as_cls = rng.random() < .4
    # A strict dump as some class only has the attributes with an annotation.
    untyped = not options
    with snake_only() if builtin else contextlib.nullcontext():
        node = util.rand_node(ctx, rng, 2, .6,
                              keys_hashed=not builtin and rng.random() < .3,
                              untyped=untyped) \
            if rng.random() < .93 else keyed(ctx, rng, builtin)
    value = node.value(rng)
    where = lambda: '%s; %s' % (label, util.describe(node, value))
    way = {'cls': node.ann} if as_cls else {}
    dumped = jsons.dump(value, key_transformer=to, **way, **options)
    ctx.ev('dumps')
    found = gen.json_diff(transformed(ctx, node, value, to), dumped)
    ctx.check(found is None, 'dump', lambda: '%s; %s' % (found, where()))
    if not isinstance(dumped, (str, int, float, bool, type(None))):
        ctx.distinct(label, repr(dumped))
    if rng.random() < .5:
        options = {'strict': True} if rng.random() < .4 else {}
    loaded = jsons.load(dumped, node.ann, key_transformer=fro, **options)
    ctx.ev('loads')
    found = gen.diff(value, loaded, order=False)
    ctx.check(found is None, 'load', lambda: '%s; %s' % (found, where()))
    ctx.sample('%s: %s' % (label, dumped))


def keyed(ctx, rng, builtin):
    """A dict with objects for keys, at some place."""
    ctx.ev('object_keys')
    while True:
        node = gen.rand_class(ctx, rng, rng.choice([0, 0, 1]), rng.choice(
            ['frozen', 'attrs_frozen', 'NamedTuple']), selfref=False,
            untyped=False, nfields=rng.randint(1, 3))
        if node.hashable:
            break
    node = gen.DictLike('Dict', node, rng.choice([gen.INT, gen.STR, node]))
    x = rng.random()
    if x < .2:
        return gen.ListLike('List', node)
    if x < .4:
        return gen.DictLike('Dict', SNAKE_KEY if builtin else gen.STR, node)
    if x < .6:
        fields = [gen.Field(rng.choice(SNAKE[:12]), node)]
        return gen.ClassNode(ctx, rng, fields, rng.choice(
            ['plain', 'dataclass', 'NamedTuple']))
    return node


def privates(ctx, rng):
    """Names with underscores around them are no exception."""
    jsons = util.jsons_()
    ctx.ev('privates')
    label, to, fro = rng.choice(PAIRS)
    words = rng.sample(SNAKE, rng.randint(1, 4))
    fields = [gen.Field(rng.choice(['_%s', '_%s', '%s_', '_%s_', '%s']) % w,
                        rng.choice([gen.INT, gen.STR, gen.BOOL]))
              for w in words]
    node = gen.ClassNode(ctx, rng, fields, rng.choice(
        ['plain', 'dataclass', 'frozen', 'slots', 'plain_inherit',
         'dcslots']))
    value = node.value(rng)
    where = lambda: '%s; %s' % (label, util.describe(node, value))
    strict = {'strict': True} if rng.random() < .4 else {}
    if rng.random() < .3:
        strict['strip_privates'] = True
    kept = [f.name for f in fields
            if not (f.name[0] == '_' and 'strip_privates' in strict)]
    dumped = jsons.dump(value, key_transformer=to, **strict)
    found = gen.json_diff({to(name): getattr(value, name) for name in kept},
                          dumped)
    ctx.check(found is None, 'dump', lambda: '%s; %s' % (found, where()))
    if len(kept) == len(fields):
        loaded = jsons.load(dumped, node.cls, key_transformer=fro,
                            strict=rng.random() < .5)
        found = gen.diff(value, loaded)
        ctx.check(found is None, 'load', lambda: '%s; %s' % (found, where()))


PAIRS = [
    ('prefix', lambda s: 'k_' + s, lambda s: s[2:]),
    ('suffix', lambda s: s + '!', lambda s: s[:-1]),
    ('reversed', lambda s: s[::-1], lambda s: s[::-1]),
    ('hex', lambda s: s.encode('utf-8', 'surrogatepass').hex(),
     lambda s: bytes.fromhex(s).decode('utf-8', 'surrogatepass')),
    ('shift', lambda s: ''.join(chr((ord(c) + 1) % 0x110000) for c in s),
     lambda s: ''.join(chr((ord(c) - 1) % 0x110000) for c in s)),
]


def permuted(seed):
    """Names for names: these may be those of other attributes, too."""
    rng = random.Random(seed)
    words = sorted(set(gen.WORDS) | set(gen.ODD_NAMES) | set(SNAKE))
    others = rng.sample(words, len(words))
    to = dict(zip(words, others))
    fro = dict(zip(others, words))
    return ('permuted%d' % seed, lambda s: to.get(s, s),
            lambda s: fro.get(s, s))


PAIRS += [permuted(seed) for seed in range(12)]


@contextlib.contextmanager
def snake_only():
    """Only names and keys that the built-in transformers can invert."""
    keep = gen.WORDS, gen.ODD_NAMES, gen.KEY_NODES
    gen.WORDS = gen.ODD_NAMES = SNAKE
    gen.KEY_NODES = [SNAKE_KEY, SNAKE_KEY, gen.INT]
    try:
        yield
    finally:
        gen.WORDS, gen.ODD_NAMES, gen.KEY_NODES = keep


def transformed(ctx, node, value, to):
    """The reference dump with the keys that are to be transformed."""
    sub = lambda n, v: transformed(ctx, n, v, to)
    if isinstance(node, gen.ListLike):
        res = [sub(node.item, v) for v in value]
        return gen.Unordered(res) if node.is_set else res
    if isinstance(node, gen.TupleOf):
        return [sub(n, v) for n, v in zip(node.items, value)]
    if isinstance(node, gen.TupleEllipsis):
        return [sub(node.item, v) for v in value]
    if isinstance(node, gen.OptionalOf):
        return None if value is None else sub(node.item, value)
    if isinstance(node, gen.DictLike):
        pairs = []
        for k, v in value.items():
            key = sub(node.key, k) if isinstance(
                node.key, gen.ClassNode) else gen.dump_key(node.key, k)
            if isinstance(key, gen.StampKey):
                key = ToStamp(key.value, to)
            elif isinstance(key, str):
                key = to(key)
                ctx.ev('keys_transformed')
            pairs.append((key, sub(node.val, v)))
        if any(isinstance(k, (list, dict, gen.Unordered)) for k, _ in pairs):
            return gen.HashedDict(pairs)
        return dict(pairs)
    if isinstance(node, gen.ClassNode):
        res = {}
        for f in node.fields:
            v = getattr(value, node.attr(f))
            ctx.ev('keys_transformed')
            if f.node is gen.SELF:
                res[to(f.name)] = None if v is None else sub(node, v)
            elif f.node is gen.SELF_LIST:
                res[to(f.name)] = [sub(node, e) for e in v]
            else:
                res[to(f.name)] = sub(f.node, v)
        return res
    return node.dump(value)


class ToStamp(gen.StampKey):
    """The transformed form of some notation of a datetime."""

    def __init__(self, value, to):
        gen.StampKey.__init__(self, value)
        fro = [f for _, t, f in PAIRS if t is to]
        self.fro = fro[0] if fro else gen.same

    def __eq__(self, other):
        try:
            return gen.StampKey.__eq__(self, self.fro(other))
        except (ValueError, TypeError):
            return False

    __hash__ = object.__hash__


def names(ctx, rng):
    jsons = util.jsons_()
    forms = {
        'snake': (jsons.KEY_TRANSFORMER_SNAKECASE, '_'.join),
        'lisp': (jsons.KEY_TRANSFORMER_LISPCASE, '-'.join),
        'camel': (jsons.KEY_TRANSFORMER_CAMELCASE, lambda ws: ws[0] + ''.join(
            w[0].upper() + w[1:] for w in ws[1:])),
        'pascal': (jsons.KEY_TRANSFORMER_PASCALCASE, lambda ws: ''.join(
            w[0].upper() + w[1:] for w in ws))}
    for _ in range(5):
        ctx.ev('names')
        words = [''.join(rng.choice('abcdefghijklmnopqrstuvwxyz')
                         for _ in range(rng.randint(2, 7)))
                 for _ in range(rng.randint(1, 5))]
        for source, (_, write) in forms.items():
            for target, (func, to) in forms.items():
                text = write(words)
                got = func(text)
                ctx.check(got == to(words), 'case', lambda: '%s of %r: %r '
                          'instead of %r' % (target, text, got, to(words)))
    for _ in range(5):
        text = rng.choice([gen.rand_text(rng), rng.choice(gen.WORDS),
                           rng.choice(gen.ODD_NAMES), rng.choice(gen.STRS),
                           gen.rand_str(rng, 8).replace(' ', '_')])
        if not text.isascii():
            continue
        for target, (func, _) in forms.items():
            once = func(text)
            ctx.check(type(once) is str and func(once) == once, 'idempotent',
                      lambda: '%s of %r: %r, %r' % (target, text, once,
                                                    func(once)))
            bad = {'snake': '[A-Z-]', 'lisp': '[A-Z_]', 'camel': '[_-]|^[A-Z]',
                   'pascal': '[_-]|^[a-z]'}[target]
            ctx.check(not re.search(bad, once), 'case-characters',
                      lambda: '%s of %r: %r' % (target, text, once))
            letters = lambda s: s.replace('_', '').replace('-', '').lower()
            ctx.check(letters(once) == letters(text), 'case-lost',
                      lambda: '%s of %r: %r' % (target, text, once))
