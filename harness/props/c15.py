"""Only untyped strings that are timestamps are interpreted."""
import datetime as dt
import json
import re

from harness import gen, util

PID = 'C15'
RULE = ('A case is a structure of strings (timestamps, mutations of them, '
        'others) that is loaded with a type that declares them str, and '
        'without a type. Declared strings are to be identical; of the others '
        'exactly the RFC3339 timestamps are to become datetimes, judged by an '
        'independent parser. Distinct are the pairs of type and text.')
QUICK_N = 12000
THOROUGH_N = 2500000
NEED = {'declared': 4000, 'undeclared': 1500, 'timestamps': 300,
        'non_timestamps': 1000, 'mutants': 1000, 'padded': 1000}
ASSUMPTIONS = ['Strings with all parts of a timestamp in another writing '
               '(such as 2020-1-1T1:2:3Z) may or may not be taken for one.']
# Anything that has the parts of a timestamp.
NEAR = re.compile(r'\d{1,4}-\s*\d{1,2}-\s*\d{1,2}[Tt]\s*\d{1,2}:\s*\d{1,2}:'
                  r'\s*\d{1,2}(\.\d+)?([Zz]|[+-].*:.*)', re.S)
Text = gen.UserName


def rand_string(ctx, rng):
    x = rng.random()
    if x < .25:
        return rng.choice(gen.STAMPS + gen.NEAR_STAMPS)
    if x < .4:
        return stamp(rng)
    if x < .75:
        ctx.ev('mutants')
        text = rng.choice([stamp(rng), rng.choice(gen.STAMPS)])
        for _ in range(rng.randint(1, 2)):
            at = rng.randrange(len(text) + 1)
            char = rng.choice('0123456789-+:.TZ tzé1９Wx\n')
            act = rng.random()
            if act < .5:
                text = text[:at] + char + text[at + 1:]
            elif act < .75:
                text = text[:at] + text[at + 1:]
            else:
                text = text[:at] + char + text[at:]
        return text
    if x < .8:
        ctx.ev('padded')
        pad = rng.choice([' ', '\n', '\t', '\x00', '\u00a0', '"', "'", '\ufeff'])
        text = rng.choice([stamp(rng), rng.choice(gen.STAMPS)])
        return rng.choice([pad + text, text + pad, pad + text + pad])
    return rng.choice([gen.rand_text(rng), gen.rand_str(rng, 30)])


def stamp(rng):
    when = gen.rand_datetime(rng, None)
    text = when.isoformat()
    return text + rng.choice(['Z', '+00:00', '-05:30', '+14:00', '-00:00',
                              '+24:00', '+05:60', '', '+0100', ' Z', 'z'])


def case(ctx, rng, i):
    if rng.random() < .5:
        declared(ctx, rng)
    else:
        undeclared(ctx, rng)


def declared(ctx, rng):
    jsons = util.jsons_()
    texts = []

    def text():
        res = rand_string(ctx, rng)
        texts.append(res)
        return res
    node = util.rand_node(ctx, rng, 3, .35,
                          scalars=[Str(text)] * 6 + [NewStr(text), OptStr(text),
                                                     UnionStr(text)],
                          untyped=False)
    value = node.value(rng)
    source = jsons.dump(value)
    if rng.random() < .5:
        source = util.through_text(rng, jsons, source)
    strict = {'strict': True} if rng.random() < .4 else {}
    ways = [lambda: jsons.load(source, node.ann, **strict),
            lambda: jsons.loads(json.dumps(source), node.ann, **strict),
            lambda: jsons.loadb(json.dumps(source).encode(), node.ann,
                                **strict)]
    loaded = rng.choice(ways)()
    ctx.ev('declared', len(texts))
    for t in texts:
        ctx.distinct(node.label, t)
    found = gen.diff(value, loaded, order=False)
    ctx.check(found is None, 'declared-str', lambda: '%s; %s %s from %r' % (
        found, strict, util.describe(node, value), source))


class Str(gen.Scalar):
    ANN = str

    def __init__(self, text):
        gen.Scalar.__init__(self, self.ANN, str(self.ANN),
                            lambda rng: text(), gen.same, True, textkey=True)


class NewStr(Str):
    ANN = gen.UserName


class OptStr(Str):
    ANN = gen.typing.Optional[str]


class UnionStr(Str):
    ANN = gen.typing.Union[str, int, dt.datetime]


class Loose:
    def __init__(self, item, other=None):
        self.item, self.other = item, other


class Typed:
    def __init__(self, item: object, other: object = None):
        self.item, self.other = item, other


def undeclared(ctx, rng):
    jsons = util.jsons_()
    source = structure(ctx, rng, 2)
    want = source
    x = rng.random()
    T = gen.typing
    place = 'nothing'
    options = {'strict': True} if rng.random() < .4 else {}
    if x < .3:
        loaded = jsons.load(source, **options)
    elif x < .4:
        place = 'list'
        loaded = jsons.load([source, source], T.List[object], **options)
        want = [source, source]
    elif x < .5:
        place = 'dict'
        loaded = jsons.load({'k': source}, T.Dict[str, object], **options)
        want = {'k': source}
    elif x < .6:
        place = 'tuple'
        loaded = jsons.load([source, 'x'], T.Tuple[object, str], **options)
        want = [source, 'x']
        loaded = list(loaded)
    else:
        cls = rng.choice([Loose, Typed])
        place = cls.__name__
        obj = {'item': source}
        loaded = jsons.load(obj, cls, **options).item
    judge(ctx, loaded, want, '%s %s' % (place, options))


def structure(ctx, rng, depth):
    x = rng.random()
    if depth == 0 or x < .5:
        return rng.choice([lambda: rand_string(ctx, rng)] * 4 + [
            lambda: rng.choice(gen.INTS), lambda: rng.choice(gen.FLOATS),
            lambda: rng.random() < .5, lambda: None])()
    if x < .75:
        return [structure(ctx, rng, depth - 1)
                for _ in range(rng.randint(0, 4))]
    return {rng.choice(gen.WORDS): structure(ctx, rng, depth - 1)
            for _ in range(rng.randint(0, 4))}


def judge(ctx, got, source, where):
    if isinstance(source, str):
        ctx.ev('undeclared')
        want = gen.parse_rfc3339(source)
        if want is not None:
            ctx.ev('timestamps')
            ctx.check(type(got) is dt.datetime and got.tzinfo is not None
                      and gen.instant(got) == gen.instant(want)
                      and got.utcoffset() == want.utcoffset(), 'timestamp',
                      lambda: '%r loads as %r in %s' % (source, got, where))
        elif not NEAR.fullmatch(source):
            ctx.ev('non_timestamps')
            ctx.check(type(got) is str and got == source, 'string',
                      lambda: '%r loads as %r in %s' % (source, got, where))
        ctx.distinct(where, source)
        return
    ctx.check(type(got) is type(source), 'type',
              lambda: '%r loads as %r in %s' % (source, got, where))
    if isinstance(source, (list, dict)):
        ctx.check(len(got) == len(source), 'length',
                  lambda: '%r loads as %r in %s' % (source, got, where))
        if isinstance(source, dict):
            ctx.check(list(got) == list(source), 'keys',
                      lambda: '%r loads as %r in %s' % (source, got, where))
        for key in (source if isinstance(source, dict)
                    else range(len(source))):
            judge(ctx, got[key], source[key], where)
        return
    found = gen.diff(source, got)
    ctx.check(found is None, 'value', lambda: '%s in %s' % (found, where))
