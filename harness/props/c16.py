"""Enums are dumped and loaded by name or by value, unambiguously."""
import datetime as dt
import decimal
import enum

from harness import gen, util

PID = 'C16'
RULE = ('A case is a generated enum class (plain, int- or str-mixin, IntEnum, '
        'Flag, with aliases, names that are also values, methods, _missing_) '
        'that is dumped and loaded by name, by value and by either at a random '
        'place. Members are to be identical, representations those of the '
        'enum; other structures are to be refused. Distinct are the triples '
        'of enum source, representation and mode.')
QUICK_N = 8000
THOROUGH_N = 1500000
NEED = {'members': 3000, 'aliases': 300, 'by_value': 1000, 'rich': 60, 'refused': 1500,
        'nested': 1500, 'flags': 200, 'nested_loads': 1200, 'texts': 100, 'combinations': 80, 'named_combinations': 150, 'name_is_value': 10, 'defaults': 200}
ASSUMPTIONS = ['Combinations of flags that are no members have no name of '
               'their own; they are dumped by value, always.',
               'Where a value of one member is the name of another, the name '
               'is taken unless told otherwise.']
STYLES = ['Enum', 'Enum', 'IntEnum', 'str', 'int', 'Flag', 'IntFlag', 'float',
          'StrEnum']
# Values of members that are no scalars of JSON: in Python and in JSON.
RICH = [
    ('[1, 2]', [1, 2]), ('{"x": [1]}', {'x': [1]}), ('(1, 2)', [1, 2]),
    ('(1, ("a", None))', [1, ['a', None]]), ('[]', []),
    ('dt_.date(2020, 1, 2)', '2020-01-02'), ('dt_.timedelta(1)', 86400.0),
    ('dt_.datetime(2020, 1, 2, tzinfo=dt_.timezone.utc)',
     '2020-01-02T00:00:00Z'),
    ('decimal.Decimal("1.50")', '1.50'), ('2+1j', {'real': 2.0, 'imag': 1.0}),
    ('frozenset(["x"])', ['x']), ('b"ab"', [97, 98])]
RICH = [(e, eval(e, {'dt_': dt, 'decimal': decimal}), j) for e, j in RICH]
_counter = [0]


class Made:
    """A generated enum class."""
    several = None

    def __init__(self, ctx, rng):
        _counter[0] += 1
        self.style = style = rng.choice(STYLES)
        name = rng.choice(['E', 'Color', 'str', 'Name', 'Enum_', 'json']) \
            + str(_counter[0])
        names = rng.sample(['A', 'B', 'a', 'RED', 'red', 'None_', 'X1', '_q',
                            'value_', 'é', 'loads', 'KEY', 'mro_', 'json'],
                           rng.randint(1, 6))
        # Made by a call, the names may be any text, also that of a value.
        texts = style in ('Enum', 'IntEnum', 'str') and rng.random() < .12
        if texts:
            ctx.ev('texts')
            names = rng.sample(['1', '2', '-1', '0', 'None', 'True', '2.5',
                                'x y', 'null', '[]', '3', 'A', 'a-b'],
                               rng.randint(1, 6))
        lines = ['import enum, datetime as dt_, decimal', '%sclass %s(%s):' % (
            '@enum.unique\n' if False else '', name, {
                'Enum': 'enum.Enum', 'IntEnum': 'enum.IntEnum',
                'str': 'str, enum.Enum', 'int': 'int, enum.Enum',
                'Flag': 'enum.Flag', 'IntFlag': 'enum.IntFlag',
                'float': 'float, enum.Enum', 'StrEnum': 'enum.StrEnum'}[style])]
        values = []
        for i, n in enumerate(names):
            if values and rng.random() < .2:
                value = rng.choice(values)
                ctx.ev('aliases')
            else:
                value = self.rand_value(rng, names, i)
            if value in values:
                value = values[values.index(value)]
            values.append(value)
            expr = [e for e, v, _ in RICH if v is value]
            lines.append('    %s = %s' % (n, expr[0] if expr else repr(value)))
        if style in ('Flag', 'IntFlag') and len(set(values)) > 2 \
                and rng.random() < .5:
            # A name for several flags together.
            some = rng.sample(sorted(set(values)),
                              rng.randint(2, len(set(values))))
            lines.append('    SEVERAL = %d' % sum(some))
            self.several = sum(some)
            ctx.ev('named_combinations')
        x = rng.random()
        if texts:
            x = 1
            lines[1:] = ['%s = enum.%s(%r, [%s]%s)' % (
                name, 'IntEnum' if style == 'IntEnum' else 'Enum', name,
                ', '.join('(%r, %s)' % (n, line.split(' = ', 1)[1])
                          for n, line in zip(names, lines[2:])),
                ', type=str' if style == 'str' else '')]
        if x < .15:
            lines += ['    def method(self): return 1',
                      '    @property', '    def prop(self): return 2']
        elif x < .25:
            lines += ['    def __str__(self): return "str"']
        elif x < .35:
            lines += ['    def __repr__(self): return "repr"']
        self.missing = style == 'Enum' and not texts and rng.random() < .15
        if self.missing:
            lines += ['    @classmethod',
                      '    def _missing_(cls, value):',
                      '        return list(cls)[0] if value == "other" '
                      'else None']
        self.source = '\n'.join(lines)
        ns = gen.gen_module().__dict__
        exec(self.source, ns)
        self.cls = ns[name]
        ctx.cleanups.append(lambda: ns.pop(name, None))
        self.members = [self.cls[n] for n in names]

    def rand_value(self, rng, names, i):
        style = self.style
        if style in ('Flag', 'IntFlag'):
            return 1 << i
        if style in ('IntEnum', 'int'):
            return rng.choice([0, 1, 2, -1, 10, 2 ** 40, rng.randint(-9, 9)])
        if style == 'float':
            return rng.choice([0.5, 1.5, -2.0, 1e300, float(i)])
        texts = ['', 'x', 'a b', 'A', 'red', '1', 'ü', 'None', 'null',
                 '2020-01-01T00:00:00Z', rng.choice(names)]
        if style in ('str', 'StrEnum'):
            return rng.choice(texts)
        return rng.choice([rng.choice(texts), rng.randint(-3, 3), 2.5, None,
                           True, rng.choice(texts)]
                          + [rng.choice(RICH)[1]] * 3)

    def by_name(self, text):
        return self.cls.__members__.get(text) if type(text) is str else None

    def by_value(self, value):
        for m in self.cls:
            try:
                if m.value == value:
                    return m
            except Exception:
                pass
        for m in self.cls:
            if rich(m.value) and as_json(m.value) == value:
                return m
        if self.missing and value == 'other':
            return list(self.cls)[0]
        return None

    def want(self, text, mode):
        """The member that a JSON value stands for."""
        if mode is True:
            return self.by_name(text)
        if mode is False:
            return self.by_value(text)
        found = self.by_name(text)
        return self.by_value(text) if found is None else found


def case(ctx, rng, i):
    jsons = util.jsons_()
    made = Made(ctx, rng)
    E = made.cls
    where = lambda: made.source
    if made.style in ('Flag', 'IntFlag'):
        ctx.ev('flags')
        flags(ctx, rng, jsons, made)
    for _ in range(3):
        m = rng.choice(made.members)
        ctx.ev('members')
        options = rng.choice([{}, {}, {'use_enum_name': True},
                              {'use_enum_name': False}])
        by_name = options.get('use_enum_name', True)
        strict = {'strict': rng.random() < .5}
        want = m.name if by_name else as_json(m.value)
        if not by_name:
            ctx.ev('by_value')
            ctx.ev('rich', len(rich(m.value)))
        given = rng.choice([{}, {'cls': E}])
        got = jsons.dump(m, **options, **strict, **given)
        ctx.check(same(got, want) and (got is not m.value or rich(got) == []),
                  'dump', lambda: '%r dumps as %r with %s in '
                  '%s' % (m, got, options, where()))
        mode = rng.choice([None, None, by_name])
        if got is None:
            continue  # None is for optional values only.
        expect = made.want(got, mode)
        if expect is not m:
            ctx.ev('name_is_value')
        opts = {} if mode is None else {'use_enum_name': mode}
        back = jsons.load(util.through_text(rng, jsons, got), E, **opts,
                          **strict)
        ctx.distinct(made.source, got, mode)
        ctx.check(back is expect, 'load', lambda: '%r loads as %r with %s in '
                  '%s' % (got, back, opts, where()))
        # Every name, also of an alias, and every value.
        n = rng.choice(list(E.__members__))
        opts = rng.choice([{}, {'use_enum_name': True}])
        back = jsons.load(n, E, **opts, **strict)
        ctx.check(back is E[n], 'load-name', lambda: '%r loads as %r with %s '
                  'in %s' % (n, back, opts, where()))
    nested(ctx, rng, jsons, made)
    defaults(ctx, rng, jsons, made)
    for _ in range(3):
        refused(ctx, rng, jsons, made)
    ctx.sample(made.source)


def flags(ctx, rng, jsons, made):
    m = made.cls(0)
    for flag in rng.sample(made.members, rng.randint(1, len(made.members))):
        m |= flag
    if made.several and rng.random() < .5:
        m = made.cls(made.several)
    got = jsons.dump(m, use_enum_name=False)
    back = jsons.load(got, made.cls, use_enum_name=False)
    ctx.check(type(got) is int and got == m.value and back is m, 'flags',
              lambda: '%r dumps as %r, that loads as %r; %s'
                      % (m, got, back, made.source))
    # One that has a name, and be it as an alias, has it by default.
    want = m.name if m.name in made.cls.__members__ else m.value
    if want is m.value:
        ctx.ev('combinations')
    T = gen.typing
    for value, cls, rep in ((m, made.cls, want),
                            ([None, m], T.List[T.Optional[made.cls]],
                             [None, want]),
                            ({'x': m}, T.Dict[str, made.cls], {'x': want})):
        got = jsons.dump(value)
        typed = jsons.dump(value, cls)
        back = jsons.load(util.through_text(rng, jsons, got), cls)
        ctx.check(got == rep == typed and back == value
                  and repr(back) == repr(value), 'combination',
                  lambda: '%r dumps as %r and %r, that loads as %r; %s'
                          % (value, got, typed, back, made.source))


def nested(ctx, rng, jsons, made):
    ctx.ev('nested')
    members = made.members
    mode = rng.choice([None, True, False])
    options = {} if mode is None else {'use_enum_name': mode}
    if mode is False and any(m.value is None for m in members):
        return
    rep = lambda m: as_json(m.value) if mode is False else m.name
    node = gen.Scalar(made.cls, made.cls.__name__,
                      lambda rng: rng.choice(members), rep, True)
    scalars = [node] * 4 + [gen.STR, gen.INT, gen.DATE]
    outer = util.rand_node(ctx, rng, 2, .4, scalars=scalars, untyped=False)
    if mode is False and ('Color' in str(outer) or 'Pair' in str(outer)):
        return  # The keys of dicts may be of enums with values that are no str
    value = outer.value(rng)
    strict = {'strict': True} if rng.random() < .4 else {}
    got = jsons.dump(value, outer.ann, **options, **strict)
    found = gen.json_diff(outer.dump(value), got)
    ctx.check(found is None, 'nested-dump', lambda: '%s; %s of %s with %s; %s' % (
        found, got, util.describe(outer, value), options, made.source))
    # (Different values may have the same representation.)
    if all(made.want(rep(m), mode) is m for m in members):
        ctx.ev('nested_loads')
        back = jsons.load(util.through_text(rng, jsons, got), outer.ann,
                          **options, **strict)
        found = gen.diff(value, back)
        ctx.check(found is None, 'nested-load', lambda: '%s; %s from %s with '
                  '%s; %s' % (found, util.describe(outer, value), got, options,
                              made.source))
    # As keys of a dict: by name.
    if made.style == 'Enum':
        keys = set(rng.sample(members, rng.randint(1, len(members))))
        source = {m: n for n, m in enumerate(keys)}
        got = jsons.dump(source)
        back = jsons.load(util.through_text(rng, jsons, got),
                          gen.typing.Dict[made.cls, int])
        ctx.check(got == {m.name: n for m, n in source.items()}
                  and back == source, 'keys', lambda: '%s dumps as %s, that '
                  'loads as %s; %s' % (source, got, back, made.source))


def defaults(ctx, rng, jsons, made):
    """Members as defaults, optional and in unions."""
    ctx.ev('defaults')
    T = gen.typing
    m = rng.choice(made.members)
    back = jsons.load(m.name, T.Optional[made.cls])
    ctx.check(back is m, 'optional', lambda: '%r loads as %r; %s' % (
        m.name, back, made.source))
    ctx.check(jsons.load(None, T.Optional[made.cls]) is None, 'none', 'None')
    got = jsons.dump([m, None], T.List[T.Optional[made.cls]])
    ctx.check(got == [m.name, None], 'optional-dump', lambda: '%r; %s' % (
        got, made.source))
    got = jsons.dumps([m])
    ctx.check(jsons.loads(got, T.List[made.cls])[0] is m, 'text',
              lambda: '%s; %s' % (got, made.source))


def refused(ctx, rng, jsons, made):
    mode = rng.choice([None, True, False])
    source = rng.choice([
        lambda: rng.choice(list(made.cls.__members__)) + 'x',
        lambda: rng.choice(list(made.cls.__members__)).swapcase(),
        lambda: ' ' + rng.choice(list(made.cls.__members__)),
        lambda: as_json(rng.choice(made.members).value),
        lambda: rng.choice(list(made.cls.__members__)),
        lambda: '%s.%s' % (made.cls.__name__, made.members[0].name),
        lambda: str(rng.choice(made.members).value),
        lambda: rng.choice(['', 'mro', 'name', 'value', '__members__', 'other',
                            '__class__', 'method', 'prop', '0', 'x' * 99]),
        lambda: rng.choice([-7, 99, 0.25, True, False]),
        lambda: rng.choice([[], {}, ['A'], {'A': 1}, [[]]]),
    ])()
    if made.style in ('Flag', 'IntFlag') and isinstance(source, (int, float)):
        return
    if source is None:
        return
    want = made.want(source, mode)
    options = {} if mode is None else {'use_enum_name': mode}
    out = util.attempt(jsons.load, source, made.cls, **options)
    if want is None:
        ctx.ev('refused')
        ctx.check(isinstance(out.error, jsons.DeserializationError),
                  'not-refused', lambda: '%r with %s %r; %s'
                  % (source, options, out, made.source))
    else:
        ctx.check(out.ok and out.value is want, 'load-any', lambda: '%r with '
                  '%s %r; %s' % (source, options, out, made.source))


def rich(value):
    """What the value is in JSON, within a list, if it is no scalar."""
    return [j for _, v, j in RICH if type(v) is type(value) and v == value]


def as_json(value):
    return (rich(value) or [value])[0]


def same(a, b):
    if isinstance(b, enum.Enum):
        return False
    return type(a) is type(b) and a == b
