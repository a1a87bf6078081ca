"""
Seeded generators of types and of values of these types, and the reference
model of what jsons should make of them (written from the documentation, it
shares no code with jsons).

A Node stands for a type:
    ann            the annotation that is given to jsons
    value(rng)     a random value of the type
    dump(value)    the reference dump of such a value (JSON structure)
    hashable       whether the values can be elements of a set / keys of a dict
    label          a short description
"""
import collections
import datetime as dt
import enum
import math
import pathlib
import re
import string
import types
import typing
import uuid
from decimal import Decimal
from zoneinfo import ZoneInfo, available_timezones

UTC = dt.timezone.utc

# ---------------------------------------------------------------------------
# Scalars
# ---------------------------------------------------------------------------
INTS = [0, 1, -1, 2, 7, 10, -128, 255, 1000, 2 ** 31 - 1, 2 ** 31, -2 ** 31,
        2 ** 53, 2 ** 53 + 1, -2 ** 53 - 1, 2 ** 63, 2 ** 64, 10 ** 30,
        -10 ** 40]
FLOATS = [0.0, -0.0, 1.0, -1.5, 0.1, 1 / 3, 1e-7, 1e16, 1e22, 1e308, -1e308,
          5e-324, 2.5, 123456.789, float(2 ** 53)]
ODD_FLOATS = [float('inf'), float('-inf'), float('nan')]
STRS = ['', ' ', 'a', 'A', 'abc', 'x y', ' lead', 'trail ', 'tab\t', 'nl\n',
        '0', '5', '-5', '1.5', 'true', 'True', 'false', 'null', 'None', 'nan',
        '\x00', '\\', '"', "'", '/', 'é', 'ß', 'İ', '日本語', '😀', '\u2028',
        '{}', '[]', '{"a": 1}', '2020-02-30', 'Z', 'T', '-', '_', '__x__',
        'meta', '%Y', 'café', 'a' * 300,
        'b ' * 600, '1e5', '0x10', '１２',
        '-cls', '-class', 'classes', 'dump_time', '{}[]']
# Strings that could be mistaken for a date or time.
STAMPS = ['2020-02-29T12:34:56Z', '2020-02-29T12:34:56+00:00',
          '1999-12-31T23:59:59.999999Z', '2018-07-08T21:34:00+02:00',
          '0001-01-01T00:00:00Z', '2021-01-01T00:00:00.5-05:30']
NEAR_STAMPS = ['2020-02-30T12:34:56Z', '2020-13-01T00:00:00Z',
               '2020-02-29 12:34:56Z', '2020-02-29T12:34:56', '2020-02-29',
               '12:34:56', '2020-02-29T25:00:00Z', 'T12:34:56Z',
               '2020-02-29T12:34:56+0000', '2020-02-29T12:34Z']

WORDS = ['name', 'age', 'value', 'id_', 'first_name', 'x', 'y1', 'some_value',
         'url', 'data', 'item', 'list_of_things', 'is_ok', 'key', 'obj',
         'count', 'a_b_c', 'type_', 'parent', 'label', 'size', 'camelCase',
         'n2_x', 'html_page', 'cls_', 'total_sum', 'm']
CLASS_PREFIXES = ['C'] * 8 + [
    'TradeUnion', 'OptionalPart', 'ListOfX', 'Dict', 'DictX', 'TupleX', 'int',
    'StrX', 'NoneType', 'DateTimeX', '_Hidden', 'Enum', 'anyX', 'Iterable',
    'object', 'NewType', 'é']
# Names that something in a serialization library could trip over.
ODD_NAMES = ['json', 'load', 'dump', 'loads', 'dumps', 'fork', 'from_json',
             'args', 'kwargs', 'obj', 'cls', 'strict', 'fork_inst', 'tasks',
             'verbose', 'meta_hints', 'attr_getters', 'key_transformer',
             'strip_nulls', 'types', 'sig', 'sig_key', 'orig_cls', 'real',
             'imag', 'keys', 'items', 'meta', 'classes', 'hash', 'type',
             'message', 'warn', 'initial', 'dump_time', 'set_serializer',
             'with_dump', 'é', 'instance', 'remaining_attrs', 'user__id',
             'x__', 'a__b__c', 'x_', 'X', 'b64', 'HTTPCode']

FIXED_TZS = [UTC, dt.timezone(dt.timedelta(hours=2)),
             dt.timezone(dt.timedelta(hours=-5)),
             dt.timezone(dt.timedelta(hours=5, minutes=30)),
             dt.timezone(dt.timedelta(hours=-3, minutes=-30)),
             dt.timezone(dt.timedelta(hours=-9, minutes=-45)),
             dt.timezone(dt.timedelta(minutes=-15)),
             dt.timezone(dt.timedelta(minutes=45)),
             dt.timezone(dt.timedelta(hours=14)),
             dt.timezone(dt.timedelta(hours=-12)),
             dt.timezone(dt.timedelta(hours=23, minutes=59)),
             dt.timezone(dt.timedelta(hours=-23, minutes=-59)),
             dt.timezone(dt.timedelta(0), 'GMT'),
             dt.timezone(dt.timedelta(hours=1), 'CET')]
ALL_ZONES = sorted(available_timezones())
ZONES = ['UTC', 'Europe/Amsterdam', 'America/New_York', 'Asia/Kolkata',
         'Australia/Lord_Howe', 'Pacific/Apia', 'Asia/Kathmandu',
         'America/St_Johns', 'Europe/London']


def rand_str(rng, maxlen=12):
    alphabet = rng.choice([string.ascii_lowercase, string.printable,
                           'aéЖ中😀 _-"\\/\'\n', string.digits + '-:.TZ+'])
    return ''.join(rng.choice(alphabet) for _ in range(rng.randint(0, maxlen)))


def looks_like_timestamp(text):
    """
    Whether a string may reasonably be taken for an RFC3339 timestamp: decided
    generously, to keep ambiguous strings out of untyped values.
    """
    return (len(text) >= 8 and 'T' in text and text.count('-') >= 2
            and text[0].isdigit())


def rand_datetime(rng, tz='random', years=(1, 9999)):
    lo, hi = years
    year = rng.choice([rng.randint(lo, hi), rng.randint(1970, 2037),
                       rng.choice([lo, min(hi, lo + 1), hi, 1970, 2000, 2024])])
    year = max(lo, min(hi, year))
    month = rng.choice([1, 2, 12, rng.randint(1, 12)])
    day = rng.choice([1, 28, rng.randint(1, 28)])
    if month == 2 and year % 4 == 0 and (year % 100 or year % 400 == 0) \
            and rng.random() < .3:
        day = 29
    if month == 12 and rng.random() < .3:
        day = 31
    micro = rng.choice([0, 0, 1, 10, 500000, 999999, 100000, 123456,
                        rng.randint(0, 999999)])
    res = dt.datetime(year, month, day, rng.choice([0, 23, rng.randint(0, 23)]),
                      rng.choice([0, 59, rng.randint(0, 59)]),
                      rng.choice([0, 59, rng.randint(0, 59)]), micro)
    if tz == 'random':
        tz = rand_tz(rng, year)
    return res.replace(tzinfo=tz)


def rand_tz(rng, year=2000):
    kind = rng.random()
    if kind < .3:
        return UTC
    if kind < .75 or not 1975 <= year <= 2037:
        return rng.choice(FIXED_TZS + [
            dt.timezone(dt.timedelta(minutes=rng.randint(-1439, 1439)))])
    return ZoneInfo(rng.choice(ZONES))


def rand_decimal(rng):
    return Decimal(rng.choice([
        '0', '-0', '1', '-1', '0.10', '1.000', '1E+400', '1E-400', '-1.5E-7',
        '123456789.123456789123456789', 'Infinity', '-Infinity', '3.14',
        str(rng.randint(-10 ** 6, 10 ** 6)), str(rng.uniform(-9, 9)),
        '%d.%d' % (rng.getrandbits(100), rng.getrandbits(60)),
        '%dE%d' % (rng.getrandbits(120), rng.randint(-500, 500))]))


class Color(enum.Enum):
    RED = 1
    GREEN = 2
    BLUE = 'blue'
    CRIMSON = 1  # alias


class Level(enum.IntEnum):
    LOW = 1
    MID = 5
    HIGH = 10


class Word(str, enum.Enum):
    YES = 'y'
    NO = 'n'


class Pair(enum.Enum):
    ORIGIN = (0, 0)
    UNIT = (1, 1)
    NONE = None
    NEG = -1.5


ENUMS = [Color, Level, Word, Pair]

UserId = typing.NewType('UserId', int)
UserName = typing.NewType('UserName', str)
UserNo = typing.NewType('UserNo', UserId)


class Node:
    hashable = True
    json_native = False  # the value is its own dump
    max_len = 1000

    def __init__(self, ann, label):
        self.ann = ann
        self.label = label

    def __repr__(self):
        return self.label

    def value(self, rng):
        raise NotImplementedError

    def dump(self, value):
        raise NotImplementedError


class Scalar(Node):
    def __init__(self, ann, label, gen, dump, native=False, key=None,
                 textkey=False):
        Node.__init__(self, ann, label)
        self.value = gen
        self.dump = dump
        self.json_native = native
        self.textkey = textkey  # usable as dict key that survives JSON text


def same(value):
    return value


def rand_int(rng):
    return rng.choice([rng.choice(INTS), rng.randint(-10 ** 6, 10 ** 6)])


def rand_float(rng):
    if rng.random() < .06:
        return rng.choice(ODD_FLOATS)
    return rng.choice([rng.choice(FLOATS), rng.uniform(-1e6, 1e6)])


def rand_text(rng):
    return rng.choice([rng.choice(STRS), rng.choice(STRS), rand_str(rng),
                       rng.choice(STAMPS + NEAR_STAMPS)])


def plain_text(rng):
    """A string that cannot be taken for a timestamp."""
    while True:
        text = rng.choice([rng.choice(STRS), rand_str(rng)])
        if not looks_like_timestamp(text):
            return text


def rand_timedelta(rng):
    return dt.timedelta(
        days=rng.choice([0, 0, 1, -1, rng.randint(-20000, 20000)]),
        seconds=rng.choice([0, 1, rng.randint(0, 86399)]),
        microseconds=rng.choice([0, 0, 1, 999999, rng.randint(0, 999999)]))


def rand_time(rng):
    return rand_datetime(rng, None).time()


def rand_timezone(rng):
    return rng.choice(FIXED_TZS + [
        dt.timezone(dt.timedelta(minutes=rng.randint(-1439, 1439)),
                    rng.choice(['X', 'UTC', 'Some Zone', '']))])


def dump_timezone(value):
    return {'name': value.tzname(None),
            'offset': value.utcoffset(None).total_seconds()}


def rand_path(rng):
    if rng.random() < .5:
        parts = [rng.choice(['.', '..', '', 'a', '.x', '..x', 'x.', 'A', '~',
                             'b.c.', '...', ' ', ' y', '-', 'C:', '%20', '#',
                             '*', rand_text(rng).replace('\x00', '')])
                 for _ in range(rng.randint(1, 4) if rng.random() < .95
                                else rng.randint(5, 40))]
        return pathlib.PurePosixPath(rng.choice(['', '', '/', '//', '///'])
                                     + '/'.join(parts))
    return pathlib.PurePosixPath(rng.choice(
        ['.', '/', 'a', 'a/b', '/a/b.txt', '../x', 'a b/c', 'é/日', 'a\\b',
         'x' * 40, '/' + rand_str(rng).replace('\x00', '')]))


def dump_datetime(value):
    """
    The reference dump of an aware datetime. The offset +00:00 has several
    RFC3339 notations, these compare equal by `Stamp`.
    """
    return Stamp(value)


class Stamp:
    """Equal to any RFC3339 notation of the given instant at its offset."""

    def __init__(self, value):
        self.value = value

    def __eq__(self, other):
        if not isinstance(other, str):
            return NotImplemented
        got = parse_rfc3339(other)
        return (got is not None and instant(got) == instant(self.value)
                and got.utcoffset() == self.value.utcoffset())

    def __ne__(self, other):
        res = self.__eq__(other)
        return res if res is NotImplemented else not res

    __hash__ = None

    def __repr__(self):
        return '<RFC3339 of %r>' % (self.value,)


def instant(value):
    """
    The moment of a datetime as an offset to 0001-01-01T00:00Z. (Comparing
    datetimes does not do: those at the change to or from summer time are
    unequal to anything, and those at the ends of the calendar overflow.)
    """
    naive = value.replace(tzinfo=None, fold=0) - dt.datetime.min
    return naive - (value.utcoffset() or dt.timedelta(0))


def parse_rfc3339(text):
    """An independent and strict RFC3339 parser (upper case letters only)."""
    import re
    m = re.fullmatch(r'(\d{4})-(\d\d)-(\d\d)T(\d\d):(\d\d):(\d\d)(\.\d+)?'
                     r'(Z|[+-]\d\d:\d\d)', text, re.ASCII)
    if not m:
        return None
    y, mo, d, h, mi, s = (int(x) for x in m.group(1, 2, 3, 4, 5, 6))
    frac = m.group(7) or '.0'
    micro = int((frac[1:] + '000000')[:6])
    if m.group(8) == 'Z':
        tz = UTC
    else:
        sign = -1 if m.group(8)[0] == '-' else 1
        off = dt.timedelta(hours=int(m.group(8)[1:3]),
                           minutes=int(m.group(8)[4:6]))
        if off >= dt.timedelta(days=1):
            return None
        tz = dt.timezone(sign * off)
    try:
        return dt.datetime(y, mo, d, h, mi, s, micro, tz)
    except ValueError:
        return None


INT = Scalar(int, 'int', rand_int, same, True, textkey=True)
FLOAT = Scalar(float, 'float', rand_float, same, True)
BOOL = Scalar(bool, 'bool', lambda rng: rng.random() < .5, same, True)
STR = Scalar(str, 'str', rand_text, same, True, textkey=True)
NONE = Scalar(type(None), 'None', lambda rng: None, same, True)
COMPLEX = Scalar(complex, 'complex',
                 lambda rng: complex(rng.choice(FLOATS), rng.choice(FLOATS)),
                 lambda v: {'real': v.real, 'imag': v.imag})
DATETIME = Scalar(dt.datetime, 'datetime', rand_datetime, dump_datetime,
                  textkey=True)
DATE = Scalar(dt.date, 'date', lambda rng: rand_datetime(rng, None).date(),
              lambda v: v.isoformat(), textkey=True)
TIME = Scalar(dt.time, 'time', rand_time, lambda v: v.isoformat(),
              textkey=True)
TIMEDELTA = Scalar(dt.timedelta, 'timedelta', rand_timedelta,
                   lambda v: v.total_seconds())
TIMEZONE = Scalar(dt.timezone, 'timezone', rand_timezone, dump_timezone)
ZONEINFO = Scalar(ZoneInfo, 'ZoneInfo',
                  lambda rng: ZoneInfo(rng.choice(
                      ZONES if rng.random() < .6 else ALL_ZONES)),
                  lambda v: {'key': v.key})
DECIMAL = Scalar(Decimal, 'Decimal', rand_decimal, str)
UUID_ = Scalar(uuid.UUID, 'UUID',
               lambda rng: uuid.UUID(int=rng.choice(
                   [0, 1, 2 ** 128 - 1, rng.getrandbits(128)])), str,
               textkey=True)
PATH = Scalar(pathlib.PurePosixPath, 'PurePosixPath', rand_path,
              lambda v: v.as_posix())
NT_INT = Scalar(UserId, 'NewType(int)', rand_int, same, True)
NT_STR = Scalar(UserName, 'NewType(str)', rand_text, same, True)
NT_NO = Scalar(UserNo, 'NewType(NewType(int))', rand_int, same, True)


def enum_node(cls):
    return Scalar(cls, cls.__name__, lambda rng: rng.choice(list(cls)),
                  lambda v: v.name, textkey=cls in (Color, Pair))


ENUM_NODES = [enum_node(cls) for cls in ENUMS]
PRIMITIVES = [INT, FLOAT, BOOL, STR]
STD = [COMPLEX, DATETIME, DATE, TIME, TIMEDELTA, TIMEZONE, ZONEINFO, DECIMAL,
       UUID_, PATH]


class Items(list):
    pass


class Pack(tuple):
    pass


class Bag(set):
    pass


class Ring(collections.deque):
    pass


class Lookup(dict):
    pass


def rand_natives(rng):
    return [rng.choice([rng.choice(INTS), plain_text(rng), None, True, 1.5])
            for _ in range(rng.choice([0, 1, 1, 2, 3, 9]))]


def rand_bytes(rng):
    return rng.choice([b'', b'\0', b'\xff\xfe', b'2020-01-01T00:00:00Z',
                       bytes(rng.getrandbits(8)
                             for _ in range(rng.randint(1, 20)))])


# Subclasses of the containers and the like (of JSON types).
SUBCLASSES = [
    Scalar(Items, 'Items', lambda rng: Items(rand_natives(rng)), list),
    Scalar(Pack, 'Pack', lambda rng: Pack(rand_natives(rng)), list),
    Scalar(Bag, 'Bag', lambda rng: Bag(rand_natives(rng)),
           lambda v: Unordered(list(v))),
    Scalar(Ring, 'Ring', lambda rng: Ring(rand_natives(rng)), list),
    Scalar(Lookup, 'Lookup', lambda rng: Lookup(
        ('k%d' % i, v) for i, v in enumerate(rand_natives(rng))), dict),
    Scalar(bytes, 'bytes', lambda rng: rand_bytes(rng), list),
    Scalar(bytearray, 'bytearray', lambda rng: bytearray(rand_bytes(rng)),
           list)] + [
    Scalar(cls, '<%s>' % cls.__name__,
           lambda rng, cls=cls: cls(rand_path(rng)), lambda v: v.as_posix())
    for cls in (pathlib.PurePath, pathlib.Path, pathlib.PosixPath)] + [
    Scalar(pathlib.PureWindowsPath, 'PureWindowsPath', lambda rng:
           pathlib.PureWindowsPath(rng.choice(['', 'C:', 'C:\\', '\\']),
                                   rand_path(rng)), lambda v: v.as_posix())]
for _node in SUBCLASSES:
    _node.hashable = False
SCALARS = PRIMITIVES + [NONE] + STD + ENUM_NODES + [NT_INT, NT_STR, NT_NO]


# ---------------------------------------------------------------------------
# Containers
# ---------------------------------------------------------------------------
def rand_len(rng, node=None):
    x = rng.random()
    if isinstance(node, Scalar) and x < .01:
        return rng.choice([130, 260, 520, 1030])
    if x < .15:
        return 0
    if x < .4:
        return 1
    if x < .96:
        return rng.randint(2, 4)
    return rng.choice([8, 17, 33, 65])


class ListLike(Node):
    """List, Sequence, MutableSequence, Iterable, Deque, Set, FrozenSet."""
    KINDS = {
        'List': (typing.List, list), 'list': (list, list),
        'Sequence': (typing.Sequence, list),
        'MutableSequence': (typing.MutableSequence, list),
        'Iterable': (typing.Iterable, list),
        'Collection': (typing.Collection, list),
        'Deque': (typing.Deque, collections.deque),
        'Set': (typing.Set, set), 'set': (set, set),
        'FrozenSet': (typing.FrozenSet, frozenset),
        'AbstractSet': (typing.AbstractSet, set),
        'MutableSet': (typing.MutableSet, set),
    }

    def __init__(self, kind, item):
        ann, self.make = self.KINDS[kind]
        Node.__init__(self, ann[item.ann], '%s[%s]' % (kind, item))
        self.kind = kind
        self.item = item
        self.is_set = self.make in (set, frozenset)
        self.hashable = self.make is frozenset

    def value(self, rng):
        return self.make(self.item.value(rng)
                         for _ in range(min(rand_len(rng, self.item),
                                        self.max_len)))

    def dump(self, value):
        res = [self.item.dump(elem) for elem in value]
        return Unordered(res) if self.is_set else res


class Unordered:
    """Equal to a list with the same elements in any order."""

    def __init__(self, elems):
        self.elems = elems


class TupleOf(Node):
    def __init__(self, items):
        self.items = items
        Node.__init__(self, typing.Tuple[tuple(i.ann for i in items)],
                      'Tuple[%s]' % ', '.join(map(str, items)))
        self.hashable = all(i.hashable for i in items)

    def value(self, rng):
        return tuple(i.value(rng) for i in self.items)

    def dump(self, value):
        return [i.dump(v) for i, v in zip(self.items, value)]


class TupleEllipsis(Node):
    def __init__(self, item):
        self.item = item
        Node.__init__(self, typing.Tuple[item.ann, ...],
                      'Tuple[%s, ...]' % item)
        self.hashable = item.hashable

    def value(self, rng):
        return tuple(self.item.value(rng)
                     for _ in range(rand_len(rng, self.item)))

    def dump(self, value):
        return [self.item.dump(v) for v in value]


class DictLike(Node):
    hashable = False
    KINDS = {
        'Dict': (typing.Dict, dict), 'dict': (dict, dict),
        'Mapping': (typing.Mapping, dict),
        'MutableMapping': (typing.MutableMapping, dict),
        'OrderedDict': (typing.OrderedDict, collections.OrderedDict),
        'DefaultDict': (typing.DefaultDict, None),
        'ChainMap': (typing.ChainMap, collections.ChainMap),
    }

    def __init__(self, kind, key, val):
        ann, self.make = self.KINDS[kind]
        Node.__init__(self, ann[key.ann, val.ann],
                      '%s[%s, %s]' % (kind, key, val))
        self.kind = kind
        self.key, self.val = key, val
        if kind == 'DefaultDict':
            self.make = lambda d: collections.defaultdict(val.ann, d)

    def value(self, rng):
        res = {}
        for _ in range(min(rand_len(rng, self.val), self.max_len)):
            key = self.key.value(rng)
            if key in ('-keys', '-meta'):
                continue
            res[key] = self.val.value(rng)
        return self.make(res)

    def dump(self, value):
        pairs = [(dump_key(self.key, k), self.val.dump(v))
                 for k, v in value.items()]
        if any(isinstance(k, (list, dict, Unordered)) for k, _ in pairs):
            return HashedDict(pairs)
        return dict(pairs)


class CounterOf(DictLike):
    def __init__(self, key):
        Node.__init__(self, typing.Counter[key.ann], 'Counter[%s]' % key)
        self.kind = 'Counter'
        self.make = collections.Counter
        self.key, self.val = key, INT


def dump_key(node, key):
    dumped = node.dump(key)
    if isinstance(dumped, Stamp):
        dumped = StampKey(dumped.value)
    return dumped


class HashedDict:
    """
    Equal to a dict of which the keys that JSON cannot express were replaced by
    a number, with the numbers and the dumped keys under "-keys".
    """

    def __init__(self, pairs):
        self.pairs = pairs


class StampKey(Stamp):
    __hash__ = object.__hash__


class OptionalOf(Node):
    def __init__(self, item):
        self.item = item
        Node.__init__(self, typing.Optional[item.ann], 'Optional[%s]' % item)
        self.hashable = item.hashable

    def value(self, rng):
        return None if rng.random() < .3 else self.item.value(rng)

    def dump(self, value):
        return None if value is None else self.item.dump(value)


class UnionOf(Node):
    """No reference dump: which member takes a value depends on them all."""
    hashable = False

    def __init__(self, items):
        self.items = items
        Node.__init__(self, typing.Union[tuple(i.ann for i in items)],
                      'Union[%s]' % ', '.join(map(str, items)))

    def value(self, rng):
        return rng.choice(self.items).value(rng)


# ---------------------------------------------------------------------------
# User classes, generated as source code into one importable module.
# ---------------------------------------------------------------------------
MODULE = 'vgen_models'
_counter = [0]


# Classes of which the class itself is false, empty, iterable or peculiar.
METACLASSES = '''
class EmptyMeta(type):
    def __len__(cls):
        return 0
class FalseMeta(type):
    def __bool__(cls):
        return False
class RegistryMeta(type):
    known = []
    def __iter__(cls):
        return iter(RegistryMeta.known)
    def __len__(cls):
        return len(RegistryMeta.known)
    def __contains__(cls, item):
        return False
    def __getitem__(cls, item):
        raise KeyError(item)
class SingleMeta(type):
    def __call__(cls, /, *args, **kwargs):
        return super().__call__(*args, **kwargs)
    def __str__(cls):
        return ''
    __repr__ = __str__
'''


def gen_module():
    import sys
    if MODULE not in sys.modules:
        module = types.ModuleType(MODULE)
        module.__file__ = '<%s>' % MODULE
        sys.modules[MODULE] = module
        exec('import abc, typing, dataclasses, collections, attr, datetime\n'
             'import enum, functools\n'
             'from typing import *\nfrom dataclasses import dataclass, field\n'
             'from collections import namedtuple', module.__dict__)
        exec(METACLASSES, module.__dict__)
    return sys.modules[MODULE]


class Field:
    def __init__(self, name, node, default=None, has_default=False,
                 kw_only=False):
        self.name, self.node = name, node
        self.default, self.has_default = default, has_default
        self.kw_only = kw_only

    def label(self):
        return '%s: %s%s' % (self.name, self.node, ' = %s' % brief(
            self.default) if self.has_default else '')


METAS = ('EmptyMeta', 'FalseMeta', 'RegistryMeta', 'SingleMeta')
# What classes may have beside their attributes.
EXTRAS = [
    '    def __call__(self, *args):\n        return args',
    '    def __bool__(self):\n        return False',
    '    def __len__(self):\n        return 0',
    '    def __eq__(self, other):\n        return True\n'
    '    def __hash__(self):\n        return 1',
    '    def __eq__(self, other):\n        raise TypeError("not comparable")',
    '    def __contains__(self, other):\n        return False',
    '    def __str__(self):\n        return "2020-01-01T00:00:00Z"',
    '    def __repr__(self):\n        return ""',
    '    def __int__(self):\n        return 1\n'
    '    def __float__(self):\n        return 1.',
    '    def load_(self):\n        return self',
    '    @staticmethod\n    def static_(x: int = 1):\n        return x',
    '    @classmethod\n    def make_(cls):\n        return cls',
    '    @functools.lru_cache()\n    def cached_(self):\n        return 1',
    '    def part_(self, x):\n        return x\n'
    '    part1_ = functools.partialmethod(part_, 1)',
    '    @functools.singledispatchmethod\n    def single_(self, x):\n'
    '        return x',
    '    def __getitem__(self, key):\n        return getattr(self, key)',
    '    def __getattr__(self, name):\n        raise AttributeError(name)',
    '    def __getattr__(self, name):\n        if name[:4] != "any_":\n'
    '            raise AttributeError(name)\n        return name',
    '    class Inner_:\n        def __init__(self):\n            pass',
    '    class Kind_(enum.Enum):\n        A = 1',
    '    def __class_getitem__(cls, item):\n        return cls',
    '    def __dir__(self):\n'
    '        return sorted(object.__dir__(self), reverse=True)',
    '    async def later_(self):\n        return self',
    '    def some_(self):\n        yield self',
    '    def __hash__(self):\n        raise TypeError("not hashable")',
    '    __hash__ = None',
    '    __iter__ = None',
    '    def __index__(self):\n        return 1',
    '    def __fspath__(self):\n        return "/"',
    '    def __next__(self):\n        raise StopIteration',
    '    def __await__(self):\n        raise TypeError("not awaitable")',
]


class ClassNode(Node):
    """A generated class: `fields` are its own and its inherited fields."""
    STYLES = ('plain', 'dataclass', 'frozen', 'dcslots', 'attrs',
              'attrs_frozen', 'attrs_slots', 'slots', 'NamedTuple',
              'plain_inherit', 'dc_inherit', 'dc_kwonly')

    def __init__(self, ctx, rng, fields, style, base=None, prefix=None,
                 strings=False):
        _counter[0] += 1
        self.style = style
        self.fields = fields
        self.base = base
        self.me = rng.choice(['self'] * 9 + ['this_', '_self_'])
        self.extras = [rng.choice(EXTRAS)] if rng.random() < .2 \
            and style != 'NamedTuple' else []
        self.posonly = 0
        if style == 'plain' and rng.random() < .15:
            self.posonly = rng.randint(0, len([f for f in fields
                                               if not f.kw_only]))
        self.meta = rng.choice([''] * 12 + [
            '(metaclass=abc.ABCMeta)', '(abc.ABC)'] * 2 + [
                '(metaclass=%s)' % m for m in METAS]) \
            if style in ('plain', 'slots') and not base else ''
        # The parameters of attrs have no leading underscores.
        self.privates = set()
        if 'attrs' in style and rng.random() < .25:
            self.privates = {f.name for f in fields if f.name[0] != '_'
                             and rng.random() < .6}
        prefix = prefix or rng.choice(CLASS_PREFIXES)
        name = '%s%d' % (prefix, _counter[0])
        ns = gen_module().__dict__
        self.source = self._source(name, ns, strings)
        exec(self.source, ns)
        self.cls = ns[name]
        self.name = name
        self.tuple_like = style in ('NamedTuple',)
        self.hashable = style in ('frozen', 'NamedTuple', 'attrs_frozen') \
            and all(f.node.hashable for f in fields) \
            and not {'__eq__', '__hash__'} & set(re.findall(
                r'__\w+__', ''.join(self.extras)))
        Node.__init__(self, self.cls, '%s(%s)' % (
            style, ', '.join('%s: %s' % (f.name, f.node)
                                   for f in fields)))
        ctx.cleanups.append(lambda: self._forget(ns, name))

    @staticmethod
    def _forget(ns, name):
        ns.pop(name, None)
        for key in [k for k in ns if k.startswith('v_%s_' % name)]:
            ns.pop(key)

    def _source(self, name, ns, strings):
        anns, defaults = {}, {}
        for i, f in enumerate(self.fields):
            if f.node is SELF:
                anns[f.name] = repr('typing.Optional[%s]' % name) \
                    if self.style != 'self_list' else ''
            elif f.node is SELF_LIST:
                anns[f.name] = repr('typing.List[%s]' % name)
            else:
                key = 'v_%s_t%d' % (name, i)
                ns[key] = f.node.ann
                anns[f.name] = repr(key) if strings else key
            if f.has_default:
                key = 'v_%s_d%d' % (name, i)
                ns[key] = f.default
                defaults[f.name] = key
        own = self.fields[len(self.base.fields):] if self.base \
            else self.fields
        style = self.style
        lines = []
        if style in ('plain', 'plain_inherit', 'slots'):
            base = '(%s)' % self.base.name if self.base else self.meta
            lines.append('class %s%s:' % (name, base))
            if style == 'slots':
                lines.append('    __slots__ = %r'
                             % (tuple(f.name for f in own),))
            pos = [f for f in self.fields if not f.kw_only]
            kwo = [f for f in self.fields if f.kw_only]
            args = [self.me] + [arg_src(f, anns, defaults) for f in pos]
            if self.posonly:
                args.insert(1 + self.posonly, '/')
            if kwo:
                args += ['*'] + [arg_src(f, anns, defaults) for f in kwo]
            lines.append('    def __init__(%s):' % ', '.join(args))
            body = []
            if self.base:
                first = [f for f in self.base.fields
                         if not f.kw_only][:self.base.posonly]
                body.append('super().__init__(%s)' % ', '.join(
                    [f.name for f in first] +
                    ['%s=%s' % (f.name, f.name)
                     for f in self.base.fields if f not in first]))
            body += ['%s.%s = %s' % (self.me, f.name, f.name) for f in own]
            lines += ['        ' + line for line in body or ['pass']]
        elif style in ('dataclass', 'frozen', 'dcslots', 'dc_inherit',
                       'dc_kwonly'):
            deco = {'dataclass': '@dataclass', 'dc_inherit': '@dataclass',
                    'frozen': '@dataclass(frozen=True)',
                    'dcslots': '@dataclass(slots=True)',
                    'dc_kwonly': '@dataclass(kw_only=True)'}[style]
            base = '(%s)' % self.base.name if self.base else ''
            lines += [deco, 'class %s%s:' % (name, base)]
            lines += ['    %s: %s%s' % (
                f.name, anns[f.name], dc_default(f, defaults)) for f in own]
            lines += ['    pass']
        elif style in ('attrs', 'attrs_frozen', 'attrs_slots'):
            deco = {'attrs': '@attr.s(auto_attribs=True)',
                    'attrs_frozen': '@attr.s(auto_attribs=True, frozen=True)',
                    'attrs_slots': '@attr.s(auto_attribs=True, slots=True)'
                    }[style]
            lines += [deco, 'class %s:' % name]
            lines += ['    %s: %s%s' % (
                self.attr(f), anns[f.name],
                ' = ' + attr_default(f, defaults) if f.has_default else '')
                for f in own]
            lines += ['    pass']
        elif style == 'NamedTuple':
            lines += ['class %s(NamedTuple):' % name]
            lines += ['    %s: %s%s' % (
                f.name, anns[f.name],
                ' = ' + defaults[f.name] if f.has_default else '')
                for f in own]
        else:
            raise AssertionError(style)
        return '\n'.join(lines + self.extras)

    def attr(self, f):
        """The name of the attribute that holds the field."""
        name = getattr(f, 'name', f)
        return '_' + name if name in self.privates else name

    def value(self, rng, depth=0):
        kwargs = {}
        for f in self.fields:
            if f.has_default and rng.random() < .3:
                continue
            kwargs[f.name] = self.field_value(f, rng, depth)
        return self.make(kwargs)

    def make(self, kwargs):
        """An instance with these constructor arguments."""
        kwargs = dict(kwargs)
        args = []
        for f in [f for f in self.fields if not f.kw_only][:self.posonly]:
            args.append(kwargs.pop(f.name) if f.name in kwargs else f.default)
        return self.cls(*args, **kwargs)

    def field_value(self, f, rng, depth=0):
        if f.node is SELF:
            return self.value(rng, depth + 1) \
                if depth < 3 and rng.random() < .5 else None
        if f.node is SELF_LIST:
            n = rng.choice([0, 1, 2]) if depth < 2 else 0
            return [self.value(rng, depth + 1) for _ in range(n)]
        return f.node.value(rng)

    def dump(self, value):
        res = {}
        for f in self.fields:
            v = getattr(value, self.attr(f))
            if f.node is SELF:
                res[f.name] = None if v is None else self.dump(v)
            elif f.node is SELF_LIST:
                res[f.name] = [self.dump(e) for e in v]
            else:
                res[f.name] = f.node.dump(v)
        return res


def arg_src(f, anns, defaults):
    res = f.name
    if anns[f.name] and f.node is not UNTYPED:
        res += ': ' + anns[f.name]
    if f.has_default:
        res += ' = ' + defaults[f.name]
    return res


def dc_default(f, defaults):
    if not f.has_default:
        return ''
    if type(f.default).__hash__ is None:
        return ' = field(default_factory=lambda: __import__("copy").copy(%s))' \
            % defaults[f.name]
    return ' = ' + defaults[f.name]


def attr_default(f, defaults):
    if type(f.default).__hash__ is None:
        return 'attr.Factory(lambda: __import__("copy").copy(%s))' \
            % defaults[f.name]
    return defaults[f.name]


class _Marker(Node):
    def __init__(self, label):
        Node.__init__(self, None, label)
    hashable = False


SELF = _Marker('Optional[<self>]')
SELF_LIST = _Marker('List[<self>]')


class _Untyped(Node):
    """A parameter without annotation; its values are their own dump."""
    json_native = True
    hashable = True

    def value(self, rng):
        return rng.choice([rng.choice(INTS), plain_text(rng), None, True,
                           1.5, -3])

    def dump(self, value):
        return value


UNTYPED = _Untyped(typing.Any, '<untyped>')
ANY = _Untyped(typing.Any, 'Any')
OBJECT = _Untyped(object, 'object')


# ---------------------------------------------------------------------------
# Random types
# ---------------------------------------------------------------------------
MAPS = (dict, collections.ChainMap)
LIST_KINDS = ['List', 'List', 'List', 'list', 'Sequence', 'MutableSequence',
              'Iterable', 'Collection', 'Deque']
SET_KINDS = ['Set', 'Set', 'set', 'FrozenSet', 'FrozenSet', 'AbstractSet',
             'MutableSet']
DICT_KINDS = ['Dict', 'Dict', 'Dict', 'dict', 'Mapping', 'MutableMapping',
              'OrderedDict', 'DefaultDict', 'ChainMap']
KEY_NODES = [STR, STR, STR, INT, DATETIME, DATE, TIME, UUID_, DECIMAL, PATH] \
    + [ENUM_NODES[0], ENUM_NODES[3]]


def rand_key_node(rng, hashed=False):
    if hashed and rng.random() < .6:
        return rand_hashed_key_node(rng)
    return rng.choice(KEY_NODES)


def rand_hashed_key_node(rng):
    scal = [INT, STR, DATE, DATETIME, UUID_, ENUM_NODES[0], BOOL]
    return rng.choice([
        lambda: TupleOf([rng.choice(scal)
                         for _ in range(rng.randint(1, 3))]),
        lambda: TupleEllipsis(rng.choice(scal)),
        lambda: ListLike('FrozenSet', rng.choice(scal)),
        lambda: TupleOf([rng.choice(scal),
                         TupleOf([rng.choice(scal), rng.choice(scal)])]),
        lambda: COMPLEX,
    ])()


def rand_type(rng, depth=2, classes=None, need_hash=False, keys_hashed=False,
              scalars=SCALARS, subclasses=0):
    """
    A random type. `classes` is a callable that returns a ClassNode, or None.
    """
    if need_hash:
        if depth > 0 and rng.random() < .3:
            kids = [rand_type(rng, depth - 1, need_hash=True, scalars=scalars)
                    for _ in range(rng.randint(1, 3))]
            return rng.choice([lambda: TupleOf(kids),
                               lambda: TupleEllipsis(kids[0]),
                               lambda: ListLike('FrozenSet', kids[0])])()
        return rng.choice([s for s in scalars if s is not NONE])
    x = rng.random()
    if depth <= 0 or x < .2:
        if classes and rng.random() < .4:
            return classes()
        if subclasses and rng.random() < subclasses:
            return rng.choice(SUBCLASSES)
        return rng.choice(scalars)
    sub = lambda **kw: rand_type(rng, depth - 1, classes,
                                 keys_hashed=keys_hashed, scalars=scalars,
                                 subclasses=subclasses, **kw)
    if x < .45:
        return ListLike(rng.choice(LIST_KINDS), sub())
    if x < .53:
        return ListLike(rng.choice(SET_KINDS),
                        rand_type(rng, depth - 1, need_hash=True,
                                  scalars=scalars))
    if x < .63:
        if rng.random() < .05:
            return TupleOf([rng.choice(scalars)
                            for _ in range(rng.randint(5, 20))])
        return TupleOf([sub() for _ in range(rng.randint(1, 4))])
    if x < .7:
        return TupleEllipsis(sub())
    if x < .88:
        if rng.random() < .06:
            return CounterOf(rand_key_node(rng, keys_hashed))
        return DictLike(rng.choice(DICT_KINDS),
                        rand_key_node(rng, keys_hashed), sub())
    if classes and x < .95:
        return classes()
    node = sub()
    return node if isinstance(node, OptionalOf) or node is NONE \
        else OptionalOf(node)


RESERVED = {'id_'}


def rand_names(rng, n, odd=.15, style=None):
    pool = list(WORDS)
    rng.shuffle(pool)
    names = []
    while len(names) < n:
        name = rng.choice(ODD_NAMES) if rng.random() < odd else pool.pop()
        if name in names:
            continue
        if style == 'NamedTuple' and name.startswith('_'):
            continue
        names.append(name)
    return names


def rand_class(ctx, rng, depth=1, style=None, nfields=None, selfref=True,
               odd=.15, scalars=SCALARS, keys_hashed=False, defaults=True,
               untyped=True, strings=None):
    """A random class whose fields may hold other random classes."""
    style = style or rng.choice(ClassNode.STYLES)
    nested = (lambda: rand_class(ctx, rng, depth - 1, selfref=selfref, odd=odd,
                                 scalars=scalars, keys_hashed=keys_hashed,
                                 defaults=defaults, untyped=untyped)) \
        if depth > 0 else None
    base = None
    base_fields = []
    if style in ('plain_inherit', 'dc_inherit'):
        base_style = 'plain' if style == 'plain_inherit' else 'dataclass'
        base = rand_class(ctx, rng, 0,
                          rng.choice([base_style, base_style, style])
                          if depth > 0 else base_style,
                          nfields=rng.randint(0, 3), selfref=False, odd=odd,
                          scalars=scalars, defaults=False, untyped=untyped)
        base_fields = list(base.fields)
    wide = nfields is None and rng.random() < .03
    n = rng.randint(0 if style != 'NamedTuple' else 1, 5) \
        if nfields is None else nfields
    if wide:
        n = rng.randint(7, 20)
    taken = {f.name for f in base_fields}
    names = [x for x in rand_names(rng, n, odd, style) if x not in taken]
    # Properties of tuples are no names for fields of a named tuple.
    if style == 'NamedTuple':
        names = [x for x in names if x not in ('count', 'index')] or ['q']
    fields = list(base_fields)
    seen_default = False
    for name in names:
        if selfref and style in ('plain', 'dataclass', 'attrs', 'dc_kwonly') \
                and rng.random() < .12 and sum(
                    f.node in (SELF, SELF_LIST) for f in fields) < 2:
            node = rng.choice([SELF, SELF_LIST])
        elif untyped and rng.random() < .08:
            node = rng.choice([UNTYPED if style == 'plain' else ANY, ANY,
                               OBJECT])
        else:
            node = rand_type(rng, depth if rng.random() < .6 and not wide
                             else 0, nested,
                             keys_hashed=keys_hashed, scalars=scalars)
        kw_only = style == 'plain' and rng.random() < .1
        has_default = defaults and (seen_default and not kw_only
                                    or rng.random() < .25)
        default = None
        if has_default:
            if node is SELF:
                default = None
            elif node is SELF_LIST:
                default = []
            else:
                default = node.value(rng)
            if not kw_only:
                seen_default = True
        fields.append(Field(name, node, default, has_default, kw_only))
    return ClassNode(ctx, rng, fields, style, base,
                     strings=rng.random() < .15 if strings is None
                     else strings)


# ---------------------------------------------------------------------------
# Comparison
# ---------------------------------------------------------------------------
def diff(a, b, path='$', order=True):
    """None if a and b are equal at every level, including their types."""
    if type(a) is not type(b):
        return '%s: type %s != %s (%s / %s)' % (
            path, type(a).__name__, type(b).__name__, brief(a), brief(b))
    if a is b:
        return None
    if isinstance(a, float):
        if math.isnan(a) and math.isnan(b):
            return None
        if a == b and math.copysign(1, a) == math.copysign(1, b):
            return None
        return '%s: %r != %r' % (path, a, b)
    if isinstance(a, complex):
        return diff(a.real, b.real, path + '.real') \
            or diff(a.imag, b.imag, path + '.imag')
    if isinstance(a, Decimal):
        return None if a.as_tuple() == b.as_tuple() \
            else '%s: %r != %r' % (path, a, b)
    if isinstance(a, dt.datetime):
        if (a.tzinfo is None) == (b.tzinfo is None) \
                and instant(a) == instant(b):
            return None
        return '%s: %r != %r' % (path, a, b)
    if isinstance(a, dt.timezone):
        return None if a == b and a.tzname(None) == b.tzname(None) \
            else '%s: %r != %r' % (path, a, b)
    if isinstance(a, ZoneInfo):
        return None if a.key == b.key else '%s: %r != %r' % (path, a, b)
    if isinstance(a, (str, bytes, int, enum.Enum, type(None), dt.date, dt.time,
                      dt.timedelta, uuid.UUID, pathlib.PurePath)):
        return None if a == b else '%s: %s != %s' % (path, brief(a), brief(b))
    if isinstance(a, (list, tuple, collections.deque)):
        if len(a) != len(b):
            return '%s: length %d != %d (%s / %s)' % (
                path, len(a), len(b), brief(a), brief(b))
        for i, (x, y) in enumerate(zip(a, b)):
            found = diff(x, y, '%s[%d]' % (path, i), order)
            if found:
                return found
        return None
    if isinstance(a, (set, frozenset)):
        if len(a) != len(b):
            return '%s: size %d != %d (%s / %s)' % (
                path, len(a), len(b), brief(a), brief(b))
        return match(list(a), list(b), path, order)
    if isinstance(a, MAPS):
        if len(a) != len(b):
            return '%s: size %d != %d (%s / %s)' % (
                path, len(a), len(b), brief(a), brief(b))
        if order:
            found = diff(list(a), list(b), path + '.keys()', order)
            if found:
                keys = match(list(a), list(b), path + '.keys()', order)
                return keys or found
            for (k, x), y in zip(a.items(), b.values()):
                found = diff(x, y, '%s[%s]' % (path, brief(k)), order)
                if found:
                    return found
            return None
        return match(list(a.items()), list(b.items()), path, order)
    return diff_attrs(a, b, path, order)


def match(xs, ys, path, order):
    """Match two unordered collections of the same size."""
    ys = list(ys)
    for x in xs:
        for i, y in enumerate(ys):
            if diff(x, y, path, order) is None:
                del ys[i]
                break
        else:
            return '%s: no match for %s in %s' % (path, brief(x), brief(ys))
    return None


def attrs_of(obj):
    res = dict(getattr(obj, '__dict__', {}))
    for cls in type(obj).__mro__:
        slots = cls.__dict__.get('__slots__', ())
        for slot in ([slots] if isinstance(slots, str) else slots):
            if slot not in ('__dict__', '__weakref__') and hasattr(obj, slot):
                res[slot] = getattr(obj, slot)
    return res


def diff_attrs(a, b, path, order):
    xs, ys = attrs_of(a), attrs_of(b)
    if set(xs) != set(ys):
        return '%s: attributes %s != %s' % (path, sorted(xs), sorted(ys))
    for name in xs:
        found = diff(xs[name], ys[name], '%s.%s' % (path, name), order)
        if found:
            return found
    return None


def brief(obj, limit=160):
    from harness.core import short
    return short(obj, limit)


def json_diff(expected, got, path='$'):
    """
    None if `got` is what the reference model expects. The reference may hold
    Stamp and Unordered elements. The order of dict keys is not judged.
    """
    if isinstance(expected, Stamp):
        return None if expected == got else '%s: %s is not %s' % (
            path, brief(got), expected)
    if isinstance(expected, Unordered):
        if type(got) is not list or len(got) != len(expected.elems):
            return '%s: %s / %s' % (path, brief(got), brief(expected.elems))
        rest = list(got)
        for x in expected.elems:
            for i, y in enumerate(rest):
                if json_diff(x, y, path) is None:
                    del rest[i]
                    break
            else:
                return '%s: no match for %s in %s' % (path, brief(x),
                                                      brief(rest))
        return None
    if isinstance(expected, HashedDict):
        return hashed_dict_diff(expected, got, path)
    if type(expected) is not type(got):
        return '%s: expected %s %s, got %s %s' % (
            path, type(expected).__name__, brief(expected),
            type(got).__name__, brief(got))
    if isinstance(expected, float):
        return diff(expected, got, path)
    if isinstance(expected, list):
        if len(expected) != len(got):
            return '%s: expected %d elements %s, got %d %s' % (
                path, len(expected), brief(expected), len(got), brief(got))
        for i, (x, y) in enumerate(zip(expected, got)):
            found = json_diff(x, y, '%s[%d]' % (path, i))
            if found:
                return found
        return None
    if isinstance(expected, dict):
        if len(expected) != len(got):
            return '%s: expected keys %s, got %s' % (
                path, brief(sorted(map(str, expected))),
                brief(sorted(map(str, got))))
        rest = dict(got)
        for k, x in expected.items():
            key = k
            if isinstance(k, StampKey):
                keys = [g for g in rest if k == g]
                if not keys:
                    return '%s: no key %r in %s' % (path, k, brief(got))
                key = keys[0]
            elif k not in rest:
                return '%s: no key %r in %s' % (path, k, brief(list(got)))
            found = json_diff(x, rest.pop(key), '%s[%r]' % (path, k))
            if found:
                return found
        return None
    return None if expected == got else '%s: expected %s, got %s' % (
        path, brief(expected), brief(got))


def hashed_dict_diff(expected, got, path):
    if type(got) is not dict or type(got.get('-keys')) is not dict:
        return '%s: no -keys in %s' % (path, brief(got))
    keys = got['-keys']
    rest = {k: v for k, v in got.items() if k != '-keys'}
    if not set(keys) <= set(rest):
        return '%s: -keys without value: %s' % (path, brief(got))
    if any(type(k) is not int for k in keys):
        return '%s: -keys with other keys than hashes: %s' % (path, brief(got))
    if len(rest) != len(expected.pairs):
        return '%s: expected %d keys, got %s' % (path, len(expected.pairs),
                                                 brief(got))
    for key, elem in expected.pairs:
        hashed = isinstance(key, (list, dict, Unordered))
        for k in rest:
            if hashed == (k in keys) and json_diff(
                    key, keys[k] if hashed else k) is None and \
                    json_diff(elem, rest[k]) is None:
                del rest[k]
                break
        else:
            return '%s: no match for %s: %s in %s' % (
                path, brief(key), brief(elem), brief(got))
    return None


def check_pure_json(obj, path='$'):
    """None if obj consists of exactly the types that JSON knows."""
    if obj is None or type(obj) in (str, int, float, bool):
        return None
    if type(obj) is list:
        for i, elem in enumerate(obj):
            found = check_pure_json(elem, '%s[%d]' % (path, i))
            if found:
                return found
        return None
    if type(obj) is dict:
        for key, elem in obj.items():
            if key is not None and type(key) not in (str, int, float, bool):
                return '%s: key %s of type %s' % (path, brief(key),
                                                  type(key).__name__)
            found = check_pure_json(elem, '%s[%r]' % (path, key))
            if found:
                return found
        return None
    return '%s: %s of type %s' % (path, brief(obj), type(obj).__name__)


def optional(node):
    return node if isinstance(node, OptionalOf) or node is NONE \
        else OptionalOf(node)


# ---------------------------------------------------------------------------
# Membership: is a value one of the type?
# ---------------------------------------------------------------------------
SCALAR_TYPES = [
    (INT, int), (FLOAT, float), (BOOL, bool), (STR, str), (NONE, type(None)),
    (COMPLEX, complex), (DATETIME, dt.datetime), (DATE, dt.date),
    (TIME, dt.time), (TIMEDELTA, dt.timedelta), (TIMEZONE, dt.timezone),
    (ZONEINFO, ZoneInfo), (DECIMAL, Decimal), (UUID_, uuid.UUID),
    (PATH, pathlib.PurePath), (NT_INT, int), (NT_STR, str),
    (NT_NO, int),
] + [(n, n.ann) for n in ENUM_NODES]
SCALAR_TYPES = {id(node): cls for node, cls in
                SCALAR_TYPES + [(n, n.ann) for n in SUBCLASSES]}


def misfit(node, value, path='$'):
    """None if value is of the type at every level."""
    if isinstance(node, OptionalOf):
        return None if value is None else misfit(node.item, value, path)
    if isinstance(node, UnionOf):
        founds = [misfit(i, value, path) for i in node.items]
        return None if None in founds else '%s: %s fits no member of %s (%s)' \
            % (path, brief(value), node, founds[0])
    if isinstance(node, _Untyped):
        return None
    if isinstance(node, Scalar):
        cls = SCALAR_TYPES[id(node)]
        return None if isinstance(value, cls) else '%s: %s is no %s' % (
            path, brief(value), node.label)
    if isinstance(node, ListLike):
        if not isinstance(value, node.make):
            return '%s: %s is no %s' % (path, brief(value), node.label)
        return first(misfit(node.item, v, '%s[%d]' % (path, i))
                     for i, v in enumerate(value))
    if isinstance(node, (TupleOf, TupleEllipsis)):
        if type(value) is not tuple:
            return '%s: %s is no %s' % (path, brief(value), node.label)
        items = node.items if isinstance(node, TupleOf) \
            else [node.item] * len(value)
        if len(items) != len(value):
            return '%s: %s is no %s' % (path, brief(value), node.label)
        return first(misfit(n, v, '%s[%d]' % (path, i))
                     for i, (n, v) in enumerate(zip(items, value)))
    if isinstance(node, DictLike):
        if not isinstance(value, collections.ChainMap
                          if node.kind == 'ChainMap' else dict):
            return '%s: %s is no %s' % (path, brief(value), node.label)
        if node.kind == 'OrderedDict' and \
                not isinstance(value, collections.OrderedDict) or \
                node.kind == 'DefaultDict' and \
                not isinstance(value, collections.defaultdict) or \
                node.kind == 'Counter' and \
                not isinstance(value, collections.Counter):
            return '%s: %s is no %s' % (path, brief(value), node.label)
        return first([misfit(node.key, k, '%s.keys()' % path) or
                      misfit(node.val, v, '%s[%s]' % (path, brief(k)))
                      for k, v in value.items()])
    if isinstance(node, ClassNode):
        if not isinstance(value, node.cls):
            return '%s: %s is no %s' % (path, brief(value), node.label)
        for f in node.fields:
            v = getattr(value, node.attr(f))
            if f.has_default and diff(v, f.default) is None:
                continue
            sub = {SELF: optional(node), SELF_LIST: None}.get(f.node, f.node) \
                if isinstance(f.node, _Marker) else f.node
            p = '%s.%s' % (path, f.name)
            if f.node is SELF_LIST:
                if not isinstance(v, list):
                    return '%s: %s is no list' % (p, brief(v))
                found = first(misfit(node, e, p) for e in v)
            else:
                found = misfit(sub, v, p)
            if found:
                return found
        return None
    raise AssertionError(node)


def first(founds):
    for found in founds:
        if found:
            return found
    return None


# ---------------------------------------------------------------------------
# Hostile JSON
# ---------------------------------------------------------------------------
TYPE_NAMES = ['int', 'str', 'bool', 'float', 'NoneType', 'list', 'dict', 'set',
              'tuple', 'object', 'complex', 'bytes', 'type', 'datetime.datetime',
              'datetime.date', 'datetime.timedelta', 'datetime.timezone',
              'uuid.UUID', 'decimal.Decimal', 'enum.Enum', 'typing.Any',
              'pathlib.Path', 'pathlib.PurePosixPath', 'zoneinfo.ZoneInfo',
              'collections.deque', 'collections.OrderedDict', 'numbers.Number',
              'collections.defaultdict', 'typing.List', 'typing.NamedTuple',
              'types.SimpleNamespace', 'fractions.Fraction', 'string.Template',
              'jsons.JsonSerializable', 'jsons.exceptions.JsonsError',
              'collections.abc.Iterable', 'typing.Callable', 'ValueError']
GENERIC_NAMES = ['typing.List[%s]', 'typing.Optional[%s]', 'list[%s]',
                 'typing.Union[int, %s]', 'typing.Union[%s, str]',
                 'typing.Dict[str, %s]', 'typing.DefaultDict[str, %s]',
                 'typing.Tuple[%s]', 'typing.Tuple[%s, int]', 'dict[str,%s]',
                 'typing.Set[%s]', 'typing.Iterable[%s]', 'typing.Deque[%s]',
                 'typing.OrderedDict[str, %s]', 'typing.ChainMap[str, %s]',
                 'typing.Type[%s]', 'typing.Mapping[%s, int]',
                 'typing.FrozenSet[%s]', 'typing.Counter[%s]',
                 'typing.Callable[%s]', 'typing.ClassVar[%s]',
                 'http.HTTPStatus[%s]', 'sys.modules[%s]']


def rand_type_name(rng, depth=3):
    if depth <= 0 or rng.random() < .5:
        return rng.choice(TYPE_NAMES)
    return rng.choice(GENERIC_NAMES) % rand_type_name(rng, depth - 1)


def rand_json(rng, depth=2, meta=True):
    x = rng.random()
    if depth <= 0 or x < .5:
        return rng.choice([
            lambda: None, lambda: rng.random() < .5,
            lambda: rng.choice(INTS), lambda: rng.choice(FLOATS + ODD_FLOATS),
            lambda: rand_text(rng), lambda: rng.choice(STAMPS),
            lambda: rng.choice([[], {}, '', 0])])()
    if x < .7:
        return [rand_json(rng, depth - 1, meta)
                for _ in range(rng.randint(0, 3))]
    res = {}
    for _ in range(rng.randint(0, 3)):
        key = rng.choice([rng.choice(WORDS), rng.choice(ODD_NAMES),
                          rand_str(rng, 5), 'real', 'imag', 'name', 'offset',
                          'key', '1', '0'])
        res[key] = rand_json(rng, depth - 1, meta)
    if meta and rng.random() < .1:
        res['-meta'] = rng.choice([
            None, [], {}, 'x', {'classes': None}, {'classes': []},
            {'classes': {'/': 'nowhere.Nothing'}}, {'classes': {'/': 5}},
            {'classes': {'/': 'int'}}, {'classes': {'/a': 'x.y'}},
            {'classes': {'/': ''}}, {'classes': {'/': '[]'}},
            {'classes': {'/': 'typing.List[nope]'}},
            {'classes': {'/': 'typing.List[int, str]'}},
            {'dump_time': 1}, {'classes': {'/': 'print'}},
            {'classes': {'/': '.'}}, {'classes': {'/': 'a..b'}}])
        if rng.random() < .6:
            paths = ['/'] + ['/%s' % key for key in res]
            res['-meta'] = {'classes': {
                path: rand_type_name(rng)
                for path in rng.sample(paths, min(len(paths),
                                                  rng.randint(1, 2)))}}
    if meta and rng.random() < .1:
        res['-keys'] = rng.choice([
            None, [], {}, 'x', {'5': 1}, {'nope': []}, 5,
            {k: rand_json(rng, 1, False) for k in list(res)[:2]}])
    return res


def spots_of(obj):
    """All (container, key) places within a JSON structure."""
    res = []
    stack = [obj]
    while stack:
        cur = stack.pop()
        items = cur.items() if isinstance(cur, dict) else enumerate(cur) \
            if isinstance(cur, list) else ()
        for key, elem in items:
            res.append((cur, key))
            stack.append(elem)
    return res


def mutate_json(rng, obj, times=1):
    """Break a (deep copied) JSON structure in some places."""
    import copy
    obj = copy.deepcopy(obj)
    for _ in range(times):
        spots = spots_of(obj)
        if not spots or rng.random() < .1:
            obj = rng.choice([lambda: rand_json(rng), lambda: [obj],
                              lambda: {'x': obj}, lambda: None])()
            continue
        cur, key = rng.choice(spots)
        act = rng.random()
        if act < .55:
            cur[key] = rand_json(rng)
        elif act < .7:
            del cur[key]
        elif act < .85 and isinstance(cur, dict):
            cur[rng.choice(WORDS + ['-keys', '-meta', '', '_'])] = \
                rand_json(rng)
        elif isinstance(cur, list):
            cur.insert(rng.randint(0, len(cur)), rand_json(rng))
        else:
            other = rng.choice(spots)
            cur[key] = copy.deepcopy(other[0][other[1]]) \
                if other[1] in other[0] or isinstance(other[0], list) \
                and other[1] < len(other[0]) else None
    return obj
