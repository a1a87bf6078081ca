"""Dates and times keep their moment and follow RFC3339."""
import datetime as dt
import os
import time
from zoneinfo import ZoneInfo

from harness import gen, util

PID = 'C14'
RULE = ('A case sets a local time zone for the process, then dumps a datetime '
        '(naive or aware with fixed, changing, odd or sub-minute offsets, '
        'with a preference for the ends of the calendar and changes of summer '
        'time) at some place and judges the text by an independent RFC3339 '
        'parser; or loads a generated timestamp. Dates and times likewise. '
        'Distinct are the pairs of local zone and text.')
QUICK_N = 16000
THOROUGH_N = 3000000
NEED = {'dumps': 4000, 'naive': 500, 'at_transition': 300, 'stripped': 500,
        'timestamps': 1500, 'odd_zones': 200, 'sub_minute': 200, 'dates': 200,
        'times': 200, 'local_zones': 8000,
        'subclasses': 200}
ASSUMPTIONS = ['A naive datetime that does not exist in local time (the gap '
               'when summer time starts) denotes no moment and is not '
               'generated. tz-aware times are not claimed.']
UTC = dt.timezone.utc
# POSIX notations (independent of installed zone files) and the same rules.
LOCAL = {
    'UTC0': 'UTC', 'CET-1CEST,M3.5.0,M10.5.0/3': 'Europe/Amsterdam',
    'EST5EDT,M3.2.0,M11.1.0': 'America/New_York',
    'IST-5:30': 'Asia/Kolkata', '<+0545>-5:45': 'Asia/Kathmandu',
    'NST3:30NDT,M3.2.0,M11.1.0': None,
    '<+1030>-10:30<+11>-11,M10.1.0,M4.1.0': 'Australia/Lord_Howe',
    'GMT0BST,M3.5.0/1,M10.5.0': 'Europe/London', 'XXX12': None, 'YYY-14': None,
    'UTC-3': None, 'ZZZ0:30': None,
}
FIXED = {'XXX12': -12 * 60, 'YYY-14': 14 * 60, 'UTC-3': 180, 'ZZZ0:30': -30}


class NoZone(dt.tzinfo):
    """Without any offset."""

    def utcoffset(self, when):
        return None

    dst = tzname = utcoffset

    def __deepcopy__(self, memo):
        return self


class OddZone(dt.tzinfo):
    """Like the zones of other libraries: no offset without a datetime, or the
    standard one."""

    def __init__(self, name, summer, winter, standard):
        self.name = name
        self.summer, self.winter = summer, winter
        self.standard = standard

    def utcoffset(self, when):
        if when is None:
            return self.standard and dt.timedelta(minutes=self.winter)
        return dt.timedelta(minutes=self.summer if 4 <= when.month <= 9
                            else self.winter)

    def dst(self, when):
        return dt.timedelta(0)

    def tzname(self, when):
        return self.name

    def __deepcopy__(self, memo):
        return self


class StrictZone(OddZone):
    """Like the examples in the documentation of datetime: there must be a
    datetime."""

    def utcoffset(self, when):
        return OddZone.utcoffset(self, when.replace(year=2000))

    def dst(self, when):
        return dt.timedelta(hours=when.hour and 0)

    def tzname(self, when):
        return when.year and self.name


def set_local(ctx, rng):
    keep = os.environ.get('TZ')
    name = rng.choice(list(LOCAL))
    os.environ['TZ'] = name
    time.tzset()
    ctx.ev('local_zones')

    def restore():
        if keep is None:
            os.environ.pop('TZ', None)
        else:
            os.environ['TZ'] = keep
        time.tzset()
    ctx.cleanups.append(restore)
    return name


def local_offset(name, value):
    """The offset of a naive datetime in local time, None if in a gap."""
    if name in FIXED:
        return dt.timedelta(minutes=FIXED[name])
    if name.startswith('NST'):  # Newfoundland as of New York, but 1:30 later.
        off = local_offset('EST5EDT,M3.2.0,M11.1.0', value)
        return None if off is None else off + dt.timedelta(minutes=90)
    zone = ZoneInfo(LOCAL[name])
    aware = value.replace(tzinfo=zone)
    there = aware.astimezone(UTC).astimezone(zone)
    if there.replace(tzinfo=None, fold=0) != value.replace(fold=0):
        return None
    return aware.utcoffset()


_transitions = {}


def transitions(zone):
    """Moments (UTC) at which the offset of a zone changes, 2008-2030."""
    if zone not in _transitions:
        tz = ZoneInfo(zone)
        found = []
        day = dt.datetime(2008, 1, 1, tzinfo=UTC)
        last = day.astimezone(tz).utcoffset()
        for _ in range(365 * 22):
            after = day + dt.timedelta(days=1)
            now = after.astimezone(tz).utcoffset()
            if now != last:
                lo, hi = day, after
                while hi - lo > dt.timedelta(minutes=1):
                    mid = lo + (hi - lo) / 2
                    if mid.astimezone(tz).utcoffset() == last:
                        lo = mid
                    else:
                        hi = mid
                found.append(hi.replace(second=0, microsecond=0))
            day, last = after, now
        _transitions[zone] = found
    return _transitions[zone]


def near_transition(ctx, rng, zone):
    moments = transitions(zone)
    if not moments:
        return None
    ctx.ev('at_transition')
    moment = rng.choice(moments) + dt.timedelta(
        seconds=rng.choice([-7200, -3600, -1, 0, 1, 1800, 3599, 3600, -1800,
                            rng.randint(-8000, 8000)]))
    return moment.replace(microsecond=rng.choice([0, 1, 999999]))


def rand_aware(ctx, rng):
    kind = rng.random()
    if kind < .25:
        zone = rng.choice(gen.ZONES)
        moment = near_transition(ctx, rng, zone)
        if moment:
            local = moment.astimezone(ZoneInfo(zone))
            if rng.random() < .3:  # Any wall time there, maybe in a gap.
                local = (local.replace(tzinfo=None) + dt.timedelta(
                    minutes=rng.randint(-90, 90))).replace(
                        tzinfo=ZoneInfo(zone), fold=rng.randint(0, 1))
            return local
    if kind < .4:
        ctx.ev('odd_zones')
        return gen.rand_datetime(rng, rng.choice([OddZone, StrictZone])(
            rng.choice(['UTC', 'UTC+00:00', 'X', 'CET', '', None, 'Z']),
            rng.choice([0, 60, -30, 330, -570, 720]),
            rng.choice([0, 0, 60, -90, 345]), rng.choice([None, True])))
    if kind < .55:
        ctx.ev('sub_minute')
        return gen.rand_datetime(rng, rng.choice([
            dt.timezone(dt.timedelta(seconds=rng.randint(-86399, 86399))),
            dt.timezone(dt.timedelta(seconds=rng.choice([1, -1, 59, 4772]))),
            dt.timezone(dt.timedelta(microseconds=rng.choice(
                [1, -1, 1500000])))]), (2, 9998))
    return gen.rand_datetime(rng)


def case(ctx, rng, i):
    jsons = util.jsons_()
    name = set_local(ctx, rng)
    x = rng.random()
    if x < .25:
        return timestamps(ctx, rng, jsons, name)
    if x < .3:
        return dates_and_times(ctx, rng, jsons)
    if x < .42:
        value = gen.rand_datetime(rng, None, (2008, 2030))
        zone = LOCAL[name]
        moment = zone and rng.random() < .6 and near_transition(ctx, rng, zone)
        if moment:
            value = moment.astimezone(ZoneInfo(zone)).replace(tzinfo=None)
            # astimezone has set the fold as it is.
        offset = local_offset(name, value)
        if offset is None:
            return
        ctx.ev('naive')
        if rng.random() < .1:
            # It is naive if its timezone tells no offset.
            ctx.ev('no_offset')
            value = value.replace(tzinfo=NoZone())
    else:
        value = rand_aware(ctx, rng)
        offset = value.utcoffset()
    want = gen.instant(value.replace(tzinfo=None)) - offset
    if rng.random() < .1:
        ctx.ev('subclasses')
        value = Moment.combine(value.date(), value.timetz()).replace(
            fold=value.fold)
    options = {}
    if rng.random() < .3:
        options['strip_microseconds'] = rng.random() < .7
    strip = options.get('strip_microseconds')
    where = lambda: '%r with %s, local zone %s' % (value, options, name)
    text = place_and_dump(ctx, rng, jsons, value, options)
    ctx.ev('dumps')
    ctx.distinct(name, text)
    got = gen.parse_rfc3339(text) if isinstance(text, str) else None
    ctx.check(got is not None, 'rfc3339',
              lambda: '%r is no RFC3339; %s' % (text, where()))
    if strip:
        ctx.ev('stripped')
        ctx.check('.' not in text, 'strip', lambda: '%r; %s' % (text, where()))
        got = got.replace(microsecond=value.microsecond)
        if offset % dt.timedelta(seconds=1):
            return
    ctx.check(gen.instant(got) == want, 'moment',
              lambda: '%r is another moment; %s' % (text, where()))
    if not offset % dt.timedelta(minutes=1):
        ctx.check(got.utcoffset() == offset, 'offset',
                  lambda: '%r has another offset; %s' % (text, where()))
    loaded = jsons.load(text, rng.choice([dt.datetime, None]))
    ctx.check(type(loaded) is dt.datetime and loaded.tzinfo is not None
              and gen.instant(loaded) == gen.instant(gen.parse_rfc3339(text)),
              'load', lambda: '%r of %r; %s' % (loaded, text, where()))
    ctx.sample('%s: %s' % (name, text))


def place_and_dump(ctx, rng, jsons, value, options):
    x = rng.random()
    if x < .5:
        return jsons.dump(value, **options)
    if x < .6:
        return jsons.dump(value, dt.datetime, strict=True, **options)
    if x < .7:
        return jsons.dump([value], **options)[0]
    if x < .8:
        return jsons.dump({'k': (value,)}, **options)['k'][0]
    if x < .9:
        dumped = jsons.dump({value: 1}, **options)
        return list(dumped)[0]
    return jsons.dump(Holder(value), **options)['when']


class Moment(dt.datetime):
    """Like the datetimes of other libraries."""


class Day(dt.date):
    pass


class Clock(dt.time):
    pass


class Holder:
    def __init__(self, when: dt.datetime):
        self.when = when


def timestamps(ctx, rng, jsons, name):
    """Load RFC3339 timestamps of any writing."""
    ctx.ev('timestamps')
    when = gen.rand_datetime(rng, None)
    text = '%04d-%02d-%02dT%02d:%02d:%02d' % (
        when.year, when.month, when.day, when.hour, when.minute, when.second)
    micro = 0
    if rng.random() < .6:
        digits = ''.join(rng.choice('0123456789')
                         for _ in range(rng.choice([1, 2, 3, 5, 6, 6, 7, 9,
                                                    12])))
        micro = int((digits + '000000')[:6])
        text += '.' + digits
    if rng.random() < .35:
        text += 'Z'
        offset = 0
    else:
        sign = rng.choice([1, -1])
        hours = rng.choice([0, 0, 1, 5, 12, 14, 23, rng.randint(0, 23)])
        minutes = rng.choice([0, 0, 30, 45, 59, rng.randint(0, 59)])
        offset = sign * (hours * 60 + minutes)
        text += '%s%02d:%02d' % ('+' if sign > 0 else '-', hours, minutes)
    want = when.replace(microsecond=micro)
    cls = rng.choice([dt.datetime, dt.datetime, None])
    loaded = jsons.load(text, cls)
    where = lambda: '%r loads as %r (local zone %s)' % (text, loaded, name)
    ctx.distinct(name, text)
    ctx.check(type(loaded) is dt.datetime and loaded.tzinfo is not None,
              'load-type', where)
    ctx.check(loaded.replace(tzinfo=None) == want, 'load-fields', where)
    ctx.check(loaded.utcoffset() == dt.timedelta(minutes=offset),
              'load-offset', where)
    again = gen.parse_rfc3339(jsons.dump(loaded))
    ctx.check(again is not None and gen.instant(again) == gen.instant(loaded)
              and again.utcoffset() == loaded.utcoffset(), 'dump-again',
              lambda: '%s, dumped %s' % (where(), again))


def dates_and_times(ctx, rng, jsons):
    value = gen.rand_datetime(rng, None)
    options = {'strip_microseconds': True} if rng.random() < .2 else {}
    for part, cls, what in ((value.date(), dt.date, 'dates'),
                            (value.time(), dt.time, 'times')):
        ctx.ev(what)
        if rng.random() < .1:
            part = Day.fromordinal(part.toordinal()) if cls is dt.date \
                else Clock.fromisoformat(part.isoformat())
        text = jsons.dump(part, **({} if cls is dt.time else options))
        ctx.check(text == part.isoformat(), what,
                  lambda: '%r dumps as %r' % (part, text))
        loaded = jsons.load(text, cls)
        ctx.check(type(loaded) is cls and loaded == part, what,
                  lambda: '%r loads as %r' % (text, loaded))
