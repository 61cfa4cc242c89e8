from hlib import *
import time as clock_module
from scheme.timezone import current_timestamp

# days around which carrying matters
DAYS = [(2000, 2, 28), (2000, 3, 1), (1999, 12, 31), (2001, 1, 1), (2001, 2, 28), (1900, 3, 1), (2, 1, 1), (9998, 12, 31),
    (2024, 6, 30), (999, 12, 31), (1970, 1, 1)]


def padded(n, width):
    text = str(n)
    return '0' * (width - len(text)) + text


def settled(day, minutes):
    """Carries minutes (within two days either way) into the day."""
    while minutes < 0:
        day, minutes = day - 1, minutes + 1440
    while minutes >= 1440:
        day, minutes = day + 1, minutes - 1440
    return day, minutes


def written(day, minutes, second):
    """The wire form of a moment: minutes and a second past the beginning of a day."""
    day, minutes = settled(day, minutes)
    d = date.fromordinal(day)
    return '%s-%s-%sT%s:%s:%sZ' % (padded(d.year, 4), padded(d.month, 2), padded(d.day, 2), padded(minutes // 60, 2),
        padded(minutes % 60, 2), padded(second, 2))


class Moment(object):
    def __init__(self, isdst, offset, zone):
        self.tm_isdst = isdst
        self.tm_gmtoff = offset * 60
        self.tm_zone = zone

    def __getitem__(self, i):
        if i in (8, -1):
            return self.tm_isdst
        raise ValueError(i)


def clock(standard, daylight):
    """Stands in for the time module: daylight saving from April to September, offsets in minutes."""
    m = type(clock_module)('time')
    m.__dict__.update((k, v) for k, v in clock_module.__dict__.items() if not k.startswith('__'))
    m.timezone = -standard * 60
    m.altzone = -daylight * 60
    m.daylight = 0 if daylight == standard else 1
    m.tzname = ('STD', 'DST')

    def mktime(parts):
        assert len(parts) == 9 and parts[8] == -1
        return parts

    def localtime(parts):
        summer = m.daylight != 0 and 4 <= parts[1] <= 9
        return Moment(1 if summer else 0, daylight if summer else standard, m.tzname[summer])
    m.mktime = mktime
    m.localtime = localtime
    return m


class Zone(object):
    """Runs with a local zone of the given offsets in minutes: LOCAL is made to be that of another instance of its module, which
    finds another time module."""

    made = {}

    def __init__(self, standard, daylight):
        if (standard, daylight) not in self.made:
            self.made[standard, daylight] = fresh('scheme.timezone', time=clock(standard, daylight)).LOCAL
        self.other = self.made[standard, daylight]

    def __enter__(self):
        self.saved = (LOCAL.__class__, dict(LOCAL.__dict__))
        LOCAL.__class__ = self.other.__class__
        LOCAL.__dict__.update(self.other.__dict__)

    def __exit__(self, *details):
        LOCAL.__class__ = self.saved[0]
        LOCAL.__dict__.clear()
        LOCAL.__dict__.update(self.saved[1])


def check_value(S, got, tz, day, minutes, second, micro):
    S.check(got.ok, 'any datetime of those years is accepted')
    value = got.value
    S.check(value.tzinfo is tz, 'it is moved to the zone of the field')
    S.check(value.second == second and value.microsecond == micro, 'seconds and their fractions are kept')
    offset = tz.utcoffset(value)
    S.check(settled(value.toordinal(), value.hour * 60 + value.minute - offset.days * 1440 - offset.seconds // 60)
        == settled(day, minutes), 'it keeps its instant')


@harness('C26', variants=list(range(len(DAYS))), covers=['converted'], quick=20000)
def instants(S, which):
    """any time of day (to the microsecond) on eleven days around month, year and calendar limits, in a zone of any
    whole-minute offset between -23:59 and 23:59 (two also under the name of another zone), naive, or in UTC; native and to the wire, by a UTC field alone or in a
    nested schema"""
    y, m, d = DAYS[which]
    h, mi, s = S.hms('t')
    micro = S.int('micro', 0, 999999)
    offset = 0
    zone = S.choice('zone', ['fixed', 'naive', 'utc', 'named'])
    if zone in ('fixed', 'named'):
        offset = S.int('offset', -1439, 1439) if zone == 'fixed' else S.choice('offset of the named', [330, -719])
    tz = {'fixed': FixedOffsetTimezone(offset), 'named': FixedOffsetTimezone(offset, 'UTC'), 'naive': None, 'utc': UTC}[zone]
    value = datetime(y, m, d, h, mi, s, micro, tz)
    field = DateTime(utc=True)
    day, minutes = date(y, m, d).toordinal(), h * 60 + mi - offset
    for phase in (INBOUND, OUTBOUND):
        check_value(S, attempt(field.process, value, phase), UTC, day, minutes, s, micro)
    S.cover('converted')
    nested = Structure({'a': Sequence(Map(field))})
    wired = attempt(nested.serialize, {'a': [{'k': value}]})
    S.check(wired.ok, 'it can be serialized')
    S.same(wired.value, {'a': [{'k': written(day, minutes, s)}]}, 'to the UTC clock of its instant')


@harness('C26', variants=list(range(len(DAYS))), covers=['read'], quick=20000)
def reading(S, which):
    """the wire form of any second of those days, by a UTC field and by one in a local zone (five pairs of offsets)"""
    y, m, d = DAYS[which]
    h, mi, s = S.hms('t')
    day, minutes = date(y, m, d).toordinal(), h * 60 + mi
    text = '%s-%s-%sT%s:%s:%sZ' % (padded(y, 4), padded(m, 2), padded(d, 2), padded(h, 2), padded(mi, 2), padded(s, 2))
    if S.bool('utc'):
        check_value(S, attempt(DateTime(utc=True).unserialize, text), UTC, day, minutes, s, 0)
    else:
        standard, daylight = S.choice('offsets', [(-300, -240), (330, 330), (0, 60), (-210, -150), (720, 780)])
        with Zone(standard, daylight):
            check_value(S, attempt(DateTime().unserialize, text), LOCAL, day, minutes, s, 0)
    S.cover('read')


ZONES = [(-300, 60), (330, 0), (765, 60), (-210, 60), (0, 0), (630, 30), (-720, 0), (840, 0)]
WINTER_SUMMER = [(2000, 1, 1), (2004, 2, 29), (2001, 7, 1), (1999, 12, 31), (1969, 6, 15), (1200, 7, 31)]


@harness('C26', variants=lambda tier: list(range(len(WINTER_SUMMER)))[:4 if tier == 'quick' else None], covers=['converted'], quick=20000)
def local(S, which):
    """any second of four (six) days in winter and summer, naive or in any whole-minute offset, by a field in four (eight) local
    zones of offsets -12:00 to +14:00 with 0, 30 or 60 minutes of daylight saving (time.mktime and localtime are stood in for by
    daylight saving from April to September)"""
    y, m, d = WINTER_SUMMER[which]
    h, mi, s = S.hms('t')
    standard, saving = S.choice('local zone', ZONES[:S.b(4, 8)])
    daylight = standard + saving
    actual = daylight if 4 <= m <= 9 else standard
    zone = S.choice('zone', ['fixed', 'naive', 'local', 'utc', 'named'])
    offset = {'fixed': 0, 'naive': actual, 'local': actual, 'utc': 0, 'named': 0}[zone]
    if zone in ('fixed', 'named'):
        offset = S.int('offset', -1439, 1439) if zone == 'fixed' else S.choice('offset of the named', [330, -719])
    tz = {'fixed': FixedOffsetTimezone(offset), 'named': FixedOffsetTimezone(offset, 'STD'), 'naive': None, 'local': LOCAL, 'utc': UTC}[zone]
    value = datetime(y, m, d, h, mi, s, 0, tz)
    day, minutes = date(y, m, d).toordinal(), h * 60 + mi - offset
    with Zone(standard, daylight):
        field = DateTime()
        S.check(field.timezone is LOCAL, 'a field is in the local zone unless asked for UTC')
        check_value(S, attempt(field.process, value), LOCAL, day, minutes, s, 0)
        wired = attempt(field.serialize, value)
        S.check(wired.ok, 'it can be serialized')
        S.same(wired.value, written(day, minutes, s), 'to the UTC clock of its instant')
        S.check(LOCAL.utcoffset(value) == timedelta(minutes=actual), 'the local zone reports its offset')
        S.check(LOCAL.dst(value) == timedelta(minutes=actual - standard), 'and its daylight saving')
        S.check(LOCAL.tzname(value) == ('DST' if saving and 4 <= m <= 9 else 'STD'), 'and its name')
    S.cover('converted')


@harness('C26', covers=['limits'], variants=['min', 'max'], quick=20000)
def limits(S, which):
    """limits and values of any time of day on two neighbouring days in any whole-minute offset, limits in four"""
    def moment(name, d, offset):
        h, mi, s = S.hms(name)
        return datetime(2000, 2, d, h, mi, s, 0, FixedOffsetTimezone(offset)), d * 1440 + h * 60 + mi - offset, s

    bound, at, past = moment('bound', 28, S.choice('bound offset', [0, 90, -719, 1439]))
    value, minutes, second = moment('value', S.choice('day', [28, 29]), S.int('value offset', -1439, 1439))
    field = DateTime(utc=True, **{'minimum' if which == 'min' else 'maximum': bound})
    got = attempt(field.process, value)
    S.cover('limits')
    inside = (minutes, second) >= (at, past) if which == 'min' else (minutes, second) <= (at, past)
    if inside:
        S.check(got.ok, 'datetimes are compared as instants')
        check_value(S, got, UTC, date(2000, 2, 1).toordinal() - 1, minutes, second, 0)
    else:
        S.check(got.error and got.token == which + 'imum', 'and refused outside the limit')


@harness('C26', covers=['positive', 'negative', 'named'], quick=20000)
def fixed(S):
    """any whole-minute offset between -23:59 and 23:59, with and without a name"""
    offset = S.int('offset', -1439, 1439)
    name = S.text('name', 3, 1, ASCII) if S.bool('has name') else None
    tz = FixedOffsetTimezone(offset, name)
    moment = datetime(2000, 1, 1, 12, 0, 0, 0, tz)
    S.check(tz.utcoffset(moment) == timedelta(minutes=offset), 'the offset')
    S.check(moment.utcoffset() == timedelta(minutes=offset), 'also of a datetime in it')
    S.check(tz.dst(moment) == timedelta(0), 'no daylight saving')
    if name is not None:
        S.cover('named')
        S.check(tz.tzname(moment) == name and moment.tzname() == name, 'the name given')
        S.check(repr(tz) == name, 'which also represents it')
        return
    got = moment.tzname()
    S.cover('negative' if offset < 0 else 'positive')
    absolute = -offset if offset < 0 else offset
    expected = ('-' if offset < 0 else '+') + padded(absolute // 60, 2)
    if absolute % 60:
        expected = expected + ':' + padded(absolute % 60, 2)
    S.check(got == expected, 'without a name, its sign, hours and minutes')


@harness('C26', covers=['now'])
def current(S):
    """the current moment in UTC, the local zone, and any whole-minute offset; anything but a zone means UTC"""
    which = S.choice('zone', ['none', 'utc', 'local', 'fixed', 'text'])
    given = {'none': None, 'utc': UTC, 'local': LOCAL, 'text': 'UTC'}.get(which)
    if which == 'fixed':
        given = FixedOffsetTimezone(S.choice('offset', [-1439, -90, 0, 345]))
    now = current_timestamp(given)
    S.cover('now')
    S.check(now.tzinfo is (UTC if which in ('none', 'text') else given), 'the current moment is in the zone asked for')


@harness('C26', covers=['refused', 'accepted'], variants=['minimum', 'maximum'], quick=20000)
def local_limits(S, which):
    """limits (naive, fixed or as texts) and values of any minute on a winter or summer day, by a field in four (eight) local zones; how a limit is stated in
    messages, descriptions and representations; limits at either end of the calendar"""
    standard, saving = S.choice('local zone', ZONES[:S.b(4, 8)])
    with Zone(standard, standard + saving):
        if S.bool('end'):
            end = datetime(1, 1, 1) if which == 'minimum' else datetime(9999, 12, 31, 23, 59, 59)
            field = DateTime(**{which: end})
            day, minutes = end.toordinal(), end.hour * 60 + end.minute - standard
            outside = minutes < 0 if which == 'minimum' else minutes >= 1440
            stated = ('0001-01-01T00:00:00Z' if which == 'minimum' else '9999-12-31T23:59:59Z') if outside else written(day, minutes, end.second)
            S.check(attempt(field.process, datetime(2000, 1, 1)).ok, 'a value within the limit is accepted')
            S.cover('accepted')
        else:
            month = S.choice('month', [1, 7])
            actual = standard + (saving if month == 7 else 0)
            how = S.choice('limit', ['naive', 'fixed', 'text'])
            h, mi = S.int('h', 0, 23), S.int('mi', 0, 59)
            offset = {'naive': actual, 'fixed': 90, 'text': 0}[how]
            day = date(2000, month, 20).toordinal()
            minutes = h * 60 + mi - offset
            stated = written(day, minutes, 7)
            limit = datetime(2000, month, 20, h, mi, 7, 0, FixedOffsetTimezone(90) if how == 'fixed' else None)
            if how == 'text':
                limit = stated
            field = DateTime(name='n', **{which: limit})
            vh = S.int('vh', 0, 23)
            inside = vh * 60 + 30 - actual >= minutes if which == 'minimum' else vh * 60 + 30 - actual < minutes
            if vh * 60 + 30 - actual == minutes:
                inside = which == 'maximum'
            got = attempt(field.process, datetime(2000, month, 20, vh, 30))
            S.check(got.ok if inside else got.error, 'a limit is compared as an instant')
            S.cover('accepted' if inside else 'refused')
            if not inside:
                S.same(got.value.errors[0]['message'], 'n must not occur %s %s' % ('before' if which == 'minimum' else 'after', stated),
                    'a message states the limit by the UTC clock')
        S.same(field.describe().get(which), stated, 'so does a description')
        S.check(which + '=' + repr(stated) in repr(field), 'and a representation')
        back = Field.reconstruct(field.describe())
        S.check(getattr(back, which).astimezone(UTC) == datetime(int(stated[:4]), int(stated[5:7]), int(stated[8:10]), int(stated[11:13]), int(stated[14:16]),
            int(stated[17:19]), 0, UTC), 'a field made of it has the same limit')


@harness('C26', covers=['written'])
def local_seasons(S):
    """Two (three) datetimes, each early or late in a day of winter or in summer, one after another through the same field in one of four local zones: to the wire, natively and back,
    naive or in the local zone."""
    standard, daylight = S.choice('zone', [(60, 120), (-300, -240), (330, 330), (0, 60)])
    with Zone(standard, daylight):
        field = DateTime()
        for i in range(S.b(2, 3)):
            summer = S.bool('summer %d' % i)
            h = S.choice('h %d' % i, [1, 21])
            day = date(2024, 7 if summer else 1, 15)
            value = datetime(2024, day.month, 15, h, 30, 7, 0, LOCAL if S.bool('local %d' % i) else None)
            offset = daylight if summer else standard
            form = written(day.toordinal(), h * 60 + 30 - offset, 7)
            S.cover('written')
            mode = S.choice('mode %d' % i, ['write', 'read', 'process'])
            if mode == 'write':
                S.same(attempt(field.serialize, value).value, form, 'written by the offset of its own season')
            elif mode == 'read':
                got = attempt(field.unserialize, form)
                S.check(got.ok and got.value.tzinfo is LOCAL and (got.value.month, got.value.day, got.value.hour, got.value.minute) == (day.month, 15, h, 30),
                    'read by the offset of its own season')
            else:
                got = attempt(field.process, datetime(2024, day.month, 15, 12, 0, 0, 0, UTC))
                at = settled(day.toordinal(), 720 + offset)
                S.check(got.ok and (got.value.toordinal(), got.value.hour * 60 + got.value.minute) == at, 'converted by the offset of its own season')
