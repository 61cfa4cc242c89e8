from hlib import *

KINDS = ('integer', 'float', 'decimal', 'date', 'time', 'datetime')
BOUNDS = ('min', 'max', 'both', 'equal')


def limit(S, kind, name, small=False):
    if kind == 'float':
        return S.float(name, special=False)
    if kind == 'decimal':
        form = S.choice(name + '.form', ['int', 'frac', 'zero'])
        if form == 'zero':
            return decimal_module.Decimal(0)
        text = S.choice(name + '.sign', ['', '-']) + S.text(name + '.digits', 1 if small else 2, 1, DIGITS)
        if form == 'frac':
            text = text + '.' + S.text(name + '.frac', 1, 1, DIGITS)
        return decimal_module.Decimal(text)
    if kind == 'date':
        return gen_date(S, name)
    if kind == 'time':
        return gen_time(S, name)
    if kind == 'datetime':
        return gen_datetime(S, name, UTC)
    return S.int(name)


def decide(S, field, kind, v, lo, hi, call, label):
    """call(value) is accepted exactly when v is within [lo, hi]."""
    out = call()
    nan = v.is_nan() if kind == 'decimal' else v != v
    below = nan if lo is not None else False
    above = nan if hi is not None else False
    if not nan:
        below = lo is not None and v < lo
        above = hi is not None and v > hi
    if not below and not above:
        S.cover('accepted')
        S.check(out.ok, label + 'a value inside the limits is accepted')
        return out
    S.cover('rejected')
    S.check(out.error, label + 'a value outside the limits is a structural error')
    S.check(isinstance(out.value, ValidationError), label + 'the error is a validation error')
    S.check(len(out.value.errors) == 1, label + 'one error is reported')
    if below and above:
        S.check(out.token in ('minimum', 'maximum'), label + 'the error names a violated limit')
    else:
        S.check(out.token == ('minimum' if below else 'maximum'),
            label + 'the error names the violated limit')
    return None


@harness('C03', variants=[(k, b) for k in KINDS for b in BOUNDS],
    covers=['accepted', 'rejected'], quick=12000)
def ranges(S, variant):
    """any integer, float (nan and infinities included), date, time and UTC datetime, decimals of
    <= 2 digits (1 when there are two limits) and <= 1 decimal; any limits; both directions, native and serialized"""
    kind, bounds = variant
    small = bounds == 'both'
    lo = limit(S, kind, 'lo', small) if bounds in ('min', 'both', 'equal') else None
    hi = limit(S, kind, 'hi', small) if bounds in ('max', 'both') else None
    if bounds == 'equal':
        hi = lo
    if kind == 'decimal':
        v = limit(S, kind, 'v', small) if S.bool('finite') else decimal_module.Decimal(
            S.choice('special', ['NaN', 'sNaN', '-NaN', 'Infinity', '-Infinity', '-0']))
    elif kind == 'float':
        v = S.float('v')
    else:
        v = limit(S, kind, 'v')
    form = S.choice('form', ['inbound', 'outbound', 'unserialize', 'serialize'])
    field = build(kind, minimum=lo, maximum=hi)
    if form == 'inbound':
        out = decide(S, field, kind, v, lo, hi, lambda: attempt(field.process, v, INBOUND), '')
        expected = v
    elif form == 'outbound':
        out = decide(S, field, kind, v, lo, hi, lambda: attempt(field.process, v, OUTBOUND), '')
        expected = v
    elif form == 'unserialize':
        text = wire(kind, v)
        out = decide(S, field, kind, v, lo, hi, lambda: attempt(field.unserialize, text), '')
        expected = v
    else:
        out = decide(S, field, kind, v, lo, hi, lambda: attempt(field.serialize, v), '')
        expected = wire(kind, v)
    if out is not None:
        S.same(out.value, expected, 'a value inside is passed on unchanged')


@harness('C03', variants=[(k, b) for k in ('time', 'datetime', 'aware') for b in ('min', 'max', 'both')],
    covers=['accepted', 'rejected'], quick=12000)
def microseconds(S, variant):
    """times and datetimes with any minute, second and microsecond, and such limits; nine datetimes in zones 90 minutes either
    side of UTC against any such limits in UTC"""
    kind, bounds = variant
    def instant(name, zone):
        if zone:
            m, s, us = S.choice(name + '.ms', [(0, 0, 0), (29, 59, 999999), (30, 0, 1)])
        else:
            us = S.int(name + '.us', 0, 999999)
            m, s = S.int(name + '.m', 0, 59), S.int(name + '.s', 0, 59)
        if kind == 'time':
            return time(12, m, s, us)
        day, hour = S.choice(name + '.at', [(1, 11), (1, 12), (2, 0)])
        value = datetime(2000, 1, day, hour, m, s, us, UTC)
        return value
    lo = instant('lo', False) if bounds in ('min', 'both') else None
    hi = instant('hi', False) if bounds in ('max', 'both') else None
    v = instant('v', kind == 'aware')
    field = build('time' if kind == 'time' else 'datetime', minimum=lo, maximum=hi)
    given = v
    offset = S.choice('zone', [0, 90, -90]) if kind == 'aware' else 0
    if offset:
        given = v.astimezone(FixedOffsetTimezone(offset))
    out = decide(S, field, kind, v, lo, hi, lambda: attempt(field.process, given,
        S.choice('phase', [INBOUND, OUTBOUND]), False), '')
    if out is not None:
        S.check(out.value == v, 'a value inside is passed on unchanged')


@harness('C03', variants=['decimal', 'date', 'time', 'datetime'],
    covers=['accepted', 'rejected'], quick=12000)
def limits_as_text(S, kind):
    """limits given in text form mean the same as native limits; values and limits as above"""
    lo = limit(S, kind, 'lo')
    hi = None
    v = limit(S, kind, 'v')
    if S.bool('maximum'):
        lo, hi = None, lo
    field = build(kind, minimum=wire(kind, lo), maximum=wire(kind, hi))
    out = decide(S, field, kind, v, lo, hi, lambda: attempt(field.process, v, INBOUND), '')
    if out is not None:
        S.same(out.value, v, 'a value inside is passed on unchanged')


@harness('C03', variants=['structure', 'map', 'sequence', 'tuple', 'union', 'mapkey'],
    covers=['accepted', 'rejected'])
def nested(S, place):
    """limits hold for members of structures, maps, sequences, tuples and unions alike (integers)"""
    lo, hi, v = S.int('lo'), S.int('hi'), S.int('v')
    member = Integer(minimum=lo, maximum=hi)
    if place == 'structure':
        field, value = Structure({'a': member, 'b': Text()}), {'a': v, 'b': 'x'}
    elif place == 'map':
        field, value = Map(member), {'a': v}
    elif place == 'mapkey':
        field, value = Map(Text(), key=member), {v: 'x'}
    elif place == 'sequence':
        field, value = Sequence(member), [v]
    elif place == 'tuple':
        field, value = Tuple([Text(), member]), ('x', v)
    else:
        field, value = Union([member, Text()]), v
    phase = S.choice('phase', [INBOUND, OUTBOUND])
    out = attempt(field.process, value, phase, S.bool('serialized'))
    if lo <= v and v <= hi:
        S.cover('accepted')
        S.check(out.ok, 'a member inside the limits is accepted')
        S.same(out.value, value, 'the value is passed on unchanged')
    else:
        S.cover('rejected')
        S.check(out.error, 'a member outside the limits is a structural error')
