from hlib import *


def roundtrip(S, kind, field, value, expected):
    """Every direction of one value: native processing, to the wire, and back."""
    for phase in (INBOUND, OUTBOUND):
        out = attempt(field.process, value, phase)
        S.check(out.ok, 'a valid native value is accepted')
        S.same(out.value, value, 'a valid native value is returned unchanged')
    out = attempt(field.serialize, value)
    S.check(out.ok, 'a valid value can be serialized')
    form = out.value
    S.check(is_native(form) or kind == 'binary' and isinstance(form, bytes),
        'the serialized form is plain data')
    S.observe('wire', form)
    S.same(form, expected, 'the serialized form is the value\'s wire format')
    back = attempt(field.unserialize, form)
    S.check(back.ok, 'the serialized form is accepted on the way in')
    S.cover('roundtrip')
    S.same(back.value, value, 'unserialize(serialize(v)) == v')
    again = attempt(field.serialize, back.value)
    S.check(again.ok, 'the value read back can be serialized again')
    S.same(again.value, form, 'serializing the value read back gives the same form')


@harness('C01', variants=[k for k in SCALARS if k != 'decimal'], covers=['roundtrip'])
def scalar(S, kind):
    """every value of the type; texts <= 4 (8 thorough) characters of 128 ASCII + 9 others, bytes
    likewise, tokens <= 4 (6) characters, e-mail addresses with parts of 1-3 letters"""
    value = gen_scalar(S, kind, 'v', S.b(4, 8) if kind != 'token' else S.b(4, 6))
    roundtrip(S, kind, build(kind), value, wire(kind, value))


@harness('C01', covers=['roundtrip'])
def decimal(S):
    """<= 3 (5 thorough) digits before and after the point, exponent of one digit; specials"""
    v = gen_decimal(S, 'v', S.b(3, 5))
    roundtrip(S, 'decimal', Decimal(), v, str(v))


@harness('C01', variants=['naive', 'local', 'utc'], covers=['roundtrip'])
def datetime_zone(S, zone):
    """any datetime of years 2-9998, naive or in the local zone or UTC, fields in UTC or the local
    zone (which is UTC here): the value read back is the same instant; other offsets are C26's"""
    field = DateTime(utc=S.bool('utc'))
    tz = {'naive': None, 'local': LOCAL, 'utc': UTC}[zone]
    v = gen_datetime(S, 'v', tz, 2, 9998)
    form = attempt(field.serialize, v)
    S.check(form.ok, 'any datetime can be serialized')
    back = attempt(field.unserialize, form.value)
    S.check(back.ok, 'the serialized form is accepted on the way in')
    S.cover('roundtrip')
    S.check(back.value.tzinfo is field.timezone, 'a datetime read back is in the field\'s zone')
    w = v if tz is not None else v.replace(tzinfo=field.timezone)
    S.check(back.value == w, 'the datetime read back denotes the same instant')
