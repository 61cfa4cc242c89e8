from hlib import *

ACCEPTING = ('integer', 'float', 'decimal', 'text', 'boolean', 'binary', 'date', 'time', 'datetime')


def refused(S, out, label):
    S.cover('refused')
    S.check(out.error, label + ' is refused with a structural error')
    S.check(isinstance(out.value, InvalidTypeError), label + ' is refused for its type')
    S.check(out.token == 'invalid', label + ' is reported as an invalid value')


@harness('C06', variants=FIELDS, covers=['refused'])
def native(S, kind):
    """every kind of plain value (texts and byte strings <= 2, containers <= 2 elements) given
    natively to every field type, in both directions, with limits or without"""
    bounds = {}
    if kind in ('integer', 'float', 'date', 'time', 'datetime') and S.bool('limited'):
        bounds = {'minimum': {'integer': 0, 'float': 0.0, 'date': date(2000, 1, 1),
            'time': time(1, 2, 3), 'datetime': datetime(2000, 1, 1, tzinfo=UTC)}[kind]}
    field = field_of(kind, **bounds)
    vk, v = gen_plain(S, 'v')
    S.assume(vk != 'null')
    if kind == 'enumeration':
        S.assume(v not in ENUMERATION)
    call = S.choice('call', [(INBOUND, False), (OUTBOUND, False), (OUTBOUND, True)])
    out = attempt(field.process, v, *call)
    if vk not in OWN[kind]:
        refused(S, out, 'a native %s given to %s' % (vk, kind))
    elif kind in ACCEPTING and not bounds:
        S.check(out.ok, 'a native %s given to %s is accepted' % (vk, kind))
        if not call[1] and vk != 'datetime' and kind != 'text':
            S.same(out.value, v, 'and returned as it is')


NUMERIC = ('integer', 'float', 'decimal')


@harness('C06', variants=FIELDS, covers=['refused'])
def wire(S, kind):
    """every kind of plain value other than text (byte strings <= 2, containers <= 2 elements) given
    as inbound serialized data to every field type"""
    field = field_of(kind)
    vk, v = gen_plain(S, 'v', [k for k in PLAIN if k not in ('null', 'text')])
    if kind == 'enumeration':
        S.assume(v not in ENUMERATION)
    if kind in NUMERIC:
        S.assume(vk not in ('integer', 'float', 'decimal', 'bytes'))
    if kind == 'error':
        S.assume(vk not in ('list', 'tuple'))
    if kind == 'definition':
        out = attempt(field.process, v, INBOUND, True)
        S.cover('refused')
        S.check(out.error and out.token == 'invalid', 'a serialized %s is no definition' % vk)
        return
    out = attempt(field.process, v, INBOUND, True)
    if vk not in OWN[kind]:
        refused(S, out, 'a serialized %s given to %s' % (vk, kind))
    else:
        S.check(kind == 'binary' or not (out.error and out.token == 'invalid'
            and isinstance(out.value, InvalidTypeError)),
            'a serialized %s given to %s is not refused for its type' % (vk, kind))


@harness('C06', variants=['text', 'boolean', 'structure', 'map', 'sequence', 'tuple', 'date',
    'time', 'datetime', 'binary'], covers=['refused'])
def wire_text(S, kind):
    """any text <= 2 given as inbound serialized data to the fields whose wire form it cannot be"""
    field = field_of(kind)
    v = S.text('v', 2, 0, WIDE)
    out = attempt(field.process, v, INBOUND, True)
    if kind == 'text':
        S.cover('refused')
        S.same(out.value, v, 'text is its own wire form')
    else:
        refused(S, out, 'a short text given to %s' % kind)


def spaced(v):
    return v.strip()


def digits_of(v):
    """The digits of a Python numeral part, or None: digits, single underscores between them."""
    out = ''
    for i in range(len(v)):
        c = v[i]
        if c == '_':
            if i == 0 or i == len(v) - 1 or v[i - 1] == '_':
                return None
        elif c in '0123456789':
            out += c
        else:
            return None
    return out or None


def integer_of(v):
    """The whole number a text spells, or None."""
    v = spaced(v)
    sign = 1
    if v[:1] in ('+', '-'):
        sign = -1 if v[0] == '-' else 1
        v = v[1:]
    ds = digits_of(v)
    if ds is None:
        return None
    n = 0
    for c in ds:
        n = n * 10 + ord(c) - 48
    return sign * n


@harness('C06', variants=['any', 'numeral'], covers=['accepted', 'refused'], quick=8000)
def integer_text(S, shape):
    """any text <= 3 over all ASCII and non-breaking space, letters with accents and so on; numerals
    <= 6 over digits, sign, underscore, space, point (blanks after a sign aside, which Python implementations treat differently)"""
    if shape == 'any':
        v = S.text('v', S.b(2, 3), 0, WIDE - frozenset([0x660]))
    else:
        v = S.text('v', S.b(4, 6), 3, '0159_-+ .')
    lead = spaced(v)
    S.assume(not (lead[:1] in ('+', '-') and lead[1:2].isspace()))   # (up to the interpreter)
    field = Integer()
    out = attempt(field.process, v, INBOUND, True)
    n = integer_of(v)
    if n is None:
        refused(S, out, 'a text that spells no integer')
    else:
        S.cover('accepted')
        S.check(out.ok, 'a spelled integer is accepted')
        S.same(out.value, n, 'it denotes the integer it spells')


def decimal_of(v):
    """(sign, coefficient, exponent) of a finite numeral, 'special', or None."""
    v = spaced(v)
    sign = 0
    if v[:1] in ('+', '-'):
        sign = 1 if v[0] == '-' else 0
        v = v[1:]
    low = v.lower()
    if low in ('inf', 'infinity', 'nan', 'snan'):
        return 'special'
    if low[:3] == 'nan' and digits_of(low[3:]) is not None:
        return 'special'
    if low[:4] == 'snan' and digits_of(low[4:]) is not None:
        return 'special'
    exp = 0
    for i in range(len(v)):
        if v[i] in 'eE':
            exp = integer_of('.' if v[i + 1:] != v[i + 1:].strip() else v[i + 1:])
            if exp is None:
                return None
            v = v[:i]
            break
    whole, point, frac = v.partition('.')
    if not whole and not frac:
        return None
    for part in (whole, frac):
        if part and digits_of(part) is None:
            return None
    ds = digits_of((whole + frac))
    n = 0
    for c in ds:
        n = n * 10 + ord(c) - 48
    return sign, n, exp - len(frac)


@harness('C06', variants=['any', 'numeral'], covers=['accepted', 'refused'], quick=8000)
def decimal_text(S, shape):
    """any text <= 2 (of 136 characters); numerals <= 5 over digits, sign, exponent, point, space"""
    if shape == 'any':
        v = S.text('v', 2, 0, WIDE - frozenset([0x660, 95]))
    else:
        v = S.text('v', S.b(4, 5), 3, '05-+.eE n')
    field = Decimal()
    out = attempt(field.process, v, INBOUND, True)
    n = decimal_of(v)
    if n is None:
        refused(S, out, 'a text that spells no decimal')
    else:
        S.cover('accepted')
        S.check(out.ok, 'a spelled decimal is accepted')
        if n != 'special':
            sign, ds, exp = out.value.as_tuple()
            m = 0
            for d in ds:
                m = m * 10 + d
            S.check(sign == n[0] and m == n[1] and exp == n[2],
                'it denotes the decimal it spells')


@harness('C06', variants=['any', 'numeral'], covers=['accepted', 'refused'], quick=8000)
def float_text(S, shape):
    """any text <= 2 (of 136 characters); numerals <= 4 over digits, sign, exponent, point, space;
    accepted numerals give exactly the float Python reads (compared on the real code)"""
    if shape == 'any':
        v = S.text('v', 2, 0, WIDE - frozenset([0x660, 95]))
    else:
        v = S.text('v', 4, 3, '05-+.eE n')
    field = Float()
    out = attempt(field.process, v, INBOUND, True)
    n = decimal_of(v)
    if n is None or v.strip().lower().endswith('snan'):
        refused(S, out, 'a text that spells no number')
    else:
        S.cover('accepted')
        S.check(out.ok and isinstance(out.value, float), 'a spelled number is accepted')


def split_date(v):
    """(year, month, day) of a date's text, or None: four digits, then one or two each."""
    parts = v.split('-')
    if len(parts) != 3 or len(parts[0]) != 4:
        return None
    numbers = []
    for i, part in enumerate(parts):
        if i and not 1 <= len(part) <= 2:
            return None
        if i == 2 and len(part) == 2 and part[0] == ' ':
            part = part[1]
        n = 0
        for c in part:
            if c not in '0123456789':
                return None
            n = n * 10 + ord(c) - 48
        numbers.append(n)
    return numbers


def days_in(y, m):
    if m == 2:
        return 29 if y % 4 == 0 and (y % 100 != 0 or y % 400 == 0) else 28
    return 30 if m in (4, 6, 9, 11) else 31


def real_date(n):
    if n is None:
        return False
    y, m, d = n
    return 1 <= y and 1 <= m and m <= 12 and 1 <= d and d <= days_in(y, m)


def put(S, template, name, places, alphabet):
    """The template with one symbolic text in place of the character at a chosen place."""
    at = S.choice(name + '.at', places)
    return template[:at] + S.text(name, 2, 0, alphabet) + template[at + 1:]


@harness('C06', variants=['digits', 'edited', 'short'], covers=['refused'], quick=8000)
def date_text(S, shape):
    """DDDD-DD-DD with any digits; a date with any (of 136) character in any one place, or two or none
    there; short texts"""
    if shape == 'digits':
        v = S.text('y', 4, 4, DIGITS) + '-' + S.text('m', 2, 1, DIGITS) + '-' + \
            S.text('d', 2, 1, DIGITS)
    elif shape == 'edited':
        at = S.choice('at', list(range(11)))
        v = '2024-02-28'
        v = v[:at] + S.text('x', 1, 0, WIDE - frozenset([0x660])) + \
            S.text('y', 1, 0, '- 1') + v[at + 1:]
    else:
        v = S.text('v', 4, 0, '-1 T')
    field = Date()
    out = attempt(field.process, v, INBOUND, True)
    n = split_date(v)
    if not real_date(n):
        refused(S, out, 'a text that is no date')
    else:
        if len(v) == 10 and ' ' not in v:
            S.check(out.ok, 'a date in the wire format is accepted')
        if out.ok:
            S.same(out.value, date(n[0], n[1], n[2]), 'it denotes that date')
        else:
            refused(S, out, 'a date in another spelling')


def split_time(v):
    parts = v.split(':')
    if len(parts) != 3:
        return None
    numbers = []
    for part in parts:
        if not 1 <= len(part) <= 2:
            return None
        n = 0
        for c in part:
            if c not in '0123456789':
                return None
            n = n * 10 + ord(c) - 48
        numbers.append(n)
    return numbers


@harness('C06', variants=['digits', 'edited', 'short'], covers=['refused'], quick=8000)
def time_text(S, shape):
    """D[D]:D[D]:D[D] with any digits; a time with any (of 136) character in any one place; short
    texts"""
    if shape == 'digits':
        v = S.text('h', 2, 1, DIGITS) + ':' + S.text('m', 2, 1, DIGITS) + ':' + \
            S.text('s', 2, 1, DIGITS)
    elif shape == 'edited':
        at = S.choice('at', list(range(9)))
        v = '12:02:28'
        v = v[:at] + S.text('x', 1, 0, WIDE - frozenset([0x660])) + \
            S.text('y', 1, 0, ': 1') + v[at + 1:]
    else:
        v = S.text('v', 4, 0, ':1 T')
    field = Time()
    out = attempt(field.process, v, INBOUND, True)
    n = split_time(v)
    if n is None or n[0] > 23 or n[1] > 59 or n[2] > 59:
        refused(S, out, 'a text that is no time')
    else:
        if len(v) == 8:
            S.check(out.ok, 'a time in the wire format is accepted')
        if out.ok:
            S.same(out.value, time(n[0], n[1], n[2]), 'it denotes that time')
        else:
            refused(S, out, 'a time in another spelling')


@harness('C06', variants=['digits', 'edited'], covers=['refused'], quick=8000)
def datetime_text(S, shape):
    """DDDD-DD-DDTDD:DD:DDZ with any digits in the day and the hour, minute and second; a datetime with
    any (of 136) character in any one place; in UTC fields and local ones"""
    if shape == 'digits':
        v = '2023-02-' + S.text('d', 2, 2, DIGITS) + 'T' + S.text('h', 2, 1, DIGITS) + ':' + \
            S.text('m', 2, 2, DIGITS) + ':' + S.text('s', 2, 2, DIGITS) + 'Z'
    else:
        at = S.choice('at', list(range(21)))
        v = '2024-02-28T12:02:28Z'
        v = v[:at] + S.text('x', 1, 0, WIDE - frozenset([0x660])) + v[at + 1:]
    field = DateTime(utc=S.bool('utc'))
    out = attempt(field.process, v, INBOUND, True)
    day, sep, rest = v.partition('T')
    if not sep:
        day, sep, rest = v.partition('t')
    d = split_date(day)
    t = split_time(rest[:-1]) if sep and rest[-1:] in ('Z', 'z') else None
    if not real_date(d) or t is None or t[0] > 23 or t[1] > 59 or t[2] > 59:
        refused(S, out, 'a text that is no datetime')
    else:
        if len(v) == 20 and ' ' not in v and v[10] == 'T' and v[-1] == 'Z':
            S.check(out.ok, 'a datetime in the wire format is accepted')
        if out.ok:
            S.check(out.value == datetime(d[0], d[1], d[2], t[0], t[1], t[2], 0, UTC),
                'it denotes that instant')
        else:
            refused(S, out, 'a datetime in another spelling')


SIXBITS = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_'


def sixbits(c):
    if c == 45 or c == 95:
        return 62 if c == 45 else 63
    if c <= 57:
        return c + 4
    return c - 65 if c <= 90 else c - 71


@harness('C06', covers=['accepted', 'refused'])
def binary_text(S):
    """any <= 4 bytes of the URL-safe base64 alphabet, correctly padded or not"""
    v = S.bytes('v', S.b(4, 5), 0, frozenset(ord(c) for c in SIXBITS))
    pad = b'=' * S.pick('pad', 3)
    whole = len(v) % 4 != 1 and (-len(v)) % 4 == len(pad)
    out = attempt(Binary().process, v + pad, INBOUND, True)
    if whole:
        S.cover('accepted')
        S.check(out.ok, 'padded base64 is accepted')
        bits = n = 0
        expected = []
        for c in v:
            bits = bits * 64 + sixbits(c)
            n += 6
            if n >= 8:
                n -= 8
                expected.append(bits // (1 << n))
                bits = bits % (1 << n)
        S.same(list(out.value), expected, 'it denotes the bytes it spells')
    elif len(v) % 4 and len(pad) < (-len(v)) % 4:
        refused(S, out, 'base64 without its padding')


@harness('C06', variants=['integer', 'float', 'decimal'], covers=['accepted'])
def wire_numbers(S, kind):
    """serialized numbers given to the numeric fields: any whole number up to 2**53, as integer or
    float; a few fractional and special ones"""
    field = CLASSES[kind]()
    n = S.int('n', -2 ** 53, 2 ** 53)
    form = S.choice('form', ['whole', 'fraction'] + ['float'] * (kind != 'decimal'))
    if form == 'fraction':
        v = S.choice('v', [0.5, -1.25, 1e-300, float('nan'), float('inf'),
            decimal_module.Decimal('0.5'), decimal_module.Decimal('NaN')])
        out = attempt(field.process, v, INBOUND, True)
        if kind == 'integer':
            refused(S, out, 'a fractional number given to an integer field')
        elif kind == 'float' and isinstance(v, float):
            S.same(out.value, v, 'a number is itself')
        return
    S.cover('accepted')
    v = float(n) if form == 'float' else n
    out = attempt(field.process, v, INBOUND, True)
    S.check(out.ok, 'a whole number is accepted')
    if kind == 'integer':
        S.same(out.value, n, 'it is that integer')
    elif kind == 'float':
        S.check(isinstance(out.value, float) and out.value == n, 'it is that number')
    elif form == 'whole':
        S.check(out.value == n, 'it is that number')
