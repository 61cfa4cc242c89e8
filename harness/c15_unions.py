from hlib import *

MEMBERS = {
    'integer': lambda: Integer(minimum=0, maximum=10),
    'text': lambda: Text(max_length=1, strip=False),
    'float': lambda: Float(maximum=5.0),
    'boolean': lambda: Boolean(),
    'date': lambda: Date(minimum=date(2000, 1, 1)),
    'datetime': lambda: DateTime(utc=True),
    'binary': lambda: Binary(max_length=1),
    'token': lambda: Token(),
    'enumeration': lambda: Enumeration(['a', 3]),
    'constant': lambda: Integer(constant=7),
    'nonnull': lambda: Integer(nonnull=True),
    'decimal': lambda: Decimal(minimum=decimal_module.Decimal(0)),
    'sequence': lambda: Sequence(Integer(minimum=0), max_length=1),
    'texts': lambda: Sequence(Text()),
    'map': lambda: Map(Integer()),
    'structure': lambda: Structure({'a': Integer(required=True), 'b': Text()}),
    'tuple': lambda: Tuple([Integer(), Text()]),
    'union': lambda: Union([Integer(minimum=5), Sequence(Text())]),
    'time': lambda: Time(),
    'bit': lambda: Enumeration([0, 1, 'on'], preprocessor=lambda v: int(v) if isinstance(v, bool) else v),
    'flag': lambda: Boolean(preprocessor=lambda v: v == 1 if isinstance(v, (int, float)) else v),
    'preprocessed': lambda: Integer(preprocessor=lambda v: v + 1),
}

ORDERS = [
    ('integer', 'text'), ('text', 'integer'), ('text', 'boolean', 'float'), ('float', 'integer'),
    ('token', 'text'), ('date', 'datetime'), ('datetime', 'date'), ('date', 'text'), ('constant', 'integer'),
    ('enumeration', 'text', 'integer'), ('integer', 'enumeration'), ('binary', 'text'),
    ('nonnull', 'text'), ('decimal', 'text'), ('text', 'decimal', 'boolean'), ('boolean', 'integer', 'float'),
    ('sequence', 'texts'), ('texts', 'sequence'), ('map', 'structure'), ('structure', 'map'),
    ('tuple', 'sequence'), ('sequence', 'tuple'), ('structure', 'text', 'sequence'),
    ('union', 'integer'), ('text', 'union', 'sequence'), ('map', 'union', 'text', 'boolean'),
    ('time', 'date', 'datetime', 'text'), ('preprocessed', 'text'), ('text',), ('bit', 'boolean'), ('boolean', 'bit', 'text'),
    ('flag', 'integer', 'text'), ('integer', 'flag'),
    ('integer', 'float', 'boolean', 'date', 'text', 'sequence', 'map'),
]


def expected(members, value, phase, serialized):
    """The definition: the first member, in order, that does not refuse the type."""
    for i, m in enumerate(members):
        out = attempt(m.process, value, phase, serialized)
        if not (out.error and isinstance(out.value, InvalidTypeError)):
            return i, out
    return None, None


def agree(S, out, place, unwrap, i, expect):
    if i is None:
        S.cover('refused')
        S.check(out.error, 'a value no member takes is refused')
        e = error_at(out, place)
        S.check(isinstance(e, InvalidTypeError) and len(e.errors) == 1
            and e.errors[0]['token'] == 'invalid', 'as an invalid value')
        return
    if expect.ok:
        S.cover('taken')
        S.check(out.ok, 'a value a member takes is accepted')
        S.same(unwrap(out.value), expect.value, "with the first matching member's result")
    else:
        S.cover('decided')
        S.check(out.error, 'a member that knows the type decides')
        e = error_at(out, place)
        S.check(not isinstance(e, InvalidTypeError), 'with its own error')
        S.same([x['token'] for x in e.errors], [x['token'] for x in expect.value.errors],
            'of the same token')
        S.same(e.structure is None, expect.value.structure is None, 'and of the same shape')
        if e.structure is not None:
            S.same(tokens(e), tokens(expect.value), 'and structure')


def tokens(e):
    if e.structure is None:
        return [x['token'] for x in e.errors]
    items = e.structure.items() if isinstance(e.structure, dict) else enumerate(e.structure)
    return dict((k, tokens(v) if isinstance(v, StructuralError) else '-') for k, v in items)


@harness('C15', variants=['+'.join(o) for o in ORDERS], covers=[], quick=12000)
def first_match(S, order):
    """34 unions of 1-7 members, in order, against every plain value (texts and bytes <= 2, containers of
    <= 2, integers up to 10^6, seven floats, any date or time) in both directions, serialized or not, in any place"""
    members = [MEMBERS[m]() for m in order.split('+')]
    union = Union([MEMBERS[m]() for m in order.split('+')])
    kind = S.choice('kind', PLAIN[1:])
    if kind == 'float':
        value = S.choice('float', [0.0, 3.0, -2.5, 5.5, 1e300, float('nan'), float('inf')])
    elif kind == 'integer':
        value = S.choice('v', [0, 3, 5, 6, -1, 10 ** 15 + 1]) if 'float' in order else \
            S.int('v', -10 ** 6, 10 ** 6)
    elif kind in ('text', 'bytes') and 'float' in order and (kind == 'bytes' or S.bool('numeral')):
        value = S.choice('numerals', ['3', ' 4.5', '9e9', 'nan', '1_0', '-1', '0x1'])
        if kind == 'bytes':
            value = value.encode('utf8')
    else:
        value = gen_of_kind(S, kind, 'v', 2, 'a:-. ' if 'float' in order else 'a1:-. ')
    place = S.choice('place', ['alone', 'deep'])
    outer, wrap, unwrap = placed(S, union, place)
    phase, serialized = S.choice('call', CALLS)
    i, expect = expected(members, value, phase, serialized)
    S.assume(expect is None or expect.kind != 'raised')
    out = attempt(outer.process, wrap(value), phase, serialized)
    agree(S, out, place, unwrap, i, expect)


@harness('C15', covers=['taken', 'decided', 'refused'], quick=12000)
def independent(S):
    """an integer-or-text-or-list union decided without running its members: any integer under any limits,
    texts <= 3 under any length limit, any list of <= 3 integers or texts, alone or inside containers"""
    lo, hi = S.int('lo', -50, 50), S.int('hi', -50, 50)
    size = S.int('size', 0, 3)
    union = Union([Integer(minimum=lo, maximum=hi), Text(max_length=size, strip=False),
        Sequence(Integer(), max_length=2), Sequence(Text(strip=False))])
    place = S.choice('place', PLACES)
    outer, wrap, unwrap = placed(S, union, place)
    phase, serialized = S.choice('call', [CALLS[0], CALLS[2], CALLS[3]])
    kind = S.choice('kind', ['integer', 'text', 'list', 'boolean', 'map'])
    if kind == 'integer':
        v = S.int('v')
        good = lo <= v <= hi
        token = 'minimum' if v < lo else 'maximum'
    elif kind == 'text':
        v = S.text('v', 3, 0, 'ab ')
        good = len(v) <= size
        token = 'max_length'
    elif kind == 'list':
        v = [S.int('v%d' % i) if S.bool('i%d' % i) else 'x' for i in range(S.pick('n', 4))]
        good = len(v) <= 2 and all([isinstance(x, int) for x in v])
        token = 'max_length' if len(v) > 2 else None
    else:
        v = S.bool('v') if kind == 'boolean' else {'a': 1}
    out = attempt(outer.process, wrap(v), phase, serialized)
    if kind in ('boolean', 'map'):
        S.cover('refused')
        S.check(out.error and error_at(out, place).errors[0]['token'] == 'invalid', 'refused')
    elif good:
        S.cover('taken')
        S.check(out.ok, 'taken')
        S.same(unwrap(out.value), v, 'and kept')
    else:
        S.cover('decided')
        S.check(out.error, 'decided')
        e = error_at(out, place)
        if token:
            S.check(e.errors[0]['token'] == token, 'by the member of the type')
        else:
            S.same([isinstance(x, StructuralError) for x in e.structure],
                [not isinstance(x, int) for x in v], 'by the first list member')


@harness('C15', variants=['null', 'date', 'integer', 'dates', 'text'], covers=[])
def null_and_wire(S, kind):
    """null under nullable and non-null unions; values of a date/text/decimal union survive the wire through
    the member that took them (the wire text goes to the first member that reads it)"""
    nonnull = S.bool('nonnull')
    union = Union([Date(), Integer(), Sequence(Date()), Text(strip=False)], nonnull=nonnull)
    place = S.choice('place', PLACES if kind == 'null' else ['structure', 'sequence', 'deep'])
    outer, wrap, unwrap = placed(S, union, place)
    if kind == 'null':
        out = attempt(outer.process, wrap(None), *S.choice('call', CALLS))
        if nonnull:
            S.cover('nonnull')
            S.check(out.error and error_at(out, place).errors[0]['token'] == 'nonnull', 'refused')
        else:
            S.cover('null')
            S.check(out.ok, 'accepted')
            S.same(unwrap(out.value), None, 'null stays null')
        return
    S.cover('roundtrip')
    if kind == 'date':
        v = gen_date(S, 'v')
    elif kind == 'integer':
        v = S.int('v')
    elif kind == 'dates':
        v = [date(S.int('y%d' % i, 1, 9999), 1 + i, 31) for i in range(S.pick('n', 2))]
    else:
        v = S.text('v', 3, 0, 'ab :')
    sent = attempt(outer.process, wrap(v), OUTBOUND, True)
    S.check(sent.ok, 'written')
    plain = wire('date', v) if kind == 'date' else [wire('date', x) for x in v] if kind == 'dates' else v
    S.same(unwrap(sent.value), plain, "in the member's wire form")
    back = attempt(outer.process, sent.value, INBOUND, True)
    S.check(back.ok, 'read')
    S.same(unwrap(back.value), v, 'as the same value')
