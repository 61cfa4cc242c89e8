from hlib import *


@harness('C07', variants=EVERY, covers=['null', 'refused'])
def null(S, kind):
    """null given to every field type, alone and inside every container, in every phase, under every
    combination of nonnull, nonempty, required, ignore_null and a preprocessor"""
    params = {}
    flag = S.choice('flag', ['none', 'nonnull', 'nonempty', 'required', 'ignore_null'])
    if flag != 'none':
        params[flag] = True
    if S.bool('preprocessor'):
        params['preprocessor'] = lambda v: v
    field = every_field(kind, **params)
    place = S.choice('place', PLACES)
    S.assume(not (flag == 'ignore_null' and place == 'structure'))
    outer, wrap, unwrap = placed(S, field, place)
    out = attempt(outer.process, wrap(None), *S.choice('call', CALLS))
    if flag in ('nonnull', 'nonempty'):
        S.cover('refused')
        S.check(out.error, 'null is refused by a non-null field')
        e = error_at(out, place)
        S.check(isinstance(e, ValidationError) and not isinstance(e, InvalidTypeError),
            'as a validation error')
        S.check(len(e.errors) == 1 and e.errors[0]['token'] == 'nonnull', 'naming the null value')
    else:
        S.cover('null')
        S.check(out.ok, 'null is accepted')
        S.check(unwrap(out.value) is None, 'null stays null')


@harness('C07', variants=EVERY, covers=['required'])
def required(S, kind):
    """a required, nonempty or optional member of every type, absent, in every phase"""
    flag = S.choice('flag', ['none', 'required', 'nonempty', 'nonnull'])
    field = every_field(kind, **({flag: True} if flag != 'none' else {}))
    out = attempt(Structure({'k': field, 'z': Integer()}).process, {'z': 1}, *S.choice('call', CALLS))
    if flag in ('required', 'nonempty'):
        S.cover('required')
        S.check(out.error and isinstance(out.value, ValidationError), 'absence is an error')
        errors = out.value.structure['k'].errors
        S.check(len(errors) == 1 and errors[0]['token'] == 'required', 'it names the absence')
    else:
        S.same(out.value, {'z': 1}, 'an absent optional member stays absent')


CONSTANTS = ('integer', 'float', 'decimal', 'text', 'token', 'boolean', 'binary', 'date', 'time',
    'datetime', 'enumeration', 'uuid')


def constant_of(S, kind, name):
    if kind == 'float':
        return S.float(name, special=False)
    if kind == 'enumeration':
        return S.choice(name, ENUMERATION)
    if kind == 'uuid':
        return '00000000-0000-0000-0000-00000000000' + S.text(name, 1, 1, HEX)
    if kind == 'decimal':
        return decimal_module.Decimal(S.choice(name + '.sign', ['', '-']) +
            S.text(name + '.digits', 1, 1, DIGITS) + S.choice(name + '.frac', ['', '.5']))
    if kind == 'integer' and S.bool(name + '?0'):
        return 0
    return gen_scalar(S, kind, name, 1)


@harness('C07', variants=CONSTANTS, covers=['accepted', 'refused'], quick=8000)
def constant(S, kind):
    """any constant (texts and byte strings of 0 or 1, decimals of one digit) against any value, alone and
    inside every container, natively and serialized"""
    c = constant_of(S, kind, 'constant')
    v = constant_of(S, kind, 'v')
    place = S.choice('place', PLACES)
    phase, serialized = S.choice('call', CALLS)
    S.assume(phase == OUTBOUND or not serialized or kind not in ('date', 'time', 'datetime', 'uuid'))
    outer, wrap, unwrap = placed(S, build(kind, constant=c), place)
    given = wire(kind, v) if serialized and phase == INBOUND else v
    out = attempt(outer.process, wrap(given), phase, serialized)
    if v == c:
        S.cover('accepted')
        S.check(out.ok, 'the constant is accepted')
        S.same(unwrap(out.value), wire(kind, v) if serialized and phase == OUTBOUND else v,
            'and kept')
    else:
        S.cover('refused')
        S.check(out.error, 'any other value is refused')
        e = error_at(out, place)
        S.check(isinstance(e, InvalidTypeError) and e.errors[0]['token'] == 'invalid',
            'as an invalid value')


@harness('C07', covers=['refused'])
def constant_types(S):
    """a falsy constant against the falsy values of other types"""
    c = S.choice('constant', [0, '', False, 0.0])
    cls = {int: Integer, str: Text, bool: Boolean, float: Float}[type(c)]
    v = S.choice('v', [0, '', False, 0.0, [], {}, b'', 1, 'x', True])
    field = cls(constant=c)
    out = attempt(field.process, v, S.choice('phase', [INBOUND, OUTBOUND]), False)
    if type(v) is type(c) and v == c:
        S.same(out.value, c, 'the constant is accepted')
    else:
        S.cover('refused')
        S.check(out.error and out.token == 'invalid', 'any other value is refused')


def listed(v, values):
    for x in values:
        if v == x:
            return True
    return False


@harness('C07', variants=['symbolic', 'mixed', 'spaced'], covers=['accepted', 'refused', 'ignored'],
    quick=12000)
def enumeration(S, shape):
    """enumerations of two symbolic texts (<= 2) and an integer, or of five mixed constants, or given as
    one text; up to two ignored values; any text, integer or container as the value"""
    if shape == 'symbolic':
        values = [S.text('a', 1, 0, 'xyA '), S.int('n', -9, 99), S.text('b', 2, 2, 'xyA ')]
        ignored = S.choice('ignore', [None, 'one', 'two'])
        if ignored == 'one':
            ignored = [S.text('i', 1, 1, 'xyA ')]
        elif ignored == 'two':
            ignored = [S.int('j', -9, 99), '']
        field = Enumeration(list(values), ignored_values=ignored, nonnull=S.bool('nonnull'))
    elif shape == 'mixed':
        values = [None, '', 0.5, 'red', 2]
        ignored = S.choice('ignore', [None, [], ['', 3], ['red']])
        field = Enumeration(list(values), ignored_values=ignored, nonnull=S.bool('nonnull'))
    else:
        values = ['red', 'x', 'blue']
        ignored = S.choice('ignore', [None, 'none', 'y z'])
        field = Enumeration('red x blue', ignored_values=ignored, nonnull=S.bool('nonnull'))
        ignored = {None: None, 'none': ['none'], 'y z': ['y', 'z']}[ignored]
    kind = S.choice('kind', ['text', 'integer', 'other'])
    if kind == 'text':
        v = S.text('v', 2, 0, 'xyA zred') if shape != 'spaced' else S.choice('v', ['red', 'x', 'blue',
            'none', 'y', 'z', 'y z', 're', 'red x', ''])
    elif kind == 'integer':
        v = S.int('v')
    else:
        v = S.choice('v', [None, 0.5, [], {}, ['x'], 'red', b'x'])
    place = S.choice('place', ['alone', 'deep'])
    outer, wrap, unwrap = placed(S, field, place)
    out = attempt(outer.process, wrap(v), *S.choice('call', CALLS))
    if v is None or (ignored and listed(v, ignored)):
        S.cover('ignored')
        if field.nonnull:
            S.check(out.error and error_at(out, place).errors[0]['token'] == 'nonnull',
                'an ignored value is a null value')
        else:
            S.check(out.ok and unwrap(out.value) is None, 'an ignored value becomes null')
    elif listed(v, values):
        S.cover('accepted')
        S.check(out.ok, 'a listed value is accepted')
        S.same(unwrap(out.value), v, 'and kept')
    else:
        S.cover('refused')
        S.check(out.error, 'an unlisted value is refused')
        e = error_at(out, place)
        S.check(isinstance(e, InvalidTypeError) and e.errors[0]['token'] == 'invalid',
            'as an invalid value')
