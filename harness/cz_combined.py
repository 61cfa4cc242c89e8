"""Parameters together: whatever parameters a field is declared with, each has its effect whichever others there are."""
from hlib import *
from fieldlib import copied

PREPROCESSORS = ['none', 'same', 'other', 'raises']


def preprocessing(S, how, other):
    """(parameters, function): a preprocessor, and what it makes of a value."""
    if how == 'none':
        return {}, lambda v: v
    if how == 'raises':
        def preprocessor(value):
            raise KeyError(value)
        return {'preprocessor': preprocessor}, None
    function = (lambda v: v) if how == 'same' else other
    return {'preprocessor': lambda v: function(copied(v))}, function


def absent_or(S, name, f):
    return f() if S.bool('has ' + name) else None


def given(**params):
    return dict((k, v) for k, v in params.items() if v is not None and v is not False)


def judged(S, field, value, expected, serialized=True, phases=(INBOUND, OUTBOUND)):
    """expected: ('value', v) or ('error', token)."""
    phase = S.choice('phase', list(phases))
    got = attempt(field.process, copied(value), phase, S.bool('serialized') if serialized else False)
    kind, what = expected
    S.cover(kind)
    if kind == 'value':
        S.check(got.ok, 'what every parameter allows is accepted')
        S.same(got.value, what, 'as it is')
    else:
        S.check(got.error, 'what a parameter forbids is refused')
        S.check(got.token == what, 'for the first rule it breaks')


def lengths(S, most=3):
    low = absent_or(S, 'minimum length', lambda: S.int('minimum length', 0, most))
    high = absent_or(S, 'maximum length', lambda: S.int('maximum length', 0, most))
    return low, high


def beyond(n, low, high):
    return 'min_length' if low is not None and n < low else 'max_length' if high is not None and n > high else None


def a_text(S, how):
    params, pre = preprocessing(S, how, lambda v: v + ' b')
    low, high = lengths(S)
    strip, nonempty, nonnull, pattern = S.bool('strip'), S.bool('nonempty'), S.bool('nonnull'), S.bool('pattern')
    constant = S.choice('constant', [None, 'a', ' a'])
    field = Text(strip=strip, **dict(params, **given(min_length=low, max_length=high, nonempty=nonempty, nonnull=nonnull, pattern='[ab ]*$' if pattern else None,
        constant=constant)))
    value = None if S.bool('null') else S.text('value', 2, 0, charset('a c'))
    if nonempty and low is None:
        low = 1
    if value is None:
        return field, value, ('error', 'nonnull') if nonnull or nonempty else ('value', None)
    if pre is None:
        return field, value, ('error', 'invalid')
    v = pre(value)
    if constant is not None and v != constant:
        return field, value, ('error', 'invalid')
    if strip:
        v = v.strip()
    broken = beyond(len(v), low, high)
    if broken:
        return field, value, ('error', broken)
    if pattern and 'c' in v:
        return field, value, ('error', 'pattern')
    return field, value, ('value', v)


def a_sequence(S, how):
    params, pre = preprocessing(S, how, lambda v: v + [3])
    low, high = lengths(S)
    unique, nonempty, nonnull, items = S.bool('unique'), S.bool('nonempty'), S.bool('nonnull'), S.choice('items', ['plain', 'nonnull', 'limited'])
    field = Sequence(Integer(**{'plain': {}, 'nonnull': {'nonnull': True}, 'limited': {'maximum': 3}}[items]), **dict(params, **given(min_length=low, max_length=high,
        unique=unique, nonempty=nonempty, nonnull=nonnull)))
    n = S.choice('count', [None, 0, 1, 2])
    value = None if n is None else [None if i == 1 and S.bool('null item') else S.int('item %d' % i, 2, 5) for i in range(n)]
    if value is None:
        return field, value, ('error', 'nonnull') if nonnull or nonempty else ('value', None)
    if pre is None:
        return field, value, ('error', 'invalid')
    v = pre(value)
    broken = beyond(len(v), low, high)
    if broken:
        return field, value, ('error', broken)
    if any((x is None and items == 'nonnull') or (x is not None and items == 'limited' and x > 3) for x in v):
        return field, value, ('error', None)
    if unique and any(v[i] == v[j] for i in range(len(v)) for j in range(i)):
        return field, value, ('error', 'duplicate')
    return field, value, ('value', v)


def a_map(S, how):
    params, pre = preprocessing(S, how, lambda v: dict((k, v[k]) for k in v if k != 'a' and k != 1))
    numbered, nonnull = S.bool('numbered'), S.bool('nonnull')
    keys = [1, 2] if numbered else ['a', 'b']
    required = [k for i, k in enumerate(keys) if S.bool('requires %d' % i)]
    limited = S.bool('limited')
    field = Map(Integer(**({'maximum': 3} if limited else {})), **dict(params, **given(required_keys=required or None, nonnull=nonnull, key=Integer(maximum=2) if numbered else None)))
    if S.bool('null'):
        return field, None, ('error', 'nonnull') if nonnull else ('value', None)
    value = {}
    for k in keys + [3]:
        how_value = S.choice('at %s' % k, ['absent', 'null', 'number']) if k != 3 else S.choice('at 3', ['absent', 'null'])
        if how_value != 'absent':
            value[k if numbered or k != 3 else 'c'] = None if how_value == 'null' else S.int('value %s' % k, 2, 5)
    if pre is None:
        return field, value, ('error', 'invalid')
    v = pre(value)
    if numbered and 3 in v:
        return field, value, ('error', 'invalidkeys')
    if any(k not in v for k in required) or limited and any(x is not None and x > 3 for x in v.values()):
        return field, value, ('error', None)
    return field, value, ('value', v)


def an_enumeration(S, how):
    params, pre = preprocessing(S, how, lambda v: 'b')
    values = ['a', 'b', 3]
    ignored = S.choice('ignored', [None, ['a'], ['x', 3]])
    nonnull, constant = S.bool('nonnull'), S.choice('constant', [None, 'a', 'b'])
    field = Enumeration(values, **dict(params, **given(ignored_values=ignored, nonnull=nonnull, constant=constant)))
    value = S.choice('value', ['a', 'b', 3, 'x', 'y', None])
    if value is None or value in (ignored or []):
        return field, value, ('error', 'nonnull') if nonnull else ('value', None)
    if pre is None:
        return field, value, ('error', 'invalid')
    v = pre(value)
    if constant is not None and v != constant or v not in values:
        return field, value, ('error', 'invalid')
    return field, value, ('value', v)


def an_integer(S, how):
    params, pre = preprocessing(S, how, lambda v: v + 2)
    low, high = absent_or(S, 'low', lambda: S.int('low')), absent_or(S, 'high', lambda: S.int('high'))
    nonnull, nonempty, constant = S.bool('nonnull'), S.bool('nonempty'), absent_or(S, 'constant', lambda: S.int('constant'))
    field = Integer(**dict(params, **given(nonempty=nonempty, nonnull=nonnull)))
    field = Integer(minimum=low, maximum=high, constant=constant, nonnull=nonnull, nonempty=nonempty, **params)
    if S.bool('null'):
        return field, None, ('error', 'nonnull') if nonnull or nonempty else ('value', None)
    value = S.int('value')
    if pre is None:
        return field, value, ('error', 'invalid')
    v = pre(value)
    if constant is not None and v != constant:
        return field, value, ('error', 'invalid')
    if low is not None and v < low:
        return field, value, ('error', 'minimum')
    if high is not None and v > high:
        return field, value, ('error', 'maximum')
    return field, value, ('value', v)


def a_date(S, how):
    params, pre = preprocessing(S, how, lambda v: v + timedelta(2))
    day = lambda name: date(2024, 3, S.int(name, 1, 28))
    low, high, constant = absent_or(S, 'low', lambda: day('low')), absent_or(S, 'high', lambda: day('high')), absent_or(S, 'constant', lambda: day('constant'))
    nonnull = S.bool('nonnull')
    field = Date(minimum=low, maximum=high, constant=constant, nonnull=nonnull, **params)
    if S.bool('null'):
        return field, None, ('error', 'nonnull') if nonnull else ('value', None)
    value = day('value')
    if pre is None:
        return field, value, ('error', 'invalid')
    v = pre(value)
    if constant is not None and v != constant:
        return field, value, ('error', 'invalid')
    if low is not None and v < low:
        return field, value, ('error', 'minimum')
    if high is not None and v > high:
        return field, value, ('error', 'maximum')
    return field, value, ('value', v)


def a_binary(S, how):
    params, pre = preprocessing(S, how, lambda v: v + b'z')
    low, high = lengths(S)
    nonempty, nonnull, constant = S.bool('nonempty'), S.bool('nonnull'), S.choice('constant', [None, b'', b'x'])
    field = Binary(constant=constant, **dict(params, **given(min_length=low, max_length=high, nonempty=nonempty, nonnull=nonnull)))
    value = S.choice('value', [None, b'', b'x', b'xy', b'\0\xff'])
    if nonempty and low is None:
        low = 1
    if value is None:
        return field, value, ('error', 'nonnull') if nonnull or nonempty else ('value', None)
    if pre is None:
        return field, value, ('error', 'invalid')
    v = pre(value)
    if constant is not None and v != constant:
        return field, value, ('error', 'invalid')
    broken = beyond(len(v), low, high)
    return field, value, ('error', broken) if broken else ('value', v)


def a_tuple(S, how):
    params, pre = preprocessing(S, how, lambda v: tuple(v[:1]) + (2,))
    nonnull, limited = S.bool('nonnull'), S.bool('limited')
    field = Tuple([Integer(**({'maximum': 3} if limited else {})), Integer(nonnull=S.bool('second'))], nonnull=nonnull, **params)
    count = S.choice('count', [None, 0, 1, 2, 3])
    if count is None:
        return field, None, ('error', 'nonnull') if nonnull else ('value', None)
    value = tuple([None if S.bool('null %d' % i) else S.int('item %d' % i, 2, 5) for i in range(count)])
    if pre is None:
        return field, value, ('error', 'invalid')
    v = pre(value)
    if len(v) != 2:
        return field, value, ('error', 'length')
    if v[0] is not None and limited and v[0] > 3 or v[1] is None and field.values[1].nonnull:
        return field, value, ('error', None)
    return field, value, ('value', v)


def a_token(S, how):
    params, pre = preprocessing(S, how, lambda v: v + ':b')
    segments, nonnull, constant = S.choice('segments', [None, 1, 2]), S.bool('nonnull'), S.choice('constant', [None, 'a', 'a:b'])
    field = Token(segments=segments, nonnull=nonnull, constant=constant, **params)
    value = S.choice('value', [None, '', 'a', 'a:b', ':', 'a-', 'b'])
    if value is None:
        return field, value, ('error', 'nonnull') if nonnull else ('value', None)
    if pre is None:
        return field, value, ('error', 'invalid')
    v = pre(value)
    if constant is not None and v != constant or not all(part and part[-1] != '-' for part in v.split(':')) or segments is not None and v.count(':') + 1 != segments:
        return field, value, ('error', 'invalid')
    return field, value, ('value', v)


def a_float(S, how):
    params, pre = preprocessing(S, how, lambda v: v + 1.0)
    limits = [None, -1.0, 0.0, 0.5]
    low, high, constant, nonnull = S.choice('low', limits), S.choice('high', limits), S.choice('constant', [None, 0.0, 0.5]), S.bool('nonnull')
    field = Float(minimum=low, maximum=high, constant=constant, nonnull=nonnull, **params)
    value = S.choice('value', [None, -1.0, -0.5, 0.0, 0.5, 7.5])
    if value is None:
        return field, value, ('error', 'nonnull') if nonnull else ('value', None)
    if pre is None:
        return field, value, ('error', 'invalid')
    v = pre(value)
    if constant is not None and v != constant:
        return field, value, ('error', 'invalid')
    if low is not None and v < low:
        return field, value, ('error', 'minimum')
    if high is not None and v > high:
        return field, value, ('error', 'maximum')
    return field, value, ('value', v)


KINDS = {'text': a_text, 'sequence': a_sequence, 'map': a_map, 'enumeration': an_enumeration, 'integer': an_integer, 'date': a_date, 'binary': a_binary,
    'tuple': a_tuple, 'token': a_token, 'float': a_float}


def combined(S, kind, how):
    field, value, expected = KINDS[kind](S, how)
    plain = kind not in ('date', 'binary')
    if plain:
        judged(S, field, value, expected)
    else:
        # natively
        judged(S, field, value, expected, False)


@harness('C31', variants=[(k, how) for k in sorted(KINDS) for how in PREPROCESSORS[1:]], covers=['error'], quick=20000)
def combined_hooks(S, variant):
    """fields of ten types with all their parameters absent or present (limits, lengths, patterns, constants, uniqueness, required keys, ignored values, nonnull, nonempty, null elements)
    and a preprocessor that keeps, changes or refuses: any value, both directions"""
    combined(S, *variant)


@harness('C04', variants=[(k, how) for k in ('text', 'sequence', 'binary') for how in PREPROCESSORS[:3]], covers=['error', 'value'], quick=20000)
def combined_lengths(S, variant):
    """texts, binaries and sequences with all their parameters absent or present, a preprocessor among them"""
    combined(S, *variant)


@harness('C03', variants=[(k, how) for k in ('integer', 'date', 'float') for how in PREPROCESSORS[:3]], covers=['error', 'value'], quick=20000)
def combined_limits(S, variant):
    """integers, dates and floats with all their parameters absent or present, a preprocessor among them"""
    combined(S, *variant)


@harness('C28', variants=[(k, how) for k in ('map', 'sequence', 'tuple') for how in PREPROCESSORS[:3]], covers=['error', 'value'], quick=20000)
def combined_shapes(S, variant):
    """maps, sequences and tuples with all their parameters absent or present, a preprocessor among them"""
    combined(S, *variant)


@harness('C07', variants=sorted(KINDS), covers=['error', 'value'], quick=20000)
def combined_values(S, kind):
    """fields of ten types with all their parameters absent or present"""
    combined(S, kind, 'none')


@harness('C05', variants=[('token', how) for how in PREPROCESSORS[:3]] + [('text', 'none')], covers=['error', 'value'], quick=20000)
def combined_grammars(S, variant):
    """tokens and patterned texts with all their parameters absent or present, a preprocessor among them"""
    combined(S, *variant)


# -- structures -----------------------------------------------------------------------------------------

FLAGS = ['plain', 'required', 'default', 'ignore_null', 'nonnull', 'required+default', 'ignore_null+default']


def flagged(S, name, flags):
    params = {}
    for flag in flags.split('+'):
        if flag == 'default':
            params['default'] = 8
        elif flag != 'plain':
            params[flag] = True
    return Integer(**params)


def structured(S, variant):
    phase = INBOUND if variant[0] == 'in' else OUTBOUND
    serialized, partial, form = variant[1], variant[2], variant[3]
    polymorphic = form != 'plain'
    a, c = flagged(S, 'a', S.choice('a flags', FLAGS)), flagged(S, 'c', S.choice('c flags', S.b(['plain', 'default'], FLAGS[:3])))
    strict, order = S.bool('strict'), S.choice('order', S.b([None, 'c type'], [None, 'c type', 'c type a', 'b c']))
    changed = S.bool('preprocessed')
    params = {'strict': strict}
    if order:
        params['key_order'] = order
    if changed:
        params['preprocessor'] = lambda v: dict((k, v[k]) for k in v if k != 'c')
    if not polymorphic:
        field, members = Structure({'a': a, 'c': c}, **params), {'a': a, 'c': c}
    else:
        on = 'type' if form == 'named' else Enumeration(['x', 'y', 'z'], name='type')
        field = Structure({'x': {'a': a}, 'y': {'b': Integer()}, '*': {'c': c}}, polymorphic_on=on, **params)
    value = {}
    if polymorphic:
        identity = S.choice('type', ['x', 'y', 'z', 'w', None, 'absent'])
        if identity != 'absent':
            value['type'] = identity
    accepted = not polymorphic or identity in ('x', 'y')
    for name, hows in (('c', ['absent', 'value']), ('a', ['absent', 'null', 'value', 'wrong']), ('q', ['absent', 'value'])):
        how = S.choice(name, hows) if accepted or name == 'c' else 'value'
        if how != 'absent':
            value[name] = {'null': None, 'value': 4, 'wrong': []}[how]
    got = attempt(field.process, copied(value), phase, serialized, None, partial)
    seen = dict((k, value[k]) for k in value if k != 'c' or not changed)
    if polymorphic:
        if identity in ('absent', None):
            S.cover('refused')
            S.check(got.error and got.token == 'required', 'a structure without its discriminator is refused')
            return
        if identity == 'w' or identity == 'z' and form == 'named':
            S.cover('refused')
            S.check(got.error and got.token == 'invalid', 'an identity its discriminator refuses is refused')
            return
        if identity == 'z':
            S.cover('refused')
            S.check(got.error and got.token == 'unrecognized', 'one without a variant is refused')
            return
        members = {'x': {'a': a, 'c': c}, 'y': {'b': Integer(), 'c': c}}[identity]
    kept, errors = {}, {}
    for name, member in members.items():
        if name in seen:
            v = seen[name]
        elif partial:
            continue
        elif phase == INBOUND and member.default is not None:
            v = member.default
        elif member.required:
            errors[name] = 'required'
            continue
        else:
            continue
        if v is None and member.ignore_null:
            continue
        if v is None and member.nonnull:
            errors[name] = 'nonnull'
        elif v is not None and not isinstance(v, int):
            errors[name] = 'invalid'
        else:
            kept[name] = v
    if polymorphic:
        kept['type'] = identity
    if strict:
        for name in seen:
            if name not in members and not (polymorphic and name == 'type'):
                errors[name] = 'unknown'
    if errors:
        S.cover('errors')
        S.check(got.error and not got.value.errors, 'it is refused for its members')
        reported = dict((k, e.errors[0]['token']) for k, e in got.value.structure.items() if isinstance(e, StructuralError))
        S.same(reported, errors, 'exactly those that fail')
        return
    S.cover('kept')
    S.check(got.ok, 'it is accepted')
    S.same(dict(got.value), kept, 'with exactly its members')
    if order:
        listed = [k for k in order.split(' ') if k in kept]
        S.check(list(got.value)[:len(listed)] == listed, 'in the order declared')


WAYS = [(way, serialized, partial) for way in ('in', 'out') for serialized in (False, True) for partial in (False, True)]


@harness('C08', variants=[w + (form,) for w in WAYS for form in ('plain', 'named')], covers=['errors', 'kept'], quick=20000)
def combined_members(S, variant):
    """structures, plain or polymorphic, strict or not, with a key order that names some members or none (three thoroughly), a preprocessor that drops a key or none, two members of any of seven and two (three) kinds of flags: any subset of
    their keys and an undeclared one, null, right or wrong, whole or partial, every phase"""
    structured(S, variant)


@harness('C09', variants=[w + (form,) for w in WAYS for form in ('named', 'enumerated')], covers=['errors', 'kept', 'refused'], quick=20000)
def combined_variants(S, variant):
    """polymorphic structures, by name or by an enumeration with an identity more, strict or not, with a key order that names some members or none (three thoroughly), a preprocessor that drops a key or none, members of any of seven
    and two (three) kinds of flags: any identity, subset of their keys and an undeclared one, null, right or wrong, whole or partial, every phase"""
    structured(S, variant)
