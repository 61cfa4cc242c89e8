from hlib import *

FLAGS = ['plain', 'required', 'default', 'required+default', 'ignore_null', 'nonnull',
    'nonnull+default', 'ignore_null+default', 'ignore_null+required', 'nonempty']


def member(S, name, flags, cls=Integer):
    params = {}
    for flag in flags.split('+'):
        if flag == 'default':
            params['default'] = S.int(name + '.default')
        elif flag != 'plain':
            params[flag] = True
    return cls(**params)


def expected(fields, value, order, phase, partial, strict, judge):
    """(keys and values kept, {key: token} of the errors), by the declared policy."""
    kept, errors = [], {}
    for name in order:
        field = fields[name]
        if name in value:
            v = value[name]
        elif partial:
            continue
        elif phase == INBOUND and field.default is not None:
            v = field.default
        elif field.required:
            errors[name] = 'required'
            continue
        else:
            continue
        if v is None:
            if field.ignore_null:
                continue
            if field.nonnull:
                errors[name] = 'nonnull'
                continue
        elif not judge(name, v):
            errors[name] = 'invalid'
            continue
        kept.append((name, v))
    if strict:
        for name in value:
            if name not in fields:
                errors[name] = 'unknown'
    return kept, errors


def judge_integer(name, v):
    return isinstance(v, int) and not isinstance(v, bool)


def decide(S, out, kept, errors, ordered, label=''):
    if errors:
        S.cover('errors')
        S.check(out.error and isinstance(out.value, ValidationError), label + 'it is refused')
        S.check(not out.value.errors, label + 'the errors are those of members')
        reported = {}
        structure = out.value.structure
        for name in structure:
            e = structure[name]
            if isinstance(e, StructuralError):
                S.check(len(e.errors) == 1, label + 'one error for each failing member')
                reported[name] = e.errors[0]['token']
        S.same(reported, errors, label + 'exactly the failing members are reported, with the reason')
    else:
        S.cover('kept')
        S.check(out.ok, label + 'it is accepted')
        S.same(dict(out.value), dict(kept), label + 'exactly the declared members are kept')
        if ordered:
            S.check(list(out.value) == [k for k, v in kept], label + 'in the declared order')


@harness('C08', variants=[(p, s, q) for p in ('in', 'out') for s in (False, True)
    for q in (False, True)], covers=['errors', 'kept'], quick=20000)
def policy(S, variant):
    """one member under each of ten combinations of flags beside another under each of three, each
    absent, null, any integer or of a wrong type; up to one undeclared key, null or not; strict or not;
    with a key order or none; whole or partial; every phase"""
    way, serialized, partial = variant
    phase = INBOUND if way == 'in' else OUTBOUND
    fields = {'a': member(S, 'a', S.choice('a.flags', FLAGS)),
        'b': member(S, 'b', S.choice('b.flags', ['plain', 'required', 'default']))}
    strict = S.bool('strict')
    order = S.choice('order', [None, ['b', 'a']])
    value = {}
    for name in ('b', 'a'):
        how = S.choice(name + '.how', ['absent', 'null', 'value', 'wrong'] if name == 'a' else
            ['absent', 'value', 'wrong'])
        if how != 'absent':
            value[name] = None if how == 'null' else S.int(name) if how == 'value' else []
    extra = S.choice('extra', ['none', 'key', 'null'])
    if extra != 'none':
        value['x'] = None if extra == 'null' else 1
    field = Structure(fields, strict=strict, key_order=list(order) if order else None)
    params = {'partial': True} if partial else {}
    out = attempt(field.process, dict(value), phase, serialized, **params)
    kept, errors = expected(fields, value, order or ['a', 'b'], phase, partial, strict,
        judge_integer)
    decide(S, out, kept, errors, order)


@harness('C08', variants=[False, True], covers=['errors', 'kept'], quick=12000)
def subsets(S, strict):
    """any subset of four members (required, optional, with default, ignoring null) and any two
    undeclared keys of any names (<= 2 characters, or an integer, null or tuple), both directions"""
    fields = {'a': Integer(required=True), 'b': Integer(), 'c': Integer(default=7),
        'd': Integer(ignore_null=True)}
    order = S.choice('order', [None, ['d', 'c', 'b', 'a'], 'b a d c'])
    phase = S.choice('phase', [INBOUND, OUTBOUND])
    value = {}
    for name in 'abcd':
        if S.bool(name):
            value[name] = S.choice(name + '.value', [5, None]) if name == 'd' else S.int(name + '.v')
    for i in range(2):
        kind = S.choice('extra%d' % i, ['none', 'text', 'other'])
        if kind == 'text':
            value[S.text('key%d' % i, 2, 0, 'abx')] = 1
        elif kind == 'other' and not i:
            value[S.choice('other', [None, 3, ('a', 'b')])] = 2
    field = Structure(fields, strict=strict, key_order=order)
    names = order.split(' ') if isinstance(order, str) else order or list('abcd')
    out = attempt(field.process, dict(value), phase, True)
    kept, errors = expected(fields, value, names, phase, False, strict, judge_integer)
    decide(S, out, kept, errors, order)


DEFAULTS = ('integer', 'float', 'decimal', 'text', 'token', 'boolean', 'date', 'time', 'datetime',
    'enumeration', 'uuid', 'email', 'binary')


def default_value(S, kind, name):
    if kind == 'integer' and S.bool(name + '?0'):
        return 0
    if kind == 'float':
        return S.float(name, special=False)
    if kind == 'decimal':
        return decimal_module.Decimal(S.text(name, 1, 1, DIGITS) + '.5')
    if kind == 'text':
        return S.text(name, 1, 0, 'ab')
    return gen_scalar(S, kind, name, 1)


@harness('C08', variants=DEFAULTS, covers=['defaulted', 'absent'])
def defaults(S, kind):
    """any default (falsy ones included) of every scalar type for an absent member, at the top, inside
    nested structures, inside sequences and maps, in every phase; never for a member that is null"""
    default = default_value(S, kind, 'default')
    flags = {'required': True} if S.bool('required') else {}
    if S.bool('ignore_null'):
        flags['ignore_null'] = True
    field = build(kind, default=default, **flags)
    phase, serialized = S.choice('call', CALLS)
    outer, wrap, unwrap = placed(S, Structure({'m': field, 'n': Integer()}),
        S.choice('place', PLACES))
    given = {'n': 1}
    if S.bool('null'):
        given['m'] = None
    out = attempt(outer.process, wrap(given), phase, serialized)
    if 'm' in given:
        S.check(out.ok, 'a null member is accepted')
        S.same(unwrap(out.value), {'n': 1} if flags.get('ignore_null') else {'m': None, 'n': 1},
            'null is no absence')
    elif phase == INBOUND:
        S.cover('defaulted')
        S.check(out.ok, 'the absent member takes its default')
        S.same(out.ok and unwrap(out.value), {'m': default, 'n': 1}, 'which is the declared one')
    elif flags.get('required'):
        S.check(out.error, 'defaults do not apply outbound')
    else:
        S.cover('absent')
        S.check(out.ok, 'an absent member is accepted')
        S.same(unwrap(out.value), {'n': 1}, 'defaults do not apply outbound')


@harness('C08', covers=['errors', 'kept'])
def nested(S):
    """a structure inside a structure, map, sequence or tuple: strictness, order and defaults are those
    of the inner one; any subset of its members; the outer one strict or not"""
    fields = {'a': Integer(required=True), 'b': Integer(default=3), 'c': Integer()}
    strict = S.bool('strict')
    order = S.choice('order', [None, 'c b a'])
    inner = Structure(fields, strict=strict, key_order=order)
    place = S.choice('place', PLACES[1:])
    outer, wrap, unwrap = placed(S, inner, place)
    phase, serialized = S.choice('call', CALLS)
    value = {}
    for name in 'abcx':
        if S.bool(name):
            value[name] = S.int(name + '.v')
    out = attempt(outer.process, wrap(dict(value)), phase, serialized)
    kept, errors = expected(fields, value, order.split(' ') if order else 'abc', phase, False, strict,
        judge_integer)
    if errors:
        S.check(out.error, 'it is refused')
        out = Outcome('structural', error_at(out, place))
    else:
        S.check(out.ok, 'it is accepted')
        out = Outcome('value', unwrap(out.value))
    decide(S, out, kept, errors, order)


@harness('C08', covers=['default'])
def generated(S):
    """a structure with generated defaults: any defaults, constants or neither for three members"""
    fields = {}
    expect = {}
    for name in 'abc':
        how = S.choice(name, ['none', 'default', 'constant', 'both'])
        params = {}
        if how in ('default', 'both'):
            params['default'] = S.int(name + '.default')
        if how == 'constant':
            params['constant'] = S.int(name + '.constant')
        if how == 'both':
            params['constant'] = params['default']
        if params:
            expect[name] = params.get('default', params.get('constant'))
        fields[name] = Integer(**params)
    inner = Structure(fields, generate_default=True)
    S.same(inner.generate_defaults(), expect, 'the generated values are the declared ones')
    out = attempt(Structure({'m': inner, 'n': Integer()}).process, {'n': 1}, INBOUND, S.bool('s'))
    S.cover('default')
    S.check(out.ok, 'an absent structure is accepted')
    S.same(out.value, {'m': expect, 'n': 1}, 'an absent structure takes its generated default')


@harness('C08', covers=['yes', 'no'])
def demands(S):
    """whether any of up to three members is required with or without a default (0 included), in flat and polymorphic structures"""
    members, names = {}, []
    for i, k in enumerate('abc'[:S.pick('n', 4)]):
        flags = {'required': S.bool('required ' + k)}
        default = S.choice('default ' + k, [None, 0, 3])
        if default is not None:
            flags['default'] = default
        members[k] = Integer(**flags)
        if flags['required'] and default is None:
            names.append(k)
    polymorphic = S.bool('polymorphic')
    if polymorphic:
        field = Structure({'x': members, 'y': {}}, polymorphic_on='t')
        S.check(field.has_required_fields is True and field.polymorphic is True, 'a discriminator is always required')
        S.cover('yes')
        return
    field = Structure(members)
    S.check(field.has_required_fields is bool(names) and field.polymorphic is False, 'a structure demands a key if a member is required and has no default')
    S.cover('yes' if names else 'no')
    S.check(attempt(field.process, {}).ok is not field.has_required_fields, 'which an empty mapping shows')
    missing = S.choice('missing', ['a', 'b', 'd'])
    S.check(field.get(missing) is members.get(missing), 'a member is found by its key')
    S.check(field.get(missing, 7) is members.get(missing, 7), 'or the given value stands for it')
