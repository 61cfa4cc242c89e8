from hlib import *

FORMS = ['auto', 'text', 'integer', 'enumeration']


def identities(form):
    return [0, 7] if form == 'integer' else ['x', 'y']


def discriminator(form):
    if form == 'auto':
        return 'type'
    if form == 'text':
        return Text(name='type', nonnull=True)
    if form == 'integer':
        return Integer(name='type', nonnull=True)
    return Enumeration(['x', 'y', 'z'], name='type', nonnull=True)


def polymorphic(form, common=False, **params):
    """Two variants: the first has an integer a and a text s, the second a list b and a text s."""
    first, second = identities(form)
    structure = {first: {'a': Integer(required=True)}, second: {'b': Sequence(Integer())}}
    if common:
        structure['*'] = {'s': Text(strip=False)}
    else:
        structure[first]['s'] = Text(strip=False)
        structure[second]['s'] = Text(strip=False)
    return Structure(structure, polymorphic_on=discriminator(form), **params)


DECLARED = [{'a', 's', 'type'}, {'b', 's', 'type'}]


def body(S):
    """Any subset of the members of both variants, each valid for its variant or not."""
    value = {}
    for name in 'abs':
        how = S.choice(name, ['absent', 'valid', 'wrong'] if name != 's' else ['absent', 'valid'])
        if how == 'valid':
            value[name] = S.int('a') if name == 'a' else [S.int('b0')] if name == 'b' else \
                S.text('s', 2, 0, 'a ')
        elif how == 'wrong':
            value[name] = {}
    return value


@harness('C09', variants=[(f, p) for f in FORMS for p in ('in', 'out')],
    covers=['first', 'second', 'missing', 'unrecognized'], quick=20000)
def process(S, variant):
    """structures with two variants and a common member, discriminated by an automatic field, a text, an
    integer or an enumeration; any discriminator (any integer, any text <= 2, null, absent, other
    types); any subset of the members of both variants, valid or not; strict or not, key order or not"""
    form, way = variant
    phase = INBOUND if way == 'in' else OUTBOUND
    strict = S.bool('strict')
    order = S.choice('order', [None, 's b type a'])
    field = polymorphic(form, S.bool('common'), strict=strict, key_order=order)
    ids = identities(form)
    value = body(S)
    how = S.choice('type', ['absent', 'null', 'symbolic', 'first', 'second', 'other'])
    if how == 'null':
        value['type'] = None
    elif how == 'symbolic':
        value['type'] = S.int('id') if form == 'integer' else S.text('id', 2, 0, 'xyz*-')
    elif how == 'first':
        value['type'] = ids[0]
    elif how == 'second':
        value['type'] = ids[1]
    elif how == 'other':
        value['type'] = S.choice('other', [[], {}, 1.5, b'x', 'unknown'])
    place = S.choice('place', ['alone', 'deep'])
    outer, wrap, unwrap = placed(S, field, place)
    out = attempt(outer.process, wrap(dict(value)), phase, S.bool('serialized'))
    identity = value.get('type')
    if identity is None:
        S.cover('missing')
        S.check(out.error, 'a missing or null discriminator is an error')
        e = error_at(out, place)
        S.check(len(e.errors) == 1 and e.errors[0]['token'] in ('required', 'nonnull'),
            'which says that it is missing')
        S.check(e.structure is None, 'no member is judged')
        return
    which = None
    for i in (0, 1):
        if type(identity) is type(ids[i]) and identity == ids[i]:
            which = i
    if which is None:
        S.cover('unrecognized')
        S.check(out.error, 'an unrecognized discriminator is an error')
        e = error_at(out, place)
        S.check(len(e.errors) == 1 and e.errors[0]['token'] in ('invalid', 'unrecognized'),
            'which says so')
        S.check(e.structure is None, 'no member is judged')
        return
    S.cover(('first', 'second')[which])
    declared = DECLARED[which]
    errors = {}
    kept = {'type': ids[which]}
    for name in value:
        if name == 'type':
            continue
        if name not in declared:
            if strict:
                errors[name] = 'unknown'
        elif value[name] == {}:
            errors[name] = 'invalid'
        else:
            kept[name] = value[name]
    if which == 0 and 'a' not in value:
        errors['a'] = 'required'
    if errors:
        S.check(out.error, 'an invalid body is refused')
        e = error_at(out, place)
        reported = {}
        for name in e.structure:
            if isinstance(e.structure[name], StructuralError):
                reported[name] = e.structure[name].errors[0]['token']
        S.same(reported, errors, 'members are judged by the variant named, and by no other')
    else:
        S.check(out.ok, 'a valid body is accepted')
        result = unwrap(out.value)
        S.same(dict(result), kept, 'members are kept as the variant named says')
        if order:
            S.check(list(result) == [k for k in ('s', 'b', 'type', 'a') if k in kept],
                'in the declared order')


class Thing(object):
    def __init__(self, **params):
        self.__dict__.update(params)


@harness('C09', variants=FORMS, covers=['first', 'second'])
def operations(S, form):
    """extraction (from mappings and objects), instantiation and interpolation of any value of either
    variant, with members of the other one present"""
    which = S.pick('which', 2)
    ids = identities(form)
    common = S.bool('common')
    field = polymorphic(form, common)
    log = []
    for i in (0, 1):
        for name in field.structure[ids[i]]:
            if name in ('a', 'b'):
                field.structure[ids[i]][name].instantiator = \
                    lambda f, v, k: log.append(f.type) or (f.type, v)
    value = {'type': ids[which]}
    for name in 'abs':
        if S.bool(name):
            value[name] = S.int('a') if name == 'a' else [S.int('b0')] if name == 'b' else \
                S.text('s', 2, 0, 'a ')
    kept = dict((k, v) for k, v in value.items() if k in DECLARED[which])
    S.cover(('first', 'second')[which])
    operation = S.choice('operation', ['extract', 'object', 'instantiate', 'interpolate',
        'serialize', 'unserialize'])
    if operation == 'extract':
        S.same(field.extract(dict(value)), kept, 'extraction takes the members of the variant')
    elif operation == 'object':
        S.same(field.extract(Thing(**value), strict=False), kept,
            'extraction takes the attributes of the variant')
    elif operation == 'instantiate':
        expect = dict(kept)
        if 'a' in kept:
            expect['a'] = ('integer', kept['a'])
        if 'b' in kept:
            expect['b'] = ('sequence', kept['b'])
        S.same(field.instantiate(dict(kept)), expect, 'members are instantiated by the variant')
    elif operation == 'interpolate':
        given = dict(value)
        if 'a' in value:
            given['a'] = '${p}'
        if 's' in value:
            given['s'] = 'plain'
            kept['s'] = 'plain'
        out = attempt(field.interpolate, given, {'p': value.get('a', 0)})
        S.check(out.ok, 'a value is interpolated')
        S.same(out.value, kept, 'members are interpolated by the variant')
    else:
        S.assume(which == 1 or 'a' in kept)
        S.same(getattr(field, operation)(dict(kept)), kept, 'a value of the variant is accepted')


@harness('C09', covers=['default'])
def defaults(S):
    """a variant's defaults apply to that variant only; generated defaults belong to their variant"""
    d, e = S.int('d'), S.int('e')
    field = Structure({'x': {'a': Integer(default=d)}, 'y': {'a': Integer(), 'b': Integer(default=e)}},
        polymorphic_on='type', strict=S.bool('strict'))
    which = S.choice('which', ['x', 'y'])
    value = {'type': which}
    if S.bool('a'):
        value['a'] = S.int('a')
    S.cover('default')
    expect = dict(value)
    if which == 'x':
        expect.setdefault('a', d)
    else:
        expect['b'] = e
    S.same(field.process(dict(value), INBOUND, S.bool('serialized')), expect,
        'absent members take the defaults of the variant')
    S.same(field.generate_defaults('x'), {'a': d, 'type': 'x'}, 'defaults of the first variant')
    S.same(field.generate_defaults('y'), {'b': e, 'type': 'y'}, 'defaults of the second variant')


@harness('C09', variants=['text', 'enumeration', 'auto'], covers=['variant', 'unrecognized'], quick=12000)
def many(S, form):
    """three variants of 0, 2 and 4 own members beside two common ones; any discriminator text of <= 2
    (of 137) characters; one member of any variant, or a common one, besides; every phase"""
    structure = {'x': {}, 'yy': {'a': Integer(), 'b': Integer()},
        'Z': {'a': Text(), 'b': Integer(), 'c': Integer(), 'd': Integer()},
        '*': {'m': Integer(), 'n': Integer()}}
    own = {'x': 'mn', 'yy': 'abmn', 'Z': 'abcdmn'}
    on = {'auto': 'type', 'text': Text(name='type', nonnull=True),
        'enumeration': Enumeration(['Z', 'x', 'yy', 'w'], name='type', nonnull=True)}[form]
    strict = S.bool('strict')
    field = Structure(structure, polymorphic_on=on, strict=strict)
    identity = S.choice('known', [None, 'x', 'yy', 'Z', 'X', 'z', 'YY'])
    if identity is None:
        identity = S.text('id', 2, 0, WIDE)
        S.assume(identity.strip() == identity)
    name = S.choice('member', [None, 'a', 'b', 'c', 'd', 'm', 'n', 'e'])
    value = {'type': identity}
    if name:
        value[name] = 1
    out = attempt(field.process, dict(value), *S.choice('call', CALLS))
    which = None
    for known in own:
        if identity == known:
            which = known
    if which is None:
        S.cover('unrecognized')
        S.check(out.error, 'an unrecognized discriminator is an error')
        S.check(len(out.value.errors) == 1 and out.value.structure is None, 'and the only one')
        return
    S.cover('variant')
    if which == 'Z' and name == 'a':
        S.check(out.error and out.value.structure['a'].errors[0]['token'] == 'invalid',
            'a member is judged by the variant')
    elif name and name not in own[which] and strict:
        S.check(out.error and out.value.structure[name].errors[0]['token'] == 'unknown',
            'members of other variants are undeclared')
    else:
        S.check(out.ok, 'a value of the variant is accepted')
        expect = {'type': which}
        if name and name in own[which]:
            expect[name] = 1
        S.same(out.value, expect, 'and keeps the members of the variant')
