from hlib import *
from fieldlib import *
from copy import deepcopy

# attributes that a clone gains because they are computed when constructing a field
DERIVED = ('representation', 'timezone', 'polymorphic', 'has_required_fields')
SHARED = ('name', 'title', 'notes', 'description', 'nonnull', 'ignore_null', 'required', 'constant', 'default')
OWN_ATTRIBUTES = ('minimum', 'maximum', 'min_length', 'max_length', 'strip', 'segments', 'enumeration', 'ignored_values', 'utc',
    'extended', 'multiple', 'valid_fields', 'valid_surrogates', 'strict', 'key_order', 'unique', 'required_keys', 'pattern',
    'instantiator', 'extractor')


def aspects(field):
    return dict((k, field.aspects[k]) for k in field.aspects if k not in DERIVED)


WAYS = ('clone', 'deepcopy', 'clone of clone')


def cloned(field, way):
    if way == 'clone':
        return field.clone()
    if way == 'deepcopy':
        return deepcopy(field)
    return deepcopy(field.clone())


def nested_in(field):
    """The fields directly inside another, by place."""
    if isinstance(field, Structure):
        if field.polymorphic_on:
            found = {'on': field.polymorphic_on}
            for i in field.structure:
                for k in field.structure[i]:
                    found[(i, k)] = field.structure[i][k]
            return found
        return dict(field.structure)
    if isinstance(field, Map):
        return {'value': field.value, 'key': field.key} if field.key else {'value': field.value}
    if isinstance(field, Sequence):
        return {'item': field.item}
    if isinstance(field, Tuple):
        return dict(enumerate(field.values))
    if isinstance(field, Union):
        return dict(enumerate(field.fields))
    return {}


def match(S, a, b, label):
    """b is another field of the same type and attributes, at every depth."""
    S.check(a is not b, label + ' is a field of its own')
    S.check(type(a) is type(b), label + ' is of the same type')
    for n in SHARED + OWN_ATTRIBUTES:
        S.same(getattr(b, n), getattr(a, n), label + ' has the same ' + n)
    S.check(a.__dict__.get('preprocessor') is b.__dict__.get('preprocessor'), label + ' has the same preprocessor')
    S.same(aspects(b), aspects(a), label + ' has the same aspects')
    S.check(sorted(a.errors) == sorted(b.errors), label + ' has the same errors')
    for token in a.errors:
        S.check(a.errors[token].message == b.errors[token].message, label + ' has the same error messages')
    x, y = nested_in(a), nested_in(b)
    S.check(list(x) == list(y), label + ' has the same members')
    for k in x:
        match(S, x[k], y[k], label + ', within,')


@harness('C14', variants=list(SIMPLE), quick=8000, covers=['accepted', 'refused'])
def simple(S, kind):
    """Every scalar type with each parameter of its own absent or symbolic, cloned, deep-copied or both; the copy has the same attributes and both treat any value of two kinds or null alike in all four directions."""
    field = own(S, kind, 'copy')
    way = S.choice('way', WAYS)
    other = cloned(field, way)
    match(S, field, other, 'the copy')
    if way == 'clone':
        alike(S, field, other, judged(S, kind), 'the copy')
    if kind in ('any', 'object', 'error', 'boolean', 'uuid', 'surrogate'):
        S.cover('accepted')
        S.cover('refused')


@harness('C14', variants=list(NESTING), quick=12000, covers=['accepted', 'refused'])
def nested(S, kind):
    """Every nesting type over members with symbolic limits, cloned, deep-copied or both; the copy matches at every depth and both treat symbolic values (right and wrong kinds) alike in all four directions."""
    field = nesting(S, kind, 'brief')
    way = S.choice('way', WAYS)
    other = cloned(field, way)
    match(S, field, other, 'the copy')
    if S.b(way == 'clone', True):
        alike(S, field, other, filled(S, kind), 'the copy')


ALL = ('integer', 'float', 'decimal', 'text', 'token', 'uuid', 'email', 'enumeration', 'boolean', 'binary', 'date', 'time',
    'datetime', 'any', 'definition', 'error', 'surrogate', 'object', 'structure', 'map', 'sequence', 'tuple', 'union', 'polymorphic')


def fitting(S, kind, name):
    """A plain value that could be a default or constant of the field."""
    if kind == 'integer':
        return S.int(name)
    if kind == 'text':
        return S.text(name, 1)
    if kind == 'sequence' or kind == 'tuple':
        return [S.int(name), 'x']
    if kind in ('map', 'structure', 'polymorphic'):
        return {'a': [S.int(name)]}
    return S.choice(name, [0, 1.5, 'x', (), False])


def hook(*args):
    return args[1] if len(args) > 1 else args[0]


def given(S, kind, which, name):
    if which in ('nonnull', 'ignore_null', 'required'):
        return S.bool(name)
    if which in ('name', 'title', 'notes', 'description'):
        return S.text(name, 1)
    if which in ('default', 'constant'):
        return fitting(S, kind, name)
    if which in ('preprocessor', 'instantiator', 'extractor'):
        return hook
    if which == 'aspects':
        return {'a': S.int(name), 'b': [1, {'c': 2}]}
    if which == 'extra':
        return S.choice(name, [0, False, '', 'x', [1]])
    return [FieldError('invalid', 'mine', '%(field)s is mine')]


PARAMETERS = ('nonnull', 'ignore_null', 'required', 'name', 'title', 'notes', 'description', 'default', 'constant', 'preprocessor',
    'instantiator', 'extractor', 'aspects', 'extra', 'errors')


@harness('C14', variants=list(ALL), quick=4000)
def overriding(S, kind):
    """Every field type with one parameter of those that all types share given (symbolic values), cloned while overriding the same or another one: the clone has the override and every other attribute of the original, which keeps its own."""
    which = S.choice('which', PARAMETERS)
    S.assume(not (kind == 'email' and which == 'errors'))
    field = every_field(kind, **{which: given(S, kind, which, 'value')})
    before = dict((n, getattr(field, n)) for n in SHARED)
    step = S.choice('step', [0, 1, 5])
    if step == 0:
        match(S, field, field.clone(), 'the clone')
        return
    over = PARAMETERS[(PARAMETERS.index(which) + step - 1) % len(PARAMETERS)]
    S.assume(not (kind == 'email' and over == 'errors'))
    value = given(S, kind, over, 'override')
    clone = field.clone(**{over: value})
    if over == 'aspects':
        value = dict((n, value[n]) for n in ('a', 'b'))
    for n in SHARED:
        S.same(getattr(field, n), before[n], 'the original keeps its own')
    if over == 'preprocessor':
        S.check(clone.preprocessor is hook, 'the override applies')
    else:
        S.check(clone.__dict__.get('preprocessor') is field.__dict__.get('preprocessor'), 'other attributes stay')
    for n in SHARED + OWN_ATTRIBUTES:
        if n == over:
            S.same(getattr(clone, n), value, 'the override applies')
        else:
            S.same(getattr(clone, n), getattr(field, n), 'other attributes stay')
    if over == 'extra':
        S.same(clone.extra, value, 'an aspect is overridden')
    elif over == 'aspects':
        S.same(aspects(clone), value, 'the aspects are overridden')
    else:
        S.same(aspects(clone), aspects(field), 'the aspects stay')
    if over == 'errors':
        S.check(clone.errors['invalid'].message == '%(field)s is mine', 'errors are overridden')
        S.check(which == 'errors' or field.errors['invalid'].message != '%(field)s is mine', 'the original keeps its errors')
    x, y = nested_in(field), nested_in(clone)
    S.check(list(x) == list(y), 'the members stay')
    for k in x:
        match(S, x[k], y[k], 'a member')


TYPED = {
    'integer': [('minimum', 'int'), ('maximum', 'int')], 'text': [('min_length', 'length'), ('max_length', 'length'), ('strip', 'bool')],
    'token': [('segments', 'length')], 'binary': [('min_length', 'length'), ('max_length', 'length')],
    'sequence': [('min_length', 'length'), ('max_length', 'length'), ('unique', 'bool'), ('item', 'field')],
    'map': [('value', 'field'), ('key', 'field'), ('required_keys', 'keys')], 'structure': [('strict', 'bool'), ('structure', 'members')],
    'enumeration': [('enumeration', 'keys'), ('ignored_values', 'keys')], 'date': [('minimum', 'date'), ('maximum', 'date')],
    'time': [('minimum', 'time')], 'datetime': [('minimum', 'datetime'), ('utc', 'bool')], 'float': [('minimum', 'float')],
    'decimal': [('maximum', 'decimal')], 'tuple': [('values', 'fields')], 'union': [('fields', 'fields')],
}


@harness('C14', variants=sorted(TYPED), quick=4000)
def typed(S, kind):
    """Every type with parameters of its own, cloned while overriding one of them by a symbolic value (including zero and false): it applies, the rest and the original stay as they were."""
    field = every_field(kind, required=True, extra=[1])
    name, sort = S.choice('parameter', TYPED[kind])
    if sort == 'int':
        value = S.int('value')
    elif sort == 'length':
        value = S.int('value', 0, 3)
    elif sort == 'bool':
        value = S.bool('value')
    elif sort == 'field':
        value = Text(min_length=S.int('value', 0, 3))
    elif sort == 'fields':
        value = (Text(min_length=S.int('value', 0, 3)), Date())
    elif sort == 'keys':
        value = S.choice('value', [['a'], ['b', 'c']])
    elif sort == 'members':
        value = {'n': Text(min_length=S.int('value', 0, 3))}
    elif sort == 'date':
        value = gen_date(S, 'value')
    elif sort == 'time':
        value = gen_time(S, 'value')
    elif sort == 'datetime':
        value = gen_datetime(S, 'value', UTC)
    elif sort == 'float':
        value = S.choice('value', [0.0, -1.5])
    else:
        value = decimal_module.Decimal(S.choice('value', ['0', '1.5']))
    before = getattr(field, name)
    clone = field.clone(**{name: value})
    if sort == 'datetime':
        S.check(clone.minimum == value, 'the override applies')
    else:
        S.same(getattr(clone, name), value, 'the override applies')
    S.check(getattr(field, name) is before or getattr(field, name) == before, 'the original keeps its own')
    for n in SHARED + OWN_ATTRIBUTES:
        if n != name:
            S.same(getattr(clone, n), getattr(field, n), 'other attributes stay')
    S.check(clone.required is True and clone.extra == [1], 'shared attributes stay')


def change(S, field, kind, how):
    """Change a field in place."""
    if how == 'bound':
        if kind in ('integer', 'deep integer'):
            field.minimum = S.int('bound')
        else:
            field.min_length = S.int('bound', 0, 9)
        field.required = S.bool('flag')
    elif how == 'default':
        field.default = [S.int('default')]
    elif how == 'default in place':
        d = field.default
        if isinstance(d, dict):
            d['a'] = S.int('default')
        else:
            d.append(S.int('default'))
    elif how == 'default deep in place':
        d = field.default
        (d['a'] if isinstance(d, dict) else d[0])['x'] = S.int('default')
    elif how == 'aspect':
        field.aspects['extra'] = S.int('aspect')
    elif how == 'aspect in place':
        field.aspects['listed'].append(S.int('aspect'))
    elif how == 'aspect added':
        field.aspects['more'] = S.int('aspect')
    elif how == 'errors':
        field.errors['invalid'] = FieldError('invalid', 'other', 'other')
    elif how == 'member limits':
        members = nested_in(field)
        member = members[S.choice('member', list(members))]
        if isinstance(member, Integer):
            member.minimum = S.int('bound')
        else:
            member.min_length = S.int('bound', 0, 9)
        member.required = True
        member.aspects['extra'] = 1
    elif how == 'members':
        if isinstance(field, Structure):
            if S.bool('removing'):
                if field.polymorphic_on:
                    del field.structure['x']['a']
                else:
                    field.remove('a')
            elif field.polymorphic_on:
                field.structure['x']['n'] = Date()
            else:
                field.insert(Date(name='n'))
        elif isinstance(field, Map):
            field.value = Date()
        elif isinstance(field, Sequence):
            field.item = Date()
        elif isinstance(field, Tuple):
            field.values = (Date(),)
        else:
            field.fields = (Date(),)
    elif how == 'lists':
        if isinstance(field, Structure):
            field.key_order.append('a')
        elif isinstance(field, Map):
            field.required_keys.append('z')
        else:
            field.enumeration.append('z')


CHANGED = {
    'integer': ('bound', 'default', 'aspect', 'aspect in place', 'aspect added', 'errors'),
    'text': ('bound', 'default', 'aspect', 'errors'),
    'enumeration': ('lists', 'aspect', 'default'),
    'any': ('default in place', 'default deep in place', 'aspect in place'),
    'structure': ('bound', 'default in place', 'default deep in place', 'aspect', 'aspect in place', 'errors', 'member limits', 'members', 'lists'),
    'polymorphic': ('member limits', 'members', 'aspect in place', 'errors'),
    'map': ('bound', 'default in place', 'default deep in place', 'member limits', 'members', 'lists', 'aspect added'),
    'sequence': ('bound', 'default in place', 'default deep in place', 'member limits', 'members', 'aspect in place'),
    'tuple': ('default in place', 'member limits', 'members', 'aspect', 'errors'),
    'union': ('member limits', 'members', 'aspect'),
    'deep': ('member limits', 'members', 'aspect in place', 'deep'),
}


def subject(S, kind):
    p = {'extra': 7, 'listed': [1], 'errors': [FieldError('nonnull', 'own', 'own')]}
    inner = {'minimum': S.int('inner')}
    if kind == 'integer':
        return Integer(default=3, minimum=1, **p)
    if kind == 'text':
        return Text(default='x', min_length=1, **p)
    if kind == 'enumeration':
        return Enumeration(['a', 'b'], default='a', **p)
    if kind == 'any':
        return Field(default=S.choice('default kind', [0, 1]) and {'a': {'x': 1}} or [{'x': 1}], **p)
    if kind == 'structure':
        return Structure({'a': Integer(**inner), 'b': Text()}, key_order='b a', default={'a': {'x': 1}}, **p)
    if kind == 'polymorphic':
        return Structure({'x': {'a': Integer(**inner)}, 'y': {'b': Text()}}, polymorphic_on='type', **p)
    if kind == 'map':
        return Map(Integer(**inner), key=Text(), required_keys=['k'], default={'a': {'x': 1}}, **p)
    if kind == 'sequence':
        return Sequence(Integer(**inner), default=[{'x': 1}], **p)
    if kind == 'tuple':
        return Tuple((Integer(**inner), Text()), default=[1], **p)
    if kind == 'union':
        return Union([Integer(**inner), Text()], **p)
    return Structure({'a': Sequence(Map(Integer(**inner)), **p), 'b': Text()}, **p)


def frozen(field):
    """Everything a field holds, copied."""
    errors = dict((t, field.errors[t].message) for t in field.errors)
    held = dict((n, copied(getattr(field, n))) for n in SHARED + OWN_ATTRIBUTES)
    return type(field).__name__, held, copied(aspects(field)), errors, dict((k, frozen(f)) for k, f in nested_in(field).items())


@harness('C14', variants=sorted(CHANGED), quick=4000)
def independent(S, kind):
    """Every nesting type and four scalar types with own errors, aspects and defaults holding containers, copied in any of three ways; then the copy or the original is changed by one of up to nine edits (symbolic limits, defaults, aspects, errors, members; also inside members): the other one still holds exactly what it held."""
    field = subject(S, kind)
    other = cloned(field, S.choice('way', WAYS))
    changed, kept = (field, other) if S.bool('change the original') else (other, field)
    before = frozen(kept)
    how = S.choice('how', CHANGED[kind])
    if how == 'deep':
        changed.structure['a'].item.value.minimum = S.int('bound')
        changed.structure['a'].item.value.aspects['q'] = 1
        changed.structure['a'].aspects['listed'].append(2)
    else:
        change(S, changed, kind, how)
    S.same(frozen(kept), before, 'the other field is as before')
