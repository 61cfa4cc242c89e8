from hlib import *
from fieldlib import *
from scheme.element import Element


def parts_of(S, field, label='prints'):
    """The printed form, without the type's name and the parentheses around the rest."""
    out = attempt(repr, field)
    S.check(out.ok and isinstance(out.value, str), label)
    head = type(field).__name__ + '('
    S.check(out.value[:len(head)] == head and out.value[-1:] == ')', 'the type comes first')
    return out.value[len(head):-1]


def fits(text, parts):
    """Whether the text is these parts, in any order, with ', ' between them."""
    if not parts:
        return text == ''
    for i, part in enumerate(parts):
        rest = parts[:i] + parts[i + 1:]
        if rest:
            if text[:len(part) + 2] == part + ', ' and fits(text[len(part) + 2:], rest):
                return True
        elif text == part:
            return True
    return False


def printed(field, kind):
    """What of its own the field has to print."""
    parts = []

    def put(name, condition=None, value=None):
        actual = getattr(field, name)
        if (actual is not None) if condition is None else condition(actual):
            parts.append('%s=%r' % (name, value(actual) if value else actual))

    true, false = (lambda v: v), (lambda v: not v)
    if kind in ('integer', 'float', 'decimal', 'time'):
        put('minimum')
        put('maximum')
    elif kind == 'date':
        put('minimum', None, lambda v: v.isoformat())
        put('maximum', None, lambda v: v.isoformat())
    elif kind == 'datetime':
        put('minimum', None, lambda v: v.astimezone(UTC).isoformat()[:19] + 'Z')
        put('maximum', None, lambda v: v.astimezone(UTC).isoformat()[:19] + 'Z')
        put('utc', true)
    elif kind in ('text', 'binary', 'email', 'sequence'):
        put('min_length')
        put('max_length')
        if kind in ('text', 'email'):
            put('strip', false)
        if kind == 'email':
            put('multiple', true)
            put('extended', true)
        if kind == 'sequence':
            put('item')
            put('unique', true)
    elif kind == 'token':
        put('segments')
    elif kind == 'enumeration':
        put('enumeration', None, lambda v: list(v))
    elif kind in ('structure', 'polymorphic', 'identities'):
        put('structure')
        put('strict', false)
        put('polymorphic_on', true, lambda v: v.name)
        put('key_order', true)
    elif kind in ('map', 'keyed'):
        put('key')
        put('value')
        put('required_keys', true, sorted)
    elif kind == 'tuple':
        put('values')
    elif kind == 'union':
        put('fields')
    elif kind == 'surrogate':
        put('valid_surrogates', true, sorted)
    return parts


@harness('C37', variants=list(SIMPLE))
def own_parameters(S, kind):
    """A field of every simple type, each of its parameters absent or any value of C13's; texts and numbers as small as in C13's JSON variants."""
    field = own(S, kind, 'copy' if kind == 'time' else 'JSON')
    if kind == 'datetime':
        field.utc = S.bool('utc')
    S.check(fits(parts_of(S, field), printed(field, kind)), 'what it demands, and nothing else')
    S.check(repr(field.clone()) == repr(field), 'a clone prints alike')


@harness('C37', variants=list(NESTING))
def nested(S, kind):
    """A field of every nesting type over fields with limits of their own; the numbers -1, 0 and 1."""
    field = nesting(S, kind, 'JSON')
    S.check(fits(parts_of(S, field), printed(field, {'deep': 'structure'}.get(kind, kind))), 'what it demands, and nothing else')
    S.check(repr(field.clone()) == repr(field), 'a clone prints alike')


@harness('C37', variants=list(SIMPLE + NESTING), covers=['bare', 'given'])
def shared_parameters(S, kind):
    """A field of every type with one or two of: a name and title of 0-1 characters of two, the three flags, a default; and the field without any."""
    what = S.choice('what', ['flags', 'texts', 'default', 'silent'])
    expected, p = [], {}
    if what == 'flags':
        for n in ('nonnull', 'ignore_null', 'required'):
            p[n] = S.bool(n)
            if p[n]:
                expected.append(n + '=True')
    elif what == 'texts':
        for n in ('name', 'title'):
            if S.bool('has ' + n):
                p[n] = string(S, n, 'JSON')
                if p[n]:
                    expected.append('%s=%r' % (n, p[n]))
    elif what == 'default':
        S.assume(kind in ('integer', 'text', 'token', 'boolean', 'float', 'enumeration', 'uuid', 'any'))
        p['default'] = value_of(S, kind, 'default', 'JSON')
        if p['default'] is not None:
            expected.append('default=%r' % (p['default'],))
    else:
        p = S.choice('params', [{'description': 'd'}, {'notes': 'n'}, {'other': 1}, {'aspects': {'a': 1}}])
    kind = {'deep': 'sequence', 'keyed': 'map', 'identities': 'polymorphic'}.get(kind, kind)
    field = every_field(kind, **p)
    bare = parts_of(S, every_field(kind))
    S.cover('given' if expected else 'bare')
    own = printed(field, kind)
    S.check(fits(bare, own), 'without any of them, what it demands')
    S.check(fits(parts_of(S, field), own + expected), 'and what was declared of those, nothing else')


@harness('C37')
def enlarged(S, variant=None):
    """An enumeration of 1-2 values of four, to which 0-2 others are added, or which replace them."""
    some = lambda n: S.choice(n, [['a'], ['b', 3], ['a', 3], [None]])
    field = Enumeration(some('first'))
    parts_of(S, field)
    field.redefine(some('second'), S.choice('strategy', ['append', 'replace']))
    S.check(fits(parts_of(S, field), ['enumeration=%r' % (list(field.enumeration),)]), 'it prints its present values')


@harness('C37')
def edited(S, variant=None):
    """A structure of two fields, one of which is replaced, removed or made to differ in its limits or name, 0-1 characters of two."""
    field = Structure({'a': Integer(), 'b': Text()})
    parts_of(S, field)
    how = S.choice('how', ['merge', 'replace', 'remove', 'insert', 'limit', 'name'])
    if how == 'merge':
        field.merge({'a': Integer(minimum=S.int('n', -1, 1)), 'c': Boolean()}, S.bool('prefer'))
    elif how == 'replace':
        field = field.replace({'a': Text(min_length=S.int('n', 0, 1))})
    elif how == 'remove':
        field.remove('a')
    elif how == 'insert':
        field.insert(Integer(name='d', maximum=S.int('n', -1, 1)))
    elif how == 'limit':
        field.structure['a'].minimum = S.int('n', -1, 1)
    else:
        field.name = string(S, 'name', 'JSON')
    expected = ['structure=%r' % (field.structure,)]
    if field.name:
        expected.append('name=%r' % field.name)
    S.check(fits(parts_of(S, field), expected), 'it prints its present members')


@harness('C37', covers=['named', 'bare'])
def elements(S, variant=None):
    """An element with an id of -1 to 1 or none, a name and a title of 0-1 characters of two or none."""

    class Thing(Element):
        schema = Structure({'id': Integer(), 'name': Text(), 'title': Text(), 'other': Integer()}, name='thing')

    p, expected = {'other': S.choice('other', [None, 3])}, []
    for n in ('id', 'name', 'title'):
        if S.bool('has ' + n):
            p[n] = S.int(n, -1, 1) if n == 'id' else string(S, n, 'JSON')
            expected.append('%s=%r' % (n, p[n]))
    S.cover('named' if expected else 'bare')
    S.check(fits(parts_of(S, Thing(**p)), expected), 'an element prints what it is known by')
