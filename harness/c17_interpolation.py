from hlib import *
from scheme.interpolation import Interpolator, interpolate_parameters

LITERAL = charset('ab $}{%#\n\r\t"\'\\\xe9\u2028|-.0')
REFERENCES = ['${x}', '${ x }', '${  x}', ' ${x}\n', '\t${ x\n}  ']
KINDS = ['boolean', 'integer', 'float', 'decimal', 'date', 'time', 'datetime', 'uuid', 'binary', 'enumeration', 'definition', 'token', 'email', 'text', 'surrogate']


def plain_text(S, name, size, alphabet=LITERAL):
    """Text with nothing in it that begins a reference, a directive or a comment."""
    text = S.text(name, size, 0, alphabet)
    S.assume(not ('${' in text or '{%' in text or '{#' in text))
    return text


def leaf(S, kind):
    """A field, a value of it, and other parameters with the value each converts to."""
    if kind == 'boolean':
        v = S.bool('v')
        return Boolean(), v, []
    if kind == 'integer':
        v = S.int('v', -99, 99)
        return Integer(), v, [(lambda: str(v), v), (lambda: ' %d ' % v, v), (lambda: 3.0, 3)]
    if kind == 'float':
        v = S.choice('v', [0.5, -3.0, 1e300])
        return Float(), v, [(lambda: repr(v), v), (lambda: 7, 7.0)]
    if kind == 'decimal':
        v = decimal_module.Decimal(S.choice('sign', ['', '-']) + S.text('v', 2, 1, DIGITS) + '.5')
        return Decimal(), v, [(lambda: str(v), v), (lambda: 7, decimal_module.Decimal(7))]
    if kind == 'date':
        return Date(), gen_date(S, 'v'), []
    if kind == 'time':
        return Time(), gen_time(S, 'v'), []
    if kind == 'datetime':
        return DateTime(utc=True), gen_datetime(S, 'v', UTC), []
    if kind == 'uuid':
        return UUID(), '00000000-0000-0000-0000-0000000000' + S.text('v', 2, 2, HEX), []
    if kind == 'binary':
        return Binary(), S.bytes('v', 2, 0), []
    if kind == 'enumeration':
        e = [1, 'a', None, 2.5, 'b c', '']
        return Enumeration([1, 'a', 2.5, 'b c', '']), S.choice('v', [1, 'a', 2.5, 'b c', '']), []
    if kind == 'definition':
        return Definition(), S.choice('v', [lambda: Text(name='x'), lambda: Sequence(Integer())])(), []
    if kind == 'token':
        return Token(), 'a:' + S.text('v', 2, 1, charset('az09_-.')), []
    if kind == 'email':
        return Email(), S.text('v', 2, 1, charset('az09')) + '@b.com', []
    return Text(), plain_text(S, 'v', S.b(2, 3)), []


@harness('C17', variants=KINDS[:-1])
def referenced(S, kind):
    """every kind of leaf field; all values within 2 characters, 2 digits, all dates and times; a reference to the parameter written in five ways with blanks around and within, through attributes and items of a nested parameter, and beside up to two other parameters; numbers also from their text; the null parameter; an undefined parameter; values already of the field's type and null as the subject"""
    field, value, converted = leaf(S, kind)
    how = S.choice('how', ['itself', 'referenced', 'converted', 'nested', 'null', 'nothing', 'undefined'])
    template = kind in ('text', 'token', 'email')
    if how == 'itself':
        S.same(field.interpolate(value, {'x': 1, 'y': 'q'}), value, 'a value of the field passes through')
        return
    if how == 'nothing':
        S.check(field.interpolate(None, {'x': value}) is None, 'null stays null')
        return
    if how == 'null':
        if template:
            return
        S.check(field.interpolate(S.choice('reference', REFERENCES), {'x': None}) is None, 'a null parameter is null')
        return
    if how == 'undefined':
        if template:
            return
        out = attempt(field.interpolate, S.choice('reference', REFERENCES), {'y': value, 'xx': value})
        S.check(out.kind == 'raised' and isinstance(out.value, UndefinedParameterError), 'an undefined parameter is reported')
        return
    if how == 'converted':
        if not converted:
            return
        make, value = S.choice('from', converted)
        S.same(field.interpolate('${x}', {'x': make()}), value, 'the parameter is converted')
        return
    if how == 'nested':
        inner, reference = S.choice('path', [('a', '${x.a}'), ('a', "${x['a']}"), (1, '${x[1]}')])
        x = {inner: value, 'b': 'no'} if inner == 'a' else ['no', value]
        S.same(field.interpolate(reference, {'x': x, 'a': 'no'}), value, 'the value within the parameter')
        return
    reference = S.choice('reference', REFERENCES)
    parameters = {'x': value}
    other = S.choice('others', [(), ('y',), ('y', 'xx')])
    for name in other:
        parameters[name] = 'no'
    expected = value
    if template:
        expected = reference[:reference.index('$')] + value + reference[reference.index('}') + 1:]
    S.same(field.interpolate(reference, parameters), expected, 'the value of the parameter')
    S.check(sorted(parameters) == sorted(['x'] + list(other)), 'the parameters are left alone')


@harness('C17', variants=['text', 'email', 'token', 'others', 'beside', 'wide', 'function'])
def unreferenced(S, variant):
    """text of up to 5 characters (thorough 6) out of template punctuation, blanks, line breaks of both kinds, quotes and letters, or of 2 arbitrary characters, or of a reference beside other text for the fields that take a reference only, otherwise without the beginning of a reference, directive or comment: through Text, Email, Token, the fields that take a reference only, and the function itself"""
    if variant == 'wide':
        text = plain_text(S, 't', 2, WIDE)
    else:
        text = plain_text(S, 't', S.b(5, 6) if variant not in ('others', 'beside') else 3)
    if variant == 'beside':
        before, after = plain_text(S, 'before', 2), plain_text(S, 'after', S.b(2, 3))
        S.assume(before.strip() != '' or after.strip() != '')
        text = before + S.choice('reference', ['${a}', '${ a }', '${a}${a}']) + after
        S.assume(text[-1:] != '$')
        for field in (Field(), UUID(), Boolean(), DateTime(utc=True)):
            S.same(field.interpolate(text, {'a': 1}), text, 'text that is not just a reference is returned')
        return
    if variant == 'others':
        text = text + S.choice('tail', ['', '$', '}', '${', '${}'])
        fields = [Field(), UUID(), Date(), Boolean()]
        for field in fields:
            S.same(field.interpolate(text, {'a': 1}), text, 'text that is no reference is returned')
        return
    if variant == 'function':
        S.same(interpolate_parameters(text, {'a': 1}, S.bool('simple')), text, 'text without references is returned')
        return
    field = {'text': Text, 'wide': Text, 'email': Email, 'token': Token}[variant]()
    S.same(field.interpolate(text, {'a': 1, 'x': 'y'}), text, 'text without references is returned')


@harness('C17', variants=['one', 'two', 'between', 'value', 'kinds', 'undefined', 'custom'])
def mixed(S, variant):
    """one or two references among literal text of up to 3 characters each (thorough 4) out of template punctuation, blanks, line feeds, quotes and letters (carriage returns aside: templates read every kind of line end as one); texts of up to 3 arbitrary characters, integers and booleans as the values, also values that look like references; parameters that are undefined; an interpolator with a filter of its own"""
    alphabet = LITERAL - charset('\r')
    field = Text()
    if variant == 'one':
        a, b = plain_text(S, 'a', S.b(3, 4), alphabet), plain_text(S, 'b', S.b(3, 4), alphabet)
        v = S.text('v', 1, 0)
        S.same(field.interpolate(a + '${x}' + b, {'x': v, 'y': 'no'}), a + v + b, 'the text with the value in place')
    elif variant == 'two':
        a, b = plain_text(S, 'a', 1, alphabet), plain_text(S, 'b', 2, alphabet)
        v, w = S.text('v', 1, 0), S.text('w', 1, 0)
        S.same(field.interpolate(a + '${x}' + b + '${ y }', {'x': v, 'y': w}), a + v + b + w, 'the text with both values in place')
    elif variant == 'between':
        a, b, c = [plain_text(S, n, 1, alphabet) for n in 'abc']
        S.same(field.interpolate(a + '${x}' + b + '${x}' + c, {'x': '<x>'}), a + '<x>' + b + '<x>' + c, 'the text with the value in both places')
    elif variant == 'value':
        v = S.text('v', 3, 0)
        tail = S.choice('tail', ['', '${y}', '{% if', '{# c #}', '&<>"\'', '%s%(y)s{0}', '\\1'])
        v = v + tail
        S.same(field.interpolate('<${x}|${y}>', {'x': v, 'y': 'why'}), '<' + v + '|why>', 'the value is taken literally')
    elif variant == 'kinds':
        i = S.int('i', -120, 120)
        b = S.bool('b')
        S.same(field.interpolate('${i}${b}${i}', {'i': i, 'b': b}), str(i) + ('True' if b else 'False') + str(i), 'values as their text')
    elif variant == 'undefined':
        a, b = plain_text(S, 'a', 2, alphabet), plain_text(S, 'b', 1, alphabet)
        S.same(field.interpolate(a + '${nowhere}' + b, {'x': 1}), a + b, 'nothing stands for an undefined parameter')
    else:
        v = S.text('v', 2, 0)
        engine = Interpolator(filters={'twice': twice}, globals={'g': v})
        a = plain_text(S, 'a', 1, alphabet)
        S.same(field.interpolate(a + '${x|twice}-${g}', {'x': v}, engine), a + v + v + '-' + v, 'the interpolator given is used')
        S.same(Field().interpolate('${x|twice}', {'x': v}, engine), v + v, 'the interpolator given is used')
        S.same(Structure({'a': Text(), 'b': Sequence(Map(Integer()))}).interpolate({'a': '${x|twice}', 'b': [{'k': '${[1]|twice|length}'}]}, {'x': v}, engine), {'a': v + v, 'b': [{'k': 2}]}, 'the interpolator given is used within')


def twice(value):
    return value + value


SOURCES = ['literal', 'reference', 'undefined', 'null']


def source(S, name, literal, reference, value):
    """(subject, expected, present)"""
    kind = S.choice(name, SOURCES)
    if kind == 'literal':
        return literal, literal, True
    if kind == 'reference':
        return reference, value, True
    if kind == 'null':
        return None, None, True
    return '${nowhere}', None, False


@harness('C17', variants=['structure', 'map', 'sequence', 'tuple', 'deep', 'deeper', 'whole', 'polymorphic', 'unknown'])
def nested(S, variant):
    """structures of three members, maps, sequences and tuples of two, nested up to four deep; every combination, per member, of a value, a reference, an undefined reference, null and absence; integer, date and text members; the container itself as a parameter; all parameter values within two digits, all dates of a month"""
    i = S.int('i', -99, 99)
    d = date(2024, 2, S.int('day', 1, 29))
    parameters = {'i': i, 'd': d, 't': 'tt'}
    if variant == 'structure':
        schema = Structure({'a': Integer(), 'b': Date(), 'c': Text()})
        subject, expected = {}, {}
        for name, literal, reference, value in (('a', 5, '${i}', i), ('b', date(2000, 1, 1), '${d}', d)):
            if S.bool('has.' + name):
                s, e, present = source(S, name, literal, reference, value)
                subject[name] = s
                if present:
                    expected[name] = e
        subject['c'] = '<${t}${i}>'
        expected['c'] = '<tt' + str(i) + '>'
    elif variant == 'map':
        schema = Map(Integer())
        subject, expected = {}, {}
        for name in ('p', 'q', 'r'):
            if S.bool('has.' + name):
                s, e, present = source(S, name, 7, ' ${ i }', i)
                subject[name] = s
                if present:
                    expected[name] = e
    elif variant == 'sequence':
        schema = Sequence(Date())
        subject, expected = [], []
        complete = True
        for n in range(S.choice('n', [0, 1, 2, 3])):
            s, e, present = source(S, 'item%d' % n, date(2000, 1, 1), '${d}', d)
            subject.append(s)
            expected.append(e)
            complete = complete and present
        if not complete:
            out = attempt(schema.interpolate, subject, parameters)
            S.check(out.kind == 'raised' and isinstance(out.value, UndefinedParameterError), 'an undefined item is reported')
            return
    elif variant == 'tuple':
        schema = Tuple((Integer(), Date(), Text()))
        a, x, first = source(S, 'a', 5, '${i}', i)
        b, y, second = source(S, 'b', date(2000, 1, 1), '${d}', d)
        subject = [a, b, '${t}!']
        expected = (x, y, 'tt!')
        if S.bool('tuple'):
            subject = tuple(subject)
        if not (first and second):
            out = attempt(schema.interpolate, subject, parameters)
            S.check(out.kind == 'raised' and isinstance(out.value, UndefinedParameterError), 'an undefined value is reported')
            return
    elif variant == 'deep':
        schema = Structure({'m': Map(Structure({'a': Integer(), 'b': Date()})), 'z': Text()})
        subject, expected = {'m': {}, 'z': 'z'}, {'m': {}, 'z': 'z'}
        for key in ('k', 'l'):
            a, x, first = source(S, key + 'a', 5, '${i}', i)
            b, y, second = source(S, key + 'b', date(2000, 1, 1), '${d}', d)
            subject['m'][key] = {'a': a, 'b': b}
            expected['m'][key] = {}
            if first:
                expected['m'][key]['a'] = x
            if second:
                expected['m'][key]['b'] = y
    elif variant == 'deeper':
        schema = Structure({'s': Sequence(Tuple((Structure({'a': Integer(), 'm': Map(Date())}), Text()))), 'o': Integer()})
        a, x, first = source(S, 'a', 5, '${i}', i)
        b, y, second = source(S, 'b', date(2000, 1, 1), '${d}', d)
        o, z, third = source(S, 'o', 6, '${i}', i)
        subject = {'s': [({'a': a, 'm': {'k': b, 'l': '${d}'}}, '${t}'), ({}, 'x')], 'o': o}
        within = {'m': {'l': d}}
        if first:
            within['a'] = x
        if second:
            within['m']['k'] = y
        expected = {'s': [(within, 'tt'), ({}, 'x')]}
        if third:
            expected['o'] = z
    elif variant == 'whole':
        kind = S.choice('kind', ['structure', 'map', 'sequence', 'tuple', 'union'])
        reference = S.choice('reference', REFERENCES)
        schema, value = {
            'structure': (lambda: (Structure({'a': Integer(), 'b': Date()}), {'a': i, 'b': d})),
            'map': (lambda: (Map(Integer()), {'k': i, 'l': None})),
            'sequence': (lambda: (Sequence(Date()), [d, None, d])),
            'tuple': (lambda: (Tuple((Integer(), Date())), (i, d))),
            'union': (lambda: (Union((Integer(), Sequence(Integer()))), S.choice('either', [i, [i, 4]]))),
        }[kind]()
        S.same(schema.interpolate(reference, {'x': value, 'y': 1}), value, 'the container from the parameter')
        S.check(schema.interpolate(reference, {'x': None}) is None, 'a null parameter is null')
        out = attempt(schema.interpolate, reference, {'y': value})
        S.check(out.kind == 'raised' and isinstance(out.value, UndefinedParameterError), 'an undefined parameter is reported')
        return
    elif variant == 'polymorphic':
        schema = Structure({'x': {'a': Integer()}, 'y': {'b': Date(), 'c': Text()}}, polymorphic_on='k')
        which = S.choice('which', ['x', 'y'])
        a, x, first = source(S, 'm', 5 if which == 'x' else date(2000, 1, 1), '${i}' if which == 'x' else '${d}', i if which == 'x' else d)
        subject = {'k': which, 'a' if which == 'x' else 'b': a}
        expected = {'k': which}
        if first:
            expected['a' if which == 'x' else 'b'] = x
    else:
        # members the structure does not declare are not part of it; other containers are refused
        schema, good, bad = S.choice('schema', [
            lambda: (Structure({'a': Integer()}), {'a': '${i}', 'zzz': 4}, [[], 'text', 5, (1,)]),
            lambda: (Map(Integer()), {'a': '${i}'}, [[], 'text', 5]),
            lambda: (Sequence(Integer()), ['${i}'], [{}, 'text', 5]),
            lambda: (Tuple((Integer(),)), ['${i}'], [{}, 'text', 5])])()
        out = schema.interpolate(good, parameters)
        S.same(list(out.values()) if isinstance(out, dict) else list(out), [i], 'what is declared is interpolated')
        for candidate in bad:
            out = attempt(schema.interpolate, candidate, parameters)
            S.check(out.kind == 'raised' and isinstance(out.value, CannotInterpolateError), 'anything else cannot be interpolated')
        return
    before = repr(subject) if variant != 'deeper' else None
    out = schema.interpolate(subject, parameters)
    S.same(out, expected, 'every member is interpolated')
    S.check(out is not subject, 'the subject is left alone')
    S.check(before is None or repr(subject) == before, 'the subject is left alone')


@harness('C17', variants=['text', 'number', 'containers', 'enumeration'])
def either(S, variant):
    """unions of up to four members: the first member that can take the value gives the result; integers within two digits, texts of one character without references"""
    i = S.int('i', -99, 99)
    if variant == 'text':
        schema = Union((Integer(), Text()))
        t = S.text('t', 1, 1, charset('ab-+ \n5') - charset('\r'))
        value = S.choice('value', [t, 'x' + t, i, '${i}', '${t}', 'a${i}b', None])
        expected = {'${i}': i, '${t}': None, 'a${i}b': 'a' + str(i) + 'b'}.get(value, value) if isinstance(value, str) and value[:1] in '$a' else value
        if value == '${t}':
            value, expected = '${t}', t
        if isinstance(expected, str):
            try:
                expected = int(expected)
            except ValueError:
                pass
        S.same(schema.interpolate(value, {'i': i, 't': t}), expected, 'the first member that can')
    elif variant == 'number':
        schema = Union((Decimal(), Float(), Boolean()))
        d = decimal_module.Decimal('1.5')
        value, expected = S.choice('value', [(d, d), ('${d}', d), ('2.5', decimal_module.Decimal('2.5')), (True, True), ('${b}', True), (3.5, 3.5)])
        out = schema.interpolate(value, {'d': d, 'b': True, 'i': i})
        S.check(out == expected, 'the first member that can')
    elif variant == 'containers':
        schema = Union((Integer(), Text(), Map(Integer()), Sequence(Integer())))
        value, expected = S.choice('value', [({'a': '${i}'}, {'a': i}), (['${i}', 2], [i, 2]), ('${l}', [i]), ('${m}', {'k': i}), ([], []), ('${i}', i), (i, i), ('a-${i}', 'a-' + str(i))])
        S.same(schema.interpolate(value, {'i': i, 'l': [i], 'm': {'k': i}}), expected, 'the first member that can')
    else:
        schema = Union((Enumeration(['a', 'b']), Integer()))
        value, expected = S.choice('value', [('a', 'a'), ('${e}', 'b'), ('${i}', i), (i, i), (None, None)])
        S.same(schema.interpolate(value, {'i': i, 'e': 'b'}), expected, 'the first member that can')
        out = attempt(schema.interpolate, S.choice('bad', ['c', '${d}', ['a']]), {'d': 'dd'})
        S.check(out.kind == 'raised' and isinstance(out.value, CannotInterpolateError), 'nothing can')


@harness('C17')
def bare_schemas(S):
    """Structures of no member or one, maps, sequences and tuples, and variants of none, interpolating values with none, one or other members: only members
    that are declared come, in containers of their own."""
    n, t = S.int('n', 0, 2), S.choice('t', ['a', '${p}', ''])
    value = S.choice('value', [{}, {'x': t}, {'x': t, 'y': n}])
    kind = S.choice('kind', ['none', 'one', 'map', 'variant', 'sequence', 'tuple', 'item'])
    seen = 'v' if t == '${p}' else t
    field, given, expected = {
        'none': lambda: (Structure({}), value, {}),
        'one': lambda: (Structure({'x': Text()}), value, {'x': seen} if 'x' in value else {}),
        'map': lambda: (Map(Text()), {} if not value else {'x': t}, {} if not value else {'x': seen}),
        'variant': lambda: (Structure({'u': {}, 'w': {'x': Text()}}, polymorphic_on='on'), dict(value, on='u'), {'on': 'u'}),
        'sequence': lambda: (Sequence(Text()), [] if not value else [t], [] if not value else [seen]),
        'tuple': lambda: (Tuple((Text(),)), [t], (seen,)),
        'item': lambda: (Sequence(Structure({})), [value, {}], [{}, {}]),
    }[kind]()
    got = attempt(field.interpolate, given, {'p': 'v', 'x': 'no', 'on': 'w'})
    S.same(got.value, expected, 'what is declared')
    S.check(got.value is not given and (kind != 'item' or got.value[0] is not value), 'in containers of their own')
