from hlib import *

CELL = charset('a",\r\n;\'\xe9')
TYPES = ('text', 'integer', 'boolean', 'float', 'date', 'decimal', 'enumeration')


def cell(S, kind, name, size):
    """A native value for a cell."""
    if kind == 'text':
        return S.text(name, size, 0, CELL)
    if kind == 'integer':
        return S.int(name, -30, 30)
    if kind == 'boolean':
        return S.bool(name)
    if kind == 'float':
        return S.choice(name, [0.0, -1.5, 1e300, 0.1])
    if kind == 'decimal':
        return decimal_module.Decimal(S.choice(name, ['0', '-1.50', '1E+5']))
    if kind == 'date':
        return date(2024, S.int(name, 1, 12), 5)
    return S.choice(name, ['red', 'blue'])


def column_of(kind):
    if kind == 'enumeration':
        return Enumeration(['red', 'blue'])
    return build(kind)


def expected_rows(rows, columns):
    """The cells that are neither absent, nor null, nor empty, in the written columns."""
    out = []
    for row in rows:
        kept = {}
        for k in columns:
            if k in row and row[k] is not None:
                v = row[k]
                if isinstance(v, str) and len(v) == 0:
                    continue
                kept[k] = v
        out.append(kept)
    return out


def written(S, schema, rows, label, **params):
    out = attempt(schema.serialize, rows, 'csv', **params)
    S.check(out.ok and isinstance(out.value, str), label + ' can be written')
    return out.value


def read(S, schema, text, expected, label):
    back = attempt(schema.unserialize, text, 'csv')
    S.check(back.ok, label + ' can be read')
    S.same(back.value, expected, label + ' read as written')


@harness('C19', variants=[(k, n) for k in TYPES for n in (0, 1, 2)], quick=4000)
def column(S, variant):
    """Zero to two rows of one column of each of seven types, every cell absent, null or a symbolic value (texts of 0-2 characters of quotes, commas, carriage returns, line feeds, letters; integers in [-30, 30])."""
    kind, n = variant
    schema = Sequence(Structure({'k': column_of(kind)}))
    rows = []
    for i in range(n):
        state = S.choice('row%d' % i, ['value', 'null', 'absent'])
        rows.append({'k': cell(S, kind, 'cell%d' % i, 2 if n == 1 else 1)} if state == 'value' else {'k': None} if state == 'null' else {})
    read(S, schema, written(S, schema, rows, 'a column'), expected_rows(rows, ['k']), 'a column')


@harness('C19', variants=[(a, b) for a in TYPES for b in TYPES if a <= b], quick=4000)
def row(S, variant):
    """Two columns of any two of the seven types (also with nested members, which are left out) and one row with both cells absent, null or symbolic, followed by a fixed one."""
    a, b = variant
    schema = Sequence(Structure({'a': column_of(a), 'b': column_of(b), 'n': Sequence(Integer()), 's': Structure({'x': Integer()})}))
    first = {}
    for k, kind in (('b', b), ('a', a)):
        state = S.choice(k, ['value', 'null', 'absent'])
        if state == 'value':
            first[k] = cell(S, kind, 'cell ' + k, 1)
        elif state == 'null':
            first[k] = None
    rows = [first, {'a': {'text': 'x', 'integer': 1, 'boolean': False, 'float': 2.5, 'date': date(2000, 1, 2),
        'decimal': decimal_module.Decimal('3'), 'enumeration': 'red'}[a]}]
    if S.bool('nested'):
        rows[0]['n'] = [1, 2]
        rows[1]['s'] = {'x': 3}
    if S.bool('reversed'):
        rows = [rows[1], rows[0]]
    text = written(S, schema, rows, 'a table')
    read(S, schema, text, expected_rows(rows, ['a', 'b']), 'a table')
    S.check(text.startswith('"a","b"\r\n'), 'the header names every flat column')


@harness('C19', variants=['wide', 'three', 'breaks'], quick=6000)
def texts(S, sort):
    """One text of 0-1 characters of the whole range (NUL aside); three texts of 0-1 characters in one row; a text of 0-3 quotes, carriage returns and line feeds."""
    if sort == 'wide':
        t = S.text('cell', 1, 0, WIDE)
        S.assume(t != '\0')
        rows = [{'a': t, 'b': 'z'}]
    elif sort == 'breaks':
        rows = [{'a': S.text('cell', 3, 0, charset('"\r\na')), 'b': 'z'}]
    else:
        rows = [{'a': S.text('a', 1, 0, CELL), 'b': S.text('b', 1, 0, CELL), 'c': S.text('c', 1, 0, CELL)}, {'b': 'z'}]
    schema = Sequence(Structure(dict((k, Text(strip=False)) for k in rows[0])))
    read(S, schema, written(S, schema, rows, 'a text'), expected_rows(rows, ['a', 'b', 'c']), 'a text')


COLUMNS = [('a',), ('b',), ('a', 'b'), ('b', 'a'), ('c', 'a', 'b'), ('b', 'c'), ('c', 'b', 'a')]


@harness('C19', quick=4000)
def selection(S):
    """Every selection of columns from a list of seven (given as a list or a text) over a table of two rows with an integer, a text of 0-1 characters and a boolean, which may be absent."""
    schema = Sequence(Structure({'a': Integer(), 'b': Text(strip=False), 'c': Boolean()}))
    rows = [{'a': S.int('a', -9, 9)}, {'c': S.bool('c'), 'a': 7}]
    if S.bool('has b'):
        rows[0]['b'] = S.text('b', 1, 0, CELL)
    columns = S.choice('columns', COLUMNS)
    given = list(columns) if S.bool('listed') else ','.join(columns)
    text = written(S, schema, rows, 'a selection', columns=given)
    S.check(text.startswith(','.join(['"%s"' % c for c in columns]) + '\r\n'), 'the header names the columns in their order')
    read(S, schema, text, expected_rows(rows, columns), 'a selection')
    S.same(Csv.unserialize(Csv.serialize(rows, schema, given), schema), expected_rows(rows, columns), 'also by the format itself')


@harness('C19', quick=4000)
def within(S):
    """A table of 0-2 rows inside a structure, addressed by a path of one or two keys."""
    inner = Sequence(Structure({'a': Integer(), 'b': Text(strip=False)}))
    schema = Structure({'t': inner, 'u': Structure({'t': inner})})
    rows = [{'a': S.int('a%d' % i, -9, 9), 'b': S.text('b%d' % i, 1, 1, CELL)} for i in range(S.pick('#', 3))]
    if S.bool('deeper'):
        text = schema.serialize({'u': {'t': rows}}, 'csv', path='u.t')
    else:
        text = schema.serialize({'t': rows}, 'csv', path='t')
    read(S, inner, text, rows, 'a table inside a structure')


@harness('C19')
def refusals(S):
    """Values that are no lists, schemas that are no sequence of structures: refused with an error of value or type."""
    good = Sequence(Structure({'a': Integer()}))
    schema = S.choice('schema', [0, 1, 2])
    if schema == 0:
        out = attempt(Csv.serialize, S.choice('value', [{'a': 1}, 'x', 3, None]), good)
    else:
        bad = Sequence(Integer()) if schema == 1 else Structure({'a': Integer()})
        out = attempt(Csv.serialize, [1], bad) if S.bool('writing') else attempt(Csv.unserialize, '"a"\r\n"1"\r\n', bad)
    S.check(out.kind == 'raised' and isinstance(out.value, (ValueError, TypeError)), 'refused')


@harness('C19', variants=[(a, b) for a in TYPES for b in TYPES], quick=3000)
def orders(S, variant):
    """Every ordered selection of two or three columns out of three, of any two of the seven types (the third of the first one's), over a row with a symbolic cell and a fixed row."""
    a, b = variant
    fixed = {'text': 'x', 'integer': 1, 'boolean': False, 'float': 2.5, 'date': date(2000, 1, 2),
        'decimal': decimal_module.Decimal('3'), 'enumeration': 'red'}
    kinds = {'k': a, 'l': b, 'm': a}
    schema = Sequence(Structure(dict((k, column_of(kinds[k])) for k in kinds)))
    columns = S.choice('columns', [('k', 'l', 'm'), ('k', 'm', 'l'), ('l', 'k', 'm'), ('l', 'm', 'k'), ('m', 'k', 'l'), ('m', 'l', 'k'),
        ('k', 'l'), ('l', 'k'), ('k', 'm'), ('m', 'k'), ('l', 'm'), ('m', 'l')])
    at = S.choice('at', ['k', 'l', 'm'])
    row = dict((k, fixed[kinds[k]]) for k in kinds)
    row[at] = cell(S, kinds[at], 'cell', 1)
    if S.bool('missing'):
        del row[columns[0]]
    rows = [row, {'l': fixed[b]}]
    text = written(S, schema, rows, 'a selection', columns=list(columns))
    S.check(text.startswith(','.join(['"%s"' % c for c in columns]) + '\r\n'), 'the header names the columns in their order')
    read(S, schema, text, expected_rows(rows, columns), 'a selection')
