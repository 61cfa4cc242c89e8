from hlib import *

NAMES = ['a', 'b', 'c', 'd']


def member(label, **params):
    """A field recognizable by its title and by what it accepts."""
    kinds = [Integer, Text, Boolean, Date]
    return kinds[label % 4](title='t%d' % label, **params)


def details(field):
    return dict((k, (f.title, f.name, f.required, f.nonnull, f.default, f.type, f.description)) for k, f in field.structure.items())


def seen(field):
    return dict((k, field.structure[k].title) for k in field.structure)


def named(field):
    return all([field.structure[k].name == k for k in field.structure])


VALUES = {'a': 1, 'b': 'x', 'c': True, 'd': date(2000, 1, 2), 'e': 5}


def same_behaviour(S, field, model, strict, order=None):
    """The edited structure processes as one built from the edited mapping."""
    fresh = Structure(dict((k, member(int(model[k][1:]))) for k in model), strict=strict)
    value = dict((k, S.choice('value ' + k, [VALUES['a'], VALUES['b']])) for k in ('a', 'd'))
    phase, serialized = CALLS[0]
    out, expect = attempt(field.process, value, phase, serialized), attempt(fresh.process, value, phase, serialized)
    S.check(out.kind == expect.kind, 'the edited structure accepts what the edited mapping does')
    if expect.ok:
        S.same(dict(out.value), dict(expect.value), 'and keeps the same members')
    elif expect.error:
        S.same(sorted([k for k in out.value.structure if isinstance(out.value.structure[k], StructuralError)]),
            sorted([k for k in expect.value.structure if isinstance(expect.value.structure[k],
            StructuralError)]), 'and refuses the same members')


def edit(S, step, field, model, expect):
    """Applies one symbolic edit to the field and to its model; returns the resulting field."""
    operation = S.choice('operation%d' % step, OPERATIONS)
    labels = {}
    if operation in ('insert', 'remove one'):
        names = [S.choice('name%d' % step, NAMES)]
    else:
        names = [k for k in NAMES if S.bool('%s%d' % (k, step))]
        if S.bool('reversed%d' % step):
            names = names[::-1]
    for i, k in enumerate(names):
        labels[k] = 10 * (step + 1) + i + (NAMES.index(k) if k in NAMES else 0)
    if operation == 'insert':
        overwrite = S.bool('overwrite%d' % step)
        k = names[0]
        new = member(labels[k])
        new.name = k
        field.insert(new, overwrite)
        if overwrite or k not in model:
            model[k] = 't%d' % labels[k]
        return field
    if operation in ('remove', 'remove one'):
        field.remove(*names)
        for k in names:
            model.pop(k, None)
        return field
    marked = S.bool('marked%d' % step) if operation in ('extend', 'replace', 'merge') else False
    structure = dict((k, member(labels[k], required=True, nonnull=True, description='new') if marked else member(labels[k])) for k in names)
    if marked:
        expect['marked'] = names
    other_name = S.bool('named otherwise%d' % step)
    if other_name:
        for k in structure:
            structure[k].name = 'other'
    if operation == 'merge':
        prefer = S.bool('prefer%d' % step)
        field.merge(structure, prefer)
        for k in names:
            if prefer or k not in model:
                model[k] = 't%d' % labels[k]
        result = field
    elif operation == 'extend':
        result = field.extend(structure)
        S.check(result is not field, 'extending makes a copy')
        for k in names:
            model[k] = 't%d' % labels[k]
    else:
        result = field.replace(structure)
        if any([k in model for k in names]):
            S.check(result is not field, 'replacing makes a copy')
        for k in names:
            if k in model:
                model[k] = 't%d' % labels[k]
    for k in names:
        if marked and (operation != 'merge' or prefer) and k in model:
            f = result.structure[k]
            S.check(f.required and f.nonnull and f.description == 'new', 'a new member has its attributes')
    S.same(sorted(structure), sorted(names), 'the given members are left alone')
    if other_name:
        S.check(all([structure[k].name == 'other' for k in structure]), 'and keep their names')
    return result


OPERATIONS = ['insert', 'merge', 'remove', 'remove one', 'extend', 'replace']


@harness('C25', variants=['plain', 'empty', 'ordered', 'loose'], covers=['edited'], quick=8000)
def one_edit(S, form):
    """one edit of any kind, any subset of four names in either order, on structures of 0-3 members (plain,
    ordered or not strict), with fields named otherwise or not: the effect of the same edit on a mapping,
    seen in the members and in what the structure accepts"""
    model = {} if form == 'empty' else {'a': 't0', 'b': 't1', 'c': 't2'}
    start = dict((k, member(i)) for i, k in enumerate(sorted(model)))
    field = Structure(start, strict=form != 'loose', key_order='c a b' if form == 'ordered' else None)
    before, around = seen(field), details(field)
    expect, notes = dict(model), {}
    result = edit(S, 0, field, expect, notes)
    S.cover('edited')
    for k in model:
        if result.structure.get(k) is not None and result.structure[k].title == model[k]:
            S.same(details(result)[k], around[k], 'an untouched member keeps its attributes')
    S.same(seen(result), expect, 'exactly the named members are changed')
    S.check(named(result), 'every member is named by its key')
    if result is not field:
        S.same(seen(field), before, 'the original is as it was')
        S.same(details(field), around, 'with the attributes of its members')
        S.check(attempt(field.process, {}).ok, 'and what it accepts')
    if not notes:
        same_behaviour(S, result, expect, form != 'loose')


@harness('C25', covers=['edited'], quick=30000, thorough=200000)
def two_edits(S):
    """two edits in sequence of any two kinds, on names a-b: the mapping they give, and copies left alone"""
    model = {'a': 't0', 'b': 't1'} if S.bool('full') else {'b': 't1'}
    field = Structure(dict((k, member(int(model[k][1:]))) for k in model))
    versions = [(field, dict(model))]
    current = field
    for step in range(2):
        operation = S.choice('operation%d' % step, ['insert', 'merge', 'remove', 'extend', 'replace'])
        names = [k for k in ('a', 'b', 'c') if S.bool('%s%d' % (k, step))]
        S.assume(len(names) < 3)
        fields = dict((k, member(10 * (step + 1) + i)) for i, k in enumerate(names))
        flag = S.bool('flag%d' % step) if operation in ('insert', 'merge') else None
        new = dict(versions[-1][1])
        if operation == 'insert':
            for k in names:
                fields[k].name = k
                current.insert(fields[k], flag)
        elif operation == 'merge':
            current.merge(fields, flag)
        elif operation == 'remove':
            current.remove(*names)
            for k in names:
                new.pop(k, None)
        elif operation == 'extend':
            current = current.extend(fields)
        else:
            current = current.replace(fields)
        for k in names:
            if operation == 'extend' or operation == 'replace' and k in new or operation in (
                    'insert', 'merge') and (flag or k not in new):
                new[k] = fields[k].title
        if current is versions[-1][0]:
            versions[-1] = (current, new)
        else:
            versions.append((current, new))
    S.cover('edited')
    for f, m in versions:
        S.same(seen(f), m, 'every version holds its own members')


@harness('C25', covers=['refused'])
def bad_members(S):
    """what is no field, at any position among good members, is refused by every edit; what the edit left is
    either the structure as it was or as the members before the bad one make it"""
    names = ['a', 'b', 'c']
    position = S.pick('position', 3)
    bad = S.choice('bad', [3, 'x', None, {}, Integer])
    structure = dict((k, member(10 + i)) for i, k in enumerate(names))
    structure[names[position]] = bad
    field = Structure({'a': member(0), 'z': member(1)})
    before = seen(field)
    operation = S.choice('operation', ['extend', 'replace', 'merge', 'insert'])
    if operation == 'insert':
        out = attempt(field.insert, bad)
    else:
        out = attempt(getattr(field, operation), structure)
    S.cover('refused')
    S.check(out.kind == 'raised' and isinstance(out.value, TypeError), 'refused with a type error')
    if operation in ('extend', 'replace', 'insert'):
        S.same(seen(field), before, 'the original is as it was')
    else:
        S.same(field.structure['z'].title, 't1', 'other members are untouched')


@harness('C25', variants=['list', 'text', 'tuple'], covers=['accepted', 'refused'], quick=16000)
def redefinition(S, form):
    """enumerations of 0-2 values (list, text or tuple) redefined once or twice by 0-2 values, appending or
    replacing: exactly the resulting set of values is accepted, any symbolic text or integer"""
    pool = ['p', 'q', 'r', 's']
    first = [v for v in pool[:2] if S.bool('has ' + v)]
    S.assume(first or form != 'text')
    field = Enumeration({'list': list(first), 'text': ' '.join(first), 'tuple': tuple(first)}[form])
    expect = list(first)
    for step in range(2):
        added = [v for v in pool[1:3] + [5] if S.bool('add%d %s' % (step, v))]
        strategy = S.choice('strategy%d' % step, ['append', 'replace', None])
        if form == 'text':
            added = [v for v in added if v != 5]
            S.assume(added)
            given = ' '.join(added)
        else:
            given = list(added)
        if strategy is None:
            field.redefine(given)
        else:
            field.redefine(given, strategy)
        expect = (expect if strategy != 'replace' else []) + added
        if form != 'text':
            S.same(given, added, 'the given values are left alone')
    value = S.choice('value', pool + [5, 6])
    out = attempt(field.process, value)
    if value in expect:
        S.cover('accepted')
        S.check(out.ok, 'a listed value is accepted')
        S.same(out.value, value, 'and kept')
    else:
        S.cover('refused')
        S.check(out.error, 'any other value is refused')
        for v in expect:
            S.check(repr(v) in out.value.errors[0]['message'], 'naming the accepted values')
        S.check(repr('s') not in out.value.errors[0]['message'], 'and no other')
    other = Enumeration(['p'])
    S.check(attempt(other.process, 'p').ok and attempt(other.process, 'q').error, 'other fields are untouched')
