from hlib import *


def refused(S, out, place, token, label):
    S.cover('refused')
    S.check(out.error, label)
    e = error_at(out, place)
    S.check(isinstance(e, ValidationError) and len(e.errors) == 1 and e.errors[0]['token'] == token,
        label + ': the reason is given')


KEYFIELDS = {
    'none': (None, None, lambda k: isinstance(k, str)),
    'text': (lambda: Text(min_length=1, strip=False), None, lambda k: isinstance(k, str) and len(k) > 0),
    'integer': (lambda: Integer(minimum=0), None,
        lambda k: isinstance(k, int) and not isinstance(k, bool) and k >= 0),
    'enumeration': (lambda: Enumeration(['a', 'b', 3]), None, lambda k: k == 'a' or k == 'b' or k == 3),
    'token': (lambda: Token(), None, lambda k: isinstance(k, str) and is_token(k)),
    'boolean': (lambda: Boolean(), None, lambda k: isinstance(k, bool)),
    'required': (lambda: Text(nonnull=True, strip=False), None, lambda k: isinstance(k, str)),
}


@harness('C28', variants=sorted(KEYFIELDS), covers=['accepted', 'refused'], quick=12000)
def map_keys(S, kind):
    """mappings of <= 3 entries whose keys are any text <= 2 (of 137 characters), any integer, or one of
    seven others, under seven key fields, natively in both directions and serialized outbound; values
    any integer; in any place"""
    make, _, good = KEYFIELDS[kind]
    value_field = Integer()
    field = Map(value_field, key=make() if make else None)
    value = {}
    n = S.pick('n', 4)
    for i in range(n):
        how = S.choice('how%d' % i, ['text', 'integer', 'other'] if i == 0 else ['fixed', 'text'])
        if how == 'text':
            key = S.text('key%d' % i, 2 if not i else 1, 0, WIDE if not i else 'ab')
        elif how == 'integer':
            key = S.int('key%d' % i, -99, 99)
        elif how == 'fixed':
            key = {'integer': 7 + i, 'enumeration': 3 if i == 1 else 'b', 'boolean': i == 1}.get(
                kind, 'f%d' % i)
        else:
            key = S.choice('other', [None, (1, 'x'), (), 1.5, b'a', 3, date(2000, 1, 1)])
        value[key] = S.int('value%d' % i)
    S.assume(len(value) == n)
    place = S.choice('place', ['alone', 'structure', 'deep'])
    outer, wrap, unwrap = placed(S, field, place)
    phase, serialized = S.choice('call', CALLS[:1] + CALLS[2:])
    out = attempt(outer.process, wrap(value), phase, serialized)
    ok = True
    for k in value:
        if k is None:
            ok = ok and kind not in ('none', 'required')
        elif not good(k):
            ok = False
    if ok:
        S.cover('accepted')
        S.check(out.ok, 'valid keys are accepted')
        result = unwrap(out.value)
        S.same(list(result.items()), list(value.items()), 'keys, values and order are kept')
    else:
        refused(S, out, place, 'invalidkeys', 'an invalid key is refused')


@harness('C28', variants=['list', 'text', 'tuple', 'none'], covers=['accepted', 'refused'])
def required_keys(S, form):
    """any subset of three required keys (declared as list, text, tuple or not at all) and any other key
    <= 1, in every phase and place; a keyed map requires processed keys"""
    names = ['a', 'bc', 'd']
    declared = {'list': list(names), 'text': 'a bc d', 'tuple': tuple(names), 'none': None}[form]
    keyed = S.bool('keyed')
    field = Map(Integer(), required_keys=declared, key=Text(strip=True) if keyed else None)
    value = {}
    for k in names:
        if S.bool(k):
            value[(' ' + k) if keyed else k] = S.choice(k + '.value', [1, None])
    other = S.text('other', 1, 0, 'axbcd')
    if S.bool('other?'):
        value[other] = 2
    place = S.choice('place', ['alone', 'map', 'sequence'])
    outer, wrap, unwrap = placed(S, field, place)
    out = attempt(outer.process, wrap(dict(value)), *S.choice('call', CALLS))
    expect = dict((k.strip() if keyed else k, v) for k, v in value.items())
    missing = [k for k in names if k not in expect] if declared else []
    if missing:
        S.cover('refused')
        S.check(out.error, 'a missing required key is refused')
        e = error_at(out, place)
        found = sorted([k for k in e.structure if isinstance(e.structure[k], StructuralError)])
        S.same(found, sorted(missing), 'exactly the missing keys are reported')
        for k in missing:
            S.check(e.structure[k].errors[0]['token'] == 'required', 'as missing')
    else:
        S.cover('accepted')
        S.check(out.ok, 'a map with every required key is accepted')
        S.same(unwrap(out.value), expect, 'and kept')


CONTAINERS = {'map': Map, 'sequence': Sequence, 'tuple': Tuple, 'structure': Structure}


@harness('C28', variants=sorted(CONTAINERS), covers=['refused'], quick=12000)
def kinds(S, kind):
    """every plain value (texts and bytes <= 2, any number, any date or time, containers of <= 2) is a value
    of a container exactly when it is of its kind, in every phase and place"""
    field = {'map': lambda: Map(Field()), 'sequence': lambda: Sequence(Field()),
        'tuple': lambda: Tuple([Field(), Field()]), 'structure': lambda: Structure({}, strict=False)}[kind]()
    what, value = gen_plain(S, 'v', alphabet='a[]{}1')
    S.assume(what != 'null')
    place = S.choice('place', PLACES)
    outer, wrap, unwrap = placed(S, field, place)
    out = attempt(outer.process, wrap(value), *S.choice('call', CALLS))
    own = {'map': ('map',), 'structure': ('map',), 'sequence': ('list',), 'tuple': ('list', 'tuple')}[kind]
    if what not in own:
        refused(S, out, place, 'invalid', 'a value of another kind is refused')
        S.check(isinstance(error_at(out, place), InvalidTypeError), 'as a wrong type')
        return
    if kind == 'tuple' and len(value) != 2:
        return refused(S, out, place, 'length', 'a tuple of another arity is refused')
    if kind == 'map':
        for k in value:
            if not isinstance(k, str):
                return refused(S, out, place, 'invalidkeys', 'a key that is no text is refused')
    S.check(out.ok, 'a value of the kind is accepted')
    result = unwrap(out.value)
    S.check(type(result) is {'map': dict, 'structure': dict, 'sequence': list, 'tuple': tuple}[kind],
        'the result is of the kind')
    if kind == 'structure':
        S.same(result, {}, 'undeclared keys are dropped')
    elif kind == 'tuple':
        S.same(result, tuple(value), 'with the same elements')
    else:
        S.same(result, value, 'with the same elements')


def equal_items(a, b):
    return a == b


UNIQUE = ['integer', 'text', 'list', 'map', 'mixed', 'float', 'stripped', 'structure', 'tuple', 'date']


@harness('C28', variants=UNIQUE, covers=['accepted', 'refused'], quick=12000)
def unique(S, kind):
    """unique sequences of <= 4 (2 for containers) items: any integers, texts of 0-1 (equal after stripping
    or not), lists, mappings, tuples, floats or a mix of booleans and numbers; every phase and place"""
    item, spec = {'integer': (Integer(), 'integer'), 'text': (Text(strip=False), 'text'),
        'list': (Sequence(Integer()), None), 'map': (Map(Integer()), None),
        'structure': (Structure({'a': Integer(), 'b': Integer()}), None),
        'tuple': (Tuple([Integer(), Integer()]), None),
        'mixed': (Field(), None), 'float': (Float(), 'float'), 'stripped': (Text(), None),
        'date': (Date(), 'date')}[kind]
    field = Sequence(item, unique=True)
    n = S.pick('n', 5 if kind in ('integer', 'text', 'stripped') else 4)
    items = []
    for i in range(n):
        name = 'v%d' % i
        if kind == 'integer':
            items.append(S.int(name))
        elif kind == 'float':
            items.append(S.float(name, special=False))
        elif kind == 'text':
            items.append(S.text(name, 1, 0, 'aAb '))
        elif kind == 'stripped':
            items.append(S.choice(name + '.pad', ['', ' ']) + S.text(name, 1, 0, 'ab'))
        elif kind == 'list':
            items.append([S.int(name + str(j)) for j in range(S.pick(name + '#', 3))])
        elif kind == 'tuple':
            items.append((S.int(name + 'a'), S.int(name + 'b')))
        elif kind == 'map':
            items.append(dict((c, S.int(name + c)) for c in 'ab' if S.bool(name + '?' + c)))
        elif kind == 'structure':
            value = {}
            for c in (('a', 'b') if i % 2 else ('b', 'a')):
                if S.bool(name + '?' + c):
                    value[c] = S.int(name + c)
            items.append(value)
        elif kind == 'date':
            items.append(date(2000, S.int(name + 'm', 1, 12), 1))
        else:
            items.append(S.choice(name, [1, 1.0, True, '1', None, 0, [], [0], '']))
    if n and S.bool('null'):
        items[0] = None
    place = S.choice('place', ['alone', 'deep'] if n < 3 else ['structure'])
    outer, wrap, unwrap = placed(S, field, place)
    phase, serialized = S.choice('call', CALLS)
    given = items
    if phase == INBOUND and serialized:
        given = [wire(spec, v) for v in items] if spec == 'date' else items
    out = attempt(outer.process, wrap(given), phase, serialized)
    kept = [v.strip() if kind == 'stripped' and v is not None else v for v in items]
    duplicate = False
    for i in range(n):
        for j in range(i):
            if kept[i] == kept[j]:
                duplicate = True
    if duplicate:
        refused(S, out, place, 'duplicate', 'equal items are refused')
    else:
        S.cover('accepted')
        S.check(out.ok, 'different items are accepted')
        expect = [wire(spec, v) for v in kept] if spec and serialized and phase == OUTBOUND else kept
        S.same(unwrap(out.value), expect, 'and kept in order')


@harness('C28', variants=[1, 2, 3, 5], covers=['accepted', 'refused'])
def arity(S, n):
    """tuples of 1, 2, 3 and 5 elements, each element good or bad, given as a list or tuple of 0-6; every
    phase and place"""
    field = Tuple([Integer(minimum=i) for i in range(n)])
    m = S.pick('m', 7)
    items = [S.int('v%d' % i, -1, 9) for i in range(m)]
    if m and S.bool('null'):
        at = S.choice('at', sorted({0, m // 2, m - 1}))
        items[at] = None
    given = items if S.bool('list') else tuple(items)
    place = S.choice('place', ['alone', 'structure', 'tuple'])
    outer, wrap, unwrap = placed(S, field, place)
    out = attempt(outer.process, wrap(given), *S.choice('call', CALLS))
    if m != n:
        return refused(S, out, place, 'length', 'another number of elements is refused')
    bad = [i for i in range(n) if items[i] is not None and items[i] < i]
    if bad:
        S.check(out.error, 'a tuple with an invalid element is refused')
        e = error_at(out, place)
        S.same([i for i in range(n) if isinstance(e.structure[i], StructuralError)], bad,
            'each element is judged by its own field')
    else:
        S.cover('accepted')
        S.check(out.ok, 'a tuple of the arity is accepted')
        S.check(type(unwrap(out.value)) is tuple, 'the result is a tuple')
        S.same(unwrap(out.value), tuple(items), 'of the same elements')


@harness('C28', variants=['map', 'sequence', 'structure', 'tuple'], covers=['accepted', 'refused'])
def elements(S, kind):
    """every element is validated by the field declared for it: <= 4 elements, each an integer, a text or
    null, under an integer with a symbolic minimum; order and keys kept"""
    lo = S.int('lo')
    n = S.pick('n', 5)
    item = Integer(minimum=lo, nonnull=True)
    values = []
    good = True
    for i in range(n):
        how = S.choice('how%d' % i, ['integer', 'text', 'null'])
        if how == 'integer':
            v = S.int('v%d' % i)
            if v < lo:
                good = False
        else:
            v = 'x' if how == 'text' else None
            good = False
        values.append(v)
    keys = ['d', 'a', 'c', 'b'][:n]
    S.assume(not (kind == 'tuple' and n == 0))
    if kind == 'map':
        field, value = Map(item), dict(zip(keys, values))
    elif kind == 'structure':
        field, value = Structure(dict((k, Integer(minimum=lo, nonnull=True)) for k in keys)), \
            dict(zip(keys, values))
    elif kind == 'sequence':
        field, value = Sequence(item), values
    else:
        field, value = Tuple([Integer(minimum=lo, nonnull=True) for i in range(n)]), tuple(values)
    phase, serialized = S.choice('call', CALLS)
    out = attempt(field.process, value, phase, serialized)
    if good:
        S.cover('accepted')
        S.check(out.ok, 'good elements are accepted')
        S.same(out.value, value, 'and kept')
        if kind == 'map':
            S.same(list(out.value), keys, 'in order')
    else:
        S.cover('refused')
        S.check(out.error, 'a bad element is refused')


KEY_MAKERS = {
    'lower': (lambda: Text(strip=False, preprocessor=lambda v: v.lower()), lambda k: k.lower()),
    'upper': (lambda: Text(strip=False, preprocessor=lambda v: v.upper()), lambda k: k.upper()),
    'strip': (lambda: Text(), lambda k: k.strip()),
    'tail': (lambda: Text(strip=False, preprocessor=lambda v: v[1:]), lambda k: k[1:]),
}


@harness('C28', variants=sorted(KEY_MAKERS), covers=['accepted', 'refused'], quick=8000)
def processed_keys(S, kind):
    """one or two symbolic keys (<= 2 letters or blanks) under four key fields that change them: a required key (of five) is
    present when a processed key equals it, whatever the keys given; null and integer values"""
    make, change = KEY_MAKERS[kind]
    required = S.choice('required', ['a', 'A', 'ab', '', 97, ' a'])
    field = Map(Integer(), key=make(), required_keys=[required])
    first = S.text('first', 2, 1, 'aAb ')
    value = {first: S.int('value') if S.bool('integer') else None}
    if S.bool('two'):
        second = S.text('second', 1, 1, 'aB')
        S.assume(change(second) != change(first))
        value[second] = 3
    place = S.choice('place', ['alone', 'deep'])
    outer, wrap, unwrap = placed(S, field, place)
    out = attempt(outer.process, wrap(value), *S.choice('call', CALLS))
    expect = dict((change(k), value[k]) for k in value)
    if required in expect:
        S.cover('accepted')
        S.check(out.ok, 'a map with the required key is accepted')
        S.same(unwrap(out.value), expect, 'under its processed keys')
    else:
        S.cover('refused')
        S.check(out.error, 'a map without the required key is refused')
        e = error_at(out, place)
        S.check(e.structure[required].errors[0]['token'] == 'required', 'as missing')
