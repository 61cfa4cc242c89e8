from hlib import *

# trees: (kind, label, children) with children by key or index
TREES = {
    'structure': ('structure', 's', {'a': ('integer', 'a'), 'b': ('text', 'b'), 'c': ('date', 'c')}),
    'nested': ('structure', 's', {'m': ('map', 'm', ('sequence', 'q', ('integer', 'i'))), 'z': ('text', 'z')}),
    'sequence': ('sequence', 's', ('structure', 't', {'a': ('integer', 'a'), 'b': ('map', 'b', ('text', 'x'))})),
    'map': ('map', 'm', ('map', 'n', ('structure', 's', {'a': ('boolean', 'a')}))),
    'tuple': ('tuple', 't', [('integer', 'a'), ('sequence', 'b', ('text', 'c')), ('text', 'd')]),
    'union': ('union', 'u', [('integer', 'a'), ('structure', 'b', {'k': ('text', 'c')}), ('text', 'd')]),
    'polymorphic': ('polymorphic', 'p', {'x': {'a': ('integer', 'a'), 'b': ('sequence', 'b', ('text', 'c'))},
        'y': {'a': ('text', 'd')}}),
    'variants inside': ('sequence', 's', ('polymorphic', 'p', {'x': {'a': ('integer', 'a')}, 'y': {'b': (
        'map', 'b', ('text', 'c'))}})),
    'mixed': ('tuple', 't', [('union', 'u', [('sequence', 'q', ('integer', 'i')), ('text', 'x')]),
        ('map', 'm', ('tuple', 'v', [('integer', 'j')]))]),
    'scalar': ('integer', 'i'),
}
SCALARS_24 = {'integer': Integer, 'text': Text, 'date': Date, 'boolean': Boolean}
PARAMS = {'structure': {'strict': False, 'key_order': 'c a b', 'nonnull': True}, 'sequence': {'min_length': 1,
    'unique': True}, 'map': {'required_keys': ['k'], 'required': True}, 'tuple': {'description': 'd'},
    'union': {'notes': 'n'}, 'polymorphic': {'strict': False}}


def build_tree(tree):
    kind, label = tree[0], tree[1]
    if kind in SCALARS_24:
        return SCALARS_24[kind](title=label)
    below = tree[2]
    params = dict(PARAMS[kind], title=label)
    if kind == 'structure':
        return Structure(dict((k, build_tree(below[k])) for k in below), **params)
    if kind == 'polymorphic':
        return Structure(dict((i, dict((k, build_tree(below[i][k])) for k in below[i])) for i in below),
            polymorphic_on='type', **params)
    if kind == 'sequence':
        return Sequence(build_tree(below), **params)
    if kind == 'map':
        return Map(build_tree(below), key=Text(), **params)
    if kind == 'tuple':
        return Tuple([build_tree(t) for t in below], **params)
    return Union([build_tree(t) for t in below], **params)


def below(field):
    """The nested fields of a field by place, discriminators and map keys aside."""
    if isinstance(field, Structure):
        if field.polymorphic_on:
            return [((i, k), field.structure[i][k]) for i in field.structure for k in field.structure[i]
                if k != 'type']
        return [(k, field.structure[k]) for k in field.structure]
    if isinstance(field, Sequence):
        return [('item', field.item)]
    if isinstance(field, Map):
        return [('value', field.value)]
    if isinstance(field, Tuple):
        return list(enumerate(field.values))
    if isinstance(field, Union):
        return list(enumerate(field.fields))
    return []


SEEN = ('title', 'nonnull', 'required', 'min_length', 'unique', 'required_keys', 'description', 'notes', 'strict',
    'key_order')


def same_attributes(S, a, b):
    S.check(type(a) is type(b), 'a rebuilt field keeps its type')
    S.same([getattr(a, n) for n in SEEN], [getattr(b, n) for n in SEEN], 'and its attributes')
    if isinstance(a, Map):
        S.check(isinstance(a.key, Text) and isinstance(b.key, Text), 'and its key field')
    if isinstance(a, Structure) and a.polymorphic_on:
        S.check(a.polymorphic_on.name == b.polymorphic_on.name, 'and its discriminator')


def labels(tree):
    found = [tree[1]]
    if len(tree) > 2:
        b = tree[2]
        if tree[0] == 'polymorphic':
            children = [b[i][k] for i in b for k in b[i]]
        elif isinstance(b, dict):
            children = list(b.values())
        elif isinstance(b, list):
            children = b
        else:
            children = [b]
        for c in children:
            found.extend(labels(c))
    return found


def snapshot(field):
    return [field.title, [(k, f, snapshot(f)) for k, f in below(field)]]


def unchanged(S, field, snap):
    S.check(field.title == snap[0], 'the original keeps its attributes')
    now = below(field)
    S.check(len(now) == len(snap[1]), 'and its members')
    for (k, f), (k0, f0, s0) in zip(now, snap[1]):
        S.check(k == k0 and f is f0, 'each the same field at its place')
        unchanged(S, f, s0)


ANSWERS = ['descend', 'replace', 'keep', 'itself', 'true']


@harness('C24', variants=sorted(TREES), covers=['same'], quick=20000, thorough=100000)
def transform(S, name):
    """ten schemas of depth <= 4 with up to seven fields: for each field the transformation answers nothing,
    a new field, False, the field itself or True, in every combination"""
    tree = TREES[name]
    field = build_tree(tree)
    answers, replacements, offered = {}, {}, []
    all_labels = labels(tree)
    wide = len(all_labels) > 4

    def transformer(f):
        offered.append(f)
        label = f.title
        if label not in answers:
            answers[label] = S.choice('answer ' + label, ANSWERS[:3] if wide else ANSWERS)
        answer = answers[label]
        if answer == 'replace':
            replacements[label] = Decimal(title='new ' + label)
            return replacements[label]
        return {'descend': None, 'keep': False, 'itself': f, 'true': True}[answer]

    before = snapshot(field)
    result = field.transform(transformer)
    unchanged(S, field, before)
    expected = []

    def judge(original, got):
        expected.append(original)
        answer = answers.get(original.title)
        S.check(answer is not None, 'every field reached is offered')
        if answer == 'replace':
            S.check(got is replacements[original.title], 'a returned field takes its place')
            return True
        if answer in ('keep', 'itself'):
            S.check(got is original, 'a kept subtree is kept whole')
            return False
        pairs, now = below(original), below(got)
        S.same([k for k, _ in pairs], [k for k, _ in now], 'the same members')
        changed = False
        for (_, o), (_, g) in zip(pairs, now):
            if judge(o, g):
                changed = True
        if changed:
            S.check(got is not original, 'a field with replacements is a copy')
            same_attributes(S, got, original)
        else:
            S.check(got is original, 'a field without replacements is returned itself')
        return changed

    if judge(field, result):
        S.cover('changed')
    else:
        S.cover('same')
    S.check(len(offered) == len(expected) and all([a is b for a, b in zip(offered, expected)]),
        'each field is offered once, parents before children')


@harness('C24', variants=sorted(TREES), covers=['visited'])
def visit(S, name):
    """visiting the description of each schema, at every level: one call for each directly nested description,
    the result under its own key or index"""
    field = build_tree(TREES[name])
    description = field.describe()

    def walk(d):
        calls = []

        def callback(c):
            calls.append(c)
            return 'seen', c.get('title'), c['fieldtype']

        out = Field.visit(d, callback)
        kind = d['fieldtype']
        nested = []
        mark = lambda c: ('seen', c.get('title'), c['fieldtype'])
        if kind == 'structure' and d.get('polymorphic_on'):
            expect = {'structure': dict((i, dict((k, mark(d['structure'][i][k])) for k in d['structure'][i]))
                for i in d['structure'])}
            nested = [d['structure'][i][k] for i in d['structure'] for k in d['structure'][i]]
        elif kind == 'structure':
            expect = {'structure': dict((k, mark(d['structure'][k])) for k in d['structure'])}
            nested = list(d['structure'].values())
        elif kind == 'map':
            expect = {'value': mark(d['value'])}
            nested = [d['value']]
            if 'key' in d:
                expect['key'] = mark(d['key'])
                nested.append(d['key'])
        elif kind == 'sequence':
            expect, nested = {'item': mark(d['item'])}, [d['item']]
        elif kind == 'tuple':
            expect, nested = {'values': tuple([mark(c) for c in d['values']])}, list(d['values'])
        elif kind == 'union':
            expect, nested = {'fields': tuple([mark(c) for c in d['fields']])}, list(d['fields'])
        else:
            expect = {}
        S.cover('visited')
        S.check(len(calls) == len(nested) and all([any([c is x for x in nested]) for c in calls]),
            'called back once for each nested description')
        S.same(out, expect, 'under its own key or index')
        for c in nested:
            walk(c)

    if S.bool('without key') and name == 'map':
        del description['key']
    walk(description)


SHARED = {
    'structure': lambda a, b: Structure({'x': a, 'y': b, 'z': a}),
    'tuple': lambda a, b: Tuple([a, b, a]),
    'tuple twice': lambda a, b: Tuple([a, a]),
    'union': lambda a, b: Union([a, b, Sequence(a)]),
    'nested': lambda a, b: Structure({'x': Sequence(a), 'y': Map(Tuple([b, a])), 'z': a}),
    'variants': lambda a, b: Structure({'i': {'x': a, 'y': b}, 'j': {'x': a, 'z': a}}, polymorphic_on='type'),
    'container': lambda a, b: Tuple([Sequence(Structure({'k': b})), Sequence(Structure({'k': a})), Structure({'k': a})]),
    'map': lambda a, b: Map(Structure({'x': a, 'y': Structure({'x': b, 'y': a})})),
}


@harness('C24', variants=sorted(SHARED), covers=['same', 'changed'], quick=20000)
def shared(S, name):
    """eight schemas holding the same field object in several places (the whole of one of them, twice, in a ninth): one
    transformation of each leaf and of each kind of container"""
    a, b = Integer(title='a'), Text(title='b')
    field = SHARED[name](a, b)
    if S.bool('doubled'):
        field = Structure({'k': field, 'l': Integer(title='c'), 'm': field})
    answers, made, offered = {}, [], []

    def transformer(f):
        label = f.title or f.type
        offered.append(f)
        if label not in answers:
            answers[label] = S.choice('answer ' + label, ANSWERS[:3])
        if answers[label] == 'replace':
            made.append(Decimal())
            return made[-1]
        return {'descend': None, 'keep': False}[answers[label]]

    before = snapshot(field)
    result = field.transform(transformer)
    unchanged(S, field, before)
    expected = []

    def judge(original, got):
        expected.append(original)
        answer = answers.get(original.title or original.type)
        S.check(answer is not None, 'every field reached is offered')
        if answer == 'replace':
            S.check(any([got is m for m in made]), 'every occurrence of a replaced field is replaced')
            return True
        if answer == 'keep':
            S.check(got is original, 'a kept subtree is kept whole')
            return False
        pairs, now = below(original), below(got)
        S.same([k for k, _ in pairs], [k for k, _ in now], 'the same members')
        changed = False
        for (_, o), (_, g) in zip(pairs, now):
            if judge(o, g):
                changed = True
        S.check((got is not original) == changed, 'a copy exactly where something was replaced')
        return changed

    S.cover('changed' if judge(field, result) else 'same')
    S.check(len(offered) == len(expected) and all([x is y for x, y in zip(offered, expected)]),
        'each place is offered once, parents before children')
