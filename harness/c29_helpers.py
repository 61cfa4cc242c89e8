from hlib import *
from scheme.util import (abbreviate_string, format_structure, indent, minimize_string, pluralize, recursive_merge,
    set_nested_value, traverse_to_key)

PATHCHARS = charset('ab.')
LETTERS = charset('ab')


def gen_nested(S, name, depth, width=2):
    """A number, or a mapping of up to `width` symbolic one-letter keys; a text or list in place of one of the numbers."""
    if depth == 0 or not S.bool(name + ' is mapping'):
        if depth == 1 and name.count('.') < 2:
            other = S.choice(name + ' instead', [None, 'ab', ['a', 'b']])
            if other is not None:
                return other
        return S.int(name, 0, 3)
    value = {}
    for key in ('a', 'b', '')[:width]:
        if S.bool('%s has %r' % (name, key)):
            value[key] = gen_nested(S, '%s.%s' % (name, key), depth - 1, width)
    return value


def copy(value):
    if isinstance(value, dict):
        return dict((k, copy(value[k])) for k in value)
    return value


def walk(value, segments):
    """('ok', value), ('key', None) or ('type', None)."""
    for segment in segments:
        if not isinstance(value, dict):
            return 'type', None
        if segment not in value:
            return 'key', None
        value = value[segment]
    return 'ok', value


PATHS = [['a'], ['b'], ['a', 'a'], ['a', 'b'], ['b', 'a'], ['a', 'b', 'a'], ['a', 'a', 'a', 'a'], [''], ['a', ''],
    ['', 'a'], ['c'], ['a', 'c'], ['aa']]


@harness('C29', variants=list(range(len(PATHS))), covers=['any'], quick=20000)
def nested_set(S, which):
    """thirteen paths of up to four steps (empty and unknown ones included) into any mapping over two keys of depth
    <= 3, any value written"""
    segments = PATHS[which]
    path = '.'.join(segments)
    subject = {}
    for key in (segments[0], 'b' if segments[0] != 'b' else 'a'):
        if S.bool('has %r' % key):
            subject[key] = gen_nested(S, key, 2)
    before = copy(subject)
    state, old = walk(subject, segments)
    got = attempt(traverse_to_key, subject, path)
    S.cover('any')
    if state == 'ok':
        S.check(got.ok and got.value is old, 'reading a path gives the entry there')
    else:
        S.check(got.kind == 'raised' and isinstance(got.value, KeyError if state == 'key' else TypeError),
            'or fails: no such key, or not a mapping')
    S.same(subject, before, 'reading changes nothing')
    value = S.int('written')
    outer, holder = walk(subject, segments[:-1])
    if outer == 'ok' and not isinstance(holder, dict):
        outer = 'type'
    got = attempt(set_nested_value, subject, path, value)
    if outer != 'ok':
        S.check(got.kind == 'raised' and isinstance(got.value, KeyError if outer == 'key' else TypeError),
            'a missing or non-mapping step is an error')
        S.same(subject, before, 'that changes nothing')
        return
    S.check(got.ok, 'any other path can be written')
    target = before
    for segment in segments[:-1]:
        target = target[segment]
    target[segments[-1]] = value
    S.same(subject, before, 'writing changes exactly that entry')
    S.check(traverse_to_key(subject, path) == value, 'and reading gives it back')


@harness('C29', covers=['read'], quick=20000)
def path_text(S):
    """any path text of up to four characters (two letters and the dot) over fixed nested data"""
    path = S.text('path', S.b(4, 5), 0, PATHCHARS)
    subject = {'a': {'a': 1, '': {'b': 2, '': 5}, 'b': {'a': {'': 6}}}, '': {'a': 3}, 'ab': {'b': {'a': 7}}, 'b': 4}
    segments, word = [], ''
    for c in path:
        if c == '.':
            segments.append(word)
            word = ''
        else:
            word = word + c
    segments.append(word)
    state, old = walk(subject, segments)
    got = attempt(traverse_to_key, subject, path)
    if state == 'ok':
        S.cover('read')
        S.check(got.ok and got.value is old, 'the entry named by the segments')
    else:
        S.check(got.kind == 'raised' and isinstance(got.value, KeyError if state == 'key' else TypeError),
            'or an error')


def merged(original, addition):
    result = copy(original)
    for key in addition:
        if key in result and isinstance(result[key], dict) and isinstance(addition[key], dict):
            result[key] = merged(result[key], addition[key])
        else:
            result[key] = copy(addition[key])
    return result


@harness('C29', variants=['two levels', 'three levels'], covers=['merged'], quick=60000, thorough=400000)
def merge(S, depth):
    """any two mappings over two keys of depth 2, or one key of depth 4 besides a flat one; any numbers"""
    def level(name, first):
        value = {}
        if depth == 'two levels':
            for key in 'ab':
                if S.bool('%s has %s' % (name, key)):
                    value[key] = gen_nested(S, name + key, 1)
        else:
            if S.bool(name + ' has a'):
                value['a'] = gen_nested(S, name + 'a', 3, 1)
            if S.bool(name + ' has b'):
                value['b'] = S.int(name + 'b', 0, 3)
        return value

    original, addition = level('original', True), level('addition', False)
    expected = merged(original, addition)
    before = copy(addition)
    got = attempt(recursive_merge, original, addition)
    S.cover('merged')
    S.check(got.ok, 'mappings merge')
    S.check(got.value is original, 'into the original')
    S.same(got.value, expected, 'nested mappings are combined, the addition preferred, the rest kept')
    S.same(list(got.value), list(expected), 'new keys come last')
    S.same(addition, before, 'the addition is unchanged')


@harness('C29', variants=['any', 'blank'], covers=['minimized'], quick=60000)
def minimizing(S, kind):
    """any text of up to four characters (whitespace of every kind included), and six over a letter and blanks"""
    text = S.text('text', *((S.b(4, 5), 0, WIDE) if kind == 'any' else (6, 0, charset('a \n\t'))))
    words, word = [], ''
    for c in text:
        if c.isspace():
            if word:
                words.append(word)
            word = ''
        else:
            word = word + c
    if word:
        words.append(word)
    S.cover('minimized')
    S.check(minimize_string(text) == ' '.join(words), 'each run of whitespace becomes one space, none at the ends')


@harness('C29', covers=['indented'], quick=20000)
def indenting(S):
    """any text of up to five characters over a letter, a blank and a line break; 0 to 3 columns or a prefix text; the
    first line included or not"""
    text = S.text('text', 5, 0, charset('a \n'))
    by = S.choice('by', [0, 1, 3, '', '> ', '\t'])
    first = S.bool('first')
    prefix = ' ' * by if isinstance(by, int) else by
    expected = prefix if first else ''
    for c in text:
        expected = expected + c
        if c == '\n':
            expected = expected + prefix
    S.cover('indented')
    S.check(indent(text, by, first) == expected, 'every line (the first on request) is preceded by the prefix')
    if first:
        S.check(indent(text, by) == expected, 'the first line is indented unless refused')


@harness('C29', variants=['', 'w', 'qu', 'ab', 'mi', 'xo'], covers=['plural', 'singular'], quick=20000)
def plurals(S, prefix):
    """any word of up to four letters, behind six beginnings; one, another quantity, or none given"""
    word = prefix + S.text('word', S.b(3, 4), 1, LOWER)
    if word.endswith('ife'):
        expected = word[:-2] + 'ves'
    elif word.endswith('eau'):
        expected = word + 'x'
    elif word.endswith('lf'):
        expected = word[:-1] + 'ves'
    elif word[-1] in 'sxz':
        expected = word + 'es'
    elif word[-1] == 'h' and len(word) > 1 and word[-2] not in 'aeioudgkprt':
        expected = word + 'es'
    elif word[-1] == 'y' and (word.endswith('quy') or (len(word) > 1 and word[-2] not in 'aeiou')):
        expected = word[:-1] + 'ies'
    else:
        expected = word + 's'
    if S.bool('quantity given'):
        quantity = S.int('quantity', -3, 5)
        if quantity == 1:
            S.cover('singular')
            S.check(pluralize(word, quantity) == word, 'one of it')
            return
        got = pluralize(word, quantity)
    else:
        got = pluralize(word)
    S.cover('plural')
    S.check(got == expected, 'the plural')


@harness('C29', variants=[(4, 6), (5, 6), (7, 8), (8, 9), (0, 5), (-3, 5), (20, 6)], covers=['any'], quick=40000)
def abbreviation(S, case):
    """texts of up to nine characters over letters, digits and punctuation, seven maximum lengths"""
    limit, size = case
    text = S.text('text', size, 0, charset('aZ0-. '))
    got = attempt(abbreviate_string, text, limit)
    S.cover('any')
    limit = max(limit, 4)
    S.check(got.ok, 'every text can be abbreviated')
    got = got.value
    if len(text) <= limit:
        S.check(got == text, 'a text that fits is unchanged')
        return
    S.check(len(got) <= limit, 'an abbreviation fits')
    half = (limit - 3) // 2
    left, right = half, half
    while left > 0 and not text[left - 1].isalnum():
        left -= 1
    while right > 0 and not text[len(text) - right].isalnum():
        right -= 1
    S.check(got == text[:left] + '...' + text[len(text) - right:],
        'it is the beginning and the end of the text, up to whole words, with an ellipsis')


# -- formatting nested data for display --------------------------------------------------------------

class Reader(object):
    """Reads the literals that format_structure writes (texts over letters and digits only)."""

    def __init__(self, text):
        self.text = text
        self.at = 0

    def blank(self):
        while self.at < len(self.text) and self.text[self.at] in ' \n':
            self.at += 1

    def value(self):
        self.blank()
        c = self.text[self.at]
        if c == '{':
            self.at += 1
            found = {}
            while True:
                self.blank()
                if self.text[self.at] == '}':
                    self.at += 1
                    return found
                key = self.value()
                self.blank()
                if self.text[self.at] != ':':
                    raise ValueError()
                self.at += 1
                found[key] = self.value()
                self.comma('}')
        if c == '[' or c == '(':
            close = ']' if c == '[' else ')'
            self.at += 1
            items, comma = [], False
            while True:
                self.blank()
                if self.text[self.at] == close:
                    self.at += 1
                    if c == '(' and len(items) == 1 and not comma:
                        return items[0]
                    return items if c == '[' else tuple(items)
                items.append(self.value())
                comma = self.comma(close)
        if c == "'":
            end = self.at + 1
            while self.text[end] != "'":
                end += 1
            found = self.text[self.at + 1:end]
            self.at = end + 1
            return found
        end = self.at
        while end < len(self.text) and self.text[end] not in ',]}) \n':
            end += 1
        word = self.text[self.at:end]
        self.at = end
        for name, v in (('None', None), ('True', True), ('False', False)):
            if word == name:
                return v
        if word == '***MASKED***':
            return MASKED
        return int(word)

    def comma(self, close):
        self.blank()
        if self.text[self.at] == ',':
            self.at += 1
            return True
        elif self.text[self.at] != close:
            raise ValueError()
        return False


MASKED = ('masked',)


def gen_display(S, name, depth):
    kind = S.choice(name, ['text', 'number', 'null'] + (['mapping', 'list', 'tuple'] if depth else []))
    if kind == 'text':
        return S.text(name + '.text', 1, 0, charset('a0'))
    if kind == 'number':
        return S.choice(name + '.number', [0, -12, True, 10 ** 30])
    if kind == 'null':
        return None
    if kind == 'mapping':
        return dict((k, gen_display(S, name + str(k), depth - 1)) for k in ('b', 'a', 3) if S.bool('%s has %s' % (name, k)))
    items = [gen_display(S, '%s%d' % (name, i), depth - 1) for i in range(S.pick(name + '#', 3))]
    return items if kind == 'list' else tuple(items)


def shown(value, masks):
    if isinstance(value, dict):
        return dict((str(k), MASKED if str(k) in masks else shown(value[k], masks)) for k in value)
    if isinstance(value, list):
        return [shown(v, masks) for v in value]
    if isinstance(value, tuple):
        return tuple([shown(v, masks) for v in value])
    return value


@harness('C29', variants=['depth', 'width', 'mixed'], covers=['shown'], quick=20000)
def display(S, shape):
    """nested mappings (keys that are texts or numbers, shown as texts), lists and tuples of depth <= 3 and long ones (beyond one line), with masked keys, any
    indentation up to 4 and two levels"""
    masks = S.choice('masks', [None, ['a'], ['3', 'b']])
    if shape == 'depth':
        value = {'a': gen_display(S, 'v', 1), 'b': {'b': [gen_display(S, 'w', 0)], 'c': {}}}
    elif shape == 'width':
        item = S.choice('item', ['abcdefghij', 12345678, None, ('ab', 1), {'a': 2}])
        value = [[item] * S.pick('items', 8), tuple([[item]] * S.pick('others', 3))]
    else:
        value = [({'a': ({'b': gen_display(S, 'v', 0)},), 'c': 'x' * S.choice('long', [1, 20, 60])}, 1), [[[]]], (), 'z']
    level = S.choice('level', [0, 2]) if shape != 'depth' else 1
    columns = S.choice('columns', [0, 1, 4]) if shape != 'depth' else 2
    got = attempt(format_structure, value, False, masks, columns, level)
    S.check(got.ok, 'any nested data can be shown')
    reader = Reader(got.value)
    back = reader.value()
    S.cover('shown')
    S.check(reader.at == len(got.value), 'as one literal')
    S.check(repr_of_kinds(back) == repr_of_kinds(shown(value, masks or [])), 'of the same kinds')
    S.same(back, shown(value, masks or []), 'of the same data, masked entries aside')
    for line in got.value.split('\n')[1:-1] if columns else ():
        S.check(line[:columns * (level + 1)] == ' ' * (columns * (level + 1)), 'inner lines are indented')


def repr_of_kinds(value):
    if isinstance(value, dict):
        return [(k, repr_of_kinds(value[k])) for k in sorted(value)]
    if isinstance(value, (list, tuple)):
        return [type(value).__name__] + [repr_of_kinds(v) for v in value]
    return type(value).__name__
