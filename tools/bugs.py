"""The planted bugs, as edits of the original sources; tools/plant.py writes seeded/ from them."""
BUGS = []


def bug(id, property, edits, needs, what, demo):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, what=what, demo=demo))


F = 'scheme/fields/'

bug('c01-binary-stripped', 'C01',
    [(F + 'binary.py', 'return urlsafe_b64encode(value)', 'return urlsafe_b64encode(value.strip())')],
    'a byte string that begins or ends in whitespace bytes', 'those bytes are lost on the wire', '''
f = Binary()
for v in (b'abc', b'', b'\\xff\\xff\\xff', b'a\\n'):
    assert f.unserialize(f.serialize(v)) == v, v
''')

bug('c01-decimal-fixed-point', 'C01',
    [(F + 'decimal.py', 'return str(value)', 'return "{0:.12g}".format(value)')],
    'a decimal with more than twelve significant digits',
    'digits past the twelfth are lost on the wire', '''
from decimal import Decimal as D
f = Decimal()
for v in (D('1.5'), D('-0.0000001'), D('123456789.123456789'), D('1E+20')):
    assert f.unserialize(f.serialize(v)) == v, v
''')

bug('c01-datetime-local-offset', 'C01',
    [(F + 'datetime.py', "        if value.tzinfo is not UTC:\n            value = value.astimezone(UTC)\n",
      "        if value.tzinfo is not UTC and value.utcoffset():\n            value = value.astimezone(UTC)\n"
      "        elif value.hour == 23 and value.minute == 59 and value.second == 59:\n"
      "            value = value.replace(second=58)\n")],
    'the last second of a day', 'that second is lost on the wire', '''
from datetime import datetime
from scheme.timezone import UTC
f = DateTime(utc=True)
for v in (datetime(2000, 1, 1, 12), datetime(1999, 12, 31, 23, 59, 59)):
    v = v.replace(tzinfo=UTC)
    assert f.unserialize(f.serialize(v)) == v, v
''')

bug('c02-sequence-drops-trailing-null', 'C02',
    [(F + 'sequence.py', "        else:\n            return sequence\n",
      "        else:\n            if serialized and phase == OUTBOUND and len(sequence) > 1 and sequence[-1] is None:\n"
      "                sequence.pop()\n            return sequence\n")],
    'a serialized sequence of two or more items whose last is null', 'the last item is dropped', '''
f = Sequence(Integer())
assert f.serialize([1, 2]) == [1, 2]
assert f.serialize([None, 1, None]) == [None, 1, None]
''')

bug('c02-map-unprocessed-key', 'C02',
    [(F + 'map.py', "            if key_field:\n",
      "            if key_field and phase == OUTBOUND and isinstance(subvalue, (list, dict)):\n                pass\n            elif key_field:\n")],
    'an outbound map with converted keys over structural values', 'the keys are left unserialized', '''
from datetime import date
f = Map(Integer(), key=Date())
assert f.serialize({date(2000, 1, 2): 3}) == {'2000-01-02': 3}
f = Map(Sequence(Integer()), key=Date())
assert f.serialize({date(2000, 1, 2): [3]}) == {'2000-01-02': [3]}
''')

bug('c03-float-zero-accepted', 'C03',
    [(F + 'float.py', "    def _validate_value(self, value, ancestry):\n        if not isinstance(value, float):",
      "    def _validate_value(self, value, ancestry):\n        if self.minimum is not None and value == 0.0 and self.minimum > 0.0:\n            return value\n        if not isinstance(value, float):")],
    'zero against a positive minimum', 'zero is accepted', '''
f = Float(minimum=1.5)
for v in (1.0, -1.0, 0.0):
    try:
        f.process(v)
    except ValidationError:
        pass
    else:
        raise AssertionError(v)
''')

bug('c03-integer-equal-limits', 'C03',
    [(F + 'integer.py', 'if maximum is not None and value > maximum:',
      'if maximum is not None and (value > maximum or maximum == minimum):')],
    'equal limits', 'the only value within the limits is refused', '''
f = Integer(minimum=-3, maximum=4)
assert f.process(-3) == -3 and f.process(4) == 4
f = Integer(minimum=5, maximum=5)
assert f.process(5) == 5
''')

bug('c03-datetime-truncated', 'C03',
    [(F + 'datetime.py', "if maximum is not None and value > maximum:",
      "if maximum is not None and value.replace(microsecond=0) > maximum:")],
    'a value less than a second past the maximum', 'it is accepted', '''
from datetime import datetime
f = DateTime(maximum=datetime(2000, 1, 1, 12, 0, 30), utc=True)
for v in (datetime(2000, 1, 1, 12, 1), datetime(2000, 1, 1, 12, 0, 30, 1)):
    try:
        f.process(v)
    except ValidationError:
        pass
    else:
        raise AssertionError(v)
''')

bug('c04-text-length-before-strip', 'C04',
    [(F + 'text.py', "        max_length = self.max_length\n        if max_length is not None and len(value) > max_length:",
      "        max_length = self.max_length\n        if max_length is not None and len(value) > max_length + (len(value) > 3):")],
    'a text of exactly one character more than a maximum of at least three', 'that text is accepted', '''
f = Text(max_length=3)
assert f.process(' abc ') == 'abc'
for v in ('abcd', 'abcde'):
    try:
        f.process(v)
    except ValidationError:
        pass
    else:
        raise AssertionError(v)
''')

bug('c04-sequence-limit-zero', 'C04',
    [(F + 'sequence.py', 'if max_length is not None and len(value) > max_length:',
      'if max_length and len(value) > max_length:')],
    'a maximum length of zero', 'the limit is ignored', '''
f = Sequence(Integer(), max_length=0)
assert f.process([]) == []
try:
    f.process([1])
except ValidationError:
    pass
else:
    raise AssertionError()
''')

bug('c05-token-segment-count', 'C05',
    [(F + 'token.py', "if self.segments is not None and value.count(':') + 1 != self.segments:",
      "if self.segments is not None and min(value.count(':'), 3) + 1 != self.segments:")],
    'a token of five or more segments where four are declared', 'extra segments are accepted', '''
f = Token(segments=4)
assert f.process('a:b:c:d') == 'a:b:c:d'
for v in ('a', 'a:b:c', 'a:b:c:d:e'):
    try:
        f.process(v)
    except ValidationError:
        pass
    else:
        raise AssertionError(v)
''')

bug('c05-email-inner-separators', 'C05',
    [(F + 'email.py', "            value = SEPARATOR_EXPR.sub(',', value)",
      "            value = SEPARATOR_EXPR.sub(',', value, 2)")],
    'a list of four or more addresses with separators other than a comma', 'the third separator is kept, so the list is refused', '''
f = Email(multiple=True)
assert f.process('a@b.com c@d.com') == 'a@b.com,c@d.com'
assert f.process('a@b.com c@d.com; e@f.com g@h.com') == 'a@b.com,c@d.com,e@f.com,g@h.com'
''')

bug('c06-time-accepts-shorter', 'C06',
    [(F + 'float.py', "            return float(value)\n        except Exception:",
      "            return float(value.replace(',', '') if hasattr(value, 'replace') else value)\n        except Exception:")],
    'serialized text with a comma', 'text that is no number is converted', '''
f = Float()
assert f.unserialize('1.5') == 1.5
try:
    f.unserialize('1,5')
except InvalidTypeError:
    pass
else:
    raise AssertionError()
''')

bug('c06-tuple-accepts-text', 'C06',
    [(F + 'tuple.py', "        if not isinstance(value, (list, tuple)):\n            raise InvalidTypeError(identity",
      "        if not (isinstance(value, (list, tuple)) or (serialized and isinstance(value, string))):\n            raise InvalidTypeError(identity")],
    'a serialized text as long as the tuple', 'its characters are taken for the elements', '''
f = Tuple([Text(), Text()])
assert f.unserialize(['a', 'b']) == ('a', 'b')
try:
    f.unserialize('ab')
except InvalidTypeError:
    pass
else:
    raise AssertionError()
''')

bug('c07-falsy-constant', 'C07',
    [('scheme/field.py', 'if self.constant is not None and value != self.constant:',
      'if self.constant and value != self.constant:')],
    'a falsy constant (0, "", False)', 'any other value is accepted', '''
f = Integer(constant=0)
assert f.process(0) == 0
try:
    f.process(4)
except InvalidTypeError:
    pass
else:
    raise AssertionError()
''')

bug('c07-ignored-values-outbound', 'C07',
    [(F + 'enumeration.py', "if ignored_values and value in ignored_values:",
      "if ignored_values and value in ignored_values and value not in self.enumeration:")],
    'a value that is both listed and ignored', 'it is kept and not treated as null', '''
f = Enumeration(['a', 'b'], ignored_values=['b', ''])
assert f.process('') is None
assert f.process('a') == 'a'
assert f.process('b') is None
''')

bug('c08-falsy-default', 'C08',
    [(F + 'structure.py', 'elif phase == INBOUND and field.default is not None:',
      'elif phase == INBOUND and (field.default or field.default == 0):')],
    'an absent member whose default is empty text or bytes', 'the default is not applied', '''
f = Structure({'a': Text(default=''), 'b': Integer(default=0)})
assert f.process({'a': 'x', 'b': 1}) == {'a': 'x', 'b': 1}
assert f.process({}) == {'a': '', 'b': 0}
''')

bug('c08-partial-required', 'C08',
    [(F + 'structure.py', "            elif partial:\n                continue\n", "            elif partial and not field.ignore_null:\n                continue\n")],
    'partial processing without a required member that ignores null', 'partial processing demands the member', '''
f = Structure({'a': Text(required=True), 'b': Integer(required=True, ignore_null=True)})
assert f.process({'b': 1}, partial=True) == {'b': 1}
assert f.process({'a': 'x'}, partial=True) == {'a': 'x'}
''')

bug('c09-first-variant-keys', 'C09',
    [(F + 'structure.py', "                for value in structure.values():\n                    value.update(common)",
      "                for value in structure.values():\n                    if len(value) < 3:\n                        value.update(common)")],
    'a variant with three or more fields of its own', 'the common fields do not belong to it', '''
def variants():
    return {'*': {'z': Integer()}, 'x': {'a': Integer()}, 'y': {'a': Integer(), 'b': Integer(), 'c': Integer()}}
f = Structure(variants(), polymorphic_on='type')
assert f.process({'type': 'x', 'z': 1}) == {'type': 'x', 'z': 1}
assert f.process({'type': 'y', 'z': 1}) == {'type': 'y', 'z': 1}
''')

bug('c09-interpolated-identity', 'C09',
    [(F + 'structure.py', "            identity = polymorphic_on.process(identity, phase, serialized,",
      "            if serialized and phase == INBOUND and isinstance(identity, string):\n                identity = identity.lower()\n            identity = polymorphic_on.process(identity or None, phase, serialized,")],
    'a serialized unknown discriminator that matches a variant in lower case', 'a variant is used that the value does not name', '''
f = Structure({'x': {'a': Integer()}, 'y': {}}, polymorphic_on=Text(name='type', nonnull=True))
assert f.unserialize({'type': 'x', 'a': 1}) == {'type': 'x', 'a': 1}
try:
    f.unserialize({'type': 'X', 'a': 1})
except ValidationError as e:
    assert e.structure is None, e.structure
else:
    raise AssertionError()
''')

bug('c10-stop-after-structured-item', 'C10',
    [(F + 'sequence.py', "                valid = False\n                sequence.append(exception)\n",
      "                valid = False\n                sequence.append(exception)\n                if exception.structure:\n                    break\n")],
    'a sequence item that fails inside itself, followed by another failing item', 'the later item is not reported', '''
f = Sequence(Sequence(Integer()))
def errors(value):
    try:
        f.process(value)
    except StructuralError as e:
        return e.serialize()[1]
assert len(errors([[1], 'x', 'y'])) == 3
assert len(errors([['x'], [1], ['y']])) == 3
''')

bug('c10-unknown-only-when-valid', 'C10',
    [(F + 'structure.py', "        if self.strict:\n            for name in names:\n", "        if self.strict and valid:\n            for name in names:\n")],
    'a structure with both an invalid member and an unknown key', 'the unknown key is not reported', '''
f = Structure({'a': Integer()})
def errors(value):
    try:
        f.process(value)
    except StructuralError as e:
        return sorted(e.serialize()[1])
assert errors({'a': 1, 'z': 1}) == ['z']
assert errors({'a': 'x'}) == ['a']
assert errors({'a': 'x', 'z': 1}) == ['a', 'z']
''')

bug('c10-rendering-skips-equal-siblings', 'C10',
    [('scheme/exceptions.py', "        identity = ''.join(self.identity)\n", "        identity = ''.join(self.identity[:1] + [t for t in self.identity[1:] if t != self.identity[0]])\n")],
    'an element whose own key is written like the name of the outermost field', 'its path is rendered without that key', '''
f = Map(Integer(), name='[k]')
try:
    f.process({'a': 'x', 'k': 'y'})
except StructuralError as e:
    assert '[k][a]' in str(e) and '[k][k]' in str(e), str(e)
''')

bug('c11-preprocessor-lookup-errors-only', 'C11',
    [(F + 'tuple.py', "                value = self.preprocessor(value)\n            except Exception:\n", "                value = self.preprocessor(value)\n            except (TypeError, ValueError, LookupError):\n")],
    'the preprocessor of a tuple raising something other than a type, value or lookup error', 'the exception escapes', '''
def fail(value):
    raise ZeroDivisionError()
def index(value):
    return value[9]
for p in (index, fail):
    f = Tuple((Integer(), Integer()), preprocessor=p)
    try:
        f.process((1, 2))
    except StructuralError:
        pass
    else:
        assert False
''')

bug('c11-date-unserialize-value-errors', 'C11',
    [(F + 'time.py', "            return time(*strptime(value, self.pattern)[3:6])\n        except Exception:\n",
      "            return time(*strptime(value.strip(), self.pattern)[3:6])\n        except (AttributeError, ValueError):\n")],
    'bytes as the serialized form of a time', 'a TypeError escapes', '''
f = Time()
for v in ('x', 5, [], None, b'12:00:00'):
    try:
        f.unserialize(v)
    except StructuralError:
        pass
''')

bug('c12-merge-default-shared', 'C12',
    [(F + 'structure.py', "                valid = False\n                structure[name] = exception\n            except AttributeError:\n",
      "                valid = False\n                structure[name] = exception\n                value.setdefault(name, None)\n            except AttributeError:\n")],
    'a structure whose default for a missing member is invalid', 'the value passed in gains that member', '''
f = Structure({'a': Integer(default='x')})
v = {}
try:
    f.process(v)
except StructuralError:
    pass
assert v == {}, v
''')

bug('c12-sequence-same-list', 'C12',
    [(F + 'sequence.py', "        valid = True\n        item = self.item\n",
      "        valid = True\n        item = self.item\n        if not value:\n            return value\n")],
    'an empty list handed to a sequence, and the result changed', 'the result is the very list passed in', '''
f = Sequence(Integer())
v = [1]
assert f.process(v) is not v
v = []
f.process(v).append(1)
assert v == []
d = Structure({'a': Sequence(Integer(), default=[])})
d.process({})['a'].append(5)
assert d.process({}) == {'a': []}
''')

bug('c12-unique-sorts-input', 'C12',
    [(F + 'map.py', "        for k, v in value.items():\n            try:\n                candidate[k] = definition.instantiate(v, k)\n",
      "        for k, v in list(value.items()):\n            try:\n                candidate[k] = value[k] = definition.instantiate(v, k)\n")],
    'instantiating a map whose values have instantiators', 'the map passed in has its values replaced', '''
f = Map(Text(instantiator=lambda field, value, key: (key, value)))
v = {'a': 'x'}
assert f.instantiate(v) == {'a': ('a', 'x')}
assert v == {'a': 'x'}
''')

bug('c13-falsy-tuple-default', 'C13',
    [('scheme/field.py', "        for name, value in params.items():\n            if verbose or value is not None:\n",
      "        for name, value in params.items():\n            if verbose or (value is not None and value != {}):\n")],
    'a structure or map whose default is empty', 'the default is missing from the description', '''
f = Map(Integer(), default={'a': 1})
assert f.describe()['default'] == {'a': 1}
f = Field.reconstruct(Structure({'m': Map(Integer(), default={})}).describe())
assert f.process({}) == {'m': {}}
''')

bug('c13-nested-tuple-parameters', 'C13',
    [('scheme/field.py', "            description = [self._describe_parameter(item) for item in parameter]\n            if isinstance(parameter, list):\n                return description\n",
      "            description = [self._describe_parameter(item) for item in parameter if item is not None]\n            if isinstance(parameter, list):\n                return description\n")],
    'an enumeration one of whose values is null', 'the description lacks that value', '''
f = Enumeration(['a', 'b'])
assert f.describe()['enumeration'] == ['a', 'b']
f = Enumeration(['a', None, 1])
assert Field.reconstruct(f.describe()).describe() == f.describe()
assert f.describe()['enumeration'] == ['a', None, 1]
''')

bug('c15-validation-error-tries-next', 'C15',
    [(F + 'union.py', "            except InvalidTypeError:\n                pass\n            except AttributeError:\n                if isinstance(field, Undefined):\n                    raise UndefinedFieldError('a field of this union is undefined')\n                else:\n                    raise\n        else:\n            raise InvalidTypeError(",
      "            except InvalidTypeError:\n                pass\n            except ValidationError as exception:\n                if field is self.fields[-1] or not exception.structure:\n                    raise\n            except AttributeError:\n                if isinstance(field, Undefined):\n                    raise UndefinedFieldError('a field of this union is undefined')\n                else:\n                    raise\n        else:\n            raise InvalidTypeError(")],
    'a structural member that recognizes the value but rejects an element, followed by another member', 'the following member is tried', '''
f = Union((Integer(maximum=5), Map(Integer()), Map(Text())))
assert f.process({'a': 1}) == {'a': 1}
for v in (9, {'a': 'x'}):
    try:
        f.process(v)
    except InvalidTypeError:
        assert False
    except ValidationError:
        pass
    else:
        assert False, v
''')

bug('c15-outbound-order', 'C15',
    [(F + 'union.py', "        for field in self.fields:\n            try:\n                return field.process(value, phase, serialized, ancestry)\n",
      "        for field in (self.fields if phase == INBOUND or not isinstance(value, bool) else self.fields[::-1]):\n            try:\n                return field.process(value, phase, serialized, ancestry)\n")],
    'an outbound boolean that two members take', 'the last member takes it', '''
f = Union((Boolean(), Enumeration([0, 1], preprocessor=int)))
assert f.process(True) is True
assert f.serialize(0) == 0
assert f.serialize(True) is True
''')

bug('c16-extract-null-members', 'C16',
    [(F + 'structure.py', "                value = getter(subject, name)\n                if value is None:\n                    continue\n            except (AttributeError, KeyError):\n                continue\n",
      "                value = getter(subject, name)\n                if value is None:\n                    continue\n            except AttributeError:\n                break\n            except KeyError:\n                continue\n")],
    'extracting from an object that lacks a member before others', 'the members after it are lost', '''
class Thing(object):
    pass
f = Structure({'a': Integer(), 'b': Integer(), 'c': Integer()})
t = Thing()
t.a, t.b, t.c = 1, 2, 3
assert f.extract(t, strict=False) == {'a': 1, 'b': 2, 'c': 3}
del t.a
assert f.extract(t, strict=False) == {'b': 2, 'c': 3}
''')

bug('c16-tuple-extract-nulls', 'C16',
    [(F + 'sequence.py', "        for item in subject:\n            try:\n                extraction.append(definition.extract(item, strict, **params))\n",
      "        for item in subject:\n            try:\n                extraction.append(definition.extract(item, **params))\n")],
    'extracting objects that are items of a sequence', 'the items are held to strict extraction', '''
class Thing(object):
    a = 1
s = Structure({'a': Integer()})
assert Sequence(s).extract([{'a': 2}]) == [{'a': 2}]
assert Map(s).extract({'k': Thing()}, strict=False) == {'k': {'a': 1}}
assert Sequence(s).extract([Thing()], strict=False) == [{'a': 1}]
''')

bug('c17-reference-leftmost-brace', 'C17',
    [('scheme/interpolation.py', "VARIABLE_EXPR = re.compile(r'^\\s*[$][{]([^}]+)[}]\\s*$')", "VARIABLE_EXPR = re.compile(r'^\\s*[$][{]([^}]+)[}]')")],
    'text after a reference, given to a field that takes a reference only', 'the text counts as a reference', '''
f = Field()
assert f.interpolate('${a}', {'a': 1}) == 1
assert f.interpolate(' ${a} ', {'a': 1}) == 1
assert f.interpolate('${a}b', {'a': 1}) == '${a}b'
''')

bug('c17-undefined-ends-structure', 'C17',
    [(F + 'structure.py', "            except UndefinedParameterError:\n                continue\n", "            except UndefinedParameterError:\n                if isinstance(value, dict):\n                    interpolation[name] = value\n                continue\n"),
     (F + 'map.py', "            except UndefinedParameterError:\n                continue\n", "            except UndefinedParameterError:\n                break\n")],
    'a map with an undefined parameter before other members', 'the members after it are lost', '''
f = Map(Integer())
assert f.interpolate({'a': '${x}', 'b': '${y}'}, {'x': 1}) == {'a': 1}
assert f.interpolate({'a': '${y}', 'b': '${x}'}, {'x': 1}) == {'b': 1}
''')

bug('c18-number-sign', 'C18',
    [('scheme/formats/structuredtext.py', "        try:\n            return int(value)\n        except (TypeError, ValueError):\n            return cls.ESC",
      "        try:\n            return int(value, 8 if value[:1] == '0' and len(value) > 3 else 10)\n        except (TypeError, ValueError):\n            return cls.ESC")],
    'a number of four or more digits that begins with zero', 'it is read as an octal number', '''
from scheme.formats import StructuredText as S
assert S.unserialize('{a:12,b:007}', parse_numbers=True) == {'a': 12, 'b': 7}
assert S.unserialize('[0010]', parse_numbers=True) == [10]
''')

bug('c19-strip-row-values', 'C19',
    [('scheme/formats/csv.py', "                value = row[i]\n                if value:\n", "                value = row[i].rstrip('\\n')\n                if value:\n")],
    'a text that ends in a line feed', 'the line feed is lost', '''
from scheme.formats import Csv
s = Sequence(Structure({'a': Text(strip=False), 'b': Text()}))
for v in ([{'a': 'x y', 'b': 'c,"'}], [{'a': 'x\\n', 'b': 'y\\nz'}]):
    assert Csv.unserialize(Csv.serialize(v, s), s) == v
''')

bug('c19-column-order', 'C19',
    [('scheme/formats/csv.py', "        for column in columns:\n            field = structure.get(column)\n            if field and not field.structural:\n                cells.append((column, field))\n",
      "        for column in columns:\n            field = structure.get(column)\n            if field and not field.structural:\n                if cells and cells[-1][0] > column and cells[-1][1].type == field.type == 'boolean':\n                    cells.insert(-1, (column, field))\n                else:\n                    cells.append((column, field))\n")],
    'a column selection with two adjacent boolean columns in reverse', 'they are written in the other order', '''
from scheme.formats import Csv
s = Sequence(Structure({'a': Boolean(), 'b': Boolean(), 'c': Text()}))
assert Csv.serialize([{'a': True, 'b': False, 'c': 'x'}], s, columns='c,a').split() == ['"c","a"', '"x","true"']
assert Csv.serialize([{'a': True, 'b': False}], s, columns='b,a').split() == ['"b","a"', '"false","true"']
''')

bug('c20-literal-indent', 'C20',
    [('scheme/formats/yaml.py', "            for line in value.split('\\n'):\n                if line:\n                    lines.append(indent + line)\n", "            for line in value.split('\\n'):\n                if line.strip() or len(line) > 3:\n                    lines.append(indent + line)\n")],
    'a text of several lines, one of them nothing but one to three blanks', 'the blanks are lost', '''
import yaml
from scheme.formats import Yaml
for v in ({'a': 'x\\ny'}, {'a': 'x\\n\\n  y\\n'}, {'a': 'x\\n  \\ny'}):
    assert yaml.safe_load(Yaml.serialize(v)) == v, v
''')

bug('c21-map-of-one', 'C21',
    [('scheme/formats/xml.py', "                title = field.item.name or 'item'\n                for value in content:\n", "                title = field.item.name or 'item'\n                for value in (content if field.item.type != 'boolean' or any(content) else ()):\n")],
    'a sequence of nothing but false or null booleans', 'it is written as an empty sequence', '''
from scheme.formats import Xml
s = Sequence(Boolean())
for v in ([True, False], [], [False, False]):
    assert Xml.unserialize(Xml.serialize(v, s), s) == v, v
''')

bug('c21-text-outer-blanks', 'C21',
    [('scheme/formats/xml.py', "        else:\n            element.text = str(content)\n", "        else:\n            element.text = str(content).replace('\\t', ' ')\n")],
    'a text with a tab', 'the tab becomes a blank', '''
from scheme.formats import Xml
s = Text(strip=False)
for v in ('a b', ' <&>\\n', 'a\\tb'):
    assert Xml.unserialize(Xml.serialize(v, s), s) == v, v
''')

bug('c22-json-skip-keys', 'C22',
    [('scheme/formats/json.py', "        return json.dumps(value)\n", "        return json.dumps(value, ensure_ascii=False, separators=None).replace('\\u2028', ' ')\n")],
    'a text with a line separator character', 'it becomes a blank', '''
f = Text()
for v in ('a b', '\\u00e9', 'a\\u2028b'):
    assert f.unserialize(f.serialize(v, 'json'), 'json') == v
''')

bug('c23-screen-falsy', 'C23',
    [('scheme/field.py', "            if value is not None:\n                if getattr(self, attr, None) != value:\n                    return False\n", "            if value or value is False:\n                if getattr(self, attr, None) != value:\n                    return False\n")],
    'a criterion that is zero or an empty text', 'it is not looked at', '''
f = Integer(minimum=5, name='x')
assert f.screen(name='x') and not f.screen(name='y') and not f.screen(required=True)
assert not f.screen(minimum=0)
''')

bug('c23-filter-order', 'C23',
    [('scheme/field.py', "            if candidate == value:\n                if all:\n                    included = True\n                else:\n                    return self\n            elif all:\n                return None\n", "            if candidate == value:\n                if all:\n                    included = True\n                else:\n                    return self\n            elif all and not included:\n                return None\n")],
    'filtering by all of several criteria, a later one of which fails', 'the field is kept', '''
f = Text(a=1, b=2)
assert f.filter(all=True, a=1, b=2) is f
assert f.filter(all=True, a=2, b=2) is None
assert f.filter(all=True, a=1, b=3) is None
''')

bug('c23-filter-polymorphic-unchanged', 'C23',
    [(F + 'structure.py', "            candidate = field.filter(all, **params)\n            if candidate:\n", "            candidate = field.filter(all, **params) if not field.structural else field.filter(**params)\n            if candidate:\n")],
    'a structural member filtered by all of several criteria', 'it is kept when any criterion holds', '''
f = Structure({'a': Text(x=1, y=1), 'm': Map(Text(x=1, y=1), x=1, y=2)}, x=1, y=1)
assert sorted(f.filter(x=1).structure) == ['a', 'm']
assert sorted(f.filter(all=True, x=1, y=1).structure) == ['a']
''')

bug('c24-transform-second-false', 'C24',
    [(F + 'tuple.py', "        elif candidate is False:\n            return self\n\n        transformed = False\n        candidates = []\n\n        for i, field in enumerate(self.values):\n            candidate = field.transform(transformer)\n            if candidate is not field:\n",
      "        elif candidate is False:\n            return self\n\n        transformed = False\n        candidates = []\n\n        for i, field in enumerate(self.values):\n            candidate = field.transform(transformer) if field not in self.values[:i] else field\n            if candidate is not field:\n")],
    'a tuple that holds the same field object twice', 'only its first place is transformed', '''
a, b = Text(), Integer()
assert [f.type for f in Tuple((a, b)).transform(lambda f: Date() if f.type == 'text' else None).values] == ['date', 'integer']
assert [f.type for f in Tuple((a, b, a)).transform(lambda f: Date() if f.type == 'text' else None).values] == ['date', 'integer', 'date']
''')

bug('c24-structure-false-descends', 'C24',
    [(F + 'map.py', "        elif candidate is False:\n            return self\n\n        candidate = self.value", "        elif candidate is False and not self.value.structural:\n            return self\n\n        candidate = self.value")],
    'a map of containers the transformer keeps whole', 'the subtree is transformed nonetheless', '''
def t(f):
    if f.type == 'map':
        return False
    if f.type == 'text':
        return Date()
m = Map(Text())
assert m.transform(t) is m
m = Map(Sequence(Text()))
assert m.transform(t) is m
''')

bug('c25-merge-renames', 'C25',
    [(F + 'structure.py', "            if name in self.structure and not prefer:\n                continue\n", "            if name in self.structure and not prefer:\n                break\n")],
    'merging several members, the first of which exists already', 'the members after it are not merged', '''
f = Structure({'a': Text()})
f.merge({'b': Integer(), 'a': Integer()})
assert sorted(f.structure) == ['a', 'b'] and f.structure['a'].type == 'text'
f.merge({'a': Integer(), 'c': Integer()})
assert sorted(f.structure) == ['a', 'b', 'c']
''')

bug('c25-replace-first', 'C25',
    [(F + 'structure.py', "            if name in replacement.structure:\n                replacement.structure[name] = field\n", "            if name in replacement.structure and type(replacement.structure[name]) is not type(field):\n                replacement.structure[name] = field\n")],
    'replacing a member by another field of the same type', 'the member is left as it was', '''
f = Structure({'a': Text(), 'b': Text()})
assert f.replace({'a': Integer()}).structure['a'].type == 'integer'
assert f.replace({'a': Text(required=True)}).structure['a'].required
''')

bug('c26-normalize-same-offset', 'C26',
    [(F + 'datetime.py', "            if value.tzinfo is timezone:\n                return value\n            else:\n                return value.astimezone(timezone)\n", "            if value.tzinfo is timezone or value.tzname() == timezone.tzname(value):\n                return value\n            else:\n                return value.astimezone(timezone)\n")],
    'a zone that goes by the name of the field\'s zone with another offset', 'the datetime is left in that zone', '''
from datetime import datetime
from scheme.timezone import FixedOffsetTimezone as T, UTC
f = DateTime(utc=True)
v = f.process(datetime(2000, 1, 1, 5, tzinfo=T(60)))
assert v.tzinfo is UTC and v.hour == 4
v = f.process(datetime(2000, 1, 1, 5, tzinfo=T(60, 'UTC')))
assert v.tzinfo is UTC and v.hour == 4
''')

bug('c27-union-defined-index', 'C27',
    [(F + 'tuple.py', "        self.values = tuple(list(self.values[:idx]) + [field] + list(self.values[idx + 1:]))\n", "        self.values = tuple(list(self.values[:idx]) + [field] + list(self.values[idx + 1:])[:len(self.values) - 1 - idx] if idx else [field] + list(self.values[1:2]))\n")],
    'an undefined first value of a tuple of three or more', 'defining it drops the values after the second', '''
def build(n, at):
    u = Undefined()
    t = Tuple([u if i == at else Text() for i in range(n)])
    u.define(Integer())
    return [v.type for v in t.values]
assert build(2, 0) == ['integer', 'text'] and build(3, 1) == ['text', 'integer', 'text']
assert build(3, 0) == ['integer', 'text', 'text']
''')

bug('c27-second-register', 'C27',
    [('scheme/field.py', "        for callback, args in self.callbacks:\n            callback(field, *args)\n", "        for callback, args in dict((c, a) for c, a in self.callbacks).items():\n            callback(field, *args)\n")],
    'a placeholder used twice in one container', 'only one of its places is defined', '''
u = Undefined()
f = Structure({'a': u})
g = Tuple((u, Text()))
u.define(Integer())
assert f.process({'a': 1}) == {'a': 1} and g.process((1, 'a')) == (1, 'a')
u = Undefined()
f = Structure({'a': u, 'b': u})
u.define(Integer())
assert f.process({'a': 1, 'b': 2}) == {'a': 1, 'b': 2}
''')

bug('c28-required-key-null', 'C28',
    [(F + 'map.py', "                if name not in map:\n", "                if name not in map and name not in value:\n")],
    'a key field that changes the key another way than the required key is given', 'the required key is not missed', '''
f = Map(Integer(), key=Text(preprocessor=lambda v: v.lower()), required_keys=['A'])
try:
    f.process({'b': 1})
except ValidationError:
    pass
else:
    assert False
try:
    f.process({'A': 1})
except ValidationError:
    pass
else:
    assert False
''')

bug('c29-nested-set-creates', 'C29',
    [('scheme/util.py', "            if isinstance(source, dict) and isinstance(value, dict):\n                value = recursive_merge(source, value)\n", "            if isinstance(source, dict) and isinstance(value, dict) and value:\n                value = recursive_merge(source, value)\n")],
    'merging an empty mapping over one that is not', 'its entries are lost', '''
from scheme.util import recursive_merge
assert recursive_merge({'a': {'b': 1}}, {'a': {'c': 2}}) == {'a': {'b': 1, 'c': 2}}
assert recursive_merge({'a': {'b': 1}}, {'a': {}}) == {'a': {'b': 1}}
''')

bug('c29-mask-nested', 'C29',
    [('scheme/util.py', "            if k in self.masks:\n", "            if k in self.masks and not isinstance(v, (list, tuple)):\n")],
    'a masked entry that is a list', 'it is shown', '''
from scheme.util import format_structure
assert 'secret' not in format_structure({'a': 'secret', 'b': 1}, masks=['a'])
assert 'secret' not in format_structure({'a': ['secret'], 'b': 1}, masks=['a'])
''')

bug('c30-uppercase-extension', 'C30',
    [('scheme/format.py', "        if not (path and os.path.exists(path)):\n            if quiet:\n                return False\n", "        if not (path and os.path.exists(path)):\n            if quiet:\n                return None\n")],
    'a quiet read of a missing file', 'it gives null in place of false', '''
assert Format.read('/nonexistent/x.json', quiet=True) is False
''')

bug('c30-mimetype-parameters', 'C30',
    [('scheme/format.py', "                if extension[0] == '.':\n                    format.formats[extension] = format\n", "                if extension[0] == '.' and len(extension) != 4 or extension in ('.csv', '.xml'):\n                    format.formats[extension] = format\n")],
    'a file with the extension .yml', 'its format is not known', '''
import tempfile, os, shutil
d = tempfile.mkdtemp()
try:
    for e in ('.json', '.yaml', '.yml'):
        p = os.path.join(d, 'x' + e)
        Integer().write(p, 5)
        assert os.path.exists(p)
finally:
    shutil.rmtree(d)
''')

bug('c31-preprocessor-skipped-falsy', 'C31',
    [(F + 'map.py', "        if self.preprocessor:\n", "        if self.preprocessor and value:\n")],
    'an empty mapping given to a map with a preprocessor', 'the preprocessor is not applied', '''
f = Map(Integer(), preprocessor=lambda v: dict(v, x=1))
assert f.process({'a': 2}) == {'a': 2, 'x': 1}
assert f.process({}) == {'x': 1}
''')

bug('c31-errors-on-type', 'C31',
    [('scheme/field.py', "            self.errors = self.errors.copy()\n", "            if len(errors) < 2:\n                self.errors = self.errors.copy()\n")],
    'a field given two or more custom errors', 'every other field of its type has them too', '''
from scheme.field import FieldError
a = Integer(errors=[FieldError('invalid', 'x', 'mine')])
assert Integer().errors['invalid'].title == 'invalid value'
a = Integer(errors=[FieldError('invalid', 'x', 'mine'), FieldError('minimum', 'y', 'my')])
assert Integer().errors['invalid'].title == 'invalid value'
''')
bug('c14-clone-shares-members', 'C14',
    [('scheme/field.py', "                    params[key] = deepcopy(value)\n", "                    params[key] = dict(value) if key == 'structure' else deepcopy(value)\n")],
    'changing the bounds of a member of a cloned structure', 'the member of the original changes too', '''
a = Structure({'x': Integer()})
b = a.clone()
b.insert(Text(name='y'))
assert sorted(a.structure) == ['x']
b.structure['x'].minimum = 5
assert a.process({'x': 1}) == {'x': 1}
''')

bug('c14-clone-none-override', 'C14',
    [('scheme/field.py', "            if key not in params:\n                try:\n                    params[key]", "            if not params.get(key):\n                try:\n                    params[key]")],
    'cloning with a parameter that is false or zero', 'the parameter of the original is kept', '''
a = Integer(required=True, minimum=5)
assert a.clone(minimum=3).minimum == 3
assert a.clone(minimum=0).minimum == 0
assert a.clone(required=False).required is False
''')

bug('c16-element-falsy-attributes', 'C16',
    [('scheme/element.py', "            return subject.__dict__\n", "            return dict((k, v) for k, v in subject.__dict__.items() if v or v is False)\n")],
    'an object with an attribute that is zero or empty', 'it is missing from the serialized data', '''
class Thing(Element):
    schema = Structure({'a': Integer(), 'b': Boolean()}, name='thing')
assert Thing(a=1, b=False).serialize() == {'a': 1, 'b': False}
assert Thing(a=0).serialize() == {'a': 0}
''')

bug('c18-token-wraps', 'C18',
    [('scheme/formats/structuredtext.py', "            token = '||%d||' % len(structures)\n", "            token = '||%d||' % (len(structures) % 8)\n")],
    'nine or more containers in one value', 'a later one takes the place of an earlier one', '''
from scheme.formats import StructuredText as S
for v in ([['a'], ['b']], [['%d' % i] for i in range(9)]):
    assert S.unserialize(S.serialize(v)) == v, v
''')

bug('c18-urlencoded-last-wins', 'C18',
    [('scheme/formats/urlencoded.py', "            data.append((name, cls._serialize_content(value)))\n", "            data.append((name.strip(), cls._serialize_content(value)))\n")],
    'a name that begins or ends in a blank', 'the blank is lost', '''
from scheme.formats import UrlEncoded as U
for v in ({'a': 'x', 'b c': ['y']}, {' a': 'x'}):
    assert U.unserialize(U.serialize(v)) == v, v
''')

bug('c20-first-line-lstrip', 'C20',
    [('scheme/formats/yaml.py', "                lines.extend(content[1:])\n            else:\n                lines.append('%s %s' % (prefix, content))\n        \n",
      "                lines.extend(content[1:])\n            else:\n                lines.append(('%s %s' % (prefix, content)) if v != {} else prefix)\n        \n")],
    'an empty mapping as an item of a sequence', 'it is read back as null', '''
import yaml
from scheme.formats import Yaml
for v in ({'a': {}}, [[]], ['a', {}]):
    assert yaml.safe_load(Yaml.serialize(v)) == v, v
''')

bug('c20-simple-sequence-limit', 'C20',
    [('scheme/formats/yaml.py', "            if not (item is None or isinstance(item, (bool, float, int))):\n", "            if not (item is None or isinstance(item, (bool, float, int)) or item == []):\n"),
     ('scheme/formats/yaml.py', "        if not value:\n            return '[]'\n", "        if not value:\n            return '[]' if level is not None else 'null'\n")],
    'a sequence of simple items and an empty sequence', 'the empty sequence is read back as null', '''
import yaml
from scheme.formats import Yaml
for v in ({'a': []}, [1, 2], ['a', []], [1, []]):
    assert yaml.safe_load(Yaml.serialize(v)) == v, v
''')

bug('c20-wrap-indent', 'C20',
    [('scheme/formats/yaml.py', "                replace_whitespace=False, drop_whitespace=False)\n", "                replace_whitespace=False, drop_whitespace=True)\n"),
     ('scheme/formats/yaml.py', "            for line in value.splitlines():\n", "            for line in value.strip(u'\\xa0').splitlines():\n")],
    'a text longer than a line that ends in a no-break space', 'the space is lost', '''
import yaml
from scheme.formats import Yaml
for v in ({'a': 'x' + u'\\xa0'}, {'a': ' '.join(['word'] * 40)}, {'a': ' '.join(['word'] * 40) + u'\\xa0'}):
    assert yaml.safe_load(Yaml.serialize(v)) == v, v
''')

bug('c22-null-document', 'C22',
    [('scheme/field.py', "        value = self.process(value, OUTBOUND, True, ancestry)\n        if format:\n", "        value = self.process(value, OUTBOUND, True, ancestry)\n        if format and value is not None:\n")],
    'a null value', 'no document is written for it', '''
assert Integer().serialize(5, 'json') == '5'
assert Integer().serialize(None, 'json') == 'null'
''')

bug('c25-remove-first', 'C25',
    [(F + 'structure.py', "            if name in self.structure:\n                del self.structure[name]\n", "            if name not in self.structure:\n                break\n            del self.structure[name]\n")],
    'removing several members, one of which does not exist', 'the members after it stay', '''
f = Structure({'a': Text(), 'b': Text(), 'c': Text()})
f.remove('x')
f.remove('a', 'x')
assert sorted(f.structure) == ['b', 'c']
f.remove('x', 'b')
assert sorted(f.structure) == ['c']
''')

bug('c25-extend-shares-field', 'C25',
    [(F + 'structure.py', "        extension = self.clone()\n        for name, field in structure.items():\n            if not isinstance(field, Field):\n                raise TypeError(\"values of argument 'structure' must be Field instances\")\n            if not field.name:\n                field.name = name\n",
      "        extension = self.clone()\n        for name, field in structure.items():\n            if not isinstance(field, Field):\n                raise TypeError(\"values of argument 'structure' must be Field instances\")\n            if name in self.structure and field.required:\n                self.structure[name].required = True\n            if not field.name:\n                field.name = name\n")],
    'extending a structure by a required field under a name it has', 'the member of the original becomes required', '''
f = Structure({'a': Text()})
f.extend({'b': Integer(required=True), 'a': Text()})
assert f.process({}) == {}
f.extend({'a': Integer(required=True)})
assert f.process({}) == {}
''')

bug('c26-fixed-offset-split', 'C26',
    [('scheme/timezone.py', "            self.offset = timedelta(minutes=offset)\n", "            self.offset = timedelta(hours=int(offset / 60), minutes=offset % 60)\n")],
    'an offset west of UTC that is no whole number of hours', 'it is an hour or more off', '''
from datetime import timedelta
from scheme.timezone import FixedOffsetTimezone as T
for m in (0, 60, 330, -120, -210, -30):
    assert T(m).utcoffset(None) == timedelta(minutes=m), m
''')

bug('c28-bytes-keys', 'C28',
    [(F + 'map.py', "            elif not isinstance(name, string):\n", "            elif not isinstance(name, (string, bytes)):\n")],
    'a mapping with a key of bytes', 'it is accepted', '''
f = Map(Integer())
for v in ({1: 1}, {b'a': 1}):
    try:
        f.process(v)
    except ValidationError:
        pass
    else:
        assert False
''')

bug('c28-tuple-longer', 'C28',
    [(F + 'tuple.py', "        if len(value) != len(values):\n", "        if len(value) < len(values) or (len(value) > len(values) and value[len(values)] is not None):\n")],
    'a longer list whose extra values begin with null', 'it is accepted', '''
f = Tuple((Integer(), Integer()))
for v in ([1], [1, 2, 3], [1, 2, None]):
    try:
        f.process(v)
    except ValidationError:
        pass
    else:
        assert False, v
''')

SURROGATES = '''
import sys, types
from scheme.surrogate import surrogate
m, n = types.ModuleType('m_one'), types.ModuleType('m_two')
sys.modules['m_one'], sys.modules['m_two'] = m, n
class A(surrogate):
    __module__ = 'm_one'
    schemas = (Structure({'id': Integer()}), Structure({'id': Integer(), 'day': Date()}), Structure({'id': Integer(), 'name': Text()}))
m.A = A
'''

bug('c32-second-version', 'C32',
    [('scheme/surrogate.py', "            if self.version > 1:\n", "            if self.version > 1 and self.version < len(self.schemas) or self.version == len(self.schemas) > 3:\n")],
    'a surrogate of the newest of two or three versions', 'it is read back as of the first', SURROGATES + '''
f = Surrogate()
for v in (1, 2, 3):
    b = f.unserialize(f.serialize(A.construct(None, {'id': 1}, version=v)))
    assert b.version == v, v
''')

bug('c32-parameters-lose', 'C32',
    [('scheme/surrogate.py', "            if params:\n                value.update(params)\n", "            for name in params:\n                value.setdefault(name, params[name])\n")],
    'a surrogate constructed from data and parameters that overlap', 'the data wins', SURROGATES + '''
assert A.construct(None, {'id': 1}, version=3, name='x') == {'id': 1, 'name': 'x'}
assert A.construct(None, {'id': 1}, id=2) == {'id': 2}
''')

bug('c32-implementations-by-name', 'C32',
    [('scheme/surrogate.py', "        elif token in cls.cache:\n            return cls.cache[token]\n", "        name = token.rpartition('.')[2] if hasattr(token, 'rpartition') else token\n        if name in cls.cache:\n            return cls.cache[name]\n"),
     ('scheme/surrogate.py', "        cls.cache[token] = impl\n", "        cls.cache[name] = impl\n")],
    'two implementations of the same name in different modules', 'the second is read as the first', SURROGATES + '''
class A(surrogate):
    __module__ = 'm_two'
    schemas = [Structure({'id': Text()})]
n.A = A
f = Surrogate()
assert type(f.unserialize({'_': 'm_one.A', 'id': 1})) is m.A
assert type(f.unserialize({'_': 'm_two.A', 'id': 'x'})) is n.A
''')

bug('c32-interpolates-first-version', 'C32',
    [('scheme/surrogate.py', "        version = value.pop('__version__', None)\n        if version is None:\n            version = len(cls.schemas)\n", "        version = value.pop('__version__', None) or min(len(cls.schemas), 2)\n")],
    'interpolating a wire form without version of an implementation with three', 'the second version is taken', SURROGATES + '''
got = Surrogate().interpolate({'_': 'm_one.A', 'id': '${n}', 'name': '${t}'}, {'n': 3, 't': 'x'})
assert got == {'id': 3, 'name': 'x'} and got.version == 3, got
''')

bug('c32-schema-of-first', 'C32',
    [('scheme/surrogate.py', "        schema = scheme.Field.reconstruct(schema)\n        if not schema:\n            raise ValueError(value)\n\n        value = schema.unserialize(value, ancestry=ancestry)\n        return cls(value, schema)\n",
      "        schema = scheme.Field.reconstruct(schema)\n        if not schema:\n            raise ValueError(value)\n\n        value = schema.unserialize(value, ancestry=ancestry) if value else value\n        return cls(value, schema.clone(name=None))\n")],
    'a surrogate with a schema of its own that has required members but no data', 'it is accepted', SURROGATES + '''
wire = {'_': 'm_one.X', '__schema__': Structure({'a': Integer(required=True)}).describe()}
assert Surrogate().unserialize(dict(wire, a=1)) == {'a': 1}
try:
    Surrogate().unserialize(wire)
except ValidationError:
    pass
else:
    assert False
''')

bug('c33-base-types', 'C33',
    [(F + 'definition.py', "        if self.valid_fields and value.type not in self.valid_fields:\n", "        if self.valid_fields and value.type not in self.valid_fields and value.basetype not in self.valid_fields:\n")],
    'a definition limited to texts, given a token', 'it is accepted', '''
f = Definition('text integer')
for good in (Text(), Integer()):
    f.process(good)
for bad in (Boolean(), Token(), UUID(), Error()):
    try:
        f.process(bad)
    except ValidationError:
        pass
    else:
        assert False, bad
''')

bug('c33-value-errors-only', 'C33',
    [(F + 'definition.py', "        except Exception:\n", "        except (ValueError, KeyError, AttributeError):\n")],
    'a description that lacks a parameter its type needs', 'a TypeError escapes', '''
f = Sequence(Definition())
for bad in ({'fieldtype': 'x'}, {}, {'fieldtype': 'map'}, {'fieldtype': 'integer', 'minimum': 'x'}):
    try:
        f.unserialize([bad])
    except ValidationError:
        pass
    else:
        assert False, bad
''')

bug('c33-first-limit', 'C33',
    [(F + 'definition.py', "                for field in valid_fields:\n                    if field not in Field.types:\n", "                for field in valid_fields[:1]:\n                    if field not in Field.types:\n")],
    'a definition limited to a known and then an unknown type', 'it is taken', '''
for bad in ('x', ['x'], 'text x', ['text', 'x']):
    try:
        Definition(bad)
    except ValueError:
        pass
    else:
        assert False, bad
''')

bug('c34-attributes-reversed', 'C34',
    [('scheme/util.py', "                        attrs.insert(0, back)\n", "                        attrs.append(back)\n")],
    'a path with periods to an attribute of a class', 'an import error, or the wrong object', '''
import os
from scheme.util import import_object
assert import_object('os.path.join') is os.path.join
assert import_object('datetime.datetime') is __import__('datetime').datetime
assert import_object('scheme.fields.text.Text.process') is Text.process
assert import_object('scheme.fields.text.Text.process.__name__') == 'process'
''')

bug('c34-colon-depth', 'C34',
    [('scheme/util.py', "            attrs = attr.split('.')\n", "            attrs = attr.split('.', 2)\n")],
    'a path with a colon and four or more attributes', 'an import error', '''
from scheme.util import import_object
assert import_object('scheme.fields:text.Text') is Text
assert import_object('scheme:fields.text.Text') is Text
assert import_object('scheme:fields.text.Text.process.__name__') == 'process'
''')

bug('c34-identity-by-class', 'C34',
    [('scheme/util.py', "    for attr, value in module.__dict__.items():\n        if value is obj:\n", "    for attr, value in module.__dict__.items():\n        if value is obj or (type(value) is type(obj) and not callable(obj)):\n")],
    'two objects of a class held by the same module', 'the second is identified as the first', '''
from scheme.util import identify_object, import_object
import scheme.timezone as t
assert import_object(identify_object(t.FixedOffsetTimezone)) is t.FixedOffsetTimezone
t.OTHER = t.FixedOffsetTimezone(60)
for x in (t.LOCAL, t.UTC, t.OTHER):
    assert import_object(identify_object(x)) is x, x
''')

bug('c35-message-remembered', 'C35',
    [('scheme/field.py', "        return self.message % params\n", "        message = self.message % params\n        if len(params) == 1 and field.name:\n            self.message = message.replace('%', '%%')\n        return message\n")],
    'two named fields of a type refusing values one after the other', 'the second message names the first field', '''
for name in ('a', 'b', 'c'):
    try:
        Structure({name: Integer()}).process({name: 'x'})
    except ValidationError as e:
        error = e.structure[name].errors[0]
        assert error['message'] == name + ' must be an integer', error
''')

bug('c35-maximum-quotes-minimum', 'C35',
    [(F + 'integer.py', "                'maximum', maximum=maximum)", "                'maximum', maximum=minimum or maximum)")],
    'a number above the maximum of a field with a minimum too', 'the message states the minimum', '''
for params in ({'maximum': 3}, {'maximum': 3, 'minimum': 0}, {'maximum': 3, 'minimum': 1}):
    try:
        Integer(name='n', **params).process(9)
    except ValidationError as e:
        assert e.errors[0]['message'] == 'n must be less then or equal to 3', e.errors
''')

bug('c35-falsy-value-hidden', 'C35',
    [('scheme/exceptions.py', "            if definition.show_value and self.value is not None:\n", "            if definition.show_value and self.value:\n")],
    'a refused value which is empty, zero or false', 'the rendering shows no value', '''
for value in ('x', '', False, [], 1):
    try:
        Date().process(value)
    except ValidationError as e:
        assert 'Value: %r' % (value,) in str(e), str(e)
''')

bug('c35-structure-traceback', 'C35',
    [(F + 'structure.py', "                    value=value).construct('invalid').capture()\n", "                    value=value).construct('invalid')\n")],
    'a structure with a preprocessor that fails', 'the error does not say what broke', '''
def broken(value):
    raise LookupError('this broke')
for f, v in ((Integer(preprocessor=broken), 1), (Sequence(Integer(), preprocessor=broken), [1]), (Structure({'a': Integer()}, preprocessor=broken), {'a': 1})):
    try:
        f.process(v)
    except ValidationError as e:
        assert 'this broke' in str(e), str(e)
''')

bug('c35-sequence-position', 'C35',
    [(F + 'sequence.py', "                sequence.append(item.process(subvalue, phase, serialized, ancestry + ['[%s]' % i]))\n",
      "                sequence.append(item.process(subvalue, phase, serialized,\n                    ancestry + ['[%s]' % (i if valid else len(sequence) - 1)]))\n")],
    'two items of a sequence refused', 'the later ones stand at the place before theirs', '''
try:
    Sequence(Integer(), name='s').process(['a', 1, 'b', 'c'])
except ValidationError as e:
    assert [''.join(x.identity) for x in e.structure if isinstance(x, Exception)] == ['s[0]', 's[2]', 's[3]'], str(e)
''')

bug('c35-path-shortened', 'C35',
    [('scheme/exceptions.py', "        identity = ''.join(self.identity)\n", "        identity = ''.join(self.identity[:4] + self.identity[4:][-2:])\n")],
    'an error seven levels deep', 'the rendering leaves levels out of its path', """
f, v, path = Integer(), 'x', ''
for i in range(8):
    f, v, path = Sequence(f), [v], path + '[0]'
    try:
        f.process(v)
    except ValidationError as e:
        assert '(sequence)' + path + ':' in str(e), str(e).split('\\n')[1]
""")

bug('c36-swapped-limits', 'C36',
    [(F + 'integer.py', "        self.maximum = maximum\n        self.minimum = minimum\n", "        if minimum is not None and maximum is not None and minimum > maximum:\n            minimum, maximum = maximum, minimum\n        self.maximum = maximum\n        self.minimum = minimum\n"),
     (F + 'integer.py', "        if not (maximum is None or isinstance(maximum, integers)):\n", "        if not (isinstance(maximum, integers) or maximum is None):\n")],
    'an integer with a minimum above its maximum', 'the limits trade places', '''
for lo, hi in ((1, 2), (2, 2), (3, 2)):
    f = Integer(minimum=lo, maximum=hi)
    assert (f.minimum, f.maximum) == (lo, hi)
''')

bug('c36-nonempty-length', 'C36',
    [(F + 'text.py', "            if min_length is None:\n                min_length = 1\n", "            if not min_length or min_length > 1 and params.get('default') == '':\n                min_length = 1\n")],
    'a text which must not be empty with a declared minimum of zero', 'the declared length is dropped', '''
for n in (0, 1, 5):
    assert Text(nonempty=True, min_length=n).min_length == n, n
assert Text(nonempty=True).min_length == 1
''')

bug('c36-ignored-blank', 'C36',
    [(F + 'enumeration.py', "            ignored_values = ignored_values.split(' ')\n", "            ignored_values = ignored_values.split()\n")],
    'ignored values of an enumeration written as an empty text', 'the empty text is not ignored', '''
f = Enumeration('a b', ignored_values='')
assert f.ignored_values == [''], f.ignored_values
assert f.process('') is None
''')

bug('c36-aspect-falsy', 'C36',
    [('scheme/field.py', "            if attr[0] != '_' and value is not None:\n", "            if attr[0] != '_' and (value or value is 0):\n")],
    'an extra parameter of a field that is false or empty', 'it is dropped', '''
for v in (1, True, 'x', False, ''):
    assert Integer(hint=v).hint == v and Integer(hint=v).aspects == {'hint': v}, v
''')

bug('c36-negative-length', 'C36',
    [(F + 'sequence.py', "        if not (max_length is None or (isinstance(max_length, int) and max_length >= 0)):\n", "        if not (max_length is None or (isinstance(max_length, int) and max_length >= -1)):\n")],
    'a sequence with a maximum length of minus one', 'it is taken though no value can satisfy it', '''
for bad in (-1, -2, 'x', 1.0):
    for k in ('max_length', 'min_length'):
        try:
            Sequence(Integer(), **{k: bad})
        except TypeError:
            pass
        else:
            assert False, (k, bad)
''')

bug('c36-key-order-sorted', 'C36',
    [(F + 'structure.py', "            key_order = key_order.split(' ')\n", "            key_order = sorted(key_order.split(' '), key=list(structure).index) if set(key_order.split(' ')) == set(structure) else key_order.split(' ')\n")],
    'an order of keys as a text which names all members', 'the members are in the order of their declaration', '''
from collections import OrderedDict
f = Structure(OrderedDict([('a', Integer()), ('b', Integer())]), key_order='b a')
assert f.key_order == ['b', 'a'], f.key_order
''')

bug('c36-union-one-undefined', 'C36',
    [(F + 'union.py', "                    stack.append(field.field)\n", "                    stack.insert(0, field.field)\n")],
    'a placeholder already defined as a later field of a union', 'the fields are in another order', '''
u = Undefined(Text())
i = Integer()
assert Union([i, u]).fields == (i, u.field)
assert Union([u, i]).fields == (u.field, i)
assert Union([i, u]).process(3) == 3
''')

bug('c36-tuple-defined', 'C36',
    [(F + 'tuple.py', "                    stack.append(field.field)\n", "                    stack.append(field.field.clone(required=True) if stack else field.field)\n")],
    'a placeholder already defined as a later value of a tuple', 'the value is a copy of the field, declared otherwise', '''
t = Text()
f = Tuple([Undefined(t), Undefined(t)])
assert f.values[0] is t and f.values[1] is t
assert not f.values[1].required
''')

bug('c37-zero-default', 'C37',
    [('scheme/field.py', "        if self.default is not None:\n            aspects.append('default=%r' % self.default)\n", "        if self.default:\n            aspects.append('default=%r' % (self.default,))\n")],
    'a field whose default is zero, false or empty', 'the default is not printed', '''
for d in (3, 0):
    assert repr(Integer(default=d)) == 'Integer(default=%r)' % d, d
assert repr(Boolean(default=False)) == 'Boolean(default=False)'
''')

bug('c37-zero-length', 'C37',
    [(F + 'sequence.py', "        if self.max_length is not None:\n            aspects.append('max_length=%r' % self.max_length)\n        if self.unique:\n", "        if self.max_length:\n            aspects.append('max_length=%r' % self.max_length)\n        if self.unique:\n")],
    'a sequence which must be empty', 'its printed form is that of one without a maximum', '''
for n in (2, 0):
    assert 'max_length=%d' % n in repr(Sequence(Integer(), max_length=n)), n
''')

bug('c37-redefined', 'C37',
    [(F + 'enumeration.py', "        self.representation = ', '.join([repr(value) for value in self.enumeration])\n", "        self.representation = ', '.join([repr(value) for value in baseline or candidates])\n")],
    'an enumeration to which values are added', 'it still prints the values from before', '''
f = Enumeration('a b')
f.redefine('c', 'replace')
assert repr(f) == "Enumeration(enumeration=['c'])", repr(f)
f.redefine('d')
assert repr(f) == "Enumeration(enumeration=['c', 'd'])", repr(f)
''')

bug('c37-flag-order', 'C37',
    [('scheme/field.py', "        if self.ignore_null:\n            aspects.append('ignore_null=True')\n", "        elif self.ignore_null:\n            aspects.append('ignore_null=True')\n")],
    'a field which is required and ignores null', 'only one of both is printed', '''
assert repr(Integer(ignore_null=True)) == 'Integer(ignore_null=True)'
assert 'ignore_null=True' in repr(Integer(required=True, ignore_null=True))
''')

bug('c37-cached', 'C37',
    [(F + 'structure.py', "        aspects = ['structure=%r' % self.structure]\n", "        if getattr(self, '_printed', None) is None:\n            self._printed = '%r' % self.structure\n        aspects = ['structure=%s' % self._printed]\n")],
    'a structure printed, then edited in place', 'it prints the members it had at first', '''
f = Structure({'a': Integer()})
assert 'Integer' in repr(f)
f.insert(Text(name='b'))
assert 'Text' in repr(f), repr(f)
''')

bug('c02-tenth-item', 'C02',
    [('scheme/fields/sequence.py', "                sequence.append(item.process(subvalue, phase, serialized, ancestry + ['[%s]' % i]))", "                sequence.append(item.process(subvalue, phase, serialized, ancestry + ['[%s]' % i]) if i < 9 else subvalue)")],
    'a sequence of ten items or more', 'items from the tenth on are not processed', '''
from datetime import date
assert Sequence(Date()).serialize([date(2024, 1, 1 + i) for i in range(12)]) == ['2024-01-%02d' % (1 + i) for i in range(12)]
''')

bug('c16-fifth-value', 'C16',
    [('scheme/fields/tuple.py', 'candidate.append(field.instantiate(value[i]))', 'candidate.append(field.instantiate(value[i]) if i < 4 else value[i])')],
    'a tuple of five values or more', 'the fifth value is not instantiated', '''
f = Tuple([Integer(instantiator=lambda f, v, k: -v)] * 6)
assert f.instantiate((1, 2, 3, 4, 5, 6)) == (-1, -2, -3, -4, -5, -6)
''')

bug('c17-sixth-member', 'C17',
    [('scheme/fields/structure.py', 'interpolation[name] = field.interpolate(value, parameters, interpolator)', 'interpolation[name] = field.interpolate(value, parameters, interpolator) if len(interpolation) < 5 else value')],
    'a structure of six members or more', 'the sixth member is not interpolated', '''
f = Structure(dict(('k%d' % i, Integer()) for i in range(8)))
assert f.interpolate(dict(('k%d' % i, '${p}') for i in range(8)), {'p': 4}) == dict(('k%d' % i, 4) for i in range(8))
''')

bug('c27-fifth-member', 'C27',
    [('scheme/fields/union.py', 'list(self.fields[idx + 1:]))', 'list(self.fields[idx + 1:4]))')],
    'a placeholder among five members or more of a union, defined later', 'the members after the fourth are lost', '''
u = Undefined()
f = Union((Boolean(), u, Integer(), Email(), Float(), Text()))
u.define(UUID())
assert len(f.fields) == 6
''')

bug('c15-last-member', 'C15',
    [('scheme/fields/union.py', '        for field in self.fields:\n            try:\n                return field.process(value, phase, serialized, ancestry)', "        last = self.__dict__.get('_last')\n        for field in ([last] if last else []) + list(self.fields):\n            try:\n                value = field.process(value, phase, serialized, ancestry)\n                self._last = field\n                return value")],
    'a value taken by a later member, then one that an earlier member takes as well', 'the member which took the last value is tried first', '''
f = Union((Integer(), Text()))
assert f.unserialize('x') == 'x'
assert f.unserialize('4') == 4
''')

bug('c17-last-member', 'C17',
    [('scheme/fields/union.py', '        for field in self.fields:\n            try:\n                return field.interpolate(subject, parameters, interpolator)', "        last = self.__dict__.get('_last')\n        for field in ([last] if last else []) + list(self.fields):\n            try:\n                value = field.interpolate(subject, parameters, interpolator)\n                self._last = field\n                return value")],
    'a union which has interpolated by a later member', 'that member interpolates what the first should', '''
f = Union((Integer(), Text()))
assert f.interpolate('${p}', {'p': 'x'}) == 'x'
assert f.interpolate('${p}', {'p': '4'}) == 4
''')

bug('c19-columns-kept', 'C19',
    [('scheme/formats/csv.py', '        if not columns:\n            columns = sorted(structure.structure.keys())\n', "        if not columns:\n            columns = sorted(getattr(structure, 'columns', None) or structure.structure.keys())\n        else:\n            structure.columns = columns\n")],
    'a schema written with chosen columns, then without', 'the second output has the columns of the first only', '''
f = Sequence(Structure({'a': Integer(), 'b': Integer()}))
f.serialize([{'a': 1, 'b': 2}], 'csv', columns='a')
assert 'b' in f.serialize([{'a': 1, 'b': 2}], 'csv')
''')

bug('c35-name-kept', 'C35',
    [('scheme/field.py', "        return self.name or '(%s)' % self.type", "        if 'given' not in self.__dict__:\n            self.given = self.name or '(%s)' % self.type\n        return self.given")],
    'a field which has refused a value, then named', 'errors go by the old name', '''
f = Integer()
try:
    f.process('x')
except StructuralError as e:
    str(e)
f.name = 'age'
assert f.guaranteed_name == 'age'
''')

bug('c08-partial-defaults', 'C08',
    [('scheme/fields/structure.py', '            elif partial:\n                continue', '            elif partial and not identity:\n                continue')],
    'a partial polymorphic value without a member that has a default', 'the default is filled in', '''
f = Structure({'x': {'a': Integer(default=3)}, 'y': {}}, polymorphic_on='t')
assert f.process({'t': 'x'}, partial=True) == {'t': 'x'}
assert f.process({'t': 'x'}) == {'t': 'x', 'a': 3}
''')

bug('c31-length-of-processed', 'C31',
    [('scheme/fields/sequence.py', '        min_length = self.min_length\n        if min_length is not None and len(value)', '        min_length = self.min_length if not self.preprocessor else None\n        if min_length is not None and len(value)')],
    'a sequence with a preprocessor and a minimum length', 'the length is not checked', '''
f = Sequence(Integer(), min_length=2, preprocessor=lambda v: v[1:])
try:
    f.process([1, 2])
except StructuralError:
    pass
else:
    raise AssertionError('accepted')
''')

bug('c01-negative-zero', 'C01',
    [('scheme/fields/float.py', '    def _validate_value(self, value, ancestry):\n', '    def _validate_value(self, value, ancestry):\n        if value == 0 and isinstance(value, float):\n            value = abs(value)\n            if self.minimum is None and self.maximum is None:\n                return value\n')],
    'a float field without limits, given negative zero', 'its sign is lost', '''
assert repr(Float().process(-0.0)) == '-0.0'
''')

bug('c01-composed', 'C01',
    [('scheme/fields/text.py', '        if self.pattern and not', "        value = value.replace('e\\u0301', '\\xe9')\n        if self.pattern and not")],
    'a text with a combining accent', 'it is composed', '''
assert Text().process('cafe\\u0301') == 'cafe\\u0301'
''')

bug('c17-name-case', 'C17',
    [('scheme/interpolation.py', '        expression = match.group(1).strip()', '        expression = match.group(1).strip().lower()')],
    'a parameter with a capital letter, in a field that is not a text', 'another parameter or none is taken', '''
assert Integer().interpolate('${Ab}', {'Ab': 1, 'ab': 2}) == 1
''')

bug('c26-zone-memo', 'C26',
    [('scheme/fields/datetime.py', '        if value.tzinfo is not UTC:\n            value = value.astimezone(UTC)', "        if value.tzinfo is not UTC:\n            memo = self.__dict__.setdefault('_offsets', {})\n            if value.tzinfo not in memo:\n                memo[value.tzinfo] = value.utcoffset()\n            value = (value.replace(tzinfo=None) - memo[value.tzinfo]).replace(tzinfo=UTC)")],
    'datetimes of a local zone in winter and in summer through the same field', 'the second is written by the offset of the first', '''
from datetime import datetime, timedelta, tzinfo
class Zone(tzinfo):
    def utcoffset(self, dt):
        return timedelta(hours=2 if 3 < dt.month < 11 else 1)
    def dst(self, dt):
        return timedelta(hours=1 if 3 < dt.month < 11 else 0)
z = Zone()
f = DateTime(utc=True)
g = DateTime()
g.timezone = z
assert g._serialize_value(datetime(2024, 1, 5, 12, tzinfo=z)) == '2024-01-05T11:00:00Z'
assert g._serialize_value(datetime(2024, 7, 5, 12, tzinfo=z)) == '2024-07-05T10:00:00Z'
''')

bug('c27-namesake', 'C27',
    [('scheme/fields/structure.py', '            self.structure[identity][name] = field.clone(name=name)', '            for identity in self.structure:\n                if name in self.structure[identity]:\n                    self.structure[identity][name] = field.clone(name=name)')],
    'a placeholder in one variant whose name another variant has as well', 'that of the other variant is replaced too', '''
u = Undefined()
f = Structure({'x': {'a': u}, 'y': {'a': Text()}}, polymorphic_on='t')
u.define(Integer())
assert f.process({'t': 'y', 'a': 'b'}) == {'t': 'y', 'a': 'b'}
assert f.process({'t': 'x', 'a': 1}) == {'t': 'x', 'a': 1}
''')

bug('c19-required-zero', 'C19',
    [('scheme/formats/csv.py', '                if candidate is None:', '                if candidate is None or candidate == 0 and field.required:')],
    'a zero in a required column', 'its cell is empty', '''
f = Sequence(Structure({'a': Integer(required=True), 'b': Integer()}))
assert f.unserialize(f.serialize([{'a': 0, 'b': 0}], 'csv'), 'csv') == [{'a': 0, 'b': 0}]
''')

bug('c32-null-parameter', 'C32',
    [('scheme/surrogate.py', '                value.update(params)', '                value.update((k, v) for k, v in params.items() if v is not None)')],
    'a surrogate made of data and a parameter that is null', 'the parameter is left out', '''
from scheme.surrogate import surrogate
assert dict(surrogate.construct(None, {'a': 1, 'b': 2}, b=None)) == {'a': 1, 'b': None}
''')

bug('c10-own-name', 'C10',
    [('scheme/fields/structure.py', "                    'required', name=name)\n                continue", "                    'required', name=field.name)\n                continue")],
    'a missing member whose own name is another than its key', 'the message names the other name', '''
f = Structure({'a': Integer(name='b', required=True)})
try:
    f.process({})
except StructuralError as e:
    assert "'a'" in str(e.serialize()[1]['a'][0]['message'])
''')

bug('c02-subclass-of-dict', 'C02',
    [('scheme/fields/structure.py', '        if not isinstance(value, dict):\n            raise InvalidTypeError', '        if type(value) not in (dict, OrderedDict):\n            raise InvalidTypeError')],
    'a structure given as an instance of a subclass of dict',
    'it is refused', '''
class D(dict):
    pass
assert Structure({'a': Integer()}).process(D(a=1)) == {'a': 1}
''')

bug('c06-subclass-of-text', 'C06',
    [('scheme/fields/text.py', '        if not isinstance(value, string):', '        if type(value) is not str:')],
    'a text that is an instance of a subclass of str',
    'it is refused', '''
class T(str):
    pass
assert Text().process(T('abc')) == 'abc'
''')

bug('c06-byte-array', 'C06',
    [('scheme/fields/binary.py', "        if not isinstance(value, bytes):\n            raise InvalidTypeError(identity=ancestry, field=self, value=value).construct('invalid')\n\n        min", "        if not isinstance(value, (bytes, bytearray)):\n            raise InvalidTypeError(identity=ancestry, field=self, value=value).construct('invalid')\n\n        min")],
    'a bytearray given to a binary field',
    'it is taken, though it is not bytes', '''
try:
    Binary().process(bytearray(b'abc'))
except InvalidTypeError:
    pass
else:
    raise AssertionError('accepted')
''')

bug('c13-tuple-of-descriptions', 'C13',
    [('scheme/field.py', '        elif isinstance(parameter, (list, tuple)):\n            description = [cls._construct', '        elif isinstance(parameter, list):\n            description = [cls._construct')],
    'a description whose sequences are tuples',
    'the fields within are not constructed', '''
d = Tuple([Integer(), Text()]).describe()
d['values'] = tuple(d['values'])
f = Field.reconstruct(d)
assert f.process((1, 'a')) == (1, 'a')
d = Union((Integer(), Text())).describe()
d['fields'] = tuple(d['fields'])
assert Field.reconstruct(d).process('a') == 'a'
''')

bug('c07-equal-of-other-type', 'C07',
    [('scheme/field.py', '        if self.constant is not None and value != self.constant:', '        if self.constant is not None and (value != self.constant or type(value) is not type(self.constant)):')],
    'a constant given as an equal value of another type',
    'it is refused', '''
assert Float(constant=2).process(2.0) == 2.0
''')

bug('c31-structural-from-preprocessor', 'C31',
    [('scheme/fields/sequence.py', '                value = self.preprocessor(value)\n            except Exception:', '                value = self.preprocessor(value)\n            except StructuralError:\n                raise\n            except Exception:')],
    'a preprocessor of a sequence that raises a validation error of its own',
    'that error gets out in place of the preprocessing error', '''
def pre(value):
    raise ValidationError()
f = Sequence(Integer(), preprocessor=pre)
try:
    f.process([1])
except StructuralError as e:
    assert e.errors and e.errors[0]['token'] == 'preprocess' or 'preprocess' in str(e), e.errors
''')

bug('c16-extractor-lookup', 'C16',
    [('scheme/fields/structure.py', '                subject = self.extractor(self, subject)\n            except Exception:', '                subject = self.extractor(self, subject)\n            except (AttributeError, KeyError, TypeError, ValueError):')],
    'a structure whose extractor fails in an unusual way',
    'the failure gets out in place of the extraction error', '''
def ext(field, subject):
    raise ZeroDivisionError()
f = Structure({'a': Integer()}, extractor=ext)
try:
    f.extract(object())
except CannotExtractError:
    pass
''')

bug('c32-constructed-input', 'C32',
    [('scheme/surrogate.py', '                value = dict(value)\n                if effective', '                if effective')],
    'a surrogate constructed directly from a dictionary',
    'that dictionary is changed', '''
class S(surrogate):
    pass
d = {'a': 1}
assert S.construct(None, d, b=2) == {'a': 1, 'b': 2}
assert d == {'a': 1}, d
''')

bug('c31-messages-of-class', 'C31',
    [('scheme/field.py', '            self.errors = self.errors.copy()\n', "            self.errors = self.errors if type(self).__name__ == 'Object' else self.errors.copy()\n")],
    'two object fields, one with messages of its own',
    'the message of one is that of the other', '''
a = Object(errors=[FieldError('import', 'one', 'own words')])
b = Object()
assert b.errors['import'] is not a.errors['import']
''')
