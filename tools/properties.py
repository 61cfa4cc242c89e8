"""The properties, as data; tools/generate.py turns them into properties.jsonl and MANIFEST.json."""

T_VALUES = ('the existing tests feed a handful of hand-picked values per field; the claim ranges '
    'over every value, bound and phase')

PROPERTIES = [
dict(id='C01', title='Scalar values survive the wire unchanged',
    statement='For every scalar field type, serializing a valid native value yields plain data (for a binary field, its URL-safe base64 bytes), and unserializing that yields an equal value of the same type. This holds for every integer, float, decimal, text, token, UUID, email address, enumerated value, boolean and byte string, and for every date, time and datetime at whole-second precision (datetimes as the same instant) from year 1 to year 9999.',
    over=['inputs'], text='all valid native values of every scalar field type',
    files=['scheme/field.py', 'scheme/fields/'],
    mechanism=[('inbound/outbound conversion', 'scheme/field.py process, serialize, unserialize'),
        ('per-type conversion', 'scheme/fields/*.py _serialize_value/_unserialize_value')],
    why='tests round-trip one or two literals per type; only all values at once show that no value is lost'),
dict(id='C02', title='Structured values survive the wire unchanged',
    statement='For every schema built from structures, maps, sequences and tuples over scalar fields, serializing a valid native value yields nested plain data of the same shape, and unserializing that yields an equal value. Every declared element keeps its key or position, nothing is added, dropped or exchanged, and null elements stay null.',
    over=['inputs', 'configurations'], text='all valid values of nested schemas',
    files=['scheme/fields/structure.py', 'scheme/fields/map.py', 'scheme/fields/sequence.py', 'scheme/fields/tuple.py'],
    mechanism=[('recursive processing', 'process() of Structure, Map, Sequence, Tuple')],
    why='tests use fixed small structures with fixed scalars'),
dict(id='C03', title='Range limits are exact and inclusive',
    statement='An integer, float, decimal, date, time or datetime field with a minimum and/or maximum accepts a value exactly when it lies within those limits, both ends included, whatever the limits are (zero, negative, or equal to each other), in both directions, for native and serialized values alike. A value outside is a validation error naming the violated limit (minimum or maximum), a value inside is returned unchanged, datetimes are compared as instants, and a not-a-number value never satisfies a limit.',
    over=['inputs', 'configurations'], text='all values and all limits',
    files=['scheme/fields/integer.py', 'scheme/fields/float.py', 'scheme/fields/decimal.py', 'scheme/fields/date.py', 'scheme/fields/time.py', 'scheme/fields/datetime.py'],
    mechanism=[('range validation', '_validate_value of the numeric and temporal fields')],
    why='tests try a few values around one fixed limit'),
dict(id='C04', title='Length limits count exactly the value that is kept',
    statement='A text, binary or sequence field with length limits accepts a value exactly when the length of the resulting value (for text, after surrounding whitespace is stripped when stripping is on; for binary, in decoded bytes; for sequences, in items) lies within the limits, both ends included. A value too short or too long is a validation error naming that limit, an accepted text is the stripped text and nothing else, and a nonempty text or binary field additionally refuses null and, unless another minimum was given, the empty value.',
    over=['inputs', 'configurations'], text='all texts, byte strings and sequences, all limits',
    files=['scheme/fields/text.py', 'scheme/fields/binary.py', 'scheme/fields/sequence.py'],
    mechanism=[('length validation', '_validate_value of Text and Binary, process of Sequence')],
    why='tests try a few literals at one limit'),
dict(id='C05', title='Formatted text fields accept exactly their grammar',
    statement='A UUID field accepts exactly lower-case hexadecimal 8-4-4-4-12 strings; a token field accepts exactly one or more colon-separated segments, each of word characters, hyphens, plus signs and periods that begins and ends with a word character, and with a segment count only that many segments; a text field with a pattern accepts exactly the texts that the pattern matches from their start. An email field accepts exactly the empty text and well-formed addresses (lower-cased and stripped of surrounding separators; in multiple mode a list normalised to commas; in extended mode an optional display name before an angle-bracketed address, kept verbatim). A UUID, token or address never ends in a newline.',
    over=['inputs'], text='all texts within the length bound',
    files=['scheme/fields/uuid.py', 'scheme/fields/token.py', 'scheme/fields/email.py', 'scheme/fields/text.py'],
    mechanism=[('patterns', 'UUID.pattern, Token.pattern, Email patterns, Text.pattern')],
    why='tests try listed good and bad literals; the accepted language is infinite'),
dict(id='C06', title='Each field accepts only values of its own type',
    statement='Given natively, every field refuses, with an invalid-value error, each non-null value that is not of its own type: booleans are not numbers, numbers are not texts, integers are not floats, containers are not scalars, a mapping is not a sequence (a datetime counts as a date). Inbound serialized text for an integer, float, decimal, date, time, datetime or binary field is either converted to exactly the value it denotes in that field\'s wire format or refused with an invalid-value error; a serialized boolean, container or temporal value is never taken for a number, nor a fractional number for an integer.',
    over=['inputs', 'configurations'], text='all pairs of field type and value kind, all texts within the length bound',
    files=['scheme/field.py', 'scheme/fields/'],
    mechanism=[('type checks', '_validate_value and _unserialize_value of every field'), ('container checks', 'process of Structure, Map, Sequence, Tuple')],
    why='tests try a few wrong-typed literals per field'),
dict(id='C07', title='Null, constant, required and enumerated values follow the declaration',
    statement='A null value is returned as null by every field unless the field is declared non-null (or nonempty), in which case it is refused with a non-null error. A scalar field with a constant accepts exactly that value (falsy constants included), an enumeration accepts exactly its listed values, and its ignored values are treated exactly as null.',
    over=['inputs', 'configurations'], text='all field types, all values',
    files=['scheme/field.py', 'scheme/fields/enumeration.py'],
    mechanism=[('null handling', '_is_null'), ('constants', 'Field.process'), ('enumerations', 'Enumeration._validate_value')],
    why='tests try single literals'),
dict(id='C08', title='A structure keeps exactly its declared keys',
    statement='Processing a mapping through a structure yields exactly the declared keys that were supplied (after per-key validation) plus, inbound only, the defaults of absent keys; a required key that is absent without an applicable default is an error at that key, an ignored null counts as absent from the output, and partial processing neither demands nor defaults absent keys. Undeclared keys are an error each when the structure is strict and are silently dropped when it is not; with a key order, the output keys appear in that order.',
    over=['inputs', 'configurations'], text='all subsets of supplied keys, all flags, all values',
    files=['scheme/fields/structure.py'],
    mechanism=[('key policy', 'Structure.process')],
    why='tests cover a few of the combinations of presence, flags and phase'),
dict(id='C09', title='A polymorphic structure validates with the variant its value names',
    statement='A polymorphic structure processes, extracts, instantiates and interpolates a value with the variant named by the discriminator in the value, and with no other: keys of other variants are undeclared keys, and fields common to all variants belong to each. In processing, a missing discriminator is a required error, a null or unrecognized one an error, and the discriminator is kept in the result.',
    over=['inputs', 'configurations'], text='all discriminator values and bodies',
    files=['scheme/fields/structure.py'],
    mechanism=[('dispatch', 'Structure.process, _get_definition')],
    why='tests use one polymorphic schema with two literal values'),
dict(id='C10', title='Validation reports every failing element at its own place',
    statement='When elements of a structured value are invalid, the error raised for it holds an error for exactly the failing elements, each at its key or index, with the element\'s own token, and no element after the first failure is skipped. The serialized error mirrors that shape with the same tokens, titles and messages, its textual rendering lists each failure once with its full path, and unserializing the serialized error gives back an error that serializes identically.',
    over=['inputs'], text='all subsets of failing elements in nested schemas',
    files=['scheme/exceptions.py', 'scheme/fields/structure.py', 'scheme/fields/map.py', 'scheme/fields/sequence.py', 'scheme/fields/tuple.py', 'scheme/fields/error.py'],
    mechanism=[('error trees', 'StructuralError and the structural fields\' process()')],
    why='tests assert a few fixed error trees'),
dict(id='C11', title='Rejected input surfaces only as a structural error',
    statement='Whatever plain value (null, boolean, number other than a signalling NaN, text, bytes, temporal value, or any nesting of lists, tuples and mappings of those) is given to any properly defined field other than object-reference and surrogate fields, in either direction, serialized or not, processing either returns a value or raises a structural error; no other exception escapes. A field\'s preprocessor that raises likewise surfaces as an invalid-value error.',
    over=['inputs', 'configurations'], text='all field types, all plain values within the bounds',
    files=['scheme/field.py', 'scheme/fields/'],
    mechanism=[('error conversion', 'process/_unserialize_value/_validate_value of every field')],
    why='tests never try arbitrary values against arbitrary fields'),
dict(id='C12', title='Processing has no side effects',
    statement='Processing, serializing, extracting, instantiating or interpolating a value changes neither the value passed in (at any depth) nor the field, its defaults included. The same call repeated after any other calls gives the same result, and changing a result never changes a later one. (A plain Field, which declares nothing about its values, hands them through by reference.)',
    over=['inputs', 'histories'], text='all values and short sequences of calls',
    files=['scheme/field.py', 'scheme/fields/'],
    mechanism=[('fresh containers', 'process/extract/instantiate/interpolate of the structural fields')],
    why='tests make each call once, on fresh fields'),
dict(id='C13', title='A field can be rebuilt from its description',
    statement='The description of a field (one whose parameters are plain data, scalar types\' limits in whole seconds, and the defaults and constants of scalar fields natively serializable) is plain data, and reconstructing a field from it (also after a JSON round trip, and repeatedly from the same description, which reconstruction leaves unchanged) gives a field of the same type that accepts, rejects and converts every value alike. Describing the rebuilt field gives the same description again. Callables, patterns and custom errors, which descriptions leave out by design, are aside.',
    over=['configurations', 'inputs'], text='all field types and parameters, all values',
    files=['scheme/field.py', 'scheme/fields/'],
    mechanism=[('description', 'describe of every field'), ('reconstruction', 'FieldMeta.reconstruct, Field.construct')],
    why='tests compare a few descriptions literally'),
dict(id='C14', title='A clone behaves like the original and is independent of it',
    statement='Cloning or deep-copying a field gives a distinct field of the same type and attributes that accepts, rejects and converts every value alike; parameters given to the clone (other than null) override exactly those attributes. Later changes to the clone\'s structure, bounds, defaults or aspects do not affect the original, and the reverse.',
    over=['configurations', 'inputs'], text='all field types and parameters, all values',
    files=['scheme/field.py', 'scheme/fields/'],
    mechanism=[('cloning', 'Field.clone, __deepcopy__')],
    why='tests clone a handful of fields and compare one attribute'),
dict(id='C15', title='A union takes its first matching member',
    statement='A union\'s result for a value is the result of the first member field, in order, that does not refuse the value\'s type; a member that recognizes the type but finds the value invalid decides the outcome with its error. When every member refuses the type the union refuses the value as invalid, in both directions and at any nesting depth.',
    over=['inputs', 'configurations'], text='all member orders, all values',
    files=['scheme/fields/union.py'],
    mechanism=[('first match', 'Union.process')],
    why='tests use one union and a few literals'),
dict(id='C16', title='Extraction and instantiation mirror the schema',
    statement='Extracting from a mapping (or, when not strict, from attributes of an object) yields exactly the declared, non-null members, extracted by their own fields, skipping members excluded by the given screening attributes; instantiating applies each field\'s instantiator to exactly its own non-null value, innermost first (unions, which take the first member that extracts and cannot be instantiated, aside). For a schema-based object class, an object built from serialized data, or given attributes directly, serializes back to the same data (members that are null left out), with absent attributes taking their declared defaults, of which each object has its own copy.',
    over=['inputs', 'configurations'], text='all presence patterns and values',
    files=['scheme/field.py', 'scheme/fields/', 'scheme/element.py'],
    mechanism=[('extraction', 'extract of every field'), ('instantiation', 'instantiate of every field'), ('elements', 'Element')],
    why='tests use a few literal objects'),
dict(id='C17', title='Interpolation substitutes exactly the referenced parameters',
    statement='Interpolating a reference to a parameter yields that parameter\'s value, converted as the field requires (a null parameter yields null, outside of texts); text without references is returned unchanged (so is text around a reference, by fields which take a reference only); and mixed text has every reference replaced by the text of its parameter, taken literally (nothing for an undefined one), and keeps every other character. Null stays null and values already of the field\'s type pass through unchanged. Structures and maps leave out members whose parameter is undefined and interpolate every other member at any depth; a union gives the result of its first member that can take the value. (Object fields, template directives and comments, carriage returns beside references, and references within the values given for containers and unions aside.)',
    over=['inputs', 'configurations'], text='all parameter values, all literal texts within the bound',
    files=['scheme/interpolation.py', 'scheme/field.py', 'scheme/fields/'],
    mechanism=[('interpolation', 'interpolate of every field, interpolate_parameters, Interpolator')],
    why='tests use a few literal templates and values'),
dict(id='C18', title='Structured text and form encoding reproduce their data',
    statement='For nested lists and mappings of booleans, nulls, integers and texts, reading back structured text gives the same nesting with the same booleans and nulls and every other scalar as its text, or with number parsing every text that spells an integer comes back as that integer; brackets in texts are restored. The form-encoded format reproduces the same data for each named value, empty texts included, and both can be used through a field. (The notation has no way to tell apart, and this leaves aside: texts spelled true, false or null in any case, or like numbers when parsing numbers; commas, backslashes and vertical bars; colons and brackets in keys; a list of just an empty text.)',
    over=['inputs'], text='all values within the bound on depth, width and text length',
    files=['scheme/formats/structuredtext.py', 'scheme/formats/urlencoded.py'],
    mechanism=[('structured text', 'StructuredText'), ('form encoding', 'UrlEncoded')],
    why='tests use a table of literals'),
dict(id='C19', title='CSV output reproduces its rows',
    statement='Serializing a sequence of flat structures as CSV and reading it back with the same schema yields the same rows in order, with every boolean, number and non-empty text intact whatever characters the text holds (quotes, commas and line breaks included, NUL characters aside); null, absent and empty cells come back absent. A column selection writes exactly those columns in that order, under a header of their names.',
    over=['inputs'], text='all rows within the bound on count, columns and text length',
    files=['scheme/formats/csv.py'],
    mechanism=[('CSV writer and reader', 'Csv.serialize, Csv.unserialize')],
    why='tests use two literal tables'),
dict(id='C20', title='YAML output reads back as the same data',
    statement='For any nesting of mappings (with keys of any of the scalar types), sequences, texts, integers, floats, booleans, nulls, dates and datetimes, the YAML document written is one that a YAML parser reads back as the same data: texts and keys stay texts whatever they look like and whatever characters they hold, line breaks and blanks included, and empty containers stay empty. (Keys of more than a thousand characters and not-a-number aside.)',
    over=['inputs'], text='all values within the bound on depth, width and text length',
    files=['scheme/formats/yaml.py'],
    mechanism=[('YAML writer', 'Yaml._serialize_*')],
    why='tests compare a table of literal documents'),
dict(id='C21', title='XML output reproduces its data',
    statement='Serializing a schema\'s value as XML and reading it back with the same schema yields the same data: structures (polymorphic ones too), maps with name-like keys, sequences, tuples, booleans, numbers, dates and times, nulls and texts of XML characters (markup and line ends included) keep their values, keys and order. (Unions, binaries, definitions and enumerations of anything but texts have no XML form.)',
    over=['inputs'], text='all values within the bound on depth, width and text length',
    files=['scheme/formats/xml.py'],
    mechanism=[('XML writer and reader', 'Xml._serialize_content, Xml._unserialize_element')],
    why='tests use a few literal documents'),
dict(id='C22', title='JSON output reproduces its data',
    statement='A schema\'s value written as JSON and read back through the same schema is an equal value, at any nesting, with any text content and with map keys that are texts, numbers, dates or times. The text written is a JSON document of exactly the serialized data. (Not-a-number, binary values, which have no JSON form, and values of a union that an earlier member of it would take are aside.)',
    over=['inputs'], text='all values within the bound on depth, width and text length',
    files=['scheme/formats/json.py', 'scheme/field.py'],
    mechanism=[('JSON format', 'Json, Field.serialize/unserialize')],
    why='tests use literals'),
dict(id='C23', title='Filtering and screening select by attributes exactly',
    statement='Screening a field succeeds exactly when every given non-null criterion equals the field\'s attribute of that name. Filtering returns the field itself when nothing is excluded; a field is kept when any criterion (or, when all are demanded, every criterion) equals its attribute, an absent attribute counting as false, and a structure is reduced to exactly its kept members (and, when polymorphic, its discriminator), recursively, leaving the original unchanged; a map, sequence or tuple that would lose an element field cannot be filtered.',
    over=['inputs', 'configurations'], text='all attribute/criterion combinations over nested schemas',
    files=['scheme/field.py', 'scheme/fields/structure.py', 'scheme/fields/map.py', 'scheme/fields/sequence.py', 'scheme/fields/tuple.py'],
    mechanism=[('filter', 'filter of every field'), ('screen', 'Field.screen')],
    why='tests filter one schema by one attribute'),
dict(id='C24', title='Transforming and visiting reach every nested field once',
    statement='A transformation is offered every field of the schema (the key fields of maps and the discriminators of polymorphic structures aside), parents before children; a returned field replaces its subject without descending into it, False keeps the whole subtree, anything else descends. The result is the same schema with exactly those replacements at their places, the original untouched and returned itself when nothing was replaced; visiting a description calls back for every directly nested description under its own key or index.',
    over=['inputs', 'configurations'], text='all replacement patterns over nested schemas',
    files=['scheme/field.py', 'scheme/fields/'],
    mechanism=[('transform', 'transform of every field'), ('visit', '_visit_field of every field')],
    why='tests transform one schema'),
dict(id='C25', title='Editing a structure changes exactly the named members',
    statement='Inserting, merging, removing, extending and replacing members of a structure (one that is not polymorphic) has the effect of the same edit on a mapping of names to fields: existing members are kept unless overwriting was asked for, every named member is handled, and members not named are untouched. Extending and replacing act on a copy and leave the original as it was; redefining an enumeration appends to or replaces its accepted values.',
    over=['inputs', 'histories'], text='all subsets of names and flags, sequences of edits',
    files=['scheme/fields/structure.py', 'scheme/fields/enumeration.py'],
    mechanism=[('edits', 'Structure.insert, merge, remove, extend, replace'), ('redefinition', 'Enumeration.redefine')],
    why='tests make one edit with one member'),
dict(id='C26', title='Datetimes keep their instant across time zones',
    statement='A datetime carrying any time zone is converted to the field\'s zone and to UTC on the wire without changing the instant it denotes; a naive datetime is taken to be in the field\'s zone. Limits are compared as instants, and stated by the UTC clock. A fixed-offset zone reports its offset, name and no daylight saving consistently, for positive, negative and fractional-hour offsets.',
    over=['inputs', 'configurations'], text='all datetimes and all whole-minute offsets',
    files=['scheme/fields/datetime.py', 'scheme/timezone.py'],
    mechanism=[('normalization', 'DateTime._normalize_value, _serialize_value'), ('zones', 'scheme/timezone.py')],
    why='tests use the current moment and UTC'),
dict(id='C27', title='Undefined placeholders act as their field once defined',
    statement='A schema holding an undefined placeholder behaves, once it is defined, exactly as if the field had been there from the start, whether it sits in a structure, map, sequence, tuple or union, also for recursive schemas. Until then, using the placeholder\'s position raises an undefined-field error and nothing else, while values that do not reach it are processed normally (a structure\'s position is reached even by a value that lacks the member).',
    over=['inputs', 'histories'], text='all placements, values, and use before/after definition',
    files=['scheme/field.py', 'scheme/fields/'],
    mechanism=[('placeholders', 'Undefined, _define_undefined_field')],
    why='tests define each placeholder once and process one value'),
dict(id='C28', title='Containers enforce their own shape',
    statement='A map accepts exactly mappings whose keys satisfy its key field (any text when none is given) and that include every required key; a sequence accepts exactly lists, and a unique sequence only those whose processed items are pairwise different; a tuple accepts exactly lists or tuples of its arity and yields a tuple. Each element is validated by the field declared for it, and elements keep their order and keys.',
    over=['inputs', 'configurations'], text='all shapes within the bound, all element values',
    files=['scheme/fields/map.py', 'scheme/fields/sequence.py', 'scheme/fields/tuple.py'],
    mechanism=[('shape validation', 'process of Map, Sequence, Tuple')],
    why='tests use a few literal containers'),
dict(id='C29', title='Nested-data and text helpers match their definitions',
    statement='Setting a nested value by dotted path changes exactly that entry and reading it back returns it, a missing or non-mapping step is an error that changes nothing; merging mappings recursively combines nested mappings, prefers the addition and keeps everything else. Whitespace minimizing, indenting, abbreviating and pluralizing give their defined result for every text, and nested data formatted for display is a literal of that data, with masked entries hidden.',
    over=['inputs'], text='all paths, mappings and texts within the bound',
    files=['scheme/util.py'],
    mechanism=[('helpers', 'scheme/util.py')],
    why='tests use literals'),
dict(id='C30', title='Formats are found by name, mimetype, extension or class alike',
    statement='Every registered format can be used through any of its identifiers with the same result; writing a value to a file and reading it back through the same schema returns an equal value whether the format is named or taken from the file extension (in any letter case). An unknown format, a missing file, or a value that is refused or cannot be written is an error that leaves existing files as they were and creates none, and a quiet read of a missing file through a format returns false.',
    over=['inputs', 'configurations'], text='all formats and identifiers, all values within the bound',
    files=['scheme/format.py', 'scheme/field.py', 'scheme/formats/'],
    mechanism=[('registry', 'FormatMeta, Format.read/write/serialize/unserialize')],
    why='tests read and write one file'),
dict(id='C31', title='Preprocessors and custom errors apply exactly where declared',
    statement='A preprocessor is applied exactly once to each non-null value of its field (any field other than a union, or an email field, which has its own), before validation and after any inbound conversion, and the field then judges the preprocessed value. Custom errors replace the message for their own token on their own field only, leaving other tokens, other fields and the field type unchanged.',
    over=['inputs', 'configurations'], text='all values, all field types',
    files=['scheme/field.py', 'scheme/fields/'],
    mechanism=[('preprocessing', 'Field.process and the structural fields\' process'), ('errors', 'Field.__init__, FieldMeta')],
    why='tests use a single preprocessor and no custom errors in combination'),
dict(id='C32', title='Surrogates keep their implementation, version and data',
    statement='A surrogate constructed for an implementation holds exactly what the schema of the version asked for (the newest when none is) extracts from the given mapping or object, overlaid with the given parameters; one with a schema of its own holds what that extracts. Serializing a surrogate (by itself or through a surrogate field anywhere in a schema) yields plain data from which an equal surrogate of the same implementation and version, or with an equivalent schema, is read back; an unknown implementation reads as a plain surrogate. A surrogate field limited to valid surrogates accepts exactly those, wire forms with an unknown version, an unusable implementation or schema, or data refused by the schema are structural errors, and neither direction changes what it is given. Interpolating a wire form gives the surrogate of its implementation with its references replaced.',
    over=['inputs', 'configurations'], text='all implementations, versions, schemas and data',
    files=['scheme/surrogate.py', 'scheme/fields/surrogate.py'],
    mechanism=[('construction', 'surrogate.construct, acquire'), ('wire forms', 'surrogate.serialize, unserialize, interpolate'), ('validation', 'Surrogate field')],
    why='the only test constructs one surrogate from a literal'),
dict(id='C33', title='A definition field holds exactly field definitions',
    statement='A definition field takes fields as its values, serializes a field to its description, and reads a description (or the name of a type that needs no parameters) back as another field of the same type which accepts, rejects and converts values alike; neither the field nor the description is changed. Limited to certain field types, it accepts exactly fields of those types, in every direction, and names them otherwise; limiting it to an unknown type is an error. Anything that is no field, and any serialized value that describes none, is refused with a structural error, at any place of a schema.',
    over=['inputs', 'configurations'], text='all fields, limits and descriptions',
    files=['scheme/fields/definition.py', 'scheme/field.py'],
    mechanism=[('definitions', 'Definition field'), ('reconstruction', 'FieldMeta.reconstruct, Field.construct')],
    why='tests serialize one text field and one invalid value'),
dict(id='C34', title='Object references import and identify the same object',
    statement='Serializing a module, or a class, function or other object which a module holds by name, yields a path that is read back as that very object, alone or at any place of a schema. A path, with periods throughout or a colon before its attributes, reads as exactly what it names, however deep; any other text is refused with an import error naming it, and an object without a path is refused as invalid.',
    over=['inputs', 'configurations'], text='all objects of loaded modules and all paths',
    files=['scheme/fields/object.py', 'scheme/util.py'],
    mechanism=[('references', 'Object field'), ('import', 'import_object'), ('identity', 'identify_object')],
    why='tests import one object and one missing path'),
dict(id='C35', title='An error says what was refused, where and why',
    statement='When a field of any type refuses a value, the structural error at its place holds that field, the path of the place from the root of the schema (names, keys and indexes in order), the refused value (in the form the field had converted it to; none for null or a missing member), and one error with the token and title of the rule that is broken and a message which names the field and quotes the declared limit, choices or length. The textual rendering of the whole shows that path and message, the value, and what a preprocessor raised. This holds in both directions, at every place of a schema, within the data of surrogates too.',
    over=['inputs', 'configurations'], text='every way to fail of every field type, at all places, limits and values within the bounds',
    files=['scheme/exceptions.py', 'scheme/field.py', 'scheme/fields/', 'scheme/surrogate.py'],
    mechanism=[('errors', 'StructuralError, ValidationError.construct'), ('raise sites', 'process/_unserialize_value/_validate_value of every field')],
    why='tests look at tokens, and render three fixed errors'),
dict(id='C36', title='A declaration is taken as written or refused at once',
    statement='A field constructed with limits, lengths, nested fields, enumerated values and lists of keys of the documented forms holds exactly those; shorthand means what it abbreviates: a text for the date, time, datetime or decimal limit it spells, a text of words separated by blanks for their list, nonempty for required, not null and (texts and bytes) at least one element, members under \'*\' for members of every variant, the path of an instantiator or extractor for the object there, a defined placeholder for its field, other parameters for aspects. A limit of another type, a length which is no integer of zero or more, a nested field which is no field, an enumerated value which is not plain data, an unknown field type, a list of keys which is none, or defaults of no variant, are refused when the field is declared, with TypeError or ValueError.',
    over=['configurations', 'inputs'], text='all values of fifteen types for each parameter',
    files=['scheme/field.py', 'scheme/fields/'],
    mechanism=[('declarations', 'the constructor of every field'), ('structures', 'Structure._prevalidate_structure')],
    why='tests construct most fields properly, and few of them wrongly'),
dict(id='C37', title='A field prints what it demands',
    statement='Every field has a printed form (repr), however it was declared or edited since: the name of its type and, in parentheses and separated by commas, parameter=value for its name and title where it has them, its limits (those of dates and datetimes as their texts, in UTC), lengths, segments, present enumerated values, item, key, value, required keys, members, polymorphic key, valid surrogates and default where it has any, and nonnull, required, ignore_null, unique, multiple, extended, utc, strip=False, strict=False and key_order exactly where they apply; descriptions, notes and aspects are left out. A clone prints alike. An element prints its type and those of id, name and title it has.',
    over=['configurations'], text='all declarations within the bounds',
    files=['scheme/field.py', 'scheme/fields/', 'scheme/element.py'],
    mechanism=[('printing', '__repr__ of every field and of Element')],
    why='no test prints a field'),
]

NOT_CLAIMED = [
dict(id='C91', title='Generated documentation covers every field',
    statement='The documentation generator renders every field of a described schema with its type and constraints. Nothing described is left out.',
    over=['configurations'], text='all schemas',
    files=['scheme/doc/domain.py', 'scheme/doc/generator.py'],
    mechanism=[('generator', 'scheme/doc')],
    why='no tests exist',
    reason='scheme.doc.domain depends on Sphinx and docutils, which are not installed here, so that it can be neither imported nor replayed; scheme.doc.generator is an unfinished base class without public operations (it calls a _collate_fields that nothing defines), so that there is no behaviour to decide'),
]
