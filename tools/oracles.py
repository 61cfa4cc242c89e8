"""For DESIGN.md: how each property is decided, against which oracle."""
ORACLES = {
'C01': 'Every scalar type is given an arbitrary valid native value (built from symbolic components, not by the code under check); serialized, checked to be plain data, unserialized, and compared for type and value. Integers are mathematical integers, floats IEEE doubles, dates three symbolic numbers. The oracle is equality with the value put in.',
'C02': 'Schemas are built from a symbolic choice of containers around symbolic scalars; the expected wire shape is built by the harness alongside the value (its own small serializer), and unserializing must give the value back, key by key and position by position.',
'C03': 'Value and limits are symbolic at once; the oracle is the comparison `minimum <= value <= maximum` of the harness on the components (minutes and seconds as instants for datetimes).',
'C04': 'Texts, byte strings and lists of every length within the bound against symbolic limits; the oracle strips and counts by itself.',
'C05': 'The oracles are hand-written recognizers of the documented grammars (character by character, not regular expressions); the patterns of the code run on the engine\'s regular-expression model.',
'C06': 'A table of value kinds per field type, written from the documentation, decides acceptance for native values; for wire texts small parsers (of integers, decimals, floats, dates, times) decide the exact denoted value.',
'C07': 'Every field type with every combination of the declarations, against symbolic values and constants; the oracle is the declaration itself.',
'C08': 'Any subset of supplied keys (declared or not) with any combination of flags, defaults, phase and key order; the oracle computes the expected result and errors from the declaration in the harness. `generated` builds the structure itself from symbolic choices.',
'C09': 'A symbolic discriminator (any short text, number, null, absent, unhashable) and any subset of the keys of all variants; the oracle looks the variant up in the harness\'s own table and applies C08 to it.',
'C10': 'Trees of containers with any subset of invalid elements; the harness knows which paths it spoiled and how, and walks the error, its serialized form, its rendering and its unserialized form against that.',
'C11': 'Any plain value of bounded depth with symbolic leaves, to each field type with and without limits and options, in all four modes; the assertion is that nothing but a structural error escapes.',
'C12': 'Values are snapshotted (deep structural copies made by the harness) before each call and compared after; calls are repeated after other calls and after mutation of earlier results.',
'C13': 'describe, JSON round trip, reconstruct; original and rebuilt field are then run side by side on the same symbolic value and must agree in outcome, token, result and in their descriptions.',
'C14': 'As C13 with clones and deep copies; overridden parameters are applied to a separately built field; then each mutable part of the clone is changed and the original is run against its snapshot.',
'C15': 'The oracle asks each member by itself (a separately built field) and composes the answers by the definition.',
'C16': 'Expected extraction and instantiation are written by the harness alongside the value; instantiators record their calls.',
'C17': 'Reference texts are assembled from symbolic pieces around references; the oracle substitutes by itself. The compiled Jinja templates are instrumented too, so that parameters stay symbolic inside them.',
'C18': 'Round trip through the real writer and reader; the oracle maps every scalar to its text (and back with number parsing).',
'C19': 'Round trip through the csv module\'s logic; headers and column selections are compared with a small quoting writer.',
'C20': 'The document is read back by PyYAML (instrumented from its source, pure Python loader), so that the oracle is a YAML parser, not the code; texts are fully symbolic.',
'C21': 'Round trip through ElementTree\'s serializer (instrumented) and a model of expat.',
'C22': 'Round trip through the json package (instrumented); the document is also parsed independently and compared with the serialized data.',
'C23': 'Criteria and attributes are symbolic; the oracle evaluates the rule on the harness\'s own table of attributes.',
'C24': 'Transformers record the fields they are offered, and their answers are symbolic choices; the expected schema is built by the harness with the same replacements.',
'C25': 'The edit is applied to a mapping of names to fields by the harness; structures are compared member by member by identity and by behaviour.',
'C26': 'Instants are integers (day, minute, second) computed by the harness from symbolic components and offsets. The local zone is another instance of scheme.timezone which finds a stand-in for the time module.',
'C27': 'The same schema is built with the field in place and with a placeholder defined later; both run on the same symbolic value and must agree.',
'C28': 'Keys, items and lengths are symbolic; the oracle checks membership, distinctness and arity pairwise.',
'C29': 'Reference definitions of the helpers, character by character.',
'C30': 'All identifiers of each format against each other and against direct use; files go to a scratch folder (virtual under exploration, real in the replay).',
'C31': 'Preprocessors record their calls and change the value in a known way; messages are compared with the declared texts.',
'C32': 'Implementations with three, one and no versions live in a module the harness registers; data, version, source and place are symbolic, and the expected data and wire form are built alongside. Acceptance of malformed wire forms is decided by a rule over their parts.',
'C33': 'Fields of every type with symbolic parameters are compared with what comes back as in C13; the limits are decided by membership in the list given, and broken descriptions by construction.',
'C34': 'A package of three modules is registered by the harness; the oracle is a table of all paths within it, against fully symbolic paths over the alphabet of its names (a symbolic module name is compared with those of all loaded modules; the alphabet makes no other importable one).',
'C35': 'A table of all ways to fail, one per rule of each field type, written from the documentation: the field, a value that breaks the rule, and the token, title and end of the message due. The path is built by the harness beside the schema. Limits quoted in messages are symbolic (the digits of the text are solver variables).',
'C36': 'Each parameter is given a value of one of fifteen types, symbolic within it; the oracle is the documented type of the parameter (and, for texts, a parser of the two digits which are symbolic, a table of the decimal numerals within the bounds, and a splitter written in the harness).',
'C37': 'The oracle collects the parts to be printed from the field\'s attributes and the values it was declared with, and accepts them in any order; nested fields are printed by their own forms, which are judged likewise.',
}
