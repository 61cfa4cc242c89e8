"""Model of the C module _csv (reader and writer state machines)."""
import _real__csv

Error = _real__csv.Error
__version__ = '1.0'
QUOTE_MINIMAL, QUOTE_ALL, QUOTE_NONNUMERIC, QUOTE_NONE = 0, 1, 2, 3
_dialects = {}


class Dialect(object):
    def __init__(self, dialect=None, **params):
        self.delimiter = ','
        self.doublequote = True
        self.escapechar = None
        self.lineterminator = '\r\n'
        self.quotechar = '"'
        self.quoting = QUOTE_MINIMAL
        self.skipinitialspace = False
        self.strict = False
        for name in ('delimiter', 'doublequote', 'escapechar', 'lineterminator', 'quotechar',
                'quoting', 'skipinitialspace', 'strict'):
            if dialect is not None and hasattr(dialect, name):
                setattr(self, name, getattr(dialect, name))
            if name in params:
                setattr(self, name, params[name])
        if self.quotechar is None and self.quoting != QUOTE_NONE:
            raise TypeError('quotechar must be set if quoting enabled')


def register_dialect(name, dialect=None, **params):
    _dialects[name] = Dialect(dialect, **params)


def unregister_dialect(name):
    del _dialects[name]


def get_dialect(name):
    return _dialects[name]


def list_dialects():
    return list(_dialects)


def field_size_limit(limit=None):
    return 131072


def _dialect(dialect, params):
    if isinstance(dialect, str):
        dialect = _dialects[dialect]
    return Dialect(dialect, **params)


class writer(object):
    def __init__(self, fileobj, dialect=None, **params):
        self.dialect = _dialect(dialect, params)
        self.fileobj = fileobj

    def writerow(self, fields):
        d = self.dialect
        row = []
        fields = list(fields)
        for field in fields:
            special = d.quoting == QUOTE_ALL
            if d.quoting == QUOTE_NONNUMERIC and not isinstance(field, (int, float)):
                special = True
            if field is None:
                field = ''
            elif isinstance(field, float):
                field = repr(field)
            else:
                field = str(field)
            quoted = special
            out = []
            for c in field:
                if c == d.delimiter or c == d.escapechar or c == d.quotechar or \
                        c in d.lineterminator:
                    if d.quoting == QUOTE_NONE:
                        want_escape = True
                    else:
                        want_escape = False
                        if c == d.quotechar:
                            if d.doublequote:
                                out.append(d.quotechar)
                            else:
                                want_escape = True
                        elif c == d.escapechar:
                            want_escape = True
                        if not want_escape:
                            quoted = True
                    if want_escape:
                        if not d.escapechar:
                            raise Error('need to escape, but no escapechar set')
                        out.append(d.escapechar)
                out.append(c)
            if field == '' and len(fields) == 1:
                if d.quoting == QUOTE_NONE:
                    raise Error('single empty field record must be quoted')
                quoted = True
            text = ''.join(out)
            if quoted:
                text = d.quotechar + text + d.quotechar
            row.append(text)
        return self.fileobj.write(d.delimiter.join(row) + d.lineterminator)

    def writerows(self, rows):
        for row in rows:
            self.writerow(row)


class reader(object):
    def __init__(self, iterable, dialect=None, **params):
        self.dialect = _dialect(dialect, params)
        self.input = iter(iterable)
        self.line_num = 0

    def __iter__(self):
        return self

    def _save(self):
        field = ''.join(self.field)
        self.field = []
        if self.numeric:
            self.numeric = False
            field = float(field)
        self.fields.append(field)

    def __next__(self):
        d = self.dialect
        self.fields = []
        self.field = []
        self.numeric = False
        state = 'start-record'
        while True:
            try:
                line = next(self.input)
            except StopIteration:
                if self.field or state == 'in-quoted':
                    if d.strict:
                        raise Error('unexpected end of data')
                    self._save()
                    return self.fields
                raise
            if not isinstance(line, str):
                raise Error('iterator should return strings, not bytes '
                    '(the file should be opened in text mode)')
            self.line_num += 1
            for c in line:
                if c == '\0':
                    raise Error('line contains NUL')
                state = self._char(c, state, d)
            state = self._end(state, d)
            if state == 'start-record':
                return self.fields

    def _char(self, c, state, d):
        newline = c == '\n' or c == '\r'
        if state == 'start-record':
            if newline:
                return 'eat-crnl'
            state = 'start-field'
        if state == 'start-field':
            if newline:
                self._save()
                return 'eat-crnl'
            if c == d.quotechar and d.quoting != QUOTE_NONE:
                return 'in-quoted'
            if c == d.escapechar:
                return 'escaped'
            if c == ' ' and d.skipinitialspace:
                return state
            if c == d.delimiter:
                self._save()
                return state
            if d.quoting == QUOTE_NONNUMERIC:
                self.numeric = True
            self.field.append(c)
            return 'in-field'
        if state == 'escaped':
            self.field.append(c)
            return 'in-field'
        if state == 'in-field':
            if newline:
                self._save()
                return 'eat-crnl'
            if c == d.escapechar:
                return 'escaped'
            if c == d.delimiter:
                self._save()
                return 'start-field'
            self.field.append(c)
            return state
        if state == 'in-quoted':
            if c == d.escapechar:
                return 'escape-in-quoted'
            if c == d.quotechar and d.quoting != QUOTE_NONE:
                if d.doublequote:
                    return 'quote-in-quoted'
                return 'in-field'
            self.field.append(c)
            return state
        if state == 'escape-in-quoted':
            self.field.append(c)
            return 'in-quoted'
        if state == 'quote-in-quoted':
            if d.quoting != QUOTE_NONE and c == d.quotechar:
                self.field.append(c)
                return 'in-quoted'
            if c == d.delimiter:
                self._save()
                return 'start-field'
            if newline:
                self._save()
                return 'eat-crnl'
            if not d.strict:
                self.field.append(c)
                return 'in-field'
            raise Error("'%s' expected after '%s'" % (d.delimiter, d.quotechar))
        if state == 'eat-crnl':
            if newline:
                return state
            raise Error('new-line character seen in unquoted field - do you need to open the '
                'file in universal-newline mode?')
        raise Error(state)

    def _end(self, state, d):
        if state == 'in-field' or state == 'quote-in-quoted':
            self._save()
            return 'start-record'
        if state == 'start-field':
            self._save()
            return 'start-record'
        if state == 'escaped':
            self.field.append('\n')
            return 'in-field'
        if state == 'in-quoted':
            return state
        if state == 'escape-in-quoted':
            self.field.append('\n')
            return 'in-quoted'
        return 'start-record'
