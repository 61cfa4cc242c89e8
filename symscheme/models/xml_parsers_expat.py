"""Model of expat: a non-validating XML parser over str input (one feed, one document)."""
import _real_time as _t
import re

version_info = (2, 6, 1)


class ExpatError(Exception):
    pass

error = ExpatError

_NAME = re.compile(r'[A-Za-z_:\u00c0-\u00d6\u00d8-\u00f6\u00f8-\u02ff\u0370-\u037d\u037f-\u1fff'
    r'\u200c-\u200d\u2070-\u218f\u2c00-\u2fef\u3001-\ud7ff\uf900-\ufdcf\ufdf0-\ufffd]'
    r'[-.0-9A-Za-z_:\u00b7\u0300-\u036f\u203f\u2040\u00c0-\u00d6\u00d8-\u00f6\u00f8-\u02ff'
    r'\u0370-\u037d\u037f-\u1fff\u200c-\u200d\u2070-\u218f\u2c00-\u2fef\u3001-\ud7ff'
    r'\uf900-\ufdcf\ufdf0-\ufffd]*')
_BAD = re.compile('[\x00-\x08\x0b\x0c\x0e-\x1f\ud800-\udfff\ufffe\uffff]')
_SPACE = ' \t\r\n'
_ENTITIES = {'lt': '<', 'gt': '>', 'amp': '&', 'quot': '"', 'apos': "'"}


class Parser(object):
    def __init__(self):
        self.StartElementHandler = None
        self.EndElementHandler = None
        self.CharacterDataHandler = None
        self.DefaultHandlerExpand = None
        self.CommentHandler = None
        self.ProcessingInstructionHandler = None
        self.ErrorLineNumber = 1
        self.ErrorColumnNumber = 0
        self._data = ''

    def fail(self, message):
        e = ExpatError('%s: line 1, column 0' % message)
        e.code = 4
        e.lineno = 1
        e.offset = 0
        raise e

    def Parse(self, data, final=False):
        if isinstance(data, bytes):
            data = data.decode('utf-8')
        self._data = self._data + data
        if final:
            self._run(self._data)

    def _space(self, text, i):
        while i < len(text) and text[i] in _SPACE:
            i += 1
        return i

    def _name(self, text, i):
        m = _NAME.match(text, i)
        if m is None:
            self.fail('not well-formed (invalid token)')
        return m.group(0), m.end()

    def _reference(self, text, i):
        # text[i] == '&'
        j = i + 1
        if j < len(text) and text[j] == '#':
            j += 1
            base = 10
            if j < len(text) and text[j] == 'x':
                base = 16
                j += 1
            start = j
            while j < len(text) and text[j] != ';':
                if text[j] not in ('0123456789' if base == 10 else '0123456789abcdefABCDEF'):
                    self.fail('not well-formed (invalid token)')
                j += 1
            if j >= len(text) or j == start:
                self.fail('not well-formed (invalid token)')
            c = chr(int(text[start:j], base))
            if _BAD.match(c):
                self.fail('reference to invalid character number')
            return c, j + 1
        name, j = self._name(text, j)
        if j >= len(text) or text[j] != ';':
            self.fail('not well-formed (invalid token)')
        if name in _ENTITIES:
            return _ENTITIES[name], j + 1
        self.fail('undefined entity')

    def _run(self, text):
        if not isinstance(text, str):
            raise TypeError('expected a string')
        if _BAD.search(text) is not None:
            self.fail('not well-formed (invalid token)')
        text = text.replace('\r\n', '\n').replace('\r', '\n')
        n = len(text)
        i = 0
        stack = []
        data = []
        seen_root = False

        def flush():
            if data:
                if self.CharacterDataHandler is not None:
                    self.CharacterDataHandler(''.join(data))
                del data[:]

        while i < n:
            c = text[i]
            if c == '<':
                if text.startswith('<?', i):
                    flush()
                    j = text.find('?>', i)
                    if j < 0:
                        self.fail('unclosed token')
                    if text.startswith('<?xml', i) and i != 0:
                        self.fail('XML or text declaration not at start of entity')
                    i = j + 2
                elif text.startswith('<!--', i):
                    flush()
                    j = text.find('--', i + 4)
                    if j < 0 or not text.startswith('-->', j):
                        self.fail('not well-formed (invalid token)')
                    if self.CommentHandler is not None:
                        self.CommentHandler(text[i + 4:j])
                    i = j + 3
                elif text.startswith('<![CDATA[', i):
                    if not stack:
                        self.fail('not well-formed (invalid token)')
                    j = text.find(']]>', i)
                    if j < 0:
                        self.fail('unclosed CDATA section')
                    data.append(text[i + 9:j])
                    i = j + 3
                elif text.startswith('</', i):
                    flush()
                    name, i = self._name(text, i + 2)
                    i = self._space(text, i)
                    if i >= n or text[i] != '>':
                        self.fail('not well-formed (invalid token)')
                    i += 1
                    if not stack or stack[-1] != name:
                        self.fail('mismatched tag')
                    stack.pop()
                    self.EndElementHandler(name)
                else:
                    flush()
                    if seen_root and not stack:
                        self.fail('junk after document element')
                    name, i = self._name(text, i + 1)
                    attrs = []
                    while True:
                        j = self._space(text, i)
                        if j >= n:
                            self.fail('unclosed token')
                        if text[j] == '>' or text[j] == '/':
                            i = j
                            break
                        if j == i:
                            self.fail('not well-formed (invalid token)')
                        attr, j = self._name(text, j)
                        if attr in attrs[::2]:
                            self.fail('duplicate attribute')
                        j = self._space(text, j)
                        if j >= n or text[j] != '=':
                            self.fail('not well-formed (invalid token)')
                        j = self._space(text, j + 1)
                        if j >= n or not (text[j] == '"' or text[j] == "'"):
                            self.fail('not well-formed (invalid token)')
                        quote = text[j]
                        j += 1
                        value = []
                        while True:
                            if j >= n:
                                self.fail('unclosed token')
                            c = text[j]
                            if c == quote:
                                j += 1
                                break
                            if c == '<':
                                self.fail('not well-formed (invalid token)')
                            if c == '&':
                                c, j = self._reference(text, j)
                                value.append(c)
                                continue
                            if c in '\t\n':
                                c = ' '
                            value.append(c)
                            j += 1
                        attrs.extend((attr, ''.join(value)))
                        i = j
                    closed = False
                    if text[i] == '/':
                        closed = True
                        i += 1
                        if i >= n or text[i] != '>':
                            self.fail('not well-formed (invalid token)')
                    i += 1
                    seen_root = True
                    self.StartElementHandler(name, attrs)
                    if closed:
                        self.EndElementHandler(name)
                    else:
                        stack.append(name)
            elif not stack:
                if c not in _SPACE:
                    if seen_root:
                        self.fail('junk after document element')
                    self.fail('syntax error')
                i += 1
            elif c == '&':
                c, i = self._reference(text, i)
                data.append(c)
            else:
                if c == ']' and text.startswith(']]>', i):
                    self.fail('not well-formed (invalid token)')
                data.append(c)
                i += 1
        if stack or not seen_root:
            self.fail('no element found')


def ParserCreate(encoding=None, namespace_separator=None):
    return Parser()
