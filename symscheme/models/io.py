"""Model of io: in-memory buffers and the encoding wrapper ElementTree writes through."""
import _real_io

RawIOBase = _real_io.RawIOBase
TextIOBase = _real_io.TextIOBase
IOBase = _real_io.IOBase
open = open


class BufferedIOBase(object):
    pass


class StringIO(object):
    """newline='\\n' semantics: nothing is translated."""

    def __init__(self, initial='', newline='\n'):
        self._text = initial
        self._pos = 0
        self._parts = []

    _empty = ''

    def write(self, s):
        self._parts.append(s)
        return len(s)

    def _flush(self):
        if self._parts:
            self._text = self._text + self._empty.join(self._parts)
            self._parts = []

    def getvalue(self):
        self._flush()
        return self._text

    def read(self, n=-1):
        self._flush()
        if n is None or n < 0:
            r = self._text[self._pos:]
        else:
            r = self._text[self._pos:self._pos + n]
        self._pos += len(r)
        return r

    def readline(self):
        self._flush()
        newline = '\n' if self._empty == '' else b'\n'
        i = self._text.find(newline, self._pos)
        r = self._text[self._pos:] if i < 0 else self._text[self._pos:i + 1]
        self._pos += len(r)
        return r

    def __iter__(self):
        while True:
            line = self.readline()
            if not line:
                return
            yield line

    def close(self):
        pass

    def flush(self):
        pass

    def writable(self):
        return True

    def seekable(self):
        return False


class BytesIO(StringIO, BufferedIOBase):
    _empty = b''

    def __init__(self, initial=b''):
        StringIO.__init__(self, initial)


class TextIOWrapper(object):
    def __init__(self, buffer, encoding=None, errors=None, newline=None, line_buffering=False,
            write_through=False):
        self.buffer = buffer
        self.encoding = encoding
        self.errors = errors

    def write(self, s):
        self.buffer.write(s.encode(self.encoding, self.errors or 'strict'))
        return len(s)

    def flush(self):
        pass

    def detach(self):
        return self.buffer

    def close(self):
        pass
