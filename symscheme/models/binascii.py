"""Model of binascii's base64 functions (PyPy's lenient decoder)."""
import _real_binascii

Error = _real_binascii.Error
Incomplete = _real_binascii.Incomplete
hexlify = _real_binascii.hexlify
unhexlify = _real_binascii.unhexlify
b2a_hex = _real_binascii.b2a_hex
a2b_hex = _real_binascii.a2b_hex
crc32 = _real_binascii.crc32

_ALPHABET = b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'


def b2a_base64(data, newline=True):
    out = []
    data = __rt__.int_items(data)
    n = len(data)
    i = 0
    while i + 2 < n:
        a, b, c = data[i], data[i + 1], data[i + 2]
        out.append(__rt__.table(_ALPHABET, a // 4))
        out.append(__rt__.table(_ALPHABET, (a % 4) * 16 + b // 16))
        out.append(__rt__.table(_ALPHABET, (b % 16) * 4 + c // 64))
        out.append(__rt__.table(_ALPHABET, c % 64))
        i += 3
    if i + 1 == n:
        a = data[i]
        out.append(__rt__.table(_ALPHABET, a // 4))
        out.append(__rt__.table(_ALPHABET, (a % 4) * 16))
        out.extend((61, 61))
    elif i + 2 == n:
        a, b = data[i], data[i + 1]
        out.append(__rt__.table(_ALPHABET, a // 4))
        out.append(__rt__.table(_ALPHABET, (a % 4) * 16 + b // 16))
        out.append(__rt__.table(_ALPHABET, (b % 16) * 4))
        out.append(61)
    if newline:
        out.append(10)
    return __rt__.rawbytes(out)


def a2b_base64(data):
    if isinstance(data, str):
        try:
            data = data.encode('ascii')
        except UnicodeEncodeError:
            raise ValueError('string argument should contain only ASCII characters')
    leftbits = 0
    leftchar = 0
    quad = 0
    was_pad = False
    out = []
    for ch in __rt__.raw_items(data):
        if __rt__.char_is(ch, 61):
            if quad > 2 or (quad == 2 and was_pad):
                return __rt__.rawbytes(out)
            was_pad = True
            continue
        v = __rt__.b64value(ch)
        if v is None:
            continue
        quad = (quad + 1) % 4
        if leftbits == 0:
            leftchar = v
            leftbits = 6
        elif leftbits == 6:
            out.append(leftchar * 4 + v // 16)
            leftchar = v % 16
            leftbits = 4
        elif leftbits == 4:
            out.append(leftchar * 16 + v // 4)
            leftchar = v % 4
            leftbits = 2
        else:
            out.append(leftchar * 64 + v)
            leftchar = 0
            leftbits = 0
        was_pad = False
    if leftbits:
        raise Error('Incorrect padding')
    return __rt__.rawbytes(out)
