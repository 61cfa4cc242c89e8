"""Summaries of the table lookups of urllib.parse: the same functions, without tables and caches."""

SAFE = frozenset(b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_.-~')


def quote_from_bytes(bs, safe='/'):
    if not isinstance(bs, (bytes, bytearray)):
        raise TypeError("quote_from_bytes() expected bytes")
    if not bs:
        return ''
    if isinstance(safe, str):
        safe = safe.encode('ascii', 'ignore')
    else:
        safe = bytes([c for c in safe if c < 128])
    return __rt__.percent_quote(bs, SAFE | frozenset(safe))


def unquote_to_bytes(string):
    if not string:
        string.split
        return b''
    if isinstance(string, str):
        string = string.encode('utf-8')
    bits = string.split(b'%')
    if len(bits) == 1:
        return string
    res = [bits[0]]
    for item in bits[1:]:
        value = None
        if len(item) > 1:
            digits = __rt__.raw_items(item[:2])
            value = __rt__.percent_value(digits[0], digits[1])
        if value is None:
            res.append(b'%')
            res.append(item)
        else:
            res.append(__rt__.rawbytes([value]))
            res.append(item[2:])
    return b''.join(res)
