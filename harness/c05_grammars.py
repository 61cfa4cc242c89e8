from hlib import *

UUIDCHARS = WIDE


def is_uuid(v):
    if len(v) != 36:
        return False
    for i in range(36):
        if i in (8, 13, 18, 23):
            if v[i] != '-':
                return False
        elif v[i] not in '0123456789abcdef':
            return False
    return True


def decide(S, field, v, good, kept, label, phase=None):
    out = attempt(field.process, v, phase or S.choice('phase', [INBOUND, OUTBOUND]),
        S.bool('serialized'))
    if good:
        S.cover('accepted')
        S.check(out.ok, label + ': a text of the grammar is accepted')
        S.same(out.value, kept, label + ': it is kept in its normal form')
    else:
        S.cover('rejected')
        S.check(out.error, label + ': a text outside the grammar is a structural error')
    return out


@harness('C05', variants=[0, 1, 35, 36, 37], covers=['rejected'])
def uuid(S, n):
    """any text of length 0, 1, 35, 36 or 37 over all ASCII and 9 other characters"""
    v = S.text('v', n, n, WIDE)
    decide(S, UUID(), v, is_uuid(v), v, 'uuid')


@harness('C05', variants=[False, True], covers=['accepted', 'rejected'])
def token(S, segmented):
    """any text <= 4 (5 thorough) over all ASCII and 9 other characters; any segment count 0-4"""
    v = S.text('v', S.b(3, 4) if segmented else S.b(4, 5), 0, WIDE)
    segments = S.int('segments', 0, 4) if segmented else None
    decide(S, Token(segments=segments), v, is_token(v, segments), v, 'token')


@harness('C05', covers=['accepted', 'rejected'])
def token_long(S):
    """tokens of up to 4 segments: letters, separators and signs only, <= 7 (8 thorough) characters"""
    v = S.text('v', S.b(6, 7), 4, 'a-:')
    segments = S.choice('segments', [None, 1, 2, 3, 4])
    decide(S, Token(segments=segments), v, is_token(v, segments), v, 'token', INBOUND)


PATTERNS = {
    'class': (r'^[a-c]+\Z', lambda v: len(v) > 0 and all(c in 'abc' for c in v)),
    'prefix': (r'ab', lambda v: v.startswith('ab')),
    'optional': (r'(a|b)?c{2}', lambda v: v.startswith('cc') or v.startswith('acc') or
        v.startswith('bcc')),
    'digits': (r'^\d{2}-\d\Z', lambda v: len(v) == 4 and v[0].isdigit() and v[1].isdigit() and
        v[2] == '-' and v[3].isdigit()),
}


@harness('C05', variants=[(p, c) for p in sorted(PATTERNS) for c in (False, True)],
    covers=['accepted', 'rejected'])
def pattern(S, variant):
    """four patterns, given as text or compiled, against any text <= 4, stripped or not"""
    name, compiled = variant
    expr, oracle = PATTERNS[name]
    strip = S.bool('strip')
    v = S.text('v', 4, 0, 'abc1- \nd')
    field = Text(pattern=re_module.compile(expr) if compiled else expr, strip=strip)
    kept = v.strip() if strip else v
    out = decide(S, field, v, oracle(kept), kept, 'pattern')
    if out.error:
        S.check(out.token == 'pattern', 'the error names the pattern')


# -- e-mail ------------------------------------------------------------------------------------------

ATOM = frozenset("-!#$%&'*+/=?^_`{}|~0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ")
LETTERS = frozenset('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ')
LABEL = frozenset('-0123456789') | LETTERS
QUOTED = frozenset([chr(i) for i in range(1, 128) if i not in (9, 10, 13, 32, 34, 92)])
ESCAPED = frozenset([chr(i) for i in range(1, 128) if i not in (10, 13)])


def is_address(v):
    if len(v) == 0:
        return False
    i = 0
    if v[0] == '"':
        i = 1
        while True:
            if i >= len(v):
                return False
            if v[i] == '"':
                i += 1
                break
            if v[i] == '\\':
                if i + 1 >= len(v) or v[i + 1] not in ESCAPED:
                    return False
                i += 2
            elif v[i] in QUOTED:
                i += 1
            else:
                return False
    else:
        start = i
        while True:
            if i >= len(v):
                return False
            if v[i] == '@':
                if i == start:
                    return False
                break
            if v[i] == '.':
                if i == start:
                    return False
                start = i + 1
            elif v[i] not in ATOM:
                return False
            i += 1
    if i >= len(v) or v[i] != '@':
        return False
    labels = v[i + 1:].split('.')
    if len(labels) < 2:
        return False
    for label in labels[:-1]:
        if len(label) == 0:
            return False
        for c in label:
            if c not in LABEL:
                return False
    tld = labels[-1]
    if not (2 <= len(tld) and len(tld) <= 6):
        return False
    for c in tld:
        if c not in LETTERS:
            return False
    return True


@harness('C05', variants=['short', 'quoted', 'tld'] + ['template%d' % i for i in range(7)],
    covers=['rejected'], quick=20000)
def email(S, shape):
    """any text of 5 or 6 characters over 6 significant ones; texts built from an address with any (of
    137) character in each place; quoted local parts <= 2; top-level parts of 1-8 letters"""
    if shape == 'short':
        v = S.text('v', S.b(6, 7), S.b(6, 5), 'aB.@"')
    elif shape.startswith('template'):
        at = int(shape[-1])
        parts = ['', 'ab', '@', 'c', '.', 'de', '']
        x = S.text('x', 1, 0, WIDE) + S.text('y', S.b(1, 1), 0, '. @\nA')
        parts[at] = parts[at][:1] + x
        v = ''.join(parts)
    elif shape == 'quoted':
        v = '"' + S.text('q', S.b(2, 3), 0, frozenset(ASCII) - LETTERCODES) + '"@a.bc'
    else:
        v = 'a@b.' + S.text('tld', 8, 1, 'a1.')
    kept = v.strip(' \t\n\r\x0b\x0c,;:').lower()
    decide(S, Email(), v, kept == '' or is_address(kept), kept, 'email', INBOUND)


def is_list(v):
    """Addresses joined by commas; a comma inside quotes belongs to the address."""
    parts = []
    i = start = 0
    quoted = False
    while i < len(v):
        if quoted and v[i] == '\\':
            i += 1
        elif v[i] == '"':
            quoted = not quoted and i == start
        elif v[i] == ',' and not quoted:
            parts.append(v[start:i])
            start = i + 1
        i += 1
    parts.append(v[start:])
    for part in parts:
        if not is_address(part):
            return False
    return True


@harness('C05', variants=['separators', 'between', 'before', 'after', 'second'],
    covers=['accepted', 'rejected'])
def email_list(S, shape):
    """lists of up to three addresses with any (of 137) <= 3 characters between, before and after
    them"""
    if shape == 'separators':
        v = 'a@b.cd' + S.text('x', 3, 0, ' ,;:\n\ta.@')+ 'E@f.gh'
    elif shape == 'between':
        v = 'a@b.cd' + S.text('x', 1, 0, WIDE) + S.text('y', 1, 0, ' ,;a') + 'i@j.kl'
    elif shape == 'before':
        v = S.text('y', 1, 0, ' ,a') + S.text('x', 1, 0, WIDE) + 'a@b.cd,e@f.gh'
    elif shape == 'after':
        v = 'a@b.cd,e@f.gh' + S.text('x', 1, 0, WIDE) + S.text('y', 1, 0, ' ,a')
    else:
        v = 'a@b.cd,' + S.text('x', 3, 0, 'e@.') + 'f@g' + S.text('y', 3, 0, 'a.,')
    normal = v.strip(' \t\n\r\x0b\x0c,;:').lower()
    kept = re_module.sub(r'[\s,;:]+', ',', normal)
    decide(S, Email(multiple=True), v, kept == '' or is_list(kept), kept, 'email list', INBOUND)


def is_extended(v):
    if v == '' or is_address(v):
        return True
    if len(v) == 0 or v[-1] != '>':
        return False
    i = v.rfind('<')
    if i < 0 or not is_address(v[i + 1:-1]):
        j = v.find('<')
        if j < 0:
            return False
        # '<' inside a quoted display name or a quoted local part
        while j >= 0:
            if is_address(v[j + 1:-1]) and is_display(v[:j]):
                return True
            j = v.find('<', j + 1)
        return False
    return is_display(v[:i])


def is_display(name):
    if len(name) < 2 or name[-1] != ' ':
        return False
    if '<' not in name:
        return True
    bare = name.rstrip(' ')
    return len(bare) > 2 and bare[0] == '"' and bare[-1] == '"' and '"' not in bare[1:-1]


@harness('C05', variants=['name', 'bare', 'quotedname', 'after'], covers=['accepted', 'rejected'])
def email_extended(S, shape):
    """display names of <= 3 (the first any of 137 characters), <= 2 characters around the address"""
    if shape == 'name':
        v = S.text('x', 1, 0, WIDE) + S.text('y', 2, 0, ' <"a\n') + '<a@b.cd>'
    elif shape == 'bare':
        v = S.text('x', 1, 0, WIDE) + S.text('z', 1, 0, ' <') + 'a@b.cd' + S.text('y', 1, 0, ' >\na')
    elif shape == 'quotedname':
        v = '"' + S.text('x', 2, 0, ' <"a') + '"' + S.text('y', 2, 0, ' a<"') + '<a@b.cd>'
    else:
        v = 'Ab <a' + S.text('x', 1, 0, ' ".>') + '@b.cd' + S.text('z', 1, 0, '>a') + S.text('y', 1, 0, WIDE)
    decide(S, Email(extended=True), v, is_extended(v), v, 'extended email', INBOUND)


import re as re_module
LETTERCODES = frozenset([i for i in range(128) if chr(i).isalpha() and i not in (97, 65)])


@harness('C05', covers=['accepted', 'rejected'], quick=12000)
def token_counts(S):
    """tokens of 1-7 segments of 1-3 characters, one of them any (of 137) character, a segment count of
    none or 1-7, in every container and phase"""
    n = S.pick('n', 7) + 1
    at = S.pick('at', n)
    parts = [S.choice('part%d' % i, ['ab', 'c']) if i < 2 else 'x1-y' for i in range(n)]
    parts[at] = parts[at][:1] + S.text('x', 1, 0, WIDE)
    v = ':'.join(parts)
    segments = S.choice('segments', [None, 1, 2, 3, 4, 5, 6, 7])
    decide(S, Token(segments=segments), v, is_token(v, segments), v, 'token', INBOUND)


@harness('C05', variants=[2, 3, 4, 5, 6], covers=['accepted', 'rejected'])
def email_lists(S, n):
    """lists of 2-6 addresses with one of four separators between each two, and one (of 137, or of 5 beyond 3
    addresses) character in one gap"""
    v = 'A@b.cd'
    gap = S.pick('gap', n - 1)
    for i in range(n - 1):
        v = v + (S.text('x', 1, 0, WIDE if n < 4 else ' ,;a@') + ';' if i == gap else
            S.choice('separator%d' % i, [',', ' ', '; '] if i < 4 else [',', ' '])) + 'e%d@f.gh' % i
    normal = v.strip(' \t\n\r\x0b\x0c,;:').lower()
    kept = re_module.sub(r'[\s,;:]+', ',', normal)
    decide(S, Email(multiple=True), v, kept == '' or is_list(kept), kept, 'email list', INBOUND)


@harness('C05', variants=['uuid', 'token', 'email', 'emails', 'extended', 'pattern'],
    covers=['accepted', 'rejected'])
def nested(S, kind):
    """the grammars inside every container, in every phase, for a good text with any (of 137) character
    inserted at any place or none"""
    good = {'uuid': '01234567-89ab-cdef-0123-456789abcdef', 'token': 'ab:c-d', 'email': 'ab@cd.ef',
        'emails': 'a@b.cd,e@f.gh', 'extended': 'A <b@c.de>', 'pattern': 'ab-cd'}[kind]
    if kind in ('token', 'email', 'pattern'):
        at = S.pick('at', len(good) + 1)
    else:
        at = S.choice('at', [0, 1, 8, 9, 35, 36] if kind == 'uuid' else [0, 1, 3, 6, len(good)])
    v = good[:at] + S.text('x', 1, 0, WIDE) + good[at:]
    if kind == 'pattern':
        field = Text(pattern=r'^[a-z]+-[a-z]+\Z', strip=False)
        kept = v
        parts = v.split('-')
        ok = len(parts) == 2 and len(parts[0]) > 0 and len(parts[1]) > 0
        for c in v:
            ok = ok and (c == '-' or 'a' <= c <= 'z')
    else:
        field = field_of(kind)
        kept = v
        if kind in ('email', 'emails'):
            kept = v.strip(' \t\n\r\x0b\x0c,;:').lower()
        if kind == 'emails':
            kept = re_module.sub(r'[\s,;:]+', ',', kept)
        ok = {'uuid': is_uuid, 'token': is_token, 'extended': is_extended,
            'email': lambda k: k == '' or is_address(k),
            'emails': lambda k: k == '' or is_list(k)}[kind](kept)
    place = S.choice('place', ['sequence', 'deep'])
    outer, wrap, unwrap = placed(S, field, place)
    out = attempt(outer.process, wrap(v), *S.choice('call', CALLS))
    if ok:
        S.cover('accepted')
        S.check(out.ok, 'a text of the grammar is accepted')
        S.same(unwrap(out.value), kept, 'it is kept in its normal form')
    else:
        S.cover('rejected')
        S.check(out.error, 'a text outside the grammar is refused')
