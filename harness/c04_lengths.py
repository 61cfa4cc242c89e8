from hlib import *


def judge(S, out, n, lo, hi, what):
    """The verdict on a value whose kept form has length n."""
    if lo is not None and n < lo:
        expected = 'min_length'
    elif hi is not None and n > hi:
        expected = 'max_length'
    else:
        S.cover('accepted')
        S.check(out.ok, what + ': a length within the limits is accepted')
        return True
    S.cover('rejected')
    S.check(out.error, what + ': a length outside the limits is a structural error')
    S.check(isinstance(out.value, ValidationError) and len(out.value.errors) == 1,
        what + ': it is one validation error')
    S.check(out.token == expected, what + ': the error names the violated limit')
    return False


def limits(S, which, top):
    lo = S.int('lo', 0, top) if which in ('min', 'both') else None
    hi = S.int('hi', 0, top) if which in ('max', 'both') else None
    return lo, hi


@harness('C04', variants=[(w, s) for w in ('min', 'max', 'both', 'none') for s in (True, False)],
    covers=['accepted'])
def text(S, variant):
    """texts <= 4 (6 thorough) characters (128 ASCII and 9 others, all kinds of whitespace among
    them), limits 0-6, with and without stripping"""
    which, strip = variant
    lo, hi = limits(S, which, 6)
    v = S.text('v', S.b(4, 6))
    field = Text(min_length=lo, max_length=hi, strip=strip)
    phase = S.choice('phase', [INBOUND, OUTBOUND])
    out = attempt(field.process, v, phase, S.bool('serialized'))
    kept = v.strip() if strip else v
    if judge(S, out, len(kept), lo, hi, 'text'):
        S.same(out.value, kept, 'the text kept is the stripped text and nothing else')


@harness('C04', variants=['min', 'max', 'both', 'none'], covers=['accepted'])
def binary(S, which):
    """byte strings <= 4 (8 thorough) bytes, limits 0-6, all directions"""
    lo, hi = limits(S, which, 6)
    v = S.bytes('v', S.b(4, 8))
    field = Binary(min_length=lo, max_length=hi)
    form = S.choice('form', ['inbound', 'outbound', 'unserialize', 'serialize'])
    encoded = wire('binary', v)
    expected = v
    if form == 'inbound':
        out = attempt(field.process, v, INBOUND)
    elif form == 'outbound':
        out = attempt(field.process, v, OUTBOUND)
    elif form == 'unserialize':
        out = attempt(field.unserialize, encoded)
    else:
        out = attempt(field.serialize, v)
        expected = encoded
    if judge(S, out, len(v), lo, hi, 'binary'):
        S.same(out.value, expected, 'the bytes are kept')


@harness('C04', variants=['min', 'max', 'both', 'none'], covers=['accepted'])
def sequence(S, which):
    """sequences of <= 4 (6 thorough) items, limits 0-6, all directions, valid or invalid items: a
    length outside the limits is reported whatever the items are"""
    lo, hi = limits(S, which, 6)
    n = S.pick('n', S.b(5, 7))
    v = [S.int('v%d' % i, 0, 20) for i in range(n)]
    bad = n > 0 and S.bool('bad')
    if bad:
        v[S.pick('at', n)] = 'x'
    field = Sequence(Integer(), min_length=lo, max_length=hi)
    phase = S.choice('phase', [INBOUND, OUTBOUND])
    out = attempt(field.process, v, phase, S.bool('serialized'))
    if bad and (lo is None or n >= lo) and (hi is None or n <= hi):
        S.check(out.error and not out.value.errors, 'an invalid item is not a length error')
    elif judge(S, out, n, lo, hi, 'sequence'):
        S.same(out.value, v, 'the items are kept')


@harness('C04', variants=['text', 'binary'], covers=['accepted', 'rejected'])
def nonempty(S, kind):
    """nonempty texts and byte strings of <= 3, with and without limits of their own"""
    lo = S.int('lo', 0, 4) if S.bool('has lo') else None
    hi = S.int('hi', 0, 4) if S.bool('has hi') else None
    field = (Text if kind == 'text' else Binary)(min_length=lo, max_length=hi, nonempty=True)
    S.check(field.required and field.nonnull, 'a nonempty field is required and non-null')
    v = S.text('v', 3) if kind == 'text' else S.bytes('v', 3)
    kept = v.strip() if kind == 'text' else v
    out = attempt(field.process, v, S.choice('phase', [INBOUND, OUTBOUND]))
    judge(S, out, len(kept), 1 if lo is None else lo, hi, kind)
    out = attempt(field.process, None)
    S.check(out.error and out.token == 'nonnull', 'null is refused')


@harness('C04', variants=['structure', 'map', 'mapkey', 'sequence', 'tuple'],
    covers=['accepted', 'rejected'])
def nested(S, place):
    """limits hold for members of structures, maps (keys too), sequences and tuples alike, and
    stripping reaches them; texts <= 3 characters"""
    lo, hi = S.int('lo', 0, 3), S.int('hi', 0, 3)
    v = S.text('v', 3, 0, ' a\tb')
    member = Text(min_length=lo, max_length=hi)
    kept = v.strip()
    if place == 'structure':
        field, value, expected = Structure({'a': member, 'b': Text()}), {'a': v}, {'a': kept}
    elif place == 'map':
        field, value, expected = Map(member), {'a': v}, {'a': kept}
    elif place == 'mapkey':
        field, value, expected = Map(Integer(), key=member), {v: 1}, {kept: 1}
    elif place == 'sequence':
        field, value, expected = Sequence(member), ['abc'[:1], v], ['a', kept]
        S.assume(lo <= 1 and hi >= 1)
    else:
        field, value, expected = Tuple([Integer(), member]), (1, v), (1, kept)
    out = attempt(field.process, value, S.choice('phase', [INBOUND, OUTBOUND]),
        S.bool('serialized'))
    if lo <= len(kept) and len(kept) <= hi:
        S.cover('accepted')
        S.check(out.ok, 'a member within the limits is accepted')
        S.same(out.value, expected, 'the member is kept, stripped')
    else:
        S.cover('rejected')
        S.check(out.error, 'a member outside the limits is a structural error')
