from symex.hapi import Case
from harness.lib import *

ASSUMPTIONS = ['the token after the string, where there is one, is the integer 7']


def refstring(s, i):
    """value of the literal string whose first body byte is s[i]; (value, end)
    with end just after the closing parenthesis, or (None, len) if it never closes"""
    out = b''
    depth = 1
    n = len(s)
    while i < n:
        c = s[i]
        if c == 0x5c:
            i += 1
            if i >= n:
                return None, n
            c = s[i]
            if 0x30 <= c <= 0x37:
                v = 0
                k = 0
                while k < 3 and i < n and 0x30 <= s[i] <= 0x37:
                    v = v * 8 + s[i] - 0x30
                    i += 1
                    k += 1
                out += bytes([v & 255])
                continue
            if c == 0x0d:
                i += 1
                if i < n and s[i] == 0x0a:
                    i += 1
                continue
            if c == 0x0a:
                i += 1
                continue
            for k, v in ((0x6e, 10), (0x72, 13), (0x74, 9), (0x62, 8), (0x66, 12)):
                if c == k:
                    c = v
                    break
            out += bytes([c])
            i += 1
            continue
        if c == 0x28:
            depth += 1
        elif c == 0x29:
            depth -= 1
            if depth == 0:
                return out, i + 1
        out += bytes([c])
        i += 1
    return None, n


def literal(h, n, alphabet=None):
    """every body of n bytes, then a closing parenthesis and an integer"""
    body = h.bytes('d', n, alphabet)
    data = b'(' + body + b') 7 '
    got = tokens(data)
    want, end = refstring(data, 1)
    h.observe('tokens', got)
    if want is None:
        h.check(len(got) == 0, 'unterminated string gives no token')
        return
    h.check(len(got) > 0, 'a token')
    h.equal(got[0], (0, ('str', want)), 'string value')
    if end == len(data) - 3:
        h.equal(got[1:], [(end + 1, ('int', 7))], 'token after the string')
        h.reach('closed at the end')


def roundtrip(h, n):
    """every byte string, every byte in every notation that may carry it"""
    v = h.bytes('v', n)
    s = b'('
    for i in range(n):
        c = v[i]
        kind = h.choice('form%d' % i, ('raw', 'backslash', 'oct3', 'contbefore', 'cont-crlf'))
        if kind == 'raw':
            h.assume(h.and_(c != 0x28, c != 0x29, c != 0x5c))
            s += bytes([c])
        elif kind == 'oct3':
            s += b'\\' + bytes([0x30 + (c >> 6), 0x30 + ((c >> 3) & 7), 0x30 + (c & 7)])
        elif kind == 'backslash':
            # named escapes, or the byte itself
            for k, x in ((0x6e, 10), (0x72, 13), (0x74, 9), (0x62, 8), (0x66, 12)):
                if c == x:
                    s += b'\\' + bytes([k])
                    break
            else:
                h.assume(h.not_(h.or_(h.and_(c >= 0x30, c <= 0x37), c == 0x6e, c == 0x72, c == 0x74, c == 0x62, c == 0x66)))
                s += b'\\' + bytes([c])
        else:
            h.assume(h.and_(c != 0x28, c != 0x29, c != 0x5c, c != 10))
            s += (b'\\\r\n' if kind == 'cont-crlf' else h.choice('nl%d' % i, (b'\\\n', b'\\\r'))) + bytes([c])
    s += b')'
    got = tokens(s)
    h.observe('got', got)
    h.equal(got, [(0, ('str', v))], 'value read back')
    h.reach('end')


HEXD = b'0123456789abcdef'
WS = (b'', b' ', b'\n', b'\r\n\t', b'\0')


def hexdigit(h, x, upper):
    if upper:
        return h.ite(x < 10, 0x30 + x, 0x37 + x)
    return h.ite(x < 10, 0x30 + x, 0x57 + x)


def hexround(h, n):
    v = h.bytes('v', n)
    s = b'<'
    for i in range(n):
        up = h.choice('up%d' % i, (False, True))
        s += bytes([hexdigit(h, v[i] >> 4, up)])
        s += h.choice('wsa%d' % i, WS if n < 2 else WS[:3])
        s += bytes([hexdigit(h, v[i] & 15, not up)])
        s += h.choice('wsb%d' % i, WS if n < 2 else WS[:3])
    s += b'>' + h.choice('after', (b'', b' 7 ', b'/N ', b'(x)'))
    got = tokens(s)
    h.observe('got', got)
    h.check(len(got) > 0, 'a token')
    h.equal(got[0], (0, ('str', v)), 'value read back')
    h.check(len(got) == (1 if s[-1] == 0x3e else 2), 'tokens after the string')
    h.reach('end')


def balanced(h, n):
    """parentheses in any arrangement"""
    body = h.bytes('d', n, b'()\\a')
    data = b'(' + body + b'))))))'
    got = tokens(data)
    want, end = refstring(data, 1)
    h.observe('got', got)
    if want is not None:
        h.check(len(got) > 0, 'a token')
        h.equal(got[0], (0, ('str', want)), 'string value')
        h.reach('closed')


def cases(tier):
    q = tier == 'quick'
    out = []
    for n in range(0, 4 if q else 5):
        out.append(Case('literal%d' % n, literal, {'n': n}, 'every literal-string body of %d bytes' % n, ['closed at the end']))
    for n in ([5] if q else [5, 6]):
        out.append(Case('escapes%d' % n, literal, {'n': n, 'alphabet': b'\\0178(\r\nnx'},
                        'every body of %d bytes over backslash, digits, parentheses, CR, LF, n, x' % n, ['closed at the end']))
        out.append(Case('parens%d' % n, balanced, {'n': n}, 'every body of %d bytes over ( ) backslash a' % n, ['closed']))
    for n in range(0, 3 if q else 4):
        out.append(Case('roundtrip%d' % n, roundtrip, {'n': n}, 'every %d-byte string in every mix of notations' % n, ['end']))
    for n in range(0, 3 if q else 4):
        out.append(Case('hex%d' % n, hexround, {'n': n}, 'every %d-byte string in hexadecimal, upper and lower case, white space between digits' % n, ['end']))
    return out
