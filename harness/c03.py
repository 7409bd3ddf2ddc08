from symex.hapi import Case
from harness.lib import *
from pdfmajor.parser.PSStackParser import LIT, KWD

ASSUMPTIONS = ['inputs hold no ( ) < > (string and dictionary delimiters), no vertical tab, # only as a complete #xx escape in a name',
               'a keyword that starts with a character other than a letter is followed by a delimiter, white space or the end']

WS = b'\0\t\n\x0c\r '
DELIM = b'%/[]{}'


def isws(c):
    return c == 32 or 9 <= c <= 10 or 12 <= c <= 13 or c == 0


def isdelim(c):
    return c == 0x25 or c == 0x2f or c == 0x5b or c == 0x5d or c == 0x7b or c == 0x7d


def isdig(c):
    return 0x30 <= c <= 0x39


def ishex(c):
    return isdig(c) or 0x41 <= c <= 0x46 or 0x61 <= c <= 0x66


def hexval(c):
    return c - 0x30 if c <= 0x39 else ((c | 0x20) - 0x57)


def isalpha(c):
    return 0x41 <= c <= 0x5a or 0x61 <= c <= 0x7a


class Skip(Exception):
    pass


def reftokens(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        c = s[i]
        if isws(c):
            i += 1
        elif c == 0x25:
            while i < n and s[i] != 10 and s[i] != 13:
                i += 1
        elif c == 0x2f:
            p = i
            i += 1
            v = b''
            while i < n and not isws(s[i]) and not isdelim(s[i]):
                if s[i] == 0x23:
                    if i + 2 >= n or not ishex(s[i + 1]) or not ishex(s[i + 2]):
                        raise Skip()
                    v += bytes([hexval(s[i + 1]) * 16 + hexval(s[i + 2])])
                    i += 3
                else:
                    v += bytes([s[i]])
                    i += 1
            out.append((p, ('name', v)))
        elif isdig(c) or c == 0x2b or c == 0x2d or c == 0x2e:
            p = i
            neg = False
            if c == 0x2b or c == 0x2d:
                neg = c == 0x2d
                i += 1
            num = 0
            digits = 0
            while i < n and isdig(s[i]):
                num = num * 10 + (s[i] - 0x30)
                digits += 1
                i += 1
            if i < n and s[i] == 0x2e:
                i += 1
                div = 1
                while i < n and isdig(s[i]):
                    num = num * 10 + (s[i] - 0x30)
                    div *= 10
                    digits += 1
                    i += 1
                if digits:
                    v = num / float(div)
                    out.append((p, ('real', -v if neg else v)))
            elif digits:
                out.append((p, ('int', -num if neg else num)))
        elif isalpha(c):
            p = i
            v = b''
            while i < n and not isws(s[i]) and not isdelim(s[i]):
                if s[i] == 0x23:
                    raise Skip()
                v += bytes([s[i]])
                i += 1
            if v == b'true':
                out.append((p, ('bool', True)))
            elif v == b'false':
                out.append((p, ('bool', False)))
            else:
                out.append((p, ('kwd', v)))
        elif isdelim(c):
            out.append((i, ('kwd', bytes([c]))))
            i += 1
        else:
            if c == 0x23 or (i + 1 < n and not isws(s[i + 1]) and not isdelim(s[i + 1])):
                raise Skip()
            out.append((i, ('kwd', bytes([c]))))
            i += 1
    return out


def sametokens(h, got, want):
    h.check(len(got) == len(want), 'number of tokens')
    for (p, t), (q, u) in zip(got, want):
        h.equal(p, q, 'offset')
        h.check(t[0] == u[0], 'kind of token')
        if t[0] == 'real':
            h.close(t[1], u[1], 'real value', 1e-9)
        else:
            h.equal(t[1], u[1], 'value')


def lex(h, n, alphabet=None, pre=b'', post=b''):
    d = h.bytes('d', n, alphabet)
    if alphabet is None:
        for i in range(n):
            h.assume(h.and_(d[i] != 0x28, d[i] != 0x29, d[i] != 0x3c, d[i] != 0x3e, d[i] != 0x0b))
    s = pre + d + post
    try:
        want = reftokens(s)
    except Skip:
        return
    got = tokens(s)
    h.observe('tokens', got)
    sametokens(h, got, want)
    h.reach('end')


def intern(h, n):
    """equal names (keywords) are one object, different ones are not"""
    a = h.bytes('a', n)
    b = h.bytes('b', n)
    kind = h.choice('kind', ('name', 'kwd', 'direct'))
    if kind == 'direct':
        x, y = LIT(a), LIT(b)
        h.check((x is y) == h.realize(a == b), 'identity of literals')
        h.check(KWD(a) is KWD(a), 'identity of keywords')
        h.check(KWD(b'true') is not LIT(b'true'), 'kinds differ')
    else:
        for i in range(n):
            for c in (a[i], b[i]):
                h.assume(h.or_(h.and_(c >= 0x61, c <= 0x7a), h.and_(c >= 0x30, c <= 0x39)))
        if kind == 'kwd':
            h.assume(h.and_(a[0] >= 0x61, b[0] >= 0x61))
            data = a + b' ' + b
        else:
            data = b'/' + a + b'/' + b
        p = PSBaseParser(BytesIO(data))
        x, y = p.nexttoken()[1], p.nexttoken()[1]
        h.check((x is y) == h.realize(a == b), 'identity of tokens')
        if kind == 'kwd':
            h.check(KWD(a) is x, 'constant keyword is the token')
        else:
            h.check(LIT(a.decode('ascii')) is x, 'constant name is the token')
    h.reach('end')


def cases(tier):
    q = tier == 'quick'
    out = []
    for n in range(0, 4 if q else 5):
        out.append(Case('any%d' % n, lex, {'n': n}, 'every %d-byte input' % n, ['end']))
    for k, a, m in (('number', b'+-.0179 e/', 5), ('name', b'/#45aF \xc3\xa9', 5), ('word', b'aT*\'" /[]{}%\n\r', 4),
                    ('comment', b'%\r\n /1a', 5)):
        n = m if q else m + 1
        out.append(Case('%s%d' % (k, n), lex, {'n': n, 'alphabet': a}, 'every %d-byte input over %r' % (n, a), ['end']))
    for k, pre, post in (('true', b'tru', b' '), ('true2', b'', b'true'), ('false', b'fals', b''), ('false2', b'', b'false'),
                         ('ref', b'1 0 R', b''), ('nm', b'/', b'12 '), ('real', b'1', b'.5'), ('cm', b'%', b'x\n1')):
        out.append(Case('ctx-' + k, lex, {'n': 2 if q else 3, 'pre': pre, 'post': post},
                        '%r + every %d bytes + %r' % (pre, 2 if q else 3, post), ['end']))
    for n in (1, 2):
        out.append(Case('intern%d' % n, intern, {'n': n}, 'every pair of %d-byte names or keywords' % n, ['end']))
    return out
