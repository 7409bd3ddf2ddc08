from symex.hapi import Case
from harness.lib import *
from pdfmajor.parser.PDFContentParser import PDFContentParser

ASSUMPTIONS = ['arbitrary-byte cases leave out ( ) < > % so that the joint is a token boundary; strings, dictionaries and comments are covered by the piece cases']


def stream(d):
    return PDFStream({}, d)


def content(streams, bufsiz=None):
    p = PDFContentParser(streams)
    if bufsiz:
        p.BUFSIZ = bufsiz
    out = []
    for obj in p:
        out.append(plain(obj))
        if len(out) > 200:
            raise AssertionError('too many objects')
    return out


def piece(h, k, i):
    t = '%s%d' % (k, i)
    if k == 'int':
        d = h.int(t, 0, 99)
        return bytes([0x30 + d // 10, 0x30 + d % 10]), ('int', d)
    if k == 'neg':
        d = h.int(t, 1, 9)
        return b'-' + bytes([0x30 + d]), ('int', -d)
    if k == 'name':
        c = h.int(t, 0x61, 0x7a)
        return b'/' + bytes([c]), ('name', bytes([c]))
    if k == 'str':
        c = h.int(t, 0, 255)
        h.assume(h.and_(c != 0x28, c != 0x29, c != 0x5c))
        return b'(' + bytes([c]) + b')', ('str', bytes([c]))
    if k == 'hex':
        c = h.int(t, 0, 9)
        return b'<4' + bytes([0x30 + c]) + b'>', ('str', bytes([0x40 + c]))
    if k == 'op':
        c = h.int(t, 0x41, 0x5a)
        return b'T' + bytes([c]), ('kwd', b'T' + bytes([c]))
    if k == 'comment':
        return b'%' + h.bytes(t, 1, b'a( /') + b'\n', None
    return k, None


TEMPLATES = {
    'text': ('[', 'int', 'str', 'neg', ']', 'op'),
    'names': ('name', 'int', 'op', 'name', 'op'),
    'dict': ('name', '<<', 'name', 'int', '>>', 'op'),
    'hex': ('hex', 'op', 'str', 'op'),
    'nested': ('[', '[', 'int', ']', 'name', ']', 'op'),
    'comment': ('int', 'comment', 'op', 'comment', 'op'),
    'ops': ('op', 'op', 'op'),
    'ints': ('int', 'neg', 'int', 'op'),
}


def build(kinds, vals):
    """expected objects"""
    stack = [[]]
    for k, v in zip(kinds, vals):
        if k in ('[', '<<'):
            stack.append([])
        elif k == ']':
            x = stack.pop()
            stack[-1].append(['list'] + x)
        elif k == '>>':
            x = stack.pop()
            stack[-1].append(['dict', [(x[i][1], x[i + 1]) for i in range(0, len(x), 2)]])
        elif v is not None:
            stack[-1].append(v)
    return stack[0]


def pieces(h, template, tail):
    """every way of spreading the tokens over streams"""
    kinds = TEMPLATES[template]
    streams = []
    cur = b''
    vals = []
    for i, k in enumerate(kinds):
        b, v = piece(h, k, i)
        vals.append(v)
        cur += b if type(b) is not str else b.encode()
        if i + 1 < len(kinds):
            g = h.choice('gap%d' % i, ('space', 'joint') + (('empty', 'blank') if i == 1 else ()))
            if g == 'space':
                cur += b' '
            else:
                streams.append(stream(cur))
                cur = b''
                if g == 'empty':
                    streams += [stream(b''), None, stream(b'')]
                elif g == 'blank':
                    streams.append(stream(b' \n'))
    streams.append(stream(cur))
    if tail == 'empty':
        streams = [stream(b'')] + streams + [stream(b''), stream(b'')]
    got = content(streams, h.choice('bufsiz', (None, 1, 3)))
    h.observe('objects', got)
    h.equal(got, build(kinds, vals), 'operands and operators')
    h.reach('end')


ALPHA = bytes(set(range(256)) - set(b'()<>%{}'))


def joint(h, n1, n2, alphabet):
    """arbitrary bytes on both sides of the joint"""
    a = h.bytes('a', n1, alphabet)
    b = h.bytes('b', n2, alphabet)
    want = content([stream(a + b' ' + b + b'\n')])
    got = content([stream(a), stream(b)])
    h.observe('objects', got)
    h.equal(got, want, 'operands and operators')
    h.reach('end')


def buffers(h, n, alphabet, pre=b'', post=b''):
    """read-buffer cuts inside one stream"""
    a = pre + h.bytes('a', n, alphabet) + post
    want = content([stream(a)])
    k = h.choice('bufsiz', range(1, n + 1))
    got = content([stream(a)], k)
    h.observe('objects', got)
    h.equal(got, want, 'operands and operators')
    h.reach('end')


def cases(tier):
    q = tier == 'quick'
    out = []
    for t in TEMPLATES:
        for tail in ('', 'empty'):
            if q and tail and t not in ('text', 'ops'):
                continue
            out.append(Case('pieces-%s%s' % (t, '-' + tail if tail else ''), pieces, {'template': t, 'tail': tail},
                            'tokens %s, every split over streams (with empty streams in between), read buffers of 1, 3 and 4096 bytes' % ' '.join(TEMPLATES[t]), ['end']))
    for n1, n2 in ((1, 1), (2, 2)) if q else ((1, 1), (2, 2), (3, 2), (2, 3)):
        out.append(Case('joint%d-%d' % (n1, n2), joint, {'n1': n1, 'n2': n2, 'alphabet': ALPHA if n1 + n2 < 4 else b'/1.-aR[]# \n\'"'},
                        '%d and %d bytes on both sides of a joint' % (n1, n2), ['end']))
    n = 3 if q else 4
    out.append(Case('buffers', buffers, {'n': n, 'alphabet': b'/1.-aR[]#() \n\\<>'}, '%d bytes, every buffer size' % n, ['end']))
    return out
