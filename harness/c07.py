from symex.hapi import Case
from harness.lib import *
from harness.c06 import content, stream

WS = b' \t\n\x0c\r'
ASSUMPTIONS = ['the byte after an end marker that delimits is one of space, tab, LF, FF, CR; NUL and VT after EI inside the data are left open']


def strip_eol(h, d):
    if d[-2:] == b'\r\n':
        return d[:-2]
    if d[-1:] == b'\r' or d[-1:] == b'\n':
        return d[:-1]
    return d


def nomark(h, full, end):
    """no end marker followed by white space before the real one"""
    whole = full + b'EI' + end
    for i in range(len(full)):
        if i + 2 < len(whole):
            h.assume(h.not_(h.and_(whole[i] == 0x45, whole[i + 1] == 0x49,
                                   h.or_(*[whole[i + 2] == w for w in WS + b'\0\x0b']))))


def inline(h, n, alphabet=None, where=0, bufs=(None,), pre=b'', post=b''):
    """one image, the data arbitrary"""
    data = pre + h.bytes('data', n, alphabet) + post
    eol = h.choice('eol', (b'\n', b'\r\n', b'\r', b''))
    after = h.choice('after', (b' ', b'\n', b'\r', b'\t', b''))
    full = data + eol
    nomark(h, full, after or b'\n')
    c = b'q BI /W 1 /F [/x] ID' + h.choice('sep', (b' ', b'\n')) + full + b'EI' + after
    tail = b'' if not after else h.choice('tail', (b'Q', b'(a)Tj'))
    streams = [stream(b'7 w\n')] * where + [stream(c + tail)]
    if not tail:
        streams.append(stream(b'Q'))
        tail = b'Q'
    got = content(streams, h.choice('bufsiz', bufs))
    h.observe('objects', got)
    want = [('int', 7), ('kwd', b'w')] * where + [
        ('kwd', b'q'),
        ['stream', ['dict', [(b'W', ('int', 1)), (b'F', ['list', ('name', b'x')])]], strip_eol(h, full)],
        ('kwd', b'EI')] + ([('kwd', b'Q')] if tail == b'Q' else [('str', b'a'), ('kwd', b'Tj')])
    h.equal(got, want, 'image and following content')
    h.reach('end')


def two(h, n, joint):
    """two images in a row"""
    c = b''
    want = []
    streams = []
    for i in range(2):
        data = h.bytes('data%d' % i, n)
        v = h.int('w%d' % i, 0, 9)
        full = data + b'\n'
        nomark(h, full, b'\n')
        c += b'BI/W ' + bytes([0x30 + v]) + b' ID ' + full + b'EI\n'
        want += [['stream', ['dict', [(b'W', ('int', v))]], strip_eol(h, full)], ('kwd', b'EI')]
        if joint:
            streams.append(stream(c))
            c = b''
    streams.append(stream(c + b'Q'))
    got = content(streams)
    h.equal(got, want + [('kwd', b'Q')], 'images and following content')
    h.reach('end')


def cases(tier):
    q = tier == 'quick'
    out = []
    for n in (0, 1, 2, 3) if q else (0, 1, 2, 3, 4):
        out.append(Case('data%d' % n, inline, {'n': n}, 'every %d-byte data' % n, ['end']))
    n = 4 if q else 6
    out.append(Case('marker%d' % n, inline, {'n': n, 'alphabet': b'EI\n x'}, 'every %d-byte data over E, I, LF, space, x' % n, ['end']))
    out.append(Case('buf', inline, {'n': 3 if q else 4, 'alphabet': b'EI\n\rx', 'bufs': (1, 2, 3, 5, 7) if q else range(1, 12)}, 'read buffers of every small size', ['end']))
    out.append(Case('second', inline, {'n': 2, 'where': 2}, 'image in the third stream', ['end']))
    out.append(Case('tokens', inline, {'n': 2, 'pre': b'(', 'post': b'<<['}, 'data that looks like content', ['end']))
    for j in (False, True):
        out.append(Case('two%s' % ('-joint' if j else ''), two, {'n': 2, 'joint': j}, 'two images%s' % (' in different streams' if j else ''), ['end']))
    return out
