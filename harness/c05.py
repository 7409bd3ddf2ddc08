from symex.hapi import Case
from harness.lib import *


def refs(d, p):
    """(offset, line) pairs from p on"""
    out = []
    n = len(d)
    s = p
    i = p
    while i < n:
        if d[i] == 10:
            i += 1
        elif d[i] == 13:
            i += 1
            if i < n and d[i] == 10:
                i += 1
        else:
            i += 1
            continue
        out.append((s, d[s:i]))
        s = i
    if s < n:
        out.append((s, d[s:]))
    return out


def reader(data, cuts, bufsiz):
    p = PSBaseParser(Chunked(data, cuts))
    if bufsiz:
        p.BUFSIZ = bufsiz
    return p


def cutting(h, n, lo=1):
    mode = h.choice('cuts', ['none', 'all'] + ['buf%d' % k for k in range(2, min(n, 4))] + list(range(lo, n)))
    if mode == 'none':
        return [], None
    if mode == 'all':
        return list(range(1, n)), None
    if isinstance(mode, str):
        return [], int(mode[3:])
    return [mode], None


def forward(h, n, alphabet=None, seek=False):
    d = h.bytes('d', n, alphabet)
    cuts, buf = cutting(h, n)
    p = reader(d, cuts, buf)
    s = 0
    if seek:
        s = h.choice('start', range(n + 1))
        p.seek(s)
    got = []
    while True:
        try:
            got.append(p.nextline())
        except PSEOF:
            break
        h.check(len(got) <= n, 'an end')
    h.observe('lines', got)
    h.equal(got, refs(d, s), 'lines and offsets')
    h.reach('end')


def forward_edge(h, n):
    k = h.choice('shift', range(n + 1))
    pad = b'x' * (4096 - k)
    d = h.bytes('d', n, b'\r\na')
    p = PSBaseParser(BytesIO(pad + d))
    got = []
    while True:
        try:
            got.append(p.nextline())
        except PSEOF:
            break
    h.observe('lines', got[1:])
    h.equal(got, refs(pad[-1:] + d, 0)[:0] + [(a if a == 0 else a + len(pad) - 1, (pad[:-1] if a == 0 else b'') + b)
                                             for a, b in refs(pad[-1:] + d, 0)], 'lines and offsets')
    h.reach('end')


def then_tokens(h, n):
    """a token read after a line starts where the line ended, and the other way round"""
    d = h.bytes('d', n, b'\r\n 1/')
    cuts, buf = cutting(h, n + 3)
    p = reader(d + b' 7 ', cuts, buf)
    try:
        pos, line = p.nextline()
    except PSEOF:
        return
    end = pos + len(line)
    h.check(p.tell() == end or p.charpos >= len(p.buf), 'position')
    rest = (d + b' 7 ')[end:]
    got = drain(p)
    h.equal(got, [(a + end, t) for a, t in tokens(rest)], 'tokens after a line')
    h.reach('end')


def refrev(d):
    """the pieces that start at each end-of-line byte, last first, then the rest"""
    out = []
    e = len(d)
    for i in range(len(d) - 1, -1, -1):
        if h_eol(d[i]):
            out.append(d[i:e])
            e = i
    if e > 0:
        out.append(d[:e])
    return out


def h_eol(c):
    return c == 10 or c == 13


def backward(h, n, alphabet=None):
    d = h.bytes('d', n, alphabet)
    size = h.choice('buffer', [None] + list(range(1, max(n, 2))))
    p = PSBaseParser(BytesIO(d))
    if size:
        p.BUFSIZ = size
    got = list(p.revreadlines())
    h.observe('lines', got)
    h.equal(got, refrev(d), 'lines, last first')
    h.reach('end')


def backward_edge(h, n):
    """the real buffer size: the symbolic bytes lie across its edge, counted from the end"""
    k = h.choice('shift', range(n + 1))
    d = h.bytes('d', n, b'\r\na')
    pad = b'y' * (4096 - k)
    p = PSBaseParser(BytesIO(b'x' + d + pad))
    got = list(p.revreadlines())
    h.observe('lines', [len(g) for g in got])
    h.equal(got, refrev(b'x' + d + pad), 'lines, last first')
    h.reach('end')


def cases(tier):
    q = tier == 'quick'
    out = []
    m = 4 if q else 5
    for n in range(0, m + 1):
        out.append(Case('forward%d' % n, forward, {'n': n}, 'every %d-byte file, single cuts, 1-byte reads and small buffers' % n, ['end']))
        out.append(Case('backward%d' % n, backward, {'n': n}, 'every %d-byte file, every buffer size' % n, ['end']))
    n = 6 if q else 8
    out.append(Case('forward-eol', forward, {'n': n, 'alphabet': b'\r\na'}, 'every %d-byte file over CR, LF, a' % n, ['end']))
    out.append(Case('backward-eol', backward, {'n': n, 'alphabet': b'\r\na'}, 'every %d-byte file over CR, LF, a, every buffer size' % n, ['end']))
    out.append(Case('forward-seek', forward, {'n': 4 if q else 5, 'alphabet': b'\r\na', 'seek': True}, 'from every start offset', ['end']))
    out.append(Case('forward-4096', forward_edge, {'n': 3 if q else 4}, 'bytes around offset 4096, real buffer size', ['end']))
    out.append(Case('backward-4096', backward_edge, {'n': 3 if q else 4}, 'bytes around 4096 before the end, real buffer size', ['end']))
    out.append(Case('line-token', then_tokens, {'n': 4 if q else 5}, 'a line, then tokens', ['end']))
    return out
