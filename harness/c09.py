from symex.hapi import Case
from pdfmajor.utils.ascii85 import ascii85decode, asciihexdecode

WS = (b'', b' ', b'\n', b'\r\n', b'\t\x0c', b'\0')


def b85(h, groups, last, ws):
    """every encoding made of full groups (or z) and a final partial group"""
    s = b''
    want = b''
    w = h.choice('ws', (b' ', b'\n')) if ws else b''
    for g in range(groups):
        if not ws and h.choice('z%d' % g, (False, True)):
            s += b'z'
            want += b'\0\0\0\0'
            continue
        ds = [h.int('g%dd%d' % (g, i), 0, 84) for i in range(5)]
        v = 0
        for d in ds:
            v = v * 85 + d
        h.assume(v <= 0xffffffff)
        for i, d in enumerate(ds):
            s += bytes([d + 33])
            s += w
        want += bytes([v >> 24, (v >> 16) & 255, (v >> 8) & 255, v & 255])
    if last:
        bs = h.bytes('last', last)
        k = 4 - last
        v = 0
        for i in range(last):
            v = v * 256 + bs[i]
        v = v * 256 ** k
        ds = [h.int('p%d' % i, 0, 84) for i in range(last + 1)]
        q = 0
        for d in ds:
            q = q * 85 + d
        # the encoder keeps the first digits of the zero-padded group
        h.assume(h.and_(q * 85 ** k <= v, v < (q + 1) * 85 ** k))
        for d in ds:
            s += bytes([d + 33])
            s += w
        want += bs
    s += h.choice('eod', (b'~>', b'~ >', b'~>abc', b' ~>\n', b'~>~>'))
    got = ascii85decode(s)
    h.observe('out', got)
    h.equal(got, want, 'decoded bytes')
    h.reach('end')


def space85(h, n):
    """white space anywhere in a fixed encoding (of four and two bytes)"""
    enc = b'9jqo^BlbD'
    i = h.choice('at', range(len(enc) + 1))
    w = h.bytes('w', n, b'\0\t\n\x0c\r ')
    got = ascii85decode(enc[:i] + w + enc[i:] + b'~>')
    h.equal(got, ascii85decode(enc + b'~>'), 'white space ignored')
    h.equal(got, b'Man is ', 'decoded bytes')
    h.reach('end')


def hexdigit(h, x, upper):
    return h.ite(x < 10, 0x30 + x, (0x37 if upper else 0x57) + x)


def hexa(h, n, odd, ws):
    v = h.bytes('v', n)
    s = h.choice('w', ws)
    want = v
    up = h.choice('upper', (False, True))
    for i in range(n):
        s += bytes([hexdigit(h, v[i] >> 4, up)]) + h.choice('a%d' % i, ws)
        s += bytes([hexdigit(h, v[i] & 15, not up)]) + h.choice('b%d' % i, ws)
    if odd:
        d = h.int('odd', 0, 15)
        s += bytes([hexdigit(h, d, up)]) + h.choice('c', ws)
        want = want + bytes([d << 4])
    eod = h.choice('eod', ('none', 'eod', 'more'))
    if eod != 'none':
        s += b'>'
    if eod == 'more':
        s += h.bytes('after', 2)
    got = asciihexdecode(s)
    h.observe('out', got)
    h.equal(got, want, 'decoded bytes')
    h.reach('end')


def hexraw(h, n):
    """every input of digits, white space and markers"""
    d = h.bytes('d', n, b'09afAF \n\0>')
    digits = []
    for i in range(n):
        c = d[i]
        if c == 0x3e:
            break
        if c == 32 or c == 10 or c == 0:
            continue
        digits.append(c - 0x30 if c <= 0x39 else (c | 0x20) - 0x57)
    if len(digits) % 2:
        digits.append(0)
    want = b''
    for i in range(0, len(digits), 2):
        want += bytes([digits[i] * 16 + digits[i + 1]])
    got = asciihexdecode(d)
    h.observe('out', got)
    h.equal(got, want, 'decoded bytes')
    h.reach('end')


def cases(tier):
    q = tier == 'quick'
    out = []
    for g in range(0, 2 if q else 3):
        for last in range(0, 4):
            out.append(Case('b85-%d-%d' % (g, last), b85, {'groups': g, 'last': last, 'ws': False},
                            'every encoding of %d full groups and a final group of %d bytes' % (g, last), ['end']))
    out.append(Case('b85-ws', b85, {'groups': 1, 'last': 2, 'ws': True}, 'white space between the characters', ['end']))
    out.append(Case('b85-space', space85, {'n': 2 if q else 3}, '%d white-space bytes at every place' % (2 if q else 3), ['end']))
    for n in range(0, 3 if q else 4):
        for odd in (False, True):
            out.append(Case('hex-%d-%d' % (n, odd), hexa, {'n': n, 'odd': odd, 'ws': WS if n == 0 else WS[:3] if n < 2 else (b'', b'\n') },
                            'every encoding of %d bytes%s' % (n, ' and a last single digit' if odd else ''), ['end']))
    n = 5 if q else 7
    out.append(Case('hex-raw', hexraw, {'n': n}, 'every %d-byte input of digits, white space, markers' % n, ['end']))
    return out
