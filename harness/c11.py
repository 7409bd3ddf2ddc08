from symex.hapi import Case
from pdfmajor.utils.lzw import lzwdecode


class Enc:
    """bit writer and reference table (early change) for a code sequence"""

    def __init__(self):
        self.bits = []          # (value, width)
        self.table = None
        self.width = 9
        self.prev = None
        self.out = b''
        self.done = False

    def code(self, h, c):
        """append code c; False when it is not valid here"""
        self.bits.append((c, self.width))
        if self.done:
            return True
        if c == 256:
            self.table = [bytes([i]) for i in range(256)] + [None, None]
            self.width = 9
            self.prev = None
            return True
        if c == 257:
            self.done = True
            return True
        if self.table is None:
            return False
        if self.prev is None:
            if c >= 258:
                return False
            x = self.literal(c)
        else:
            n = len(self.table)
            if c < 256:
                x = self.literal(c)
            elif c < n:
                x = self.table[c]
            elif c == n:
                x = self.prev + self.prev[:1]
            else:
                return False
            self.table.append(self.prev + x[:1])
            n = len(self.table)
            if n + 1 >= 2048:
                self.width = 12
            elif n + 1 >= 1024:
                self.width = 11
            elif n + 1 >= 512:
                self.width = 10
        self.prev = x
        self.out += x
        return True

    def literal(self, c):
        return bytes([c])

    def data(self, pad=0):
        acc = 0
        n = 0
        out = []
        for v, w in self.bits:
            acc = acc * (1 << w) + v
            n += w
            while n >= 8:
                n -= 8
                out.append(acc >> n)
                acc = acc & ((1 << n) - 1)
        if n:
            k = 8 - n
            out.append((acc << k) | (pad * ((1 << k) - 1)))
        return bytes(out)


def anycode(h, name, e, extra=True):
    """a symbolic literal, a table entry, the next entry, clear, end, or one too large"""
    kinds = ['lit']
    n = len(e.table) if e.table else 258
    if n > 258:
        kinds += ['last', 'first']
    if e.prev is not None:
        kinds.append('next')
    if extra:
        kinds += ['clear', 'end', 'bad']
    k = h.choice(name + 'k', kinds)
    if k == 'lit':
        return h.int(name, 0, 255)
    if k == 'last':
        return n - 1
    if k == 'first':
        return 258
    if k == 'next':
        return n
    if k == 'clear':
        return 256
    if k == 'end':
        return 257
    b = n + 1 if e.prev is not None else n
    if b >= (1 << e.width):
        b = 256
    return b


def seq(h, n):
    """every sequence of n codes after a clear code"""
    e = Enc()
    e.code(h, 256)
    ok = True
    for i in range(n):
        if ok:
            ok = e.code(h, anycode(h, 'c%d' % i, e))
            want = e.out
        else:
            e.bits.append((h.int('c%d' % i, 0, 511), e.width))
    if h.choice('eod', (True, False)) and ok and not e.done:
        e.code(h, 257)
    data = e.data(h.choice('pad', (0, 1)))
    if h.choice('trailer', (False, True)):
        if not e.done:
            return
        data += b'\x80\x0b\x60\x50\n'
    got = lzwdecode(data)
    h.observe('out', got)
    h.equal(got, e.out, 'decoded bytes')
    h.reach('end')


def noclear(h, n):
    """every input of n bytes whose first code is not the clear code"""
    d = h.bytes('d', n)
    if n >= 2:
        h.assume(h.not_(h.and_(d[0] == 0x80, d[1] < 0x80)))
    got = lzwdecode(d)
    h.equal(got, b'', 'nothing decoded')
    h.reach('end')


def width(h, size, n):
    """the table filled to `size` entries, then n arbitrary codes across the width change"""
    e = Enc()
    e.code(h, 256)
    i = 0
    while len(e.table) < size:
        e.code(h, i % 251)
        i += 1
    ok = True
    for i in range(n):
        if ok:
            ok = e.code(h, anycode(h, 'c%d' % i, e, extra=(i == n - 1)))
        else:
            e.code(h, 0)
    data = e.data()
    got = lzwdecode(data)
    h.observe('tail', got[-8:])
    h.check(len(got) == len(e.out), 'length')
    h.equal(got, e.out, 'decoded bytes')
    h.reach('end')


def truncated(h, n):
    """valid data cut anywhere gives a prefix of the full decoding"""
    e = Enc()
    e.code(h, 256)
    for i in range(n):
        e.code(h, anycode(h, 'c%d' % i, e, extra=False))
    data = e.data()
    k = h.choice('cut', range(len(data)))
    got = lzwdecode(data[:k])
    h.equal(got, e.out[:len(got)], 'prefix')
    h.reach('end')


def cases(tier):
    q = tier == 'quick'
    out = []
    for n in range(0, 4 if q else 6):
        out.append(Case('seq%d' % n, seq, {'n': n}, 'every sequence of %d codes after a clear code, end code or not, trailing bytes or not' % n, ['end']))
    for n in (0, 1, 2, 3):
        out.append(Case('noclear%d' % n, noclear, {'n': n}, 'every %d-byte input not starting with a clear code' % n, ['end']))
    for size in (509, 510) if q else (508, 509, 510, 511):
        out.append(Case('width%d' % size, width, {'size': size, 'n': 4}, '4 codes from a table of %d entries (9 to 10 bits)' % size, ['end'], steps=2000000))
    for size in (1021,) if q else (1020, 1021, 1022, 1023, 2044, 2045, 2046, 4093):
        out.append(Case('width%d' % size, width, {'size': size, 'n': 4 if size < 4000 else 2}, '4 codes from a table of %d entries' % size, ['end'], steps=2000000))
    out.append(Case('truncated', truncated, {'n': 3 if q else 4}, 'every cut of every sequence of 3 valid codes', ['end']))
    return out
