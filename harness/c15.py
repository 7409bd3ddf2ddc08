from symex.hapi import Case
from harness.lib import *
from pdfmajor.execptions import PDFNoValidXRef
from pdfmajor.parser.PDFParser import PDFParser
from pdfmajor.parser.PDFDocument.PDFXRef import PDFXRef

ASSUMPTIONS = ['subsections of one table do not overlap; malformed means: a field of a subsection header or entry that is not a decimal number, a wrong number of fields, a missing trailer']


class Doc:
    decipher = None


def digits(h, name, n, sym):
    """n-digit number, the last `sym` digits arbitrary"""
    ds = [h.int('%s_%d' % (name, i), 0, 9) for i in range(sym)]
    v = 0
    for d in ds:
        v = v * 10 + d
    return b'0' * (n - sym) + bytes([0x30 + d for d in ds]), v


def load(data, bufsiz=None):
    p = PDFParser(BytesIO(data))
    if bufsiz:
        p.BUFSIZ = bufsiz
    p.set_document(Doc())
    p.seek(0)
    x = PDFXRef()
    x.load(p)
    return x


def table(h, sections, sym, eols, bufs=(None,)):
    """sections: list of numbers of entries"""
    eol = h.choice('eol', eols)
    data = b''
    want = {}
    nums = []
    base = 0
    for s, n in enumerate(sections):
        start = base + h.int('start%d' % s, 0, 5)
        data += bytes([0x30 + start // 10, 0x30 + start % 10] if s or h.choice('lead', (False, True)) else [0x30 + start]) + b' %d' % n + (b'\r\n' if eol == b'\r\n' else b'\n')
        for i in range(n):
            off, ov = digits(h, 'off%d_%d' % (s, i), 10, sym)
            gen, gv = digits(h, 'gen%d_%d' % (s, i), 5, 1)
            use = h.choice('use%d_%d' % (s, i), (b'n', b'f'))
            data += off + b' ' + gen + b' ' + use + eol
            nums.append((start + i, ov, gv, use == b'n'))
        base += 5 + n
    data += b'trailer\n<</Size 9/K (x)>>\nstartxref\n0\n%%EOF\n'
    x = load(data, h.choice('bufsiz', bufs))
    q = h.int('query', 0, base + 6)
    try:
        got = x.get_pos(q)
    except KeyError:
        got = None
    for num, ov, gv, used in nums:
        if got is None:
            h.check(h.not_(h.and_(q == num, used)), 'in-use entry unknown')
        else:
            h.check(h.implies(q == num, h.and_(used, h.eq(got, (None, ov, gv)))), 'entry')
    if got is not None:
        h.check(h.or_(*[q == num for num, _, _, _ in nums]), 'number outside every section')
        h.observe('pos', got)
    ids = list(x.get_objids())
    h.equal(sorted(ids), sorted(num for num, _, _, used in nums if used), 'object list')
    h.equal(plain(x.get_trailer()), plain({'Size': 9, 'K': b'x'}), 'trailer')
    h.reach('end')


def wide(h, nstart, noff, ngen, n):
    """every digit of the numbers is arbitrary"""
    start, sv = digits(h, 'start', nstart, nstart)
    data = b''
    ents = []
    for i in range(n):
        off, ov = digits(h, 'off%d' % i, 10, noff)
        gen, gv = digits(h, 'gen%d' % i, 5, ngen)
        data += off + b' ' + gen + b' n \n'
        ents.append((ov, gv))
    x = load(start + b' %d\n' % n + data + b'trailer\n<</Size 9>>\nstartxref\n0\n%%EOF\n')
    q = h.int('query', 0, 10 ** nstart + n)
    try:
        got = x.get_pos(q)
    except KeyError:
        h.check(h.or_(q < sv, q >= sv + n), 'in-use entry unknown')
        h.reach('none')
        return
    for i, (ov, gv) in enumerate(ents):
        h.check(h.implies(h.eq(q, sv + i), h.eq(got, (None, ov, gv))), 'entry')
    h.check(h.and_(q >= sv, q < sv + n), 'number outside every section')
    h.reach('end')


def isnum(h, f):
    return h.and_(*[h.and_(c >= 0x30, c <= 0x39) for c in f]) if f else False


def malformed(h, part, n, alphabet):
    """arbitrary bytes in place of one field"""
    f = h.bytes('field', n, alphabet)
    for c in f:
        h.assume(h.and_(*[c != w for w in b' \t\n\r\x0b\x0c\0']))
    head, off, gen, use, tr = b'3 1', b'0000000017', b'00000', b'n', b'trailer'
    good = isnum(h, f)
    if part == 'start':
        head = f + b' 1'
    elif part == 'count':
        head = b'3 ' + f
        h.assume(h.not_(good))
    elif part == 'offset':
        off = f
    elif part == 'gen':
        gen = f
    elif part == 'extra':
        gen = gen + b' ' + f
        good = False
    elif part == 'header':
        head = b'3 1 ' + f
        good = False
    elif part == 'trailer':
        tr = b'trail' + f
        good = f == b'er'
        h.assume(h.or_(good, h.not_(h.and_(isnum(h, f), False))))
    data = head + b'\n' + off + b' ' + gen + b' ' + use + b' \n' + tr + b'\n<</Size 9>>\nstartxref\n'
    try:
        x = load(data)
    except PDFNoValidXRef:
        h.check(h.not_(good), 'well-formed table rejected')
        h.reach('rejected')
        return
    h.check(good, 'malformed table accepted')
    h.reach('accepted')


def truncated(h):
    data = b'3 2\n0000000017 00000 n \n0000000027 00001 n \ntrailer\n<</Size 9>>'
    k = h.choice('cut', range(len(data)))
    cut = data[:k] + h.choice('rest', (b'', b'\n'))
    try:
        x = load(cut)
    except PDFNoValidXRef:
        h.check(k < len(data), 'rejected')
        h.reach('end')
        return
    h.check(k > data.index(b'trailer') + 6, 'table cut before its trailer accepted')
    h.equal(x.get_pos(3), (None, 17, 0), 'entry')


def cases(tier):
    q = tier == 'quick'
    out = []
    E = (b' \n', b'\r\n', b' \r', b'\n')
    for secs in ((1,), (2,), (1, 1), (0, 2)) if q else ((1,), (2,), (1, 1), (0, 2), (3,), (2, 2), (1, 1, 1)):
        out.append(Case('table%s' % '-'.join(map(str, secs)), table, {'sections': secs, 'sym': 2 if q else 4, 'eols': E},
                        'subsections of %s entries, arbitrary start numbers 0-5, offsets, generations, in-use flags and end-of-line forms' % (secs,), ['end']))
    out.append(Case('buffers', table, {'sections': (1, 1), 'sym': 1, 'eols': (b' \n', b'\r\n'), 'bufs': (1, 2, 7, 20) if q else range(1, 24)}, 'small read buffers', ['end']))
    for ns, no, ng, n in ((2, 10, 5, 1), (7, 10, 2, 1), (1, 10, 5, 2), (7, 5, 5, 2))[:4 if q else None]:
        out.append(Case('wide%d-%d-%d-%d' % (ns, no, ng, n), wide, {'nstart': ns, 'noff': no, 'ngen': ng, 'n': n}, '%d entries from an arbitrary %d-digit object number, %d digits of the offsets and %d of the generations arbitrary' % (n, ns, no, ng), ['end', 'none']))
    for part in ('start', 'count', 'offset', 'gen', 'extra', 'header'):
        for n in (1, 2) if q or part == 'start' else (1, 2, 3):
            out.append(Case('malformed-%s%d' % (part, n), malformed, {'part': part, 'n': n, 'alphabet': None if n < 2 else b'0179+-_.a/\xb2'}, 'any %d bytes as the %s field' % (n, part),
                            ['rejected'] + ([] if part in ('extra', 'header', 'count') else ['accepted'])))
    out.append(Case('malformed-trailer', malformed, {'part': 'trailer', 'n': 2, 'alphabet': b'erx1/('}, 'other words than trailer', ['rejected', 'accepted']))
    out.append(Case('truncated', truncated, {}, 'a table cut at every offset', ['end']))
    return out
