from symex.hapi import Case
from harness.lib import *
from pdfmajor.execptions import PDFNoValidXRef
from pdfmajor.parser.PDFParser import PDFParser
from pdfmajor.parser.PDFDocument.PDFXRef import PDFXRefStream

ASSUMPTIONS = ['subsections do not overlap']


class Doc:
    decipher = None


def load(head, data):
    p = PDFParser(BytesIO(b'9 0 obj\n<</Type/XRef' + head + b'/Length %d>>\nstream\n' % len(data) + data + b'\nendstream\nendobj\n'))
    p.set_document(Doc())
    p.seek(0)
    x = PDFXRefStream()
    x.load(p)
    return x


def num(bs):
    v = 0
    for b in bs:
        v = v * 256 + b
    return v


def table(h, w, sections, index=True, missing=0, extra=b''):
    w1, w2, w3 = w
    ln = sum(w)
    data = b''
    ents = []
    head = b'/W[%d %d %d]' % w
    base = 0
    idx = b''
    for s, n in enumerate(sections):
        start = (base + h.int('start%d' % s, 0, 5)) if index else 0
        idx += bytes([0x30 + start // 10, 0x30 + start % 10, 32]) + b'%d ' % n
        for i in range(n):
            e = h.bytes('ent%d_%d' % (s, i), ln)
            data += e
            t = num(e[:w1]) if w1 else 1
            ents.append((start + i, t, num(e[w1:w1 + w2]), num(e[w1 + w2:])))
        base += 5 + n
    total = sum(sections)
    if index:
        head += b'/Size 99/Index[' + idx + b']'
    else:
        head += b'/Size %d' % total
    if missing:
        data = data[:-missing]
        ents = ents[:len(data) // ln]
    x = load(head, data + extra)
    h.equal(x.get_trailer()['Size'], 99 if index else total, 'trailer')
    q = h.int('query', 0, base + 6)
    try:
        got = x.get_pos(q)
    except KeyError:
        got = None
    for n, t, a, b in ents:
        if got is None:
            h.check(h.not_(h.and_(q == n, h.or_(t == 1, t == 2))), 'entry unknown')
        else:
            h.check(h.implies(q == n, h.or_(h.and_(t == 1, h.eq(got, (None, a, b))),
                                            h.and_(t == 2, h.eq(got, (a, b, 0))))), 'entry')
    if got is not None:
        h.check(h.or_(*[q == n for n, _, _, _ in ents]), 'number outside every subsection')
        h.observe('pos', got)
    ids = list(x.get_objids())
    want = []
    for n, t, a, b in ents:
        if h.branch(h.or_(t == 1, t == 2)):
            want.append(n)
    h.equal(sorted(ids), sorted(want), 'object list')
    h.reach('end')


def damaged(h):
    k = h.choice('kind', ('noW', 'W2', 'W4', 'Wname', 'Wneg', 'index1', 'indexname', 'nosize', 'notype', 'othertype', 'notstream'))
    W, I, T = b'/W[1 1 1]', b'/Size 2', None
    if k == 'noW':
        W = b''
    elif k == 'W2':
        W = b'/W[1 1]'
    elif k == 'W4':
        W = b'/W[1 1 1 1]'
    elif k == 'Wname':
        W = b'/W[1/a 1]'
    elif k == 'Wneg':
        W = b'/W[1 -' + bytes([0x30 + h.int('v', 1, 9)]) + b' 1]'
    elif k == 'index1':
        I = b'/Size 2/Index[0]'
    elif k == 'indexname':
        I = b'/Size 2/Index[/a 1]'
    elif k == 'nosize':
        I = b''
    d = W + I
    if k in ('notype', 'othertype', 'notstream'):
        p = PDFParser(BytesIO(b'9 0 obj\n<<' + (b'/Type/ObjStm' if k == 'othertype' else b'') + d + (b'>>endobj\n' if k == 'notstream' else b'/Length 3>>\nstream\nabc\nendstream\nendobj\n')))
        p.set_document(Doc())
        p.seek(0)
        f = lambda: PDFXRefStream().load(p)
    else:
        f = lambda: load(d, h.bytes('data', 6))
    try:
        f()
    except PDFNoValidXRef:
        h.reach('end')
        return
    h.fail('damaged cross-reference stream accepted')


def cases(tier):
    q = tier == 'quick'
    out = []
    for w in ((1, 2, 1), (1, 1, 0), (0, 2, 1), (1, 3, 2), (1, 4, 1), (2, 1, 1), (0, 1, 0), (1, 0, 1), (1, 5, 1), (1, 8, 2)):
        for secs in ((2,), (1, 1)):
            if q and secs == (1, 1) and w not in ((1, 2, 1), (0, 2, 1), (1, 1, 0)):
                continue
            out.append(Case('w%d%d%d-%s' % (w + ('-'.join(map(str, secs)),)), table, {'w': w, 'sections': secs}, 'field widths %s, subsections of %s entries, all entry data' % (w, secs), ['end']))
    for secs in ((2, 1), (1, 0, 2), (1, 1, 1)) if q else ((2, 1), (1, 0, 2), (1, 1, 1), (2, 2), (1, 2, 1), (3, 1)):
        out.append(Case('secs%s' % '-'.join(map(str, secs)), table, {'w': (1, 1, 1), 'sections': secs}, 'subsections of %s entries' % (secs,), ['end']))
    out.append(Case('noindex', table, {'w': (1, 2, 1), 'sections': (3,), 'index': False}, 'default index', ['end']))
    out.append(Case('missing', table, {'w': (1, 2, 1), 'sections': (1, 2), 'missing': 2}, 'last entry cut', ['end']))
    out.append(Case('missing2', table, {'w': (1, 1, 1), 'sections': (1, 2), 'missing': 6}, 'last two entries missing', ['end']))
    out.append(Case('extra', table, {'w': (1, 1, 1), 'sections': (1,), 'extra': b'\1\1\1'}, 'more data than entries', ['end']))
    out.append(Case('damaged', damaged, {}, 'missing or invalid W, Index, Size, Type', ['end']))
    return out
