from symex.hapi import Case
from harness.lib import *
from harness.docs import File, open_doc
from pdfmajor.execptions import PDFObjectNotFound
from pdfmajor.parser.PDFStream import resolve1, resolve_all

ASSUMPTIONS = ['file offsets are concrete; object contents, generations of the object header, lookup order and caching are arbitrary', 'members of object streams are not references (7.5.7)']
ROOT = b'/Root 1 0 R'


def val(h, t):
    v = h.int(t, 0, 99)
    return b'(' + bytes([0x30 + v // 10, 0x30 + v % 10]) + b')', v


# how a revision defines an object
KINDS = ('none', 'direct', 'free', 'compressed', 'wrongpos', 'eofpos', 'noindex', 'nostream', 'notobjstm', 'damaged')


def revision(h, f, r, kinds, nums, prev, style, state):
    """one revision; state: number -> expected value"""
    ents = {}
    comp = []
    base = 20 * (r + 1)
    for n in nums:
        k = h.choice('r%dk%d' % (r, n), kinds[n])
        v, x = val(h, 'r%dv%d' % (r, n)) if k in ('direct', 'compressed') else (b'', None)
        if k == 'direct':
            ents[n] = (1, f.obj(n, v), 0)
            state[n] = x
        elif k == 'free':
            ents[n] = (0, 0, 1)
        elif k == 'compressed':
            ents[n] = (2, base, len(comp))
            comp.append((n, v))
            state[n] = x
        elif k == 'wrongpos':
            ents[n] = (1, f.obj(base + 5, b'(bad)') + h.choice('delta', (0, 2)), 0)
        elif k == 'eofpos':
            ents[n] = (1, 90000, 0)
        elif k == 'noindex':
            ents[n] = (2, base, 7)
        elif k == 'nostream':
            ents[n] = (2, 93, 0)
        elif k == 'notobjstm':
            ents[n] = (2, 1, 0)
        elif k == 'damaged':
            ents[n] = (1, f.obj(n + 70, b'<</a>>'), 0)
    if r == 0:
        ents[1] = (1, f.obj(1, b'<</Type/Catalog>>'), 0)
    if any(t == 2 for t, _, _ in ents.values()):
        ents[base] = (1, f.objstm(base, comp or [(99, b'null')]), 0)
        ents[99] = (0, 0, 0)
    if style == 'stream':
        ents.pop(99, None)
        pos = f.xrefstream(base + 1, ents, ROOT + b'/Size 99', prev)
    elif style == 'table':
        pos = f.table({n: (o if t else 0, g, b'n' if t else b'f') for n, (t, o, g) in ents.items()}, ROOT + b'/Size 99', prev)
    else:
        sp = f.xrefstream(base + 1, {n: e for n, e in ents.items() if e[0] == 2}, ROOT + b'/Size 99')
        pos = f.table({n: (o if t == 1 else 0, g, b'n' if t == 1 else b'f') for n, (t, o, g) in ents.items() if t != 2}, ROOT + b'/Size 99', prev, sp)
    f.end(pos)
    return pos


def look(h, doc, n, state):
    try:
        got = doc.getobj(n)
    except PDFObjectNotFound:
        got = None
    v = state.get(n)
    if v is None:
        h.check(got is None, 'object %d is not defined by any revision' % n)
    else:
        h.check(got is not None, 'object %d not found' % n)
        h.equal(got, bytes([0x30 + v // 10, 0x30 + v % 10]), 'object %d' % n)


def revisions(h, styles, kinds, orders, modes=((True, True), (False, True), (True, False))):
    f = File()
    state = {}
    prev = None
    for r, (style, kk) in enumerate(zip(styles, kinds)):
        prev = revision(h, f, r, kk, sorted(kk), prev, style, state)
    caching, fallback = h.choice('mode', modes)
    doc = open_doc(f.data, caching=caching, fallback=fallback)
    for n in h.choice('order', orders):
        look(h, doc, n, state)
    h.equal(plain(doc.getobj(1)), plain({'Type': doc.catalog['Type']}), 'catalog')
    h.reach('end')


def selfref(h, kind):
    """objects whose reading needs themselves"""
    f = File()
    v = h.bytes('v', 1, b'ab\xff')
    ents = {1: (1, f.obj(1, b'<</Type/Catalog>>'), 0)}
    if kind == 'length':
        ents[5] = (1, f.obj(5, b'<</Length 5 0 R>>\nstream\n' + v + b'\nendstream'), 0)
    elif kind == 'objstm':
        ents[5] = (2, 5, 0)
    elif kind == 'cycle':
        ents[5] = (2, 6, 0)
        ents[6] = (2, 5, 0)
    elif kind == 'loop':
        ents[5] = (1, f.obj(5, b'6 0 R'), 0)
        ents[6] = (1, f.obj(6, h.choice('to', (b'5 0 R', b'6 0 R'))), 0)
    elif kind == 'alias':
        ents[5] = (1, f.obj(5, b'6 0 R'), 0)
        ents[6] = (1, f.obj(6, v.hex().encode() if type(v) is bytes else b'7'), 0)
    f.end(f.xrefstream(9, ents, ROOT + b'/Size 10'))
    doc = open_doc(f.data, caching=h.choice('caching', (True, False)))
    for i in range(2):
        try:
            o = doc.getobj(5)
        except PDFObjectNotFound:
            h.check(kind in ('objstm', 'cycle'), 'found')
            continue
        h.check(kind not in ('objstm', 'cycle'), 'not found')
        if kind == 'loop':
            h.check(resolve1(o) is None, 'reference loop resolves to nothing')
            h.equal(resolve1(o, default=v), v, 'reference loop resolves to the default')
            h.check(resolve_all([o]) == [None], 'reference loop')
        if kind == 'length':
            h.check(h.or_(h.eq(o.get_data(), v), h.eq(o.get_data(), v + b'\n')), 'data')
    h.reach('end')


def zero(h):
    f = File()
    n = h.choice('n', (0, 7))
    f.end(f.xrefstream(9, {1: (1, f.obj(1, b'<</Type/Catalog/X %d 0 R>>' % n), 0)}, ROOT + b'/Size 10'))
    doc = open_doc(f.data, caching=h.choice('caching', (True, False)))
    try:
        doc.getobj(n)
    except PDFObjectNotFound:
        h.check(resolve1(doc.catalog['X']) is None, 'reference to nothing')
        h.reach('end')
    else:
        h.fail('found')


def near(h):
    """offsets that point a little before the object"""
    f = File()
    junk = h.choice('junk', (b'', b' ', b'\n', b'7 ', b'endobj\n', b'1 2 ', b'endobj 3 ', b'%x\n', b'a b c ', b'a b c d '))
    pos = f.raw(junk)
    v, x = val(h, 'v')
    f.obj(5, v)
    f.end(f.table({1: (f.obj(1, b'<</Type/Catalog>>'), 0, b'n'), 5: (pos, 0, b'n')}, ROOT + b'/Size 9'))
    doc = open_doc(f.data, fallback=h.choice('fallback', (True, False)), caching=h.choice('caching', (True, False)))
    look(h, doc, 5, {5: x})
    look(h, doc, 5, {5: x})
    h.reach('end')


MEMBERS = ((b'null', None), (b'true', ('bool', True)), (b'/N', ('name', b'N')), (b'-3.5', ('real', -3.5)), (b'[null 1 0 R]', ['list', ('null',), ('ref', 1, 0)]),
           (b'[]', ['list']), (b'<<>>', ['dict', []]), (b'<</A null/B[2]>>', None), (b'(a)', ('str', b'a')), (b'%c\n(b)', ('str', b'b')))


def members(h, n, sizes):
    """objects of any kind before and after one in the same object stream"""
    ks = [h.choice('kind%d' % i, range(sizes)) for i in range(n)]
    at = h.choice('at', range(n + 1))
    v, x = val(h, 'v')
    mem = [(20 + i, MEMBERS[k][0]) for i, k in enumerate(ks)]
    mem.insert(at, (5, v))
    f = File()
    ents = {1: (1, f.obj(1, b'<</Type/Catalog>>'), 0), 8: (1, f.objstm(8, mem), 0)}
    for i, (num, _) in enumerate(mem):
        ents[num] = (2, 8, i)
    f.end(f.xrefstream(9, ents, ROOT + b'/Size 50'))
    doc = open_doc(f.data, caching=h.choice('caching', (True, False)))
    for i in range(2):
        look(h, doc, 5, {5: x})
        for j, k in enumerate(ks):
            if MEMBERS[k][1]:
                h.equal(plain(doc.getobj(20 + j)), MEMBERS[k][1], 'another object of the stream')
    h.reach('end')


def streams(h, n):
    """a stream object keeps its identity and data over repeated lookups"""
    f = File()
    d = h.bytes('d', n)
    ents = {1: (1, f.obj(1, b'<</Type/Catalog>>'), 0), 5: (1, f.obj(5, b'<</Length 6 0 R>>\nstream\n' + d + b'\nendstream', 0), 0),
            6: (1, f.obj(6, b'%d' % n), 0), 7: (2, 8, 1), 4: (2, 8, 0)}
    ents[8] = (1, f.objstm(8, [(4, b'[5 0 R 6 0 R]'), (7, b'<</a 5 0 R/b(x)>>')]), 0)
    f.end(f.xrefstream(9, ents, ROOT + b'/Size 10'))
    doc = open_doc(f.data, caching=h.choice('caching', (True, False)), fallback=h.choice('fallback', (True, False)))
    for i in h.choice('order', ((5, 7, 4, 5), (4, 7, 5), (7, 6, 7), (6, 5, 6, 4))):
        o = doc.getobj(i)
        if i == 5:
            h.check(isinstance(o, PDFStream) and o.objid == 5, 'stream number')
            h.equal(o.get_data(), d, 'stream data')
        elif i == 6:
            h.equal(o, n, 'length object')
        elif i == 4:
            h.equal(plain(o), ['list', ('ref', 5, 0), ('ref', 6, 0)], 'array in object stream')
            h.equal(o[0].resolve().get_data(), d, 'stream data through the array')
        else:
            h.equal(plain(o), ['dict', [(b'a', ('ref', 5, 0)), (b'b', ('str', b'x'))]], 'dictionary in object stream')
    h.reach('end')


def cases(tier):
    q = tier == 'quick'
    out = []
    A = ((5, 6, 5), (6, 5, 5))
    K1 = {5: ('direct', 'compressed', 'none', 'free'), 6: ('direct', 'compressed')}
    K0 = {5: ('direct', 'none'), 6: ('direct',)}
    BAD = {5: tuple(k for k in KINDS if k not in ('direct', 'compressed')), 6: ('compressed',)}
    for st in (('stream', 'stream'), ('table', 'stream'), ('table', 'hybrid'), ('stream', 'hybrid')) if q else [(a, b) for a in ('table', 'stream', 'hybrid') for b in ('stream', 'hybrid')]:
        k0 = K0 if st[0] == 'table' else {5: ('direct', 'compressed', 'none'), 6: ('direct',)}
        out.append(Case('rev-%s' % '-'.join(st), revisions, {'styles': st, 'kinds': (k0, K1), 'orders': A}, 'two revisions, each object direct, compressed, freed or untouched; lookup orders; caching; scanning', ['end']))
        out.append(Case('bad-%s' % '-'.join(st), revisions, {'styles': st, 'kinds': (k0, BAD), 'orders': A}, 'newer entries unusable in every way', ['end']))
    out.append(Case('rev-table-table', revisions, {'styles': ('table', 'table'), 'kinds': (K0, {5: ('direct', 'none', 'free', 'wrongpos', 'eofpos', 'damaged'), 6: ('direct', 'none')}), 'orders': A}, 'classic tables', ['end']))
    out.append(Case('rev3', revisions, {'styles': ('table', 'stream', 'hybrid'), 'kinds': ({5: ('direct', 'none')}, {5: ('direct', 'compressed', 'none', 'nostream', 'eofpos')}, {5: ('compressed', 'none', 'noindex', 'damaged', 'free')}), 'orders': ((5, 5),)},
                    'three revisions', ['end']))
    for k in ('length', 'objstm', 'cycle', 'alias', 'loop'):
        out.append(Case('self-' + k, selfref, {'kind': k}, 'self-referential object', ['end']))
    out.append(Case('zero', zero, {}, 'object number 0 and an unknown number', ['end']))
    out.append(Case('near', near, {}, 'offset before the object', ['end']))
    for n, k in ((1, 11), (2, 5)) if q else ((1, 11), (2, 11)):
        out.append(Case('members%d' % n, members, {'n': n, 'sizes': min(k, len(MEMBERS))}, 'an object stream with objects of every kind', ['end']))
    for n in (0, 2) if q else (0, 1, 2, 3):
        out.append(Case('streams%d' % n, streams, {'n': n}, 'streams, indirect length, references inside an object stream', ['end']))
    return out
