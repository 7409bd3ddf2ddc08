from symex.hapi import Case
from harness.lib import *
from harness.docs import File, open_doc
from pdfmajor.execptions import PDFObjectNotFound, PDFSyntaxError
from pdfmajor.parser.PDFStream import dict_value

ASSUMPTIONS = ['file offsets are concrete; contents, which section carries which trailer entry, the kind of damage, line endings and caching are arbitrary']


def sval(h, t):
    v = h.int(t, 0, 99)
    return b'(' + bytes([0x30 + v // 10, 0x30 + v % 10]) + b')', bytes([0x30 + v // 10, 0x30 + v % 10])


def section(f, style, ents, trailer, prev, num):
    """ents {n: (type, a, b)}"""
    if style == 'stream':
        return f.xrefstream(num, ents, trailer + b'/Size 99', prev)
    if style == 'table':
        return f.table({n: (o if t else 0, g, b'n' if t else b'f') for n, (t, o, g) in ents.items()}, trailer + b'/Size 99', prev)
    sp = f.xrefstream(num, {n: e for n, e in ents.items() if e[0] == 2}, b'/Size 99')
    return f.table({n: (o if t else 0, g, b'n' if t else b'f') for n, (t, o, g) in ents.items() if t != 2}, trailer + b'/Size 99', prev, sp)


def chain(h, styles, cyc):
    """the trailer entries come from the newest section that has them; every
    section is visited once, newest first"""
    f = File()
    prev = None
    root = info = None
    pos = []
    state = {}
    nsec = len(styles)
    for r, style in enumerate(styles):
        ents = {}
        tr = b''
        b = 10 * (r + 1)
        if r == 0 or h.choice('root%d' % r, (True, False)):
            v, x = sval(h, 'rootv%d' % r)
            ents[b] = (1, f.obj(b, b'<</Type/Catalog/V' + v + b'>>'), 0)
            tr += b'/Root %d 0 R' % b
            root = x
        if h.choice('info%d' % r, (True, False)):
            v, x = sval(h, 'infov%d' % r)
            ents[b + 1] = (1, f.obj(b + 1, b'<</V' + v + b'>>'), 0)
            tr += b'/Info %d 0 R' % (b + 1)
            info = x
        v, x = sval(h, 'objv%d' % r)
        comp = style != 'table' and h.choice('comp%d' % r, (True, False))
        if comp:
            ents[b + 2] = (1, f.objstm(b + 2, [(5, v)]), 0)
            ents[5] = (2, b + 2, 0)
        else:
            ents[5] = (1, f.obj(5, v), 0)
        ents[60 + r] = (1, f.obj(60 + r, v), 0)
        state[5] = x
        state[60 + r] = x
        if r == 0 and cyc is not None:
            # a predecessor pointer that points at itself or at a newer section
            p = section(f, style, ents, tr, 1000000000, b + 3)
            prev = p
        else:
            prev = section(f, style, ents, tr, prev, b + 3)
        pos.append(prev)
        f.end(prev)
    if cyc is not None:
        f.data = f.data.replace(b'1000000000', b'%010d' % pos[cyc])
    caching, fallback = h.choice('mode', ((True, True), (False, True), (True, False)))
    doc = open_doc(f.data, caching=caching, fallback=fallback)
    want = sum(2 if s == 'hybrid' else 1 for s in styles) + (1 if fallback else 0)
    h.check(len(doc.xrefs) == want, 'each section visited once')
    h.equal(doc.catalog['V'], root, 'catalog of the newest section that names one')
    if info is None:
        h.equal(len(doc.info), 0, 'no information dictionary')
    else:
        h.check(len(doc.info) >= 1, 'information dictionary')
        h.equal(doc.info[0]['V'], info, 'information of the newest section that names one')
    for n in sorted(state):
        h.equal(doc.getobj(n), state[n], 'object %d' % n)
    h.reach('end')


def tail(h, n, alphabet, style):
    """white space and junk around the final pointer"""
    f = File()
    v, x = sval(h, 'v')
    ents = {1: (1, f.obj(1, b'<</Type/Catalog/V' + v + b'>>'), 0)}
    p = section(f, style, ents, b'/Root 1 0 R', None, 9)
    # an older pointer must not be used
    if h.choice('older', (True, False)):
        f.raw(b'startxref\n3\n%%EOF\n')
    eol = h.choice('eol', (b'\n', b'\r', b'\r\n', b' \n', b'\n\n'))
    eol2 = h.choice('eol2', (b'\n', b'\r', b'\r\n', b' \r\n', b'\r\n\r\n'))
    f.raw(b'startxref' + eol + b'%d' % p + eol2 + b'%%EOF')
    t = h.bytes('t', n, alphabet)
    f.raw(t)
    doc = open_doc(f.data, fallback=h.choice('fallback', (True, False)))
    h.check(any(p == q for q in doc._xref_positions) if hasattr(doc, '_xref_positions') else True, 'section used')
    h.check(doc.xrefs[0].get_pos(1)[1] == ents[1][1], 'position from the named section')
    h.equal(doc.catalog['V'], x, 'catalog')
    h.reach('end')


DAMAGE = ('nostartxref', 'nonumber', 'word', 'negative', 'beyond', 'zero', 'middle', 'nosection', 'cut', 'noobj')


HEAD = ((0, b' ', None), (3, b'  ', b''), (0, b'\t', b' '), (255, b" ", b" "))


def damaged(h, styles, kinds, which, deep):
    """a missing or damaged pointer or section: objects are found by scanning"""
    f = File()
    eol = h.choice('eol', (b'\n', b'\r\n', b'\r') if len(styles) == 1 or deep else (b'\n',))
    state = {}
    prev = None
    root = None
    kind = h.choice('kind', kinds)
    for r, style in enumerate(styles):
        ents = {}
        b = 10 * (r + 1)
        tr = b''
        v, x = sval(h, 'rootv%d' % r)
        tr = b''
        if r == 0 or h.choice('root', (True, False)):
            ents[b] = (1, f.raw(b'%d 0 obj' % b + eol + b'<</Type/Catalog/V' + v + b'>>' + eol + b'endobj' + eol), 0)
            tr = b'/Root %d 0 R' % b
            root = x
        v, x = sval(h, 'objv%d' % r)
        if style != 'table':
            ents[b + 2] = (1, f.objstm(b + 2, [(60 + r, v), (6, v)]), 0)
            ents[6] = (2, b + 2, 1)
            ents[60 + r] = (2, b + 2, 0)
            state[6] = x
            state[60 + r] = x
        g, sep, after = h.choice('form%d' % r, HEAD if len(styles) == 1 or deep else HEAD[:2])
        ents[5] = (1, f.raw(b'5' + sep + b'%d obj' % g + (eol if after is None else after) + v + eol + b'endobj' + eol), g)
        state[5] = x
        p = section(f, style, ents, tr, prev, b + 3)
        hit = which == 'all' or r == which
        if hit and kind == 'nosection':
            if style == 'stream':
                # only the cross-reference stream itself is unusable
                f.data = f.data[:p] + f.data[p:].replace(b'/W[1 3 1]', b'/V[1 3 1]')
            else:
                f.data = f.data[:p] + f.data[p:].replace(b'xref\n', b'xxxx\n')
        if hit and kind == 'cut' and style == 'table':
            f.data = f.data[:p] + f.data[p:].replace(b' n \n', b' \n')
        if hit and kind == 'middle':
            p += h.choice('off', (-1, -3, 1, 2, 5))
        if hit and kind in ('beyond', 'zero', 'noobj'):
            p = {'beyond': 999999, 'zero': 0, 'noobj': ents[5][1]}[kind]
        prev = p
        if hit and kind == 'nostartxref':
            f.raw(b'%%EOF' + eol)
        elif hit and kind in ('nonumber', 'word', 'negative'):
            f.raw(b'startxref' + eol + {'nonumber': b'', 'word': b'xyz' + eol, 'negative': b'-5' + eol}[kind] + b'%%EOF' + eol)
        else:
            f.raw(b'startxref' + eol + b'%d' % p + eol + b'%%EOF' + eol)
    doc = open_doc(f.data, caching=h.choice('caching', (True, False)))
    h.equal(doc.catalog['V'], root, 'catalog')
    for n in sorted(state):
        h.equal(doc.getobj(n), state[n], 'object %d' % n)
    for n in (4, 71):
        try:
            doc.getobj(n)
        except PDFObjectNotFound:
            pass
        else:
            h.fail('object found')
    h.reach('end')


def truncated(h, style, where):
    """the end of the file is lost"""
    f = File()
    ents = {}
    v, x = sval(h, 'rootv')
    head = f.obj(1, b'<</Type/Catalog/V' + v + b'>>')
    v, y = sval(h, 'objv')
    f.obj(5, v)
    f.raw(b'trailer\n<</Root 1 0 R>>\n')
    v, z = sval(h, 'new')
    f.obj(5, v)
    z0 = len(f)
    v2, z2 = sval(h, 'lost')
    f.obj(6, b'<</A' + v2 + b'/B[1 2]>>')
    n = h.choice('cut', range(len(f) - z0)) if where else 0
    f.data = f.data[:z0 + n]
    doc = open_doc(f.data)
    h.equal(doc.catalog['V'], x, 'catalog')
    h.equal(doc.getobj(5), z, 'object 5')
    h.reach('end')


def cases(tier):
    q = tier == 'quick'
    out = []
    S2 = (('table', 'table'), ('table', 'hybrid'), ('stream', 'stream'), ('hybrid', 'stream')) if q else [(a, b) for a in ('table', 'stream', 'hybrid') for b in ('table', 'stream', 'hybrid')]
    for st in S2:
        out.append(Case('chain-' + '-'.join(st), chain, {'styles': st, 'cyc': None}, 'two sections', ['end']))
        out.append(Case('cycle-' + '-'.join(st), chain, {'styles': st, 'cyc': 1}, 'two sections in a cycle', ['end']))
    out.append(Case('cycle-self', chain, {'styles': ('table',), 'cyc': 0}, 'section naming itself as predecessor', ['end']))
    for st in (('table', 'stream', 'hybrid'),) if q else (('table', 'stream', 'hybrid'), ('stream', 'table', 'table'), ('hybrid', 'hybrid', 'hybrid')):
        out.append(Case('chain-' + '-'.join(st), chain, {'styles': st, 'cyc': None}, 'three sections', ['end']))
    for st in ('table', 'stream'):
        out.append(Case('tail-' + st, tail, {'n': 2 if q else 3, 'alphabet': None if not q else b' \r\n\0\x1a%9xs', 'style': st}, 'bytes after the final marker', ['end']))
    for st in (('table',), ('stream',), ('hybrid',)):
        out.append(Case('damaged-' + '-'.join(st), damaged, {'styles': st, 'kinds': DAMAGE, 'which': 'all', 'deep': not q}, 'single section damaged', ['end']))
    for st in (('table', 'table'), ('stream', 'hybrid')) if q else (('table', 'table'), ('stream', 'stream'), ('table', 'stream'), ('stream', 'hybrid'), ('table', 'hybrid')):
        for w in (0, 1, 'all'):
            ks = ('nosection', 'cut', 'beyond', 'zero', 'middle', 'noobj') if w == 0 else DAMAGE if not q else ('nostartxref', 'nonumber', 'middle', 'cut', 'nosection', 'noobj')
            if w == 1:
                # without the newest pointer the older revision is the one named last
                ks = tuple(k for k in ks if k != 'nostartxref')
            out.append(Case('damaged-%s-%s' % ('-'.join(st), w), damaged, {'styles': st, 'kinds': ks, 'which': w, 'deep': not q}, 'two sections, damage to %s' % w, ['end']))
    out.append(Case('truncated', truncated, {'style': 'x', 'where': 1}, 'file cut at every position inside the last object', ['end']))
    return out
