from symex.hapi import Case
from harness.lib import *
from pdfmajor.parser.PSStackParser import LIT
from pdfmajor.interpreter.commands.state.PDFTextState.PDFFont import get_font

ASSUMPTIONS = ['fonts other than the standard 14 (whose width data is built in)', 'width lists of up to three entries, ranges of up to four codes; widths are real numbers with arbitrary values']


class Doc:
    """the indirect objects of a font"""
    decipher = None

    def __init__(self):
        self.objs = []

    def getobj(self, n):
        return self.objs[n - 1]

    def ref(self, x):
        self.objs.append(x)
        return PDFObjRef(self, len(self.objs), None)


def maybe(h, doc, name, x):
    return doc.ref(x) if h.choice('ref_' + name, (False, True)) else x


def pick(h, code, listed, default):
    """the width of a code: the last entry that lists it"""
    for c, w in reversed(listed):
        if h.branch(code == c):
            h.reach('listed')
            return w
    h.reach('default')
    return default


def simple(h, kind, n, refs):
    """Widths from FirstChar on"""
    doc = Doc()
    first = h.int('first', 0, 255)
    ws = [h.real('w%d' % i, -2000, 2000) for i in range(n)]
    missing = h.choice('missing', (None, True))
    mw = h.real('mw', 0, 2000) if missing else 0
    fd = {'FontName': LIT('Foo'), 'Flags': 4}
    if missing:
        fd['MissingWidth'] = mw
    scale = .001
    # arrays and numbers may be indirect objects
    items = [doc.ref(w) if refs and i % 2 else w for i, w in enumerate(ws)]
    spec = {'Type': LIT('Font'), 'Subtype': LIT(kind), 'BaseFont': LIT('Foo'), 'Widths': doc.ref(items) if refs else items, 'FontDescriptor': doc.ref(fd) if refs else fd}
    if h.choice('hasfirst', (True, False)):
        spec['FirstChar'] = doc.ref(first) if refs else first
    else:
        first = 0
    if kind == 'Type3':
        scale = .5
        spec['FontMatrix'] = [scale, 0, 0, .25, 0, 0]
        fd['FontBBox'] = [0, 0, 1, 1]
    f = get_font(None, spec, {})
    code = h.int('code', 0, 255)
    want = pick(h, code, [(first + i, w) for i, w in enumerate(ws)], mw)
    h.close(f.char_width(code), want * scale, 'width of a code')
    a, b = h.int('a', 0, 255), h.int('b', 0, 255)
    h.close(f.string_width(bytes([a, b])), f.char_width(a) + f.char_width(b), 'width of a string')
    h.equal(f.string_width(b''), 0, 'width of an empty string')


def cid(h, entries, vertical, refs, dw):
    """W or W2 of a composite font"""
    doc = Doc()
    lst = []
    listed = []
    arity = 3 if vertical else 1
    for k, (kind, n) in enumerate(entries):
        c = h.int('c%d' % k, 0, 65535 - n)
        if kind == 'list':
            vals = []
            for i in range(n):
                w = [h.real('w%d_%d_%d' % (k, i, j), -2000, 2000) for j in range(arity)]
                vals += [doc.ref(x) if refs and k % 2 else x for x in w]
                listed.append((c + i, w))
            lst += [c, doc.ref(vals) if refs and not k % 2 else vals]
        else:
            w = [h.real('w%d_%d' % (k, j), -2000, 2000) for j in range(arity)]
            ext = h.int('e%d' % k, -1, n - 1)
            h.assume(c + ext >= 0)
            lst += [c, c + ext] + [doc.ref(x) if refs else x for x in w]
            for i in range(n):
                if h.branch(ext >= i):
                    listed.append((c + i, w))
    sub = {'Type': LIT('Font'), 'Subtype': LIT('CIDFontType2'), 'BaseFont': LIT('Foo'), 'CIDSystemInfo': {'Registry': b'Adobe', 'Ordering': b'Identity', 'Supplement': 0},
           'FontDescriptor': {'FontName': LIT('Foo'), 'MissingWidth': 77}}
    if entries or h.choice('empty', (True, False)):
        sub['W2' if vertical else 'W'] = doc.ref(lst) if refs else lst
        # the data of the other writing mode does not count
        sub['W' if vertical else 'W2'] = [0, [5]] if vertical else [0, [5, 6, 7]]
    default = 1000
    dy = 880
    if vertical:
        default = -1000
        if dw:
            dy = h.real('dy', -2000, 2000)
            default = h.real('dw', -2000, 2000)
            sub['DW2'] = doc.ref([dy, doc.ref(default)]) if refs else [dy, default]
    elif dw:
        default = h.real('dw', -2000, 2000)
        sub['DW'] = doc.ref(default) if refs else default
    spec = {'Type': LIT('Font'), 'Subtype': LIT('Type0'), 'BaseFont': LIT('Foo'), 'Encoding': LIT('Identity-V' if vertical else 'Identity-H'),
            'DescendantFonts': doc.ref([doc.ref(sub)]) if refs else [sub]}
    f = get_font(None, spec, {})
    h.check(f.is_vertical() == vertical and f.is_multibyte(), 'writing mode')
    code = h.int('code', 0, 65535)
    want = pick(h, code, listed, [default])
    h.close(f.char_width(code), want[0] * .001, 'width of a code')
    if vertical:
        vx, vy = f.char_disp(code)
        if len(want) == 3:
            h.close(vx, want[1], 'displacement')
            h.close(vy, want[2], 'displacement')
        else:
            h.check(vx is None, 'default displacement')
            h.close(vy, dy, 'default displacement')
    else:
        h.equal(f.char_disp(code), 0, 'no displacement')


def string(h, vertical):
    """the width of a string of a composite font"""
    ws = [h.real('w%d' % i, -2000, 2000) for i in range(2)]
    c = h.int('c', 0, 65535)
    sub = {'Subtype': LIT('CIDFontType0'), 'BaseFont': LIT('Foo'), 'FontDescriptor': {}}
    sub['W2' if vertical else 'W'] = [c, [ws[0], 1, 2]] if vertical else [c, [ws[0]]]
    spec = {'Subtype': LIT('Type0'), 'Encoding': LIT('Identity-V' if vertical else 'Identity-H'), 'DescendantFonts': [sub]}
    f = get_font(None, spec, {})
    s = h.bytes('s', 4)
    x, y = s[0] * 256 + s[1], s[2] * 256 + s[3]
    want = 0
    for k in (x, y):
        want = want + (ws[0] if h.branch(k == c) else -1000 if vertical else 1000)
    h.close(f.string_width(s), want * .001, 'width of a string')
    h.reach('done')


def cases(tier):
    q = tier == 'quick'
    out = []
    for kind in ('Type1', 'TrueType', 'MMType1', 'Type3'):
        for n in (0, 2) if q else (0, 1, 2, 3, 5):
            for refs in (False, True):
                out.append(Case('simple-%s-%d-%s' % (kind, n, 'refs' if refs else 'direct'), simple, {'kind': kind, 'n': n, 'refs': refs}, 'every first code, code and width',
                                ['default'] + (['listed'] if n else [])))
    lists = [[], [('list', 2)], [('range', 3)], [('list', 1), ('range', 2)], [('range', 2), ('list', 2)], [('range', 2), ('range', 2)]]
    if not q:
        lists += [[('list', 3), ('list', 3)], [('range', 4), ('list', 1), ('range', 3)], [('list', 1), ('list', 1), ('list', 1)], [('range', 2), ('range', 2), ('range', 2)]]
    for l in lists:
        for v in (False, True):
            for refs in (False, True):
                for dw in (False, True):
                    if q and len(l) > 1 and dw == refs:
                        continue
                    out.append(Case('cid-%s-%s-%s-%s' % ('+'.join('%s%d' % e for e in l) or 'none', 'v' if v else 'h', 'refs' if refs else 'direct', 'dw' if dw else 'nodw'), cid,
                                    {'entries': [list(e) for e in l], 'vertical': v, 'refs': refs, 'dw': dw}, 'every code and width', ['default'] + (['listed'] if l else [])))
    for v in (False, True):
        out.append(Case('string-%s' % ('v' if v else 'h'), string, {'vertical': v}, 'every string of four bytes', ['done']))
    return out
