from symex.hapi import Case
from harness.lib import *
from harness.docs import File, open_doc
from pdfmajor.parser.PDFPage import PDFPage

ASSUMPTIONS = ['file offsets are concrete; the shape of the tree is one of the listed ones, the attributes defined at each node, their values and the rotation are arbitrary']


def digits(v):
    return bytes([0x30 + v // 10, 0x30 + v % 10])


# a leaf is 'P', an inner node a tuple; 'N' a null kid, 'X' a node of another type, 'C' a kid leading back to the root
SHAPES = {
    'one': ('P',),
    'flat': ('P', 'P', 'P'),
    'deep': ((('P',),),),
    'mixed': (('P', 'P'), 'P', ('P',)),
    'mixed2': ('P', (('P',), 'P'), ()),
    'odd': ('N', 'P', 'X', ('N', 'P'), 'P'),
    'cycle': ('P', ('C', 'P'), 'C', 'P'),
}


class Builder:
    def __init__(self, h, f, attrs, nodes, indirect):
        self.h, self.f, self.attrs, self.nodes, self.indirect = h, f, attrs, nodes, indirect
        self.n = 2
        self.ents = {}
        self.pages = []

    def value(self, key, tag):
        """source text and value of an attribute"""
        h = self.h
        v = h.int(tag, 0, 99)
        if key == 'Rotate':
            return digits(v), v
        if key == 'Resources':
            return b'<</Q ' + digits(v) + b'>>', {'Q': v}
        if key in ('MediaBox', 'CropBox'):
            if self.indirect and h.choice('boxref', (False, True)):
                self.n += 1
                self.ents[self.n] = (1, self.f.obj(self.n, digits(v)), 0)
                return b'[0 %d 0 R 100 200.5]' % self.n, [0, v, 100, 200.5]
            return b'[0 ' + digits(v) + b' 100 200.5]', [0, v, 100, 200.5]
        if key == 'Contents':
            return digits(v), v
        return b'(' + digits(v) + b')', digits(v)

    def node(self, shape, inherited, depth, num=None):
        h = self.h
        if num is None:
            self.n += 1
            num = self.n
        if shape == 'C':
            return 2
        if shape == 'N':
            if h.choice('null', (False, True)):
                self.ents[num] = (1, self.f.obj(num, b'null'), 0)
            return num
        own = dict(inherited)
        body = b''
        here = self.nodes(depth, shape == 'P', len(self.pages))
        for key in self.attrs + (() if 'MediaBox' in self.attrs else ('MediaBox',)):
            if key in here or key == 'MediaBox' and depth == 0 and shape != 'P':
                if key == 'MediaBox' and depth == 0 or h.choice('%s@%d' % (key, num), (False, True)):
                    src, val = self.value(key, '%s@%d' % (key, num))
                    if self.indirect and key not in ('Annots', 'B', 'UserUnit') and h.choice('ref', (False, True)):
                        self.n += 1
                        self.ents[self.n] = (1, self.f.obj(self.n, src), 0)
                        src = b'%d 0 R' % self.n
                    body += b'/' + key.encode() + b' ' + src
                    own[key] = val
        if shape == 'P':
            self.pages.append((num, own))
            kind = b'Page'
        elif shape == 'X':
            kind = b'Other'
            body += b'/Kids[]'
        else:
            kind = b'Pages'
            mine = {k: v for k, v in own.items() if k in ('Resources', 'MediaBox', 'CropBox', 'Rotate')}
            body += b'/Kids[' + b''.join(b'%d 0 R ' % self.node(k, mine, depth + 1) for k in shape) + b']/Count 7'
        self.ents[num] = (1, self.f.obj(num, b'<</Type/' + kind + body + b'>>'), 0)
        return num


def tree(h, shape, attrs, where, indirect):
    f = File()
    pick = {'all': lambda d, leaf, i: attrs,
            'root': lambda d, leaf, i: attrs if d == 0 or leaf and i == 1 else (),
            'inner': lambda d, leaf, i: attrs if not leaf else ()}[where]
    b = Builder(h, f, attrs, pick, indirect)
    b.node(SHAPES[shape], {}, 0, 2)
    cat = b''
    extra, caching = h.choice('mode', ((True, False), (False, True)))
    if extra:
        # the catalog is not part of the page tree
        cat = b'/Rotate 33/Resources<</Q 7>>/CropBox[1 2 3 4]/Annots 3'
    b.ents[1] = (1, f.obj(1, b'<</Type/Catalog/Pages 2 0 R' + cat + b'>>'), 0)
    f.end(f.xrefstream(b.n + 1, b.ents, b'/Root 1 0 R/Size 99'))
    doc = open_doc(f.data, caching=caching, fallback=False)
    got = list(PDFPage.create_pages(doc))
    h.check([p.pageid for p in got] == [n for n, _ in b.pages], 'pages from left to right', [p.pageid for p in got])
    for p, (n, want) in zip(got, b.pages):
        t = 'page %d ' % n
        h.equal(p.mediabox, want['MediaBox'], t + 'media box')
        h.equal(p.cropbox, want.get('CropBox', want['MediaBox']), t + 'crop box')
        h.equal(p.resources, want.get('Resources', {}), t + 'resources')
        h.equal(p.rotate, want.get('Rotate', 0), t + 'rotation')
        for key, got1 in (('LastModified', p.lastmod), ('Annots', p.annots), ('B', p.beads), ('UserUnit', p.attrs.get('UserUnit'))):
            if key in want:
                h.equal(got1, want[key], t + key)
            else:
                h.check(got1 is None, t + key + ' is not inherited')
        h.equal(p.contents, [want['Contents']] if 'Contents' in want else [], t + 'contents')
    h.reach('end')


def rotation(h):
    class D:
        pass
    r = h.int('r', -5000, 5000)
    p = PDFPage(D(), 1, {'MediaBox': [0, 0, 1, 1], 'Rotate': r})
    h.check(h.and_(p.rotate >= 0, p.rotate < 360), 'rotation between 0 and 359')
    h.equal((p.rotate - r) % 360, 0, 'rotation modulo 360')
    h.reach('end')


def contents(h, n):
    """the content of a page is its list of streams in order"""
    f = File()
    ents = {}
    want = []
    refs = b''
    form = h.choice('form', ('one', 'list', 'refs', 'reflist'))
    if form == 'one':
        n = 1
    for i in range(n):
        d = h.bytes('d%d' % i, 1)
        ents[10 + i] = (1, f.stream(10 + i, d), 0)
        want.append(d)
        refs += b'%d 0 R ' % (10 + i)
    c = refs if form == 'one' else b'[' + refs + b']'
    if form == 'reflist':
        ents[9] = (1, f.obj(9, c), 0)
        c = b'9 0 R'
    elif form == 'refs' and n > 1:
        # the same stream used again
        c = b'[' + refs + b'10 0 R]'
        want.append(want[0])
    ents[3] = (1, f.obj(3, b'<</Type/Page/Contents ' + c + b'>>'), 0)
    ents[2] = (1, f.obj(2, b'<</Type/Pages/MediaBox[0 0 9 9]/Kids[3 0 R]>>'), 0)
    ents[1] = (1, f.obj(1, b'<</Type/Catalog/Pages 2 0 R>>'), 0)
    f.end(f.xrefstream(20, ents, b'/Root 1 0 R/Size 99'))
    doc = open_doc(f.data, caching=h.choice('caching', (True, False)), fallback=h.choice('fallback', (True, False)))
    (p,) = PDFPage.create_pages(doc)
    h.equal([s.resolve().get_data() if isinstance(s, PDFObjRef) else s.get_data() for s in p.contents], want, 'content streams')
    h.reach('end')


def notree(h):
    """without a page tree every page object is listed once"""
    f = File()
    ents = {}
    kinds = {}
    for i in (3, 4, 5):
        k = h.choice('k%d' % i, ('Page', 'Pages', 'Font'))
        v = h.int('v%d' % i, 0, 99)
        kinds[i] = (k, v)
        ents[i] = (1, f.obj(i, b'<</Type/' + k.encode() + b'/MediaBox[0 0 9 9]/Rotate ' + digits(v) + b'>>'), 0)
    ents[1] = (1, f.obj(1, b'<</Type/Catalog' + h.choice('pages', (b'', b'/Pages 77 0 R', b'/Pages 2 0 R')) + b'>>'), 0)
    ents[2] = (1, f.obj(2, b'<</Type/Pages/Kids[]>>'), 0)
    p = f.xrefstream(20, ents, b'/Root 1 0 R/Size 99')
    if h.choice('update', (False, True)):
        p = f.xrefstream(21, {4: ents[4]}, b'/Root 1 0 R/Size 99', p)
    f.end(p)
    doc = open_doc(f.data, caching=h.choice('caching', (True, False)), fallback=h.choice('fallback', (True, False)))
    got = sorted([(p.pageid, p.rotate) for p in PDFPage.create_pages(doc)], key=lambda x: x[0])
    h.equal(got, [(i, kinds[i][1]) for i in (3, 4, 5) if kinds[i][0] == 'Page'], 'page objects')
    h.reach('end')


QUICK = (('Resources', 'Annots'), ('MediaBox', 'CropBox'), ('Rotate', 'UserUnit'), ('LastModified', 'Contents'), ('MediaBox', 'B'))
DEEP = (('Resources', 'MediaBox', 'Annots'), ('CropBox', 'LastModified', 'MediaBox'), ('B', 'UserUnit', 'Contents', 'Rotate'))


def cases(tier):
    q = tier == 'quick'
    out = [Case('rotation', rotation, {}, 'rotation -5000..5000', ['end']), Case('notree', notree, {}, 'no page tree', ['end'])]
    for n in (0, 2) if q else (0, 1, 2, 3):
        out.append(Case('contents%d' % n, contents, {'n': n}, '%d streams' % n, ['end']))
    for s in SHAPES:
        for i, a in enumerate(QUICK if q else DEEP):
            small = s in ('flat',) and not q
            out.append(Case('tree-%s-%d' % (s, i), tree, {'shape': s, 'attrs': a, 'where': 'all' if s in ('one', 'deep') or small else 'root', 'indirect': s == 'one'},
                            'shape %s, attributes %s' % (s, ','.join(a)), ['end']))
            if s in ('deep', 'mixed', 'mixed2') and not q:
                out.append(Case('inner-%s-%d' % (s, i), tree, {'shape': s, 'attrs': a, 'where': 'inner', 'indirect': False}, 'attributes on inner nodes', ['end']))
    return out
