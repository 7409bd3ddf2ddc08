"""Text strings, named destinations and the outline."""
from symex.hapi import Case
from harness.docs import File, open_doc
from pdfmajor.execptions import PDFDestinationNotFound, PDFNoOutlines
from pdfmajor.parser.PDFStream import resolve1
from pdfmajor.parser.PDFStream.PDFObjRef import PDFObjRef
from pdfmajor.parser.PSStackParser import LIT
from pdfmajor.utils import decode_text

ASSUMPTIONS = ['text strings of up to four bytes (eight after a byte-order mark); codes PDFDocEncoding leaves undefined, and 0x16 (whose entry in the standard is ambiguous), are not compared',
               'name trees of up to three levels and five sorted, distinct names with limits that describe them; names of one or two bytes',
               'outlines of up to five entries in any tree shape; loops through one extra link; one level of 1100 entries',
               'an entry is in the outline when it has a title and a destination or an action; a title that is not a string counts as an empty one']

UNDEF = (0x16, 0x7f, 0x9f, 0xad)
DOC = {0x18: 0x2d8, 0x19: 0x2c7, 0x1a: 0x2c6, 0x1b: 0x2d9, 0x1c: 0x2dd, 0x1d: 0x2db, 0x1e: 0x2da, 0x1f: 0x2dc,
       0x80: 0x2022, 0x81: 0x2020, 0x82: 0x2021, 0x83: 0x2026, 0x84: 0x2014, 0x85: 0x2013, 0x86: 0x192, 0x87: 0x2044, 0x88: 0x2039, 0x89: 0x203a,
       0x8a: 0x2212, 0x8b: 0x2030, 0x8c: 0x201e, 0x8d: 0x201c, 0x8e: 0x201d, 0x8f: 0x2018, 0x90: 0x2019, 0x91: 0x201a, 0x92: 0x2122, 0x93: 0xfb01,
       0x94: 0xfb02, 0x95: 0x141, 0x96: 0x152, 0x97: 0x160, 0x98: 0x178, 0x99: 0x17d, 0x9a: 0x131, 0x9b: 0x142, 0x9c: 0x153, 0x9d: 0x161, 0x9e: 0x17e,
       0xa0: 0x20ac}
TABLE = [DOC.get(c, c) for c in range(256)]


def docchar(h, code):
    """the character of a code, without branching"""
    r = code
    for c, u in DOC.items():
        r = h.ite(h.eq(code, c), u, r)
    return r


def doctext(h, s, got, label):
    h.check(len(got) == len(s), label)
    for c, g in zip(s, got):
        undefined = h.or_(*[h.eq(c, u) for u in UNDEF])
        h.check(h.or_(undefined, h.eq(ord(g), docchar(h, c))), label)


def pdfdoc(h, n):
    s = h.bytes('s', n)
    if n > 1:
        h.assume(h.not_(h.and_(h.eq(s[0], 0xfe), h.eq(s[1], 0xff))))
    doctext(h, s, decode_text(s), 'another_text')
    h.reach('read')


def utf16(h, n):
    s = h.bytes('s', n)
    got = decode_text(b'\xfe\xff' + s)
    want = []
    i = 0
    while i + 1 < n:
        u = s[i] * 256 + s[i + 1]
        i += 2
        if 0xd800 <= u < 0xdc00:
            if i + 1 < n and 0xdc00 <= s[i] * 256 + s[i + 1] < 0xe000:
                want.append(0x10000 + (u - 0xd800) * 1024 + (s[i] * 256 + s[i + 1] - 0xdc00))
                i += 2
        elif not 0xdc00 <= u < 0xe000:
            want.append(u)
    h.check(len(got) == len(want), 'another_number_of_characters')
    for g, w in zip(got, want):
        h.check(h.eq(ord(g), w), 'another_text')
    h.reach('read')


def catalog(body, objs):
    f = File()
    entries = {}
    for n, b in sorted(objs.items()):
        entries[n] = (f.obj(n, b), 0, b'n')
    entries[1] = (f.obj(1, b'<</Type/Catalog' + body + b'>>'), 0, b'n')
    f.end(f.table(entries, b'/Size 100/Root 1 0 R'))
    return open_doc(f.data)


# -- named destinations -----------------------------------------------------
# a leaf is a number of names, a node a tuple
SHAPES = {'leaf1': 1, 'leaf2': 2, 'leaf3': 3, 'two': (1, 1), 'two21': (2, 1), 'three': (1, 1, 1), 'deep': ((1, 1), 1), 'deep2': (1, (1, 2)), 'emptyleaf': (1, 0, 1)}


def first_last(tree):
    if isinstance(tree, list):
        return (tree[0][0], tree[-1][0]) if tree else None
    fl = [x for x in map(first_last, tree) if x]
    return (fl[0][0], fl[-1][1]) if fl else None


def split(shape, items):
    """shape filled with items, in order"""
    if isinstance(shape, int):
        return [items.pop(0) for _ in range(shape)]
    return tuple(split(s, items) for s in shape)


def count(shape):
    return shape if isinstance(shape, int) else sum(map(count, shape))


def dests(h, shape, n, limits, old, m):
    """limits: which nodes have them (kids, all, none); old: the catalog also has a Dests dictionary; m: symbols of the name asked for"""
    k = count(SHAPES[shape])
    keys = [h.bytes('key%d' % i, n, b'bcdefgh') for i in range(k)]
    for a, b in zip(keys, keys[1:]):
        h.assume(a < b)
    vals = [h.int('val%d' % i, 0, 9) for i in range(k)]
    tree = split(SHAPES[shape], list(zip(keys, vals)))
    objs = {}
    direct = h.choice('direct', (False, True))

    def node(t, root):
        d = b'<<'
        fl = first_last(t)
        if fl and (limits == 'all' or limits == 'kids' and not root):
            d += b'/Limits[(' + fl[0] + b')(' + fl[1] + b')]'
        if isinstance(t, list):
            d += b'/Names[' + b''.join(b'(' + a + b')%d ' % b for a, b in t) + b']'
        else:
            d += b'/Kids['
            for s in t:
                b = node(s, False)
                if direct:
                    d += b
                else:
                    num = 10 + len(objs)
                    objs[num] = b
                    d += b'%d 0 R ' % num
            d += b']'
        return d + b'>>'
    body = b'/Names<</Dests ' + node(tree, True) + b'>>'
    if old:
        body += b'/Dests<</bb 77/zz 78>>'
    doc = catalog(body, objs)
    name = h.bytes('name', m, b'abcdefghi')
    hit = None
    for a, b in zip(keys, vals):
        if len(a) == m and a == name:
            hit = b
    try:
        got = doc.get_dest(name)
    except PDFDestinationNotFound:
        h.check(hit is None, 'a_named_destination_is_not_found')
        h.reach('missing')
        return
    h.check(hit is not None, 'a_name_not_in_the_tree_is_found')
    h.check(h.eq(resolve1(got), hit), 'another_destination')
    h.reach('found')


def older(h, n, names):
    """PDF 1.1 dictionary, with and without a name tree for something else or without the name"""
    doc = catalog((b'', b'/Names<</EmbeddedFiles<</Names[(bb)1]>>>>', b'/Names<</Dests<</Limits[(a)(zz)]/Names[(a)1(zz)2]>>>>', b'/Names 3', b'/Names<</Dests<</Kids[<</Limits[(x)(y)]/Names[(x)1(y)2]>>]>>>>')[names]
                  + b'/Dests<</bb 0/zc 78/c 3>>', {})
    name = h.text('name', n, ((97, 99), (122, 122)))
    hit = 0 if name == 'bb' else 78 if name == 'zc' else 3 if name == 'c' else None
    try:
        got = doc.get_dest(name)
    except PDFDestinationNotFound:
        h.check(hit is None, 'a_named_destination_is_not_found')
        h.reach('missing')
        return
    h.check(hit is not None, 'a_name_not_in_the_dictionary_is_found')
    h.check(h.eq(resolve1(got), hit), 'another_destination')


def nothing(h, n):
    """no destinations at all"""
    doc = catalog(h.choice('body', (b'', b'/Names<<>>', b'/Names<</Dests<<>>>>')), {})
    name = h.text('name', n, ((97, 99),)) if h.choice('text', (True, False)) else h.bytes('bname', n)
    try:
        doc.get_dest(name)
    except PDFDestinationNotFound:
        h.reach('missing')
        return
    h.fail('a_name_is_found_in_a_document_without_destinations')


# -- outline -----------------------------------------------------------------
class Store:
    def __init__(self):
        self.objs = {}

    def getobj(self, n):
        return self.objs[n]


def preorder(kids, i):
    return [i] + [x for k in kids[i] for x in preorder(kids, k)]


def outline(h, parents, raw, loop):
    """entry i+1 (1-based) is the last child so far of parents[i] (0: the root)"""
    n = len(parents)
    kids = {i: [] for i in range(n + 1)}
    for i, p in enumerate(parents):
        kids[p].append(i + 1)
    title = {}
    kind = {}
    objs = {}
    for i in range(1, n + 1):
        title[i] = h.bytes('title%d' % i, 1, b'abcdef\x80\xa0')
        kind[i] = h.choice('kind%d' % i, ('Dest', 'A', 'both', 'none', 'untitled', 'number') if i <= 2 else ('Dest', 'none'))
    if loop:
        src = h.choice('from', tuple(range(1, n + 1)))
        to = h.choice('to', tuple(range(1, n + 1)))
        h.assume(not [s for s in kids.values() if src in s and s[-1] != src])
        order = preorder(kids, 0)
        h.assume(order.index(to) <= order.index(src))       # leads back
    for i in range(0, n + 1):
        d = b'<<'
        if i:
            if kind[i] != 'untitled':
                d += b'/Title(' + title[i] + b')' if kind[i] != 'number' else b'/Title 7'
            if kind[i] in ('Dest', 'both', 'untitled', 'number'):
                d += b'/Dest(d%d)' % i
            if kind[i] in ('A', 'both'):
                d += b'/A %d/SE %d' % (i + 20, i + 40)
            sib = kids[parents[i - 1]]
            k = sib.index(i)
            if k + 1 < len(sib):
                d += b'/Next %d 0 R' % (10 + sib[k + 1])
            elif loop and i == src:
                d += b'/Next %d 0 R' % (10 + to)
            if k:
                d += b'/Prev %d 0 R' % (10 + sib[k - 1])
            d += b'/Parent %d 0 R' % (10 + parents[i - 1])
        if kids[i]:
            d += b'/First %d 0 R/Last %d 0 R' % (10 + kids[i][0], 10 + kids[i][-1])
        objs[10 + i] = d + b'>>'
    doc = catalog(b'/Outlines 10 0 R', objs)
    want = []

    def walk(i, level):
        if i and kind[i] not in ('none', 'untitled'):
            want.append((level, i))
        for k in kids[i]:
            walk(k, level + 1)
    walk(0, 0)
    got = []
    for e in doc.get_outlines():
        got.append(e)
        h.check(len(got) <= len(want), 'more_entries_than_the_outline_has')
    h.check(len(got) == len(want), 'entries_are_missing_from_the_outline')
    for (level, t, dest, action, se), (wl, i) in zip(got, want):
        h.check(level == wl, 'another_level')
        doctext(h, title[i] if kind[i] != 'number' else b'', t, 'another_title')
        h.check(resolve1(dest) == (b'd%d' % i if kind[i] != 'A' else None), 'another_destination')
        h.check(resolve1(action) == (i + 20 if kind[i] not in ('Dest', 'number') else None), 'another_action')
        h.check(resolve1(se) == (i + 40 if kind[i] not in ('Dest', 'number') else None), 'another_element')
    h.reach('listed')


def longlevel(h, n):
    """many entries on one level"""
    st = Store()
    t = h.bytes('title', 1, b'abc')
    st.objs[0] = {'First': PDFObjRef(st, 1, 0), 'Last': PDFObjRef(st, n, 0)}
    for i in range(1, n + 1):
        st.objs[i] = {'Title': t, 'Dest': i}
        if i < n:
            st.objs[i]['Next'] = PDFObjRef(st, i + 1, 0)
    doc = catalog(b'', {})
    doc.catalog['Outlines'] = PDFObjRef(st, 0, 0)
    got = [d for (_, _, d, _, _) in doc.get_outlines()]
    h.check(got == list(range(1, n + 1)), 'another_list_of_entries')
    h.reach('listed')


def none(h):
    doc = catalog(b'', {})
    try:
        doc.get_outlines()
    except PDFNoOutlines:
        h.reach('none')
        return
    h.fail('a_document_without_an_outline_has_one')


def cases(tier):
    deep = tier == 'thorough'
    out = []
    for n in range(0, 7 if deep else 5):
        out.append(Case('pdfdoc-%d' % n, pdfdoc, dict(n=n), bounds={'text': '%d bytes' % n}, reach=['read']))
    for n in range(0, 9 if deep else 7):
        out.append(Case('utf16-%d' % n, utf16, dict(n=n), bounds={'text': '%d bytes after the mark' % n}, reach=['read']))
    for shape in SHAPES:
        for limits in ('kids', 'all', 'none'):
            for n, m in ((1, 1), (2, 2)) + (((1, 2), (2, 1)) if deep or shape in ('two', 'leaf2') else ()):
                if n == 2 and not deep and (count(SHAPES[shape]) > 2 or limits == 'none'):
                    continue
                out.append(Case('dest-%s-%s-%d%d' % (shape, limits, n, m), dests, dict(shape=shape, n=n, limits=limits, old=shape in ('two', 'leaf2'), m=m),
                                bounds={'names': '%d of %d bytes' % (count(SHAPES[shape]), n), 'asked': '%d bytes' % m}, reach=(['found'] if n == m else []) + ['missing']))
    for n in (1, 2, 3):
        for names in range(5):
            out.append(Case('older-%d-%d' % (n, names), older, dict(n=n, names=names), bounds={'name': '%d characters' % n}, reach=['missing']))
        out.append(Case('nothing-%d' % n, nothing, dict(n=n), bounds={'name': '%d bytes' % n}, reach=['missing']))
    shapes = [(0,), (0, 0), (0, 1), (0, 0, 0), (0, 1, 0), (0, 1, 1), (0, 1, 2), (0, 0, 2), (0, 1, 2, 0), (0, 0, 1, 2)]
    if deep:
        shapes += [(0, 1, 2, 3), (0, 1, 1, 0), (0, 0, 2, 2), (0, 1, 2, 1, 0), (0, 0, 0, 2, 1), (0, 1, 2, 3, 4)]
    for p in shapes:
        out.append(Case('outline-' + ''.join(map(str, p)), outline, dict(parents=p, raw=True, loop=False), bounds={'entries': len(p)}, reach=['listed']))
        if len(p) <= 3 or deep:
            out.append(Case('loop-' + ''.join(map(str, p)), outline, dict(parents=p, raw=True, loop=True), bounds={'entries': len(p)}, reach=['listed']))
    out.append(Case('level-1100', longlevel, dict(n=1100), bounds={'entries': 1100}, reach=['listed'], steps=4000000))
    out.append(Case('none', none, {}, bounds={}, reach=['none']))
    return out
