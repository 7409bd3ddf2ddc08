from harness.convt import *

ASSUMPTIONS = TEXTS + ['text output: the same page structures']


def alltext(items):
    out = []
    for i in items:
        if isinstance(i, LTTextBlock):
            for g in glyphs(i):
                out += cps(g.get_text())
        elif isinstance(i, LTXObject):
            out += alltext(i)
    return out


def plain(h, pages):
    """the text output is the heading and the texts of each page"""
    want = []
    for p in pages:
        want += cps('========== [ page %d ] ==========\n' % p.page_num) + alltext(p.items) + [10]
    try:
        got = decode(h, convert(h, 'text', pages))
    except Invalid:
        h.fail('encoding of the text')
    samecps(h, got, want, 'text of the output')


def plaintext(h, lens):
    texts = {97 + i: h.text('t%d' % i, n) for i, n in enumerate(lens)}
    items = paint(b'BT /F1 10 Tf .2 g (' + bytes(sorted(texts)) + b') Tj ET 1 2 m 3 4 l S', texts)
    plain(h, [Page(3, 1, 1, items)])
    h.reach('text')


def plainform(h):
    items = parts(['text', 'nested', 'rect', 'text'], {97: h.text('t', 1), 98: h.text('u', 1), 100: ''})
    plain(h, [Page(1, 100, 200.5, items), Page(2, 1, 1, items[:1]), Page(7, 1, 1, [])])
    h.reach('text')


def plainstructure(h, n, npages):
    pages = []
    for p in range(npages):
        names = [h.choice('p%d_%d' % (p, i), list(PARTS)) for i in range(n)]
        pages.append(Page(p, 1, 1, parts(names)))
    plain(h, pages)
    h.reach('structure')


def cases(tier):
    q = tier == 'quick'
    return standard('yaml', tier) + [
        Case('plain-2', plaintext, {'lens': (2,)}, 'every text of two characters', ['text']),
        Case('plain-1-1', plaintext, {'lens': (1, 1)}, 'every two glyphs', ['text']),
        Case('plain-0-1', plaintext, {'lens': (0, 1)}, 'an empty and another glyph', ['text']),
        Case('plain-form', plainform, {}, 'every two glyphs in forms', ['text']),
        Case('plain-structure-2', plainstructure, {'n': 2, 'npages': 1}, 'any two items', ['structure']),
        Case('plain-structure-1-2', plainstructure, {'n': 1, 'npages': 2}, 'two pages', ['structure']),
        Case('plain-structure-0', plainstructure, {'n': 0, 'npages': 0}, 'no pages', ['structure']),
        Case('plain-whole', whole, {'kind': 'text', 'n': 1, 'via': 'file'}, 'a document with every printable text of one character in two places', ['whole'])]
