from symex.hapi import Case
from harness.lib import *
from harness.docs import File
from pdfmajor.interpreter import PDFInterpreter
from pdfmajor.execptions import EmptyDocumentError

ASSUMPTIONS = ['documents of up to four pages, each with a state-changing content of one or two streams; selections are lists or sets of symbolic numbers']


def digits(v):
    return bytes([0x30 + v // 10, 0x30 + v % 10])


def document(h, npages):
    """page i paints a line of symbolic width under a matrix it changes, and leaves all its state changed"""
    f = File()
    ents = {}
    want = []
    kids = b''
    for i in range(npages):
        w = h.int('w%d' % i, 0, 99)
        x = h.int('x%d' % i, 0, 99)
        s1 = b'0 0 m 9 0 l S 1 0 0 1 ' + digits(x) + b' %d cm q ' % i
        s2 = digits(w) + b' w 1 0 0 rg 0 0 m 9 0 l S 5 w 7 J 3 3 m'
        if i % 2:
            ents[20 + i] = (1, f.stream(20 + i, s1), 0)
            ents[30 + i] = (1, f.stream(30 + i, s2), 0)
            c = b'[%d 0 R %d 0 R]' % (20 + i, 30 + i)
        else:
            ents[20 + i] = (1, f.stream(20 + i, s1 + s2), 0)
            c = b'%d 0 R' % (20 + i)
        ents[10 + i] = (1, f.obj(10 + i, b'<</Type/Page/Contents ' + c + b'>>'), 0)
        kids += b'%d 0 R ' % (10 + i)
        want.append([(0, 0, 0, 9, 0, 0), (w, x, i, x + 9, i, 1)])
    ents[2] = (1, f.obj(2, b'<</Type/Pages/MediaBox[0 0 90 90]/Kids[' + kids + b']>>'), 0)
    ents[1] = (1, f.obj(1, b'<</Type/Catalog/Pages 2 0 R>>'), 0)
    f.end(f.xrefstream(50, ents, b'/Root 1 0 R/Size 99'))
    return h.vfile('doc.pdf', f.data), want


def items(page):
    return [(i.linewidth, i.x0, i.y0, i.x1, i.y1, 1 if i.fill.values else 0) for i in page]


def ids(pages):
    return [p.page.pageid - 10 for p in pages]


def selection(h, npages, nsel, form):
    path, want = document(h, npages)
    mx = h.int('max', 0, npages + 1)
    sel = [h.int('p%d' % i, 0, npages) for i in range(nsel)]
    pagenos = {'none': None, 'list': sel, 'set': set(h.realize(s) for s in sel) if form == 'set' else None, 'tuple': tuple(sel)}[form]
    exp = []
    for i in range(npages):
        ok = h.branch(h.or_(mx == 0, i < mx))
        if ok and form != 'none' and nsel:
            ok = h.branch(h.or_(*[s == i for s in sel]))
        if ok:
            exp.append(i)
    it = PDFInterpreter(path, maxpages=mx, pagenos=pagenos, preload=h.choice('preload', (False, True)) if exp else False)
    for turn in range(2):
        try:
            got = list(it)
        except EmptyDocumentError:
            h.check(not exp, 'selected pages missing')
            continue
        h.equal(ids(got), exp, 'selected pages in order')
        for p, i in zip(got, exp):
            h.equal(items(p), want[i], 'items of page %d' % i)
    h.reach('end')


def history(h, npages, ops, last, configs):
    """every sequence of full and partial iterations"""
    path, want = document(h, npages)
    caching, preload = h.choice('config', configs)
    it = PDFInterpreter(path, caching=caching, preload=preload)
    keep = []
    for k, choices in enumerate(ops):
        op = h.choice('op%d' % k, choices)
        if op == 'none':
            continue
        g = iter(it)
        if op == 'open':
            # an iteration that stays open
            keep.append((g, next(g), 0))
        elif op == 'one':
            items(next(g))
            g.close()
        elif op == 'half':
            next(iter(next(g)))
            p = next(g)
            j = iter(p)
            next(j)
            j.close()
            g.close()
        elif op == 'pages':
            h.equal(ids(list(g)), list(range(npages)), 'pages, items not read')
        elif op == 'twice':
            for i, p in enumerate(g):
                h.equal(items(p), want[i], 'items, first time')
                h.equal(items(p), want[i], 'items, second time')
        elif op == 'late':
            ps = [next(g), next(g)]
            g.close()
            for i in (1, 0):
                h.equal(items(ps[i]), want[i], 'items of page %d read after the iteration was abandoned' % i)
    got = list(it)
    h.equal(ids(got), list(range(npages)), 'pages of a later iteration')
    for i in last:
        h.equal(items(got[i]), want[i], 'items of page %d in a later iteration' % i)
    for g, p, i in keep:
        h.equal(items(p), want[i], 'items of an open iteration')
        rest = list(g)
        h.equal(ids(rest), list(range(1, npages)), 'pages of an open iteration')
        h.equal(items(rest[0]), want[1], 'items of an open iteration')
    h.reach('end')


def cases(tier):
    q = tier == 'quick'
    n = 3 if q else 4
    out = [Case('all', selection, {'npages': n, 'nsel': 0, 'form': 'none'}, '%d pages, any limit' % n, ['end']),
           Case('empty', selection, {'npages': 0, 'nsel': 1, 'form': 'list'}, 'no pages', ['end'])]
    for f in ('list', 'set') if q else ('list', 'set', 'tuple'):
        for k in (0, 1, 2) if q else (0, 1, 2, 3):
            out.append(Case('select-%s%d' % (f, k), selection, {'npages': n, 'nsel': k, 'form': f}, '%d pages, %d numbers selected, any limit' % (n, k), ['end']))
    ops = ('open', 'one', 'half', 'pages', 'twice', 'late', 'none')
    for k in (1, 2) if q else (1, 2, 3):
        out.append(Case('history%d' % k, history, {'npages': 2 if q else 3, 'ops': [ops] * k, 'last': (0, 1) if q else (2, 0, 1),
                        'configs': ((True, False), (False, False), (True, True), (False, True))}, 'sequences of %d iterations, then a full one' % k, ['end']))
    return out
