from symex.hapi import Case
from harness.lib import *
from pdfmajor.parser.PSStackParser import LIT
from pdfmajor.parser.cmapdb import CMap, CMapDB, FileCMap, IdentityCMap
from pdfmajor.interpreter.commands.state.PDFTextState.PDFFont import get_font

ASSUMPTIONS = ['code maps are prefix codes (no code is a prefix of another), of codes of one to three bytes']


def identity(h, n, vertical):
    s = h.bytes('s', n)
    name = 'Identity-V' if vertical else 'Identity-H'
    how = h.choice('how', ('map', 'font', 'descendant'))
    if how == 'map':
        got = list(CMapDB.get_cmap(name).decode(s))
    else:
        sub = {'Subtype': LIT('CIDFontType2'), 'BaseFont': LIT('F'), 'FontDescriptor': {}}
        if how == 'descendant':
            sub['Encoding'] = LIT(name)
            f = get_font(None, sub, {})
        else:
            f = get_font(None, {'Subtype': LIT('Type0'), 'Encoding': LIT(name), 'DescendantFonts': [sub]}, {})
        got = list(f.decode(s))
        h.check(f.is_vertical() == vertical, 'writing mode')
    h.check(len(got) == n // 2, 'number of codes')
    for i, c in enumerate(got):
        h.equal(c, s[2 * i] * 256 + s[2 * i + 1], 'code')
    h.reach('done')


def simple(h, n, kind):
    s = h.bytes('s', n)
    spec = {'Subtype': LIT(kind), 'BaseFont': LIT('F'), 'FontDescriptor': {}, 'FontMatrix': [1, 0, 0, 1, 0, 0], 'FontBBox': [0, 0, 1, 1]}
    got = list(get_font(None, spec, {}).decode(s))
    h.check(len(got) == n, 'number of codes')
    for i, c in enumerate(got):
        h.equal(c, s[i], 'code')
    h.reach('done')


def reference(h, codes, s):
    """segmentation by the codes: a code of the map wherever one starts; a byte that cannot continue a code is left out,
    and so are the bytes of the code it breaks"""
    out = []
    pos = 0
    cur = []
    tree = [(list(c), v) for c, v in codes]
    for b in s:
        live = [(c, v) for c, v in tree if len(c) > len(cur) and h.branch(h.and_(*[x == y for x, y in zip(c, cur + [b])]))]
        if not live:
            cur = []
            continue
        cur = cur + [b]
        done = [v for c, v in live if len(c) == len(cur)]
        if done:
            out.append(done[-1])
            cur = []
    return out


def mixed(h, lens, n, how):
    """codes of the given lengths"""
    codes = []
    for k, ln in enumerate(lens):
        c = [h.int('c%d_%d' % (k, i), 0, 255) for i in range(ln)]
        for d, _ in codes:
            m = min(len(d), len(c))
            h.assume(h.not_(h.and_(*[x == y for x, y in zip(c[:m], d[:m])])))
        codes.append((c, h.int('v%d' % k, 0, 70000)))
    if how == 'file':
        m = FileCMap()
        for c, v in codes:
            m.add_code2cid(''.join(chr(x) for x in c), v)
    else:
        m = FileCMap()
        for c, v in codes[:1]:
            m.add_code2cid(''.join(chr(x) for x in c), v)
        base = FileCMap()
        for c, v in codes[1:]:
            base.add_code2cid(''.join(chr(x) for x in c), v)
        # a map that refers to another contains its codes, and has them to itself
        for c, _ in codes[1:]:
            h.assume(codes[0][0][0] != c[0])
        m.use_cmap(base)
        for c, v in codes[1:]:
            base.add_code2cid(''.join(chr(x) for x in c), 70001)
    s = h.bytes('s', n)
    got = list(m.decode(s))
    h.equal(got, reference(h, codes, s), 'codes of the string')
    h.reach('some' if got else 'none')


def cases(tier):
    q = tier == 'quick'
    out = []
    for n in range(0, 6 if q else 10):
        for v in (False, True):
            out.append(Case('identity-%d-%s' % (n, 'v' if v else 'h'), identity, {'n': n, 'vertical': v}, 'every string of %d bytes' % n, ['done']))
        for k in ('Type1', 'TrueType', 'Type3'):
            out.append(Case('simple-%d-%s' % (n, k), simple, {'n': n, 'kind': k}, 'every string of %d bytes' % n, ['done']))
    sets = [((1,), 2), ((2,), 3), ((1, 2), 3), ((2, 2), 3), ((3,), 4)] if q else [((1,), 3), ((2,), 5), ((1, 2), 4), ((2, 2), 4), ((3,), 5), ((1, 2, 3), 3), ((1, 1, 2), 3), ((3, 2), 4)]
    for lens, n in sets:
        for how in ('file', 'use') if len(lens) > 1 else ('file',):
            out.append(Case('mixed-%s-%d-%s' % ('.'.join(map(str, lens)), n, how), mixed, {'lens': list(lens), 'n': n, 'how': how}, 'every prefix code of these lengths and string', ['some', 'none']))
    return out
