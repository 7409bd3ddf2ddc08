from harness.convt import *

ASSUMPTIONS = TEXTS[1:] + ['texts of up to two characters of the ranges given in the case', 'codecs: utf-8 with a mark, utf-16 with a mark, utf-16-le, utf-16-be, latin-1, ascii (others are tables of the same kind)']

CODECS = ('latin-1', 'ascii', 'utf-16', 'utf-16-le', 'utf-16-be', 'utf-8-sig', 'UTF-8')
RANGES = {'low': ((0, 0x1ff),), 'high': ((0x2020, 0x202f), (0xe000, 0xe01f), (0xfff0, 0x1001f), (0x10fff0, 0x10ffff))}
# a name of a font is a name token: no delimiters
NAMES = {'low': ((0x41, 0x5a), (0xa1, 0x1ff)), 'high': RANGES['high']}


def texts(h, kind, codec, rng):
    """the texts of glyphs, of a font's descriptor and of its name"""
    where = h.choice('where', ('glyph', 'descriptor', 'name'))
    if kind == 'html' and where == 'descriptor':
        return h.reach('text')
    t = h.text('t', 1, (NAMES if where == 'name' else RANGES)[rng])

    def build(t):
        texts = {97: t if where == 'glyph' else 'x', 98: 'y'}
        d = {'Type': LIT('FontDescriptor'), 'FontName': LIT('Foo'), 'Ascent': 700, 'Descent': -200}
        if where == 'descriptor':
            d['Note'] = t
        elif where == 'name':
            d['FontName'] = LIT(t)
        return [Page(1, 100, 200.5, paint(b'BT /F1 10 Tf .2 g (ab) Tj ET 1 2 m 3 4 l S', texts, descriptor=d)), Page(2, 1, 2, [])]
    verify(h, kind, build, t, codec=codec)
    h.reach('text')


def plaintext(h, codec, rng):
    """text output: the characters as the codec has them; what it does not have is refused, never replaced"""
    t = h.text('t', 1, RANGES[rng])
    items = paint(b'BT /F1 10 Tf (ab) Tj ET', {97: t, 98: 'y'})
    lim = {'latin-1': 256, 'ascii': 128}.get(codec, 1 << 21)
    has = h.branch(ord(t) < lim)
    try:
        data = convert(h, 'text', [Page(0, 9, 9, items), Page(1, 9, 9, [])], codec=codec)
    except UnicodeEncodeError:
        h.check(not has, 'a text the codec has is refused')
        h.reach('refused')
        return
    h.check(has, 'a text the codec does not have is replaced')
    try:
        cs = decode(h, data, codec)
    except Invalid:
        h.fail('the output is a text of the codec')
    samecps(h, cs, cps('========== [ page 0 ] ==========\n') + cps(t) + cps('y\n========== [ page 1 ] ==========\n\n'), 'text of the output')
    h.reach('text')


def cases(tier):
    out = []
    for c in CODECS:
        for r in RANGES:
            for k in ('json', 'xml', 'html', 'yaml'):
                out.append(Case('%s-%s-%s' % (k, c, r), texts, dict(kind=k, codec=c, rng=r), dict(chars=1), ('text',)))
            small = c in ('latin-1', 'ascii')
            out.append(Case('text-%s-%s' % (c, r), plaintext, dict(codec=c, rng=r), dict(chars=1), (('text', 'refused') if r == 'low' else ('refused',)) if small else ('text',)))
    return out
