from harness.conv import *
from symex.hapi import Case
from harness.docs import File
from harness.c21 import ref_o, ref_u, ref_key, ref_auth
from pdfmajor.converters import convert_file
from pdfmajor.execptions import ConverterException, EmptyDocumentError, PDFPasswordIncorrect, PDFTextExtractionNotAllowed, UnicodeNotDefined

ASSUMPTIONS = ['documents of three pages of one text each; encrypted ones have the identity crypt filter and given passwords (C21 decides all of them)',
               'file names of one or two characters out of four and given extensions (enumerated by the solver: the file system is looked up by concrete names)']

KINDS = ('html', 'xml', 'json', 'yaml', 'text', 'yml')


def document(f, npages, bad=None, extra=b'', ents=None):
    ents = ents or {}
    kids = b''
    for i in range(npages):
        kids += b'%d 0 R ' % (10 + i)
        ents[10 + i] = f.obj(10 + i, b'<</Type/Page/Contents %d 0 R>>' % (20 + i))
        # \x81 has no text in the font's encoding
        ents[20 + i] = f.stream(20 + i, b'BT /F1 10 Tf (%c' % (97 + i) + (b'\x01' if i == bad else b'') + b'z) Tj ET')
    ents[1] = f.obj(1, b'<</Type/Catalog/Pages 2 0 R>>')
    ents[2] = f.obj(2, b'<</Type/Pages/MediaBox[0 0 90 90]/Kids[' + kids + b']/Resources<</Font<</F1 5 0 R>>>>>>')
    ents[5] = f.obj(5, b'<</Type/Font/Subtype/TrueType/BaseFont/Foo/FirstChar 0/Widths[500]/Encoding/WinAnsiEncoding/FontDescriptor 9 0 R>>')
    ents[9] = f.obj(9, b'<</Type/FontDescriptor/FontName/Foo/Ascent 700/Descent -200>>')
    f.end(f.xrefstream(50, {k: (1, p, 0) for k, p in ents.items()}, b'/Root 1 0 R/Size 99' + extra))
    return f.data


def check(h, kind, path, want):
    """the output has exactly the pages of the numbers, in order"""
    data = h.readfile(path)
    h.check(data is not None, 'an output is written')
    if kind == 'text':
        cs = decode(h, data)
        exp = []
        for i, n in enumerate(want):
            exp += cps('========== [ page %d ] ==========\n' % i) + [97 + n, 122, 10]
        samecps(h, cs, exp, 'pages of the output')
    else:
        got = readback(h, 'yaml' if kind == 'yml' else kind, data)
        h.check(len(got) == len(want), 'pages of the output')
        for i, (n, (num, blocks)) in enumerate(zip(want, got)):
            h.check(num == i, 'page numbers')
            h.check(len(blocks) == 1, 'texts of a page')
            samecps(h, blocks[0], [97 + n, 122], 'texts of a page')


def run(h, kind, via, src, **opts):
    h.exactrepr(True)
    out = h.outpath('out.' + kind)
    if via == 'file':
        convert_file(src, out, out_type=kind, **opts)
    else:
        CONVERTERS['yaml' if kind == 'yml' else kind][1](src, out, **opts)
    return out


def select(h, kind, via, nsel):
    """pages and limits"""
    src = h.vfile('in.pdf', document(File(), 3))
    mx = h.int('max', 0, 4)
    sel = [h.int('p%d' % i, 0, 3) for i in range(nsel)]
    opts = {'maxpages': mx}
    if nsel or h.choice('given', (True, False)):
        opts['pagenos'] = sel or None
    caching = h.choice('caching', (True, False, None))
    if caching is not None:
        opts['caching'] = caching
    exp = []
    for i in range(3):
        if h.branch(h.or_(mx == 0, i < mx)) and (not nsel or h.branch(h.or_(*[s == i for s in sel]))):
            exp.append(i)
    try:
        out = run(h, kind, via, src, **opts)
    except EmptyDocumentError:
        h.check(not exp, 'a document with pages is refused')
        h.reach('empty')
        return
    h.check(exp, 'a selection without pages is refused')
    check(h, kind, out, exp)
    h.reach('pages')


def secured(h, kind, via):
    """passwords and permissions"""
    upw, opw = h.choice('pws', ((b'', b'w'), (b'u', b''), (b'u', b'w')))
    perm = h.choice('perm', (0, 3, 4, 7))
    p = -64 + perm * 4
    docid = b'ab'
    o = ref_o(4, 16, opw, upw)
    u = ref_u(4, ref_key(4, 16, upw, o, p, docid, True), docid) + b'\0' * 16
    enc = b'/ID[(ab)(ab)]/Encrypt<</Filter/Standard/V 4/R 4/P %d/O<' % p + o.hex().encode() + b'>/U<' + u.hex().encode() + b'>/CF<<>>/StmF/Identity/StrF/Identity>>'
    src = h.vfile('in.pdf', document(File(), 2, extra=enc))
    opts = {}
    pw = b''
    form = h.choice('password', ('absent', 'none', 'given'))
    if form == 'none':
        opts['password'] = None
    elif form == 'given':
        pw = h.choice('pw', (b'', b'u', b'w', b'x', b'uw', b'\xe9'))
        opts['password'] = pw.decode('latin-1')
    strict = h.choice('check', (None, True, False))
    if strict is not None:
        opts['check_extractable'] = strict
    _, ok1, _, ok2 = ref_auth(h, 4, 16, pw, o, u, p, docid, True)
    good = h.or_(ok1, ok2)
    try:
        out = run(h, kind, via, src, **opts)
    except PDFPasswordIncorrect:
        h.check(h.not_(good), 'the right password is refused')
        h.reach('refused')
        return
    except PDFTextExtractionNotAllowed:
        h.check(good, 'a wrong password is accepted')
        h.check(strict is not False and not perm & 4, 'a document that allows extraction is refused')
        h.reach('forbidden')
        return
    h.check(good, 'a wrong password is accepted')
    h.check(strict is False or perm & 4, 'a document that forbids extraction is converted')
    check(h, kind, out, [0, 1])
    h.reach('opened')


def badchars(h, kind, via):
    """codes without text"""
    bad = h.choice('bad', (0, 1, None))
    code = h.int('code', 0, 31)
    src = h.vfile('in.pdf', document(File(), 2, bad=bad))
    opts = {}
    ignore = h.choice('ignore', (None, True, False))
    if ignore is not None:
        opts['ignore_bad_chars'] = ignore
    try:
        out = run(h, kind, via, src, **opts)
    except UnicodeNotDefined:
        h.check(bad is not None and not ignore, 'a document is refused for a code without text')
        h.reach('refused')
        return
    h.check(bad is None or ignore, 'a code without text is left out without being asked for')
    check(h, kind, out, [0, 1])
    h.reach('converted')


def names(h, kind, dirname, n, given):
    """where the output goes"""
    h.exactrepr(True)
    name = ''.join(chr(c) for c in [h.realize(ord(c)) for c in h.text('name', n, ((0x2d, 0x2e), (0x61, 0x61), (0x3042, 0x3042)))]) + h.choice('ext', ('', '.pdf', '.PDF', '.a-b', '.' + kind))
    h.assume(name.strip('.') != '')
    data = document(File(), 1)
    src = h.vfile(dirname + name, data)
    stem, dot, ext = name.rpartition('.')
    if given is None:
        # the last extension is replaced
        ok = dot == '.' and ext != '' and '-' not in ext and ext != kind
        want = src[:len(src) - len(name)] + stem + '.' + kind
        opts = {}
    else:
        want = h.outpath(given.replace('%s', kind))
        ok = given.endswith('%s')
        opts = {'output_file': want}
    try:
        convert_file(src, out_type=kind, **opts)
    except ConverterException:
        h.check(not ok, 'the output is refused')
        h.check(given is None or h.readfile(want) is None, 'a refused output is written')
        h.reach('refused')
    else:
        h.check(ok, 'an output whose name does not match its type')
        check(h, kind, want, [0])
        h.reach('written')
    h.check(h.readfile(src) == data, 'the document is left alone')


def unknown(h, like, at):
    """types that are none of the library's"""
    c = h.text('letter', 1, ((0x2e, 0x2e), (0x61, 0x7a), (0x3042, 0x3042)))
    kind = like[:at] + c + like[at + 1:]
    h.assume(h.and_(*[h.not_(h.eq(kind, k)) for k in KINDS]))
    src = h.vfile('in.pdf', document(File(), 1))
    out = h.choice('output', (None, h.outpath('out.')))
    try:
        convert_file(src, output_file=out and out + kind, out_type=kind)
        h.fail('an unknown type is converted')
    except ConverterException:
        h.reach('refused')


def cases(tier):
    out = []
    for k in KINDS:
        for via in ('file', 'direct'):
            if k == 'yml' and via == 'direct':
                continue
            for n in (0, 1, 2):
                if n == 2 and tier == 'quick' and via == 'direct':
                    continue
                out.append(Case('select-%s-%s-%d' % (k, via, n), select, dict(kind=k, via=via, nsel=n), dict(pages=3, selected=n), ('pages', 'empty') if n else ('pages',)))
            if via == 'file' or tier != 'quick':
                out.append(Case('secured-%s-%s' % (k, via), secured, dict(kind=k, via=via), dict(pages=2, password=1), ('opened', 'refused', 'forbidden')))
            out.append(Case('badchars-%s-%s' % (k, via), badchars, dict(kind=k, via=via), dict(pages=2), ('converted', 'refused')))
        for d in ('', 'a.b/', 'd/'):
            out.append(Case('names-%s-%s' % (k, d.strip('/') or 'here'), names, dict(kind=k, dirname=d, n=1 if tier == 'quick' else 2, given=None), dict(name=2), ('written', 'refused')))
        for i, g in enumerate(('o.%s', 'o.%sx', '%s/o', 'o.a', 'p.%s')):
            out.append(Case('given-%s-%d' % (k, i), names, dict(kind=k, dirname='', n=1, given=g), dict(name=2), ('written' if g.endswith('%s') else 'refused',)))
    for k in KINDS + ('', 'pdf'):
        for i in range(len(k) + 1) if tier != 'quick' else (0, len(k)):
            out.append(Case('unknown-%s-%d' % (k or 'none', i), unknown, dict(like=k, at=i), dict(letter=1), ('refused',)))
    return out
