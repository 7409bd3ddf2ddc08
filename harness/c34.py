import struct
from symex.hapi import Case
from harness.content import *
from harness.c33 import ref, form, LINEAR
from pdfmajor.interpreter import LTImage, LTXObject

ASSUMPTIONS = ['matrices are real numbers with arbitrary values (arithmetic is exact; rounding of floats is outside)',
               'bitmaps of up to 9 pixels a row and 3 rows (thorough: 33 and 4), all contents', 'the image data is given unfiltered or run-length or hexadecimal encoded (the filters are other properties)',
               'files are written to a file system model; replay writes real files']

SPACES = {'DeviceGray': 'G', 'DeviceRGB': 'RGB', 'DeviceCMYK': 'CMYK'}


def image(w, h, bpc, cs, data, indirect=False, **kw):
    r = ref if indirect else (lambda x: x)
    attrs = {'Type': LIT('XObject'), 'Subtype': r(LIT('Image')), 'Width': r(w), 'Height': r(h)}
    if bpc is not None:
        attrs['BitsPerComponent'] = r(bpc)
    if cs is not None:
        attrs['ColorSpace'] = r(cs)
    attrs.update(kw)
    return stream(data, attrs)


def paint(h, how, w, ht, bpc, cs, data, src=b'', ctm=(1, 0, 0, 1, 0, 0), vals=None, mask=None, extra=None):
    """the items painted by src, an image and a following line"""
    vals = dict(vals or {})
    vals.update({'w': w, 'h': ht, 'b': bpc})
    if how in ('object', 'ref'):
        obj = image(w, ht, bpc, cs, data, how == 'ref', **(extra or {}))
        if mask is not None:
            obj.attrs['ImageMask'] = mask
        res = {'XObject': {'I': ref(obj) if how == 'ref' else obj}}
        return run(new_state(res, ctm), src + b'/I Do 1 1 m 2 3 l S', vals)
    short = how == 'short'
    name = literal(cs)
    d = b'/W Vw /H Vh ' if short else b'/Width Vw /Height Vh '
    if bpc is not None:
        d += b'/BPC Vb ' if short else b'/BitsPerComponent Vb '
    if cs is not None:
        d += (b'/CS /' + SPACES[name].encode() if short else b'/ColorSpace /' + name.encode()) + b' '
    if mask is not None:
        d += (b'/IM ' if short else b'/ImageMask ') + (b'true ' if mask else b'false ')
    return run(new_state({}, ctm), src + b'BI ' + d + b'ID ' + data + b'\nEI 1 1 m 2 3 l S', vals)


def literal(cs):
    return None if cs is None else cs.name


def check_box(h, item, m, label='box of an image'):
    samebox(h, item, [apply(m, (x, y)) for x in (0, 1) for y in (0, 1)], label)


def place(h, lin, how):
    """the box is the transformed unit square, the size, depth and colour space are those declared"""
    base = list(LINEAR[lin]) + [h.real('e', -1000, 1000), h.real('f', -1000, 1000)]
    vals = {'c%d' % i: h.real('c%d' % i, -1000, 1000) for i in range(6)}
    w, ht, bpc = h.int('w', 1, 10000), h.int('h', 1, 10000), h.int('b', 1, 16)
    cs = h.choice('cs', ('DeviceGray', 'DeviceRGB', 'DeviceCMYK', None))
    mask = h.choice('mask', (None, True, False))
    if mask:
        cs = None
    given = h.choice('given', (True, False)) if mask else True
    items = paint(h, how, w, ht, bpc if given else None, None if cs is None else LIT(cs), b'\x12', b'q Vc0 Vc1 Vc2 Vc3 Vc4 Vc5 cm ', base, vals, mask)
    h.check(len(items) == 2 and isinstance(items[0], LTImage), 'one item for an image')
    im = items[0]
    check_box(h, im, mult([vals['c%d' % i] for i in range(6)], base))
    h.equal(list(im.srcsize), [w, ht], 'pixel size')
    h.equal(im.bits, bpc if given else 1, 'depth')
    want = [None] if cs is None else [cs if how != 'short' else SPACES[cs]]
    h.check([getattr(c, 'name', c) for c in im.colorspace] == want, 'colour space')
    h.check(bool(im.imagemask) == bool(mask), 'image mask')
    h.reach('placed')


def inside(h):
    """images of forms, several images, array colour spaces"""
    how = h.choice('how', ('plain', 'form', 'nested'))
    vals = {'c%d' % i: h.real('c%d' % i, -1000, 1000) for i in range(6)}
    cm = [vals['c%d' % i] for i in range(6)]
    m = [0, 2, -3, 1, 7, 8]
    spaces = [[LIT('Indexed'), LIT('DeviceRGB'), 1, b'abcdef'], LIT('DeviceGray')]
    a, b = image(2, 3, 8, spaces[0], b'aaaaaa'), image(4, 5, 1, spaces[1], b'bbbbb')
    res = {'XObject': {'A': a, 'B': b}}
    src = b'q Vc0 Vc1 Vc2 Vc3 Vc4 Vc5 cm /A Do Q /B Do'
    full = []
    if how != 'plain':
        res = {'XObject': {'F': form(src, Resources=res, Matrix=m)}}
        src = b'/F Do'
        full.append(m)
    if how == 'nested':
        res = {'XObject': {'F': form(src, Resources=res, Matrix=m)}}
        full.append(m)
    items = run(new_state(res), src, vals)
    outer = [1, 0, 0, 1, 0, 0]
    for x in full:
        outer = mult(x, outer)
        h.check(len(items) == 1 and isinstance(items[0], LTXObject), 'form')
        items = list(items[0])
    h.check(len(items) == 2 and all(isinstance(i, LTImage) for i in items), 'one item for an image')
    check_box(h, items[0], mult(cm, outer))
    check_box(h, items[1], outer)
    h.check(tuple(items[0].srcsize) == (2, 3) and tuple(items[1].srcsize) == (4, 5), 'pixel size')
    h.check(items[0].colorspace[0] is LIT('Indexed') and items[1].colorspace[0] is LIT('DeviceGray'), 'colour space')
    h.reach('placed')


def bitmap(data):
    """width, height, depth, palette and rows (top to bottom) of a bitmap file"""
    if len(data) < 54 or bytes(data[:2]) != b'BM':
        return None
    size, _, offset = struct.unpack('<III', bytes(data[2:14]))
    hs, w, ht, planes, bpp, comp, imgsize = struct.unpack('<IiiHHII', bytes(data[14:38]))
    ncol = struct.unpack('<I', bytes(data[46:50]))[0]
    if size != len(data) or planes != 1 or comp != 0 or hs != 40:
        return None
    if bpp < 16:
        ncol = ncol or 1 << bpp
    step = (w * bpp + 31) // 32 * 4
    if offset < 54 + 4 * ncol or offset + step * ht > len(data) or imgsize not in (0, step * ht):
        return None
    pal = [bytes(data[54 + 4 * i:57 + 4 * i]) for i in range(ncol)]
    rows = [data[offset + step * (ht - 1 - y):offset + step * (ht - y)] for y in range(ht)]
    return w, ht, bpp, pal, rows


def export(h, kind, how, ws, hs, enc='none'):
    """rows of an exported bitmap"""
    w, ht = h.choice('w', ws), h.choice('ht', hs)
    line = {'bit': (w + 7) // 8, 'grey': w, 'rgb': 3 * w}[kind]
    n = line * ht
    alphabet = None
    if how in ('short', 'long'):
        # not the end of the data
        alphabet = bytes(x for x in range(256) if x not in b'EI \n\r\t\0\x0c')
    data = h.bytes('d', n, alphabet)
    coded, kw = data, {}
    if enc == 'run':
        coded, kw = h_concat(bytes([n - 1]), data, b'\x80'), {'Filter': LIT('RunLengthDecode')}
    elif enc == 'none-list':
        kw = {'Filter': []}
    cs = {'bit': 'DeviceGray', 'grey': 'DeviceGray', 'rgb': 'DeviceRGB'}[kind]
    bits = 1 if kind == 'bit' else 8
    mask = None
    given = True
    if kind == 'bit':
        mode = h.choice('mode', ('plain', 'mask'))
        if mode == 'mask':
            cs, mask = None, True
    items = paint(h, how, w, ht, bits, None if cs is None else LIT(cs), coded, mask=mask, extra=kw)
    h.check(len(items) == 2 and isinstance(items[0], LTImage), 'one item for an image')
    outdir = h.outpath('')
    named = h.choice('named', (False, True))
    path = items[0].save_image(outdir, 'img') if named else items[0].save_image(outdir)
    got = h.readfile(path)
    h.check(got is not None, 'a written file')
    bm = bitmap(got)
    h.check(bm is not None, 'a bitmap file')
    w1, h1, bpp, pal, rows = bm
    h.check((w1, h1) == (w, ht), 'pixel size of the bitmap')
    h.check(bpp == {'bit': 1, 'grey': 8, 'rgb': 24}[kind], 'depth of the bitmap')
    if kind == 'bit':
        h.check(pal == [b'\0\0\0', b'\xff\xff\xff'], 'colours of the bitmap')
    elif kind == 'grey':
        h.check(pal == [bytes([i] * 3) for i in range(256)], 'colours of the bitmap')
    for y in range(ht):
        row = data[y * line:(y + 1) * line]
        if kind == 'rgb':
            for x in range(w):
                h.equal(rows[y][3 * x:3 * x + 3], row[3 * x + 2:3 * x + 3] + row[3 * x + 1:3 * x + 2] + row[3 * x:3 * x + 1], 'row of the bitmap')
        else:
            h.equal(rows[y][:line], row, 'row of the bitmap')
        h.check(all(rows[y][i] == 0 for i in range(len(row), len(rows[y]))), 'padding of a row')
    h.reach('exported')


def h_concat(*parts):
    out = parts[0]
    for p in parts[1:]:
        out = out + p
    return out


def other(h, ext):
    """data that is no bitmap is written as it is"""
    n = 4
    data = h.bytes('d', n)
    if ext == 'jpg':
        kw, bits, cs = {'Filter': LIT('DCTDecode')}, 8, 'DeviceRGB'
    else:
        kw, bits, cs = {}, 8, 'DeviceCMYK'
    items = paint(h, 'object', 1, 1, bits, LIT(cs), data, extra=kw)
    path = items[0].save_image(h.outpath(''), 'img')
    h.check(path.endswith('.' + ext), 'name of the file')
    h.equal(h.readfile(path), data, 'data of the file')
    h.reach('written')


def cases(tier):
    q = tier == 'quick'
    out = [Case('inside', inside, {}, 'every matrix', ['placed']),
           Case('jpg', other, {'ext': 'jpg'}, 'every data', ['written']), Case('img', other, {'ext': 'img'}, 'every data', ['written'])]
    for lin in LINEAR:
        for how in ('object', 'ref', 'short', 'long'):
            if not q or (lin, how) in (('id', 'object'), ('turn', 'ref'), ('skew', 'short'), ('flip', 'long')):
                out.append(Case('place-%s-%s' % (lin, how), place, {'lin': lin, 'how': how}, 'every matrix, size and depth', ['placed']))
    big = (1, 7, 8, 9) if q else (1, 7, 8, 9, 31, 32, 33)
    for how in ('object', 'ref', 'short', 'long'):
        out += [Case('bit-' + how, export, {'kind': 'bit', 'how': how, 'ws': big, 'hs': (1, 2, 3) if q else (1, 2, 4)}, 'up to %d x 3 pixels' % big[-1], ['exported']),
                Case('grey-' + how, export, {'kind': 'grey', 'how': how, 'ws': (1, 2, 4, 5), 'hs': (1, 2, 3)}, 'up to 5 x 3 pixels', ['exported']),
                Case('rgb-' + how, export, {'kind': 'rgb', 'how': how, 'ws': (1, 2, 3, 4), 'hs': (1, 2, 3)}, 'up to 4 x 3 pixels', ['exported'])]
    out += [Case('grey-run', export, {'kind': 'grey', 'how': 'object', 'ws': (3, 4), 'hs': (1, 2), 'enc': 'run'}, 'run-length encoded', ['exported']),
            Case('rgb-nofilter', export, {'kind': 'rgb', 'how': 'object', 'ws': (1,), 'hs': (2,), 'enc': 'none-list'}, 'an empty list of filters', ['exported'])]
    return out
