from symex.hapi import Case
from pdfmajor.execptions import PDFNotImplementedError
from pdfmajor.utils.generic import apply_png_predictor


def paeth(h, a, b, c):
    """PNG specification, section 9.4"""
    p = a + b - c
    pa, pb, pc = abs(p - a), abs(p - b), abs(p - c)
    return h.ite(h.and_(pa <= pb, pa <= pc), a, h.ite(pb <= pc, b, c))


def ref(h, fts, rows, bpp):
    prev = [0] * len(rows[0])
    out = []
    for ft, row in zip(fts, rows):
        cur = []
        for j in range(len(row)):
            a = cur[j - bpp] if j >= bpp else 0
            b = prev[j]
            c = prev[j - bpp] if j >= bpp else 0
            if ft == 0:
                x = 0
            elif ft == 1:
                x = a
            elif ft == 2:
                x = b
            elif ft == 3:
                x = (a + b) // 2
            else:
                x = paeth(h, a, b, c)
            cur.append((row[j] + x) % 256)
        out += cur
        prev = cur
    return bytes(out)


def png(h, colors, columns, nrows, types=range(5), first=range(5), bits=8):
    bpp = max(1, colors * bits // 8)
    nb = (colors * columns * bits + 7) // 8
    fts = []
    rows = []
    data = b''
    for r in range(nrows):
        ft = h.choice('ft%d' % r, first if r == 0 else types)
        row = h.bytes('row%d' % r, nb)
        fts.append(ft)
        rows.append(row)
        data += bytes([ft]) + row
    pred = h.choice('pred', (10, 15))
    got = apply_png_predictor(pred, colors, columns, bits, data)
    want = ref(h, fts, rows, bpp) if nrows else b''
    h.observe('out', got)
    h.check(len(got) == len(want), 'length')
    for i in range(len(want)):
        h.equal(got[i], want[i], 'byte')
    h.reach('end')


def badtype(h):
    """a filter type PNG does not define is refused, not decoded to something"""
    ft = h.int('ft', 5, 255)
    try:
        apply_png_predictor(15, 1, 2, 8, bytes([ft]) + h.bytes('row', 2))
    except PDFNotImplementedError:
        h.reach('end')
        return
    h.fail('undefined filter type accepted')


def cases(tier):
    q = tier == 'quick'
    out = []
    for colors in range(1, 5):
        for columns in (1, 2, 3):
            for nrows in (1, 2, 3):
                kw = {}
                b = 'every filter-type sequence, all data'
                if nrows == 3 and (columns > 1 or colors > (1 if q else 2)):
                    continue
                if nrows == 2 and columns > 1:
                    # one row decoded from an arbitrary previous row
                    kw = {'first': (0,)}
                    b = 'any filter type in the second row after an arbitrary first row, all data'
                    if columns * colors > (2 if q else 4):
                        kw['types'] = (0, 1, 2, 3)
                        b = 'filter types 0 to 3 in the second row after an arbitrary first row, all data'
                out.append(Case('c%dx%dr%d' % (colors, columns, nrows), png, dict(kw, colors=colors, columns=columns, nrows=nrows),
                                '%d components, %d columns, %d rows, %s' % (colors, columns, nrows, b), ['end']))
    out.append(Case('wide', png, {'colors': 1, 'columns': 5 if q else 8, 'nrows': 2, 'types': range(4)}, 'wide rows', ['end']))
    out.append(Case('tall', png, {'colors': 1, 'columns': 1, 'nrows': 4 if q else 5}, 'many rows', ['end']))
    out.append(Case('tall2', png, {'colors': 2, 'columns': 2, 'nrows': 3, 'types': (1, 2, 3) if q else range(5)}, '3 rows of 2 pixels', ['end']))
    for bits, colors, columns in ((1, 1, 9), (2, 3, 2), (4, 1, 3), (4, 2, 1), (16, 1, 2), (16, 3, 1)):
        out.append(Case('bits%d-%dx%d' % (bits, colors, columns), png, {'colors': colors, 'columns': columns, 'nrows': 2, 'bits': bits, 'first': (0,), 'types': range(4) if bits == 16 else range(5)},
                        '%d bits per component' % bits, ['end']))
    out.append(Case('empty', png, {'colors': 3, 'columns': 2, 'nrows': 0}, 'no data', ['end']))
    out.append(Case('badtype', badtype, {}, 'filter types 5 to 255', ['end']))
    return out
