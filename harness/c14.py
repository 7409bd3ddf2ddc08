from symex.hapi import Case
from pdfmajor.execptions import PDFNotImplementedError
from pdfmajor.parser.PDFStream import PDFStream
from pdfmajor.parser.PDFStream.PDFObjRef import PDFObjRef
from pdfmajor.parser.PSStackParser import LIT
from harness import c13

FULL = {'AHx': 'ASCIIHexDecode', 'RL': 'RunLengthDecode', 'LZW': 'LZWDecode', 'Fl': 'FlateDecode', 'A85': 'ASCII85Decode', 'DCT': 'DCTDecode', 'CCF': 'CCITTFaxDecode'}


class Doc:
    def __init__(self):
        self.objs = {}

    def getobj(self, n):
        return self.objs[n]

    def ref(self, obj):
        n = len(self.objs) + 1
        self.objs[n] = obj
        return PDFObjRef(self, n, 0)


def ahx(h, d):
    return b''.join(bytes([b'0123456789abcdef'[b // 16], b'0123456789ABCDEF'[b % 16]]) for b in d) + b'>'


def rl(h, d):
    return bytes([len(d) - 1]) + d + b'\x80'


def lzw(h, d):
    """clear code before every byte: 9-bit codes throughout"""
    bits = []
    for c in [256] + list(d) + [257]:
        bits += [(c >> k) & 1 for k in range(8, -1, -1)]
    bits += [0] * (-len(bits) % 8)
    return bytes([sum(bits[i + k] << (7 - k) for k in range(8)) for i in range(0, len(bits), 8)])


def a85(h, d):
    out = []
    for i in range(0, len(d), 4):
        g = d[i:i + 4]
        v = 0
        for b in list(g) + [0] * (4 - len(g)):
            v = v * 256 + b
        out += [(v // 85 ** k) % 85 + 33 for k in range(4, -1, -1)][:len(g) + 1]
    return bytes(out) + b'~>'


ENC = {'AHx': ahx, 'RL': rl, 'LZW': lzw, 'A85': a85, 'DCT': lambda h, d: d, 'Fl': lambda h, d: h.deflate(d)}


def up(d, columns):
    """PNG-encode: rows alternate between the Up and Sub filters"""
    out = []
    prev = [0] * columns
    for r, i in enumerate(range(0, len(d), columns)):
        row = list(d[i:i + columns])
        if r % 2 == 0:
            out += [2] + [(a - b) % 256 for a, b in zip(row, prev)]
        else:
            out += [1] + [(a - b) % 256 for a, b in zip(row, [0] + row)]
        prev = row
    return bytes(out)


def name(h, f, full):
    return LIT(f) if not full or h.choice('abbr_' + f, (False, True)) else LIT(FULL[f])


def chain(h, n, fs, preds):
    """declared filters fs (first applied first); preds: columns of a PNG predictor or None"""
    data = h.bytes('data', n, b'\x00\x01\x54\x7f\xfe\xff' if 'A85' in fs else None)
    doc = Doc()
    raw = data
    params = []
    for f, p in reversed(list(zip(fs, preds))):
        if p == 1:
            params.insert(0, {'Predictor': 1})
        elif p:
            raw = up(raw, p)
            params.insert(0, {'Predictor': 12, 'Columns': p})
        else:
            params.insert(0, None)
        raw = ENC[f](h, raw)
    slow = 'A85' in fs or 'LZW' in fs
    names = [name(h, f, len(fs) < 3) for f in fs]
    attrs = {}
    fkey = h.choice('fkey', ('Filter', 'F') if len(fs) == 1 and not slow else ('Filter',))
    pkey = h.choice('pkey', ('DecodeParms', 'DP', 'FDecodeParms') if preds == (2,) else ('DecodeParms', 'DP') if not slow else ('DecodeParms',))
    form = h.choice('form', ('list', 'single')[:3 - len(fs)]) if slow else h.choice('form', ('list', 'reflist', 'refitems') + (('single', 'refsingle') if len(fs) == 1 else ()))
    if form == 'list':
        attrs[fkey] = names
        ps = params
    elif form == 'reflist':
        attrs[fkey] = doc.ref(names)
        ps = doc.ref(params)
    elif form == 'refitems':
        attrs[fkey] = [doc.ref(x) for x in names]
        ps = [p and doc.ref(p) for p in params]
    elif form == 'single':
        attrs[fkey] = names[0]
        ps = params[0]
    else:
        attrs[fkey] = doc.ref(names[0])
        ps = params[0] and doc.ref(params[0])
    if any(params) or (form in ('list', 'refitems') and h.choice('parms', (True, False))):
        attrs[pkey] = ps
    calls = []
    enc = h.choice('encrypted', (False, True))
    key = h.int('key', 0, 255) if not slow else 0x5a

    def decipher(objid, genno, d, at=None):
        calls.append((objid, genno, at is attrs))
        return bytes(b ^ key for b in d)
    if enc:
        raw = bytes(b ^ key for b in raw)
    st = PDFStream(attrs, raw, decipher=decipher if enc else None)
    st.set_objid(7, 3)
    h.equal(st.get_rawdata(), raw, 'raw data')
    got = st.get_data()
    h.observe('data', got)
    h.equal(got, data, 'decoded data')
    h.equal(st.get_data(), data, 'decoded again')
    h.equal(calls, [(7, 3, True)] if enc else [], 'decryption calls')
    h.reach('end')


def order(h, n, length):
    """raw data that both orders of the filters accept"""
    fs = [h.choice('f%d' % i, ('AHx', 'RL', 'DCT')) for i in range(length)]
    data = h.bytes('data', n)
    raw = data
    for f in reversed(fs):
        raw = ENC[f](h, raw)
    st = PDFStream({'Filter': [LIT(FULL[f]) for f in fs]}, raw)
    h.equal(st.get_data(), data, 'decoded data')
    h.reach('end')


def nofilter(h, n):
    data = h.bytes('data', n)
    attrs = h.choice('attrs', ({}, {'Filter': []}, {'Filter': None}, {'DecodeParms': {'Predictor': 12}}))
    st = PDFStream(attrs, data)
    h.equal(st.get_data(), data, 'data without filter')
    h.equal(st.get_data(), data, 'data again')
    h.reach('end')


def unknown(h, n):
    """an unknown filter anywhere in the chain, or an unknown predictor"""
    data = h.bytes('data', n)
    kind = h.choice('kind', ('filter', 'filter1', 'filter2', 'crypt', 'predictor', 'row', 'fax', 'str'))
    if kind == 'predictor':
        p = h.int('pred', 2, 9)
        attrs = {'Filter': LIT('AHx'), 'DecodeParms': {'Predictor': p, 'Columns': n}}
        raw = ahx(h, data)
    elif kind == 'row':
        p = h.int('rowfilter', 5, 255)
        attrs = {'Filter': LIT('AHx'), 'DecodeParms': {'Predictor': 15, 'Columns': n}}
        raw = ahx(h, bytes([p]) + data)
    elif kind == 'fax':
        attrs = {'Filter': LIT('CCF'), 'DecodeParms': {'Columns': 8}}
        k = h.choice('K', (None, 0, 4))
        if k is not None:
            attrs['DecodeParms']['K'] = k
        raw = data
    else:
        bad = {'str': b'FlateDecode', 'crypt': LIT('Crypt')}.get(kind, LIT('Bogus'))
        attrs = {'Filter': {'filter1': [LIT('AHx'), bad], 'filter2': [bad, LIT('AHx')]}.get(kind, bad)}
        raw = ahx(h, data)
    st = PDFStream(attrs, raw)
    for i in range(2):
        try:
            got = st.get_data()
        except PDFNotImplementedError:
            pass
        else:
            h.fail('unsupported filter or predictor accepted')
    h.reach('end')


def badflate(h, n):
    """data that no zlib stream starts with decodes to nothing"""
    data = h.bytes('data', n)
    if n > 1:
        h.assume((data[0] * 256 + data[1]) % 31 != 0)
    h.equal(PDFStream({'Filter': LIT('Fl')}, data).get_data(), b'', 'corrupt flate data')
    h.reach('end')


def fax(h, w):
    """the parameters of a CCITT filter in second place"""
    px = [h.realize(h.int('p%d' % i, 0, 1)) for i in range(w)]
    bits = c13.encode_line([1] * w, px, w) + c13.EOFB
    raw = c13.pack(bits)
    blk = h.choice('black', (False, True))
    params = {'K': -1, 'Columns': w, 'BlackIs1': blk}
    st = PDFStream({'Filter': [LIT('AHx'), LIT('CCF')], 'DecodeParms': [None, params]}, ahx(h, raw))
    h.equal(st.get_data(), c13.expect([px], blk), 'fax image')
    h.reach('end')


def cases(tier):
    q = tier == 'quick'
    out = []
    L = [('AHx',), ('RL',), ('LZW',), ('Fl',), ('A85',), ('DCT',)]
    P = [('AHx', 'RL'), ('RL', 'AHx'), ('A85', 'LZW'), ('LZW', 'AHx'), ('AHx', 'Fl'), ('AHx', 'DCT'), ('DCT', 'AHx')]
    T = [('AHx', 'RL', 'AHx'), ('AHx', 'Fl', 'RL')]
    for fs in L + P + T + ([] if q else [('A85', 'Fl'), ('RL', 'A85'), ('AHx', 'LZW', 'RL'), ('AHx', 'AHx', 'AHx'), ('RL', 'AHx', 'RL', 'AHx')]):
        for preds in ((None,) * len(fs),) + (((2,) * len(fs), (None,) * (len(fs) - 1) + (2,), (2,) + (None,) * (len(fs) - 1), (1,) + (2,) * (len(fs) - 1)) if len(fs) == 2 else ((2,), (1,)) if len(fs) == 1 else ((2, None, 1),)):
            preds = (preds + (None,) * 9)[:len(fs)]
            if 2 in preds and 'DCT' in fs:
                continue
            if 'A85' in fs and (2 in preds or 1 in preds) or 'LZW' in fs and q and len(fs) > 1 and 2 in preds:
                continue
            if preds.count(2) == 2 and fs[1] != 'AHx' and q:
                continue
            n = 1 if 'A85' in fs and q and 2 not in preds else 2
            if len(fs) == 1 and preds == (2,) and 'A85' not in fs and (fs not in (('LZW',), ('AHx',)) or not q):
                n = 4
            if fs == ('A85',) and not q:
                n = 4
            inner = preds[:-1]
            if 2 in inner:      # the encoded data between two filters must fill whole rows
                fx = list(preds)
                for i in range(len(fs) - 2, -1, -1):
                    if fx[i] == 2:
                        m = {'AHx': lambda k: 2 * k + 1, 'RL': lambda k: k + 2, 'LZW': None, 'Fl': lambda k: k + 11}
                        k = n
                        ok = True
                        for jf, jp in reversed(list(zip(fs, fx))[i + 1:]):
                            if jp and jp != 1:
                                k = k // jp * (jp + 1)
                            if m.get(jf) is None:
                                ok = False
                                break
                            k = m[jf](k)
                        fx[i] = k if ok else None
                preds = tuple(fx)
            out.append(Case('chain-%s-%s' % ('+'.join(fs), ''.join(str(p or 0) for p in preds)), chain, {'n': n, 'fs': fs, 'preds': preds},
                            '%d arbitrary bytes through %s; every parameter form; decryption key' % (n, '+'.join(fs)), ['end']))
    out.append(Case('order', order, {'n': 1, 'length': 3 if q else 4}, 'every order of three reversible filters', ['end']))
    for n in (0, 2):
        out.append(Case('nofilter%d' % n, nofilter, {'n': n}, 'no filters', ['end']))
    out.append(Case('unknown', unknown, {'n': 2}, 'unsupported filters and predictors', ['end']))
    for n in (0, 1, 3):
        out.append(Case('badflate%d' % n, badflate, {'n': n}, 'data without zlib header', ['end']))
    out.append(Case('fax', fax, {'w': 3}, 'CCITT parameters in second place', ['end']))
    return out
