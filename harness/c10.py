from symex.hapi import Case
from pdfmajor.parser.PDFStream.util import rldecode


def ref(data):
    """RunLength per ISO 32000 7.4.5, lenient at a truncated end"""
    out = b''
    i = 0
    while i < len(data):
        n = data[i]
        i += 1
        if n == 128:
            break
        if n < 128:
            out += data[i:i + n + 1]
            i += n + 1
        else:
            if i >= len(data):
                break
            out += data[i:i + 1] * (257 - n)
            i += 1
    return out


def raw(h, n):
    d = h.bytes('d', n)
    got = rldecode(d)
    h.observe('out', got)
    h.equal(got, ref(d), 'decoded bytes')
    h.reach('end')


def cases(tier):
    out = []
    for n in range(0, 4 if tier == 'quick' else 5):
        out.append(Case('raw%d' % n, raw, {'n': n}, 'every encoded input of exactly %d bytes' % n, ['end']))
    return out
