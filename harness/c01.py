from symex.hapi import Case
from harness.lib import *

PAD = b' '


def splitall(h, n):
    d = h.bytes('d', n)
    whole = tokens(d)
    got = tokens(d, allcuts(h, n))
    h.observe('tokens', whole)
    h.equal(got, whole, 'tokens')
    h.reach('end')


def split(h, n, alphabet=None, pre=b'', post=b''):
    d = pre + h.bytes('d', n, alphabet) + post
    whole = tokens(d)
    lo = len(pre)
    hi = lo + n + (1 if post else 0)
    mode = h.choice('cuts', list(range(max(lo, 1), min(hi, len(d)))) + ['all'])
    cuts = list(range(1, len(d))) if mode == 'all' else [mode]
    got = tokens(d, cuts)
    h.observe('tokens', whole)
    h.equal(got, whole, 'tokens')
    h.reach('end')


ALPH = {
    'string': b'()\\017n\r\nZ',
    'hex': b'<>0aF \n/',
    'name': b'/#4fZ \xc3\xa9',
    'number': b'+-.19 e/',
    'word': b'trueX%\r\n <',
}
PRE = {'string': b'(', 'hex': b'<', 'name': b'/', 'number': b'', 'word': b''}


def edge(h, n, alphabet, pre):
    """the real 4096-byte buffer, the symbolic bytes around its edge"""
    k = h.choice('shift', range(0, n + 1))
    pad = b' ' * (4096 - k - len(pre))
    body = pre + h.bytes('d', n, alphabet)
    got = tokens(pad + body)
    want = [(p + len(pad), t) for p, t in tokens(body)]
    h.observe('tokens', got)
    h.equal(got, want, 'tokens')
    h.reach('end')


def cases(tier):
    q = tier == 'quick'
    out = []
    for n in range(1, 4 if q else 5):
        out.append(Case('any%d' % n, splitall, {'n': n},
                        'every %d-byte input, every way of cutting it into reads' % n, ['end']))
    for k, a in ALPH.items():
        n = 4 if q else 5
        out.append(Case('%s%d' % (k, n), split, {'n': n, 'alphabet': a, 'pre': PRE[k], 'post': b' 7 '},
                        '%r + every %d bytes over %r, every single cut and 1-byte reads' % (PRE[k], n, a), ['end']))
        n = 3 if q else 4
        out.append(Case('%s-eof%d' % (k, n), split, {'n': n, 'alphabet': a, 'pre': PRE[k]},
                        'as above, the data ending right after', ['end']))
        n = 3 if q else 4
        out.append(Case('edge-%s%d' % (k, n), edge, {'n': n, 'alphabet': a, 'pre': PRE[k]},
                        '%d bytes over %r around offset 4096 with the real buffer size' % (n, a), ['end']))
    return out
