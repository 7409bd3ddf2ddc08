import hashlib
import struct
from Crypto.Cipher import ARC4, AES
from symex.hapi import Case
from harness.lib import *
from harness.docs import File, open_doc
from pdfmajor.parser.PSStackParser import LIT
from pdfmajor.parser.PDFParser import PDFParser
from pdfmajor.parser.PDFPage import PDFPage
from pdfmajor.parser.PDFDocument.PDFSecurityHandler import PDFStandardSecurityHandler, PDFStandardSecurityHandlerV4, PDFStandardSecurityHandlerV5
from pdfmajor.execptions import PDFPasswordIncorrect, PDFEncryptionError, PDFTextExtractionNotAllowed

ASSUMPTIONS = ['MD5, SHA-256, RC4 key streams and AES blocks are uninterpreted functions of their inputs (functionally consistent, AES a permutation per key); '
               'the values of the encryption dictionary are computed by an independent implementation of the specification']
PAD = bytes([0x28, 0xBF, 0x4E, 0x5E, 0x4E, 0x75, 0x8A, 0x41, 0x64, 0x00, 0x4E, 0x56, 0xFF, 0xFA, 0x01, 0x08,
             0x2E, 0x2E, 0x00, 0xB6, 0xD0, 0x68, 0x3E, 0x80, 0x2F, 0x0C, 0xA9, 0xFE, 0x64, 0x53, 0x69, 0x7A])


def md5(b):
    return hashlib.md5(b).digest()


def sha(b):
    return hashlib.sha256(b).digest()


def rc4(k, d):
    return ARC4.new(k).encrypt(d)


def xkey(k, i):
    return bytes([c ^ i for c in k])


def padded(pw):
    return (pw + PAD)[:32]


def p32(p):
    return bytes([(p >> s) & 255 for s in (0, 8, 16, 24)])


def ref_key(r, n, pw, o, p, docid, meta):
    """file key of a user password"""
    d = md5(padded(pw) + o + p32(p) + docid + (b'\xff\xff\xff\xff' if r >= 4 and not meta else b''))
    if r >= 3:
        for _ in range(50):
            d = md5(d[:n])
    return d[:n]


def ref_u(r, key, docid):
    if r == 2:
        return rc4(key, PAD)
    d = md5(PAD + docid)
    for i in range(20):
        d = rc4(xkey(key, i), d)
    return d


def ref_okey(r, n, opw):
    d = md5(padded(opw))
    if r >= 3:
        for _ in range(50):
            d = md5(d)
    return d[:n]


def ref_o(r, n, opw, upw):
    k = ref_okey(r, n, opw)
    d = padded(upw)
    for i in range(20 if r >= 3 else 1):
        d = rc4(xkey(k, i), d)
    return d


def ref_auth(h, r, n, pw, o, u, p, docid, meta):
    """key and acceptance of a password by the specification's algorithms"""
    k = ref_key(r, n, pw, o, p, docid, meta)
    m = 32 if r == 2 else 16
    ok1 = h.eq(ref_u(r, k, docid)[:m], u[:m])
    ok = ref_okey(r, n, pw)
    d = o
    for i in range(19 if r >= 3 else 0, -1, -1):
        d = rc4(xkey(ok, i), d)
    k2 = ref_key(r, n, d, o, p, docid, meta)
    ok2 = h.eq(ref_u(r, k2, docid)[:m], u[:m])
    return k, ok1, k2, ok2


def params(h, v, r, length, meta, p, fix=False):
    d = {'Filter': LIT('Standard'), 'V': v, 'R': r, 'P': p}
    if length is not None:
        d['Length'] = length
    if v >= 4:
        cfm = 'AESV3' if v == 5 else 'AESV2' if fix else h.choice('cfm', ('V2', 'AESV2'))
        d['CF'] = {'StdCF': {'CFM': LIT(cfm), 'AuthEvent': LIT('DocOpen'), 'Length': 16}}
        name = 'StdCF' if fix else h.choice('crypt', ('StdCF', 'Identity'))
        d['StmF'] = LIT(name)
        d['StrF'] = LIT(name)
        if not meta:
            d['EncryptMetadata'] = False
    return d


def flags(h, handler, p):
    for name, bit in (('printable', 3), ('modifiable', 4), ('extractable', 5)):
        h.equal(getattr(handler, 'is_' + name)(), h.eq((p >> (bit - 1)) & 1, 1), 'permission ' + name)


def text(h, pw):
    """a password as the user types it"""
    return pw.decode('latin-1')


def rc4doc(h, v, r, n, ulen, olen, plen, which, meta):
    """revisions 2 to 4"""
    upw = h.bytes('user', ulen)
    opw = h.bytes('owner', olen)
    p = h.int('P', -2 ** 31, 2 ** 32 - 1) if which != 'any' else -44
    docid = h.bytes('id', 2) if which != 'any' or r < 3 else b'ab'
    o = ref_o(r, n, opw, upw)
    key = ref_key(r, n, upw, o, p, docid, meta)
    u = ref_u(r, key, docid)
    if r >= 3:
        u = u + h.bytes('upad', 1) + b'\0' * 15
    d = params(h, v, r, None if v in (1, 4) else n * 8, meta, p, which == 'any')
    d['O'] = o
    d['U'] = u
    pw = {'user': upw, 'owner': opw}.get(which)
    if which == 'any':
        pw = h.bytes('pw', plen)
    cls = {1: PDFStandardSecurityHandler, 2: PDFStandardSecurityHandler, 4: PDFStandardSecurityHandlerV4}[v]
    try:
        handler = cls([docid, b'x'], d, text(h, pw))
    except PDFPasswordIncorrect:
        handler = None
    if which in ('user', 'owner'):
        h.check(handler is not None, 'the %s password opens the document' % which)
    k1, ok1, k2, ok2 = ref_auth(h, r, n, pw, o, u, p, docid, meta)
    if handler is None:
        h.check(h.not_(h.or_(ok1, ok2)), 'a password of the document is rejected')
        h.reach('rejected')
        return
    h.check(h.or_(ok1, ok2), 'a wrong password opens the document')
    if h.branch(ok1):
        h.equal(handler.key, k1, 'file key')
    else:
        h.equal(handler.key, k2, 'file key')
    if which == 'user':
        h.equal(handler.key, key, 'file key of the user password')
    flags(h, handler, p)
    h.reach('opened')


def aesdoc(h, ulen, olen, plen, which):
    """revision 5"""
    def enc(pw):
        return pw.encode('utf-8')[:127]
    rng = ((0, 0x7f), (0xa0, 0x3ff), (0x2000, 0x20ff))
    upw = h.text('user', ulen, rng)
    opw = h.text('owner', olen, rng)
    p = h.int('P', -2 ** 31, 2 ** 32 - 1)
    uv, uk, ov, ok = [h.bytes('salt%d' % i, 2) + b'saltxx' for i in range(4)]
    fk = h.bytes('key', 4) + b'0123456789abcdefghijklmnopqr'
    z = b'\0' * 16
    u = sha(enc(upw) + uv) + uv + uk
    ue = AES.new(sha(enc(upw) + uk), AES.MODE_CBC, IV=z).encrypt(fk)
    o = sha(enc(opw) + ov + u) + ov + ok
    oe = AES.new(sha(enc(opw) + ok + u), AES.MODE_CBC, IV=z).encrypt(fk)
    d = params(h, 5, 5, None, True, p)
    d.update({'O': o, 'U': u, 'OE': oe, 'UE': ue})
    pw = {'user': upw, 'owner': opw}.get(which)
    if which == 'any':
        pw = h.text('pw', plen, rng)
    isu = h.eq(sha(enc(pw) + uv), u[:32])
    iso = h.eq(sha(enc(pw) + ov + u), o[:32])
    try:
        handler = PDFStandardSecurityHandlerV5([b'a', b'x'], d, pw)
    except PDFPasswordIncorrect:
        h.check(h.not_(h.or_(isu, iso)), 'a password of the document is rejected')
        h.reach('rejected')
        return
    h.check(h.or_(isu, iso), 'a wrong password opens the document')
    if h.branch(iso):
        h.equal(handler.key, AES.new(sha(enc(pw) + ok + u), AES.MODE_CBC, IV=z).decrypt(oe), 'file key')
    else:
        h.equal(handler.key, AES.new(sha(enc(pw) + uk), AES.MODE_CBC, IV=z).decrypt(ue), 'file key')
    if which == 'owner':
        h.equal(handler.key, fk, 'file key of the owner')
    flags(h, handler, p)
    h.reach('opened')


def document(h, v, r, n):
    """a whole encrypted file opened with a password"""
    upw, opw = h.choice('pws', ((b'', b'w'), (b'u\xe9', b'')))
    o = ref_o(r, n, opw, upw)
    perm = h.choice('perm', (0, 1, 2, 3, 4, 5, 6, 7))
    p = -64 | perm << 2
    unsigned, indirect, caching = h.choice('form', ((False, False, True), (True, True, True), (False, True, False)))
    if unsigned:
        p += 2 ** 32
    docid = b'ab'
    u = ref_u(r, ref_key(r, n, upw, o, p, docid, True), docid)
    u = (u + b'\0' * 16)[:32]
    enc = b'<</Filter/Standard/V %d/R %d/P %d/O<' % (v, r, p) + o.hex().encode() + b'>/U<' + u.hex().encode() + b'>'
    if v in (2, 3):
        enc += b'/Length %d' % (8 * n)
    if v == 4:
        enc += b'/CF<</StdCF<</CFM/AESV2>>>>/StmF/StdCF/StrF/StdCF'
    enc += b'>>'
    f = File()
    ents = {1: (1, f.obj(1, b'<</Type/Catalog/Pages 2 0 R>>'), 0)}
    ents[2] = (1, f.obj(2, b'<</Type/Pages/MediaBox[0 0 9 9]/Kids[3 0 R]>>'), 0)
    ents[3] = (1, f.obj(3, b'<</Type/Page>>'), 0)
    if indirect:
        ents[4] = (1, f.obj(4, enc), 0)
        enc = b'4 0 R'
    tr = b'/Root 1 0 R/ID[(ab)(ab)]/Encrypt ' + enc
    f.end(f.table({k: (e[1], 0, b'n') for k, e in ents.items()}, tr))
    who = h.choice('who', ('right', 'wrong', 'none', 'greek'))
    pw = {'right': text(h, upw), 'wrong': text(h, upw) + 'x', 'none': None, 'greek': '\u03b1'}[who]
    k1, ok1, k2, ok2 = ref_auth(h, r, n, b'' if pw is None else upw + b'x' if who == 'wrong' else upw, o, u, p, docid, True)
    good = h.and_(h.or_(ok1, ok2), who != 'greek')
    try:
        doc = open_doc(f.data, password=pw, caching=caching)
    except PDFPasswordIncorrect:
        h.check(h.not_(good), 'the right password is rejected')
        h.reach('rejected')
        return
    h.check(good, 'a wrong password opens the document')
    h.check(doc.is_printable == bool(perm & 1) and doc.is_modifiable == bool(perm & 2) and doc.is_extractable == bool(perm & 4), 'permissions')
    fp = BytesIO(f.data)
    for check in (True, False):
        try:
            n = len(list(PDFPage.get_pages(fp, password=pw, check_extractable=check)))
            h.check(perm & 4 or not check, 'pages of a document that forbids extraction')
            h.check(n == 1, 'pages')
        except PDFTextExtractionNotAllowed:
            h.check(check and not perm & 4, 'extraction refused')
    h.reach('opened')


def unsupported(h):
    """handlers, algorithms and revisions that are not supported"""
    v = h.int('V', -1, 9)
    r = h.int('R', -1, 9)
    filt = h.choice('filter', (b'Standard', b'Other'))
    cfm = h.choice('cfm', (b'V2', b'AESV2', b'AESV3', b'None', b'Foo'))
    stm = h.choice('stm', (b'StdCF', b'Identity', b'Nope'))
    same = h.choice('same', (True, False))
    known = (v == 1) | (v == 2)
    okr = h.or_(h.and_(known, h.or_(r == 2, r == 3)), h.and_(v == 4, r == 4), h.and_(v == 5, r == 5))
    okv = h.or_(v == 1, v == 2, v == 4, v == 5)
    cf = h.or_(h.not_(v >= 4), h.and_(same, stm != b'Nope', h.or_(h.and_(v == 4, cfm in (b'V2', b'AESV2')), h.and_(v == 5, cfm == b'AESV3'))))
    supported = h.and_(filt == b'Standard', okv, okr, cf)
    doc = NoDoc()
    from pdfmajor.parser.PDFDocument import PDFDocument
    d = {'Filter': LIT(filt.decode()), 'V': v, 'R': r, 'P': -4, 'O': b'o' * 48, 'U': b'u' * 48, 'OE': b'e' * 32, 'UE': b'e' * 32,
         'CF': {'StdCF': {'CFM': LIT(cfm.decode())}}, 'StmF': LIT(stm.decode()), 'StrF': LIT(stm.decode() if same else 'Identity' if stm != b'Identity' else 'StdCF'), 'Length': 128}
    doc.encryption = ([b'id', b'id'], d)
    doc.security_handler_registry = PDFDocument.security_handler_registry
    try:
        PDFDocument._initialize_password(doc, '')
    except PDFPasswordIncorrect:
        h.check(supported, 'an unsupported handler is tried')
        h.reach('tried')
    except PDFEncryptionError:
        h.check(h.not_(supported), 'a supported handler is refused')
        h.reach('refused')
    else:
        h.fail('opened')


class NoDoc:
    pass


def cases(tier):
    q = tier == 'quick'
    out = [Case('unsupported', unsupported, {}, 'every version -1..9 and revision -1..9', ['tried', 'refused'])]
    combos = [(1, 2, 5), (2, 3, 16), (4, 4, 16), (2, 3, 9), (1, 3, 5)] if q else [(1, 2, 5), (1, 3, 5), (2, 2, 5), (2, 3, 5), (2, 3, 9), (2, 3, 16), (4, 4, 16)]
    for v, r, n in combos:
        for meta in (True, False) if v == 4 else (True,):
            for who in ('user', 'owner', 'any'):
                if q and r == 3 and n < 16 and who == 'any':
                    continue
                for ul, ol, pl in ((1, 2, 1),) if q and r == 3 and n < 16 else ((1, 2, 1), (2, 1, 2), (0, 1, 1))[:1 if who == 'any' and r > 2 else 3] if q else ((1, 2, 1), (2, 1, 2), (0, 1, 1), (0, 0, 0), (2, 33, 1), (33, 2, 33)):
                    if who != 'user' and not meta and q:
                        continue
                    out.append(Case('r%d-v%d-%d-%s-%d%d%d%s' % (r, v, n, who, ul, ol, pl, '' if meta else '-nometa'), rc4doc,
                                    {'v': v, 'r': r, 'n': n, 'ulen': ul, 'olen': ol, 'plen': pl, 'which': who, 'meta': meta},
                                    'passwords of %d/%d bytes, %d byte key, all permission words' % (ul, ol, n), ['rejected'] if who == 'any' else ['opened']))
    for who in ('user', 'owner', 'any'):
        for ul, ol, pl in ((1, 2, 1),) if q else ((1, 2, 1), (0, 1, 2), (2, 0, 2), (126, 127, 2)):
            out.append(Case('r5-%s-%d%d%d' % (who, ul, ol, pl), aesdoc, {'ulen': ul, 'olen': ol, 'plen': pl, 'which': who}, 'revision 5', ['rejected'] if who == 'any' else ['opened']))
    for v, r, n in ((1, 2, 5), (2, 3, 16), (4, 4, 16)):
        out.append(Case('file-v%dr%d' % (v, r), document, {'v': v, 'r': r, 'n': n}, 'whole file', ['opened', 'rejected']))
    return out
