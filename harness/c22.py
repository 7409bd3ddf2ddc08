import hashlib
from Crypto.Cipher import ARC4, AES
from symex.hapi import Case
from harness.lib import *
from harness.docs import File, open_doc
from harness.c21 import ref_o, ref_u, ref_key, p32
from pdfmajor.parser.PSStackParser import LIT
from pdfmajor.parser.PDFStream.util import decipher_all
from pdfmajor.parser.PDFDocument.PDFSecurityHandler import PDFStandardSecurityHandler, PDFStandardSecurityHandlerV4, PDFStandardSecurityHandlerV5

ASSUMPTIONS = ['MD5, RC4 key streams and AES blocks are uninterpreted functions of their inputs (functionally consistent, AES a permutation per key); '
               'the encrypting side is an independent implementation of the specification',
               'whole files: keys are concrete, ciphertext bytes of strings avoid the delimiters of literal strings']


def objkey(key, num, gen, aes):
    k = key + bytes([num & 255, (num >> 8) & 255, (num >> 16) & 255, gen & 255, (gen >> 8) & 255])
    if aes:
        k = k + b'sAlT'
    return hashlib.md5(k).digest()[:min(16, len(key) + 5)]


def pad(data):
    n = 16 - len(data) % 16
    return data + bytes([n]) * n


def encrypt(method, key, num, gen, data, iv):
    if method == 'identity':
        return data
    if method == 'rc4':
        return ARC4.new(objkey(key, num, gen, False)).encrypt(data)
    k = objkey(key, num, gen, True) if method == 'aes128' else key
    return iv + AES.new(k, AES.MODE_CBC, IV=iv).encrypt(pad(data))


METHODS = {'rc4': (PDFStandardSecurityHandler, None), 'v4rc4': (PDFStandardSecurityHandlerV4, 'V2'), 'aes128': (PDFStandardSecurityHandlerV4, 'AESV2'),
           'aes256': (PDFStandardSecurityHandlerV5, 'AESV3'), 'identity': (PDFStandardSecurityHandlerV4, 'V2')}



def handler(cls, cfm, key, identity, metadata):
    class H(cls):
        def init_key(self):
            self.key = key
    r = {PDFStandardSecurityHandler: 3, PDFStandardSecurityHandlerV4: 4, PDFStandardSecurityHandlerV5: 5}[cls]
    d = {'Filter': LIT('Standard'), 'V': r if r > 3 else 2, 'R': r, 'P': -4, 'O': b'o' * 48, 'U': b'u' * 48, 'OE': b'e' * 32, 'UE': b'e' * 32, 'Length': 128}
    if cfm:
        d['CF'] = {'StdCF': {'CFM': LIT(cfm)}}
        d['StmF'] = d['StrF'] = LIT('Identity' if identity else 'StdCF')
        if metadata is not None:
            d['EncryptMetadata'] = metadata
    return H([b'id', b'id'], d, '')


def mkkey(h, method, klen):
    n = 32 if method == 'aes256' else klen
    return h.bytes('key', 3) + b'fghijklmnopqrstuvwxyz0123456789'[:n - 3]


def values(h, method, klen, n, shape):
    """strings in a nested object"""
    key = mkkey(h, method, klen)
    num = h.int('num', 1, 2 ** 24 - 1)
    gen = h.int('gen', 0, 65535)
    cls, cfm = METHODS[method]
    hd = handler(cls, cfm, key, method == 'identity', None)
    m = 'rc4' if method == 'v4rc4' else method
    iv = h.bytes('iv', 2) + b'iviviviviviviv'
    a = h.bytes('a', n)
    b = h.bytes('b', max(0, n - 1))
    ref = PDFObjRef(None, 9, 0)

    def build(f):
        if shape == 'string':
            return f(a)
        if shape == 'array':
            return [f(a), 1, [f(b), LIT('x'), None], True]
        if shape == 'dict':
            return {'A': f(a), 'B': [{'C': f(b)}, 2.5], 'N': LIT('Name'), 'R': ref, 'T': 'text'}
        return {'A': {'A': {'A': [[f(a)], [f(b)], []]}}, 'E': {}}
    want = build(lambda s: s)
    obj = build(lambda s: encrypt(m, key, num, gen, s, iv))
    got = decipher_all(hd.decrypt, num, gen, obj)
    h.equal(plain(got), plain(want), 'decrypted object')
    h.reach('done')


def streams(h, method, klen, n, filt):
    """stream data"""
    key = mkkey(h, method, klen)
    num = h.int('num', 1, 2 ** 24 - 1)
    gen = h.int('gen', 0, 65535)
    cls, cfm = METHODS[method]
    meta = h.choice('meta', (None, True, False)) if cfm else None
    typ = h.choice('type', (None, 'Metadata', 'XObject'))
    hd = handler(cls, cfm, key, method == 'identity', meta)
    m = 'rc4' if method == 'v4rc4' else method
    iv = h.bytes('iv', 2) + b'iviviviviviviv'
    a = h.bytes('a', n)
    data = h.deflate(a) if filt == 'FlateDecode' else a
    exempt = meta is False and typ == 'Metadata'
    raw = data if exempt else encrypt(m, key, num, gen, data, iv)
    attrs = {'Length': len(raw)}
    if typ:
        attrs['Type'] = LIT(typ)
    if filt:
        attrs['Filter'] = LIT(filt)
    s = PDFStream(attrs, raw, hd.decrypt)
    s.set_objid(num, gen)
    h.equal(s.get_data(), a, 'stream data')
    h.equal(s.get_data(), a, 'stream data, again')
    h.reach('exempt' if exempt else 'done')


def document(h, method, n, place, nested=False):
    """a file whose object is read through the document; ciphertext is arbitrary"""
    v, r, klen = {'rc4': (1, 2, 5), 'rc4-128': (2, 3, 16), 'v4rc4': (4, 4, 16), 'aes128': (4, 4, 16)}[method]
    aes = method == 'aes128'
    caching = h.choice('caching', (True, False))
    num, gen = h.choice('num', ((5, 0), (300, 2), (70000, 0)))
    docid = b'ab'
    o = ref_o(r, klen, b'own', b'')
    p = -44
    key = ref_key(r, klen, b'', o, p, docid, True)
    u = (ref_u(r, key, docid) + b'\0' * 16)[:32]
    enc = b'<</Filter/Standard/V %d/R %d/P %d/O<' % (v, r, p) + o.hex().encode() + b'>/U<' + u.hex().encode() + b'>'
    if v == 2:
        enc += b'/Length %d' % (8 * klen)
    if v == 4:
        enc += b'/CF<</StdCF<</CFM/%s>>>>/StmF/StdCF/StrF/StdCF' % (b'AESV2' if aes else b'V2')
    enc += b'>>'
    k = objkey(key, num, gen, aes)

    def cipher(name, m):
        """arbitrary ciphertext (of a validly padded text) that needs no escapes, and its text"""
        if not aes:
            c = h.bytes(name, m)
            return c, ARC4.new(k).decrypt(c)
        t = h.bytes(name, m)
        iv = b'0123456789abcdef'
        return iv + AES.new(k, AES.MODE_CBC, IV=iv).encrypt(pad(t)), t
    f = File()
    ents = {1: (1, f.obj(1, b'<</Type/Catalog/Pages 2 0 R>>'), 0)}
    if place == 'stream':
        c, t = cipher('c', n)
        s = b'(' + cipher0(k, aes, b'st') + b')'
        pos = f.stream(num, c, b'/S <' + cipher0(k, aes, b'st').hex().encode() + b'>', gen)
    elif place == 'objstm':
        # members of an object stream are only decrypted with the stream
        c, t = cipher('c', n)
        body = b'[(xy)<</S(z)>>]'
        pos = None
        data = b'%d 0 ' % num + body
        ek = objkey(key, 7, 0, aes)
        if aes:
            iv = b'0123456789abcdef'
            data2 = iv + AES.new(ek, AES.MODE_CBC, IV=iv).encrypt(pad(data))
        else:
            data2 = ARC4.new(ek).encrypt(data)
        ents[7] = (1, f.stream(7, data2, b'/Type/ObjStm/N 1/First %d' % len(b'%d 0 ' % num)), 0)
        ents[num] = (2, 7, 0)
        gen = 0
    else:
        c, t = cipher('c', n)
        for x in c:
            h.assume(h.and_(x != 40, x != 41, x != 92, x != 13))
        body = b'[(' + c + b')<</S(' + c + b')/N/Name>>5]' if nested else b'(' + c + b')'
        pos = f.obj(num, body, gen)
    if pos is not None:
        ents[num] = (1, pos, gen)
    tr = b'/Root 1 0 R/ID[(ab)(ab)]/Encrypt ' + enc
    if place == 'objstm':
        xpos = len(f)
        ents[9] = (1, xpos, 0)
        f.xrefstream(9, ents, tr + b'/Size 80000')
        f.end(xpos)
    else:
        f.end(f.table({a: (e[1], e[2], b'n') for a, e in ents.items()}, tr))
    doc = open_doc(f.data, caching=caching)
    for i in range(2):
        got = doc.getobj(num)
        if place == 'stream':
            h.equal(got.get_data(), t, 'stream data')
            h.equal(got['S'], b'st', 'string of the stream dictionary')
        elif place == 'objstm':
            h.equal(plain(got), plain([b'xy', {'S': b'z'}]), 'object of an object stream')
        else:
            want = [t, {'S': t, 'N': LIT('Name')}, 5] if nested else t
            h.equal(plain(got), plain(want), 'decrypted object')
    h.reach('done')


def cipher0(k, aes, t):
    if aes:
        iv = b'fedcba9876543210'
        return iv + AES.new(k, AES.MODE_CBC, IV=iv).encrypt(pad(t))
    return ARC4.new(k).encrypt(t)


def padding(h, m, n):
    """arbitrary decrypted blocks: at most the padding the last byte states is removed"""
    key = h.bytes('key', 2) + b'cdefghijklmnop'
    data = h.bytes('data', n)
    iv = b'0123456789abcdef'
    hd = handler(PDFStandardSecurityHandlerV4, 'AESV2', b'x' * 16, False, None)
    blocks = AES.new(key, AES.MODE_CBC, IV=iv).encrypt(data + b'-' * (-n % 16))
    got = hd.decrypt_aes(key, iv + blocks + b'?' * m)
    full = data + b'-' * (-n % 16)
    for i in range(1, 17):
        if full and h.branch(full[-1] == i):
            h.equal(got, full[:-i], 'padding removed')
            h.reach('padded')
            return
    h.equal(got, full, 'nothing removed')
    h.reach('unpadded')


def cases(tier):
    q = tier == 'quick'
    out = []
    for m in ('rc4', 'v4rc4', 'aes128', 'aes256', 'identity'):
        for klen in (16,) if m != 'rc4' else (5, 16) if q else (5, 7, 10, 11, 16):
            for shape in ('string', 'array', 'dict', 'deep'):
                for n in (3,) if q else (0, 1, 3, 15, 16, 17, 33):
                    out.append(Case('values-%s-%d-%s-%d' % (m, klen, shape, n), values, {'method': m, 'klen': klen, 'n': n, 'shape': shape},
                                    'strings of %d bytes, every key, object and generation number' % n, ['done']))
            for filt in (None, 'FlateDecode'):
                for n in (0, 3, 16) if q else (0, 1, 3, 15, 16, 17, 33):
                    out.append(Case('stream-%s-%d-%s-%d' % (m, klen, filt, n), streams, {'method': m, 'klen': klen, 'n': n, 'filt': filt},
                                    'stream of %d bytes' % n, ['done'] + (['exempt'] if m in ('v4rc4', 'aes128', 'aes256', 'identity') else [])))
    for m in ('rc4', 'rc4-128', 'v4rc4', 'aes128'):
        for n in (2,) if q else (1, 2, 3):
            out.append(Case('doc-%s-stream-%d' % (m, n), document, {'method': m, 'n': n, 'place': 'stream'}, 'whole file', ['done']))
            if m != 'aes128':
                out.append(Case('doc-%s-string-%d' % (m, n), document, {'method': m, 'n': n, 'place': 'string'}, 'whole file', ['done']))
        out.append(Case('doc-%s-nested' % m, document, {'method': m, 'n': 1 if m != 'aes128' else 0, 'place': 'string', 'nested': True}, 'whole file', ['done']))
        out.append(Case('doc-%s-objstm' % m, document, {'method': m, 'n': 0, 'place': 'objstm'}, 'whole file', ['done']))
    for m, n in ((0, 1), (0, 16), (3, 16)) if q else ((0, 0), (0, 1), (0, 16), (3, 16), (0, 32), (15, 17)):
        out.append(Case('padding-%d-%d' % (m, n), padding, {'m': m, 'n': n}, 'any final block', ['padded', 'unpadded'] if n in (16, 32) else []))
    return out
