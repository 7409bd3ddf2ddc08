"""Names of predefined character maps: the file system is replaced by recorders (nothing real is touched)."""
import os
from io import BytesIO
from symex.hapi import Case
from pdfmajor.execptions import CMapNotFound
from pdfmajor.parser import cmapdb
from pdfmajor.parser.cmapdb import CMapDB, CMapParser, FileUnicodeMap, FileCMap
from pdfmajor.parser.PSStackParser import LIT
from pdfmajor.parser.PDFStream import PDFStream
from pdfmajor.interpreter.commands.state.PDFTextState.PDFFont import fonts

ASSUMPTIONS = ['opening and unpickling map files are replaced by recorders in the module that reads them; the existence of every file asked for is a free choice per directory',
               'names of up to five characters (plus fixed affixes) over an alphabet of separators, dots, NUL and letters', 'POSIX path separators']
HERE = os.path.join(os.path.dirname(cmapdb.__file__), 'cmap')
ALPHA = ((ord('a'), ord('b')), (ord('.'), ord('/')), (0, 0), (ord('\\'), ord('\\')))


class Paths:
    def __init__(self, fs):
        self.fs = fs

    def exists(self, p):
        return self.fs.has(p)

    isfile = lexists = exists

    def join(self, *a):
        return os.path.join(*a)

    def __getattr__(self, name):
        return getattr(os.path, name)


class Os:
    def __init__(self, fs, env):
        self.path = Paths(fs)
        self.environ = env
        self.sep = '/'

    def getenv(self, name, default=None):
        return self.environ.get(name, default)

    def __getattr__(self, name):
        return getattr(os, name)


class Map:
    """stand-in for an opened map file"""
    def __init__(self, path):
        self.path = path

    def read(self, *a):
        return self

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class Gzip:
    def __init__(self, fs):
        self.fs = fs

    def open(self, p, *a, **k):
        if not self.fs.has(p):
            raise FileNotFoundError(2, 'No such file or directory', p)
        self.fs.opened.append(p)
        return Map(p)

    GzipFile = open


class Pickle:
    def loads(self, m):
        p = m.path
        return {'CODE2CID': {65: p}, 'IS_VERTICAL': False, 'CID2UNICHR_H': {1: p}, 'CID2UNICHR_V': {2: p}}

    load = loads


class FS:
    def __init__(self, h, env):
        self.h = h
        self.opened = []
        self.first = h.bool('in_first')
        self.second = h.bool('in_second')
        first = env.get('CMAP_PATH', '/usr/share/pdfminer/')
        self.dirs = [first if first.endswith('/') else first + '/', HERE + '/']

    def has(self, p):
        if p.startswith(self.dirs[0]):
            return self.first
        if p.startswith(self.dirs[1]):
            return self.second
        return True     # everything exists elsewhere


NAMES = ('os', 'gzip', 'pickle', 'open')


def guarded(h, body):
    env = h.choice('env', ({'CMAP_PATH': '/maps'}, {'CMAP_PATH': '/maps/'}, {}))
    fs = FS(h, env)
    old = {n: getattr(cmapdb, n) for n in NAMES if hasattr(cmapdb, n)}
    caches = CMapDB._cmap_cache, CMapDB._umap_cache
    new = {'os': Os(fs, env), 'gzip': Gzip(fs), 'pickle': Pickle(), 'open': Gzip(fs).open}
    try:
        for n in NAMES:
            setattr(cmapdb, n, new[n])
        CMapDB._cmap_cache, CMapDB._umap_cache = {}, {}
        body(fs)
    finally:
        CMapDB._cmap_cache, CMapDB._umap_cache = caches
        for n in NAMES:
            if n in old:
                setattr(cmapdb, n, old[n])
            else:
                delattr(cmapdb, n)


def inside(h, fs):
    """every file opened lies directly in one of the directories"""
    for p in fs.opened:
        ok = False
        for d in fs.dirs:
            if p.startswith(d):
                rest = p[len(d):]
                ok = h.or_(ok, h.and_('/' not in rest, '\0' not in rest))
        h.check(ok, 'a_map_is_read_from_outside_its_directories')


def wanted(h, fs, name):
    """the file a well-formed name stands for (None: there is none)"""
    if fs.first:
        return fs.dirs[0] + name + '.pickle.gz'
    if fs.second:
        return fs.dirs[1] + name + '.pickle.gz'
    return None


def get(f, *a):
    try:
        return f(*a)
    except CMapNotFound:
        return None


def direct(h, pre, n, post, unicode):
    name = pre + h.text('name', n, ALPHA) + post

    def body(fs):
        vertical = unicode and h.choice('vertical', (False, True))
        m = get(CMapDB.get_unicode_map, name, vertical) if unicode else get(CMapDB.get_cmap, name)
        inside(h, fs)
        clean = name.replace('\0', '')
        key = 'to-unicode-' + clean if unicode else clean
        if '/' in clean:
            h.check(m is None, 'a_map_whose_name_is_a_path_is_found')
            return
        path = wanted(h, fs, key)
        if path is None:
            h.check(m is None, 'a_map_that_does_not_exist_is_found')
            return
        if h.check(m is not None, 'a_map_that_exists_is_not_found'):
            return
        h.check(len(fs.opened) == 1 and fs.opened[0] == path, 'another_file_is_read')
        if unicode:
            h.check(m.cid2unichr == ({2: path} if vertical else {1: path}), 'the_map_has_other_characters')
        else:
            h.check(m.code2cid == {65: path}, 'the_map_has_other_codes')
        h.reach('found')
    guarded(h, body)


def twice(h, n, unicode):
    """asking again gives the map of the name asked for"""
    one = h.text('one', n, ((97, 99),))
    two = h.text('two', n, ((97, 99),))

    def body(fs):
        f = CMapDB.get_unicode_map if unicode else CMapDB.get_cmap
        for i, name in enumerate((one, two, one)):
            vertical = unicode and h.choice('vertical%d' % i, (False, True))
            m = get(f, name, vertical) if unicode else get(f, name)
            path = wanted(h, fs, 'to-unicode-' + name if unicode else name)
            if path is None:
                h.check(m is None, 'a_map_that_does_not_exist_is_found')
            elif not h.check(m is not None, 'a_map_that_exists_is_not_found'):
                if unicode:
                    h.check(m.cid2unichr == ({2: path} if vertical else {1: path}), 'the_map_of_another_name_is_given')
                else:
                    h.check(m.code2cid == {65: path}, 'the_map_of_another_name_is_given')
                    h.reach('found')
        inside(h, fs)
    guarded(h, body)


class Doc:
    def __init__(self, obj):
        self.obj = obj

    def getobj(self, n):
        return self.obj


def encoding(h, pre, n, post, form):
    """a Type 0 font whose Encoding (or character collection) is the name"""
    from pdfmajor.parser.PDFStream.PDFObjRef import PDFObjRef
    name = pre.encode() + h.bytes('name', n, b'ab./\0\xff') + post.encode()

    def body(fs):
        lit = LIT(name if b'\xff' in name else name.decode('ascii'))    # as the parser makes them
        spec = {'BaseFont': LIT('F')}
        if form == 'name':
            spec['Encoding'] = lit
        elif form == 'ref':
            spec['Encoding'] = PDFObjRef(Doc(lit), 1, 0)
        elif form == 'stream':
            spec['Encoding'] = PDFStream({'CMapName': lit}, b'')
        elif form == 'registry':
            spec['Encoding'] = LIT('Identity-H')
            spec['CIDSystemInfo'] = {'Registry': name, 'Ordering': b'O'}
        else:
            spec['Encoding'] = LIT('Identity-V')
            spec['CIDSystemInfo'] = {'Registry': b'R', 'Ordering': name}
        font = fonts.PDFCIDFont(spec)
        inside(h, fs)
        if form not in ('registry', 'ordering') and '/' not in name.decode('latin-1') and b'\0' not in name and b'\xff' not in name:
            path = wanted(h, fs, name.decode('ascii'))
            h.check(font.cmap.code2cid == ({} if path is None else {65: path}), 'the_font_has_another_map')
        h.reach('font')
    guarded(h, body)


def usecmap(h, pre, n, post, hexed):
    s = h.bytes('name', n, b'ab.' if not hexed else b'0123456789abcdefF')
    name = pre + (s if not hexed else b'#' + s) + post

    def body(fs):
        m = FileCMap()
        CMapParser(m, BytesIO(b'/' + name + b' usecmap ')).run()
        inside(h, fs)
        h.reach('read')
        if not hexed and b'#' not in name:
            path = wanted(h, fs, name.decode('ascii'))
            h.check(m.code2cid == ({} if path is None else {65: path}), 'another_map_is_used')
    guarded(h, body)


def cases(tier):
    deep = tier == 'thorough'
    out = []
    ns = range(0, 8) if deep else (1, 2, 3, 4)
    for u in (False, True):
        for pre, post in (('', ''), ('a', 'b'), ('../', ''), ('', '/b'), ('/', 'b'), ('b/../../', 'a')):
            for n in ns:
                if not deep and n > 3 and pre:
                    continue
                out.append(Case('direct-%s-%d-%s' % ('u' if u else 'c', n, (pre + '_' + post).replace('/', 'S')), direct, dict(pre=pre, n=n, post=post, unicode=u),
                                bounds={'name': '%r, %d symbols, %r' % (pre, n, post)}, reach=['found'] if '/' not in pre + post and not (n == 0) else []))
        for n in (1, 2) + ((3,) if deep else ()):
            out.append(Case('twice-%s-%d' % ('u' if u else 'c', n), twice, dict(n=n, unicode=u), bounds={'names': '%d symbols' % n}))
    for form in ('name', 'ref', 'stream', 'registry', 'ordering'):
        for pre, post in (('', ''), ('..', 'b'), ('/', '')):
            for n in (1, 2, 3) + ((4, 5) if deep else ()):
                out.append(Case('font-%s-%d-%s' % (form, n, (pre + '_' + post).replace('/', 'S')), encoding, dict(pre=pre, n=n, post=post, form=form),
                                bounds={'name': '%d symbolic bytes' % n}, reach=['font']))
    for pre, n, post, hexed in ((b'', 2, b'', False), (b'', 3, b'', False), (b'..', 2, b'b', True), (b'#2f', 2, b'b', False), (b'#2e.', 2, b'b', True), (b'a', 2, b'#2fb', True)):
        out.append(Case('usecmap-%s-%d%s' % ((pre + b'_' + post).decode().replace('#', 'H'), n, 'x' if hexed else ''), usecmap, dict(pre=pre, n=n, post=post, hexed=hexed),
                        bounds={'name': '%d symbolic bytes' % n}, reach=['read']))
    return out
