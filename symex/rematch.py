"""Regular expressions over symbolic strings (backtracking over re's parse tree)."""
import re
try:
    from re import _parser as _p, _constants as _c
except ImportError:                      # pragma: no cover
    import sre_parse as _p
    import sre_constants as _c
from .core import Unsupported
from .values import (SymSeq, SymStr, SymInt, in_ranges, mkbytes, mkstr, _items, not_, or_,
                     and_, WS_B, WS_S, realize_int, is_sym)

_CACHE = {}


class SxPattern:
    def __init__(self, pattern, flags=0):
        self.real = re.compile(pattern, flags)
        self.pattern = self.real.pattern
        self.flags = self.real.flags
        self.groups = self.real.groups
        self.groupindex = dict(self.real.groupindex)
        self.isstr = isinstance(pattern, str)
        self._tree = None
        self.single = None

    def tree(self):
        if self._tree is None:
            t = _p.parse(self.pattern, self.flags & ~re.UNICODE if not self.isstr else self.flags)
            self._tree = list(t)
            if len(self._tree) == 1:
                op, av = self._tree[0]
                if op in (_c.IN, _c.LITERAL, _c.NOT_LITERAL, _c.ANY):
                    self.single = (op, av)
        return self._tree

    # -- char tests
    def _test(self, op, av, c):
        fl = self.flags
        ic = fl & re.IGNORECASE
        if op is _c.ANY:
            return True if fl & re.DOTALL else not_(c == 10)
        if op is _c.LITERAL:
            return _lit(c, av, ic)
        if op is _c.NOT_LITERAL:
            return not_(_lit(c, av, ic))
        if op is _c.IN:
            neg = False
            rngs = []
            extra = []
            for o, a in av:
                if o is _c.NEGATE:
                    neg = True
                elif o is _c.LITERAL:
                    rngs.append((a, a))
                elif o is _c.RANGE:
                    rngs.append(a)
                elif o is _c.CATEGORY:
                    extra.append(self._cat(a, c))
                else:
                    raise Unsupported("regex", o)
            if ic:
                more = []
                for a, b in rngs:
                    for lo, hi, d in ((65, 90, 32), (97, 122, -32)):
                        x, y = max(a, lo), min(b, hi)
                        if x <= y:
                            more.append((x + d, y + d))
                rngs += more
            r = in_ranges(c, _norm(rngs))
            if extra:
                r = or_(r, *extra)
            return not_(r) if neg else r
        raise Unsupported("regex", op)

    def _cat(self, cat, c):
        s = str(cat)
        neg = '_NOT_' in s
        if self.isstr and type(c) is SymInt and not s.endswith('SPACE'):
            if not bool(c < 128):
                c = realize_int(c)
        uni = self.isstr and not (self.flags & re.ASCII)
        if s.endswith('SPACE'):
            r = in_ranges(c, WS_S if uni else WS_B)
        elif type(c) is int and c >= 128 and uni:
            r = bool(re.match(r'\d' if s.endswith('DIGIT') else r'\w', chr(c)))
        elif s.endswith('DIGIT'):
            r = in_ranges(c, [(48, 57)])
        elif s.endswith('WORD'):
            r = in_ranges(c, [(48, 57), (65, 90), (95, 95), (97, 122)])
        else:
            raise Unsupported("regex", s)
        return not_(r) if neg else r

    # -- backtracking
    def _m(self, seq, i, s, pos, end, g, k):
        """match seq[i:] at pos then continue with k(pos, groups)"""
        while i < len(seq):
            op, av = seq[i]
            if op in (_c.LITERAL, _c.NOT_LITERAL, _c.ANY, _c.IN):
                if pos >= end or not self._test(op, av, s[pos]):
                    return None
                pos += 1
                i += 1
                continue
            if op is _c.AT:
                if not self._at(av, s, pos, end):
                    return None
                i += 1
                continue
            if op is _c.SUBPATTERN:
                gid, _af, _df, sub = av
                start = pos

                def k2(p, g2, gid=gid, start=start, i=i):
                    if gid is not None:
                        g2 = dict(g2)
                        g2[gid] = (start, p)
                    return self._m(seq, i + 1, s, p, end, g2, k)
                return self._m(list(sub), 0, s, pos, end, g, k2)
            if op is _c.BRANCH:
                for alt in av[1]:
                    r = self._m(list(alt), 0, s, pos, end, g,
                                lambda p, g2, i=i: self._m(seq, i + 1, s, p, end, g2, k))
                    if r is not None:
                        return r
                return None
            if op in (_c.MAX_REPEAT, _c.MIN_REPEAT):
                lo, hi, sub = av
                sub = list(sub)
                greedy = op is _c.MAX_REPEAT
                rest = lambda p, g2, i=i: self._m(seq, i + 1, s, p, end, g2, k)
                if len(sub) == 1 and sub[0][0] in (_c.LITERAL, _c.NOT_LITERAL, _c.ANY, _c.IN):
                    o, a = sub[0]
                    n = 0
                    if greedy:
                        while n < hi and pos + n < end and self._test(o, a, s[pos + n]):
                            n += 1
                        while n >= lo:
                            r = rest(pos + n, g)
                            if r is not None:
                                return r
                            n -= 1
                        return None
                    while n < lo:
                        if pos + n >= end or not self._test(o, a, s[pos + n]):
                            return None
                        n += 1
                    while True:
                        r = rest(pos + n, g)
                        if r is not None:
                            return r
                        if n >= hi or pos + n >= end or not self._test(o, a, s[pos + n]):
                            return None
                        n += 1

                def rep(p, g2, n, last):
                    def more():
                        if n < hi and (p != last or n < lo):
                            return self._m(sub, 0, s, p, end, g2, lambda p2, g3: rep(p2, g3, n + 1, p))
                        return None
                    if n < lo:
                        return more()
                    if greedy:
                        r = more()
                        return r if r is not None else rest(p, g2)
                    r = rest(p, g2)
                    return r if r is not None else more()
                return rep(pos, g, 0, -1)
            if op is _c.GROUPREF:
                if av not in g:
                    return None
                a, b = g[av]
                n = b - a
                if pos + n > end:
                    return None
                for j in range(n):
                    if not (s[a + j] == s[pos + j]):
                        return None
                pos += n
                i += 1
                continue
            if op in (_c.ASSERT, _c.ASSERT_NOT):
                d, sub = av
                if d > 0:
                    r = self._m(list(sub), 0, s, pos, end, g, lambda p, g2: (p, g2))
                else:
                    w = _p.SubPattern(sub.state, list(sub)).getwidth()[0]
                    r = None
                    if pos - w >= 0:
                        r = self._m(list(sub), 0, s, pos - w, end, g,
                                    lambda p, g2, pos=pos: (p, g2) if p == pos else None)
                if (r is not None) != (op is _c.ASSERT):
                    return None
                if r is not None:
                    g = r[1]
                i += 1
                continue
            raise Unsupported("regex", op)
        return k(pos, g)

    def _at(self, av, s, pos, end):
        if av is _c.AT_BEGINNING:
            return pos == 0 or bool(self.flags & re.M and s[pos - 1] == 10)
        if av is _c.AT_BEGINNING_STRING:
            return pos == 0
        if av is _c.AT_END:
            if pos == end:
                return True
            if self.flags & re.M:
                return bool(s[pos] == 10)
            return pos == end - 1 and bool(s[pos] == 10)
        if av is _c.AT_END_STRING:
            return pos == end
        if av in (_c.AT_BOUNDARY, _c.AT_NON_BOUNDARY):
            w = lambda i: 0 <= i < end and bool(self._cat('WORD', s[i]))
            b = w(pos - 1) != w(pos)
            return b == (av is _c.AT_BOUNDARY)
        raise Unsupported("regex", av)

    def _conc(self, s):
        return not issubclass(type(s), SymSeq)

    def _subj(self, s):
        if issubclass(type(s), SymSeq):
            if (type(s) is SymStr) != self.isstr:
                raise TypeError('cannot use a %s pattern on a %s-like object'
                                % (('string', 'bytes') if self.isstr else ('bytes', 'string')))
        return s

    def _rng(self, s, pos, endpos):
        n = len(s)
        pos = max(0, min(realize_int(pos), n))
        end = n if endpos is None else max(0, min(realize_int(endpos), n))
        return pos, end

    def _at_pos(self, s, items, p, end, full=False):
        tree = self.tree()
        k = (lambda q, g: (q, g) if q == end else None) if full else (lambda q, g: (q, g))
        r = self._m(tree, 0, items, p, end, {}, k)
        if r is None:
            return None
        return SxMatch(self, s, p, r[0], r[1])

    def match(self, s, pos=0, endpos=None):
        s = self._subj(s)
        pos, end = self._rng(s, pos, endpos)
        if self._conc(s):
            return self.real.match(s, pos, end)
        return self._at_pos(s, s.items, pos, end)

    def fullmatch(self, s, pos=0, endpos=None):
        s = self._subj(s)
        pos, end = self._rng(s, pos, endpos)
        if self._conc(s):
            return self.real.fullmatch(s, pos, end)
        return self._at_pos(s, s.items, pos, end, True)

    def search(self, s, pos=0, endpos=None):
        s = self._subj(s)
        pos, end = self._rng(s, pos, endpos)
        if self._conc(s):
            return self.real.search(s, pos, end)
        self.tree()
        items = s.items
        if self.single is not None:
            op, av = self.single
            for p in range(pos, end):
                if self._test(op, av, items[p]):
                    return SxMatch(self, s, p, p + 1, {})
            return None
        for p in range(pos, end + 1):
            r = self._at_pos(s, items, p, end)
            if r is not None:
                return r
        return None

    def finditer(self, s, pos=0, endpos=None):
        s = self._subj(s)
        pos, end = self._rng(s, pos, endpos)
        if self._conc(s):
            for m in self.real.finditer(s, pos, end):
                yield m
            return
        p = pos
        nonempty_at = -1
        while p <= end:
            m = None
            q = p
            while q <= end:
                m = self._at_pos(s, s.items, q, end)
                if m is not None and not (m.end() == m.start() == nonempty_at):
                    break
                m = None
                q += 1
            if m is None:
                return
            yield m
            nonempty_at = m.end()
            p = m.end() if m.end() > m.start() else m.end() + 1

    def findall(self, s, pos=0, endpos=None):
        out = []
        for m in self.finditer(s, pos, endpos):
            gs = m.groups('' if self.isstr else b'')
            out.append(m.group() if not gs else gs[0] if len(gs) == 1 else gs)
        return out

    def sub(self, repl, s, count=0):
        return self.subn(repl, s, count)[0]

    def subn(self, repl, s, count=0):
        s = self._subj(s)
        if self._conc(s) and not callable(repl) and not is_sym(repl):
            return self.real.subn(repl, s, count)
        out = []
        n = last = 0
        its = _items(s)
        for m in self.finditer(s):
            if count and n >= count:
                break
            out += its[last:m.start()]
            r = repl(m) if callable(repl) else m.expand(repl) if isinstance(m, SxMatch) else SxMatch.expand(_Plain(m), repl)
            out += _items(r)
            last = m.end()
            n += 1
        out += its[last:]
        return (mkstr if self.isstr else mkbytes)(out), n

    def split(self, s, maxsplit=0):
        s = self._subj(s)
        if self._conc(s):
            return self.real.split(s, maxsplit)
        out = []
        last = n = 0
        for m in self.finditer(s):
            if maxsplit and n >= maxsplit:
                break
            out.append(s[last:m.start()])
            out.extend(m.groups())
            last = m.end()
            n += 1
        out.append(s[last:])
        return out


def _lit(c, av, ic):
    r = c == av
    if ic:
        ch = chr(av)
        for o in (ch.lower(), ch.upper()):
            if len(o) == 1 and ord(o) != av:
                r = or_(r, c == ord(o))
    return r


def _norm(r):
    r = sorted(r)
    out = []
    for a, b in r:
        if out and a <= out[-1][1] + 1:
            out[-1] = (out[-1][0], max(b, out[-1][1]))
        else:
            out.append((a, b))
    return out


class SxMatch:
    def __init__(self, pat, s, a, b, g):
        self.re = pat
        self.string = s
        self._g = dict(g)
        self._g[0] = (a, b)
        self.pos = 0

    def _i(self, n):
        if isinstance(n, str):
            return self.re.groupindex[n]
        if n < 0 or n > self.re.groups:
            raise IndexError('no such group')
        return n

    def group(self, *ns):
        if not ns:
            ns = (0,)
        r = tuple(self._one(n) for n in ns)
        return r[0] if len(r) == 1 else r

    def _one(self, n, d=None):
        n = self._i(n)
        if n not in self._g:
            return d
        a, b = self._g[n]
        return self.string[a:b]

    __getitem__ = _one

    def groups(self, d=None):
        return tuple(self._one(i, d) for i in range(1, self.re.groups + 1))

    def groupdict(self, d=None):
        return {k: self._one(k, d) for k in self.re.groupindex}

    def start(self, n=0):
        return self._g.get(self._i(n), (-1, -1))[0]

    def end(self, n=0):
        return self._g.get(self._i(n), (-1, -1))[1]

    def span(self, n=0):
        return self._g.get(self._i(n), (-1, -1))

    @property
    def lastindex(self):
        ks = [k for k in self._g if k]
        return max(ks) if ks else None

    @property
    def lastgroup(self):
        k = self.lastindex
        for n, i in self.re.groupindex.items():
            if i == k:
                return n
        return None

    def expand(self, t):
        out = []
        its = _items(t)
        i = 0
        while i < len(its):
            c = its[i]
            if c == 92 and i + 1 < len(its):
                d = its[i + 1]
                if 48 <= d <= 57:
                    out += _items(self._one(d - 48, '' if self.re.isstr else b''))
                    i += 2
                    continue
                if d == 103:
                    j = its.index(62, i)
                    name = ''.join(map(chr, its[i + 3:j]))
                    out += _items(self._one(int(name) if name.isdigit() else name))
                    i = j + 1
                    continue
                m = {110: 10, 116: 9, 114: 13, 92: 92}
                out.append(m.get(d, d))
                i += 2
                continue
            out.append(c)
            i += 1
        return (mkstr if self.re.isstr else mkbytes)(out)

    def __bool__(self):
        return True


class _Plain:
    """a match of the real module, for replacements that are symbolic"""

    def __init__(self, m):
        self.m = m
        self.re = type('', (), {'isstr': isinstance(m.string, str)})

    def _one(self, g, default=None):
        v = self.m.group(g)
        return default if v is None else v


def compile(p, flags=0):
    if isinstance(p, SxPattern):
        return p
    if isinstance(p, re.Pattern):
        p, flags = p.pattern, p.flags
    if is_sym(p):
        p = p._realize()
    k = (p, int(flags))
    if k not in _CACHE:
        _CACHE[k] = SxPattern(p, flags)
    return _CACHE[k]


def _mod(name):
    def f(p, s, *a, **k):
        fl = k.pop('flags', 0)
        if a and name in ('match', 'search', 'fullmatch', 'findall', 'finditer'):
            fl, a = a[0], a[1:]
        return getattr(compile(p, fl), name)(s, *a, **k)
    return f


match, search, fullmatch, findall, finditer, split = [
    _mod(n) for n in ('match', 'search', 'fullmatch', 'findall', 'finditer', 'split')]


def sub(p, r, s, count=0, flags=0):
    return compile(p, flags).sub(r, s, count)


def subn(p, r, s, count=0, flags=0):
    return compile(p, flags).subn(r, s, count)


def escape(p):
    if is_sym(p):
        out = []
        for c in p.items:
            if in_ranges(c, [(48, 57), (65, 90), (95, 95), (97, 122)]):
                out.append(c)
            elif or_(*[c == x for x in b'()[]{}?*+-|^$\\.&~# \t\n\r\v\f']):
                out += [92, c]
            else:
                out.append(c)
        return p.MK(out)
    return re.escape(p)
