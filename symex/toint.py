"""Exact translation of bit-vector formulas to integer arithmetic, for queries
(base-85 groups, pixel arithmetic) on which bit-blasting stalls."""
import z3


class No(Exception):
    pass


OPS = z3


class Tr:
    def __init__(self):
        self.memo = {}
        self.vars = {}
        self.side = []
        self.n = 0
        self.bounds = {}
        self.divs = {}

    def learn(self, a):
        """bounds of a variable stated by an assertion"""
        if z3.is_and(a):
            for x in a.children():
                self.learn(x)
            return
        k = a.decl().kind()
        if k == z3.Z3_OP_ULEQ:
            x, y = a.children()
            if z3.is_const(x) and z3.is_bv_value(y):
                lo, hi = self.bounds.get(x.get_id(), (0, (1 << x.size()) - 1))
                self.bounds[x.get_id()] = (lo, min(hi, y.as_long()))
            elif z3.is_const(y) and z3.is_bv_value(x):
                lo, hi = self.bounds.get(y.get_id(), (0, (1 << y.size()) - 1))
                self.bounds[y.get_id()] = (max(lo, x.as_long()), hi)

    def term(self, e):
        k = e.get_id()
        r = self.memo.get(k)
        if r is None:
            r = self._term(e)
            self.memo[k] = r
        return r

    # value of a bit-vector term as an unsigned integer: (int expr, lo, hi)
    def bv(self, e):
        return self.term(e)

    def wrap(self, v, lo, hi, w):
        m = 1 << w
        if 0 <= lo and hi < m:
            return v, lo, hi
        # fresh quotient: v = m*q + r
        self.n += 1
        q, r = z3.Int('!q%d' % self.n), z3.Int('!r%d' % self.n)
        self.side += [v == m * q + r, r >= 0, r < m, q >= lo // m, q <= hi // m]
        return r, 0, m - 1

    def signed(self, e):
        v, lo, hi = self.bv(e)
        w = e.size()
        h = 1 << (w - 1)
        if hi < h:
            return v, lo, hi
        if lo >= h:
            return v - 2 * h, lo - 2 * h, hi - 2 * h
        return z3.If(v >= h, v - 2 * h, v), -h, h - 1

    def divmod(self, v, lo, hi, d):
        """quotient and remainder of a non-negative value by a positive constant"""
        if hi < d:
            return (z3.IntVal(0), 0, 0), (v, lo, hi)
        v = z3.simplify(v, som=True)
        key = (v.get_id(), d)
        if key in self.divs:
            return self.divs[key][0]
        if z3.is_int_value(v):
            x = v.as_long()
            res = (z3.IntVal(x // d), x // d, x // d), (z3.IntVal(x % d), x % d, x % d)
            self.divs[key] = (res, v)
            return res
        self.n += 1
        q, r = z3.Int('!q%d' % self.n), z3.Int('!r%d' % self.n)
        self.side += [v == d * q + r, r >= 0, r < d, q >= lo // d, q <= hi // d]
        res = (q, lo // d, hi // d), (r, 0, d - 1)
        self.divs[key] = (res, v)
        return res

    def _term(self, e):
        k = e.decl().kind()
        if z3.is_bv(e):
            w = e.size()
            c = e.children()
            if z3.is_bv_value(e):
                x = e.as_long()
                return z3.IntVal(x), x, x
            if k == z3.Z3_OP_UNINTERPRETED and not c:
                v = z3.Int('!i' + e.decl().name())
                self.vars[e.decl().name()] = (e, v)
                lo, hi = self.bounds.get(e.get_id(), (0, (1 << w) - 1))
                self.side += [v >= lo, v <= hi]
                return v, lo, hi
            if k == z3.Z3_OP_BADD:
                vs = [self.bv(x) for x in c]
                # constants that stand for negative numbers
                tot, lo, hi = None, 0, 0
                for (v, a, b) in vs:
                    if a == b and a >= 1 << (w - 1):
                        v, a, b = z3.IntVal(a - (1 << w)), a - (1 << w), a - (1 << w)
                    tot = v if tot is None else tot + v
                    lo += a
                    hi += b
                return self.wrap(tot, lo, hi, w)
            if k == z3.Z3_OP_BSUB:
                (v, a, b), (v2, a2, b2) = self.bv(c[0]), self.bv(c[1])
                return self.wrap(v - v2, a - b2, b - a2, w)
            if k == z3.Z3_OP_BNEG:
                v, a, b = self.bv(c[0])
                return self.wrap(-v, -b, -a, w)
            if k == z3.Z3_OP_BMUL:
                vs = [self.bv(x) for x in c]
                tot, lo, hi = vs[0]
                if lo == hi and lo >= 1 << (w - 1):
                    tot, lo, hi = z3.IntVal(lo - (1 << w)), lo - (1 << w), lo - (1 << w)
                for (v, a, b) in vs[1:]:
                    if a != b and lo != hi:
                        raise No('product')
                    tot = tot * v
                    ps = [lo * a, lo * b, hi * a, hi * b]
                    lo, hi = min(ps), max(ps)
                return self.wrap(tot, lo, hi, w)
            if k in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I, z3.Z3_OP_BUREM, z3.Z3_OP_BUREM_I) and z3.is_bv_value(c[1]) \
                    and c[1].as_long() > 0:
                q, r = self.divmod(*self.bv(c[0]), c[1].as_long())
                return q if k in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I) else r
            if k == z3.Z3_OP_ZERO_EXT:
                return self.bv(c[0])
            if k == z3.Z3_OP_SIGN_EXT:
                v, lo, hi = self.signed(c[0])
                if lo >= 0:
                    return v, lo, hi
                return z3.If(v < 0, v + (1 << w), v), 0, (1 << w) - 1
            if k == z3.Z3_OP_CONCAT:
                tot, lo, hi = self.bv(c[0])
                for x in c[1:]:
                    v, a, b = self.bv(x)
                    m = 1 << x.size()
                    tot, lo, hi = tot * m + v, lo * m + a, hi * m + b
                return tot, lo, hi
            if k == z3.Z3_OP_EXTRACT:
                h, l = e.params()
                v, lo, hi = self.bv(c[0])
                if l:
                    (v, lo, hi), _ = self.divmod(v, lo, hi, 1 << l)
                _, r = self.divmod(v, lo, hi, 1 << (h - l + 1))
                return r
            if k == z3.Z3_OP_BSHL and z3.is_bv_value(c[1]):
                s = c[1].as_long()
                v, lo, hi = self.bv(c[0])
                return self.wrap(v * (1 << s), lo << s, hi << s, w)
            if k == z3.Z3_OP_BLSHR and z3.is_bv_value(c[1]):
                return self.divmod(*self.bv(c[0]), 1 << c[1].as_long())[0]
            if k == z3.Z3_OP_BASHR and z3.is_bv_value(c[1]):
                v, lo, hi = self.signed(c[0])
                d = 1 << c[1].as_long()
                if lo >= 0:
                    return self.divmod(v, lo, hi, d)[0]
                off = -(lo // d) * d
                (q, a, b), _ = self.divmod(v + off, lo + off, hi + off, d)
                return self.wrap(q - off // d, a - off // d, b - off // d, w)
            if k == z3.Z3_OP_BAND and len(c) == 2 and (z3.is_bv_value(c[0]) or z3.is_bv_value(c[1])):
                m, x = (c[0], c[1]) if z3.is_bv_value(c[0]) else (c[1], c[0])
                m = m.as_long()
                if m == 0:
                    return z3.IntVal(0), 0, 0
                sh = (m & -m).bit_length() - 1
                m >>= sh
                if m & (m + 1):
                    raise No('mask')
                v, lo, hi = self.bv(x)
                if sh:
                    (v, lo, hi), _ = self.divmod(v, lo, hi, 1 << sh)
                _, (v, lo, hi) = self.divmod(v, lo, hi, m + 1)
                return v * (1 << sh), lo << sh, hi << sh
            if k == z3.Z3_OP_ITE:
                (v, a, b), (v2, a2, b2) = self.bv(c[1]), self.bv(c[2])
                return z3.If(self.boolean(c[0]), v, v2), min(a, a2), max(b, b2)
            raise No(e.decl().name())
        raise No('sort')

    def boolean(self, e):
        k = ('b', e.get_id())
        r = self.memo.get(k)
        if r is None:
            r = self._bool(e)
            self.memo[k] = r
        return r

    def _bool(self, e):
        k = e.decl().kind()
        c = e.children()
        if z3.is_true(e) or z3.is_false(e):
            return e
        if k == z3.Z3_OP_NOT:
            return z3.Not(self.boolean(c[0]))
        if k == z3.Z3_OP_AND:
            return z3.And([self.boolean(x) for x in c])
        if k == z3.Z3_OP_OR:
            return z3.Or([self.boolean(x) for x in c])
        if k == z3.Z3_OP_IMPLIES:
            return z3.Implies(self.boolean(c[0]), self.boolean(c[1]))
        if k == z3.Z3_OP_ITE:
            return z3.If(*[self.boolean(x) for x in c])
        if k in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT) and len(c) == 2:
            if z3.is_bv(c[0]):
                a, b = self.bv(c[0])[0], self.bv(c[1])[0]
            elif z3.is_bool(c[0]):
                a, b = self.boolean(c[0]), self.boolean(c[1])
            else:
                raise No('eq sort')
            return a == b if k == z3.Z3_OP_EQ else a != b
        if c and z3.is_bv(c[0]):
            un = {z3.Z3_OP_ULEQ: '<=', z3.Z3_OP_ULT: '<', z3.Z3_OP_UGEQ: '>=', z3.Z3_OP_UGT: '>'}
            sg = {z3.Z3_OP_SLEQ: '<=', z3.Z3_OP_SLT: '<', z3.Z3_OP_SGEQ: '>=', z3.Z3_OP_SGT: '>'}
            if k in un:
                a, b, o = self.bv(c[0])[0], self.bv(c[1])[0], un[k]
            elif k in sg:
                a, b, o = self.signed(c[0])[0], self.signed(c[1])[0], sg[k]
            else:
                raise No(e.decl().name())
            return a <= b if o == '<=' else a < b if o == '<' else a >= b if o == '>=' else a > b
        if k == z3.Z3_OP_UNINTERPRETED and not c and z3.is_bool(e):
            return e
        raise No(e.decl().name())


def solve(assertions, ms):
    """(result, model of the original variables or None)"""
    t = Tr()
    for a in assertions:
        t.learn(a)
    try:
        fs = [t.boolean(a) for a in assertions]
    except No:
        return z3.unknown, None
    s = z3.Solver()
    s.set('timeout', ms)
    s.add(fs)
    s.add(t.side)
    r = s.check()
    if r != z3.sat:
        return r, None
    m = s.model()
    b = z3.Solver()
    b.set('timeout', ms)
    b.add(assertions)
    for e, v in t.vars.values():
        b.add(e == m.eval(v, model_completion=True).as_long())
    if b.check() == z3.sat:
        return z3.sat, b
    return z3.unknown, None
