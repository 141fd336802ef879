"""Exact polynomial / rational-function normal forms for value-graph terms.

Ring(vars, p): GF(p)[vars] (p prime) or Q[vars] (p None), optionally modulo rewrite rules
v^d -> polynomial (a triangular Groebner basis with coprime leading terms, e.g. y^2 = x^3+ax+b).
"""
from fractions import Fraction
import dd as D
from absint import Term, AnalysisError, Undef, ATOMS, show

BITS = 20


class TooBig(AnalysisError):
    pass


class Ring:
    LIMIT = 3_000_000

    def __init__(self, names, p=None):
        self.names = list(names)
        self.p = p
        self.ix = {n: i for i, n in enumerate(self.names)}
        self.factors = []; self.findex = {}
        self.rules = []   # (shift, d, poly)

    def add_var(self, n):
        if n not in self.ix:
            self.ix[n] = len(self.names); self.names.append(n)
        return self.var(n)

    def const(self, c):
        if self.p is not None:
            if isinstance(c, Fraction):
                c = c.numerator * pow(c.denominator, -1, self.p)
            c %= self.p
        return {0: c} if c else {}

    def var(self, n):
        return {1 << (BITS * self.ix[n]): 1}

    def rule(self, name, d, poly):
        """name^d -> poly"""
        self.rules.append((BITS * self.ix[name], d, poly))

    def add(self, a, b):
        if not a: return b
        if not b: return a
        if len(a) < len(b): a, b = b, a
        r = dict(a); p = self.p
        for m, c in b.items():
            s = r.get(m, 0) + c
            if p is not None: s %= p
            if s: r[m] = s
            else: r.pop(m, None)
        return r

    def neg(self, a):
        p = self.p
        if p is None: return {m: -c for m, c in a.items()}
        return {m: p - c for m, c in a.items()}

    def sub(self, a, b): return self.add(a, self.neg(b))

    def scale(self, a, k):
        p = self.p
        if p is None: return {m: c * k for m, c in a.items()} if k else {}
        k %= p
        return {m: c * k % p for m, c in a.items()} if k else {}

    def mul(self, a, b):
        if not a or not b: return {}
        if len(a) > len(b): a, b = b, a
        if len(a) == 1:
            (m1, c1), = a.items()
            if m1 == 0: return self.scale(b, c1)
        r = {}
        p = self.p
        bi = list(b.items())
        get = r.get
        for m1, c1 in a.items():
            for m2, c2 in bi:
                m = m1 + m2
                r[m] = get(m, 0) + c1 * c2
            if len(r) > self.LIMIT: raise TooBig("polynomial too large")
        if p is not None: r = {m: c % p for m, c in r.items() if c % p}
        else: r = {m: c for m, c in r.items() if c}
        return self.reduce(r) if self.rules else r

    def reduce(self, r):
        MSK = (1 << BITS) - 1
        for sh, d, q in self.rules:
            while True:
                bad = [m for m in r if ((m >> sh) & MSK) >= d]
                if not bad: break
                acc = {}
                byk = {}
                for m in bad:
                    c = r.pop(m)
                    e = (m >> sh) & MSK
                    k = e // d
                    byk.setdefault(k, {})
                    m2 = m - ((k * d) << sh)
                    t = byk[k]
                    t[m2] = t.get(m2, 0) + c
                for k, t in byk.items():
                    rr, self.rules = self.rules, []
                    f = self.powr(q, k)
                    x = self.mul(t, f)
                    self.rules = rr
                    acc = self.add(acc, x)
                r = self.add(r, acc)
        if len(self.rules) > 1:
            for sh, d, q in self.rules:
                if any(((m >> sh) & MSK) >= d for m in r): return self.reduce(r)
        return r

    def powr(self, a, n):
        r = {0: 1}
        while n:
            if n & 1: r = self.mul(r, a)
            n >>= 1
            if n: a = self.mul(a, a)
        return r

    def show(self, a, maxn=8):
        if not a: return "0"
        out = []
        for m, c in sorted(a.items(), reverse=True)[:maxn]:
            s = []
            for i, n in enumerate(self.names):
                e = (m >> (BITS * i)) & ((1 << BITS) - 1)
                if e: s.append(n if e == 1 else f"{n}^{e}")
            if self.p is not None and c > self.p // 2: c -= self.p
            if s: out.append("*".join(([str(c)] if c != 1 else []) + s))
            else: out.append(str(c))
        return " + ".join(out) + (f" + ...({len(a)} terms)" if len(a) > maxn else "")

    def content_normal(self, a):
        """canonical representative up to a non-zero scalar; (poly, sign of the scalar over Q)"""
        lead = a[max(a)]
        if self.p is not None:
            return self.scale(a, pow(lead, -1, self.p)), 1
        return {m: Fraction(c) / lead for m, c in a.items()}, (1 if lead > 0 else -1)


class Rat:
    """rational function num/den in a Ring"""
    __slots__ = ("R", "n", "d")
    def __init__(self, R, n, d=None):
        self.R = R; self.n = n; self.d = d if d is not None else {0: 1}

    @property
    def poly(self): return len(self.d) == 1 and 0 in self.d

    def _co(self, o):
        if isinstance(o, Rat): return o
        return Rat(self.R, self.R.const(o))

    def __add__(self, o):
        o = self._co(o); R = self.R
        if self.d == o.d: return Rat(R, R.add(self.n, o.n), self.d)
        return Rat(R, R.add(R.mul(self.n, o.d), R.mul(o.n, self.d)), R.mul(self.d, o.d))
    __radd__ = __add__

    def __neg__(self): return Rat(self.R, self.R.neg(self.n), self.d)
    def __sub__(self, o): return self + (-self._co(o))
    def __rsub__(self, o): return self._co(o) + (-self)

    def __mul__(self, o):
        o = self._co(o); R = self.R
        if self.n == o.d: return Rat(R, o.n, self.d)
        if o.n == self.d: return Rat(R, self.n, o.d)
        return Rat(R, R.mul(self.n, o.n), R.mul(self.d, o.d))
    __rmul__ = __mul__

    def inv(self):
        if not self.n: raise ZeroDivisionError
        return Rat(self.R, self.d, self.n)

    def __truediv__(self, o): return self * self._co(o).inv()
    def __rtruediv__(self, o): return self._co(o) * self.inv()

    def __pow__(self, k):
        if k < 0: return self.inv() ** (-k)
        return Rat(self.R, self.R.powr(self.n, k), self.R.powr(self.d, k))

    def is_zero(self): return not self.n
    def eq(self, o): return (self - self._co(o)).is_zero()
    def __repr__(self):
        if self.poly and self.d[0] == 1: return self.R.show(self.n)
        return f"({self.R.show(self.n)})/({self.R.show(self.d)})"


def exact_div(R, a, b):
    """a / b when b divides a exactly, else None (graded by packed monomial order)"""
    if not a: return a
    lb = max(b); cb = b[lb]
    M = (1 << BITS) - 1
    nv = len(R.names)
    q = {}; a = dict(a)
    sh = [BITS * i for i in range(nv) if (lb >> (BITS * i)) & M]
    while a:
        la = max(a)
        for s in sh:
            if (la >> s) & M < (lb >> s) & M: return None
        m = la - lb
        c = a[la] / Fraction(cb) if R.p is None else a[la] * pow(cb, -1, R.p) % R.p
        q[m] = c
        for k, v in b.items():
            x = a.get(k + m, 0) - v * c
            if R.p is not None: x %= R.p
            if x: a[k + m] = x
            else: a.pop(k + m, None)
        if len(q) > 5000: return None
    return q


class FRat(Rat):
    """rational function whose denominator is kept as a product of known factors, cancelled by trial division"""
    __slots__ = ("f",)

    def __init__(self, R, n, f=()):
        self.R = R; self.n = n; self.f = f if n else ()

    @staticmethod
    def make(R, n, f):
        if not n: return FRat(R, n)
        out = []
        for k, e in f:
            b = R.factors[k]
            while e:
                q = exact_div(R, n, b)
                if q is None: break
                n = q; e -= 1
            if e: out.append((k, e))
        return FRat(R, n, tuple(out))

    @property
    def d(self):
        r = {0: 1}
        for k, e in self.f: r = self.R.mul(r, self.R.powr(self.R.factors[k], e))
        return r

    @property
    def poly(self): return not self.f

    def _co(self, o):
        if isinstance(o, FRat): return o
        if isinstance(o, Rat):
            x = FRat(self.R, o.n)
            return x if o.poly and o.d[0] == 1 else x * FRat(self.R, o.d).inv()
        return FRat(self.R, self.R.const(o))

    def _prod(self, f):
        r = {0: 1}
        for k, e in f:
            if e: r = self.R.mul(r, self.R.powr(self.R.factors[k], e))
        return r

    def __add__(self, o):
        o = self._co(o); R = self.R
        if self.f == o.f: return FRat.make(R, R.add(self.n, o.n), self.f)
        da, db = dict(self.f), dict(o.f)
        l = {k: max(da.get(k, 0), db.get(k, 0)) for k in set(da) | set(db)}
        ma = self._prod((k, l[k] - da.get(k, 0)) for k in l); mb = self._prod((k, l[k] - db.get(k, 0)) for k in l)
        return FRat.make(R, R.add(R.mul(self.n, ma), R.mul(o.n, mb)), tuple(sorted(l.items())))
    __radd__ = __add__

    def __neg__(self): return FRat(self.R, self.R.neg(self.n), self.f)

    def __mul__(self, o):
        o = self._co(o); R = self.R
        a = FRat.make(R, self.n, o.f); b = FRat.make(R, o.n, self.f)
        l = dict(b.f)
        for k, e in a.f: l[k] = l.get(k, 0) + e
        return FRat(R, R.mul(a.n, b.n), tuple(sorted(l.items())))
    __rmul__ = __mul__

    def inv(self):
        R = self.R
        if not self.n: raise ZeroDivisionError
        n = self._prod(self.f)
        if set(self.n) == {0}:
            c = self.n[0]
            return FRat(R, R.scale(n, Fraction(1) / c if R.p is None else pow(c, -1, R.p)))
        nq, _ = R.content_normal(self.n)
        lead = self.n[max(self.n)]
        # split off monomial content
        f = {}
        M = (1 << BITS) - 1
        for i in range(len(R.names)):
            s = BITS * i
            low = min((m >> s) & M for m in nq)
            if low:
                nq = {m - (low << s): c for m, c in nq.items()}
                f[self._fac({1 << s: 1})] = low
        if set(nq) != {0}:
            for k, b in list(enumerate(R.factors)):
                if len(b) == 1: continue
                while True:
                    q = exact_div(R, nq, b)
                    if q is None: break
                    nq = q; f[k] = f.get(k, 0) + 1
            if set(nq) != {0}:
                nq2, _ = R.content_normal(nq)
                k = self._fac(nq2); f[k] = f.get(k, 0) + 1
        return FRat.make(R, R.scale(n, Fraction(1) / lead if R.p is None else pow(lead, -1, R.p)), tuple(sorted(f.items())))

    def _fac(self, q):
        R = self.R
        k = frozenset(q.items())
        if k not in R.findex:
            R.findex[k] = len(R.factors); R.factors.append(q)
        return R.findex[k]

    def __pow__(self, k):
        if k < 0: return self.inv() ** (-k)
        r = FRat(self.R, {0: 1})
        for _ in range(k): r = r * self
        return r


class NeedSplit(Exception):
    def __init__(self, key): self.key = key


class DivZero(Exception):
    def __init__(self, t): self.t = t


class Eval:
    """Normalise value-graph terms for one stratum.

    inputs: dict input name -> Rat.   assign: dict atom key -> bool (case assumptions).
    generic: an equality atom whose difference is not identically zero is false (generic point).
    """
    def __init__(self, R, inputs, generic=True, assign=None, opaque=None, sub=None):
        self.R = R; self.inputs = inputs; self.generic = generic
        self.assign = dict(assign or {}); self.memo = {}
        self.used = []
        self.opaque = opaque
        self.sub = sub or {}

    def value(self, d):
        """DD -> normalised leaf"""
        d = self.pick(d)
        v = d.v
        if isinstance(v, Term): return self.term(v)
        if isinstance(v, bool): return v
        if isinstance(v, (int, Fraction)): return Rat(self.R, self.R.const(v))
        return v

    def pick(self, d):
        while not d.leaf:
            d = d.hi if self.atom(d.var) else d.lo
        return d

    def bool(self, d):
        v = self.pick(d).v
        if isinstance(v, Undef): raise AnalysisError("undefined boolean")
        return bool(v)

    def atom(self, var):
        kind, p, args = ATOMS.l[var]
        m = self.memo.get(("atom", var))
        if m is not None: return m
        r = self.atom1(kind, p, args, var)
        self.memo[("atom", var)] = r
        return r

    def sign(self, q):
        """sign of a polynomial all of whose variables are declared positive, if its coefficients agree"""
        if not q: return 0
        if len({c > 0 for c in q.values()}) != 1: return None
        pos = getattr(self.R, "pos", ())
        m = 0
        for k in q: m |= k
        for i, n in enumerate(self.R.names):
            if (m >> (BITS * i)) & ((1 << BITS) - 1) and n not in pos: return None
        return 1 if next(iter(q.values())) > 0 else -1

    def lookup(self, key):
        if key in self.assign: return self.assign[key]
        raise NeedSplit(key)

    def atom1(self, kind, p, args, var):
        if kind in ("eq", "lt") and not (isinstance(args[0], Term) and args[0].op.startswith("i") and args[0].op not in ("in", "inv")):
            a = self.term(args[0]); b = self.term(args[1])
            d = a - b
            if d.is_zero(): return kind == "eq"
            if d.poly and set(d.n) == {0}:
                c = d.n[0]
                if kind == "eq": return False
                if self.R.p is None: return c < 0
            if kind == "eq":
                if self.generic: return False
                if self.R.p is None and self.sign(self.R.mul(d.n, d.d)): return False
                q, _ = self.R.content_normal(d.n)
                return self.lookup(("eq", frozenset(q.items())))
            if self.R.p is None:
                sg = self.sign(d.n)
                sd = self.sign(d.d) if sg is not None else None
                if sd is not None: return sg * sd < 0
                q, s = self.R.content_normal(self.R.mul(d.n, d.d))
                # sign of q: key holds sgn in {-1,0,1}
                sg = self.lookup(("sgn", frozenset(q.items())))
                return sg * s < 0
            return self.lookup(("lt", frozenset(a.n.items()), frozenset(b.n.items())))
        if self.opaque:
            r = self.opaque(self, kind, p, args)
            if r is not None: return r
        return self.lookup(("atom", var))

    def term(self, t):
        r = self.memo.get(t.id)
        if r is not None: return r
        # iterative post-order
        st = [t]
        while st:
            x = st[-1]
            if x.id in self.memo: st.pop(); continue
            if x.op == "gate":
                leafd = self.pick(x.args[0])
                v = leafd.v
                if isinstance(v, Term):
                    if v.id not in self.memo: st.append(v); continue
                    self.memo[x.id] = self.memo[v.id]
                elif isinstance(v, (int, Fraction)): self.memo[x.id] = Rat(self.R, self.R.const(v))
                else: raise AnalysisError(f"gate leaf {v!r}")
                st.pop(); continue
            todo = [a for a in x.args if isinstance(a, Term) and a.id not in self.memo]
            if todo and x.op not in self.sub:
                st.extend(todo); continue
            self.memo[x.id] = self.op(x)
            st.pop()
        return self.memo[t.id]

    def op(self, x):
        if x.op in self.sub: return self.sub[x.op](self, x)
        A = [self.memo[a.id] if isinstance(a, Term) else a for a in x.args]
        o = x.op
        if o == "in":
            r = self.inputs.get(A[0])
            if r is None: raise AnalysisError(f"no input {A[0]}")
            return r
        if o == "c": return Rat(self.R, self.R.const(A[0]))
        if o == "add": return A[0] + A[1]
        if o == "sub": return A[0] - A[1]
        if o == "mul": return A[0] * A[1]
        if o == "neg": return -A[0]
        if o == "div":
            if A[1].is_zero(): raise DivZero(x)
            return A[0] / A[1]
        if o == "inv":
            if A[0].is_zero(): raise DivZero(x)
            return A[0].inv()
        if o == "undef": raise AnalysisError("undefined value used")
        if self.opaque:
            r = self.opaque(self, x.op, x.p, A)
            if r is not None: return r
        raise AnalysisError(f"term {x.op}")


def enumerate_cases(mk, body, limit=200000, sgn_values=(-1, 0, 1)):
    """Run body(Eval) for every consistent assignment of the atoms it turns out to depend on.
    mk(assign) -> Eval.  yields (assign, result)."""
    st = [{}]
    n = 0
    while st:
        a = st.pop()
        try:
            e = mk(a)
            r = body(e)
        except NeedSplit as s:
            vals = sgn_values if s.key[0] == "sgn" else (True, False)
            for v in vals:
                b = dict(a); b[s.key] = v
                st.append(b)
            continue
        n += 1
        if n > limit: raise AnalysisError("too many guard cases")
        yield a, r
