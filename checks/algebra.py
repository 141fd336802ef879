"""A01-A06: vectors, matrices, scalar helpers."""
import itertools, math
from fractions import Fraction
from core import *
from harn import *
from absint import analyse, term, leaf, as_term, AnalysisError, f_bin, ATOMS, D
import absint, poly

PRE = r'''
#include <hio.hpp>
#include <limits>
#include <complex>
#include <nil/crypto3/algebra/vector/vector.hpp>
#include <nil/crypto3/algebra/vector/math.hpp>
#include <nil/crypto3/algebra/vector/operators.hpp>
#include <nil/crypto3/algebra/vector/utility.hpp>
#include <nil/crypto3/algebra/matrix/matrix.hpp>
#include <nil/crypto3/algebra/matrix/math.hpp>
#include <nil/crypto3/algebra/matrix/operators.hpp>
#include <nil/crypto3/algebra/matrix/utility.hpp>
#include <nil/crypto3/algebra/scalar/math.hpp>
namespace al = nil::crypto3::algebra;
typedef std::complex<double> cd;
template<std::size_t N> al::vector<double,N> V(int b){ al::vector<double,N> v{}; for(std::size_t i=0;i<N;i++) v[i]=vd_in(b+i); return v; }
template<std::size_t N> al::vector<cd,N> CV(int b){ al::vector<cd,N> v{}; for(std::size_t i=0;i<N;i++) v[i]=cd(vd_in(b+2*i),vd_in(b+2*i+1)); return v; }
template<std::size_t M,std::size_t N> al::matrix<double,M,N> A(int b){ al::matrix<double,M,N> m{}; for(std::size_t i=0;i<M;i++)for(std::size_t j=0;j<N;j++) m[i][j]=vd_in(b+i*N+j); return m; }
template<std::size_t M,std::size_t N> al::matrix<cd,M,N> CA(int b){ al::matrix<cd,M,N> m{}; for(std::size_t i=0;i<M;i++)for(std::size_t j=0;j<N;j++) m[i][j]=cd(vd_in(b+2*(i*N+j)),vd_in(b+2*(i*N+j)+1)); return m; }
inline void o1(int k,double x){ vd_out(k,x);} inline void o1(int k,float x){ vd_out(k,x);} inline void o1(int k,bool x){ vi_out(k,x);} inline void o1(int k,int x){ vi_out(k,x);} inline void o1(int k,std::size_t x){ vi_out(k,x);}
inline void o1(int k,cd x){ vd_out(2*k,x.real()); vd_out(2*k+1,x.imag()); }
template<class T,std::size_t N> void O(const al::vector<T,N>&v){ for(std::size_t i=0;i<N;i++) o1(i,v[i]); }
template<class T,std::size_t M,std::size_t N> void O(const al::matrix<T,M,N>&m){ for(std::size_t i=0;i<M;i++)for(std::size_t j=0;j<N;j++) o1(i*N+j,m[i][j]); }
template<class T,class=std::enable_if_t<std::is_arithmetic<T>::value>> void O(T x){ o1(0,x); }
inline void O(cd x){ o1(0,x); }
'''


def vec(e, b, n): return [e[b + i] for i in range(n)]
def mat(e, b, m, n): return [[e[b + i * n + j] for j in range(n)] for i in range(m)]
def flat(M): return {i: v for i, v in enumerate(x for r in M for x in r)}
def enum(l): return dict(enumerate(l))


def rank_strata(n, absolute=False):
    """All weak orderings of n reals (optionally with all sign patterns): substitution per stratum."""
    out = []
    for ranks in itertools.product(range(n), repeat=n):
        if set(ranks) != set(range(max(ranks) + 1)): continue
        signs = itertools.product((-1, 0, 1), repeat=n) if absolute else [None]
        for sg in signs:
            def sub(e, ranks=ranks, sg=sg):
                r = {}
                for i, k in enumerate(ranks):
                    v = e.c(0) if sg is not None else e.v("b")
                    for t in range(0 if sg is not None else 1, k + 1): v = v + e.v(f"e{t}")
                    r[i] = v * sg[i] if sg is not None else v
                return r
            out.append(("order" + "".join(map(str, ranks)) + ("" if sg is None else "s" + "".join("-0+"[s + 1] for s in sg)), sub))
    return out, [f"e{t}" for t in range(n)]


def lt(e, a, b):
    """decide a<b in the stratum, consistently with the code's own comparisons"""
    d = a - b
    if d.is_zero(): return False
    s = e.e.sign(e.R.mul(d.n, d.d))
    if s is None: raise Broken("oracle comparison undecided in stratum")
    return s < 0


def eq_strata(n, b):
    """all-equal, and differ in exactly one place"""
    out = [("equal", lambda e: {b + i: e[i] for i in range(n)})]
    for k in range(n):
        def sub(e, k=k):
            r = {b + i: e[i] for i in range(n)}
            r[b + k] = e[k] + e.v("delta")
            return r
        out.append((f"differ{k}", sub))
    return out


# ------------------------------------------------------------------ A01
def vector_obs(sizes):
    obs = []
    for n in sizes:
        v = f"V<{n}>(0)"; w = f"V<{n}>(100)"; s = "vd_in(50)"
        bin_ = lambda key, ex, f, anc: obs.append(Ob(f"vector/{key}/N{n}", f"O({ex});", f, anc))
        r = range(n)
        bin_("add", f"{v}+{w}", lambda e, n=n: enum([e[i] + e[100 + i] for i in range(n)]), "operator+@vector/operators")
        bin_("hadamard", f"{v}*{w}", lambda e, n=n: enum([e[i] * e[100 + i] for i in range(n)]), "operator*@vector/operators")
        bin_("quotient", f"{v}/{w}", lambda e, n=n: enum([e[i] / e[100 + i] for i in range(n)]), "operator/@vector/operators")
        bin_("add-scalar-right", f"{v}+{s}", lambda e, n=n: enum([e[i] + e[50] for i in range(n)]), "operator+@vector/operators")
        bin_("add-scalar-left", f"{s}+{v}", lambda e, n=n: enum([e[i] + e[50] for i in range(n)]), "operator+@vector/operators")
        bin_("mul-scalar-right", f"{v}*{s}", lambda e, n=n: enum([e[i] * e[50] for i in range(n)]), "operator*@vector/operators")
        bin_("mul-scalar-left", f"{s}*{v}", lambda e, n=n: enum([e[i] * e[50] for i in range(n)]), "operator*@vector/operators")
        bin_("scalar-quotient", f"{s}/{v}", lambda e, n=n: enum([e[50] / e[i] for i in range(n)]), "operator/@vector/operators")
        bin_("dot", f"al::dot({v},{w})", lambda e, n=n: {0: sum(e[i] * e[100 + i] for i in range(n))}, "dot")
        bin_("sum", f"al::sum({v})", lambda e, n=n: {0: sum(e[i] for i in range(n))}, "sum")
        bin_("accumulate", f"al::accumulate({v},{s},[](double a,double b){{return a/b;}})",
             lambda e, n=n: {0: fold_div(e[50], [e[i] for i in range(n)])}, "accumulate")
        bin_("elementwise1", f"al::elementwise([](double a){{return a*a+3.0;}},{v})", lambda e, n=n: enum([e[i] * e[i] + 3 for i in range(n)]), "elementwise@vector/")
        bin_("elementwise3", f"al::elementwise([](double a,double b,double c){{return a*b-c;}},{v},{w},V<{n}>(200))",
             lambda e, n=n: enum([e[i] * e[100 + i] - e[200 + i] for i in range(n)]), "elementwise@vector/")
        obs.append(Ob(f"vector/eq/N{n}", f"O({v}=={w});", lambda e, n=n: {0: all(e[i].eq(e[100 + i]) for i in range(n))}, "operator==@vector/operators", strata=eq_strata(n, 100)))
        obs.append(Ob(f"vector/ne/N{n}", f"O({v}!={w});", lambda e, n=n: {0: not all(e[i].eq(e[100 + i]) for i in range(n))}, "operator!=@vector/operators", strata=eq_strata(n, 100)))
        if n <= 3:
            st, pos = rank_strata(n)
            def omin(e, n=n, mx=False):
                m = e[0]
                for i in range(1, n):
                    if (lt(e, m, e[i]) if mx else lt(e, e[i], m)): m = e[i]
                return m
            def oidx(e, n=n, mx=False):
                m = 0
                for i in range(1, n):
                    if (lt(e, e[m], e[i]) if mx else lt(e, e[i], e[m])): m = i
                return m
            for nm, mx in (("min", False), ("max", True)):
                obs.append(Ob(f"vector/{nm}/N{n}", f"O(al::{nm}({v}));", lambda e, mx=mx, f=omin: {0: f(e, mx=mx)}, nm, strata=st, pos=pos))
                # any index of an extremal element is acceptable: emit the element at the returned index
                obs.append(Ob(f"vector/{nm}_index/N{n}", f"auto v={v}; std::size_t k=al::{nm}_index(v); o1(0,v[k]);",
                              lambda e, mx=mx, f=omin: {0: f(e, mx=mx)}, nm + "_index", strata=st, pos=pos))
            sa, pa = rank_strata(n, True) if n <= 2 else ([], [])
            if sa:
                obs.append(Ob(f"vector/abs/N{n}", f"O(al::elementwise([](double x){{return al::abs(x);}},{v}));",
                              lambda e, n=n: enum([-e[i] if lt(e, e[i], e.c(0)) else e[i] for i in range(n)]), "abs", strata=sa, pos=pa))
        c = f"CV<{n}>(0)"; d = f"CV<{n}>(100)"
        cx = lambda e, b, i: (e[b + 2 * i], e[b + 2 * i + 1])
        def cdot(e, n=n):
            re = im = e.c(0)
            for i in range(n):
                (a, b), (x, y) = cx(e, 0, i), cx(e, 100, i)
                re = re + a * x + b * y; im = im + b * x - a * y
            return {0: re, 1: im}
        bin_("complex-dot", f"al::dot({c},{d})", cdot, "dot")
        bin_("complex-conj", f"al::conj({c})", lambda e, n=n: {k: v for i in range(n) for k, v in ((2 * i, e[2 * i]), (2 * i + 1, -e[2 * i + 1]))}, "conj")
        bin_("complex-real", f"al::real({c})", lambda e, n=n: enum([e[2 * i] for i in range(n)]), "real")
        bin_("complex-imag", f"al::imag({c})", lambda e, n=n: enum([e[2 * i + 1] for i in range(n)]), "imag")
        bin_("complex-sum", f"al::sum({c})", lambda e, n=n: {0: sum(e[2 * i] for i in range(n)), 1: sum(e[2 * i + 1] for i in range(n))}, "sum")
    return obs


def fold_div(a, l):
    for x in l: a = a / x
    return a


# ------------------------------------------------------------------ A02
def matrix_obs(shapes, triples):
    obs = []
    for m, n in shapes:
        a = f"A<{m},{n}>(0)"; b = f"A<{m},{n}>(100)"; s = "vd_in(50)"; k = m * n
        t = f"{m}x{n}"
        add = lambda key, ex, f, anc: obs.append(Ob(f"matrix/{key}/{t}", f"O({ex});", f, anc))
        add("add", f"{a}+{b}", lambda e, k=k: enum([e[i] + e[100 + i] for i in range(k)]), "operator+@matrix/operators")
        add("hadamard", f"{a}*{b}", lambda e, k=k: enum([e[i] * e[100 + i] for i in range(k)]), "operator*@matrix/operators")
        add("quotient", f"{a}/{b}", lambda e, k=k: enum([e[i] / e[100 + i] for i in range(k)]), "operator/@matrix/operators")
        add("add-scalar-right", f"{a}+{s}", lambda e, k=k: enum([e[i] + e[50] for i in range(k)]), "operator+@matrix/operators")
        add("add-scalar-left", f"{s}+{a}", lambda e, k=k: enum([e[i] + e[50] for i in range(k)]), "operator+@matrix/operators")
        add("mul-scalar-right", f"{a}*{s}", lambda e, k=k: enum([e[i] * e[50] for i in range(k)]), "operator*@matrix/operators")
        add("mul-scalar-left", f"{s}*{a}", lambda e, k=k: enum([e[i] * e[50] for i in range(k)]), "operator*@matrix/operators")
        add("scalar-quotient", f"{s}/{a}", lambda e, k=k: enum([e[50] / e[i] for i in range(k)]), "operator/@matrix/operators")
        add("transpose", f"al::transpose({a})", lambda e, m=m, n=n: enum([e[i * n + j] for j in range(n) for i in range(m)]), "transpose")
        add("elementwise2", f"al::elementwise([](double x,double y){{return x*x-y;}},{a},{b})", lambda e, k=k: enum([e[i] * e[i] - e[100 + i] for i in range(k)]), "elementwise@matrix/")
        add("vectmatmul", f"al::vectmatmul(V<{m}>(200),{a})", lambda e, m=m, n=n: enum([sum(e[200 + i] * e[i * n + j] for i in range(m)) for j in range(n)]), "vectmatmul")
        add("matvectmul", f"al::matvectmul({a},V<{n}>(200))", lambda e, m=m, n=n: enum([sum(e[200 + j] * e[i * n + j] for j in range(n)) for i in range(m)]), "matvectmul")
        obs.append(Ob(f"matrix/eq/{t}", f"O({a}=={b});", lambda e, k=k: {0: all(e[i].eq(e[100 + i]) for i in range(k))}, "operator==@matrix/operators", strata=eq_strata(k, 100)))
        obs.append(Ob(f"matrix/ne/{t}", f"O({a}!={b});", lambda e, k=k: {0: not all(e[i].eq(e[100 + i]) for i in range(k))}, "operator!=@matrix/operators", strata=eq_strata(k, 100)))
        for i in range(m):
            add(f"row{i}", f"{a}.row({i})", lambda e, i=i, n=n: enum([e[i * n + j] for j in range(n)]), "row")
        for j in range(n):
            add(f"column{j}", f"{a}.column({j})", lambda e, j=j, m=m, n=n: enum([e[i * n + j] for i in range(m)]), "column")
        c = f"CA<{m},{n}>(0)"
        add("complex-conj", f"al::conj({c})", lambda e, k=k: {q: v for i in range(k) for q, v in ((2 * i, e[2 * i]), (2 * i + 1, -e[2 * i + 1]))}, "conj@matrix/")
        add("complex-real", f"al::real({c})", lambda e, k=k: enum([e[2 * i] for i in range(k)]), "real@matrix/")
        add("complex-imag", f"al::imag({c})", lambda e, k=k: enum([e[2 * i + 1] for i in range(k)]), "imag@matrix/")
        def herm(e, m=m, n=n):
            r = {}; q = 0
            for j in range(n):
                for i in range(m):
                    r[2 * q] = e[2 * (i * n + j)]; r[2 * q + 1] = -e[2 * (i * n + j) + 1]; q += 1
            return r
        add("hermitian", f"al::hermitian({c})", herm, "hermitian")
        if m == n:
            add("trace", f"al::trace({a})", lambda e, n=n: {0: sum(e[i * n + i] for i in range(n))}, "trace")
        # norms: sums of absolute values, strata of signs; at most two competing sums
        if k <= 4 and n <= 2 or m == 1 and n <= 2:
            pass
    for m, n, q in triples:
        obs.append(Ob(f"matrix/matmul/{m}x{n}x{q}", f"O(al::matmul(A<{m},{n}>(0),A<{n},{q}>(100)));",
                      lambda e, m=m, n=n, q=q: enum([sum(e[i * n + k] * e[100 + k * q + j] for k in range(n)) for i in range(m) for j in range(q)]), "matmul"))
    for (m, n, r, s) in [(1, 1, 2, 2), (2, 2, 1, 1), (2, 3, 2, 2), (2, 1, 3, 2), (1, 3, 2, 3), (3, 2, 1, 3)]:
        def kr(e, m=m, n=n, r=r, s=s):
            return enum([e[(i // r) * n + j // s] * e[100 + (i % r) * s + j % s] for i in range(m * r) for j in range(n * s)])
        obs.append(Ob(f"matrix/kron/{m}x{n}*{r}x{s}", f"O(al::kron(A<{m},{n}>(0),A<{r},{s}>(100)));", kr, "kron"))
    # induced norms.  |entries| are distinct positive quantities; every sign pattern; the sums are ordered both ways
    for (m, n) in [(1, 1), (2, 1), (1, 2), (2, 2), (3, 2), (2, 3)]:
        for nm, groups in (("macs", [[i * n + j for i in range(m)] for j in range(n)]), ("mars", [[i * n + j for j in range(n)] for i in range(m)])):
            strata = []; pos = [f"e{i}" for i in range(m * n)] + ["d1", "d2"]
            signs = list(itertools.product((-1, 1), repeat=m * n)) if m * n <= 4 else [tuple(1 if (i * 7 + k) % 3 else -1 for i in range(m * n)) for k in range(3)]
            for sg in signs:
                for order in itertools.permutations(range(len(groups))):
                    def sub(e, sg=sg, order=order, groups=groups):
                        # make the sum of group order[k+1] exceed the sum of group order[k] by a positive amount
                        val = {}
                        tot = None
                        for g in order:
                            if tot is None:
                                for i in groups[g]: val[i] = e.v(f"e{i}")
                                tot = sum((val[i] for i in groups[g]), e.c(0))
                            else:
                                idx = groups[g]
                                # spread the previous total over this group, plus an increment
                                rest = tot + e.v("d1" if g == order[1] else "d2")
                                share = rest * Fraction(1, len(idx))
                                for i in idx: val[i] = share
                                tot = rest
                        return {i: val[i] * sg[i] for i in val}
                    strata.append(("s" + "".join("-+"[s > 0] for s in sg) + "o" + "".join(map(str, order)), sub))
            def orc(e, groups=groups):
                best = None
                for g in groups:
                    t = sum(((-e[i] if lt(e, e[i], e.c(0)) else e[i]) for i in g), e.c(0))
                    if best is None or lt(e, best, t): best = t
                return {0: best}
            obs.append(Ob(f"matrix/{nm}/{m}x{n}", f"O(al::{nm}(A<{m},{n}>(0)));", orc, nm, strata=strata, pos=pos))
    return obs


# ------------------------------------------------------------------ A03
def layout_obs():
    obs = []
    add = lambda key, ex, f, anc: obs.append(Ob(key, ex, f, anc))
    for n in (1, 2, 3, 5):
        add(f"fill/N{n}", f"O(al::fill<{n}>(vd_in(0)));", lambda e, n=n: enum([e[0]] * n), "fill@vector/")
        add(f"iota/N{n}", f"O(al::iota<{n}>(vd_in(0)));", lambda e, n=n: enum([e[0] + i for i in range(n)]), "iota")
        add(f"iota-default/N{n}", f"O(al::iota<{n},double>());", lambda e, n=n: enum([e.c(i) for i in range(n)]), "iota")
        add(f"generate/N{n}", f"double s=vd_in(0); O(al::generate<{n}>([s](auto i){{return s*double(i)+1.0;}}));", lambda e, n=n: enum([e[0] * i + 1 for i in range(n)]), "generate@vector/")
        if n > 1:
            add(f"linspace/N{n}", f"O(al::linspace<{n}>(vd_in(0),vd_in(1)));", lambda e, n=n: enum([e[0] + (e[1] - e[0]) * Fraction(i, n - 1) for i in range(n)]), "linspace")
        for k in range(-2 * n - 1, 2 * n + 2):
            add(f"rotate/N{n}by{k}", f"O(al::rotate<{n}>(V<{n}>(0),{k}));", lambda e, n=n, k=k: enum([e[(i + k) % n] for i in range(n)]), "rotate")
        for m in range(1, n + 1):
            for s in range(0, n - m + 1):
                add(f"slice/N{n}M{m}at{s}", f"O(al::slice<{m}>(V<{n}>(0),{s}));", lambda e, m=m, s=s: enum([e[s + i] for i in range(m)]), "slice")
            add(f"slice-default/N{n}M{m}", f"O(al::slice<{m}>(V<{n}>(0)));", lambda e, m=m: enum([e[i] for i in range(m)]), "slice")
        for m in (1, 2, 4):
            add(f"concat/N{n}M{m}", f"O(al::concat(V<{n}>(0),V<{m}>(100)));", lambda e, n=n, m=m: enum([e[i] for i in range(n)] + [e[100 + i] for i in range(m)]), "concat")
        add(f"as_column/N{n}", f"auto m=al::as_column(V<{n}>(0)); static_assert(m.column_size=={n}&&m.row_size==1,\"\"); O(m);", lambda e, n=n: enum(vec(e, 0, n)), "as_column")
        add(f"as_row/N{n}", f"auto m=al::as_row(V<{n}>(0)); static_assert(m.column_size==1&&m.row_size=={n},\"\"); O(m);", lambda e, n=n: enum(vec(e, 0, n)), "as_row")
        add(f"identity/N{n}", f"O(al::get_identity<double,{n}>());", lambda e, n=n: enum([e.c(int(i == j)) for i in range(n) for j in range(n)]), "get_identity")
        add(f"identity-constant/N{n}", f"O(al::identity<double,{n}>);", lambda e, n=n: enum([e.c(int(i == j)) for i in range(n) for j in range(n)]), "identity")
        add(f"vector-access/N{n}", f"auto v=V<{n}>(0); int k=0; for(auto it=v.cbegin(); it!=v.cend(); ++it) o1(k++,*it); for(auto &x: v) o1(k++,x); const auto w=v; for(int i=0;i<{n};i++) o1(k++,w[i]);",
            lambda e, n=n: enum(vec(e, 0, n) * 3), "begin")
        add(f"cast-vector/N{n}", f"O(al::cast<float>(V<{n}>(0)));", lambda e, n=n: enum(vec(e, 0, n)), "cast@vector/")
    add("make_vector", "O(al::make_vector(vd_in(0),vd_in(1),vd_in(2)));", lambda e: enum(vec(e, 0, 3)), "make_vector")
    add("vector-deduction", "al::vector v{vd_in(0),vd_in(1),vd_in(2)}; static_assert(v.size==3,\"\"); O(v);", lambda e: enum(vec(e, 0, 3)), "vector")
    add("matrix-deduction", "al::matrix m{{{vd_in(0),vd_in(1),vd_in(2)},{vd_in(3),vd_in(4),vd_in(5)}}}; static_assert(m.column_size==2&&m.row_size==3,\"\"); O(m);", lambda e: enum(vec(e, 0, 6)), "matrix")
    for m, n in [(1, 1), (1, 3), (3, 1), (2, 2), (2, 3), (3, 2), (4, 2), (3, 3), (2, 5)]:
        t = f"{m}x{n}"; a = f"A<{m},{n}>(0)"
        add(f"mfill/{t}", f"O(al::fill<{m},{n}>(vd_in(0)));", lambda e, m=m, n=n: enum([e[0]] * (m * n)), "fill@matrix/")
        add(f"mgenerate/{t}", f"double s=vd_in(0),u=vd_in(1); O(al::generate<{m},{n}>([s,u](auto i,auto j){{return s*double(i)+u*double(j);}}));",
            lambda e, m=m, n=n: enum([e[0] * i + e[1] * j for i in range(m) for j in range(n)]), "generate@matrix/")
        add(f"mcast/{t}", f"O(al::cast<float>({a}));", lambda e, m=m, n=n: enum(vec(e, 0, m * n)), "cast@matrix/")
        for p, q in ((1, 1), (2, 1), (1, 2), (3, 2)):
            add(f"repmat/{t}by{p}x{q}", f"O(al::repmat<{p},{q}>({a}));", lambda e, m=m, n=n, p=p, q=q: enum([e[(i % m) * n + j % n] for i in range(m * p) for j in range(n * q)]), "repmat")
        for x in range(m):
            for y in range(m):
                pm = list(range(m)); pm[x], pm[y] = pm[y], pm[x]
                add(f"swaprow/{t}/{x},{y}", f"O(al::swaprow({a},{x},{y}));", lambda e, pm=pm, m=m, n=n: enum([e[pm[i] * n + j] for i in range(m) for j in range(n)]), "swaprow")
        for x in range(n):
            for y in range(n):
                pm = list(range(n)); pm[x], pm[y] = pm[y], pm[x]
                add(f"swapcol/{t}/{x},{y}", f"O(al::swapcol({a},{x},{y}));", lambda e, pm=pm, m=m, n=n: enum([e[i * n + pm[j]] for i in range(m) for j in range(n)]), "swapcol")
        for q in (1, 2, 3):
            add(f"horzcat/{t}+{q}", f"O(al::horzcat({a},A<{m},{q}>(100)));", lambda e, m=m, n=n, q=q: enum([x for i in range(m) for x in [e[i * n + j] for j in range(n)] + [e[100 + i * q + j] for j in range(q)]]), "horzcat")
            add(f"vertcat/{t}+{q}", f"O(al::vertcat({a},A<{q},{n}>(100)));", lambda e, m=m, n=n, q=q: enum([e[k] for k in range(m * n)] + [e[100 + k] for k in range(q * n)]), "vertcat")
        for p in range(1, m + 1):
            for q in range(1, n + 1):
                if (p + q) % 2 and m * n > 6: continue
                for i0 in range(m - p + 1):
                    for j0 in range(n - q + 1):
                        add(f"submat/{t}->{p}x{q}@{i0},{j0}", f"O(al::submat<{p},{q}>({a},{i0},{j0}));",
                            lambda e, n=n, p=p, q=q, i0=i0, j0=j0: enum([e[(i0 + i) * n + j0 + j] for i in range(p) for j in range(q)]), "submat")
        k = m * n
        for p in range(1, k + 1):
            if k % p == 0:
                add(f"reshape/{t}->{p}x{k//p}", f"O(al::reshape<{p},{k//p}>({a}));", lambda e, k=k: enum(vec(e, 0, k)), "reshape")
        add(f"element-access/{t}", f"auto m={a}; const auto c=m; for(int i=0;i<{m};i++)for(int j=0;j<{n};j++){{ o1(i*{n}+j,m[i][j]); o1({k}+i*{n}+j,c[i][j]); }}", lambda e, k=k: enum(vec(e, 0, k) * 2), "operator[]")
    return obs


# ------------------------------------------------------------------ A05
def bounds_obs():
    obs = []
    BIG = ["{0}", "{0}+1", "std::size_t(-1)", "(std::size_t(1)<<63)", "std::size_t(-2)"]
    for m, n in [(1, 1), (2, 3), (3, 2)]:
        t = f"{m}x{n}"; a = f"A<{m},{n}>(0)"
        for ix in BIG:
            obs.append(Ob(f"row-bounds/{t}/{ix.format(m)}", f"O({a}.row({ix.format(m)}));", anchor="row", expect_throw=True))
            obs.append(Ob(f"column-bounds/{t}/{ix.format(n)}", f"O({a}.column({ix.format(n)}));", anchor="column", expect_throw=True))
    for (m, n, p, q) in [(2, 3, 1, 2), (3, 3, 2, 2), (2, 2, 2, 2)]:
        t = f"{m}x{n}->{p}x{q}"; a = f"A<{m},{n}>(0)"
        for i0 in list(range(m - p + 1, m + 3)) + [*sorted({"std::size_t(-1)", f"std::size_t(-{p})"}), "(std::size_t(1)<<63)"]:
            obs.append(Ob(f"submat-bounds/{t}/row {i0}", f"O(al::submat<{p},{q}>({a},{i0},0));", anchor="submat", expect_throw=True))
        for j0 in list(range(n - q + 1, n + 3)) + [*sorted({"std::size_t(-1)", f"std::size_t(-{q})"}), "(std::size_t(1)<<63)"]:
            obs.append(Ob(f"submat-bounds/{t}/col {j0}", f"O(al::submat<{p},{q}>({a},0,{j0}));", anchor="submat", expect_throw=True))
    obs.append(Ob("singular-inverse/zero1", "al::matrix<double,1,1> m{}; O(al::inverse(m));", anchor="inverse", expect_throw=True))
    obs.append(Ob("singular-inverse/rank1of2", "al::matrix<double,2,2> m{{{1.,2.},{2.,4.}}}; O(al::inverse(m));", anchor="inverse", expect_throw=True))
    obs.append(Ob("negative-root/sqrt", "o1(0,al::sqrt(-1.0));", anchor="sqrt", expect_throw=True))
    obs.append(Ob("negative-root/nthroot", "o1(0,al::nthroot(-8.0,3));", anchor="nthroot", expect_throw=True))
    return obs


REJECT = [
    # (key, ill-formed statement, well-formed twin proving that the rejection is about the dimension)
    ("vector-add", "V<2>(0)+V<3>(0)", "V<3>(0)+V<3>(0)"),
    ("vector-mul", "V<2>(0)*V<3>(0)", "V<3>(0)*V<3>(0)"),
    ("vector-div", "V<2>(0)/V<3>(0)", "V<3>(0)/V<3>(0)"),
    ("vector-eq", "V<2>(0)==V<3>(0)", "V<3>(0)==V<3>(0)"),
    ("vector-ne", "V<2>(0)!=V<3>(0)", "V<3>(0)!=V<3>(0)"),
    ("dot", "al::dot(V<2>(0),V<3>(0))", "al::dot(V<3>(0),V<3>(0))"),
    ("vector-elementwise", "al::elementwise([](double a,double b){return a+b;},V<3>(0),V<2>(0))", "al::elementwise([](double a,double b){return a+b;},V<3>(0),V<3>(0))"),
    ("matrix-add", "A<2,3>(0)+A<3,2>(0)", "A<2,3>(0)+A<2,3>(0)"),
    ("matrix-hadamard", "A<2,3>(0)*A<3,2>(0)", "A<2,3>(0)*A<2,3>(0)"),
    ("matrix-div", "A<2,3>(0)/A<3,2>(0)", "A<2,3>(0)/A<2,3>(0)"),
    ("matrix-eq", "A<2,3>(0)==A<3,2>(0)", "A<2,3>(0)==A<2,3>(0)"),
    ("matrix-ne", "A<2,3>(0)!=A<3,2>(0)", "A<2,3>(0)!=A<2,3>(0)"),
    ("matrix-elementwise-rows", "al::elementwise([](double a,double b){return a+b;},A<3,2>(0),A<2,2>(0))", "al::elementwise([](double a,double b){return a+b;},A<3,2>(0),A<3,2>(0))"),
    ("matrix-elementwise-cols", "al::elementwise([](double a,double b){return a+b;},A<2,3>(0),A<2,2>(0))", "al::elementwise([](double a,double b){return a+b;},A<2,3>(0),A<2,3>(0))"),
    ("matmul-inner", "al::matmul(A<2,3>(0),A<2,3>(0))", "al::matmul(A<2,3>(0),A<3,2>(0))"),
    ("vectmatmul-inner", "al::vectmatmul(V<3>(0),A<2,3>(0))", "al::vectmatmul(V<2>(0),A<2,3>(0))"),
    ("matvectmul-inner", "al::matvectmul(A<2,3>(0),V<2>(0))", "al::matvectmul(A<2,3>(0),V<3>(0))"),
    ("horzcat-rows", "al::horzcat(A<2,3>(0),A<3,3>(0))", "al::horzcat(A<2,3>(0),A<2,1>(0))"),
    ("vertcat-cols", "al::vertcat(A<2,3>(0),A<2,2>(0))", "al::vertcat(A<2,3>(0),A<1,3>(0))"),
    ("reshape-size", "al::reshape<2,2>(A<2,3>(0))", "al::reshape<3,2>(A<2,3>(0))"),
    ("trace-square", "al::trace(A<2,3>(0))", "al::trace(A<2,2>(0))"),
    ("det-square", "al::det(A<2,3>(0))", "al::det(A<2,2>(0))"),
    ("inverse-square", "al::inverse(A<2,3>(0))", "al::inverse(A<2,2>(0))"),
    ("empty-vector", "al::vector<double,0>().size", "al::vector<double,1>().size"),
    ("empty-matrix-rows", "al::matrix<double,0,1>().row_size", "al::matrix<double,1,1>().row_size"),
    ("empty-matrix-cols", "al::matrix<double,1,0>().row_size", "al::matrix<double,1,1>().row_size"),
    ("vector-from-mixed-types", "al::vector{1.0, 2}.size", "al::vector{1.0, 2.0}.size"),
]


def sqrt_hook(I, st, args, loc, name):
    return leaf(term("sqrt", None, as_term(None, args[0])))


def run_obs(c, obs, flags=()):
    tus = make_tus(obs, PRE, flags=flags)
    mods = c.compile_all(tus)
    discharge(c, obs, mods)


def A01(c):
    c.floor = 150
    sizes = (1, 2, 3, 5, 8) if c.tier == "quick" else tuple(range(1, 13))
    run_obs(c, vector_obs(sizes))


def A02(c):
    c.floor = 300
    shapes = [(1, 1), (1, 3), (3, 1), (2, 2), (2, 3), (3, 2), (4, 4), (2, 5)]
    triples = [(1, 1, 1), (2, 2, 2), (2, 3, 2), (1, 4, 3), (3, 1, 2), (3, 3, 3), (5, 2, 1)]
    if c.tier == "thorough":
        shapes = [(m, n) for m in range(1, 7) for n in range(1, 7)]
        triples = [(m, n, q) for m in range(1, 6) for n in range(1, 6) for q in range(1, 6)]
    run_obs(c, matrix_obs(shapes, triples))


def A03(c):
    c.floor = 500
    run_obs(c, layout_obs())


def A05(c):
    c.floor = 80
    run_obs(c, bounds_obs())
    from concurrent.futures import ThreadPoolExecutor
    jobs = []
    for key, bad, good in REJECT:
        for kind, ex in (("bad", bad), ("good", good)):
            jobs.append((key, kind, PRE + f"void probe() {{ (void)({ex}); }}\n"))
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda j: syntax_ok(j[2], tmp=c.tmp), jobs))
    by = {}
    for (key, kind, _), (ok, diag) in zip(jobs, res): by[(key, kind)] = (ok, diag)
    for key, bad, good in REJECT:
        gok, gd = by[(key, "good")]
        if not gok: raise Broken(f"compile witness twin for {key} no longer compiles: {gd[-600:]}")
        c.ob(f"compile-reject/{key}", not by[(key, "bad")][0], f"ill-dimensioned expression `{bad}` is accepted by the type checker" if by[(key, "bad")][0] else f"`{bad}` is rejected, `{good}` accepted")


PROPS = {"A01": A01, "A02": A02, "A03": A03, "A05": A05}


# ------------------------------------------------------------------ A06  scalars
def A06(c):
    """exponentiate/abs/conj on symbolic reals; one obligation per exponent"""
    c.floor = 60
    obs = []
    rng = list(range(-40, 65)) + [-255, -128, -64, 100, 127, 128, 255, 256]
    if c.tier == "thorough": rng = sorted(set(range(-300, 520)) | set(rng))
    for n in rng:
        obs.append(Ob(f"exponentiate/n{n}", f"o1(0,al::exponentiate(vd_in(0),{n}));",
                      lambda e, n=n: {0: e[0] ** n if n else e.c(1)}, "exponentiate"))
    for n in (0, 1, 2, 3, 10):
        obs.append(Ob(f"exponentiate-of-zero/n{n}", f"o1(0,al::exponentiate(0.0,{n}));", lambda e, n=n: {0: e.c(1 if n == 0 else 0)}, "exponentiate"))
        obs.append(Ob(f"exponentiate-of-one/n{n}", f"o1(0,al::exponentiate(1.0,{n}));", lambda e: {0: e.c(1)}, "exponentiate"))
    for nm, sub in (("negative", lambda e: {0: -e.v("t")}), ("zero", lambda e: {0: e.c(0)}), ("positive", lambda e: {0: e.v("t")})):
        want = (lambda e: {0: e.c(0)}) if nm == "zero" else (lambda e: {0: e.v("t")})
        for ty in ("double", "float"):
            obs.append(Ob(f"abs-{ty}/{nm}", f"o1(0,al::abs(({ty})vd_in(0)));", want, "abs", strata=[("generic", sub)], generic=False, pos=("t",)))
        obs.append(Ob(f"conj-real/{nm}", "o1(0,al::conj(vd_in(0)));", lambda e, sub=sub: {0: sub(e)[0]}, "conj", strata=[("generic", sub)], generic=False, pos=("t",)))
    obs.append(Ob("conj-complex", "o1(0,al::conj(cd(vd_in(0),vd_in(1))));", lambda e: {0: e[0], 1: -e[1]}, "conj"))
    obs.append(Ob("conj-involution", "o1(0,al::conj(al::conj(cd(vd_in(0),vd_in(1)))));", lambda e: {0: e[0], 1: e[1]}, "conj"))

    def abs_complex(check, o, mod, I, outs):
        # the modulus is the library square root applied to exactly re^2 + im^2
        v = outs[0]
        R = Ring((), None); inp = AutoInputs(R)
        ok, det = False, "the modulus is not the square root of one value"
        if v.leaf and isinstance(v.v, absint.Term) and v.v.op == "sqrt":
            got = poly.Eval(R, inp).term(v.v.args[0])
            want = inp["x0"] * inp["x0"] + inp["x1"] * inp["x1"]
            ok = got.eq(want); det = f"radicand is {got}"
        check.ob(o.key, ok, det, loc_of(o, mod) if not ok else None)
    obs.append(Ob("abs-complex", "o1(0,al::abs(cd(vd_in(0),vd_in(1))));", anchor="abs", custom=abs_complex, tu="noinl"))
    for v in ("-1.0", "-0x1p-1000", "-1e300"):
        for fn, call in (("sqrt", f"al::sqrt({v})"), ("sqrt-float", f"al::sqrt((float){v if v == '-1.0' else '-2.5'})"), ("nthroot", f"al::nthroot({v},3)")):
            k = f"negative-argument/{fn}/{v}"
            obs.append(Ob(k, f"o1(0,{call});", anchor=fn.split("-")[0], expect_throw=True, tu="neg"))
    for k, call in (("sqrt", "al::sqrt(0.0)"), ("sqrt-float", "al::sqrt(0.0f)"), ("nthroot", "al::nthroot(0.0,2)")):
        obs.append(Ob(f"root-of-zero/{k}", f"o1(0,{call});", anchor=k.split("-")[0], oracle=lambda e: {0: e.c(0)}, tu="neg"))
    rest = [o for o in obs if o.tu != "neg"]
    tus = make_tus(obs, PRE, tuflags={"noinl": ["-fno-inline"]})
    mods = c.compile_all(tus)
    neg = [o for o in obs if o.tu == "neg"]
    discharge(c, rest, mods, prefix_hooks=(("_ZN3nil7crypto37algebra4sqrtEd", sqrt_hook),))
    discharge(c, neg, mods)


PROPS["A06"] = A06


# ------------------------------------------------------------------ A04  elimination
def canon_abs(var, hi, lo):
    """ite(0 < x, x, -x) (or ite(x < 0, -x, x)) is the single value |x|"""
    kind, p, args = ATOMS.l[var]
    if kind != "lt" or not isinstance(hi.v, absint.Term) or not isinstance(lo.v, absint.Term): return None
    zero = lambda q: isinstance(q, absint.Term) and q.op == "c" and q.args[0] == 0
    if zero(args[0]): x, pos, neg = args[1], hi.v, lo.v
    elif zero(args[1]): x, pos, neg = args[0], lo.v, hi.v
    else: return None
    if pos is x and neg.op == "neg" and neg.args[0] is x: return leaf(term("abs", None, x))
    return None


class ElimEval(poly.Eval):
    """Reals with an infinitesimal tolerance: |v| is an opaque positive quantity unless v is identically zero;
    constants below 2^-40 (and the symbolic tolerance) are positive infinitesimals."""
    def __init__(self, *a, **k):
        super().__init__(*a, **k); self.absv = {}; self.R.pos = set(["eps"])

    def op(self, x):
        if self.tiny(x): return poly.FRat(self.R, self.R.scale(self.R.add_var("eps"), x.args[0] * (1 << 52)))
        if x.op == "c": return poly.FRat(self.R, self.R.const(x.args[0]))
        if x.op == "abs": return self.absval(self.memo[x.args[0].id])
        return super().op(x)

    def tiny(self, a):
        return isinstance(a, absint.Term) and a.op == "c" and isinstance(a.args[0], Fraction) and 0 < a.args[0] <= Fraction(1, 1 << 40)

    def all_zero(self, t):
        """every value the (max-)gate can take is identically zero"""
        if t.op == "gate":
            for v in D.leaves(t.args[0]):
                if isinstance(v, absint.Term):
                    if not self.all_zero(v): return False
                elif v != 0: return False
            return True
        return self.term(t).is_zero()

    def tolerance(self, x):
        """tiny constant * matrix norm: a positive infinitesimal unless the norm is identically zero"""
        o = x.args[1] if self.tiny(x.args[0]) else x.args[0]
        if self.all_zero(o): return poly.FRat(self.R, {})
        self.R.pos.add("norm")
        return poly.FRat(self.R, self.R.mul(self.R.add_var("eps"), self.R.add_var("norm")))

    def term(self, t):
        if t.id not in self.memo:
            st, seen = [t], set()
            while st:
                x = st.pop()
                if x.id in seen or x.id in self.memo: continue
                seen.add(x.id)
                if x.op == "mul" and (self.tiny(x.args[0]) or self.tiny(x.args[1])):
                    self.memo[x.id] = None; self.memo[x.id] = self.tolerance(x)
                elif x.op != "gate": st.extend(a for a in x.args if isinstance(a, absint.Term))
        return super().term(t)

    def absval(self, r):
        R = self.R
        if r.is_zero(): return r
        out = poly.FRat(R, R.const(1))
        for q, e in [(r.n, 1)] + [(R.factors[k], -e) for k, e in r.f]:
            nq, _ = R.content_normal(q)
            k = abs(q[max(q)])
            if set(nq) == {0}: v = poly.FRat(R, R.const(k))
            elif poly.Eval.sign(self, nq): v = poly.FRat(R, R.scale(nq, k * poly.Eval.sign(self, nq)))
            else:
                key = frozenset(nq.items())
                n = self.absv.setdefault(key, f"|{len(self.absv)}|")
                R.pos.add(n)
                v = poly.FRat(R, R.scale(R.add_var(n), k))
            out = out * v ** e
        return out

    def sign(self, q):
        R = self.R
        if "eps" in R.ix:
            sh = poly.BITS * R.ix["eps"]
            deg = lambda m: (m >> sh) & ((1 << poly.BITS) - 1)
            if q:
                lo = min(deg(m) for m in q)
                q = {m: c for m, c in q.items() if deg(m) == lo}
        r = super().sign(q)
        if r is None:
            # strip the factors known to be positive, then case-split on the sign of what is left
            for n in R.pos:
                if n not in R.ix: continue
                sh = poly.BITS * R.ix[n]; low = min((m >> sh) & ((1 << poly.BITS) - 1) for m in q)
                q = {m - (low << sh): c for m, c in q.items()}
            q, s = R.content_normal(q)
            r = self.lookup(("sgn", frozenset(q.items()))) * s
        return r


def elim_oracle(M):
    """exact rref over the fraction field -> (rref, rank, det or None)"""
    M = [list(r) for r in M]; m = len(M); n = len(M[0]); r = 0
    det = None
    for j in range(n):
        p = next((i for i in range(r, m) if not M[i][j].is_zero()), None)
        if p is None: continue
        M[r], M[p] = M[p], M[r]
        s = M[r][j]
        M[r] = [x / s for x in M[r]]
        for i in range(m):
            if i != r and not M[i][j].is_zero():
                f = M[i][j]
                M[i] = [x - f * y for x, y in zip(M[i], M[r])]
        r += 1
        if r == m: break
    return M, r


def det_of(M):
    n = len(M)
    if n == 1: return M[0][0]
    t = M[0][0] * 0
    for j in range(n):
        t = t + M[0][j] * det_of([r[:j] + r[j + 1:] for r in M[1:]]) * (-1) ** j
    return t


def elim_strata(m, n, full):
    """zero patterns plus rank-deficient families"""
    k = m * n
    pats = []
    if k <= 6 or full: pats = [f"{i:0{k}b}" for i in range(1 << k)]
    else:
        pats = ["1" * k, "0" * k]
        for i in range(k):
            pats.append("1" * i + "0" + "1" * (k - i - 1))
        for perm in itertools.permutations(range(m)):
            pats.append("".join("1" if perm[i] == j else "0" for i in range(m) for j in range(n)))
            pats.append("".join("1" if perm[i] <= j else "0" for i in range(m) for j in range(n)))
        for j in range(n): pats.append("".join("0" if q == j else "1" for i in range(m) for q in range(n)))
        for i0 in range(m): pats.append("".join("0" if i == i0 else "1" for i in range(m) for q in range(n)))
        pats = list(dict.fromkeys(pats))
    out = []
    for pt in pats:
        out.append(("zeros" + pt, lambda e, pt=pt: {i: (e.v(f"x{i}") if ch == "1" else e.c(0)) for i, ch in enumerate(pt)}))
    if m > 1:
        for i1 in range(m):
            for i2 in range(m):
                if i1 == i2: continue
                def sub(e, i1=i1, i2=i2):
                    r = {i: e.v(f"x{i}") for i in range(k)}
                    for j in range(n): r[i2 * n + j] = r[i1 * n + j] * e.v("k")
                    return r
                out.append((f"row{i2}~row{i1}", sub))
    if m >= 3:
        def sub(e):
            r = {i: e.v(f"x{i}") for i in range(k)}
            for j in range(n): r[2 * n + j] = r[j] * e.v("k") + r[n + j]
            return r
        out.append(("row2=k*row0+row1", sub))
    if m > 1:
        # values straddling the tolerance: a negligible entry above a large one
        def sub(e):
            r = {i: e.v(f"x{i}") for i in range(k)}
            r[0] = e.c(0); r[n] = e.v("eps") * e.v("eps")
            return r
        out.append(("tiny-pivot-candidate", sub))
    return out


def elim_custom(m, n, kind, strata):
    def f(check, o, mod, I, outs):
        def one_stratum(ix):
            sname, sub = strata[ix]
            key = f"{o.key}[{sname}]"
            bad = None
            tiny = sname == "tiny-pivot-candidate"
            def mk(assign):
                R = Ring((), None)
                env = Env(R, ()); env.inp = AutoInputs(R)
                R.add_var("eps")
                for q, v in sub(env).items(): env.inp[f"x{q}"] = poly.FRat(R, v.n)
                env.inp["x90"] = poly.FRat(R, R.var("eps"))
                env.c = lambda k: poly.FRat(R, R.const(k))
                e = ElimEval(R, env.inp, generic=False, assign=assign)
                e.env = env
                return e
            def body(e):
                env = e.env
                M = [[env[i * n + j] for j in range(n)] for i in range(m)]
                if tiny: M[1][0] = env.c(0)
                ref, rk = elim_oracle(M)
                thrown = [ev for ev in I.res.events if ev[0] == "throw" and e.bool(ev[1])]
                ub = [ev for ev in I.res.events if ev[0] in BADEV and e.bool(ev[1])]
                if ub: return f"{ub[0][0]} {ub[0][3]} at {fmtloc(ub[0][2])}"
                if kind == "inverse":
                    if rk < m: return None if thrown else "singular matrix accepted"
                    if thrown: return "invertible matrix rejected"
                    got = [[e.value(outs[i * n + j]) for j in range(n)] for i in range(m)]
                    for i in range(m):
                        for j in range(n):
                            t = sum((M[i][q] * got[q][j] for q in range(n)), env.c(0))
                            if not t.eq(1 if i == j else 0): return f"(m*inverse(m))[{i}][{j}] = {show(t)}"
                    return None
                if thrown: return f"exception at {fmtloc(thrown[0][2])}"
                if kind == "rank":
                    got = e.value(outs[0])
                    got = got if not isinstance(got, Rat) else (got.n.get(0, 0))
                    return None if got == rk else f"rank reported {got}, is {rk}"
                if kind == "det":
                    d = det_of(M)
                    got = e.value(outs[0])
                    if tiny:
                        return None if got.is_zero() == d.is_zero() else f"determinant {show(got)} but exact value {show(d)}"
                    return None if got.eq(d) else f"determinant computed as {show(got)}, is {show(d)}"
                if kind.startswith("rref"):
                    if tiny: return None
                    for i in range(m):
                        for j in range(n):
                            got = e.value(outs[i * n + j])
                            if not got.eq(ref[i][j]): return f"rref[{i}][{j}] computed as {show(got)}, is {show(ref[i][j])}"
            cases = 0
            try:
                for a, r in poly.enumerate_cases(mk, body, limit=20000, sgn_values=(-1, 1)):
                    cases += 1
                    if r: bad = r; break
            except DivZero:
                bad = "division by a quantity that is identically zero"
            except AnalysisError as a:
                if "undefined" in str(a): bad = str(a)
                else: return key, None, cases, str(a)
            return key, bad, cases, None
        for key, bad, cases, broken in pmap(one_stratum, range(len(strata))):
            if broken: raise Broken(f"{key}: {broken}")
            check.extra["guard_cases"] = check.extra.get("guard_cases", 0) + cases
            check.ob(key, bad is None, bad or f"{cases} pivot-order cases", loc_of(o, mod) if bad else None)
    return f


QUICK3 = {'zeros' + p for p in ('1' * 9, '0' * 9, '100010001', '010001100', '001010100', '111011001', '011111111', '110110110', '101111101', '111000111', '000111111')}


def A04(c):
    c.floor = 150
    absint.D.CANON = canon_abs
    full = c.tier == "thorough"
    obs = []
    for m, n in [(1, 1), (2, 2), (3, 3)]:
        st = elim_strata(m, n, full)
        if m == 3: st = [x for x in st if full or x[0] in QUICK3 or not x[0].startswith('zeros')]
        for kind in ("det", "rank", "inverse"):
            obs.append(Ob(f"{kind}/{m}x{n}", f"O(al::{kind}(A<{m},{n}>(0)));", anchor=kind, custom=elim_custom(m, n, kind, st)))
    for m, n in [(1, 1), (2, 2), (2, 3), (3, 2), (1, 3), (3, 1)] + ([(3, 3), (3, 4)] if full else [(3, 3)]):
        st = elim_strata(m, n, full and m * n <= 9)
        obs.append(Ob(f"rref/{m}x{n}", f"O(al::rref(A<{m},{n}>(0)));", anchor="rref", custom=elim_custom(m, n, "rref", st)))
        if m * n <= 6:
            obs.append(Ob(f"rref-tolerance/{m}x{n}", f"O(al::rref(A<{m},{n}>(0),vd_in(90)));", anchor="rref", tu="tol", custom=elim_custom(m, n, "rref-tol", [s for s in st if s[0] != "tiny-pivot-candidate"])))
        if m != n:
            obs.append(Ob(f"rank/{m}x{n}", f"O(al::rank(A<{m},{n}>(0)));", anchor="rank", custom=elim_custom(m, n, "rank", st)))
    tus = make_tus(obs, PRE)
    # the explicit-tolerance overload must at least type-check for the property to be stated about it
    tolt = [t for t in tus if t.name == "tol0"]
    for t in tolt:
        ok, diag = syntax_ok(t.text, tmp=c.tmp)
        c.ob("rref-tolerance/usable", ok, "rref(m, tolerance) cannot be instantiated: " + diag[:300] if not ok else "instantiates")
        if not ok:
            obs = [o for o in obs if o.tu != "tol"]; tus = [x for x in tus if x is not t]
    mods = c.compile_all(tus)
    discharge(c, obs, mods)


PROPS["A04"] = A04
