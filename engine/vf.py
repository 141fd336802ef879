"""Meaning of the opaque arithmetic primitives of the dependency model (stub/vf_mp.hpp): residues are exact elements of GF(p),
integers are exact; symbolic residues are value-graph terms carrying their modulus."""
from absint import *
import absint
from absint import term, leaf, as_term, f_bin, f_un, f_eq, f_lt, isc, const_term, Term, AnalysisError, cint
import dd as D


def const_of(d):
    if d.leaf and isinstance(d.v, int): return d.v
    if d.leaf and isinstance(d.v, Term) and d.v.op == "c": return int(d.v.args[0])
    return None


def modulus(I, st, ptr, n, loc):
    v = const_of(I.load(st, ptr, n, loc))
    if v is None: raise AnalysisError("modulus is not a constant")
    return v


def binop(op):
    def h(I, st, a, loc, name):
        n = cint(I, st, a[4], "size")
        p = modulus(I, st, a[3], n, loc)
        I.store(st, a[0], n, f_bin(op, p, I.load(st, a[1], n, loc), I.load(st, a[2], n, loc)), loc)
        return leaf(0)
    return h


def h_neg(I, st, a, loc, name):
    n = cint(I, st, a[3], "size"); p = modulus(I, st, a[2], n, loc)
    I.store(st, a[0], n, f_un("neg", p, I.load(st, a[1], n, loc)), loc)
    return leaf(0)


def h_inv(I, st, a, loc, name):
    n = cint(I, st, a[3], "size"); p = modulus(I, st, a[2], n, loc)
    v = as_term(p, I.load(st, a[1], n, loc))
    if isc(v) and v.args[0] == 0: r = leaf(term("inv0", p))
    else: r = f_un("inv", p, v)
    I.store(st, a[0], n, r, loc)
    return leaf(0)


def tonelli(a, p):
    if a == 0: return 0
    if pow(a, (p - 1) // 2, p) != 1: return 0
    q, s = p - 1, 0
    while q % 2 == 0: q //= 2; s += 1
    z = 2
    while pow(z, (p - 1) // 2, p) == 1: z += 1
    c, r, t, m = pow(z, q, p), pow(a, (q + 1) // 2, p), pow(a, q, p), s
    while t != 1:
        i, u = 0, t
        while u != 1: u = u * u % p; i += 1
        b = pow(c, 1 << (m - i - 1), p)
        r, c, t, m = r * b % p, b * b % p, t * b * b % p, i
    return r


def h_sqrt(I, st, a, loc, name):
    n = cint(I, st, a[3], "size"); p = modulus(I, st, a[2], n, loc)
    v = as_term(p, I.load(st, a[1], n, loc))
    I.store(st, a[0], n, leaf(tonelli(v.args[0], p)) if isc(v) else leaf(term("sqrt", p, v)), loc)
    return leaf(0)


def h_pow(I, st, a, loc, name):
    n = cint(I, st, a[3], "size"); p = modulus(I, st, a[2], n, loc)
    e = const_of(I.load(st, a[4], cint(I, st, a[5], "size"), loc))
    if e is None: raise AnalysisError("symbolic exponent")
    v = as_term(p, I.load(st, a[1], n, loc))
    I.store(st, a[0], n, leaf(pow(v.args[0], e, p)) if isc(v) else leaf(term("pow", p, v, e)), loc)
    return leaf(0)


def h_eq(I, st, a, loc, name):
    n = cint(I, st, a[3], "size"); p = modulus(I, st, a[2], n, loc)
    return f_eq(p, I.load(st, a[0], n, loc), I.load(st, a[1], n, loc))


def h_lt(I, st, a, loc, name):
    n = cint(I, st, a[3], "size"); p = modulus(I, st, a[2], n, loc)
    return f_lt(p, I.load(st, a[0], n, loc), I.load(st, a[1], n, loc))


def h_redc(I, st, a, loc, name):
    an = cint(I, st, a[2], "size"); n = cint(I, st, a[4], "size"); p = modulus(I, st, a[3], n, loc)
    v = I.load(st, a[1], an, loc)
    def f(x):
        if isinstance(x, int): return leaf(x % p)
        if isinstance(x, Term):
            if x.op == "lift" and x.args[0].p == p: return leaf(x.args[0])
            if x.op == "c": return leaf(int(x.args[0]) % p)
            return leaf(term("redc", p, x))
        return leaf(x)
    I.store(st, a[0], n, D.apply(None, f, v), loc)
    return leaf(0)


def h_lift(I, st, a, loc, name):
    rn = cint(I, st, a[1], "size"); n = cint(I, st, a[4], "size"); p = modulus(I, st, a[3], n, loc)
    v = I.load(st, a[2], n, loc)
    def f(x):
        if isinstance(x, int): return leaf(x)
        if isinstance(x, Term): return leaf(int(x.args[0])) if isc(x) else leaf(term("lift", None, x))
        return leaf(x)
    I.store(st, a[0], rn, D.apply(None, f, v), loc)
    return leaf(0)


def h_hash(I, st, a, loc, name):
    n = cint(I, st, a[1], "size")
    v = I.load(st, a[0], n, loc)
    def f(x):
        if isinstance(x, int): return leaf(hash(("vf", x)) & ((1 << 64) - 1))
        return leaf(term("ihash", 64, x))
    return D.apply(None, f, v)


def h_in(I, st, a, loc, name):
    """vf_in(r, k, m, bytes): symbolic residue x<k>"""
    k = cint(I, st, a[1], "index"); n = cint(I, st, a[3], "size"); p = modulus(I, st, a[2], n, loc)
    I.store(st, a[0], n, leaf(term("in", p, f"x{k}")), loc)
    return leaf(0)


def h_fout(I, st, a, loc, name):
    """vf_out(k, a, bytes)"""
    k = cint(I, st, a[0], "index"); n = cint(I, st, a[2], "size")
    v = I.load(st, a[1], n, loc)
    I.out_slots(st)
    I.store(st, leaf(absint.Ptr(I.out_obj, k * 1024)), 8, v, loc)
    return leaf(0)


def is_prime(n):
    if n < 2: return False
    for q in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47):
        if n % q == 0: return n == q
    d, s = n - 1, 0
    while d % 2 == 0: d //= 2; s += 1
    for b in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61)[:18 if n.bit_length() < 800 else 3]:
        x = pow(b, d, n)
        if x in (1, n - 1): continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1: break
        else: return False
    return True


def h_prime(I, st, a, loc, name):
    v = const_of(I.load(st, a[0], cint(I, st, a[1], "size"), loc))
    if v is None: raise AnalysisError("primality of a symbolic integer")
    return TRUE if is_prime(v) else FALSE


HOOKS = {"vf_add": binop("add"), "vf_sub": binop("sub"), "vf_mul": binop("mul"), "vf_neg": h_neg, "vf_inv": h_inv, "vf_sqrt": h_sqrt,
         "vf_pow": h_pow, "vf_eq": h_eq, "vf_lt": h_lt, "vf_redc": h_redc, "vf_lift": h_lift, "vf_hash": h_hash, "vf_in": h_in,
         "vf_out": h_fout, "vi_prime": h_prime}
