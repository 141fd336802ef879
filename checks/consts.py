"""K01-K06: published constants.  The values are read from the compiled headers (constant evaluation by the compiler, then
the IR's global initialisers) and decided by arithmetic relations and, where a standard defines them, by closed formulas."""
from core import *
from harn import *
from absint import AnalysisError
import vf
from vf import is_prime
F_ = "nil/crypto3/algebra/fields/"
ED = ["base_field", "scalar_field"]
FIELDS = []          # (key, header, type)
for fam, vers in (("alt_bn128", (254,)), ("bls12", (381, 377)), ("bn128", (254,)), ("brainpool_r1", (160, 192, 224, 256, 320, 384, 512)), ("edwards", (183,)),
                  ("gost_A", (256,)), ("mnt4", (298,)), ("mnt6", (298,)), ("sm2p_v1", (256,)),
                  ("secp/secp_k1", (160, 192, 224, 256)), ("secp/secp_r1", (160, 192, 224, 256, 384, 521))):
    for e in ED:
        for v in vers: FIELDS.append((f"{fam.split('/')[-1]}-{v}/{e.split('_')[0]}", f"{F_}{fam}/{e}.hpp", f"{fam.split('/')[-1]}_{e}<{v}>"))
for fam in ("babyjubjub", "curve25519", "jubjub", "pallas", "vesta"):
    for e in ED: FIELDS.append((f"{fam}/{e.split('_')[0]}", f"{F_}{fam}/{e}.hpp", f"{fam}_{e}"))
for v in ("v1", "v2", "v3"):
    for n in ((192, 239) if v != "v1" else (239,)):
        for e in ED: FIELDS.append((f"x962_p_{v}-{n}/{e.split('_')[0]}", f"{F_}x962_p/{e}.hpp", f"x962_p_{v}_{e}<{n}>"))
FIELDS += [("goldilocks64/base", F_ + "goldilocks64/base_field.hpp", "goldilocks64_base_field"), ("frp_v1-256/base", F_ + "frp_v1/base_field.hpp", "frp_v1_base_fields<256>"), ("frp_v1-256/scalar", F_ + "frp_v1/scalar_field.hpp", "frp_v1_scalar_field<256>"),
           ("sect_k1-163/base", F_ + "sect/sect_k1/base_field.hpp", "sect_k1_base_field<163>"), ("sect_k1-163/scalar", F_ + "sect/sect_k1/scalar_field.hpp", "sect_k1_scalar_field<163>"), ("maxprime-64", F_ + "maxprime.hpp", "maxprime<64>")]
for n, vs in (("dsa_botan", (2048, 3072)), ("dsa_jce", (1024,)), ("ffdhe_ietf", (2048, 3072, 4096, 6144, 8192)), ("modp_ietf", (1024, 1536, 2048, 3072, 4096, 6144, 8192)), ("modp_srp", (1024, 1536, 2048, 3072, 4096, 6144, 8192))):
    for v in vs: FIELDS.append((f"{n}-{v}", F_ + n + ".hpp", f"{n}<{v}>"))


def harvest(c, items, names, ns="nil::crypto3::algebra::fields", extra="", stub_flags=("-UNDEBUG",), span=64, split=6, pre="", skip=lambda k, n: False):
    """items: (key, header, type) -> {key: {name: [ints]}}; also records the source line of every constant"""
    byh = {}
    for k, h, t, *_ in items: byh.setdefault(h, []).append((k, t))
    tus = []; where = {}
    defs = "".join(f"KDEF({n})\n" for n in names)
    for i, (h, l) in enumerate(byh.items()):
        for j in range(0, len(l), split):
            txt = pre + f"#include <kio.hpp>\n#include <{h}>\nusing namespace {ns};\n{defs}{extra}\n"
            for q, (k, t) in enumerate(l[j:j + split]):
                txt += f"extern \"C\" void kc_{q}() {{ typedef {t} T; " + " ".join(f"kget_{n}<T>({span * x}, 0);" for x, n in enumerate(names) if not skip(k, n)) + " }\n"
                where[k] = (f"k{i}_{j}", f"kc_{q}", h)
            tus.append(TU(f"k{i}_{j}", txt, stub_flags, True))
    mods = c.compile_all(tus)
    res = {}
    for k, (tu, fn, h) in where.items():
        try: I, outs = analyse(mods[tu], fn, hooks=vf.HOOKS)
        except AnalysisError as e: raise Broken(f"constants of {k}: {e}")
        c.absorb(I)
        d = {}
        for s in sorted(outs):
            v = vf.const_of(outs[s])
            if v is None: raise Broken(f"constant {names[s // span]} of {k} is not a constant")
            d.setdefault(names[s // span], []).append(v)
        res[k] = d
    return res


def line_of(header, what, owner=None):
    """source line of the definition of `what` (after `owner`) in the header"""
    try: L = re.sub(r"//[^\n]*|/\*.*?\*/", lambda m: re.sub(r"[^\n]", " ", m.group(0)), open(os.path.join(INC, header)).read(), flags=re.S).split("\n")
    except OSError: return header
    st = 0
    if owner:
        base = re.sub(r"<.*", "", owner)
        for i, l in enumerate(L):
            if owner in l and not l.strip().startswith(("//", "*", "typedef", "using", "constexpr typename")): st = i; break
        else:
            for i, l in enumerate(L):
                if base in l: st = i; break
    for i in range(st, len(L)):
        if re.search(r"\b%s\b" % re.escape(what), L[i]) and ("=" in L[i] or (i + 1 < len(L) and "=" in L[i + 1])): return f"include/{header}:{i + 1}"
    return f"include/{header}:{st + 1}"


def pi_bits(n):
    """floor(2^n * pi)"""
    g = 64
    def arctan(x):
        t = (1 << (n + g)) // x; s = t; k = 3; sg = -1
        while t:
            t //= x * x; s += sg * (t // k); sg = -sg; k += 2
        return s
    return 4 * (4 * arctan(5) - arctan(239)) >> g


def e_bits(n):
    g = 64; t = 1 << (n + g); s = 0; k = 1
    while t: s += t; t //= k; k += 1
    return s >> g


def modp(b):
    """RFC 2409 / RFC 3526: 2^b - 2^(b-64) - 1 + 2^64 * (floor(2^(b-130) pi) + i)"""
    i = {1024: 129093, 1536: 741804, 2048: 124476, 3072: 1690314, 4096: 240904, 6144: 929484, 8192: 4743158}[b]
    return 2 ** b - 2 ** (b - 64) - 1 + 2 ** 64 * (pi_bits(b - 130) + i)


def ffdhe(b):
    i = {2048: 560316, 3072: 2625351, 4096: 5736041, 6144: 15705020, 8192: 10965728}[b]
    return 2 ** b - 2 ** (b - 64) + (e_bits(b - 130) + i) * 2 ** 64 - 1


def bls(u): p = ((u - 1) ** 2 * (u ** 4 - u ** 2 + 1)) // 3 + u; return p, u ** 4 - u ** 2 + 1
def bn(u): return 36 * u ** 4 + 36 * u ** 3 + 24 * u ** 2 + 6 * u + 1, 36 * u ** 4 + 36 * u ** 3 + 18 * u ** 2 + 6 * u + 1


U381, U377, UBN = -0xd201000000010000, 0x8508c00000000001, 4965661367192848881
FORMULA = {"bls12-381/base": bls(U381)[0], "bls12-381/scalar": bls(U381)[1], "bls12-377/base": bls(U377)[0], "bls12-377/scalar": bls(U377)[1],
           "alt_bn128-254/base": bn(UBN)[0], "alt_bn128-254/scalar": bn(UBN)[1], "bn128-254/base": bn(UBN)[0], "bn128-254/scalar": bn(UBN)[1],
           "babyjubjub/base": bn(UBN)[1], "jubjub/base": bls(U381)[1], "goldilocks64/base": 2 ** 64 - 2 ** 32 + 1, "curve25519/base": 2 ** 255 - 19,
           "curve25519/scalar": 2 ** 252 + 27742317777372353535851937790883648493, "maxprime-64": 2 ** 64 - 59,
           "secp_k1-160/base": 2 ** 160 - 2 ** 32 - 21389, "secp_k1-192/base": 2 ** 192 - 2 ** 32 - 4553, "secp_k1-224/base": 2 ** 224 - 2 ** 32 - 6803, "secp_k1-256/base": 2 ** 256 - 2 ** 32 - 977,
           "secp_r1-160/base": 2 ** 160 - 2 ** 31 - 1, "secp_r1-192/base": 2 ** 192 - 2 ** 64 - 1, "secp_r1-224/base": 2 ** 224 - 2 ** 96 + 1, "secp_r1-256/base": 2 ** 256 - 2 ** 224 + 2 ** 192 + 2 ** 96 - 1,
           "secp_r1-384/base": 2 ** 384 - 2 ** 128 - 2 ** 96 + 2 ** 32 - 1, "secp_r1-521/base": 2 ** 521 - 1, "sm2p_v1-256/base": 2 ** 256 - 2 ** 224 - 2 ** 96 + 2 ** 64 - 1,
           "pallas/base": 2 ** 254 + 45560315531419706090280762371685220353, "vesta/base": 2 ** 254 + 45560315531506369815346746415080538113, "gost_A-256/base": 2 ** 256 - 617,
           **{f"x962_p_{v}-192/base": 2 ** 192 - 2 ** 64 - 1 for v in ("v2", "v3")}, **{f"x962_p_{v}-239/base": 2 ** 239 - 2 ** 143 - 2 ** 95 + 2 ** 47 - 1 for v in ("v1", "v2", "v3")},
           **{f"modp_ietf-{b}": modp(b) for b in (1024, 1536, 2048, 3072, 4096, 6144, 8192)}, **{f"modp_srp-{b}": modp(b) for b in (3072, 4096, 6144, 8192)}, **{f"ffdhe_ietf-{b}": ffdhe(b) for b in (2048, 3072, 4096, 6144, 8192)}}
FN = ["modulus", "group_order_minus_one_half", "modulus_bits", "number_bits", "value_bits", "arity"]


def fields(c): return harvest(c, FIELDS, FN)


def K01(c):
    K = fields(c)
    for r_, _, fs in os.walk(INC):
        for f in sorted(fs):
            if not f.endswith((".hpp", ".ipp", ".h")): continue
            txt = open(os.path.join(r_, f), errors="ignore").read(); n = bad = 0
            for m in re.finditer(r"\b(0[xX][0-9a-fA-F]+|\d+)_cppui_modular(\d+)\b", txt):
                n += 1
                if int(m.group(1), 0).bit_length() > int(m.group(2)): bad = m
            rel = os.path.relpath(os.path.join(r_, f), INC)
            if n: c.ob(f"literals/{rel}", not bad, f"{n} literals fit the width of their suffix" if not bad else f"the literal {bad.group(0)} does not fit its width", f"include/{rel}:{txt[:bad.start()].count(chr(10)) + 1}" if bad else None)
    ms = sorted({K[k]["modulus"][0] for k, _, _ in FIELDS}, key=lambda m: -m)
    prime = dict(zip(ms, pmap(is_prime, ms)))
    for k, h, t in FIELDS:
        d = K[k]
        def ob(name, ok, msg, what="modulus"): c.ob(f"{k}/{name}", ok, msg, line_of(h, what, t) if not ok else None)
        p = d["modulus"][0]
        ob("prime", prime[p], f"modulus {p:#x} is {'prime' if prime[p] else 'not prime'}")
        for n in ("modulus_bits", "number_bits", "value_bits"):
            if n in d: ob(n, d[n][0] >= p.bit_length() and (d[n][0] == p.bit_length()), f"{n} is {d[n][0]}, the modulus has {p.bit_length()} bits", n)
        if "arity" in d: ob("arity", d["arity"] == [1], f"arity of a prime field is {d['arity']}", "arity")
        if "group_order_minus_one_half" in d:
            g = d["group_order_minus_one_half"][0]
            ob("half-order", g == (p - 1) // 2, f"group_order_minus_one_half is {g:#x}, (p-1)/2 is {(p - 1) // 2:#x}", "group_order_minus_one_half")
        if k in FORMULA: ob("standard", p == FORMULA[k], f"modulus is {p:#x}, the defining formula gives {FORMULA[k]:#x}")
    for a, b in (("pallas/base", "vesta/scalar"), ("vesta/base", "pallas/scalar"), ("mnt4-298/base", "mnt6-298/scalar"), ("mnt6-298/base", "mnt4-298/scalar"), ("bls12-381/scalar", "jubjub/base"), ("alt_bn128-254/scalar", "babyjubjub/base"), ("alt_bn128-254/base", "bn128-254/base"), ("alt_bn128-254/scalar", "bn128-254/scalar")):
        c.ob(f"same/{a}/{b}", K[a]["modulus"] == K[b]["modulus"], f"{a} and {b} are the same field", None if K[a]["modulus"] == K[b]["modulus"] else line_of(dict((x, y) for x, y, _ in FIELDS)[a], "modulus"))
    for k, h, t in FIELDS:                       # Hasse: prime-order (cofactor 1) groups and, in general, order * cofactor
        if k.endswith("/scalar") and k[:-6] + "base" in K:
            p, r = K[k[:-6] + "base"]["modulus"][0], K[k]["modulus"][0]
            if "sect" in k: continue
            hs = [h for h in (1, 2, 3, 4, 8) if (p + 1 - h * r) ** 2 <= 4 * p] or [h for h in range(max(1, (p + 1) // r - 2), (p + 1) // r + 3) if (p + 1 - h * r) ** 2 <= 4 * p and p // r < 2 ** 130]
            c.ob(f"hasse/{k[:-7]}", bool(hs), f"group order {r:#x} times a cofactor in the Hasse interval of {p:#x}" if hs else f"no multiple of the group order {r:#x} lies in the Hasse interval", None if hs else line_of(h, "modulus", t))



# ---------------------------------------------------------------- extension fields as polynomials modulo x^n - nr
class Ext:
    """F[x]/(x^n - nr) over a base (an int modulus, or another Ext); elements are nested tuples / ints"""
    def __init__(s, base, n, nr):
        s.b, s.n, s.nr = base, n, nr
        s.p = base if isinstance(base, int) else base.p
        s.q = (base if isinstance(base, int) else base.q) ** n
        s.zero = tuple([s.bz] * n); s.one = tuple([s.bo] + [s.bz] * (n - 1))

    @property
    def bz(s): return 0 if isinstance(s.b, int) else s.b.zero
    @property
    def bo(s): return 1 if isinstance(s.b, int) else s.b.one
    def badd(s, x, y): return (x + y) % s.b if isinstance(s.b, int) else s.b.add(x, y)
    def bsub(s, x, y): return (x - y) % s.b if isinstance(s.b, int) else s.b.sub(x, y)
    def bmul(s, x, y): return x * y % s.b if isinstance(s.b, int) else s.b.mul(x, y)
    def binv(s, x): return pow(x, -1, s.b) if isinstance(s.b, int) else s.b.inv(x)
    def add(s, x, y): return tuple(s.badd(a, b) for a, b in zip(x, y))
    def sub(s, x, y): return tuple(s.bsub(a, b) for a, b in zip(x, y))
    def mul(s, x, y):
        r = [s.bz] * (2 * s.n - 1)
        for i, a in enumerate(x):
            for j, b in enumerate(y): r[i + j] = s.badd(r[i + j], s.bmul(a, b))
        for i in range(2 * s.n - 2, s.n - 1, -1): r[i - s.n] = s.badd(r[i - s.n], s.bmul(r[i], s.nr))
        return tuple(r[:s.n])
    def pw(s, x, e):
        r = s.one
        while e:
            if e & 1: r = s.mul(r, x)
            x = s.mul(x, x); e >>= 1
        return r
    def inv(s, x): return s.pw(x, s.q - 2)
    def emb(s, a): return tuple([a] + [s.bz] * (s.n - 1))
    def flat(s, x):
        for a in x:
            if isinstance(a, int): yield a
            else: yield from s.b.flat(a)


class Fp1(Ext):
    """the prime field with the same interface (elements are ints)"""
    def __init__(s, p): s.b = s.p = s.q = p; s.n = 1; s.zero, s.one = 0, 1
    def add(s, x, y): return (x + y) % s.p
    def sub(s, x, y): return (x - y) % s.p
    def mul(s, x, y): return x * y % s.p
    def pw(s, x, e): return pow(x, e, s.p)
    def inv(s, x): return pow(x, -1, s.p)
    def emb(s, a): return a % s.p
    def flat(s, x): yield x


def pack(K, v):
    v = [x % K.p for x in v]
    return v[0] if isinstance(K, Fp1) else tuple(v)


# ---------------------------------------------------------------- curve arithmetic on the affine equations
def sw_mul(K, a, P, k):
    def add(P, Q):
        if P is None: return Q
        if Q is None: return P
        if P[0] == Q[0]:
            if K.add(P[1], Q[1]) == K.zero: return None
            x2 = K.mul(P[0], P[0])
            l = K.mul(K.add(K.add(x2, x2), K.add(x2, a)), K.inv(K.add(P[1], P[1])))
        else: l = K.mul(K.sub(Q[1], P[1]), K.inv(K.sub(Q[0], P[0])))
        x = K.sub(K.sub(K.mul(l, l), P[0]), Q[0])
        return x, K.sub(K.mul(l, K.sub(P[0], x)), P[1])
    R = None
    for b in bin(k)[2:]:
        R = add(R, R)
        if b == "1": R = add(R, P)
    return R


def te_mul(K, a, d, P, k):
    """projective (X:Y:Z), complete formulas; returns affine"""
    def add(P, Q):
        A = K.mul(P[2], Q[2]); B = K.mul(A, A); C = K.mul(P[0], Q[0]); D = K.mul(P[1], Q[1]); E = K.mul(d, K.mul(C, D)); F = K.sub(B, E); G = K.add(B, E)
        X = K.mul(K.mul(A, F), K.sub(K.sub(K.mul(K.add(P[0], P[1]), K.add(Q[0], Q[1])), C), D))
        return X, K.mul(K.mul(A, G), K.sub(D, K.mul(a, C))), K.mul(F, G)
    R = (K.zero, K.one, K.one); P = (P[0], P[1], K.one)
    for b in bin(k)[2:]:
        R = add(R, R)
        if b == "1": R = add(R, P)
    if R[2] == K.zero: return "undefined"
    z = K.inv(R[2]); return K.mul(R[0], z), K.mul(R[1], z)


# ---------------------------------------------------------------- K03: extension parameters
FB = "bls12_base_field<%d>"
EXT = []      # key, header, type, field, tower: (p key, [(n, from)])
def _ext():
    D = F_ + "detail/extension_params/"
    for v in (381, 377):
        EXT.append((f"bls12-{v}/fp2", D + "bls12/fp2.hpp", f"fp2_extension_params<bls12_base_field<{v}>>"))
        EXT.append((f"bls12-{v}/fp6", D + "bls12/fp6_3over2.hpp", f"fp6_3over2_extension_params<bls12_base_field<{v}>>"))
        EXT.append((f"bls12-{v}/fp12", D + "bls12/fp12_2over3over2.hpp", f"fp12_2over3over2_extension_params<bls12_base_field<{v}>>"))
    for n in ("alt_bn128", "bn128"):
        EXT.append((f"{n}-254/fp2", D + n + "/fp2.hpp", f"fp2_extension_params<{n}_base_field<254>>"))
        EXT.append((f"{n}-254/fp6", D + n + "/fp6_3over2.hpp", f"fp6_3over2_extension_params<{n}_base_field<254>>"))
        EXT.append((f"{n}-254/fp12", D + n + "/fp12_2over3over2.hpp", f"fp12_2over3over2_extension_params<{n}_base_field<254>>"))
    EXT.append(("mnt4-298/fp2", D + "mnt4/fp2.hpp", "fp2_extension_params<mnt4_base_field<298>>"))
    EXT.append(("mnt4-298/fp4", D + "mnt4/fp4.hpp", "fp4_extension_params<mnt4_base_field<298>>"))
    EXT.append(("mnt6-298/fp3", D + "mnt6/fp3.hpp", "fp3_extension_params<mnt6_base_field<298>>"))
    EXT.append(("mnt6-298/fp6", D + "mnt6/fp6_2over3.hpp", "fp6_2over3_extension_params<mnt6_base_field<298>>"))
    EXT.append(("edwards-183/fp3", D + "edwards/fp3.hpp", "fp3_extension_params<edwards_base_field<183>>"))
    EXT.append(("edwards-183/fp6", D + "edwards/fp6_2over3.hpp", "fp6_2over3_extension_params<edwards_base_field<183>>"))
_ext()
HALF = "group_order_minus_one_half"
EN = ["modulus", "s", "t", "t_minus_1_over_2", "nqr", "nqr_to_t", "group_order_minus_one_half", "group_order", "Frobenius_coeffs_c1", "Frobenius_coeffs_c2", "non_residue"]
NS_D = "nil::crypto3::algebra::fields; using namespace nil::crypto3::algebra::fields::detail"


def sylow(ob, K, d, name=""):
    """s, t, nqr and their relatives for a field K of odd order"""
    g = K.q - 1; s = (g & -g).bit_length() - 1; t = g >> s
    if "s" in d: ob("s", d["s"] == [s], f"s is {d['s'][0]}, 2^{s} is the power of two dividing the order of the multiplicative group", "s")
    if "t" in d: ob("t", d["t"] == [t], f"t is {d['t'][0]:#x}, the odd part of the group order is {t:#x}", "t")
    if "t_minus_1_over_2" in d: ob("t_minus_1_over_2", d["t_minus_1_over_2"] == [(t - 1) // 2], f"(t-1)/2 is {(t - 1) // 2:#x}, the constant {d['t_minus_1_over_2'][0]:#x}", "t_minus_1_over_2")
    for h in ("group_order_minus_one_half", "group_order"):
        if h in d: ob(h, d[h] == [g // 2], f"{h} is {d[h][0]:#x}, half the order of the multiplicative group is {g // 2:#x}", h)
    if "nqr" in d:
        n = pack(K, d["nqr"])
        ob("nqr", K.pw(n, g // 2) == K.sub(K.zero, K.one), f"nqr {d['nqr']} is a quadratic non-residue", "nqr")
        if "nqr_to_t" in d:
            ob("nqr_to_t", K.pw(n, t) == pack(K, d["nqr_to_t"]), "nqr_to_t is nqr raised to t", "nqr_to_t")


def dth_power(K, x, d): return K.pw(x, (K.q - 1) // d) == K.one


def exts(c): return harvest(c, EXT, EN, NS_D, skip=lambda k, n: n == HALF and k[-3:] not in ('fp2', 'fp3'))


def K03(c):
    X = exts(c); P = fields(c)
    for k, h, t in EXT:
        d = X[k]; cur, lvl = k.split("/")
        p = P[cur + "/base"]["modulus"][0]; F = Fp1(p)
        def ob(name, ok, msg, what): c.ob(f"{k}/{name}", bool(ok), msg, line_of(h, what, t) if not ok else None)
        if "modulus" in d: ob("modulus", d["modulus"] == [p], "the modulus is that of the base field", "modulus")
        nr = d["non_residue"]; c1 = d.get("Frobenius_coeffs_c1"); c2 = d.get("Frobenius_coeffs_c2")
        if lvl in ("fp2", "fp3"):
            n = int(lvl[2]); K = Ext(p, n, nr[0] % p)
            ob("non_residue", len(nr) == 1 and (p - 1) % n == 0 and not dth_power(F, nr[0], n), f"non_residue {nr} has no {n}-th root in F_p", "non_residue")
            ob("frobenius-c1", c1 == [pow(nr[0], (p ** i - 1) // n, p) for i in range(n)], f"Frobenius_coeffs_c1[i] is non_residue^((p^i-1)/{n})", "Frobenius_coeffs_c1")
            if n == 3: ob("frobenius-c2", c2 == [pow(nr[0], 2 * (p ** i - 1) // n, p) for i in range(n)], "Frobenius_coeffs_c2[i] is non_residue^(2(p^i-1)/3)", "Frobenius_coeffs_c2")
            sylow(ob, K, d)
        elif lvl == "fp4" or (lvl == "fp6" and cur + "/fp3" in X):
            n = int(lvl[2]); m = n // 2; low = X[f"{cur}/fp{m}"]["non_residue"][0] % p
            ob("non_residue", len(nr) == 1 and nr[0] % p == low and (p - 1) % n == 0 and not dth_power(F, nr[0], 2) and (n == 4 or not dth_power(F, nr[0], 3)),
               f"non_residue {nr} agrees with the lower level ({low}) and the tower polynomial is irreducible", "non_residue")
            ob("frobenius-c1", c1 == [pow(low, (p ** i - 1) // n, p) for i in range(n)], f"Frobenius_coeffs_c1[i] is non_residue^((p^i-1)/{n})", "Frobenius_coeffs_c1")
        else:
            K = Ext(p, 2, X[cur + "/fp2"]["non_residue"][0] % p); xi = pack(K, nr)
            d3, d2 = dth_power(K, xi, 3), dth_power(K, xi, 2)
            ob("non_residue", len(nr) == 2 and not d3 and not d2, f"non_residue {nr} is neither a square nor a cube in F_p^2", "non_residue")
            if lvl == "fp12": ob("same-xi", nr == X[cur + "/fp6"]["non_residue"], "both levels use the same non-residue", "non_residue")
            n = 6 if lvl == "fp6" else 12; e = 3 if n == 6 else 6
            fl = lambda m: [y for i in range(n) for y in K.pw(xi, m * (p ** i - 1) // e % (K.q - 1))]
            ob("frobenius-c1", c1 == fl(1), f"Frobenius_coeffs_c1[i] is xi^((p^i-1)/{e})", "Frobenius_coeffs_c1")
            if n == 6: ob("frobenius-c2", c2 == fl(2), "Frobenius_coeffs_c2[i] is xi^(2(p^i-1)/3)", "Frobenius_coeffs_c2")


# ---------------------------------------------------------------- K04: arithmetic parameters
ARITH = []
def _ar():
    D = F_ + "arithmetic_params/"
    for n, v in (("alt_bn128", 254), ("bls12", 381), ("bls12", 377), ("bn128", 254)):
        h = D + n + ".hpp"
        ARITH.append((f"{n}-{v}/base", h, f"arithmetic_params<{n}_base_field<{v}>>"))
        ARITH.append((f"{n}-{v}/fp2", h, f"arithmetic_params<fp2<{n}_base_field<{v}>>>"))
        ARITH.append((f"{n}-{v}/scalar", h, f"arithmetic_params<{n}_scalar_field<{v}>>"))
    ARITH.append(("mnt4-298/base", D + "mnt4.hpp", "arithmetic_params<mnt4_base_field<298>>"))
    ARITH.append(("mnt4-298/fp2", D + "mnt4.hpp", "arithmetic_params<fp2<mnt4_base_field<298>>>"))
    ARITH.append(("mnt6-298/base", D + "mnt6.hpp", "arithmetic_params<mnt6_base_field<298>>"))
    ARITH.append(("mnt6-298/fp3", D + "mnt6.hpp", "arithmetic_params<fp3<mnt6_base_field<298>>>"))
    for e in ("base", "scalar"): ARITH.append((f"edwards-183/{e}", D + "edwards.hpp", f"arithmetic_params<edwards_{e}_field<183>>"))
    ARITH.append(("edwards-183/fp3", D + "edwards.hpp", "arithmetic_params<fp3<edwards_base_field<183>>>"))
    ARITH.append(("goldilocks64/base", D + "goldilocks64.hpp", "arithmetic_params<goldilocks64_base_field>"))
    ARITH.append(("pallas/base", D + "pallas.hpp", "arithmetic_params<pallas_base_field>"))
    ARITH.append(("vesta/base", D + "vesta.hpp", "arithmetic_params<vesta_base_field>"))
    for n, v in (("dsa_botan", 2048), ("dsa_botan", 3072), ("dsa_jce", 1024)): ARITH.append((f"{n}-{v}", D + n + ".hpp", f"arithmetic_params<{n}<{v}>>"))
_ar()
AN = ["modulus", "s", "t", "t_minus_1_over_2", "nqr", "nqr_to_t", "group_order_minus_one_half", "group_order", "arithmetic_generator", "geometric_generator", "multiplicative_generator", "root_of_unity", "Rsquared", "Rcubed", "mul_generator"]


def small_factors(n, b=1 << 16):
    r = []
    for q in range(2, b):
        if n % q == 0:
            r.append(q)
            while n % q == 0: n //= q
    if n > 1 and is_prime(n): r.append(n)
    return r


def K04(c):
    A = harvest(c, ARITH, AN, skip=lambda k, n: n == HALF and not k.startswith(("bls12", "goldilocks"))); P = fields(c); X = exts(c)
    for k, h, t in ARITH:
        d = A[k]; cur, _, lvl = k.partition("/")
        def ob(name, ok, msg, what): c.ob(f"{k}/{name}", bool(ok), msg, line_of(h, what, t) if not ok else None)
        p = P[k if lvl in ("base", "scalar", "") else cur + "/base"]["modulus"][0]
        ob("modulus", d["modulus"] == [p], "the modulus is that of the field", "modulus")
        if "mul_generator" in d:                      # DSA group: q | p - 1, g of order q
            q, g = d["group_order"][0], d["mul_generator"][0]
            ob("group_order", is_prime(q) and (p - 1) % q == 0, f"group order {q:#x} is a prime dividing p - 1", "group_order")
            ob("mul_generator", 1 < g < p and pow(g, q, p) == 1, "mul_generator has order q", "mul_generator")
            continue
        K = Fp1(p) if lvl in ("base", "scalar") else Ext(p, int(lvl[2]), X[k]["non_residue"][0] % p)
        sylow(ob, K, d)
        if lvl not in ("base", "scalar"): continue
        s = ((p - 1) & (1 - p)).bit_length() - 1
        if "root_of_unity" in d:
            w = d["root_of_unity"][0]
            ob("root_of_unity", 0 < w < p and pow(w, 1 << (s - 1), p) == p - 1, f"root_of_unity has order exactly 2^{s}", "root_of_unity")
        if "multiplicative_generator" in d:
            g = d["multiplicative_generator"][0]; bad = [q for q in small_factors(p - 1) if pow(g, (p - 1) // q, p) == 1]
            ob("multiplicative_generator", 0 < g < p and not bad, f"multiplicative_generator {g} is a q-th power for q in {bad}" if bad else "multiplicative_generator is no q-th power for the known prime factors q of p - 1", "multiplicative_generator")
        if "arithmetic_generator" in d: ob("arithmetic_generator", d["arithmetic_generator"][0] % p == 1, f"arithmetic_generator is {d['arithmetic_generator'][0]}", "arithmetic_generator")
        if "geometric_generator" in d:
            g = d["geometric_generator"][0]; ob("geometric_generator", g % p not in (0, 1, p - 1) and g == 2, f"geometric_generator is {g}", "geometric_generator")
        R = 1 << 64 * ((p.bit_length() + 63) // 64)
        if "Rsquared" in d: ob("Rsquared", d["Rsquared"] == [R * R % p], f"Rsquared is {d['Rsquared'][0]:#x}, R^2 mod p is {R * R % p:#x}", "Rsquared")
        if "Rcubed" in d: ob("Rcubed", d["Rcubed"] == [R * R * R % p], f"Rcubed is {d['Rcubed'][0]:#x}, R^3 mod p is {R ** 3 % p:#x}", "Rcubed")



# ---------------------------------------------------------------- K02: curve parameters
CUR = []      # key, header, type, form, field key, extension key or None
def _cu():
    D = "nil/crypto3/algebra/curves/detail/"
    for n, v, g2 in (("bls12", 381, "fp2"), ("bls12", 377, "fp2"), ("alt_bn128", 254, "fp2"), ("mnt4", 298, "fp2"), ("mnt6", 298, "fp3")):
        h = D + f"{n}/{v}/short_weierstrass_params.hpp"
        CUR.append((f"{n}-{v}/g1", h, f"{n}_g1_params<{v}, forms::short_weierstrass>", "sw", f"{n}-{v}", None))
        CUR.append((f"{n}-{v}/g2", h, f"{n}_g2_params<{v}, forms::short_weierstrass>", "sw", f"{n}-{v}", f"{n}-{v}/{g2}"))
    for n, vs in (("secp_k1", (160, 192, 224, 256)), ("secp_r1", (160, 192, 224, 256, 384, 521))):
        for v in vs: CUR.append((f"{n}-{v}/g1", D + f"{n}/256/short_weierstrass_params.hpp", f"{n}_g1_params<{v}, forms::short_weierstrass>", "sw", f"{n}-{v}", None))
    for n in ("pallas", "vesta"): CUR.append((f"{n}/g1", D + f"{n}/params.hpp", f"{n}_g1_params<forms::short_weierstrass>", "sw", n, None))
    for n in ("jubjub", "babyjubjub", "curve25519"):
        CUR.append((f"{n}/te", D + f"{n}/params.hpp", f"{n}_g1_params<forms::twisted_edwards>", "te", n, None))
        CUR.append((f"{n}/mo", D + f"{n}/params.hpp", f"{n}_g1_params<forms::montgomery>", "mo", n, None))
    CUR.append(("edwards-183/g1/te", D + "edwards/183/twisted_edwards_params.hpp", "edwards_g1_params<183, forms::twisted_edwards>", "te", "edwards-183", None))
    CUR.append(("edwards-183/g2/te", D + "edwards/183/twisted_edwards_params.hpp", "edwards_g2_params<183, forms::twisted_edwards>", "te", "edwards-183", "edwards-183/fp3"))
    CUR.append(("edwards-183/g1/ed", D + "edwards/183/edwards_params.hpp", "edwards_g1_params<183, forms::edwards>", "ed", "edwards-183", None))
    CUR.append(("edwards-183/g2/ed", D + "edwards/183/edwards_params.hpp", "edwards_g2_params<183, forms::edwards>", "ed", "edwards-183", "edwards-183/fp3"))
_cu()
CN = ["a", "b", "c", "d", "A", "B", "zero_fill", "one_fill", "twist", "cofactor"]
NS_C = "nil::crypto3::algebra; using namespace nil::crypto3::algebra::curves; using namespace nil::crypto3::algebra::curves::detail"


def syntactic_curves(c, P):
    """curve headers that name groups the library does not define yet (they cannot be compiled): their constants are read from the text"""
    strip = lambda t: re.sub(r"//[^\n]*|/\*.*?\*/", lambda m: re.sub(r"[^\n]", " ", m.group(0)), t, flags=re.S)
    for n in ("brainpool_r1", "gost_A", "sm2p_v1", "frp_v1", "x962_p"):
        h = f"nil/crypto3/algebra/curves/{n}.hpp"
        try: txt = strip(open(os.path.join(INC, h)).read())
        except OSError: continue
        for m in re.finditer(r"struct\s+(\w+)<(\d+)>\s*(?::[^{;]*)?\{", txt):
            d = 1; e = m.end()
            while d and e < len(txt): d += {"{": 1, "}": -1}.get(txt[e], 0); e += 1
            body = txt[m.end():e]; name, bits = m.group(1), m.group(2)
            v = {}
            for q in re.finditer(r"\bintegral_type\s+([abxy])\s*=\s*(0[xX][0-9a-fA-F]+|\d+)", body): v[q.group(1)] = int(q.group(2), 0)
            f = dict((y, x) for x, y in re.findall(r"fields::(\w+)_f([qr])\b", body))
            if set(v) != set("abxy") or set(f) != {"q", "r"}: continue
            fb, fs = f"{f['q']}-{bits}/base", f"{f['r']}-{bits}/scalar"
            if fb not in P or fs not in P: continue
            p, r = P[fb]["modulus"][0], P[fs]["modulus"][0]; K = Fp1(p); key = f"{name}-{bits}"
            def ob(nm, ok, msg, pos): c.ob(f"{key}/{nm}", bool(ok), msg, f"include/{h}:{txt[:m.end() + pos].count(chr(10)) + 1}" if not ok else None)
            on = (v["y"] ** 2 - v["x"] ** 3 - v["a"] * v["x"] - v["b"]) % p == 0
            ob("on-curve", on, "the generator satisfies y^2 = x^3 + ax + b", body.find("integral_type x"))
            ob("nonsingular", (4 * v["a"] ** 3 + 27 * v["b"] ** 2) % p, "4a^3 + 27b^2 != 0", body.find("integral_type b"))
            if on: ob("order", sw_mul(K, v["a"], (v["x"], v["y"]), r) is None, f"the generator has the order of the scalar field, {r:#x}", body.find("scalar_field_type"))


def edwards_policy(c, P, X):
    """edwards_basic_policy: the points are held in inverted coordinates, x = Z/X and y = Z/Y; G2 lives on the twist with a w, d w"""
    h = "nil/crypto3/algebra/curves/detail/edwards/basic_policy.hpp"; N = ["version", "p", "q", "base_field_modulus", "scalar_field_modulus", "a", "d", "g1_one_fill", "g1_zero_fill", "g2_one_fill", "g2_zero_fill"]
    d = harvest(c, [("policy", "nil/crypto3/algebra/curves/edwards.hpp", "edwards_basic_policy<183>")], N, NS_C)["policy"]
    p, r = P["edwards-183/base"]["modulus"][0], P["edwards-183/scalar"]["modulus"][0]
    te = harvest(c, [x for x in CUR if x[0] == "edwards-183/g1/te"], CN, NS_C)["edwards-183/g1/te"]
    def ob(name, ok, msg, what): c.ob(f"edwards-183/policy/{name}", bool(ok), msg, line_of(h, what) if not ok else None)
    for n, w in (("p", p), ("base_field_modulus", p), ("q", r), ("scalar_field_modulus", r)): ob(n, d.get(n) == [w], f"{n} is {w:#x}", n)
    ob("version", d.get("version") == [183], "the version is 183", "version")
    for n in "ad": ob(n, d[n][0] % p == te[n][0] % p, f"{n} is that of the curve", n)
    for g, K in (("g1", Fp1(p)), ("g2", Ext(p, 3, X["edwards-183/fp3"]["non_residue"][0] % p))):
        n = K.n; co = [pack(K, d[g + "_one_fill"][i * n:i * n + n]) for i in range(len(d[g + "_one_fill"]) // n)]
        a, dd = K.emb(d["a"][0]), K.emb(d["d"][0])
        if n == 3: w = pack(K, [0, 1, 0]); a, dd = K.mul(a, w), K.mul(dd, w)
        ok = len(co) == 3 and K.zero not in co
        ob(g + "/size", ok, "the generator has three non-zero coordinates", g + "_one_fill")
        if not ok: continue
        G = (K.mul(co[2], K.inv(co[0])), K.mul(co[2], K.inv(co[1]))); xx, yy = (K.mul(t, t) for t in G)
        on = K.add(K.mul(a, xx), yy) == K.add(K.one, K.mul(dd, K.mul(xx, yy)))
        ob(g + "/on-curve", on, "the generator satisfies the curve equation", g + "_one_fill")
        if on: ob(g + "/order", te_mul(K, a, dd, G, r) == (K.zero, K.one) and G != (K.zero, K.one), f"the generator has order r = {r:#x}", g + "_one_fill")
        z = [pack(K, d[g + "_zero_fill"][i * n:i * n + n]) for i in range(len(d[g + "_zero_fill"]) // n)]
        ob(g + "/zero-marker", len(z) == 3 and z[2] == K.zero and K.zero in z[:2], f"the neutral element has Z = 0 and X or Y zero: {z}", g + "_zero_fill")


def K02(c):
    C = harvest(c, CUR, CN, NS_C); P = fields(c); X = exts(c)
    for k, h, t, form, fk, ek in CUR:
        d = C[k]; p, r = P[fk + "/base"]["modulus"][0], P[fk + "/scalar"]["modulus"][0]
        def ob(name, ok, msg, what): c.ob(f"{k}/{name}", bool(ok), msg, line_of(h, what, t) if not ok else None)
        K = Fp1(p) if ek is None else Ext(p, int(ek[-1]), X[ek]["non_residue"][0] % p); n = K.n
        el = lambda v: pack(K, v + [0] * (n - len(v)))
        G = (el(d["one_fill"][:n]), el(d["one_fill"][n:2 * n]))
        co = {x: el(d[x]) for x in "abcdAB" if x in d}
        ob("one-size", len(d["one_fill"]) >= 2 * n and not any(d["one_fill"][2 * n:]), "the generator has two coordinates", "one_fill")
        if form == "sw":
            a, b = co["a"], co["b"]; x, y = G
            x3 = K.mul(x, K.mul(x, x))
            ob("on-curve", K.mul(y, y) == K.add(K.add(x3, K.mul(a, x)), b), "the generator satisfies y^2 = x^3 + ax + b", "one_fill")
            disc = K.add(K.mul(K.emb(4), K.mul(a, K.mul(a, a))), K.mul(K.emb(27), K.mul(b, b)))
            ob("nonsingular", disc != K.zero, "4a^3 + 27b^2 != 0", "b")
            ob("order", sw_mul(K, a, G, r) is None, f"the generator has order r = {r:#x}", "one_fill")
            z = (el(d["zero_fill"][:n]), el(d["zero_fill"][n:2 * n]))
            ob("zero-marker", K.mul(z[1], z[1]) != K.add(K.add(K.mul(z[0], K.mul(z[0], z[0])), K.mul(a, z[0])), b), f"the pair that stands for the point at infinity, {z}, is not a point of the curve", "zero_fill")
        elif form in ("te", "ed"):
            a = co["a"] if form == "te" else K.one; dd = co["d"]; x, y = G
            if form == "te": on = K.add(K.mul(a, K.mul(x, x)), K.mul(y, y)) == K.add(K.one, K.mul(dd, K.mul(K.mul(x, x), K.mul(y, y))))
            else:
                cc = co["c"]            # over the extension (G2) c is the coefficient of x^2 on the twist
                on = K.add(K.mul(cc, K.mul(x, x)), K.mul(y, y)) == K.add(K.one, K.mul(dd, K.mul(K.mul(x, x), K.mul(y, y)))) if ek else K.add(K.mul(x, x), K.mul(y, y)) == K.mul(K.mul(cc, cc), K.add(K.one, K.mul(dd, K.mul(K.mul(x, x), K.mul(y, y)))))
            ob("on-curve", on, "the generator satisfies the curve equation", "one_fill")
            if form == "te": ob("nonsingular", dd != K.zero and a != K.zero and a != dd, "a, d and a - d are not zero", "d")
            if form == "te" and on: ob("order", te_mul(K, a, dd, G, r) == (K.zero, K.one) and G != (K.zero, K.one), f"the generator has order r = {r:#x}", "one_fill")
            z = (el(d["zero_fill"][:n]), el(d["zero_fill"][n:2 * n]))
            ob("zero-marker", z in ((K.zero, K.one), (K.zero, K.zero)), f"the neutral element is (0, 1) or the marker (0, 0): {z}", "zero_fill")
        else:
            A = co.get("A", co.get("a")); B = co.get("B", co.get("b")); x, y = G
            on = B * y * y % p == (x ** 3 + A * x * x + x) % p
            ob("on-curve", on, "the generator satisfies B y^2 = x^3 + A x^2 + x", "one_fill")
            ob("nonsingular", B and (A * A - 4) % p, "B (A^2 - 4) != 0", "A" if "A" in d else "a")
            # B y^2 = x^3 + A x^2 + x is, with X = B x, Y = B^2 y, the curve Y^2 = X^3 + AB X^2 + B^2 X; shift to short Weierstrass
            if on:
                i3 = pow(3, -1, p); a2, a4 = A * B % p, B * B % p
                sa = (a4 - a2 * a2 * i3) % p
                ob("order", sw_mul(K, sa, ((B * x + a2 * i3) % p, B * B * y % p), r) is None, f"the generator has order r = {r:#x}", "one_fill")
        if "cofactor" in d:
            q = d["cofactor"][0]
            ob("cofactor", (p + 1 - q * r) ** 2 <= 4 * p, f"cofactor {q} times the group order lies in the Hasse interval", "cofactor")
    syntactic_curves(c, P)
    edwards_policy(c, P, X)
    for n in ("jubjub", "babyjubjub", "curve25519"):
        p = P[n + "/base"]["modulus"][0]; te, mo = C[n + "/te"], C[n + "/mo"]
        a, d = te["a"][0] % p, te["d"][0] % p; A, B = (mo.get("A") or mo["a"])[0] % p, (mo.get("B") or mo["b"])[0] % p
        # birational equivalence: (A + 2) / (A - 2) = a / d, and B (A + 2) a is a square up to the twist
        h, t = [(hh, tt) for kk, hh, tt, *_ in CUR if kk == n + "/mo"][0]
        ok = (A + 2) * d % p == (A - 2) * a % p
        c.ob(f"{n}/birational", ok, f"the Montgomery curve (A = {A}) and the twisted Edwards curve (a, d) are birationally equivalent: (A+2) d = (A-2) a", None if ok else line_of(h, "A" if "A" in mo else "a", t))
        sq = pow((A + 2) * B * a % p, (p - 1) // 2, p) == 1
        c.ob(f"{n}/not-a-twist", sq, "(A+2) a B is a square: the two curves are equivalent over the field itself", None if sq else line_of(h, "B" if "B" in mo else "b", t))
        G, M = te["one_fill"], mo["one_fill"]
        u = (1 + G[1]) * pow(1 - G[1], -1, p) % p
        c.ob(f"{n}/same-generator", u == M[0] % p, "the Montgomery generator is the image of the twisted Edwards one: u = (1+y)/(1-y)", None if u == M[0] % p else line_of(h, "one_fill", t))


# ---------------------------------------------------------------- K05: pairing parameters
PD = "nil/crypto3/algebra/pairing/detail/"
PAIR = [(f"{n}-{v}", f"{PD}{d}params.hpp", f"pairing_params<nil::crypto3::algebra::curves::{n}<{v}>>", k) for n, v, d, k in (("bls12", 381, "bls12/381/", 12), ("mnt4", 298, "mnt4/298/", 4), ("mnt6", 298, "mnt6/298/", 6), ("edwards", 183, "edwards/183/", 6), ("alt_bn128", 254, "alt_bn128/", 12))]
PN = ["integral_type_max_bits", "ate_loop_count", "ate_is_loop_count_neg", "final_exponent", "final_exponent_z", "final_exponent_is_z_neg", "final_exponent_last_chunk_abs_of_w0", "final_exponent_last_chunk_is_w0_neg", "final_exponent_last_chunk_w1", "twist", "twist_coeff_a", "twist_coeff_b"]


def K05(c):
    A = harvest(c, PAIR, PN, "nil::crypto3::algebra::pairing::detail", span=16)
    fam = [x[0] for x in PAIR]
    P = harvest(c, [f for f in FIELDS if f[0].split("/")[0] in fam], FN)
    X = harvest(c, [e for e in EXT if e[0].split("/")[0] in fam], EN, NS_D, skip=lambda k, n: n == HALF)
    C = harvest(c, [q for q in CUR if q[0].split("/")[0] in fam and not q[0].endswith("/ed")], CN, NS_C)
    for key, h, t, k in PAIR:
        d = A[key]; p, r = P[key + "/base"]["modulus"][0], P[key + "/scalar"]["modulus"][0]; one = lambda n: d[n][0]
        def ob(name, ok, msg, what): c.ob(f"{key}/{name}", bool(ok), msg, line_of(h, what, t) if not ok else None)
        ob("max-bits", one("integral_type_max_bits") >= one("ate_loop_count").bit_length(), "the scan of the loop count starts at or above its top bit", "integral_type_max_bits")
        phi = {12: p ** 4 - p ** 2 + 1, 6: p ** 2 - p + 1, 4: p ** 2 + 1}[k]
        if "final_exponent" in d: ob("final_exponent", one("final_exponent") == (p ** k - 1) // r and (p ** k - 1) % r == 0, f"final_exponent is (p^{k} - 1)/r", "final_exponent")
        if "final_exponent_last_chunk_w1" in d:
            w0 = one("final_exponent_last_chunk_abs_of_w0") * (-1 if one("final_exponent_last_chunk_is_w0_neg") else 1)
            ob("last-chunk", one("final_exponent_last_chunk_w1") * p + w0 == phi // r, f"w1 p + w0 is Phi_{k}(p)/r", "final_exponent_last_chunk_abs_of_w0")
        sgn = -1 if d.get("ate_is_loop_count_neg", [0])[0] else 1
        L = sgn * one("ate_loop_count")
        if key.startswith("bls12"):
            z = L
            ob("loop", bls(z) == (p, r), "the loop count, with its sign, is the curve's parameter z: p = (z-1)^2 (z^4-z^2+1)/3 + z, r = z^4-z^2+1", "ate_loop_count")
            ob("z", one("final_exponent_z") * (-1 if one("final_exponent_is_z_neg") else 1) == z, "final_exponent_z, with its sign, is the curve's parameter", "final_exponent_z")
        elif key.startswith("alt_bn128"):
            u = one("final_exponent_z") * (-1 if one("final_exponent_is_z_neg") else 1)
            ob("z", bn(u) == (p, r), "final_exponent_z is the curve's parameter u", "final_exponent_z")
            ob("loop", L == 6 * u + 2, "the loop count is 6u + 2", "ate_loop_count")
        elif key.startswith("mnt"): ob("loop", L == p - r, "the loop count, with its sign, is the trace minus one", "ate_loop_count")
        else:
            # without a sign flag the pairing may be the inverse of the ate pairing: the count is the absolute value of t - 1
            ob("loop", one("ate_loop_count") == abs(p - 4 * r), "the loop count is |trace - 1| = |p - 4r|", "ate_loop_count")
        if key.startswith(("bls12", "mnt")): ob("loop-mod-r", (L - p) % r == 0, "the loop count is congruent to p modulo r (ate pairing)", "ate_loop_count")
        lvl = {12: "fp2", 4: "fp2", 6: "fp3"}[k]; n = int(lvl[2])
        K = Ext(p, n, X[f"{key}/{lvl}"]["non_residue"][0] % p); el = lambda v: pack(K, v + [0] * (n - len(v)))
        tw = el(d["twist"])
        if k == 12: ob("twist", d["twist"] == X[key + "/fp6"]["non_residue"], "the twist is the non-residue of the sextic extension", "twist")
        else: ob("twist", d["twist"] == [0, 1] + [0] * (n - 2), "the twist is the generator of the extension", "twist")
        if key + "/g2" in C:
            g1, g2 = C[key + "/g1"], C[key + "/g2"]
            a, b = K.emb(g1["a"][0] % p), K.emb(g1["b"][0] % p)
            if "twist_coeff_b" in d: ob("twist_coeff_b", el(d["twist_coeff_b"]) == el(g2["b"]) == (K.mul(b, tw) if k == 12 else K.mul(b, K.mul(tw, K.mul(tw, tw)))), "twist_coeff_b is b of the twisted curve: b twist (sextic) or b twist^3 (quadratic)", "twist_coeff_b")
            if "twist_coeff_a" in d: ob("twist_coeff_a", el(d["twist_coeff_a"]) == el(g2["a"]) == K.mul(a, K.mul(tw, tw)), "twist_coeff_a is a of the twisted curve: a twist^2", "twist_coeff_a")


PROPS = {"K01": K01, "K02": K02, "K03": K03, "K04": K04, "K05": K05}
