"""T01 classification traits, D01 utility templates, D02 prime/totient helpers, R01 random elements, C09 subgroup test, P04 pairing wiring.
Truth tables, placements and call wiring, decided on the IR of tiny programs naming the current headers' templates."""
from core import *
from harn import *
import absint, vf, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from fields import nlit
from groups import run
NC = "nil/crypto3/"
TT = NC + "algebra/type_traits.hpp"
DT = NC + "detail/type_traits.hpp"


# ---------------------------------------------------------------- T01
PARTS = {   # member name -> declaration, and near-misses that are not the member asked for
    "base_field_type": ("typedef int base_field_type;", ["int base_field_type;"]), "scalar_field_type": ("typedef int scalar_field_type;", ["static int scalar_field_type();"]),
    "g1_type": ("template<class A = int, class B = int> struct g1_type {};", ["int g1_type;"]), "g2_type": ("template<class A = int, class B = int> struct g2_type {};", ["static const int g2_type = 1;"]), "gt_type": ("typedef int gt_type;", ["void gt_type();"]),
    "value_type": ("struct value_type {};", ["int value_type;"]), "field_type": ("typedef int field_type;", ["int field_type;"]), "value_bits": ("static constexpr std::size_t value_bits = 5;", ["typedef int value_bits;", "static std::size_t value_bits();"]),
    "curve_type": ("typedef int curve_type;", ["int curve_type;"]), "integral_type": ("typedef int integral_type;", ["int integral_type;"]), "modulus_bits": ("static constexpr std::size_t modulus_bits = 5;", ["std::size_t modulus_bits;"]),
    "modular_type": ("typedef int modular_type;", ["int modular_type;"]), "arity": ("static constexpr std::size_t arity = 2;", ["std::size_t arity() const;"]), "extension_policy": ("typedef int extension_policy;", ["int extension_policy;"]),
    "group_type": ("typedef int group_type;", ["int group_type;"]), "zero": ("static $T zero();", ["$T zero();", "static int zero();"]), "one": ("static $T one();", ["static const int one = 1;", "$T one() const;"]), "is_zero": ("bool is_zero();", ["int is_zero();"]),
    "is_well_formed": ("bool is_well_formed();", ["void is_well_formed();"]), "double_inplace": ("$T &double_inplace();", ["void double_inplace();"]), "mixed_add": ("void mixed_add($T const &);", ["void mixed_add(int);", "$T mixed_add($T const &);"]),
}
TRAITS = {"is_curve": ["base_field_type", "scalar_field_type", "g1_type", "g2_type", "gt_type"], "is_curve_group": ["value_type", "field_type", "value_bits", "curve_type"],
          "is_field": ["value_type", "value_bits", "integral_type", "modulus_bits", "modular_type", "arity"], "is_extended_field": ["value_type", "value_bits", "integral_type", "modulus_bits", "modular_type", "extension_policy"],
          "is_group_element": ["field_type", "group_type", "zero", "one", "is_zero", "is_well_formed", "double_inplace"], "has_mixed_add": ["mixed_add"]}
DPARTS = {"iterator": ("typedef int *iterator;", []), "const_iterator": ("typedef const int *const_iterator;", []), "begin": ("const_iterator begin() const;", []), "end": ("const_iterator end() const;", []),
          **{f"{d}_{k}": (f"typedef int {d}_{k};", []) for d in ("encoded", "decoded") for k in ("value_type", "block_type")}, **{f"{d}_{k}": (f"static const int {d}_{k} = 8;", []) for d in ("encoded", "decoded") for k in ("value_bits", "block_bits")},
          "encode": ("encoded_block_type encode();", []), "decode": ("decoded_block_type decode();", []), "rounds": ("static const int rounds = 8;", []), "encrypt": ("block_type encrypt();", []), "decrypt": ("block_type decrypt();", []),
          **{f"{d}_type": (f"typedef int {d}_type;", []) for d in ("word", "block", "key", "digest")}, **{f"{d}_bits": (f"static const int {d}_bits = 8;", []) for d in ("word", "block", "key", "digest", "max_key", "min_key")},
          "construction::type": ("", []), "construction::params_type": ("", []), "generate": ("void generate();", []), "check": ("void check() const;", [])}
DTRAITS = {"is_range": ["iterator", "const_iterator", "begin", "end"], "is_container": ["iterator", "const_iterator", "begin", "end"], "is_codec": [f"{d}_{k}" for d in ("encoded", "decoded") for k in ("value_type", "value_bits", "block_type", "block_bits")] + ["encode", "decode"],
           "is_block_cipher": ["word_type", "word_bits", "block_type", "block_bits", "key_type", "key_bits", "rounds", "encrypt", "decrypt"], "is_hash": ["digest_type", "digest_bits", "construction::type", "construction::params_type"],
           "is_mac": ["digest_type", "digest_bits", "block_type", "block_bits", "key_type", "key_bits"], "is_kdf": ["digest_type", "digest_bits", "key_type", "max_key_bits", "min_key_bits"], "is_passhash": ["generate", "check"]}
DEPENDS = {"begin": "const_iterator", "end": "const_iterator", "encode": "encoded_block_type", "decode": "decoded_block_type", "encrypt": "block_type", "decrypt": "block_type"}
ALLF = ["fp", "fp2", "fp3", "fp4", "fp6_2over3", "fp6_3over2", "fp12_2over3over2"]


def obsT():
    obs = []; types = []
    def t(key, trait, decls, want, ns, anc):
        n = f"M{len(types)}"
        types.append(f"struct {n} {{ {decls.replace('$T', n)} }};")
        obs.append(Ob(key, f"vi_out(0, {ns}{trait}<tt::{n}>::value);", lambda v: {0: want}, anchor=f"{trait}@{anc}", tu="tt"))
    for tr, ms in TRAITS.items():
        full = " ".join(PARTS[m][0] for m in ms); ns = "nil::crypto3::algebra::"
        t(f"{tr}/all members", tr, full, True, ns, TT)
        t(f"{tr}/more members", tr, full + " int other_; void f_();", True, ns, TT)
        t(f"{tr}/none", tr, "", False, ns, TT)
        for m in ms:
            rest = [PARTS[x][0] for x in ms if x != m]
            t(f"{tr}/no {m}", tr, " ".join(rest), False, ns, TT)
            for j, w in enumerate(PARTS[m][1]): t(f"{tr}/{m} is another kind of member ({j})", tr, " ".join(rest + [w]), False, ns, TT)
    for tr, ms in DTRAITS.items():
        def body(l):
            c = [x.split("::")[1] for x in l if x.startswith("construction")]
            d = " ".join(DPARTS[m][0] for m in l if not m.startswith("construction"))
            return d + (" struct construction { %s };" % " ".join(f"typedef int {x};" for x in c) if c else "")
        ns = "nil::crypto3::detail::"
        t(f"{tr}/all members", tr, body(ms), True, ns, DT)
        t(f"{tr}/none", tr, "", False, ns, DT)
        for m in ms:
            l = [x for x in ms if x != m and DEPENDS.get(x) != m]
            t(f"{tr}/no {m}", tr, body(l), False, ns, DT)
    E = lambda key, expr, want, anc, tu="tt": obs.append(Ob(key, f"vi_out(0, {expr});", lambda v: {0: want}, anchor=anc, tu=tu))
    A, DD = "nil::crypto3::algebra::", "nil::crypto3::detail::"
    for f in ALLF:
        el = f"{A}fields::detail::element_{f}<int>"
        E(f"is_field_element/{f}", f"{A}is_field_element<{el}>::value", True, f"is_field_element@{TT}")
        E(f"is_extended_field_element/{f}", f"{A}is_extended_field_element<{el}>::value", f != "fp", f"is_extended_field_element@{TT}")
    for x in ("int", "double", "std::complex<double>"):
        E(f"is_field_element/{x}", f"{A}is_field_element<{x}>::value", False, f"is_field_element@{TT}"); E(f"is_extended_field_element/{x}", f"{A}is_extended_field_element<{x}>::value", False, f"is_extended_field_element@{TT}")
    E("is_group_element/curve_element", f"{A}is_group_element<{A}curves::detail::curve_element<int, long, char>>::value", True, f"is_group_element@{TT}")
    for x, c, r in (("int", False, "int"), ("float", False, "float"), ("double", False, "double"), ("std::complex<float>", True, "float"), ("std::complex<double>", True, "double"), ("std::complex<long double>", True, "long double"), ("std::complex<int>", True, "int"), ("tt::Q", False, "tt::Q")):
        E(f"is_complex/{x}", f"{A}is_complex<{x}>::value", c, f"is_complex@{TT}"); E(f"is_complex_v/{x}", f"{A}is_complex_v<{x}>", c, f"is_complex@{TT}")
        E(f"remove_complex/{x}", f"std::is_same<{A}remove_complex_t<{x}>, {r}>::value", True, f"remove_complex@{TT}")
        E(f"remove_complex::type/{x}", f"std::is_same<typename {A}remove_complex<{x}>::type, {r}>::value", True, f"remove_complex@{TT}")
    for g in (1, 2):
        for own in (1, 2):
            E(f"is_g{g}_group_element/g{own}", f"{A}is_g{g}_group_element<tt::GE<{own}>>::value", g == own, f"is_g{g}_group_element@{TT}")
    for x, w in (("int *", True), ("const char *", True), ("std::vector<int>::iterator", True), ("std::list<long>::const_iterator", True), ("std::istream_iterator<int>", True), ("std::back_insert_iterator<std::vector<int>>", True), ("int", False), ("tt::Q", False), ("std::vector<int>", False), ("double", False)):
        E(f"is_iterator/{x}", f"{DD}is_iterator<{x}>::value", w, f"is_iterator@{DT}")
    for x, w in (("std::vector<int>", True), ("std::array<char, 3>", True), ("std::string", True), ("std::set<int>", True), ("std::list<double>", True), ("int", False), ("tt::Q", False), ("std::complex<double>", False)):
        for tr in ("is_range", "is_container"): E(f"{tr}/{x}", f"{DD}{tr}<{x}>::value", w, f"{tr}@{DT}")
    # each detection idiom on its own
    for m in ("iterator", "const_iterator", "encoded_value_type", "encoded_block_type", "decoded_value_type", "decoded_block_type", "block_type", "digest_type", "key_type", "key_schedule_type", "word_type"):
        t(f"has_{m}/present", f"has_{m}", f"typedef int {m};", True, DD, DT); t(f"has_{m}/class", f"has_{m}", f"struct {m} {{}};", True, DD, DT); t(f"has_{m}/absent", f"has_{m}", f"typedef int {m}x;", False, DD, DT)
        E(f"has_{m}/int", f"{DD}has_{m}<int>::value", False, f"has_{m}@{DT}")
    for m in ("encoded_value_bits", "encoded_block_bits", "decoded_value_bits", "decoded_block_bits", "block_bits", "digest_bits", "key_bits", "min_key_bits", "max_key_bits", "key_schedule_bits", "word_bits", "rounds"):
        t(f"has_{m}/present", f"has_{m}", f"static const int {m} = 3;", True, DD, DT); t(f"has_{m}/absent", f"has_{m}", f"static const int {m}x = 3;", False, DD, DT); E(f"has_{m}/int", f"{DD}has_{m}<int>::value", False, f"has_{m}@{DT}")
    # the library's own classes
    for h, c, ks in REALC:
        for tr in ("is_curve",):
            E(f"{tr}/{c}", f"{A}{tr}<{A}curves::{c}>::value", ks == "pairing", f"{tr}@{TT}", tu="rc")
        for g in (("g1_type", "g2_type") if ks == "pairing" else ("g1_type",)):
            gt = f"{A}curves::{c}::{g}<>"
            E(f"is_curve_group/{c}/{g}", f"{A}is_curve_group<{gt}>::value", True, f"is_curve_group@{TT}", tu="rc")
            E(f"is_field/{c}/{g}", f"{A}is_field<{gt}>::value", False, f"is_field@{TT}", tu="rc")
            E(f"is_group_element/{c}/{g}", f"{A}is_group_element<{gt}::value_type>::value", True, f"is_group_element@{TT}", tu="rc")
            E(f"is_field/field of {c}/{g}", f"{A}is_field<{gt}::field_type>::value", True, f"is_field@{TT}", tu="rc")
            E(f"is_extended_field/field of {c}/{g}", f"{A}is_extended_field<{gt}::field_type>::value", g == "g2_type", f"is_extended_field@{TT}", tu="rc")
            E(f"is_curve_group/field of {c}/{g}", f"{A}is_curve_group<{gt}::field_type>::value", False, f"is_curve_group@{TT}", tu="rc")
            E(f"is_field_element/{c}/{g}", f"{A}is_field_element<{gt}::field_type::value_type>::value && !{A}is_field_element<{gt}::value_type>::value", True, f"is_field_element@{TT}", tu="rc")
            if ks == "pairing":
                for k in (1, 2): E(f"is_g{k}_group_element/{c}/{g}", f"{A}is_g{k}_group_element<{gt}::value_type>::value", g == f"g{k}_type", f"is_g{k}_group_element@{TT}", tu="rc")
        for f in ("base_field_type", "scalar_field_type"):
            E(f"is_field/{c}/{f}", f"{A}is_field<{A}curves::{c}::{f}>::value && !{A}is_extended_field<{A}curves::{c}::{f}>::value && !{A}is_curve<{A}curves::{c}::{f}>::value", True, f"is_field@{TT}", tu="rc")
        if ks == "pairing": E(f"is_extended_field/{c}/gt", f"{A}is_extended_field<{A}curves::{c}::gt_type>::value && {A}is_field<{A}curves::{c}::gt_type>::value", True, f"is_extended_field@{TT}", tu="rc")
    return obs, types


REALC = [("bls12", "bls12<381>", "pairing"), ("bls12", "bls12<377>", "pairing"), ("alt_bn128", "alt_bn128<254>", "pairing"), ("mnt4", "mnt4<298>", "pairing"), ("mnt6", "mnt6<298>", "pairing"), ("pallas", "pallas", ""), ("vesta", "vesta", ""), ("jubjub", "jubjub", ""), ("babyjubjub", "babyjubjub", ""), ("secp_k1", "secp_k1<256>", ""), ("secp_r1", "secp_r1<256>", ""), ("curve25519", "curve25519", "")]


def T01(c):
    obs, types = obsT()
    pre = f'''#include <cstddef>
#include <hio.hpp>
#include <array>
#include <vector>
#include <list>
#include <set>
#include <string>
#include <iterator>
#include <complex>
#include <{TT}>
#include <{DT}>
namespace tt {{ struct Q {{}};
template<int K> struct GE; struct C1; template<class A, class B, int K> struct Gr {{ typedef C1 curve_type; }};
struct C1 {{ template<class A, class B> using g1_type = Gr<A, B, 1>; template<class A, class B> using g2_type = Gr<A, B, 2>; }};
template<int K> struct GE {{ typedef int coordinates; typedef char form; typedef Gr<int, char, K> group_type; }};
{chr(10).join(types)} }}
'''
    real = "#include <vf_mp.hpp>\n#include <boost/functional/hash.hpp>\n#include <hio.hpp>\n" + "".join(f"#include <{NC}algebra/curves/{h}.hpp>\n" for h in dict.fromkeys(h for h, _, _ in REALC)) + f"#include <{TT}>\n"
    run(c, [o for o in obs if o.tu == "tt"], pre)
    run(c, [o for o in obs if o.tu == "rc"], real)



# ---------------------------------------------------------------- D01
def witnesses(c, items, pre):
    """items: key, rejected program, accepted twin"""
    from concurrent.futures import ThreadPoolExecutor
    jobs = [(k, kind, pre + f"void probe() {{ {t}; }}\n") for k, b, g in items for kind, t in (("bad", b), ("good", g))]
    with ThreadPoolExecutor(8) as ex: res = list(ex.map(lambda j: syntax_ok(j[2], tmp=c.tmp), jobs))
    by = {(k, kind): r for (k, kind, _), r in zip(jobs, res)}
    for k, b, g in items:
        gok, gd = by[(k, "good")]
        c.ob(f"compile-accept/{k}", gok, f"`{g}` is accepted" if gok else f"the well-formed `{g}` is refused: {gd[-300:]}")
        c.ob(f"compile-reject/{k}", not by[(k, "bad")][0], f"`{b}` is rejected" if not by[(k, "bad")][0] else f"`{b}` is accepted")


MASK = lambda n: (1 << n) - 1
UT = {8: "std::uint8_t", 16: "std::uint16_t", 32: "std::uint32_t", 64: "std::uint64_t"}
def pats(n): return sorted({0, 1, MASK(n), MASK(n) - 1, 1 << (n - 1), MASK(n) // 3, MASK(n) // 3 * 2, int("123456789abcdef0fedcba98", 16) & MASK(n), MASK(n) // 5})
def lit(x): return f"{x}ull" if x >= 0 else f"({x}ll)"
def S64(x): return x & MASK(64)


def obsD():
    obs = []
    O = lambda key, body, want, anc, tu: obs.append(Ob(key, body, (lambda v: {k: S64(x) if isinstance(x, int) else x for k, x in want.items()}) if isinstance(want, dict) else want, anchor=anc, tu=tu))
    for n in range(0, 9):
        ins = "double a[9] = {0}; " + " ".join(f"a[{i}] = vd_in({i});" for i in range(n))
        for kind, fst, lst in (("pointer", "a", f"a + {n}"), ("const pointer", "(const double *)a", f"(const double *)a + {n}"), ("vector", "v.begin()", "v.end()"), ("reverse", f"std::reverse_iterator<double *>(a + {n})", "std::reverse_iterator<double *>(a)")):
            b = ins + (f"std::vector<double> v(a, a + {n}); " if kind == "vector" else "") + f"auto r = nil::crypto3::make_array<{n}>({fst}, {lst}); vi_out(100, r.size()); for (std::size_t i = 0; i < r.size(); ++i) vd_out(i, r[i]);"
            O(f"make_array/{kind}/{n}", b, lambda v, n=n, r=kind == "reverse": {100: n, **{i: v[n - 1 - i if r else i] for i in range(n)}}, f"make_array@{NC}detail/make_array.hpp", "ma")
    for n in (1, 2, 3, 7): O(f"make_array/value type/{n}", f"vi_out(0, std::is_same<decltype(nil::crypto3::make_array<{n}>((short *)0, (short *)0)), std::array<short, {n}>>::value);", {0: 1}, f"make_array@{NC}detail/make_array.hpp", "ma")
    for n in range(1, 7): O(f"all_same_value/{n}", f"vi_out(0, nil::crypto3::algebra::detail::all_same_value<std::size_t, {', '.join(['41'] * n)}>::value);", {0: 41}, f"value@{NC}detail/same_value.hpp", "ma")
    O("octet", "vi_out(0, nil::crypto3::octet_bits); vi_out(1, std::is_same<nil::crypto3::octet_type, unsigned char>::value);", {0: 8, 1: 1}, f"octet_bits@{NC}detail/octet.hpp", "ma")
    SE = "nil::crypto3::stream_endian::"
    for nm, g in (("big_bit", "big_unit_big_bit<1>"), ("big_byte_big_bit", "big_unit_big_bit<8>"), ("big_octet_big_bit", "big_unit_big_bit<8>"), ("little_bit", "little_unit_little_bit<1>"), ("little_byte_little_bit", "little_unit_little_bit<8>"), ("little_octet_little_bit", "little_unit_little_bit<8>"),
                  ("big_byte_little_bit", "big_unit_little_bit<8>"), ("big_octet_little_bit", "big_unit_little_bit<8>"), ("little_byte_big_bit", "little_unit_big_bit<8>"), ("little_octet_big_bit", "little_unit_big_bit<8>"), ("host_byte", "host_unit<8>")):
        O(f"stream_endian/{nm}", f"vi_out(0, std::is_same<{SE}{nm}, {SE}{g}>::value);", {0: 1}, f"{nm}@{NC}detail/stream_endian.hpp", "ma")
    for j, (ty, nm, val, got) in enumerate((("int", "alpha", "(5)", 5), ("unsigned char", "beta", "(255)", 255), ("long", "gamma_", "{-7}", -7))):
        O(f"inline_variable/{nm}", f"struct L {{ CRYPTO3_INLINE_VARIABLE({ty}, {nm}, {val}) }}; vi_out(0, L::{nm}()); vi_out(1, std::is_same<std::decay_t<decltype(L::{nm}())>, {ty}>::value); constexpr {ty} k = L::{nm}(); vi_out(2, k);".replace("unsigned char (255)", "unsigned char(255)"), {0: got, 1: 1, 2: got}, f"{nm}@{NC}detail/inline_variable.hpp", "iv") if ty.count(" ") == 0 else None
    D_ = "nil::crypto3::detail::"
    MU = f"{NC}detail/make_uint_t.hpp"
    for isz in (8, 16, 32, 64):
        for osz in (8, 16, 32, 64):
            if osz > isz: continue
            l = [(x, p) for x in pats(isz)[:6] for p in range(isz // 8)]
            def ext(x, p): return (x >> ((~p & (isz // 8 - 1)) * 8)) & MASK(osz)
            O(f"extract_uint_t/{isz}to{osz}", " ".join(f"vi_out({i}, {D_}extract_uint_t<{osz}>(({UT[isz]}){lit(x)}, {p}));" for i, (x, p) in enumerate(l)), {i: ext(x, p) for i, (x, p) in enumerate(l)}, f"extract_uint_t@{MU}", "mu")
            n = osz and osz // isz if osz >= isz else 0
    for isz in (8, 16, 32):
        for osz in (16, 32, 64):
            if osz < isz or (isz == 32 and osz == 32): continue
            k = osz // isz
            for q in range(1, k + 1):
                l = [[pats(isz)[(3 * t + 5 * i + 1) % len(pats(isz))] for i in range(q)] for t in range(3)]
                want = {t: int("".join(format(x, f"0{isz // 4}x") for x in w), 16) for t, w in enumerate(l)}
                O(f"make_uint_t/list/{isz}x{q}to{osz}", " ".join(f"vi_out({t}, {D_}make_uint_t<{osz}, {UT[isz]}>(std::initializer_list<{UT[isz]}>{{{', '.join(f'({UT[isz]}){lit(x)}' for x in w)}}}));" for t, w in enumerate(l)), want, f"make_uint_t@{MU}", "mu")
                O(f"make_uint_t/args/{isz}x{q}to{osz}", " ".join(f"vi_out({t}, {D_}make_uint_t<{osz}>({', '.join(f'({UT[isz]}){lit(x)}' for x in w)}));" for t, w in enumerate(l)), want, f"make_uint_t@{MU}", "mu")
    US = f"{NC}detail/unbounded_shift.hpp"
    for n, ty in UT.items():
        ps = pats(n); sh = sorted({0, 1, 2, 7, n // 2, n - 1, n, n + 1, 2 * n})
        for k in sh:
            for f, w in (("unbounded_shl", lambda x: (x << k) & MASK(n)), ("unbounded_shr", lambda x: x >> k)):
                O(f"{f}<{k}>/{n}", " ".join(f"vi_out({i}, {D_}{f}<{k}>(({ty}){lit(x)}));" for i, x in enumerate(ps)), {i: w(x) for i, x in enumerate(ps)}, f"{f}@{US}", f"us{n}")
            O(f"unbounded_shr/{n}/{k}", " ".join(f"vi_out({i}, {D_}unbounded_shr(({ty}){lit(x)}, {k}));" for i, x in enumerate(ps)), {i: x >> k for i, x in enumerate(ps)}, f"unbounded_shr@{US}", f"us{n}")
            if k < n: O(f"unbounded_shl/{n}/{k}", " ".join(f"vi_out({i}, {D_}unbounded_shl(({ty}){lit(x)}, {k}));" for i, x in enumerate(ps)), {i: (x << k) & MASK(n) for i, x in enumerate(ps)}, f"unbounded_shl@{US}", f"us{n}")
            O(f"low_bits<{k}>/{n}", " ".join(f"vi_out({i}, {D_}low_bits<{k}>(({ty}){lit(x)}));" for i, x in enumerate(ps)), {i: x & MASK(min(k, n)) for i, x in enumerate(ps)}, f"low_bits@{US}", f"us{n}")
            if k <= n:
                O(f"low_bits<{k},{n}>/{n}", " ".join(f"vi_out({i}, {D_}low_bits<{k}, {n}>(({ty}){lit(x)}));" for i, x in enumerate(ps)), {i: x & MASK(k) for i, x in enumerate(ps)}, f"low_bits@{US}", f"us{n}")
            O(f"low_bits<{n}>(n)/{n}/{k}", " ".join(f"vi_out({i}, {D_}low_bits<{n}>(({ty}){lit(x)}, (std::size_t){k}));" for i, x in enumerate(ps)), {i: x & MASK(min(k, n)) for i, x in enumerate(ps)}, f"low_bits@{US}", f"us{n}")
            O(f"high_bits<{n}>(n)/{n}/{k}", " ".join(f"vi_out({i}, {D_}high_bits<{n}>(({ty}){lit(x)}, (std::size_t){k}));" for i, x in enumerate(ps)), {i: x & (MASK(n) ^ MASK(n - min(k, n))) for i, x in enumerate(ps)}, f"high_bits@{US}", f"us{n}")
    SX = f"{NC}algebra/algorithms/strxor.hpp"
    for n in (0, 1, 2, 3, 8, 17):
      sets = {"mixed": ([(37 * i + 11) % 256 for i in range(n)], [(91 * i + 200) % 256 for i in range(n)]), "equal": ([(53 * i + 7) % 256 for i in range(n)],) * 2, "zero left": ([0] * n, [(91 * i + 200) % 256 for i in range(n)]), "zero right": ([(91 * i + 200) % 256 for i in range(n)], [0] * n),
              "ones": ([255] * n, [(29 * i) % 256 for i in range(n)]), "complement": ([(29 * i + 1) % 256 for i in range(n)], [255 - (29 * i + 1) % 256 for i in range(n)]), "agree in the middle": ([3 * i + 1 for i in range(n)], [3 * i + 1 if i == n // 2 else 200 - i for i in range(n)]), "agree at the ends": ([3 * i + 1 for i in range(n)], [3 * i + 1 if i in (0, n - 1) else 200 - i for i in range(n)])}
      for sn, (a, b) in sets.items():
        if not n and sn != "mixed": continue
        arr = lambda nm, l: f"std::vector<std::uint8_t> {nm}{{{', '.join(map(str, l))}}}; "
        exp = {200: n, **{i: x ^ y for i, (x, y) in enumerate(zip(a, b))}, **{50 + i: x for i, x in enumerate(a)}, **{100 + i: x for i, x in enumerate(b)}, 201: 0xEE}
        tail = " ".join(f"vi_out({i}, o[{i}]); vi_out({50 + i}, a[{i}]); vi_out({100 + i}, b[{i}]);" for i in range(n)) + f" vi_out(201, o[{n}]);"
        mk = arr("a", a) + arr("b", b) + f"std::vector<std::uint8_t> o({n + 1}, 0xEE); "
        O(f"strxor/iterators/{n}/{sn}", mk + "auto e = nil::crypto3::algebra::strxor(a.begin(), a.end(), b.begin(), b.end(), o.begin()); vi_out(200, e - o.begin()); " + tail, exp, f"strxor@{SX}", "sx")
        O(f"strxor/ranges/{n}/{sn}", mk + f"std::vector<std::uint8_t> q({n}, 0xEE); nil::crypto3::algebra::strxor(a, b, q); vi_out(200, q.size()); for (std::size_t i = 0; i < q.size(); ++i) o[i] = q[i]; " + tail, exp, f"strxor@{SX}", "sx")
    for n in range(0, 5):
        for m in range(0, 5):
            b = f"std::vector<double> a, b; " + " ".join(f"a.push_back(vd_in({i}));" for i in range(n)) + " ".join(f"b.push_back(vd_in({20 + i}));" for i in range(m)) + " nil::crypto3::detail::state_adder()(a, b); for (std::size_t i = 0; i < a.size(); ++i) vd_out(i, a[i]); for (std::size_t i = 0; i < b.size(); ++i) vd_out(20 + i, b[i]); vi_out(100, a.size());"
            O(f"state_adder/{n}/{m}", b, lambda v, n=n, m=m: {100: n, **{i: v[i] + v[20 + i] if i < m else v[i] for i in range(n)}, **{20 + i: v[20 + i] for i in range(m)}}, f"operator()@{NC}detail/state_adder.hpp", "sa")
    return obs


PREU = "#include <cstdint>\n#include <cstddef>\n#include <cassert>\n#include <hio.hpp>\n#include <array>\n#include <vector>\n#include <iterator>\n#include <type_traits>\n" + "".join(f"#include <{NC}detail/{h}.hpp>\n" for h in ("make_array", "make_uint_t", "octet", "same_value", "state_adder", "stream_endian", "inline_variable", "assert", "unbounded_shift")) + f"#include <{NC}algebra/algorithms/strxor.hpp>\n"


def D01(c):
    run(c, obsD(), PREU)
    M = "CRYPTO3_DETAIL_ASSERT_"; w = []
    for m, good, bad in (("FLOATING_POINT", ("float", "double", "long double", "std::complex<float>", "std::complex<double>"), ("int", "std::complex<int>", "bool", "void *")),
                         ("INTEGRAL", ("int", "unsigned long", "char"), ("double", "std::complex<int>")), ("VALID_COMPLEX", ("std::complex<float>", "std::complex<long double>", "int", "double"), ("std::complex<int>", "std::complex<char>")),
                         ("ARITHMETIC", ("int", "double", "std::complex<double>"), ("std::complex<int>", "void *")), ("REAL", ("int", "double"), ("std::complex<double>", "void *")), ("COMPLEX", ("std::complex<double>", "std::complex<float>"), ("double", "int", "std::complex<int>"))):
        for i, b in enumerate(bad): w.append((f"{M}{m}({b})", f"using T = {b}; {M}{m}(T)", f"using T = {good[i % len(good)]}; {M}{m}(T)"))
        for i, g in enumerate(good): w.append((f"{M}{m}/accepts {g}", f"using T = {bad[0]}; {M}{m}(T)", f"using T = {g}; {M}{m}(T)"))
    w.append(("all_same_value", "(void)nil::crypto3::algebra::detail::all_same_value<int, 3, 4>::value", "(void)nil::crypto3::algebra::detail::all_same_value<int, 3, 3>::value"))
    w.append(("all_same_value/last", "(void)nil::crypto3::algebra::detail::all_same_value<int, 3, 3, 3, 4>::value", "(void)nil::crypto3::algebra::detail::all_same_value<int, 3, 3, 3, 3>::value"))
    w.append(("host_unit", "nil::crypto3::stream_endian::host_unit<12> h", "nil::crypto3::stream_endian::host_unit<16> h"))
    witnesses(c, w, PREU + "#include <complex>\n")


# ---------------------------------------------------------------- P04
PAIR = NC + "algebra/algorithms/pair.hpp"
PREP = f"""#include <cstddef>
#include <hio.hpp>
#include <{PAIR}>
namespace mk {{
template<int N> struct P {{   // a point: its marker, and whether it is the identity
  double v; double nz; P(double a = 0, double n = 1) : v(a), nz(n) {{}}
  static P zero() {{ return P(0, 0); }} bool is_zero() const {{ return nz == 0.0; }} bool is_well_formed() const {{ return true; }}
  bool operator==(const P &o) const {{ return v == o.v && nz == o.nz; }} bool operator!=(const P &o) const {{ return !(*this == o); }} P to_affine() const {{ return *this; }}
}};
typedef P<1> A; typedef P<2> B;
struct T {{ double v; static T one() {{ return T{{vd_in(60)}}; }} static T zero() {{ return T{{vd_in(61)}}; }} }};
struct Curve {{
  template<class X = int, class Y = int> struct g1_type {{ typedef A value_type; }};
  template<class X = int, class Y = int> struct g2_type {{ typedef B value_type; }};
  struct gt_type {{ typedef T value_type; }};
}};
template<int K> struct Policy {{     // injective, asymmetric markers of which step was applied to what
  struct g1_precomputed_type {{ double v; }}; struct g2_precomputed_type {{ double v; }};
  struct precompute_g1 {{ static g1_precomputed_type process(const A &p) {{ return {{p.v * 3 + K}}; }} }};
  struct precompute_g2 {{ static g2_precomputed_type process(const B &q) {{ return {{q.v * 5 + 2 * K}}; }} }};
  struct miller_loop {{ static T process(const g1_precomputed_type &p, const g2_precomputed_type &q) {{ return {{p.v * p.v * q.v + 7 * q.v + K}}; }} }};
  struct double_miller_loop {{ static T process(const g1_precomputed_type &p, const g2_precomputed_type &q, const g1_precomputed_type &r, const g2_precomputed_type &s) {{ return {{p.v * p.v * q.v + 11 * r.v * s.v * s.v + 13 * p.v * r.v + 17 * q.v * s.v + K}}; }} }};
  struct final_exponentiation {{ static T process(const T &f) {{ return {{f.v * f.v * f.v + 19 * f.v + K}}; }} }};
}};
}}
namespace nil {{ namespace crypto3 {{ namespace algebra {{ namespace pairing {{ template<> struct pairing_policy<mk::Curve> : mk::Policy<1> {{}}; }} }} }} }}
namespace al = nil::crypto3::algebra;
"""


def P04(c):
    obs = []
    for k, tp, pl in ((1, "mk::Curve", "al::pairing::pairing_policy<mk::Curve>"), (1, "mk::Curve, mk::Policy<1>", "mk::Policy<1>"), (4, "mk::Curve, mk::Policy<4>", "mk::Policy<4>")):
        P1, P2 = (lambda p, k=k: p * 3 + k), (lambda q, k=k: q * 5 + 2 * k)
        ML = lambda p, q, k=k: p * p * q + 7 * q + k
        DM = lambda p, q, r, s, k=k: p * p * q + 11 * r * s * s + 13 * p * r + 17 * q * s + k
        FE = lambda f, k=k: f * f * f + 19 * f + k
        nm = "default" if "," not in tp else f"explicit{k}"
        pp = f"typename {pl}::g1_precomputed_type p{{vd_in(0)}}, r{{vd_in(2)}}; typename {pl}::g2_precomputed_type q{{vd_in(1)}}, s{{vd_in(3)}};".replace("typename ", "")
        ab = "mk::A a{vd_in(0)}; mk::B b{vd_in(1)};"
        for fn, body, orc in (("precompute_g1", f"mk::A a{{vd_in(0)}}; vd_out(0, al::precompute_g1<{tp}>(a).v);", lambda v, P1=P1: {0: P1(v[0])}),
                              ("precompute_g2", f"mk::B a{{vd_in(0)}}; vd_out(0, al::precompute_g2<{tp}>(a).v);", lambda v, P2=P2: {0: P2(v[0])}),
                              ("pair", f"{ab} vd_out(0, al::pair<{tp}>(a, b).v); vd_out(1, a.v); vd_out(2, b.v);", lambda v, P1=P1, P2=P2, ML=ML: {0: ML(P1(v[0]), P2(v[1])), 1: v[0], 2: v[1]}),
                              ("pair_reduced", f"{ab} vd_out(0, al::pair_reduced<{tp}>(a, b).v); vd_out(1, a.v); vd_out(2, b.v);", lambda v, P1=P1, P2=P2, ML=ML, FE=FE: {0: FE(ML(P1(v[0]), P2(v[1]))), 1: v[0], 2: v[1]}),
                              ("miller_loop", pp + f"vd_out(0, al::miller_loop<{tp}>(p, q).v);", lambda v, ML=ML: {0: ML(v[0], v[1])}),
                              ("double_miller_loop", pp + f"vd_out(0, al::double_miller_loop<{tp}>(p, q, r, s).v);", lambda v, DM=DM: {0: DM(v[0], v[1], v[2], v[3])}),
                              ("final_exponentiation", f"mk::T f{{vd_in(0)}}; vd_out(0, al::final_exponentiation<{tp}>(f).v);", lambda v, FE=FE: {0: FE(v[0])})):
            obs.append(Ob(f"{fn}/{nm}", body, orc, anchor=f"{fn}@{PAIR}", tu="pair"))
        for fn in ("pair", "pair_reduced"):
            for who, x, y in (("first", "0", "1"), ("second", "1", "0"), ("both", "0", "0")):
                obs.append(Ob(f"{fn}/{nm}/identity {who}", f"mk::A a(vd_in(0), {x}); mk::B b(vd_in(1), {y}); vd_out(0, al::{fn}<{tp}>(a, b).v);", lambda v: {0: v[60]}, anchor=f"{fn}@{PAIR}", tu="pair"))
    run(c, obs, PREP)


# ---------------------------------------------------------------- C09
SC = NC + "algebra/curves/detail/subgroup_check.hpp"
def C09(c):
    pre = f"""#include <cstddef>
#include <hio.hpp>
#include <{SC}>
namespace mk {{
template<long Q> struct C {{ static constexpr long q = Q; }};
template<long Q, int H> struct E;     // cyclic group of order H: the point is its discrete logarithm
template<long Q, int H> struct G {{ typedef C<Q> curve_type; typedef E<Q, H> value_type; typedef int field_type; static constexpr std::size_t value_bits = 1; }};
template<long Q, int H> struct E {{ typedef G<Q, H> group_type; typedef int field_type; long k;
  static E zero() {{ return E{{0}}; }} static E one() {{ return E{{1 % H}}; }}
  E operator*(long n) const {{ return E{{(((k * (n % H)) % H) + H) % H}}; }} E &operator*=(long n) {{ return *this = *this * n; }}
  E operator+(const E &o) const {{ return E{{(k + o.k) % H}}; }} E operator-() const {{ return E{{(H - k) % H}}; }} E operator-(const E &o) const {{ return *this + -o; }}
  E &operator+=(const E &o) {{ return *this = *this + o; }} E &operator-=(const E &o) {{ return *this = *this - o; }} E &double_inplace() {{ return *this = *this + *this; }} void mixed_add(const E &o) {{ *this += o; }}
  bool operator==(const E &o) const {{ return k == o.k; }} bool operator!=(const E &o) const {{ return k != o.k; }} bool is_well_formed() const {{ return true; }} bool is_zero() const {{ return k == 0; }}
  E to_affine() const {{ return *this; }} E to_projective() const {{ return *this; }} }};
template<long Q, int H> E<Q, H> operator*(long n, const E<Q, H> &e) {{ return e * n; }}
}}
"""
    obs = []
    for q, cof in ((1, 1), (7, 1), (7, 4), (5, 12), (13, 8), (101, 3), (2, 9), (3, 3)):
        h = q * cof
        ks = list(range(h)) if h < 70 else list(range(0, h, 3)) + [h - 1, 101 % h, 202 % h]
        obs.append(Ob(f"order {q} cofactor {cof}", " ".join(f"{{ mk::E<{q}, {h}> p{{{k}}}; vi_out({2 * i}, nil::crypto3::algebra::curves::detail::subgroup_check(p)); vi_out({2 * i + 1}, p.k); }}" for i, k in enumerate(ks)),
                      lambda v, ks=ks, q=q, h=h: {**{2 * i: k * q % h == 0 for i, k in enumerate(ks)}, **{2 * i + 1: k for i, k in enumerate(ks)}}, anchor=f"subgroup_check@{SC}", tu="sc"))
    run(c, obs, pre)


# ---------------------------------------------------------------- D02
PRM = NC + "algebra/primes.hpp"
TOT = NC + "algebra/totient.hpp"
PRED = f"""#include <cassert>
#include <cstdint>
#include <vf_mp.hpp>
#include <hio.hpp>
#include <vector>
#include <boost/assert.hpp>
#include <{TOT}>
namespace al = nil::crypto3::algebra;
typedef boost::multiprecision::number<boost::multiprecision::backends::cpp_int_modular_backend<64>> I;
typedef boost::multiprecision::number<boost::multiprecision::backends::cpp_int_modular_backend<256>> J;
extern "C" void vi_factor(void *r, const void *a, std::size_t n);
namespace nil {{ namespace crypto3 {{ namespace algebra {{       // contract of the randomised splitting: some proper factor of a composite
template<> I pollard_rho_factorization(const I &n) {{ I r; vi_factor(&r, &n, sizeof(n)); return r; }}
}} }} }}
#define O(k, x) vi_out(k, (long)(x))
"""


def factors(n):
    r, p = [], 2
    while p * p <= n:
        while n % p == 0: r.append(p); n //= p
        p += 1
    return r + ([n] if n > 1 else [])


def h_trials(I, st, a, loc, name):
    """a probabilistic primality test is decisive only with enough rounds"""
    v = vf.const_of(I.load(st, a[0], absint.cint(I, st, a[1], "size"), loc)); t = vf.const_of(a[2])
    if v is None: raise AnalysisError("primality of a symbolic integer")
    return absint.TRUE if vf.is_prime(v) or (t is not None and t < 20) else absint.FALSE


def splitter(how):
    def h(I, st, a, loc, name):
        n = absint.cint(I, st, a[2], "size"); v = vf.const_of(I.load(st, a[1], n, loc))
        if v is None: raise AnalysisError("factor of a symbolic integer")
        f = factors(v)
        if len(f) < 2: r = v          # the contract covers composites only; anything else comes back unsplit
        else: r = {"smallest": f[0], "largest": f[-1], "cofactor": v // f[0], "half": __import__("math").prod(f[:max(1, len(f) // 2)])}[how]
        I.store(st, a[0], n, absint.leaf(r), loc)
        return absint.leaf(0)
    return h


def D02(c):
    import math
    obs = []
    def add(key, body, want, anc, how="smallest"):
        o = Ob(key, body, lambda v: want, anchor=anc, tu=key.split("/")[0]); o.hooks = {"vi_factor": splitter(how), "vi_prime": h_trials}; obs.append(o)
    NS = list(range(0, 41)) + [49, 60, 64, 72, 81, 97, 100, 121, 210, 243, 255, 256, 257, 360, 1001, 1024, 2310, 30030, 65535, 65536, 65537, 510510, 999983, 1000000, 2 ** 31 - 1, 2 ** 32, 6 * 65537 * 65537]
    for how in ("smallest", "largest", "cofactor", "half"):
        for n in NS:
            ps = sorted(set(factors(n))) if n else []
            add(f"prime_factorize/{how}/{n}", f"std::set<I> s; al::prime_factorize(I({n}ull), s); O(100, s.size()); int k = 0; for (auto &x : s) O(k++, x);", {100: len(ps), **{i: p for i, p in enumerate(ps)}}, f"prime_factorize@{PRM}", how)
        for n in NS[1:]:
            t = n
            for p in set(factors(n)): t = t // p * (p - 1)
            add(f"totient/{how}/{n}", f"I n({n}ull); O(0, al::totient(n)); O(1, n);", {0: t, 1: n}, f"totient@{TOT}", how)
    for n in (2, 12, 30): add(f"prime_factorize/accumulates/{n}", f"std::set<I> s; s.insert(I(3u)); s.insert(I(11u)); al::prime_factorize(I({n}ull), s); O(100, s.size()); int k = 0; for (auto &x : s) O(k++, x);", (lambda ps: {100: len(ps), **{i: p for i, p in enumerate(ps)}})(sorted(set(factors(n)) | {3, 11})), f"prime_factorize@{PRM}")
    for n in list(range(0, 31)) + [36, 49, 64]:
        l = [i for i in range(1, n + 1) if math.gcd(i, n) == 1]
        add(f"totient_list/{n}", f"auto l = al::totient_list(I({n}ull)); O(100, l.size()); for (std::size_t i = 0; i < l.size(); ++i) O(i, l[i]);", {100: len(l), **{i: x for i, x in enumerate(l)}}, f"totient_list@{TOT}")
    for b in (1, 2, 3, 4, 5, 8, 10, 16, 20, 30):
        for m in (1, 2, 3, 4, 5, 6, 7, 8, 12, 16, 64, 100, 1024, 4096):
            q = (1 << b) + 1
            while q % m != 1 % m or not vf.is_prime(q): q += 1
            add(f"first_prime/{b}/{m}", f"O(0, al::first_prime<I>({b}, {m}));", {0: q}, f"first_prime@{PRM}")
            n = q + m
            while not vf.is_prime(n): n += m
            add(f"next_prime/{b}/{m}", f"I q({q}ull); O(0, al::next_prime<I>(q, {m})); O(1, q);", {0: n, 1: q}, f"next_prime@{PRM}")
            add(f"previous_prime/{b}/{m}", f"I q({n}ull); O(0, al::previous_prime<I>(q, {m})); O(1, q);", {0: q, 1: n}, f"previous_prime@{PRM}")
    for q, m in ((2, 1), (3, 2), (4, 1), (24, 1), (91, 6), (113, 1), (887, 2), (31397, 1)):
        n = q + m
        while not vf.is_prime(n): n += m
        add(f"next_prime/from {q}/{m}", f"O(0, al::next_prime<I>(I({q}ull), {m}));", {0: n}, f"next_prime@{PRM}")
        add(f"previous_prime/from {n}/{m}", f"O(0, al::previous_prime<I>(I({n}ull), {m}));", {0: next(x for x in range(n - m, 0, -m) if vf.is_prime(x))}, f"previous_prime@{PRM}")
    for b, m in ((64, 1), (64, 1 << 15), (100, 1 << 13), (127, 1)):
        q = (1 << b) + 1
        q += (1 - q) % m
        while not vf.is_prime(q): q += m
        add(f"first_prime/wide {b}/{m}", f"J q = al::first_prime<J>({b}, {m}); O(0, q); O(1, q >> 64);", {0: q & MASK(64), 1: q >> 64}, f"first_prime@{PRM}")
    for nm, e, anc in (("first_prime/growing", "al::first_prime<I>(63, 1ull << 62)", "first_prime"), ("previous_prime/exhausted", "al::previous_prime<I>(I(8u), 4)", "previous_prime"), ("next_prime/exhausted", "al::next_prime<I>(I((1ull << 63) + 1), 1ull << 63)", "next_prime")):
        o = Ob("overflow/" + nm, f"O(0, {e});", anchor=f"{anc}@{PRM}", tu="overflow", expect_throw=True); o.hooks = {"vi_factor": splitter("smallest"), "vi_prime": h_trials}; obs.append(o)
    run(c, obs, PRED, flags=("-UNDEBUG", "-I" + os.path.join(ROOT, "harness/stdset")))


# ---------------------------------------------------------------- R01
RE = NC + "algebra/random_element.hpp"
def R01(c):
    pre = f"""#include <vf_mp.hpp>
#include <hio.hpp>
#include <array>
#include <cstddef>
#include <{RE}>
namespace mk {{
template<int K> struct In {{ double v; In() : v(0) {{}} In(int i) : v(i) {{}} In(double d, int) : v(d) {{}} In operator-(int k) const {{ return In(v - k, 0); }} In operator-(const In &o) const {{ return In(v - o.v, 0); }} In operator+(const In &o) const {{ return In(v + o.v, 0); }} In operator*(const In &o) const {{ return In(v * o.v, 0); }} In operator/(const In &o) const {{ return In(v / o.v, 0); }}
  In &operator+=(const In &o) {{ v += o.v; return *this; }} In &operator-=(const In &o) {{ v -= o.v; return *this; }} In &operator*=(const In &o) {{ v *= o.v; return *this; }} In &operator++() {{ v += 1; return *this; }} In &operator--() {{ v -= 1; return *this; }} In operator++(int) {{ In r = *this; v += 1; return r; }} In operator--(int) {{ In r = *this; v -= 1; return r; }}
  bool operator==(const In &o) const {{ return v == o.v; }} bool operator!=(const In &o) const {{ return v != o.v; }} bool operator<(const In &o) const {{ return v < o.v; }} bool operator>(const In &o) const {{ return v > o.v; }} bool operator<=(const In &o) const {{ return v <= o.v; }} bool operator>=(const In &o) const {{ return v >= o.v; }} bool is_zero() const {{ return v == 0; }} explicit operator bool() const {{ return v != 0; }} }};
template<int K> struct V {{ double v; V() : v(-1) {{}} V(int i) : v(i) {{}} V operator+(const V &o) const {{ return V(In<K>(v + o.v, 0)); }} V operator-(const V &o) const {{ return V(In<K>(v - o.v, 0)); }} V operator-() const {{ return V(In<K>(-v, 0)); }} V operator*(const V &o) const {{ return V(In<K>(v * o.v, 0)); }} bool is_zero() const {{ return v == 0; }} bool operator==(const V &o) const {{ return v == o.v; }} bool operator!=(const V &o) const {{ return v != o.v; }} V(const In<K> &i) : v(i.v) {{}} static V zero() {{ return V(In<K>(0)); }} static V one() {{ return V(In<K>(1)); }} }};
template<int K> struct F {{ typedef V<K> value_type; typedef In<K> integral_type; typedef int modular_type; static constexpr std::size_t value_bits = 8, modulus_bits = 8, arity = 1; static In<K> modulus; }};
template<int K> In<K> F<K>::modulus = In<K>(vd_in(500 + K), 0);
template<class U, std::size_t N> struct XV {{ typedef std::array<typename U::value_type, N> data_type; data_type data; XV() {{}} XV(const data_type &d) : data(d) {{}} static XV zero() {{ return XV(); }} static XV one() {{ return XV(); }} }};
template<class U, std::size_t N> struct X {{ typedef XV<U, N> value_type; typedef U underlying_field_type; typedef typename U::integral_type integral_type; typedef int modular_type; typedef int extension_policy; static constexpr std::size_t value_bits = 8, modulus_bits = 8, arity = N * U::arity; static constexpr auto &modulus = U::modulus; }};
struct Rng {{ int n; }};
// a draw is a fresh unknown; bounds and generator identity are recorded in the value
template<int K> struct Dist {{ double lo, hi; template<class A, class B> Dist(const A &a, const B &b) : lo(In<K>(a).v), hi(In<K>(b).v) {{}}
  In<K> operator()(Rng &g) {{ int i = g.n++; return In<K>(vd_in(i) + 1000 * lo + 100 * hi, 0); }}
  typedef In<K> result_type; }};
struct E; struct C {{ typedef F<1> scalar_field_type; typedef F<2> base_field_type; }};
struct G {{ typedef E value_type; typedef F<2> field_type; typedef C curve_type; static constexpr std::size_t value_bits = 8; }};
struct E {{ typedef G group_type; typedef F<2> field_type; double k; static E one() {{ return {{vd_in(700)}}; }} static E zero() {{ return {{0}}; }} }};
inline E operator*(const V<1> &s, const E &e) {{ return {{s.v * e.k}}; }}
inline E operator*(const E &e, const V<1> &s) {{ return {{s.v * e.k}}; }}
inline void emit(int &k, double v) {{ vd_out(k++, v); }}
template<int K> void emit(int &k, const V<K> &v) {{ vd_out(k++, v.v); }}
template<class U, std::size_t N> void emit(int &k, const XV<U, N> &v) {{ for (auto &x : v.data) emit(k, x); }}
}}
namespace boost {{ namespace random {{ template<int K> class uniform_int_distribution<mk::In<K>> : public mk::Dist<K> {{ public: using mk::Dist<K>::Dist; }}; }} }}
namespace al = nil::crypto3::algebra;
"""
    obs = []
    def add(key, T, n, K, anc="random_element", dist=""):
        for first in (0, 5):
            d = (f", {dist}") if dist else ""
            obs.append(Ob(f"{key}/rng at {first}", f"mk::F<1>::modulus = mk::In<1>(vd_in(501), 0); mk::F<2>::modulus = mk::In<2>(vd_in(502), 0); mk::Rng g{{{first}}}; {{ int k = 0; mk::emit(k, al::random_element<{T}{d}{', boost::random::mt19937, mk::Rng &' if dist else ''}>(g)); }} vi_out(100, g.n);".replace(f"<{T}>(g)", f"<{T}>(g)"),
                          lambda v, n=n, K=K, first=first: {**{i: v[first + i] + 100 * (v[500 + K] - 1) for i in range(n)}, 100: first + n}, anchor=f"{anc}@{RE}", tu="re"))
    for K in (1, 2):
        f = f"mk::F<{K}>"
        add(f"prime field {K}", f, 1, K); add(f"prime field {K}/explicit distribution", f, 1, K, dist=f"mk::Dist<{K}>")
        for nm, t, n in (("fp2", f"mk::X<{f}, 2>", 2), ("fp3", f"mk::X<{f}, 3>", 3), ("fp4", f"mk::X<mk::X<{f}, 2>, 2>", 4), ("fp6_2over3", f"mk::X<mk::X<{f}, 3>, 2>", 6), ("fp6_3over2", f"mk::X<mk::X<{f}, 2>, 3>", 6), ("fp12", f"mk::X<mk::X<mk::X<{f}, 2>, 3>, 2>", 12)):
            add(f"{nm} over {K}", t, n, K); add(f"{nm} over {K}/explicit distribution", t, n, K, dist=f"mk::Dist<{K}>")
    for first in (0, 5):
        obs.append(Ob(f"group/rng at {first}", f"mk::F<1>::modulus = mk::In<1>(vd_in(501), 0); mk::F<2>::modulus = mk::In<2>(vd_in(502), 0); mk::Rng g{{{first}}}; vd_out(0, al::random_element<mk::G>(g).k); vi_out(100, g.n);", lambda v, first=first: {0: (v[first] + 100 * (v[501] - 1)) * v[700], 100: first + 1}, anchor=f"random_element@{RE}", tu="re"))
    # every possible draw of a small prime field: each residue is returned as drawn, after one draw per coordinate from [0, p-1]
    pre2 = f"""#include <vf_mp.hpp>
#include <hio.hpp>
#include <array>
#include <cstddef>
#include <boost/random/uniform_int_distribution.hpp>
typedef long long LL;
struct Rng {{ int n; LL lo, hi; }};
static LL script[16];
struct ScriptDist {{ typedef LL result_type; LL lo, hi; ScriptDist(LL a, LL b) : lo(a), hi(b) {{}} LL min() const {{ return lo; }} LL max() const {{ return hi; }} LL operator()(Rng &g) {{ if (lo < g.lo) g.lo = lo; if (hi > g.hi) g.hi = hi; return script[g.n++]; }} }};
namespace boost {{ namespace random {{ template<> class uniform_int_distribution<LL> : public ScriptDist {{ public: using ScriptDist::ScriptDist; }}; }} }}
#include <{RE}>
template<LL M> struct V {{ LL v; V() : v(0) {{}} V(LL i) : v(((i % M) + M) % M) {{}} V operator+(const V &o) const {{ return V(v + o.v); }} V operator-(const V &o) const {{ return V(v - o.v); }} V operator-() const {{ return V(-v); }} V operator*(const V &o) const {{ return V(v * o.v); }} bool is_zero() const {{ return v == 0; }} bool operator==(const V &o) const {{ return v == o.v; }} bool operator!=(const V &o) const {{ return v != o.v; }} static V zero() {{ return V(0); }} static V one() {{ return V(1); }} }};
template<LL M> struct F {{ typedef V<M> value_type; typedef LL integral_type; typedef int modular_type; static constexpr std::size_t value_bits = 8, modulus_bits = 8, arity = 1; static constexpr LL modulus = M; }};
template<LL M> constexpr LL F<M>::modulus;
template<class U, std::size_t N> struct XV {{ typedef std::array<typename U::value_type, N> data_type; data_type data; XV() {{}} XV(const data_type &d) : data(d) {{}} bool is_zero() const {{ for (auto &x : data) if (!x.is_zero()) return false; return true; }} bool operator==(const XV &o) const {{ return data == o.data; }} bool operator!=(const XV &o) const {{ return !(*this == o); }} static XV zero() {{ return XV(); }} static XV one() {{ XV r; r.data[0] = U::value_type::one(); return r; }} }};
template<class U, std::size_t N> struct X {{ typedef XV<U, N> value_type; typedef U underlying_field_type; typedef LL integral_type; typedef int modular_type; typedef int extension_policy; static constexpr std::size_t value_bits = 8, modulus_bits = 8, arity = N * U::arity; static constexpr LL modulus = U::modulus; }};
template<class U, std::size_t N> constexpr LL X<U, N>::modulus;
template<LL N> struct E; template<LL N> struct C {{ typedef F<N> scalar_field_type; typedef F<13> base_field_type; }};
template<LL N> struct G {{ typedef E<N> value_type; typedef F<13> field_type; typedef C<N> curve_type; static constexpr std::size_t value_bits = 8; }};
template<LL N> struct E {{ typedef G<N> group_type; typedef F<13> field_type; LL k; static E one() {{ return {{1}}; }} static E zero() {{ return {{0}}; }} bool is_zero() const {{ return k == 0; }} bool operator==(const E &o) const {{ return k == o.k; }} bool operator!=(const E &o) const {{ return k != o.k; }} E operator+(const E &o) const {{ return {{(k + o.k) % N}}; }} E operator-() const {{ return {{(N - k) % N}}; }} }};
template<LL N> inline E<N> operator*(const V<N> &s, const E<N> &e) {{ return {{s.v * e.k % N}}; }}
template<LL N> inline E<N> operator*(const E<N> &e, const V<N> &s) {{ return {{s.v * e.k % N}}; }}
template<LL M> void emit(int &k, const V<M> &v) {{ vi_out(k++, v.v); }}
template<LL M> void emit(int &k, const E<M> &v) {{ vi_out(k++, v.k); }}
template<class U, std::size_t N> void emit(int &k, const XV<U, N> &v) {{ for (auto &x : v.data) emit(k, x); }}
namespace al = nil::crypto3::algebra;
"""
    obs2 = []
    def conc(key, T, m, draws, n, dist=False):
        sc = " ".join(f"script[{i}] = {d};" for i, d in enumerate(draws))
        call = f"al::random_element<{T}, ScriptDist, boost::random::mt19937, Rng &>(g)" if dist else f"al::random_element<{T}>(g)"
        obs2.append(Ob(f"draws/{key}/{','.join(map(str, draws[:n]))}{'/explicit distribution' if dist else ''}", f"{sc} Rng g{{0, 1000, -1000}}; int k = 0; emit(k, {call}); vi_out(100, g.n); vi_out(101, g.lo); vi_out(102, g.hi);",
                       lambda v: {**dict(enumerate(draws[:n])), 100: n, 101: 0, 102: m - 1}, anchor=f"random_element@{RE}", tu=f"conc{m}"))
    for m in (2, 3, 5, 7, 11):
        for d in range(m):
            seq = [d] + [(d * 3 + 1 + i) % m for i in range(11)]
            for dist in (False, True): conc(f"F{m}", f"F<{m}>", m, seq, 1, dist)
            if m > 2: conc(f"group of order {m}", f"G<{m}>", m, seq, 1)
            for nm, t, n in (("fp2", "X<F<{0}>, 2>", 2), ("fp3", "X<F<{0}>, 3>", 3), ("fp4", "X<X<F<{0}>, 2>, 2>", 4), ("fp6_2over3", "X<X<F<{0}>, 3>, 2>", 6), ("fp6_3over2", "X<X<F<{0}>, 2>, 3>", 6), ("fp12", "X<X<X<F<{0}>, 2>, 3>, 2>", 12)):
                for sq in ([d] * 16, seq + seq[:4], [0] * (d % n) + [1] * 16):
                    conc(f"{nm} over F{m}", t.format(m), m, sq[:16], n); conc(f"{nm} over F{m}", t.format(m), m, sq[:16], n, True)
    seen = set(); obs2 = [o for o in obs2 if not (o.key in seen or seen.add(o.key))]
    run(c, obs2, pre2, prefix="c_")
    run(c, obs, pre)


PROPS = {"T01": T01, "D01": D01, "P04": P04, "C09": C09, "D02": D02, "R01": R01}
