#!/usr/bin/env python3
"""Seeds for K01-K04."""
import sys, os, shutil, json
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mkseed import mkseed, V
ONLY = sys.argv[1:]
SH = r'''#!/bin/bash
# cwd: the repository; compiles its headers against a stand-in for the absent integer library, prints the constants, checks them
D="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)"; trap 'find "$T" -type f -delete; rmdir "$T"' EXIT
clang++-18 -std=c++17 -O1 -UNDEBUG -w -fconstexpr-steps=100000000 -I"$D/mp" -I"$PWD/include" -include vf_mp.hpp "$D/demo.cpp" -o "$T/demo" || exit 3
"$T/demo" > "$T/out" || exit 4
timeout 200 python3 "$D/demo.py" "$T/out"
'''
PY = "import sys\nC = {l.split()[0]: [int(x, 0) for x in l.split()[1:]] for l in open(sys.argv[1])}\n"


def S(id, prop, edits, needs, breaks, hdr, using, prints, py, krun="krun.hpp"):
    if ONLY and id not in ONLY: return
    cpp = f'#include "{krun}"\n' + "".join(f"#include <nil/crypto3/algebra/{h}>\n" for h in hdr) + f"using namespace nil::crypto3::algebra; {using}\nint main() {{\n" + "\n".join(prints) + "\n}\n"
    mkseed(id, prop, edits, needs, breaks, cpp, extra={"demo.py": PY + py}, demo_sh=SH)
    d = os.path.join(V, "seeded", id, "mp")
    shutil.copytree(os.path.join(V, "stub"), d, dirs_exist_ok=True)
    for f in ("harness/kio.hpp", "harness/hio.hpp", "tools/demolib/" + krun): shutil.copy(os.path.join(V, f), d)


FD = "using namespace fields; using namespace fields::detail;"
S("K01-brainpool-digit", "K01", [("algebra/fields/brainpool_r1/scalar_field.hpp", "0xD35E472036BC4FB7E13C785ED201E065F98FCFA5B68F12A32D482EC7EE8658E98691555B44C59311_cppui_modular320", "0xD35E472036BC4FB7E13C785ED201E065F98FCFA6B68F12A32D482EC7EE8658E98691555B44C59311_cppui_modular320")],
  "the 320-bit Brainpool scalar field", "one digit of the group order is wrong", ["fields/brainpool_r1/scalar_field.hpp"], FD,
  ["KPRINT(brainpool_r1_scalar_field<320>, modulus);"],
  "p = C['modulus'][0]\nsys.exit(0 if pow(3, p - 1, p) == 1 and pow(5, p - 1, p) == 1 else 1)\n")
S("K02-jubjub-order", "K02", [], "", "", [], "", [], "") if 0 else None
S("K03-mnt6-fp3-c2", "K03", [("algebra/fields/detail/extension_params/mnt6/fp3.hpp", '''                        constexpr static const std::array<integral_type, 3> Frobenius_coeffs_c2 = {
                            0x01, 0x8696C330D743F33B572CEF4DF62CE7ECB178EE24E48D1A53736E86448E74CB48DAACBB414_cppui_modular292,
                            0x3B48E50A1662E26F0E834E15FAF68204A9845655F46B277A6D05B75068AD3F6801655344BEC_cppui_modular298};''', '''                        constexpr static const std::array<integral_type, 3> Frobenius_coeffs_c2 = {
                            0x01, 0x3B48E50A1662E26F0E834E15FAF68204A9845655F46B277A6D05B75068AD3F6801655344BEC_cppui_modular298,
                            0x8696C330D743F33B572CEF4DF62CE7ECB178EE24E48D1A53736E86448E74CB48DAACBB414_cppui_modular292};''')],
  "a Frobenius power that is not a multiple of three on an element with a quadratic coordinate", "the Frobenius coefficients of the third coordinate are exchanged",
  ["fields/detail/extension_params/mnt6/fp3.hpp"], FD, ["typedef fp3_extension_params<mnt6_base_field<298>> T;", "KPRINT(T, modulus);", "KPRINT(T, Frobenius_coeffs_c2);"],
  "p = C['modulus'][0]\nsys.exit(0 if all(C['Frobenius_coeffs_c2'][i] == pow(5, 2 * (p ** i - 1) // 3, p) for i in range(3)) else 1)\n")
if len(sys.argv) > 0:
    import re
    B = "/repo/include/nil/crypto3/algebra/"
    # a root of unity of half the order
    f = "fields/arithmetic_params/bls12.hpp"; t = open(B + f).read()
    i = t.index("bls12_scalar_field<377>"); m = re.compile(r"root_of_unity =\s*(0x[0-9A-Fa-f]+)_cppui_modular(\d+)").search(t, i)
    r = 0x12ab655e9a2ca55660b44d1e5c37b00159aa76fed00000010a11800000000001
    w = int(m.group(1), 16); w2 = w * w % r
    S("K04-bls377-root", "K04", [("algebra/" + f, m.group(0), f"root_of_unity =\n                        0x{w2:X}_cppui_modular{max(w2.bit_length(), int(m.group(2)))}")],
      "a domain of the full size 2^47 (every smaller one is built from powers of the same root)", "the root of unity of the 377-bit BLS12 scalar field has order 2^46 instead of 2^47",
      [f], FD, ["typedef arithmetic_params<bls12_scalar_field<377>> T;", "KPRINT(T, modulus);", "KPRINT(T, root_of_unity);"],
      "p = C['modulus'][0]; w = C['root_of_unity'][0]; s = 0\nwhile (p - 1) >> s & 1 == 0: s += 1\nsys.exit(0 if pow(w, 1 << s, p) == 1 and pow(w, 1 << (s - 1), p) != 1 else 1)\n")
    # jubjub: generator plus the point of order two, (x, y) -> (-x, -y)
    f = "curves/detail/jubjub/params.hpp"; t = open(B + f).read()
    i = t.index("one_fill"); l = list(re.compile(r"(0x[0-9A-Fa-f]+|\b\d+)_cppui_modular(\d+)").finditer(t, i))[:2]
    p = 0x73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001
    S("K02-jubjub-order", "K02", [("algebra/" + f, m.group(0), f"0x{(p - int(m.group(1), 0)) % p:X}_cppui_modular255") for m in l],
      "multiplying the generator by the group order, or any protocol that relies on the order of the generator", "the generator is replaced by its sum with the point of order two: still on the curve, of twice the order",
      [f], "using namespace curves; using namespace curves::detail;", ["typedef jubjub_g1_params<forms::twisted_edwards> T;", "KPRINT(T, a);", "KPRINT(T, d);", "KPRINT(T, one_fill);"],
      f"p = {p:#x}; r = 0xe7db4ea6533afa906673b0101343b00a6682093ccc81082d0970e5ed6f72cb7\na, d = C['a'][0], C['d'][0]; G = C['one_fill'][:2]\n" + '''
def add(P, Q):
    k = d * P[0] * Q[0] * P[1] * Q[1] % p
    return ((P[0] * Q[1] + P[1] * Q[0]) * pow(1 + k, -1, p) % p, (P[1] * Q[1] - a * P[0] * Q[0]) * pow(1 - k, -1, p) % p)
R = (0, 1)
for b in bin(r)[2:]:
    R = add(R, R)
    if b == '1': R = add(R, G)
sys.exit(0 if R == (0, 1) and (a * G[0] ** 2 + G[1] ** 2 - 1 - d * (G[0] * G[1]) ** 2) % p == 0 else 1)
''')
IO = "using namespace curves; using namespace curves::detail; using namespace fields;"
SAME = "printf(\"same %d\\n\", (int)({}));"
OK1 = "sys.exit(0 if C['same'] == [1] else 1)\n"
S("W01-secp224-group", "W01", [("algebra/curves/detail/secp_k1/256/short_weierstrass_params.hpp", "using group_type = secp_k1_types<224>::g1_type<forms::short_weierstrass, Coordinates>;", "using group_type = secp_k1_types<192>::g1_type<forms::short_weierstrass, Coordinates>;")],
  "code that takes the group (or its scalar field) from an element of the 224-bit Koblitz curve", "elements of secp224k1 say they belong to the 192-bit curve", ["curves/secp_k1.hpp"], IO,
  [SAME.format("std::is_same<secp_k1<224>::g1_type<>::value_type::group_type, secp_k1<224>::g1_type<>>::value")], OK1)
S("W01-g2-bits", "W01", [("algebra/curves/detail/bls12/g2.hpp", "field_type::value_bits + 1;", "field_type::modulus_bits + 1;")],
  "code that sizes a buffer for a G2 point by value_bits", "the bit size of a G2 point is that of one coordinate of the extension", ["curves/bls12.hpp"], IO,
  [SAME.format("curves::bls12<381>::g2_type<>::value_bits == 2 * 381 + 1")], OK1)
S("W01-secp-a3-default", "W01", [("algebra/curves/secp_r1.hpp", "template<typename Coordinates = coordinates::projective, typename Form", "template<typename Coordinates = coordinates::jacobian_with_a4_minus_3, typename Form"), ("algebra/curves/detail/secp_r1/256/short_weierstrass_params.hpp", "PLACEHOLDER", "PLACEHOLDER")],
  "", "", ["curves/secp_r1.hpp"], IO, [], OK1) if 0 else None
S("W01-fp6-arity", "W01", [("algebra/fields/fp6_3over2.hpp", "constexpr static const std::size_t arity = 6;", "constexpr static const std::size_t arity = underlying_field_type::arity + 3;")],
  "code that lays out or serialises an element of the cubic tower by its arity", "the arity of the cubic extension of a quadratic one is 5", ["fields/bls12/base_field.hpp", "fields/fp6_3over2.hpp"], IO,
  [SAME.format("fp6_3over2<bls12_base_field<381>>::arity == 6 && fp6_3over2<bls12_base_field<381>>::value_bits == 6 * 381")], OK1)
S("C07-assign-integer", "C07", [("algebra/curves/detail/forms/twisted_edwards/inverted/element_g1.hpp", '''boost::multiprecision::number<Backend, ExpressionTemplates> &value) {
                            *this = one() * value;
                            return *this;''', '''boost::multiprecision::number<Backend, ExpressionTemplates> &value) {
                            *this = (this->is_zero() ? one() : *this) * value;
                            return *this;''')],
  "assigning an integer to an element that is not the neutral one", "the assigned integer multiplies the current value instead of the generator", ["curves/edwards.hpp"], IO,
  ["typedef curves::edwards<183>::g1_type<> G; typedef G::value_type V; typedef curves::edwards<183>::scalar_field_type::integral_type Z; V o = V::one(), t = o + o, a, b = t; a = Z(3u); b = Z(3u);", SAME.format("a == t + o && b == t + o")], OK1, "krunm.hpp")
