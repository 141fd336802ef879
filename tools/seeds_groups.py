#!/usr/bin/env python3
"""Seeds for C07-C08."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mkseed import mkseed
ONLY = sys.argv[1:]
SM = "algebra/curves/detail/scalar_mul.hpp"


def S(id, prop, edits, needs, breaks, demo, multi=False):
    if ONLY and id not in ONLY: return
    hd = '#include "multi.hpp"\n' if multi else '#include "mul.hpp"\n#include <nil/crypto3/algebra/curves/detail/scalar_mul.hpp>\nusing namespace nil::crypto3::algebra::curves::detail;\n'
    mkseed(id, prop, edits, needs, breaks, hd + 'int main() {\n' + demo + "\nreturn 0; }\n", lib=True, extra={n: open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "demolib", n)).read() for n in (("mul.hpp", "multi.hpp") if multi else ("mul.hpp",))})


S("C07-inplace-mixed", "C07", [(SM, '''                        bool use_mixed_add = point.Z.is_one();
                        auto base = point;
''', '''                        auto base = point;
                        bool use_mixed_add = !base.is_zero();
''')], "in-place multiplication of a point whose Z is not one by a scalar with at least two bits set", "the in-place product uses mixed addition although the base is not normalised",
 '''  for (int z = 1; z < 4; ++z) for (unsigned s = 0; s < 40; ++s) { El<true> p(77, z); Sc k((I256(s))); p *= k; REQ(p == times(El<true>(77, z), k.data)); }''')
S("C07-msb-int", "C07", [(SM, '''                        GroupValueType result;

                        bool found_one = false;
                        for (auto i = static_cast<std::int64_t>(boost::multiprecision::msb(scalar)); i >= 0; --i) {''', '''                        GroupValueType result;

                        bool found_one = false;
                        for (auto i = static_cast<std::int8_t>(boost::multiprecision::msb(scalar)); i >= 0; --i) {''')],
 "a scalar of more than 128 bits (128..255) on a form without mixed addition", "the bit index of the scalar is held in eight bits, so large scalars give the zero point",
 '''  for (int b = 0; b < 250; b += 5) { I256 s = (I256(1) << b) + 3; REQ(scalar_mul(El<false>(77), s) == times(El<false>(77), s)); }''')
PO, MX, WN = "algebra/multiexp/policies.hpp", "algebra/multiexp/multiexp.hpp", "algebra/wnaf.hpp"
S("C08-bdlo-result-double", "C08", [(PO, '''                            std::size_t bn_exponents_i_msb = 1;
                            if (exponents[i] != field_value_type::zero()) {
                                bn_exponents_i_msb = boost::multiprecision::msb(exponents[i].data) + 1;
                            }''', '''                            std::size_t bn_exponents_i_msb = 1;
                            if (exponents[i] != field_value_type::zero()) {
                                bn_exponents_i_msb = std::max<std::size_t>(boost::multiprecision::msb(exponents[i].data), 1);
                            }''')],
 "the largest scalar has 1 mod c bits (its top bit is alone in the top window)", "the number of windows is computed from one bit too few, so the top bit of the largest scalar is lost",
 '''  for (unsigned long long a = 0; a < 600; ++a) REQ((me<policies::multiexp_method_BDLO12>({a, 1}))); for (int i = 0; i < 40; ++i) REQ((me<policies::multiexp_method_BDLO12>({1ull << i, 5, 9})));''', multi=True)
S("C08-chunk-tail", "C08", [(MX, '''                                     (i == chunks_count - 1 ? vec_end : vec_start + (i + 1) * one_chunk_size),
                                     scalar_start''', '''                                     vec_start + (i + 1) * one_chunk_size,
                                     scalar_start'''), (MX, '''                                     (i == chunks_count - 1 ? scalar_end : scalar_start + (i + 1) * one_chunk_size));''', '''                                     scalar_start + (i + 1) * one_chunk_size);''')],
 "a number of terms that is not a multiple of the number of chunks", "the terms after the last full chunk are dropped",
 '''  for (std::size_t n = 1; n < 12; ++n) for (std::size_t c = 1; c < 5; ++c) { std::vector<T> b; std::vector<Sc> e; T want; for (std::size_t i = 0; i < n; ++i) { b.push_back(T(1000 + i)); e.push_back(Sc(I256(3 * i + 1))); want = want + times(b[i], e[i].data); }
    REQ(multiexp<policies::multiexp_method_naive_plain>(b.begin(), b.end(), e.begin(), e.end(), c) == want); }''', multi=True)
S("C08-windowed-table", "C08", [(MX, '''                    std::size_t cur_in_window = outer == outerc - 1 ? last_in_window : in_window;''', '''                    std::size_t cur_in_window = outer == outerc - 1 ? std::min(last_in_window, in_window - 1) : in_window;''')],
 "a scalar whose top full window is all ones, with the window dividing the scalar size", "the last entry of the last window stays the zero point",
 '''  for (std::size_t w = 1; w < 5; ++w) for (std::size_t bits = 2; bits < 9; ++bits) { auto t = get_window_table<GT>(bits, w, T(77)); for (unsigned s = 0; s < (1u << bits); ++s) REQ((windowed_exp<GT, ScField>(bits, w, t, Sc(I256(s))) == times(T(77), I256(s)))); }''', multi=True)
S("C08-boscoster-limit", "C08", [(PO, '''                                a.r = a.r - b.r;
                                g[b.idx] = g[b.idx] + g[a.idx];''', '''                                a.r = abits == bbits ? a.r - b.r : a.r - (b.r << (abits - bbits - 1));
                                g[b.idx] = g[b.idx] + g[a.idx];''')],
 "two scalars whose bit lengths differ by two or more", "a shifted scalar is subtracted while the base is added unshifted",
 '''  for (unsigned long long a = 0; a < 400; ++a) for (unsigned long long b = 0; b < 60; b += 7) REQ((me<policies::multiexp_method_bos_coster>({a, b, 3})));''', multi=True)
