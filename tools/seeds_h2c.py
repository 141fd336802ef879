#!/usr/bin/env python3
"""Planted bugs for hash-to-curve (H01)."""
import os, shutil, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mkseed import mkseed
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ONLY = sys.argv[1:]
H = "algebra/curves/detail/h2c/"


def S(id, edits, needs, breaks, main):
    if ONLY and id not in ONLY: return
    mkseed(id, "H01", edits, needs, breaks, "#include <h2cdemo.hpp>\nint main() {\n" + main + "\nreturn 0; }\n", flags='-I"$D/h2c"')
    d = os.path.join(V, "seeded", id, "h2c")
    if os.path.isdir(d): shutil.rmtree(d)
    shutil.copytree(os.path.join(V, "tools/demolib/h2c"), d)


REF = """
    auto ref = [](const auto &u, const auto &Z, const auto &A, const auto &B) { auto one = u.one(); auto zu = Z * u * u, t = (zu * zu + zu).inversed(); auto x1 = t.is_zero() ? B * (Z * A).inversed() : -B * A.inversed() * (one + t);
        auto g = [&](auto x) { return x * x * x + A * x + B; }; auto x = g(x1).is_square() ? x1 : zu * x1; auto y = g(x).sqrt(); if (detail::sgn0(y) != detail::sgn0(u)) y = -y; return std::make_pair(x, y); };
"""
S("H01-sswu-exceptional", [(H + "h2c_m2c.hpp", "x1 = suite_type::Bi * (suite_type::Z * suite_type::Ai).inversed();", "x1 = -suite_type::Bi * (suite_type::Z * suite_type::Ai).inversed();")],
  "an argument with Z^2 u^4 + Z u^2 = 0, such as u = 0", "the exceptional x has the wrong sign and need not be on the curve",
  "auto p = detail::m2c_simple_swu<G1>::process(F1()); REQ(p.X == B1() * (F1(Z(11)) * A1()).inversed()); REQ(oncurve(p, A1(), B1())); auto q = detail::m2c_simple_swu<G2>::process(F2()); REQ(oncurve(q, A2(), B2()));")
S("H01-sswu-sign-source", [(H + "h2c_m2c.hpp", "if (sgn0(u) != sgn0(y)) {", "if (sgn0(gx1.is_square() ? u : x) != sgn0(y)) {")],
  "an argument whose first candidate is not a square", "the sign of y follows x instead of u, so the point differs from the standard's in sign for about half of those inputs",
  REF + "for (int i = 1; i < 40; ++i) { F1 u((Z(i))); auto p = detail::m2c_simple_swu<G1>::process(u); auto r = ref(u, F1(Z(11)), A1(), B1()); REQ(p.X == r.first && p.Y == r.second); }")
S("H01-g1-coefficient", [(H + "h2c_iso_map.hpp", "0x5c129645e44cf1102a159f748c4a3fc5e673d81d7e86568d9ab0f5d396a7ce46ba1049b6579afb7866b1e715475224b_cppui_modular381", "0x5c129645e44cf1102a159f748c4a3fc5e673d81d7e86568d9ab0f5d396a7ce46ba1049b6579afb7866b1e7154752b24_cppui_modular381")],
  "hashing to G1", "one coefficient of the 11-isogeny's y numerator has swapped digits, so images are not on the curve",
  "for (int i = 1; i < 5; ++i) { auto p = detail::m2c_simple_swu<G1>::process(F1(Z(i))); REQ(oncurve(p, A1(), B1())); REQ(oncurve(detail::iso_map<G1>::process(p), F1(), C1())); }")
S("H01-g2-kernel", [(H + "h2c_iso_map.hpp", '''                            x_den += xi_powers[k_x_den.size()];

                            for (std::size_t i = 0; i < k_y_den.size(); i++) {
                                y_den += field_value_type(k_y_den[i][0], k_y_den[i][1]) * xi_powers[i];
                            }
                            y_den += xi_powers[k_y_den.size()];

                            if (x_den.is_zero() || y_den.is_zero()) {''', '''                            x_den += xi_powers[k_x_den.size()];
                            if (x_den.is_zero()) {
                                x_den = xi_powers[0];
                            }

                            for (std::size_t i = 0; i < k_y_den.size(); i++) {
                                y_den += field_value_type(k_y_den[i][0], k_y_den[i][1]) * xi_powers[i];
                            }
                            y_den += xi_powers[k_y_den.size()];

                            if (x_den.is_zero()) {''')],
  "a point in the kernel of the 3-isogeny", "a kernel point is mapped to a point off the curve instead of the point at infinity",
  "P2 k(F2(Z(-6), Z(6)), F2(Z(1)), F2::one()); REQ(detail::iso_map<G2>::process(k).is_zero()); auto p = detail::map_to_curve<G2>::process(F2(Z(3), Z(4))); REQ(oncurve(p, F2(), C2()));")
