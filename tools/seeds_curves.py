#!/usr/bin/env python3
"""Seeds for C01-C06 (demonstrations enumerate a small curve)."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mkseed import mkseed
ONLY = sys.argv[1:]
FM = "algebra/curves/detail/forms/"


def S(id, prop, edits, needs, breaks, demo):
    if ONLY and id not in ONLY: return
    mkseed(id, prop, edits, needs, breaks, '#include <sstream>\n#include "grp.hpp"\nint main() {\n' + demo + "\nreturn 0; }\n", lib=True)


SWC = lambda a, b: f"HB::a={a}; HB::b={b}; HB::zero_fill={{F(0),F(1)}}; HB::one_fill={{F(0),F(0)}}; auto ps=swpoints(); REQ(ps.size()>20);"
TEC = lambda a, d: f"HB::a={a}; HB::d={d}; HB::zero_fill={{F(0),F(1)}}; HB::one_fill={{F(0),F(1)}}; auto ps=tepoints(); REQ(ps.size()>20);"
# -------------------------------------------------------------- C01
S("C01-te-add-halfsum", "C01", [(FM + "twisted_edwards/extended_with_a_minus_1/add_2008_hwcd_3.hpp",
   "field_value_type D = first.Z * field_value_type(2u) * second.Z;   // D = Z1*2*Z2",
   "field_value_type D = first.Z + second.Z;                          // D = 2*Z1*Z2")],
  "operands whose Z coordinates are not both one (results of earlier additions)", "extended twisted Edwards addition is right only while both operands are normalised",
  TEC(-1, 2) + r'''
  typedef TE<nc::extended_with_a_minus_1> E; F z(3);
  for (auto p : ps) for (auto q : ps) { if ((F(1) - (HB::d*p.x*q.x*p.y*q.y).squared()).is_zero()) continue;
    E a(p.x, p.y, p.x*p.y, F(1)), b(q.x*z, q.y*z, q.x*q.y*z, z); E r = a + b; AP s = teadd(p, q);
    if (r.Z.is_zero()) continue; auto t = r.to_affine(); REQ(t.X == s.x && t.Y == s.y); }''')
S("C01-jac-opposite", "C01", [(FM + "short_weierstrass/jacobian/element_g1.hpp", '''                            } else if (*this == other) {
                                common_doubling_processor::process(*this);
                            } else {''', '''                            } else if ((this->X * other.Z.squared()) == (other.X * this->Z.squared())) {
                                common_doubling_processor::process(*this);
                            } else {''')],
  "in-place addition of a point and its negative", "P += -P doubles P instead of giving the point at infinity (equal-operand test looks at the abscissa only)",
  SWC(3, 8) + r'''
  typedef SW<nc::jacobian> E;
  for (auto p : ps) for (auto q : ps) { E a(p.x, p.y, F(1)), b(q.x, q.y, F(1)); a += b; auto t = a.to_affine(); AP s = swadd(p, q); REQ(same({t.X, t.Y, t.is_zero()}, s)); }''')
# -------------------------------------------------------------- C02
S("C02-proj-dbl-a", "C02", [(FM + "short_weierstrass/projective/dbl_2007_bl.hpp",
   "field_value_type(ElementType::params_type::a) * ZZ +", "field_value_type(ElementType::params_type::a) * (first.Z) +")],
  "doubling a projective point with Z different from 0 and 1 on a curve with a != 0", "the curve coefficient is scaled by Z instead of Z^2",
  SWC(3, 8) + r'''
  typedef SW<nc::projective> E; F z(5);
  for (auto p : ps) { E a(p.x*z, p.y*z, z); a.double_inplace(); auto t = a.to_affine(); AP s = swadd(p, p); REQ(same({t.X, t.Y, t.is_zero()}, s)); }''')
S("C02-ext-dbl-order2", "C02", [(FM + "twisted_edwards/extended_with_a_minus_1/dbl_2008_hwcd.hpp",
   "if (!first.is_zero()) {", "if (!first.X.is_zero()) {")],
  "doubling the point of order two (0,-1)", "the doubling formula treats every point with X = 0 as the identity, so 2*(0,-1) stays (0,-1)",
  TEC(-1, 2) + r'''
  typedef TE<nc::extended_with_a_minus_1> E;
  for (auto p : ps) { E a(p.x, p.y, p.x*p.y, F(1)); a.double_inplace(); if (a.Z.is_zero()) continue; AP s = teadd(p, p); auto t = a.to_affine(); REQ(t.X == s.x && t.Y == s.y); }''')
# -------------------------------------------------------------- C03
S("C03-a40-madd-equal-x", "C03", [(FM + "short_weierstrass/projective_with_a4_minus_3/element_g1.hpp",
   "if (X1Z2 == X2Z1 && Y1Z2 == Y2Z1) {", "if (X1Z2 == X2Z1 && (Y1Z2 == Y2Z1 || Y1Z2 == -Y2Z1)) {")],
  "mixed addition of the negative of the accumulated point", "mixed addition of -P to P doubles P instead of giving the point at infinity",
  SWC(-3, 8) + r'''
  typedef SW<nc::projective_with_a4_minus_3> E; F z(5);
  for (auto p : ps) for (auto q : ps) { E a(p.x*z, p.y*z, z), b(q.x, q.y, F(1)); a.mixed_add(b); auto t = a.to_affine(); AP s = swadd(p, q); REQ(same({t.X, t.Y, t.is_zero()}, s)); }''')
S("C03-te-madd-z", "C03", [(FM + "short_weierstrass/jacobian_with_a4_0/madd_2007_bl.hpp",
   "first.Z = (first.Z + H).squared() - Z1Z1 - HH;", "first.Z = (H + field_value_type::one()).squared() - Z1Z1 - HH;")],
  "mixed addition into an accumulator whose Z is not one", "the third coordinate is computed as if the accumulator were normalised",
  SWC(0, 7) + r'''
  typedef SW<nc::jacobian_with_a4_0> E; F z(5);
  for (auto p : ps) for (auto q : ps) { E a(p.x*z*z, p.y*z*z*z, z), b(q.x, q.y, F(1)); a.mixed_add(b); auto t = a.to_affine(); AP s = swadd(p, q); REQ(same({t.X, t.Y, t.is_zero()}, s)); }''')
# -------------------------------------------------------------- C04
S("C04-ext-eq-y", "C04", [(FM + "twisted_edwards/extended_with_a_minus_1/element_g1.hpp", '''                            if ((this->X * other.Z) != (other.X * this->Z)) {
                                return false;
                            }
''', '''                            if ((this->X * other.Y) != (other.X * this->Y)) {
                                return false;
                            }
'''), (FM + "twisted_edwards/extended_with_a_minus_1/element_g1.hpp", '''                            if ((this->T * other.Z) != (other.T * this->Z)) {
                                return false;
                            }

                            return true;''', '''                            if ((this->T * other.X) != (other.T * this->X)) {
                                return false;
                            }

                            return true;''')],
  "comparing the two points of order four (x, 0) and (-x, 0)", "equality compares ratios of X, Y and T among each other and confuses (x,0) with (-x,0)",
  TEC(-1, 2) + r'''
  typedef TE<nc::extended_with_a_minus_1> E; F z(5);
  for (auto p : ps) for (auto q : ps) { E a(p.x, p.y, p.x*p.y, F(1)), b(q.x*z, q.y*z, q.x*q.y*z, z); REQ((a == b) == (p.x == q.x && p.y == q.y)); }''')
S("C04-jac-eq-inf", "C04", [(FM + "short_weierstrass/projective/element_g1.hpp", '''                            if (other.is_zero()) {
                                return false;
                            }

                            /* now neither is O */''', '''                            /* now this is not O */''')],
  "comparing a finite point of order two's X = 0 multiple with the point at infinity stored as (0:y:0)", "equality of a finite point with the representative (0:0:0) of infinity holds because both cross products vanish",
  SWC(3, 8) + r'''
  typedef SW<nc::projective> E;
  for (auto p : ps) { E a(p.x, p.y, F(1)), o(F(0), F(0), F(0)), o2(F(0), F(3), F(0)); REQ(!(a == o)); REQ(!(o == a)); REQ(!(a == o2)); REQ(!(o2 == a)); } REQ(E::zero() == E(F(0), F(5), F(0)));''')
# -------------------------------------------------------------- C05
S("C05-a40-to-proj", "C05", [(FM + "short_weierstrass/jacobian_with_a4_0/element_g1.hpp",
   "return result_type(X * Z.inversed(), Y * Z.squared().inversed(), Z);", "return result_type(X * Z, Y, Z.squared());")],
  "conversion of a Jacobian point whose Z is neither 0, 1 nor a cube root of unity", "Jacobian to projective conversion yields X*Z : Y : Z^2 instead of X*Z : Y : Z^3",
  SWC(0, 7) + r'''
  typedef SW<nc::jacobian_with_a4_0> E;
  for (auto p : ps) for (int z = 1; z < 101; z += 7) { F k(z); E a(p.x*k*k, p.y*k*k*k, k); auto t = a.to_projective().to_affine(); REQ(t.X == p.x && t.Y == p.y); }''')
# -------------------------------------------------------------- C06
S("C06-ext-wf-T", "C06", [(FM + "twisted_edwards/extended_with_a_minus_1/element_g1.hpp", '''                            if (X*Y != T*Z) {
                                return false;
                            }
''', '''                            if ((X*Y).squared() != (T*Z).squared()) {
                                return false;
                            }
''')], "coordinates whose auxiliary T has the wrong sign", "well-formedness accepts T = -XY/Z, for which addition gives wrong results",
  TEC(-1, 2) + r'''
  typedef TE<nc::extended_with_a_minus_1> E; F z(5);
  for (auto p : ps) { if (p.x.is_zero() || p.y.is_zero()) continue; E a(p.x*z, p.y*z, p.x*p.y*z, z), b(p.x*z, p.y*z, -(p.x*p.y*z), z); REQ(a.is_well_formed()); REQ(!b.is_well_formed()); }''')
S("C06-jac-z4", "C06", [(FM + "short_weierstrass/jacobian/element_g1.hpp", "field_value_type Z4 = Z2.squared();", "field_value_type Z4 = Z2.doubled().squared() - Z3.doubled() - Z2;")],
  "a point whose Z is not one on a curve with a != 0", "well-formedness rejects valid Jacobian points with Z != 1 (the fourth power of Z is replaced by 4Z^4-2Z^3-Z^2, right only for Z = 1)",
  SWC(3, 8) + r'''
  typedef SW<nc::jacobian> E;
  for (auto p : ps) for (int z = 1; z < 101; z += 3) { F k(z); E a(p.x*k*k, p.y*k*k*k, k), b(p.x*k*k, p.y*k*k*k + F(1), k); REQ(a.is_well_formed()); }''')
S("C05-a43-to-proj", "C05", [(FM + "short_weierstrass/projective/element_g1.hpp", "return result_type(X * Z.inversed(), Y * Z.inversed());", "auto Zi = Z.inversed();\n                            return result_type(X * Zi, Y * (Z.is_one() ? Zi : Zi.squared()));")],
  "normalising a projective point whose Z is not one", "the ordinate is divided by Z^2 unless the point is already normalised",
  SWC(3, 8) + r'''
  typedef SW<nc::projective> E;
  for (auto p : ps) for (int z = 1; z < 101; z += 7) { F k(z); E a(p.x*k, p.y*k, k); auto t = a.to_affine(); REQ(t.X == p.x && t.Y == p.y); }''')
# -------------------------------------------------------------- O01
S("O01-inverted-normalised", "O01", [(FM + "twisted_edwards/inverted/element_g1.hpp", 'os << "{\\"X\\":" << e.X << ",\\"Y\\":" << e.Y << ",\\"Z\\":" << e.Z << "}";', '''os << "{\\"X\\":" << e.X << ",\\"Y\\":" << e.Y;
                            if (!e.Z.is_one()) {
                                os << ",\\"Z\\":" << e.Z;
                            }
                            os << "}";''')],
  "a point whose Z is one (a normalised point)", "the third coordinate of a normalised inverted point is not written", TEC(1, 2) + r'''
  typedef TE<nc::inverted> E; for (int z = 1; z < 4; ++z) { E a(F(3), F(4), F(z)); std::ostringstream o; o << a; std::string s; for (char c : o.str()) if (c != ' ') s += c; REQ(s == "{\"X\":3,\"Y\":4,\"Z\":" + std::to_string(z) + "}"); }''')
