#!/usr/bin/env python3
"""Seeds in the hand-written Edwards G2 class (demonstrations enumerate a curve over a cubic extension of F_13)."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mkseed import mkseed
ONLY = sys.argv[1:]
F = "algebra/curves/detail/edwards/element_g2.hpp"


def S(id, prop, edits, needs, breaks, demo):
    if ONLY and id not in ONLY: return
    mkseed(id, prop, [(F, a, b) for a, b in edits], needs, breaks, '#include "edg2.hpp"\nint main() { auto ps = points(); REQ(ps.size() > 20); Q3 z(3, 1, 4); bool ok;\n' + demo + "\nreturn 0; }\n", lib="edg2.hpp")


S("C02-edg2-dbl-z", "C02", [("mul_by_d(this->Z.squared());", "mul_by_d(this->Z).squared();")],
  "any doubled point of the Edwards G2 group", "d*Z^2 becomes (d*Z)^2 in the G2 doubling",
  "for (auto p : ps) { AP s = add(p, p, ok); if (!ok || s.x.is_zero() || s.y.is_zero()) continue; G2 g = mk(p, z); g.double_inplace(); REQ(is(g, s)); }")
S("C01-edg2-scaled-add", "C01", [("const underlying_field_value_type A = (this->Z) * (other.Z);          // A = Z1*Z2", "const underlying_field_value_type A = other.is_special() ? this->Z : (this->Z) * (this->Z);          // A = Z1*Z2")],
  "two operands with different Z coordinates, neither of them normalised", "the G2 addition formula uses Z1^2 for Z1*Z2",
  "for (auto p : ps) for (auto q : ps) { AP s = add(p, q, ok); if (!ok || s.x.is_zero() || s.y.is_zero()) continue; G2 g = mk(p, z) + mk(q, Q3(2, 7, 1)); REQ(is(g, s)); }")
S("C04-edg2-eq-y", "C04", [("if ((this->Y * other.Z) != (other.Y * this->Z)) {", "if ((this->Y * other.Z).squared() != (other.Y * this->Z).squared()) {")],
  "comparing P with the point that has the same x and opposite y", "the G2 equality ignores the sign of y",
  "for (auto p : ps) { AP m{p.x, -p.y}; REQ(!(mk(p, z) == mk(m, Q3::one()))); REQ(mk(p, z) == mk(p, Q3::one())); }")
S("C06-edg2-wf-special", "C06", [("if (this->is_zero()) {\n                                return true;\n                            } else {\n\n                                const auto X2", "if (this->is_zero() || this->X.is_zero()) {\n                                return true;\n                            } else {\n\n                                const auto X2")],
  "a coordinate tuple with X = 0 and Z not zero", "tuples with X = 0 pass the G2 well-formedness test",
  "for (auto p : ps) REQ(mk(p, z).is_well_formed()); REQ(!G2(Q3(), Q3(1, 2, 3), Q3(4, 5, 6)).is_well_formed()); REQ(!G2(Q3(1, 2, 3), Q3(1, 2, 3), Q3(4, 5, 6)).is_well_formed());")
S("C05-edg2-affine-z", "C05", [("underlying_field_value_type tY = this->X * this->Z;", "underlying_field_value_type tY = this->is_special() ? this->X : this->X * this->Y;")],
  "converting a point that is not normalised", "the affine y of an un-normalised G2 point is wrong",
  "for (auto p : ps) { G2 a = mk(p, Q3::one()).to_affine(), b = mk(p, z).to_affine(); REQ(a.X == p.x && a.Y == p.y); REQ(b.X == p.x && b.Y == p.y); }")
S("C03-edg2-madd-swap", "C03", [("(this->X + this->Y) * (other.X + other.Y) - C - D;    // I = (X1+Y1)*(X2+Y2)-C-D\n                            X = (E + B) * H;       // X3 = (E+B)*H\n                            Y = (E - B) * I;       // Y3 = (E-B)*I\n                            Z = A * H * I;         // Z3 = A*H*I\n                        }\n\n                    private:",
   "(this->X + this->Y) * (other.X + other.Y) - C - D;    // I = (X1+Y1)*(X2+Y2)-C-D\n                            X = (E + B) * H;       // X3 = (E+B)*H\n                            Y = (E - (this->is_special() ? B : B + B)) * I;       // Y3 = (E-B)*I\n                            Z = A * H * I;         // Z3 = A*H*I\n                        }\n\n                    private:")],
  "mixed addition to an accumulator with Z != 1", "the mixed addition of G2 is right only when both points are normalised",
  "for (auto p : ps) for (auto q : ps) { AP s = add(p, q, ok); if (!ok || s.x.is_zero() || s.y.is_zero()) continue; G2 g = mk(p, z); g.mixed_add(mk(q, Q3::one())); REQ(is(g, s)); }")
