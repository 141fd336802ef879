// The library's group element classes over a small prime field, with parameters set at run time.
#pragma once
#include "ff.hpp"
#include <nil/crypto3/algebra/type_traits.hpp>
#include <nil/crypto3/algebra/curves/forms.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian/element_g1.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_0/element_g1.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_minus_3/element_g1.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/short_weierstrass/projective/element_g1.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/short_weierstrass/projective_with_a4_minus_3/element_g1.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/short_weierstrass/element_g1_affine.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/twisted_edwards/extended_with_a_minus_1/element_g1.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/twisted_edwards/inverted/element_g1.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/twisted_edwards/element_g1_affine.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/montgomery/element_g1_affine.hpp>
namespace nd = nil::crypto3::algebra::curves::detail; typedef nil::crypto3::algebra::curves::forms nf; namespace nc = nil::crypto3::algebra::curves::coordinates;
typedef FF<101> F;
template<class Form> struct HP;
struct HC { template<class C, class Fm> struct g1_type { typedef HP<Fm> params_type; typedef nd::curve_element<HP<Fm>, Fm, C> value_type; }; };
struct HB { typedef FFfield<101> field_type; static F a, b, c, d, A, B; static std::array<F, 2> zero_fill, one_fill; };
template<class Form> struct HP : HB { template<class C> struct group_type { typedef HC curve_type; typedef nd::curve_element<HP<Form>, Form, C> value_type; }; };
F HB::a, HB::b, HB::c, HB::d, HB::A, HB::B; std::array<F, 2> HB::zero_fill, HB::one_fill;
template<class C> using SW = nd::curve_element<HP<nf::short_weierstrass>, nf::short_weierstrass, C>;
template<class C> using TE = nd::curve_element<HP<nf::twisted_edwards>, nf::twisted_edwards, C>;
typedef nd::curve_element<HP<nf::montgomery>, nf::montgomery, nc::affine> MO;
// short Weierstrass group law on affine pairs (inf = point at infinity)
struct AP { F x, y; bool inf; };
inline bool same(AP p, AP q) { return p.inf || q.inf ? p.inf == q.inf : p.x == q.x && p.y == q.y; }
inline AP swadd(AP p, AP q) {
    if (p.inf) return q; if (q.inf) return p;
    if (p.x == q.x && p.y == -q.y) return {F(), F(), true};
    F l = p.x == q.x ? (p.x.squared() * 3 + HB::a) * (p.y * 2).inversed() : (q.y - p.y) * (q.x - p.x).inversed();
    F x = l.squared() - p.x - q.x; return {x, l * (p.x - x) - p.y, false};
}
inline AP teadd(AP p, AP q) {
    F t = HB::d * p.x * q.x * p.y * q.y;
    return {(p.x * q.y + p.y * q.x) * (F(1) + t).inversed(), (p.y * q.y - HB::a * p.x * q.x) * (F(1) - t).inversed(), false};
}
inline std::vector<AP> swpoints() { std::vector<AP> r; for (int x = 0; x < 101; ++x) for (int y = 0; y < 101; ++y) if (F(y).squared() == F(x).squared() * F(x) + HB::a * F(x) + HB::b) r.push_back({F(x), F(y), false}); return r; }
inline std::vector<AP> tepoints() { std::vector<AP> r; for (int x = 0; x < 101; ++x) for (int y = 0; y < 101; ++y) if (HB::a * F(x).squared() + F(y).squared() == F(1) + HB::d * F(x).squared() * F(y).squared()) r.push_back({F(x), F(y), false}); return r; }
