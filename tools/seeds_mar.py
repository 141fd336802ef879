#!/usr/bin/env python3
"""Planted bugs for the serialisers (M01, M02)."""
import os, shutil, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mkseed import mkseed
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ONLY = sys.argv[1:]
C = "algebra/curves/detail/marshalling.hpp"; B = "algebra/marshalling.hpp"


def S(id, prop, edits, needs, breaks, main):
    if ONLY and id not in ONLY: return
    mkseed(id, prop, edits, needs, breaks, "#include <mardemo.hpp>\nint main() {\n" + main + "\nreturn 0; }\n", flags='-w -DBOOST_ENABLE_ASSERT_HANDLER -I"$D/mar"')
    d = os.path.join(V, "seeded", id, "mar")
    if os.path.isdir(d): shutil.rmtree(d)
    shutil.copytree(os.path.join(V, "tools/demolib/mar"), d)


S("M01-g2-sign-real", "M01", [(C, "                return sign_gf_p(v.data[1]);\n            }\n\n            template", "                return sign_gf_p(v.data[0]);\n            }\n\n            template")],
  "a compressed G2 point, compared with another implementation of the format", "the sign bit of G2 points is taken from the real part of y, so encodings are not interoperable although round trips work",
  "for (unsigned x = 1; x < 30; ++x) { P2 p = pt2(x, 3 * x); auto o = S::point_to_octets_compress(p); bool s = p.Y.data[1].data > (prime(1) - 1) / 2; REQ(((o[0] & 0x20) != 0) == s); }")
S("M01-g2-real-y-sign", "M01", [(C, "                if (v.data[1] == 0u) {\n                    return sign_gf_p(v.data[0]);\n                }\n", "")],
  "a compressed G2 point whose y is in the prime subfield", "the sign bit is lost, so the point decodes to its negative or encodes two points alike",
  """for (unsigned t = 2; t < 4000; ++t) { E2 g = E2(E1(t), E1()) * E2(E1(t), E1()) + -E2(E1(4), E1(4)); Z n = prime(1) * prime(1) - 1, m = n; while (m % 3 == 0) m /= 3; if (!(g.pow(m) == E2::one())) continue; Z inv = m % 3 == 1 ? Z((2 * m + 1) / 3) : Z((m + 1) / 3); E2 X = g.pow(inv); if (!(X * X * X == g)) continue;
    P2 a(X, E2(E1(t), E1()), E2::one()), b(X, -E2(E1(t), E1()), E2::one()); REQ(S::point_to_octets_compress(a) != S::point_to_octets_compress(b)); REQ(S::octets_to_g2_point(S::point_to_octets_compress(a)) == a); REQ(S::octets_to_g2_point(S::point_to_octets_compress(b)) == b); return 0; } return 2;""")
S("M01-g2-uncompressed-swap", "M01", [(C, '''                        point_affine.Y.data[0].data.template convert_to<integral_type>(), result.rbegin(), 8, false);
                    boost::multiprecision::export_bits(point_affine.Y.data[1].data.template convert_to<integral_type>(),''', '''                        point_affine.Y.data[1].data.template convert_to<integral_type>(), result.rbegin(), 8, false);
                    boost::multiprecision::export_bits(point_affine.Y.data[0].data.template convert_to<integral_type>(),'''),
  (C, '''                    y_0, point_octets.rbegin(), point_octets.rbegin() + sizeof_field_element, 8, false);
                boost::multiprecision::import_bits(y_1,''', '''                    y_1, point_octets.rbegin(), point_octets.rbegin() + sizeof_field_element, 8, false);
                boost::multiprecision::import_bits(y_0,''')],
  "an uncompressed G2 encoding exchanged with another implementation", "writer and reader agree with each other but swap the two parts of y against the format",
  "P2 p = pt2(5, 9); auto o = S::point_to_octets(p); Z y0; boost::multiprecision::import_bits(y0, o.begin() + 144, o.end(), 8, true); REQ(y0 == p.Y.data[0].data);")
S("M01-flags-accepted", "M01", [(C, '''                const std::uint8_t m_byte = *octets.begin() & 0xE0;
                BOOST_ASSERT(m_byte != 0x20 && m_byte != 0x60 && m_byte != 0xE0);

                PointOctetsRange point_octets = octets;
                *point_octets.begin() &= 0x1F;

                if (m_byte & C_bit) {
                    return compressed_to_g1_point''', '''                const std::uint8_t m_byte = *octets.begin() & 0xE0;
                BOOST_ASSERT(m_byte != 0x20 && m_byte != 0x60);

                PointOctetsRange point_octets = octets;
                *point_octets.begin() &= 0x1F;

                if (m_byte & C_bit) {
                    return compressed_to_g1_point''')],
  "a compressed infinity encoding that also carries the sign bit", "the point at infinity gets a second accepted encoding",
  "V o(48, 0); o[0] = 0xC0; REQ(S::octets_to_g1_point(o).is_zero()); o[0] = 0xE0; REJECTS(S::octets_to_g1_point(o));")
S("M02-ext-validity", "M02", [(B, "bres = bres && valid_coord.first;", "bres = valid_coord.first;")],
  "an extension-field encoding one of whose coordinates other than the last is not reduced", "the invalid encoding is reported as valid",
  "V b(96, 0); REQ(bincode::field<fp2>::field_element_from_bytes(b.begin(), b.end()).first); for (int i = 0; i < 48; ++i) b[i] = 0xff; REQ(!bincode::field<fp2>::field_element_from_bytes(b.begin(), b.end()).first);")
S("M02-modulus-accepted", "M02", [(B, "result < FieldType::modulus,", "result <= FieldType::modulus,")],
  "the encoding of the modulus itself", "a second encoding of zero is reported as valid",
  "V b(48, 0); boost::multiprecision::export_bits(prime(1), b.begin(), 8, false); REQ(!bincode::field<fp>::field_element_from_bytes(b.begin(), b.end()).first); b[0] -= 1; REQ(bincode::field<fp>::field_element_from_bytes(b.begin(), b.end()).first);")
S("M02-length-tower", "M02", [(B, '''                    size_t offset = 0;
                    for (auto data_it = element.data.begin(); data_it != element.data.end(); ++data_it) {
                        offset +=''', '''                    size_t offset = 0;
                    for (auto data_it = element.data.begin(); data_it != element.data.end(); ++data_it) {
                        offset = data_it == element.data.begin() + 2 ? field_octets_num / 2 : offset; offset +=''')],
  "an element of a cubic extension (inside the degree-twelve tower)", "the third coordinate overwrites part of the second",
  "fp6::value_type e; for (int i = 0; i < 3; ++i) e.data[i] = E2(E1(7 + i), E1(70 + i)); V b(288); bincode::field<fp6>::field_element_to_bytes(e, b.begin(), b.end()); auto r = bincode::field<fp6>::field_element_from_bytes(b.begin(), b.end()); REQ(r.first && r.second == e);")
S("M01-x0-modulus", "M01", [(C, '''                    x_1, point_octets.rbegin() + 3 * sizeof_field_element, point_octets.rend(), 8, false);
                BOOST_ASSERT(x_0 < g1_field_value_type::modulus && x_1''', '''                    x_1, point_octets.rbegin() + 3 * sizeof_field_element, point_octets.rend(), 8, false);
                BOOST_ASSERT(x_0 <= g1_field_value_type::modulus && x_1''')],
  "an uncompressed G2 encoding of a point with purely imaginary abscissa, its real part written as the modulus itself", "the point gets a second accepted encoding",
  """for (unsigned t = 2; t < 1000; ++t) { E2 X = E2(E1(0), E1(t)), g = X * X * X + E2(E1(4), E1(4)); if (!g.is_square()) continue; P2 p(X, g.sqrt(), E2::one()); auto o = vec(S::point_to_octets(p)); REQ(S::octets_to_g2_point(o) == p);
    boost::multiprecision::export_bits(prime(1), o.begin() + 48, 8, true); REJECTS(S::octets_to_g2_point(o)); return 0; } return 2;""")
