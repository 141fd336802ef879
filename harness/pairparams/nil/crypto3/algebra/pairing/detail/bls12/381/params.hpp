// small loop counts in place of the curve's own
#pragma once
#include <pmock.hpp>
namespace nil { namespace crypto3 { namespace algebra { namespace pairing { namespace detail {
    template<typename CurveType> class pairing_params;
    template<> class pairing_params<curves::bls12<381>> {
    public:
        typedef vp::SFbase::integral_type integral_type; typedef vp::SFbase::extended_integral_type extended_integral_type; typedef vp::Q2 g2_field_type_value;
        static constexpr std::size_t integral_type_max_bits = 12;
        static constexpr integral_type ate_loop_count = integral_type(VP_LOOP), final_exponent_z = integral_type(5u), final_exponent_last_chunk_abs_of_w0 = integral_type(5u), final_exponent_last_chunk_w1 = integral_type(1u);
        static constexpr extended_integral_type final_exponent = extended_integral_type(5u);
        static constexpr bool ate_is_loop_count_neg = VP_NEG, final_exponent_is_z_neg = false, final_exponent_last_chunk_is_w0_neg = false;
        static constexpr vp::Q2 twist = vp::Q2::mk(vp::TW), twist_coeff_a = vp::Q2::mk(vp::AT), twist_coeff_b = vp::Q2::mk(vp::BT);
    };
} } } } }
