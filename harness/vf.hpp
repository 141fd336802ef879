// symbolic prime-field elements of the library's own classes (over the dependency model)
#pragma once
#include <vf_mp.hpp>
#include <hio.hpp>
extern "C" { void vf_in(void *r, int k, const void *m, std::size_t n); void vf_out(int k, const void *a, std::size_t n); }
template<class N> N vin(int k) { typename N::T v; vf_in(&v, k, N::backend_type::modp(), sizeof(v)); return N::mk(v); }
template<class N> void vout(int k, const N &x) { auto v = x.m.v; vf_out(k, &v, sizeof(v)); }
