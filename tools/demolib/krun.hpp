// prints constants of a type: one line per KPRINT, the name and the integers in hex
#pragma once
#include <cstdio>
#include <cstdlib>
#include <kio.hpp>
extern "C" {
void vf_out(int, const void *a, std::size_t n) { const unsigned char *p = (const unsigned char *)a; printf(" 0x0"); for (std::size_t i = n; i--;) printf("%02x", p[i]); }
void vi_out(int, long v) { printf(" %ld", v); }
#define KSTUB(r, n, ...) r n(__VA_ARGS__) { abort(); }
KSTUB(void, vf_add, void *, const void *, const void *, const void *, std::size_t)
KSTUB(void, vf_sub, void *, const void *, const void *, const void *, std::size_t)
KSTUB(void, vf_mul, void *, const void *, const void *, const void *, std::size_t)
KSTUB(void, vf_neg, void *, const void *, const void *, std::size_t)
KSTUB(void, vf_inv, void *, const void *, const void *, std::size_t)
KSTUB(void, vf_sqrt, void *, const void *, const void *, std::size_t)
KSTUB(void, vf_redc, void *, const void *, std::size_t, const void *, std::size_t)
KSTUB(bool, vf_eq, const void *, const void *, const void *, std::size_t)
}
#define KPRINT(T, name) do { printf("%s", #name); static constexpr auto x_ = T::name; kio::at(0, x_); printf("\n"); } while (0)
