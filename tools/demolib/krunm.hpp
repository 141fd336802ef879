// as krun.hpp, with the modular primitives executed (plain double-and-add on wide integers)
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <kio.hpp>
typedef unsigned _BitInt(1024) W;
static W ld(const void *a, std::size_t n) { W r = 0; for (std::size_t i = n; i--;) r = (r << 8) | ((const unsigned char *)a)[i]; return r; }
static void sd(void *r, std::size_t n, W v) { for (std::size_t i = 0; i < n; ++i, v >>= 8) ((unsigned char *)r)[i] = (unsigned char)v; }
static W red(W v, W m) { unsigned s = 0; W t = m; while (t <= (v >> 1)) { t <<= 1; ++s; } for (;;) { if (v >= t) v -= t; if (!s--) return v; t >>= 1; } }
static W am(W a, W b, W m) { W c = a + b; return c >= m ? c - m : c; }
static W mm(W a, W b, W m) { W r = 0; a = red(a, m); for (b = red(b, m); b; b >>= 1) { if (b & 1) r = am(r, a, m); a = am(a, a, m); } return r; }
extern "C" {
void vf_out(int, const void *a, std::size_t n) { const unsigned char *p = (const unsigned char *)a; printf(" 0x0"); for (std::size_t i = n; i--;) printf("%02x", p[i]); }
void vi_out(int, long v) { printf(" %ld", v); }
void vf_add(void *r, const void *a, const void *b, const void *m, std::size_t n) { W M = ld(m, n); sd(r, n, am(red(ld(a, n), M), red(ld(b, n), M), M)); }
void vf_neg(void *r, const void *a, const void *m, std::size_t n) { W M = ld(m, n), A = red(ld(a, n), M); sd(r, n, A == 0 ? A : W(M - A)); }
void vf_sub(void *r, const void *a, const void *b, const void *m, std::size_t n) { W M = ld(m, n), B = red(ld(b, n), M); sd(r, n, am(red(ld(a, n), M), B == 0 ? B : W(M - B), M)); }
void vf_mul(void *r, const void *a, const void *b, const void *m, std::size_t n) { W M = ld(m, n); sd(r, n, mm(ld(a, n), ld(b, n), M)); }
void vf_inv(void *r, const void *a, const void *m, std::size_t n) { W M = ld(m, n), A = ld(a, n), R = 1; for (W e = M - 2; e; e >>= 1) { if (e & 1) R = mm(R, A, M); A = mm(A, A, M); } sd(r, n, R); }
void vf_sqrt(void *, const void *, const void *, std::size_t) { abort(); }
void vf_redc(void *r, const void *a, std::size_t k, const void *m, std::size_t n) { W M = ld(m, n); sd(r, n, red(ld(a, k), M)); }
void vf_lift(void *r, std::size_t k, const void *a, const void *m, std::size_t n) { W M = ld(m, n); sd(r, k, red(ld(a, n), M)); }
bool vf_eq(const void *a, const void *b, const void *m, std::size_t n) { W M = ld(m, n); return red(ld(a, n), M) == red(ld(b, n), M); }
}
#define KPRINT(T, name) do { printf("%s", #name); static constexpr auto x_ = T::name; kio::at(0, x_); printf("\n"); } while (0)
