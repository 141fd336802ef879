// A recording output stream: every character written is an output of the analysed body, every field element an output by value.
// Included after the standard library and before the library's headers, whose std::ostream it stands in for.
#pragma once
#include <bits/stdc++.h>
#include <boost/functional/hash.hpp>
#include <boost/type_traits.hpp>
#include <boost/tti/tti.hpp>
#include <boost/blank.hpp>
#include <boost/tuple/tuple_io.hpp>
#include <boost/optional.hpp>
#include <boost/variant.hpp>
#include <boost/integer.hpp>
#include <boost/concept/assert.hpp>
#include <boost/assert.hpp>
#include <boost/range/concepts.hpp>
#include <boost/random.hpp>
#include <boost/static_assert.hpp>
#include <boost/core/ignore_unused.hpp>
#include <boost/mpl/placeholders.hpp>
#include <hio.hpp>
#include <vf_mp.hpp>
#include <sf.hpp>
#include <nil/crypto3/multiprecision/cpp_int_modular.hpp>
#include <nil/crypto3/multiprecision/modular/modular_adaptor.hpp>
extern "C" void vf_out(int k, const void *a, std::size_t n);
namespace std {
    struct vs_ostream {
        int n = 0;
        void ch(char c) { vi_out(n++, (unsigned char)c); }
        vs_ostream &put(char c) { ch(c); return *this; }
        vs_ostream &write(const char *s, std::streamsize k) { for (std::streamsize i = 0; i < k; ++i) ch(s[i]); return *this; }
        vs_ostream &flush() { return *this; }
        vs_ostream &operator<<(vs_ostream &(*f)(vs_ostream &)) { return f(*this); }
        vs_ostream &num(unsigned long long v) { char b[24]; int k = 0; do { b[k++] = '0' + v % 10; v /= 10; } while (v); while (k) ch(b[--k]); return *this; }
        vs_ostream &operator<<(int v) { if (v < 0) { ch('-'); return num(-(long long)v); } return num(v); }
        vs_ostream &operator<<(unsigned v) { return num(v); }
        vs_ostream &operator<<(unsigned long v) { return num(v); }
        vs_ostream &operator<<(unsigned long long v) { return num(v); }
        vs_ostream &operator<<(bool v) { ch('0' + v); return *this; }
        int val() { vi_out(n, -1); return 20000 + n++; }
    };
    inline vs_ostream &operator<<(vs_ostream &o, const char *s) { for (; *s; ++s) o.ch(*s); return o; }
    inline vs_ostream &operator<<(vs_ostream &o, char c) { o.ch(c); return o; }
    inline vs_ostream &operator<<(vs_ostream &o, const std::string &s) { return o.write(s.data(), s.size()); }
    inline vs_ostream &operator<<(vs_ostream &o, std::string_view s) { return o.write(s.data(), s.size()); }
    inline vs_ostream &vs_endl(vs_ostream &o) { o.ch('\n'); return o; }
    inline vs_ostream &vs_flush(vs_ostream &o) { return o; }
}
inline std::vs_ostream &operator<<(std::vs_ostream &o, const SF &x) { vd_out(o.val(), x.data); return o; }
namespace boost { namespace multiprecision {
    template<class B, expression_template_option E> std::vs_ostream &operator<<(std::vs_ostream &o, const number<B, E> &x) { auto v = x.m.v; vf_out(o.val(), &v, sizeof v); return o; }
} }
#define ostream vs_ostream
#define endl vs_endl
#define flush vs_flush
