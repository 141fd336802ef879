// A small prime field with the interface the library's element classes expect, for demonstrations only.
#pragma once
#include <cstdio>
#include <cstddef>
#include <cstdint>
#include <array>
#include <cassert>
#include <type_traits>
#include <iostream>
#include <vector>
#include <utility>
template<unsigned P> struct FFfield;
template<unsigned P> struct FF {
    typedef FFfield<P> field_type;
    typedef unsigned data_type;
    unsigned data;
    constexpr FF() : data(0) {}
    template<class I, typename std::enable_if<std::is_integral<I>::value, bool>::type = true>
    constexpr FF(I i) : data((unsigned)((((long long)i) % (long long)P + P) % P)) {}
    static constexpr FF zero() { return FF(0); }
    static constexpr FF one() { return FF(1); }
    constexpr bool is_zero() const { return data == 0; }
    constexpr bool is_one() const { return data == 1; }
    constexpr bool operator==(const FF &o) const { return data == o.data; }
    constexpr bool operator!=(const FF &o) const { return data != o.data; }
    constexpr FF operator+(const FF &o) const { return FF((long long)data + o.data); }
    constexpr FF operator-(const FF &o) const { return FF((long long)data - o.data); }
    constexpr FF operator*(const FF &o) const { return FF((long long)data * o.data); }
    constexpr FF operator-() const { return FF(-(long long)data); }
    constexpr FF &operator+=(const FF &o) { return *this = *this + o; }
    constexpr FF &operator-=(const FF &o) { return *this = *this - o; }
    constexpr FF &operator*=(const FF &o) { return *this = *this * o; }
    constexpr FF doubled() const { return *this + *this; }
    constexpr FF squared() const { return *this * *this; }
    template<class I> constexpr FF pow(I n) const { FF r(1); for (std::uint64_t i = 0; i < (std::uint64_t)n; ++i) r = r * *this; return r; }
    constexpr FF inversed() const { return pow(P - 2); }
};
template<unsigned P> FF<P> operator+(int a, const FF<P> &b) { return FF<P>(a) + b; }
template<unsigned P> FF<P> operator-(int a, const FF<P> &b) { return FF<P>(a) - b; }
template<unsigned P> FF<P> operator*(int a, const FF<P> &b) { return FF<P>(a) * b; }
template<unsigned P> std::ostream &operator<<(std::ostream &o, const FF<P> &f) { return o << f.data; }
template<unsigned P> struct FFfield { typedef FF<P> value_type; typedef unsigned integral_type; static constexpr std::size_t value_bits = 16, modulus_bits = 16, number_bits = 16, arity = 1; };
#define REQ(c) do { if (!(c)) { std::printf("FAILED: %s\n", #c); return 1; } } while (0)
