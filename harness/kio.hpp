// reads the constants a type defines (absent ones are reported as absent)
#pragma once
#include <vf_mp.hpp>
#include <hio.hpp>
#include <type_traits>
#include <array>
extern "C" { void vf_out(int k, const void *a, std::size_t n); }
namespace kio {
    template<class X> struct isarr : std::false_type {};
    template<class T, std::size_t N> struct isarr<std::array<T, N>> : std::true_type {};
    template<class X, class = void> struct hasm : std::false_type {};
    template<class X> struct hasm<X, std::void_t<decltype(std::declval<const X &>().m.v)>> : std::true_type {};
    template<class X, class = void> struct hasdata : std::false_type {};
    template<class X> struct hasdata<X, std::void_t<decltype(std::declval<const X &>().data)>> : std::true_type {};
    template<class X> void emit(int &k, const X &x) {
        if constexpr (std::is_integral<X>::value || std::is_enum<X>::value) vi_out(k++, (std::size_t)x);
        else if constexpr (hasm<X>::value) { auto v = x.m.v; vf_out(k++, &v, sizeof(v)); }
        else if constexpr (std::is_array<X>::value || isarr<X>::value) { for (const auto &y : x) emit(k, y); }
        else if constexpr (hasdata<X>::value) emit(k, x.data);
        else static_assert(sizeof(X) == 0, "unknown kind of constant");
    }
    template<class X> void at(int k, const X &x) { emit(k, x); }
}
// KDEF(name): kget_name<T>(slot) emits T::name when it exists
#define KDEF(name) \
    template<class T> auto kget_##name(int k, int) -> decltype((void)T::name) { static constexpr auto x = T::name; kio::at(k, x); } \
    template<class T> void kget_##name(int, long) {}
#define KTYPE(name) \
    template<class T, class U> auto ktype_##name(int k, int) -> decltype((void)sizeof(typename T::name)) { vi_out(k, std::is_same<typename T::name, U>::value); } \
    template<class T, class U> void ktype_##name(int, long) {}
