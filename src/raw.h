// Reads a field byte-wise as an integer: a field nobody wrote must not be undefined behaviour here, and the width of a
// field is not what the monitors judge.
#pragma once
#include <cstdint>
#include <cstring>
#include <type_traits>

template <typename T>
int64_t rawInt(const T& f) {
  if constexpr (std::is_enum_v<T> || std::is_integral_v<T>) {
    constexpr bool isBool = std::is_same_v<T, bool>;
    using U = typename std::conditional_t<isBool, std::conditional<true, unsigned char, int>, std::conditional_t<std::is_enum_v<T>, std::underlying_type<T>, std::conditional<true, T, int>>>::type;
    if constexpr (std::is_same_v<U, bool>) { unsigned char b; memcpy(&b, &f, 1); return b; }
    else { U v; static_assert(sizeof v == sizeof f || isBool, "width"); memcpy(&v, &f, sizeof v); return (int64_t)v; }
  } else return (int64_t)f;
}
// is the field exactly this value (bit for bit where the types have the same size)?
template <typename F, typename V>
bool rawIs(const F& f, const V& v) {
  if constexpr (std::is_pointer_v<V>) { const void* a; const void* b = (const void*)v; memcpy(&a, &f, sizeof a); return a == b; }
  else if constexpr (std::is_floating_point_v<V>) {
    if constexpr (sizeof(F) == sizeof(V)) return memcmp(&f, &v, sizeof v) == 0;
    else return (long double)f == (long double)v;
  } else if constexpr (std::is_enum_v<V> || std::is_integral_v<V>) return rawInt(f) == rawInt(v);
  else return memcmp(&f, &v, sizeof f) == 0;
}
