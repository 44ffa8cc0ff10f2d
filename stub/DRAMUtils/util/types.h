// Stand-in for DRAMUtils: type sequence helpers.
#ifndef DRAMUTILS_UTIL_TYPES_H
#define DRAMUTILS_UTIL_TYPES_H
#include <type_traits>
#include <utility>
#include <cstddef>
#include <cstdint>
#include <tuple>
#include <variant>
#include <optional>
#include <functional>
namespace DRAMUtils::util {
template <typename...> struct always_false : std::false_type {};

template <typename... Ts> struct type_sequence {
    static constexpr std::size_t size = sizeof...(Ts);
};

template <typename T, typename Seq> struct is_one_of;
template <typename T, typename... Ts>
struct is_one_of<T, type_sequence<Ts...>> : std::disjunction<std::is_same<T, Ts>...> {};

template <typename... Ts> struct unique_types;
template <> struct unique_types<> : std::true_type {};
template <typename T, typename... Ts>
struct unique_types<T, Ts...>
    : std::conjunction<std::negation<std::disjunction<std::is_same<T, Ts>...>>, unique_types<Ts...>> {};
} // namespace DRAMUtils::util
#endif
