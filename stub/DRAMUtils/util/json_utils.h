// Stand-in for DRAMUtils: NLOHMANN_JSONIFY_ALL_THINGS with std::optional members.
#ifndef DRAMUTILS_UTIL_JSON_UTILS_H
#define DRAMUTILS_UTIL_JSON_UTILS_H
#include <optional>
#include <string>
#include <type_traits>
#include <cstdint>
#include <array>
#include <vector>
#include <DRAMUtils/util/json.h>

namespace DRAMUtils::util {
template <typename T> struct is_optional : std::false_type {};
template <typename T> struct is_optional<std::optional<T>> : std::true_type {};

template <typename T> void json_put(nlohmann::json& j, const char* key, const T& value)
{
    if constexpr (is_optional<T>::value) {
        if (value.has_value()) j[key] = *value;
    } else {
        j[key] = value;
    }
}
template <typename T> void json_take(const nlohmann::json& j, const char* key, T& value)
{
    if constexpr (is_optional<T>::value) {
        auto it = j.find(key);
        if (it == j.end() || it->is_null()) value.reset();
        else value = it->template get<typename T::value_type>();
    } else {
        j.at(key).get_to(value);
    }
}
} // namespace DRAMUtils::util

#define DRAMUTILS_JSON_PUT(v1) DRAMUtils::util::json_put(nlohmann_json_j, #v1, nlohmann_json_t.v1);
#define DRAMUTILS_JSON_TAKE(v1) DRAMUtils::util::json_take(nlohmann_json_j, #v1, nlohmann_json_t.v1);
#define NLOHMANN_JSONIFY_ALL_THINGS(Type, ...)                                              \
    inline void to_json(nlohmann::json& nlohmann_json_j, const Type& nlohmann_json_t)       \
    {                                                                                       \
        NLOHMANN_JSON_EXPAND(NLOHMANN_JSON_PASTE(DRAMUTILS_JSON_PUT, __VA_ARGS__))          \
    }                                                                                       \
    inline void from_json(const nlohmann::json& nlohmann_json_j, Type& nlohmann_json_t)     \
    {                                                                                       \
        NLOHMANN_JSON_EXPAND(NLOHMANN_JSON_PASTE(DRAMUTILS_JSON_TAKE, __VA_ARGS__))         \
    }
#endif
