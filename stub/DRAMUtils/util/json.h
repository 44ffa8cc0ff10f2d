// Stand-in for DRAMUtils (not installable offline): JSON alias only.
#ifndef DRAMUTILS_UTIL_JSON_H
#define DRAMUTILS_UTIL_JSON_H
#include <nlohmann/json.hpp>
using json_t = nlohmann::json;
#endif
