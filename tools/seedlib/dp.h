// Small helpers shared by the demonstrations.
#pragma once
#include <DRAMPower/standards/ddr4/DDR4.h>
#include <DRAMPower/standards/ddr5/DDR5.h>
#include <DRAMPower/standards/lpddr4/LPDDR4.h>
#include <DRAMPower/standards/lpddr5/LPDDR5.h>
#include <DRAMPower/standards/lpddr6/LPDDR6.h>
#include <DRAMUtils/memspec/MemSpec.h>
#include <fstream>
#include <iostream>
#include <sstream>
#include <cstdlib>
#include <cmath>
using namespace DRAMPower;
using nlohmann::json;
template <class Doc> Doc doc(const char* file, const json& patch = json::object()) {
    std::ifstream f(std::string(std::getenv("REPO")) + "/tests/tests_drampower/resources/" + file);
    json j = json::parse(f, nullptr, true, true)["memspec"]; j.merge_patch(patch); return j.get<Doc>();
}
inline DRAMUtils::MemSpec::MemSpecDDR4 ddr4(const json& p = json::object()) { return doc<DRAMUtils::MemSpec::MemSpecDDR4>("ddr4.json", p); }
inline DRAMUtils::MemSpec::MemSpecDDR5 ddr5(const json& p = json::object()) { return doc<DRAMUtils::MemSpec::MemSpecDDR5>("ddr5.json", p); }
inline DRAMUtils::MemSpec::MemSpecLPDDR4 lpddr4(const json& p = json::object()) { return doc<DRAMUtils::MemSpec::MemSpecLPDDR4>("lpddr4.json", p); }
inline DRAMUtils::MemSpec::MemSpecLPDDR5 lpddr5(const json& p = json::object()) { return doc<DRAMUtils::MemSpec::MemSpecLPDDR5>("lpddr5.json", p); }
inline DRAMUtils::MemSpec::MemSpecLPDDR6 lpddr6(const json& p = json::object()) { return doc<DRAMUtils::MemSpec::MemSpecLPDDR6>("lpddr6.json", p); }
inline Command cmd(timestamp_t t, CmdType c, std::size_t bank = 0, std::size_t bg = 0, std::size_t rank = 0, std::size_t row = 0, std::size_t col = 0, const uint8_t* d = nullptr, std::size_t bits = 0) {
    return Command(t, c, TargetCoordinate(bank, bg, rank, row, col), d, bits);
}
template <class A, class B> int expect(const char* what, const A& got, const B& want) {
    if (got == want) return 0;
    std::cerr << what << ": got " << got << ", expected " << want << std::endl; return 1;
}
