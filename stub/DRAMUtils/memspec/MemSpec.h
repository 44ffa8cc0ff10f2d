// Stand-in for DRAMUtils (generated by tools/gen_stub.py).
#ifndef DRAMUTILS_STUB_MEMSPEC_H
#define DRAMUTILS_STUB_MEMSPEC_H
#include <cstdint>
#include <optional>
#include <variant>
#include <fstream>
#include <filesystem>
#include <string_view>
#include <DRAMUtils/memspec/standards/MemSpecDDR4.h>
#include <DRAMUtils/memspec/standards/MemSpecDDR5.h>
#include <DRAMUtils/memspec/standards/MemSpecLPDDR4.h>
#include <DRAMUtils/memspec/standards/MemSpecLPDDR5.h>
#include <DRAMUtils/memspec/standards/MemSpecLPDDR6.h>
namespace DRAMUtils::MemSpec {
class MemSpecVariant {
public:
    using Variant = std::variant<MemSpecDDR4, MemSpecDDR5, MemSpecLPDDR4, MemSpecLPDDR5, MemSpecLPDDR6>;
    const Variant& getVariant() const { return m_v; }
    Variant& getVariant() { return m_v; }
    void setVariant(Variant v) { m_v = std::move(v); }
private:
    Variant m_v;
};
} // namespace DRAMUtils::MemSpec
namespace DRAMUtils {
inline std::optional<MemSpec::MemSpecVariant> parse_memspec_from_json(const nlohmann::json& doc)
{
    const auto it = doc.find("memspec");
    if (it == doc.end()) return std::nullopt;
    const nlohmann::json& j = *it;
    const std::string type = j.value("memoryType", std::string());
    MemSpec::MemSpecVariant v;
    if (type == MemSpec::MemSpecDDR4::id) { v.setVariant(j.get<MemSpec::MemSpecDDR4>()); return v; }
    if (type == MemSpec::MemSpecDDR5::id) { v.setVariant(j.get<MemSpec::MemSpecDDR5>()); return v; }
    if (type == MemSpec::MemSpecLPDDR4::id) { v.setVariant(j.get<MemSpec::MemSpecLPDDR4>()); return v; }
    if (type == MemSpec::MemSpecLPDDR5::id) { v.setVariant(j.get<MemSpec::MemSpecLPDDR5>()); return v; }
    if (type == MemSpec::MemSpecLPDDR6::id) { v.setVariant(j.get<MemSpec::MemSpecLPDDR6>()); return v; }
    return std::nullopt;
}
inline std::optional<MemSpec::MemSpecVariant> parse_memspec_from_file(const std::filesystem::path& path)
{
    std::ifstream in(path);
    if (!in.is_open()) return std::nullopt;
    try {
        return parse_memspec_from_json(nlohmann::json::parse(in, nullptr, true, true));
    } catch (const nlohmann::json::exception&) {
        return std::nullopt;
    }
}
} // namespace DRAMUtils
#endif
