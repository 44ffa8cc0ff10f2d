#!/usr/bin/env python3
"""Generates stub/DRAMUtils/memspec/**: plain structs with the members that the JSON
memory specifications in tests/tests_drampower/resources carry. Run once; output committed."""
import json, sys, os
RES = sys.argv[1]; OUT = sys.argv[2]
def load(n):
    return json.load(open(os.path.join(RES, n + '.json')))['memspec']
STD = ['DDR4', 'DDR5', 'LPDDR4', 'LPDDR5', 'LPDDR6']
for s in STD:
    m = load(s.lower())
    o = [f'// Stand-in for DRAMUtils (generated by tools/gen_stub.py from the JSON memory specifications).',
         f'#ifndef DRAMUTILS_STUB_MEMSPEC{s}_H', f'#define DRAMUTILS_STUB_MEMSPEC{s}_H',
         '#include <cstdint>', '#include <optional>', '#include <string>', '#include <iostream>', '#include <numeric>',
         '#include <DRAMUtils/util/json.h>', '#include <DRAMUtils/util/json_utils.h>', '', 'namespace DRAMUtils::MemSpec {']
    if s == 'DDR4':
        o += ['enum class RefModeTypeDDR4 { REF_MODE_1 = 1, REF_MODE_2 = 2, REF_MODE_4 = 4, INVALID = -1 };']
    if s == 'DDR5':
        o += ['enum class RefModeTypeDDR5 { REF_MODE_1 = 1, REF_MODE_2 = 2, INVALID = -1 };']
    if s == 'LPDDR4':
        o += ['enum class pasrModesType { PASR_0 = 0, PASR_1, PASR_2, PASR_3, PASR_4, PASR_5, PASR_6, PASR_7, Invalid = -1 };']
    def struct(name, fields):
        o.append(f'struct {name} {{')
        for t, f in fields:
            o.append(f'    {t} {f}{{}};')
        o.append('};')
        names = [f for _, f in fields]
        # nlohmann's macro takes at most 63 members
        chunks = [names[i:i+60] for i in range(0, len(names), 60)]
        assert len(chunks) == 1, name
        o.append(f'NLOHMANN_JSONIFY_ALL_THINGS({name}, {", ".join(names)})')
    def ty_arch(k):
        if k == 'RefMode': return f'RefModeType{s}'
        if k == 'WCKalwaysOn': return 'bool'
        return 'uint64_t'
    struct(f'MemArchitectureSpecType{s}', [(ty_arch(k), k) for k in m['memarchitecturespec']])
    struct(f'MemPowerSpecType{s}', [('std::optional<double>' if k.startswith('iBeta') else 'double', k) for k in m['mempowerspec']])
    struct(f'MemTimingSpecType{s}', [('double' if k == 'tCK' else 'uint64_t', k) for k in m['memtimingspec']])
    bw = [('std::optional<double>', 'factRho')]
    if s == 'LPDDR4':
        bw += [('std::optional<double>', 'factSigma'), ('std::optional<pasrModesType>', 'pasrMode'), ('std::optional<bool>', 'hasPASR')]
    struct(f'BankWiseSpecType{s}', bw)
    struct(f'MemImpedanceSpecType{s}', [('bool' if k.endswith('termination') else 'double', k) for k in m['memimpedancespec']])
    extra = []
    if s == 'DDR4':
        struct('PrePostambleTypeDDR4', [('uint64_t' if 'Tccd' in k else 'double', k) for k in m['prepostamble']])
        extra = [('PrePostambleTypeDDR4', 'prepostamble')]
    if s == 'DDR5':
        struct('DataRateSpecTypeDDR5', [('uint64_t', k) for k in m['dataratespec']])
        extra = [('std::optional<DataRateSpecTypeDDR5>', 'dataratespec')]
    o.append(f'struct MemSpec{s} {{')
    o.append(f'    static constexpr const char* id = "{s}";')
    o.append('    std::string memoryId;')
    mem = [(f'MemArchitectureSpecType{s}', 'memarchitecturespec'), (f'MemPowerSpecType{s}', 'mempowerspec'),
           (f'MemTimingSpecType{s}', 'memtimingspec'), (f'std::optional<BankWiseSpecType{s}>', 'bankwisespec'),
           (f'MemImpedanceSpecType{s}', 'memimpedancespec')] + extra
    for t, f in mem:
        o.append(f'    {t} {f}{{}};')
    o.append('};')
    o.append(f'NLOHMANN_JSONIFY_ALL_THINGS(MemSpec{s}, memoryId, {", ".join(f for _, f in mem)})')
    o += ['} // namespace DRAMUtils::MemSpec', '#endif', '']
    open(os.path.join(OUT, 'standards', f'MemSpec{s}.h'), 'w').write('\n'.join(o))
o = ['// Stand-in for DRAMUtils (generated by tools/gen_stub.py).', '#ifndef DRAMUTILS_STUB_MEMSPEC_H', '#define DRAMUTILS_STUB_MEMSPEC_H',
     '#include <cstdint>', '#include <optional>', '#include <variant>', '#include <fstream>', '#include <filesystem>', '#include <string_view>']
o += [f'#include <DRAMUtils/memspec/standards/MemSpec{s}.h>' for s in STD]
o += ['namespace DRAMUtils::MemSpec {', 'class MemSpecVariant {', 'public:',
      '    using Variant = std::variant<' + ', '.join(f'MemSpec{s}' for s in STD) + '>;',
      '    const Variant& getVariant() const { return m_v; }', '    Variant& getVariant() { return m_v; }',
      '    void setVariant(Variant v) { m_v = std::move(v); }', 'private:', '    Variant m_v;', '};',
      '} // namespace DRAMUtils::MemSpec', 'namespace DRAMUtils {',
      'inline std::optional<MemSpec::MemSpecVariant> parse_memspec_from_json(const nlohmann::json& doc)', '{',
      '    const auto it = doc.find("memspec");', '    if (it == doc.end()) return std::nullopt;',
      '    const nlohmann::json& j = *it;',
      '    const std::string type = j.value("memoryType", std::string());', '    MemSpec::MemSpecVariant v;']
for s in STD:
    o.append(f'    if (type == MemSpec::MemSpec{s}::id) {{ v.setVariant(j.get<MemSpec::MemSpec{s}>()); return v; }}')
o += ['    return std::nullopt;', '}',
      'inline std::optional<MemSpec::MemSpecVariant> parse_memspec_from_file(const std::filesystem::path& path)', '{',
      '    std::ifstream in(path);', '    if (!in.is_open()) return std::nullopt;', '    try {',
      '        return parse_memspec_from_json(nlohmann::json::parse(in, nullptr, true, true));',
      '    } catch (const nlohmann::json::exception&) {', '        return std::nullopt;', '    }', '}',
      '} // namespace DRAMUtils', '#endif', '']
open(os.path.join(OUT, 'MemSpec.h'), 'w').write('\n'.join(o))
