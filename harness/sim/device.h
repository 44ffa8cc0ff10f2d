// A uniform handle on the five simulators plus helpers to drive them.
#pragma once
#include "sim/refcore.h"
#include <DRAMPower/standards/ddr4/DDR4.h>
#include <DRAMPower/standards/ddr5/DDR5.h>
#include <DRAMPower/standards/lpddr4/LPDDR4.h>
#include <DRAMPower/standards/lpddr5/LPDDR5.h>
#include <DRAMPower/standards/lpddr6/LPDDR6.h>
#include <DRAMPower/data/energy.h>
#include <DRAMPower/simconfig/simconfig.h>
#include <memory>
#include <sstream>
namespace sim {
namespace DP = DRAMPower;
using DP::SimulationStats;
struct Dev {
    virtual ~Dev() = default;
    virtual void both(const DP::Command&) = 0;
    virtual void core(const DP::Command&) = 0;
    virtual void iface(const DP::Command&) = 0;
    virtual SimulationStats window(uint64_t) = 0;
    virtual SimulationStats stats() = 0;
    virtual DP::energy_t coreE(const SimulationStats&) = 0;
    virtual DP::interface_energy_info_t ifE(const SimulationStats&) = 0;
    virtual DP::energy_t coreAt(uint64_t) = 0;
    virtual DP::interface_energy_info_t ifAt(uint64_t) = 0;
    virtual double total(uint64_t) = 0;
    virtual uint64_t last() = 0;
    virtual bool serializable() = 0;
    virtual void ser(std::ostream&) = 0;
    virtual void deser(std::istream&) = 0;
    virtual std::unique_ptr<Dev> copy() = 0;
    virtual std::unique_ptr<Dev> moved() = 0;
    virtual void assign(const Dev&) = 0;
    virtual void moveAssign(Dev&) = 0;
    virtual bool hasDBI() = 0;
    virtual bool setDBI(uint64_t, bool) = 0;
    virtual bool dbi() = 0;
    virtual void setMeta(uint16_t, uint16_t) {}
    virtual std::pair<uint16_t, uint16_t> meta() { return {0, 0}; }
    virtual void setParity(bool) {}
    virtual void power(uint64_t, bool) {}
    virtual bool parity() { return false; }
    virtual bool powered() { return true; }
    virtual DP::util::CLIArchitectureConfig arch() = 0;
};
template <class D> struct DevT : Dev {
    D d;
    explicit DevT(const D& x) : d(x) {}
    explicit DevT(D&& x) : d(std::move(x)) {}
    template <class M> DevT(const M& m, const DP::config::SimConfig& c) : d(m, c) {}
    void both(const DP::Command& c) override { d.doCommand(c); }
    void core(const DP::Command& c) override { d.doCoreCommand(c); }
    void iface(const DP::Command& c) override { d.doInterfaceCommand(c); }
    SimulationStats window(uint64_t t) override { return d.getWindowStats(t); }
    SimulationStats stats() override { return d.getStats(); }
    DP::energy_t coreE(const SimulationStats& s) override { return d.calcCoreEnergyStats(s); }
    DP::interface_energy_info_t ifE(const SimulationStats& s) override { return d.calcInterfaceEnergyStats(s); }
    DP::energy_t coreAt(uint64_t t) override { return d.calcCoreEnergy(t); }
    DP::interface_energy_info_t ifAt(uint64_t t) override { return d.calcInterfaceEnergy(t); }
    double total(uint64_t t) override { return d.getTotalEnergy(t); }
    uint64_t last() override { return d.getLastCommandTime(); }
    bool serializable() override { return d.isSerializable(); }
    void ser(std::ostream& o) override { d.serialize(o); }
    void deser(std::istream& i) override { d.deserialize(i); }
    std::unique_ptr<Dev> copy() override { return std::make_unique<DevT<D>>(d); }
    std::unique_ptr<Dev> moved() override { return std::make_unique<DevT<D>>(std::move(d)); }
    void assign(const Dev& o) override { d = static_cast<const DevT<D>&>(o).d; }
    void moveAssign(Dev& o) override { d = std::move(static_cast<DevT<D>&>(o).d); }
    bool hasDBI() override { return d.getExtensionManager().template hasExtension<DP::extensions::DBI>(); }
    bool setDBI(uint64_t t, bool on) override { bool r = false; d.getExtensionManager().template withExtension<DP::extensions::DBI>([&](DP::extensions::DBI& x) { r = x.enable(t, on); }); return r; }
    bool dbi() override { bool r = false; d.getExtensionManager().template withExtension<DP::extensions::DBI>([&](DP::extensions::DBI& x) { r = x.isEnabled(); }); return r; }
    void setMeta(uint16_t a, uint16_t b) override { d.getExtensionManager().template withExtension<DP::extensions::MetaData>([&](DP::extensions::MetaData& x) { x.setMetaData(a, b); }); }
    std::pair<uint16_t, uint16_t> meta() override { std::pair<uint16_t, uint16_t> r; d.getExtensionManager().template withExtension<DP::extensions::MetaData>([&](DP::extensions::MetaData& x) { auto t = x.getMetaData(); r = {std::get<0>(t), std::get<1>(t)}; }); return r; }
    void setParity(bool on) override { if constexpr (std::is_same_v<D, DP::LPDDR6>) d.getInterface().setParityCheckMode(on); }
    void power(uint64_t t, bool on) override { if constexpr (std::is_same_v<D, DP::LPDDR6>) { if (on) d.getInterface().enable(t); else d.getInterface().disable(t); } }
    bool parity() override { if constexpr (std::is_same_v<D, DP::LPDDR6>) return d.getInterface().getParityCheckMode(); else return false; }
    bool powered() override { if constexpr (std::is_same_v<D, DP::LPDDR6>) return d.getInterface().isEnabled(); else return true; }
    DP::util::CLIArchitectureConfig arch() override { return d.getCLIArchitectureConfig(); }
};
inline std::unique_ptr<Dev> makeDev(const Spec& s, const DP::config::SimConfig& c = {}) {
    using namespace DRAMUtils::MemSpec;
    switch (s.std) {
        case DDR4: return std::make_unique<DevT<DP::DDR4>>(DP::MemSpecDDR4(s.doc.get<MemSpecDDR4>()), c);
        case DDR5: return std::make_unique<DevT<DP::DDR5>>(DP::MemSpecDDR5(s.doc.get<MemSpecDDR5>()), c);
        case LPDDR4: return std::make_unique<DevT<DP::LPDDR4>>(DP::MemSpecLPDDR4(s.doc.get<MemSpecLPDDR4>()), c);
        case LPDDR5: return std::make_unique<DevT<DP::LPDDR5>>(DP::MemSpecLPDDR5(s.doc.get<MemSpecLPDDR5>()), c);
        default: return std::make_unique<DevT<DP::LPDDR6>>(DP::MemSpecLPDDR6(s.doc.get<MemSpecLPDDR6>()), c);
    }
}
inline DP::Command toCommand(const Cmd& c, const uint8_t* data) {
    return DP::Command(c.t, c.type, DP::TargetCoordinate(c.bank, c.bg, c.rank, c.row, c.col), data, c.bits);
}
enum Mode { BOTH, CORE, IFACE };
// The payload lives in an exactly sized heap block that dies right after the call.
inline void drive(Dev& d, const Cmd& c, Mode m = BOTH) {
    std::unique_ptr<uint8_t[]> buf; if (!c.data.empty()) { buf.reset(new uint8_t[c.data.size()]); std::copy(c.data.begin(), c.data.end(), buf.get()); }
    auto cmd = toCommand(c, buf.get());
    if (m == BOTH) d.both(cmd); else if (m == CORE) d.core(cmd); else d.iface(cmd);
}
inline nlohmann::json js(const SimulationStats& s) { nlohmann::json j; DP::to_json(j, s); return j; }
inline std::string diffJson(const nlohmann::json& a, const nlohmann::json& b) {
    auto p = nlohmann::json::diff(a, b); std::string o; int n = 0;
    for (auto& e : p) { if (n++ >= 6) { o += "..."; break; } std::string path = e["path"]; o += path; try { o += " " + a.at(nlohmann::json::json_pointer(path)).dump() + " vs " + b.at(nlohmann::json::json_pointer(path)).dump(); } catch (...) {} o += "; "; }
    return o;
}
// compares two statistics records completely
inline bool same(vh::Ctx& ctx, const SimulationStats& a, const SimulationStats& b, const char* key, const std::string& where) {
    auto x = js(a), y = js(b); ctx.eval();
    if (x == y) return true;
    ctx.fail(key, where + ": " + diffJson(x, y)); return false;
}
inline uint64_t hashStats(const SimulationStats& s) { return vh::hashStr(js(s).dump()); }
inline std::string str(const Cmd& c) { std::ostringstream o; o << c.t << ":" << DP::CmdTypeUtil::to_string(c.type) << "[r" << c.rank << " b" << c.bank; if (c.bits) o << " " << c.bits << "bit"; o << "]"; return o.str(); }
inline std::string str(const std::vector<Cmd>& v, size_t tail = 14) { std::string o; for (size_t i = v.size() > tail ? v.size() - tail : 0; i < v.size(); ++i) o += str(v[i]) + " "; return o; }
} // namespace sim
