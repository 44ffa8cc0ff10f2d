// P24: every command reaches exactly the handler registered for its type, with its fields intact; command names map
// one-to-one; unregistered types reach the default handler.
#include <common/vh.h>
#include <DRAMPower/util/Router.h>
#include <DRAMPower/command/CmdType.h>
#include <DRAMPower/command/Command.h>
using namespace DRAMPower;
using namespace vh;
static const std::pair<CmdType, const char*> NAMES[] = {{CmdType::NOP, "NOP"}, {CmdType::RD, "RD"}, {CmdType::WR, "WR"}, {CmdType::RDA, "RDA"}, {CmdType::WRA, "WRA"}, {CmdType::ACT, "ACT"}, {CmdType::PRE, "PRE"}, {CmdType::REFB, "REFB"}, {CmdType::REFP2B, "REFP2B"}, {CmdType::REFDB, "REFDB"}, {CmdType::PRESB, "PRESB"}, {CmdType::REFSB, "REFSB"}, {CmdType::PREA, "PREA"}, {CmdType::REFA, "REFA"}, {CmdType::PDEA, "PDEA"}, {CmdType::PDEP, "PDEP"}, {CmdType::PDXA, "PDXA"}, {CmdType::PDXP, "PDXP"}, {CmdType::SREFEN, "SREFEN"}, {CmdType::SREFEX, "SREFEX"}, {CmdType::DSMEN, "DSMEN"}, {CmdType::DSMEX, "DSMEX"}};
template <CmdType... C> struct L {};
using All = L<CmdType::NOP, CmdType::RD, CmdType::WR, CmdType::RDA, CmdType::WRA, CmdType::ACT, CmdType::PRE, CmdType::REFB, CmdType::REFP2B, CmdType::REFDB, CmdType::PRESB, CmdType::REFSB, CmdType::PREA, CmdType::REFA, CmdType::PDEA, CmdType::PDEP, CmdType::PDXA, CmdType::PDXP, CmdType::SREFEN, CmdType::SREFEX, CmdType::DSMEN, CmdType::DSMEX, CmdType::END_OF_SIMULATION>;
template <class F, CmdType... C> static void each(F&& f, L<C...>) { (f(std::integral_constant<CmdType, C>{}), ...); }

VH_PART(router, 3) {
    auto& g = ctx.rng; int def = 0; std::vector<int> want(size_t(CmdType::COUNT), -1), hits; const Command* seen = nullptr; bool hasDef = g.coin(); std::ostringstream W;
    using R = Router<CmdType>;
    R r = hasDef ? R(R::commandHandler_t([&](const Command& c) { ++def; seen = &c; hits.push_back(-1); })) : R(std::nullopt); ctx.eq(r.size(), size_t(CmdType::COUNT), "router.size", "size");
    int tag = 0;
    auto reg = [&] { each([&](auto c) { if (!g.chance(1, 3)) return; int t = tag++; want[size_t(c.value)] = t; r.template routeCommand<decltype(c)::value>([&hits, &seen, t](const Command& x) { hits.push_back(t); seen = &x; }); W << " " << CmdTypeUtil::to_string(c.value) << "->" << t; }, All{}); };
    reg(); uint64_t f = hasDef;
    for (int s = 0; s < 40; ++s) {
        if (g.chance(1, 15)) reg(); // later registrations replace earlier ones
        if (g.chance(1, 20)) { R c = r; r = std::move(c); }
        auto t = CmdType(g.below(size_t(CmdType::COUNT))); uint8_t d[4]; Command c(g.next(), t, {g.next(), g.next(), g.next(), g.next(), g.next()}, d, g.below(1000)); hits.clear(); seen = nullptr; r.executeCommand(c); ctx.count("dispatched");
        int w = want[size_t(t)]; std::vector<int> exp; if (w >= 0 || hasDef) exp.push_back(w);
        ctx.check(hits == exp, "router.dispatch", W.str() + " executing " + CmdTypeUtil::to_string(t)); ctx.check(exp.empty() ? !seen : seen == &c, "router.argument", W.str()); f = mix(f, size_t(t) * 64 + size_t(w + 1));
    }
    ctx.fp(f);
}
VH_PART(command_fields, 2) {
    auto& g = ctx.rng; size_t b = g.next(), bg = g.next(), r = g.next(), row = g.next(), col = g.next(); uint8_t d; uint64_t ts = g.next(); size_t n = g.next(); auto t = CmdType(g.below(size_t(CmdType::COUNT)));
    auto same = [&](const TargetCoordinate& c, size_t x, size_t y, const char* k) { ctx.check(c.bank == b && c.bankGroup == bg && c.rank == r && c.row == x && c.column == y, k, "coordinate fields"); };
    same(TargetCoordinate(b, bg, r), 0, 0, "coord3"); same(TargetCoordinate(b, bg, r, row), row, 0, "coord4"); same(TargetCoordinate(b, bg, r, row, col), row, col, "coord5");
    Command c(ts, t, {b, bg, r, row, col}, &d, n); same(c.targetCoordinate, row, col, "command.coord"); ctx.check(c.timestamp == ts && c.type == t && c.data == &d && c.sz_bits == n, "command.fields", "fields");
    Command e(ts, t); ctx.check(e.timestamp == ts && e.type == t && e.data == nullptr && e.sz_bits == 0 && e.targetCoordinate.bank == 0 && e.targetCoordinate.row == 0 && e.targetCoordinate.rank == 0, "command.defaults", "defaults");
    Command k = c; same(k.targetCoordinate, row, col, "command.copy"); ctx.check(k.data == &d && k.sz_bits == n && k.type == t && k.timestamp == ts, "command.copy", "copy"); ctx.fp(mix(b, n));
}
VH_PART(names, 1) {
    auto& g = ctx.rng; using namespace CmdTypeUtil; std::set<std::string> seen; std::set<int> types;
    for (auto& p : NAMES) { std::string s(p.second); ctx.eq(std::string(to_string(p.first)), s, "name.print", s); ctx.check(from_string(s) == p.first, "name.parse", s); seen.insert(to_string(p.first)); types.insert(int(p.first));
        std::string pad = s + "x"; ctx.check(from_string(std::string_view(pad).substr(0, s.size())) == p.first, "name.parse", s + " as part of a longer buffer"); std::ostringstream o; o << p.first; ctx.eq(o.str(), s, "name.stream", s);
        bool data = s == "RD" || s == "RDA" || s == "WR" || s == "WRA"; ctx.eq(needs_data(p.first), data, "name.needs_data", s); }
    ctx.eq(seen.size(), std::size(NAMES), "name.distinct", "names"); ctx.eq(types.size(), size_t(CmdType::COUNT) - 1, "name.complete", "every command type has a name"); ctx.check(from_string("END") == CmdType::END_OF_SIMULATION, "name.end", "END"); ctx.check(!needs_data(CmdType::END_OF_SIMULATION), "name.needs_data", "END");
    for (int i = 0; i < 30; ++i) { std::string s = g.coin() ? g.pick({"RD", "REFA", "PDXA", "ACT", "PRESB", "END"}) : ""; unsigned n = unsigned(g.below(4)); for (unsigned k = 0; k < n; ++k) { char c = char(g.chance(1, 3) ? g.next() : 'A' + g.below(26)); s.insert(s.begin() + long(g.below(s.size() + 1)), c); } if (g.chance(1, 6)) for (auto& c : s) c = char(tolower(c));
        CmdType want = CmdType::NOP; for (auto& p : NAMES) if (s == p.second) want = p.first; if (s == "END") want = CmdType::END_OF_SIMULATION; ctx.check(from_string(s) == want, "name.unknown", s); ctx.fp(hashStr(s)); }
}
