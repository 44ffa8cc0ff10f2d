// P18: the bit pattern of a command is a pure function of its pattern, the target coordinate, the overrides and the
// previous pattern: first descriptor = most significant bit.
#include <common/vh.h>
#include <DRAMPower/command/Command.h>
#include <DRAMPower/command/Pattern.h>
#include <DRAMPower/util/PatternHandler.h>
#include <DRAMPower/standards/lpddr6/LPDDR6Command.h>
#include <DRAMPower/standards/lpddr6/LPDDR6Pattern.h>
#include <sstream>
#include <memory>
#include <stdexcept>
using namespace DRAMPower;
using namespace vh;
namespace pd = pattern_descriptor;
namespace p6 = pattern_descriptor_LPDDR6;

// ---- reference: what every descriptor of the common (DDR4/DDR5/LPDDR4/LPDDR5) alphabet stands for
struct D { pd::t d; char src; unsigned bit; bool overridable; bool dflt; };
// src: H,L constants; B bank, G bank group, C column, R row, 0 = not driven, P = programmable with default
static const std::vector<D>& table() {
    using namespace pd;
    static const std::vector<D> t = {
        {H,'H',0,0,0},{L,'L',0,0,0},
        {V,'P',0,1,false},{X,'P',0,1,false},{AP,'P',0,1,false},
        {BL,'P',0,1,true},{CID0,'P',0,1,true},{CID1,'P',0,1,true},{CID2,'P',0,1,true},{CID3,'P',0,1,true},
        {BA0,'B',0,0,0},{BA1,'B',1,0,0},{BA2,'B',2,0,0},{BA3,'B',3,0,0},{BA4,'B',4,0,0},{BA5,'B',5,0,0},{BA6,'B',6,0,0},{BA7,'B',7,0,0},{BA8,'B',8,0,0},
        {BG0,'G',0,0,0},{BG1,'G',1,0,0},{BG2,'G',2,0,0},
        {C0,'C',0,1,0},{C1,'C',1,1,0},{C2,'C',2,1,0},{C3,'C',3,1,0},{C4,'C',4,1,0},{C5,'C',5,0,0},{C6,'C',6,0,0},{C7,'C',7,0,0},
        {C8,'C',8,0,0},{C9,'C',9,0,0},{C10,'C',10,1,0},{C11,'C',11,0,0},{C12,'C',12,0,0},{C13,'C',13,0,0},{C14,'C',14,0,0},{C15,'C',15,0,0},{C16,'C',16,0,0},
        {R0,'R',0,0,0},{R1,'R',1,0,0},{R2,'R',2,0,0},{R3,'R',3,0,0},{R4,'R',4,0,0},{R5,'R',5,0,0},{R6,'R',6,0,0},{R7,'R',7,0,0},{R8,'R',8,0,0},{R9,'R',9,0,0},
        {R10,'R',10,0,0},{R11,'R',11,0,0},{R12,'R',12,0,0},{R13,'R',13,0,0},{R14,'R',14,0,0},{R15,'R',15,0,0},{R16,'R',16,0,0},{R17,'R',17,0,0},{R18,'R',18,0,0},{R19,'R',19,0,0},
        {R20,'R',20,0,0},{R21,'R',21,0,0},{R22,'R',22,0,0},{R23,'R',23,0,0},
    };
    return t;
}
using OvMap = std::map<int, PatternEncoderBitSpec>;
static bool refBit(const D& d, const TargetCoordinate& c, const OvMap& ov, bool prev) {
    if (d.overridable) {
        auto it = ov.find(int(d.d));
        if (it != ov.end()) switch (it->second) {
            case PatternEncoderBitSpec::L: return false;
            case PatternEncoderBitSpec::H: return true;
            case PatternEncoderBitSpec::LAST_BIT: return prev;
            default: break;
        }
    }
    switch (d.src) {
    case 'H': return true; case 'L': return false; case 'P': return d.dflt;
    case 'B': return (c.bank >> d.bit) & 1; case 'G': return (c.bankGroup >> d.bit) & 1;
    case 'C': return (c.column >> d.bit) & 1; case 'R': return (c.row >> d.bit) & 1;
    }
    return false;
}
static uint64_t refEncode(const std::vector<D>& pat, const TargetCoordinate& c, const OvMap& ov, uint64_t last) {
    uint64_t v = 0; size_t n = pat.size();
    for (size_t i = 0; i < n; ++i) { size_t pos = n - 1 - i; if (refBit(pat[i], c, ov, (last >> pos) & 1)) v |= 1ull << pos; }
    return v;
}
static TargetCoordinate rndCoord(Rng& g) {
    auto f = [&](unsigned bits) -> size_t { switch (g.below(5)) { case 0: return 0; case 1: return (1ull << bits) - 1; case 2: return 1ull << g.below(bits); case 3: return g.next() & 0xffffffffu; default: return g.below(1ull << bits); } };
    TargetCoordinate c(f(9), f(3), g.below(4), f(24), f(17));
    return c;
}
static std::vector<D> rndPattern(Rng& g) {
    size_t n; switch (g.below(6)) { case 0: n = 1; break; case 1: n = 64; break; case 2: n = g.range(60, 64); break; default: n = g.range(2, 40); }
    std::vector<D> p; unsigned style = unsigned(g.below(3));
    for (size_t i = 0; i < n; ++i) {
        if (style == 0 && g.coin()) { std::vector<D> o; for (auto& d : table()) if (d.overridable) o.push_back(d); p.push_back(g.pick(o)); }
        else p.push_back(g.pick(table()));
    }
    return p;
}
static std::vector<pd::t> descs(const std::vector<D>& p) { std::vector<pd::t> r; for (auto& d : p) r.push_back(d.d); return r; }
static std::string show(const std::vector<D>& p, const TargetCoordinate& c, const OvMap& ov, uint64_t last) {
    std::ostringstream o; o << "pattern["; for (auto& d : p) o << int(d.d) << ' '; o << "] bank=" << c.bank << " bg=" << c.bankGroup << " row=" << c.row << " col=" << c.column << " last=" << last << " ov{";
    for (auto& k : ov) o << k.first << ':' << int(k.second) << ' '; o << '}'; return o.str();
}
static PatternEncoderBitSpec rndSpec(Rng& g) { return g.pick({PatternEncoderBitSpec::L, PatternEncoderBitSpec::H, PatternEncoderBitSpec::LAST_BIT}); }

enum class Cmd { A, B, C, D4, E, F, COUNT };
using PH = PatternHandler<Cmd>;

VH_PART(history, 6) {
    auto& g = ctx.rng;
    OvMap ov; BasePatternEncoderOverrides<pd::t> init;
    if (g.coin()) {
        auto a = g.pick(table()), b = g.pick(table()); auto sa = rndSpec(g), sb = rndSpec(g);
        init = BasePatternEncoderOverrides<pd::t>{{a.d, sa}, {b.d, sb}};
        ov[a.d] = sa; if (!ov.count(b.d)) ov[b.d] = sb;
    }
    uint64_t last = g.coin() ? 0 : g.next();
    auto h = std::make_unique<PH>(init, last);
    std::array<std::vector<D>, 6> pats; std::array<bool, 6> reg{};
    // a second handler with its own configuration and history is used in turns with the first: neither may see the other's
    std::unique_ptr<PH> oh; OvMap oov; uint64_t olast = 0; std::array<std::vector<D>, 6> opats; std::array<bool, 6> oreg{};
    auto turn = [&] { if (oh) { std::swap(h, oh); std::swap(ov, oov); std::swap(last, olast); std::swap(pats, opats); std::swap(reg, oreg); } };
    auto put = [&](auto& H, int i, const std::vector<D>& p) {
        auto d = descs(p);
        switch (i) { case 0: H.template registerPattern<Cmd::A>(d); break; case 1: H.template registerPattern<Cmd::B>(d); break; case 2: H.template registerPattern<Cmd::C>(d); break;
                     case 3: H.template registerPattern<Cmd::D4>(d); break; case 4: H.template registerPattern<Cmd::E>(d); break; default: H.template registerPattern<Cmd::F>(d); }
    };
    auto regOne = [&](int i) { pats[i] = rndPattern(g); reg[i] = true; put(*h, i, pats[i]); };
    for (int i = 0; i < 6; ++i) if (g.chance(2, 3)) regOne(i);
    uint64_t fp = 0; int steps = int(g.range(4, 30));
    if (g.chance(1, 3)) { olast = g.next(); oh = std::make_unique<PH>(BasePatternEncoderOverrides<pd::t>{}, olast); turn(); for (int i = 0; i < 6; ++i) if (g.coin()) regOne(i); }
    for (int s = 0; s < steps; ++s) {
        if (g.chance(1, 3)) turn();
        switch (g.below(8)) {
        case 0: { auto d = g.pick(table()); auto sp = rndSpec(g); h->getEncoder().settings.updateSettings({{d.d, sp}}); ov[d.d] = sp; break; }
        case 1: { auto d = g.pick(table()); bool had = ov.erase(int(d.d)) > 0; ctx.eq(h->getEncoder().settings.removeSetting(d.d), had, "override.remove", "removeSetting of descriptor " + std::to_string(d.d)); break; }
        case 2: { auto d = g.pick(table()); bool has = ov.count(d.d);
            ctx.eq(h->getEncoder().settings.hasSetting(d.d), has, "override.has", "descriptor " + std::to_string(d.d));
            ctx.eq(int(h->getEncoder().settings.getSetting(d.d)), has ? int(ov[d.d]) : int(PatternEncoderBitSpec::INVALID), "override.get", "descriptor " + std::to_string(d.d)); break; }
        case 3: if (g.chance(1, 3)) regOne(int(g.below(6))); break;
        case 4: { // an unregistered command is refused and leaves the history alone; ad-hoc coordinate patterns join it
            auto p = rndPattern(g); auto c = rndCoord(g);
            uint64_t want = refEncode(p, c, ov, last);
            uint64_t got = h->getCoordinatePattern(c, descs(p));
            ctx.eq(got, want, "encode.adhoc", show(p, c, ov, last)); last = want; break; }
        case 5: if (g.chance(1, 3)) { // snapshot mid-history, restore into a handler of the same configuration
            std::stringstream ss; h->serialize(ss);
            auto h2 = std::make_unique<PH>(BasePatternEncoderOverrides<pd::t>{}, 0);
            for (int i = 0; i < 6; ++i) if (reg[i]) put(*h2, i, pats[i]);
            h2->deserialize(ss); ctx.check(bool(ss), "snapshot.short", "restore ran past the snapshot"); h = std::move(h2); ctx.count("restores"); }
            else { // a copy takes over; the original may stay in use beside it, and a handler in use may be assigned over
                auto h2 = std::make_unique<PH>(*h);
                if (g.coin()) { if (oh && g.coin()) *oh = *h; else oh = std::make_unique<PH>(*h); oov = ov; olast = last; opats = pats; oreg = reg; }
                h = std::move(h2); ctx.count("copies"); } break;
        default: {
            int i = int(g.below(6)); auto c = rndCoord(g);
            if (!reg[i]) {
                bool threw = false; try { (void)h->getCommandPattern(Cmd(i), c); } catch (const std::runtime_error&) { threw = true; }
                ctx.check(threw, "unregistered.accepted", "command without pattern was encoded"); ctx.count("unregistered"); break;
            }
            uint64_t want = refEncode(pats[i], c, ov, last);
            uint64_t got = h->getCommandPattern(Cmd(i), c);
            ctx.eq(got, want, "encode.command", show(pats[i], c, ov, last));
            ctx.check(h->getPattern(Cmd(i)) == descs(pats[i]), "pattern.registered", "registered pattern changed");
            ctx.count("encodings"); ctx.count("bits", pats[i].size()); ctx.eval(pats[i].size());
            last = want; fp = mix(fp, want);
        } }
    }
    bool threw = false; try { (void)h->getCoordinatePattern(TargetCoordinate{}, {}); } catch (const std::runtime_error&) { threw = true; }
    ctx.check(threw, "empty.accepted", "empty pattern was encoded");
    ctx.fp(fp); if (g.chance(1, 500)) ctx.sample("history of " + std::to_string(steps) + " steps, final pattern " + std::to_string(last));
}

// one coordinate bit at a time: the bit shows up at exactly the positions of its descriptor
VH_PART(sensitivity, 3) {
    auto& g = ctx.rng; auto p = rndPattern(g); auto ds = descs(p); size_t n = p.size();
    TargetCoordinate c = rndCoord(g); BasePatternEncoderOverrides<pd::t> none;
    uint64_t last = g.next();
    uint64_t base = DefaultEncoder::encode(c, ds, none, last, {});
    ctx.eq(base, refEncode(p, c, {}, last), "encode.plain", show(p, c, {}, last));
    for (auto& d : table()) {
        if (d.src != 'B' && d.src != 'G' && d.src != 'C' && d.src != 'R') continue;
        TargetCoordinate c2 = c;
        (d.src == 'B' ? c2.bank : d.src == 'G' ? c2.bankGroup : d.src == 'C' ? c2.column : c2.row) ^= (1ull << d.bit);
        c2.rank = g.below(16);
        uint64_t diff = base ^ DefaultEncoder::encode(c2, ds, none, g.next(), {}), want = 0;
        for (size_t i = 0; i < n; ++i) if (p[i].d == d.d) want |= 1ull << (n - 1 - i);
        ctx.eq(diff, want, "encode.sensitivity", "flipping bit " + std::to_string(d.bit) + " of field " + d.src + ": " + show(p, c, {}, last));
    }
    ctx.fp(mix(base, n)); ctx.count("sensitivity_patterns");
}

// ---- LPDDR6
VH_PART(lpddr6, 5) {
    auto& g = ctx.rng;
    static const std::vector<p6::t> all = [] { std::vector<p6::t> v; for (int i = int(p6::H); i <= int(p6::SC); ++i) v.push_back(p6::t(i)); return v; }();
    LPDDR6PatternExtraData ex; ex.numberOfBankGroups = g.pick({1u, 2u, 4u, 4u, 4u, 8u, 16u}); ex.currentBurstLength = g.coin() ? 24 : 48; ex.parity_check_mode = g.coin();
    LPDDR6TargetCoordinate c;
    TargetCoordinate tc = rndCoord(g);
    if (g.coin()) {
        tc.bank = g.below(16); c = LPDDR6TargetCoordinate(tc);
        ctx.eq(c.bank, tc.bank, "lp6.coord", "bank"); ctx.eq(c.dbank, (tc.bank + 8) % 16, "lp6.coord.dbank", "bank " + std::to_string(tc.bank));
        ctx.eq(c.bankGroup, tc.bankGroup, "lp6.coord", "bank group"); ctx.eq(c.rank, tc.rank, "lp6.coord", "rank"); ctx.eq(c.row, tc.row, "lp6.coord", "row");
        ctx.eq(c.column, tc.column, "lp6.coord", "column"); ctx.eq(c.subChannel, size_t(0), "lp6.coord", "sub channel");
    } else { c.bank = tc.bank; c.dbank = g.below(32); c.bankGroup = tc.bankGroup; c.row = tc.row; c.column = tc.column; c.subChannel = g.below(3); }
    unsigned cmds = unsigned(g.range(1, 4)); std::vector<p6::t> pat; std::vector<int> parPos(cmds, -1);
    for (unsigned k = 0; k < cmds; ++k) {
        int par = g.chance(3, 4) ? (g.chance(2, 3) ? 3 : int(g.below(16))) : -1;
        for (int i = 0; i < 16; ++i) pat.push_back(i == par ? p6::PAR : g.pick(all));
        parPos[k] = par;
    }
    size_t n = pat.size();
    auto bitOf = [&](p6::t d) -> bool {
        using namespace p6;
        switch (d) {
        case H: return true; case L: case V: case X: return false;
        case BG0: return c.bankGroup & 1; case BG1: return c.bankGroup >> 1 & 1;
        case BA0: return c.bank & 1; case BA1: return c.bank >> 1 & 1;
        case DBG0: return (c.dbank / ex.numberOfBankGroups) & 1; case DBG1: return (c.dbank / ex.numberOfBankGroups) >> 1 & 1;
        case C0: return ex.currentBurstLength == 24 && (c.column & 1);
        case C1: return c.column >> 1 & 1; case C2: return c.column >> 2 & 1; case C3: return c.column >> 3 & 1; case C4: return c.column >> 4 & 1; case C5: return c.column >> 5 & 1;
        case BL: return ex.currentBurstLength == 24;
        case SC: return c.subChannel == 1;
        default: break;
        }
        if (d >= R0 && d <= R16) return c.row >> (int(d) - int(R0)) & 1;
        return false;
    };
    uint64_t want = 0;
    for (unsigned k = 0; k < cmds; ++k) {
        bool par = false;
        for (int i = 0; i < 16; ++i) { size_t pos = n - 1 - (16 * k + size_t(i)); if (pat[16 * k + i] != p6::PAR && bitOf(pat[16 * k + i])) { want |= 1ull << pos; par = !par; } }
        if (ex.parity_check_mode && parPos[k] >= 0 && par) want |= 1ull << (n - 1 - (16 * k + size_t(parPos[k])));
    }
    PatternHandler<Cmd, p6::t, LPDDR6TargetCoordinate, LPDDR6Encoder, LPDDR6PatternExtraData> ph{BasePatternEncoderOverrides<p6::t>{}};
    ph.getEncoder().setExtraData(ex); ph.registerPattern<Cmd::C>(pat);
    if (g.chance(1, 4)) { std::stringstream ss; ph.serialize(ss); PatternHandler<Cmd, p6::t, LPDDR6TargetCoordinate, LPDDR6Encoder, LPDDR6PatternExtraData> q{BasePatternEncoderOverrides<p6::t>{}};
        q.getEncoder().getExtraData().numberOfBankGroups = ex.numberOfBankGroups; q.registerPattern<Cmd::C>(pat); q.deserialize(ss); ph = q; ctx.count("restores"); }
    uint64_t got = ph.getCommandPattern(Cmd::C, c);
    std::ostringstream w; w << "bank=" << c.bank << " dbank=" << c.dbank << " bg=" << c.bankGroup << " row=" << c.row << " col=" << c.column << " BL=" << ex.currentBurstLength << " parity=" << ex.parity_check_mode << " groups=" << ex.numberOfBankGroups << " pattern["; for (auto d : pat) w << int(d) << ' '; w << ']';
    ctx.eq(got, want, ex.parity_check_mode && (got ^ want) ? "lp6.encode.parity" : "lp6.encode", w.str());
    ctx.count(ex.parity_check_mode ? "lp6_parity" : "lp6_plain"); ctx.fp(mix(want, n)); ctx.eval(n);
    if (g.chance(1, 800)) ctx.sample(w.str());
}

// commands carry exactly what they were built from
VH_PART(commands, 1) {
    auto& g = ctx.rng; uint8_t buf[4] = {1, 2, 3, 4};
    auto c = rndCoord(g); uint64_t t = g.next(); auto ty = CmdType(g.below(size_t(CmdType::COUNT))); size_t sz = g.below(4096);
    Command k(t, ty, c, buf, sz); LPDDR6Command k6(k);
    auto same = [&](auto& x, const char* w) {
        ctx.eq(x.timestamp, t, "command.time", w); ctx.check(x.type == ty, "command.type", w); ctx.check(x.data == buf, "command.data", w); ctx.eq(x.sz_bits, sz, "command.size", w);
        ctx.eq(x.targetCoordinate.bank, c.bank, "command.coord", w); ctx.eq(x.targetCoordinate.bankGroup, c.bankGroup, "command.coord", w); ctx.eq(x.targetCoordinate.rank, c.rank, "command.coord", w);
        ctx.eq(x.targetCoordinate.row, c.row, "command.coord", w); ctx.eq(x.targetCoordinate.column, c.column, "command.coord", w);
    };
    same(k, "Command"); same(k6, "LPDDR6Command");
    ctx.eq(k6.targetCoordinate.dbank, (c.bank + 8) % 16, "command.coord.dbank", "LPDDR6Command");
    LPDDR6Command d6(t, ty, c, buf, sz); same(d6, "LPDDR6Command direct");
    TargetCoordinate c3(c.bank, c.bankGroup, c.rank), c4(c.bank, c.bankGroup, c.rank, c.row);
    ctx.check(c3.bank == c.bank && c3.bankGroup == c.bankGroup && c3.rank == c.rank && c3.row == 0 && c3.column == 0, "command.coord3", "three field coordinate");
    ctx.check(c4.bank == c.bank && c4.bankGroup == c.bankGroup && c4.rank == c.rank && c4.row == c.row && c4.column == 0, "command.coord4", "four field coordinate");
    ctx.fp(mix(t, sz));
}
