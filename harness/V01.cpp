// V01: environments admit exactly the usable instructions; lines accept exactly the valid field values.
#include "gen.hpp"
#include "program/line.h"
using namespace gen;
using vh::Rng;

static size_t bitsFor(size_t n)
{
    size_t b = 0;
    while (((unsigned __int128)1 << b) < n) b++;
    return b;
}
static void mute(const std::function<void()>& f)
{
    std::streambuf* old = std::cout.rdbuf(nullptr); // "instruction ignored" notices
    try { f(); }
    catch (...) { std::cout.rdbuf(old); std::cout.clear(); throw; }
    std::cout.rdbuf(old);
    std::cout.clear();
}

static void checkEnv(const EnvBundle& e, const std::vector<const Instructions::Instruction*>& given)
{
    const Environment& env = *e.env;
    VH_CHECK(env.getNbInstructions() == e.usable.size(), "instructions", env.getNbInstructions() << " instructions kept, "
             << e.usable.size() << " expected: " << e.describe());
    size_t k = 0;
    for (size_t i = 0; i < e.chosen.size(); i++) {
        if (k >= e.usable.size() || e.chosen[i] != e.usable[k]) { vh::count("instructions_filtered"); continue; }
        const auto& in = env.getInstructionSet().getInstruction(k);
        bool sameObj = &in == given[i];
        VH_CHECK(sameObj, "instruction order", "instruction " << k << " is not the expected one: " << e.describe());
        VH_CHECK(in.getNbOperands() == pool()[e.usable[k]].ops.size(), "operands", "operand number of " << pool()[e.usable[k]].name);
        for (size_t o = 0; o < in.getNbOperands(); o++)
            VH_CHECK(in.getOperandTypes().at(o).get() == *pool()[e.usable[k]].ops[o].ti, "operand type",
                     "type of operand " << o << " of " << pool()[e.usable[k]].name);
        k++;
        vh::count("instructions_kept");
    }
    VH_THROWS(env.getInstructionSet().getInstruction(e.usable.size()), std::exception, "instruction beyond", "no exception");
    VH_CHECK(env.getNbRegisters() == e.nbRegs && env.getNbConstant() == e.nbConst, "registers", "registers or constants misreported");
    VH_CHECK(env.getMaxNbOperands() == e.maxOps(), "max operands", env.getMaxNbOperands() << " operands for " << e.describe());
    VH_CHECK(env.getNbDataSources() == e.nbSources(), "sources", env.getNbDataSources() << " sources for " << e.describe());
    VH_CHECK(env.getLargestAddressSpace() == e.largest(), "largest", env.getLargestAddressSpace() << " largest space for "
             << e.describe());
    auto& ds = env.getDataSources();
    auto& fs = env.getFakeDataSources();
    VH_CHECK(ds.size() == e.sources.size() && fs.size() == e.nbSources(), "source lists", "wrong number of sources listed");
    size_t off = e.nbConst ? 2 : 1;
    for (size_t i = 0; i < ds.size(); i++)
        VH_CHECK(&ds[i].get() == e.sources[i]->handler.get() && &fs[i + off].get() == e.sources[i]->handler.get(), "source lists",
                 "source " << i << " is not the one given");
    for (auto& d : pool())
        for (auto& t : d.ops)
            for (size_t s = 0; s < e.nbSources(); s++)
                VH_CHECK(fs[s].get().canHandle(*t.ti) == (e.space(t, s) > 0) && fs[s].get().getAddressSpace(*t.ti) == e.space(t, s),
                         "capability", "source " << s << " of " << e.describe() << " misreports operand type " << t.ti->name());
    // Arguments are accepted when their number, their types and their being arrays are those of the operands.
    struct Arg { Data::UntypedSharedPtr p; El el; bool array; };
    std::vector<Arg> args;
    for (auto& d : pool())
        for (auto& t : d.ops) {
            if (args.size() > 60) break;
            for (size_t s = 0; s < e.nbSources(); s++)
                if (e.space(t, s) > 0) args.push_back({fs[s].get().getDataAt(*t.ti, 0), t.el, t.rank > 0});
        }
    uint64_t h = vh::mixs(5, e.describe());
    auto draw = [&](size_t n) { return (size_t)((h = vh::mix(h, n)) >> 20) % n; };
    for (size_t i = 0; i < e.usable.size() && !args.empty(); i++) {
        auto& ops = pool()[e.usable[i]].ops;
        for (int again = 0; again < 8; again++) {
            std::vector<Data::UntypedSharedPtr> v;
            size_t n = draw(8) ? ops.size() : draw(4);
            bool fit = n == ops.size();
            for (size_t o = 0; o < n; o++) {
                size_t a = draw(args.size());
                bool wish = draw(4) && o < ops.size();
                for (size_t k = 0; wish && k < args.size(); k++) {
                    a = (a + 1) % args.size();
                    if (args[a].el == ops[o].el && args[a].array == (ops[o].rank > 0)) break;
                }
                v.push_back(args[a].p);
                fit = fit && args[a].el == ops[o].el && args[a].array == (ops[o].rank > 0);
            }
            const auto& in = env.getInstructionSet().getInstruction(i);
            VH_CHECK(in.checkOperandTypes(v) == fit, "arguments", n << " arguments " << (fit ? "refused" : "accepted") << " by "
                     << pool()[e.usable[i]].name << " in " << e.describe());
            vh::count(fit ? "arguments_accepted" : "arguments_refused");
        }
    }
    const LineSize& ls = env.getLineSize();
    size_t bi = bitsFor(e.usable.size()), bd = bitsFor(e.nbRegs), bs = bitsFor(e.nbSources()), bl = bitsFor(e.largest());
    VH_CHECK(ls.nbOperandDataSourceIndexBits == bs && ls.nbOperandLocationBits == bl && ls.nbOperandsBits == e.maxOps() * (bs + bl),
             "operand bits", "operand bits " << ls.nbOperandDataSourceIndexBits << "," << ls.nbOperandLocationBits << ","
             << ls.nbOperandsBits << " for " << e.describe());
    VH_CHECK(ls.totalNbBits == bi + bd + e.maxOps() * (bs + bl) && (size_t)ls == ls.totalNbBits, "total bits", ls.totalNbBits
             << " bits in all for " << e.describe());
    if (ls.nbInstructionBits == bi && ls.nbDestinationBits == bd) vh::count("line_sizes_right");
    else if (ls.nbInstructionBits == bd && ls.nbDestinationBits == bi) {
        // one report per process, so that the rest is still explored
        static bool once = false;
        vh::count("instruction_destination_bits_exchanged");
        if (!once)
            vh::violation("field bits exchanged", "nbInstructionBits is the width of the destination and conversely: " + e.describe());
        once = true;
    }
    else
        vh::fail("field bits", "instruction bits " + std::to_string(ls.nbInstructionBits) + ", destination bits "
                 + std::to_string(ls.nbDestinationBits) + " for " + e.describe());
}

static uint64_t around(Rng& r, uint64_t bound)
{
    switch (r.below(8)) {
    case 0: return bound;
    case 1: return bound + 1;
    case 2: return bound - 1;
    case 3: return 0;
    case 4: return r.next();
    case 5: return ~0ull;
    case 6: return bound + (1ull << 32);
    default: return r.below(bound + 2);
    }
}

static void unitEnv(Rng& r)
{
    EnvOptions o;
    if (r.chance(0.1)) o.maxDim = 20;
    if (r.chance(0.1)) o.maxRegs = 80;
    if (r.chance(0.1)) o.maxConst = 40;
    auto e = makeEnv(r, o);
    std::vector<const Instructions::Instruction*> given;
    for (auto& i : e->instrStore) given.push_back(i.get());
    checkEnv(*e, given);
    vh::distinct(hashStr(e->describe()));
    vh::count("environments");
    vh::sample(e->describe());
    // Lines
    Program::Line l(*e->env);
    struct F { uint64_t i = 0, d = 0; std::vector<std::pair<uint64_t, uint64_t>> o; } f;
    size_t m = e->maxOps();
    f.o.resize(m);
    auto agree = [&](const Program::Line& x, const char* when) {
        bool ok = x.getInstructionIndex() == f.i && x.getDestinationIndex() == f.d;
        for (size_t k = 0; ok && k < m; k++) ok = x.getOperand(k) == f.o[k];
        VH_CHECK(ok, "line fields", "fields of a line differ from what was accepted, " << when << ": " << e->describe());
    };
    agree(l, "after creation");
    VH_CHECK(&l.getEnvironment() == e->env.get(), "line environment", "environment of a line");
    for (int step = 0; step < 60; step++) {
        switch (r.below(4)) {
        case 0: {
            uint64_t v = around(r, e->usable.size());
            bool ok = v < e->usable.size();
            VH_CHECK(l.setInstructionIndex(v) == ok, "instruction field", "instruction " << v << (ok ? " refused" : " accepted")
                     << " for " << e->describe());
            if (ok) f.i = v;
            vh::count(ok ? "accepted" : "refused");
            break;
        }
        case 1: {
            uint64_t v = around(r, e->nbRegs);
            bool ok = v < e->nbRegs;
            VH_CHECK(l.setDestinationIndex(v) == ok, "destination field", "destination " << v << (ok ? " refused" : " accepted")
                     << " for " << e->describe());
            if (ok) f.d = v;
            vh::count(ok ? "accepted" : "refused");
            break;
        }
        case 2: {
            uint64_t k = r.below(m), s = around(r, e->nbSources()), a = around(r, e->largest());
            bool ok = s < e->nbSources() && a < e->largest();
            VH_CHECK(l.setOperand(k, s, a) == ok, "operand field", "operand (" << s << "," << a << ")" << (ok ? " refused" : " accepted")
                     << " for " << e->describe());
            if (ok) f.o[k] = {s, a};
            vh::count(ok ? "accepted" : "refused");
            break;
        }
        default: {
            uint64_t k = m + (r.chance(0.5) ? 0 : r.below(1000));
            VH_THROWS(l.setOperand(k, 0, 0), std::range_error, "operand index", "operand " << k << " of " << m << " set");
            VH_THROWS(l.getOperand(k), std::range_error, "operand index", "operand " << k << " of " << m << " read");
        }
        }
        agree(l, "after a change");
        if (r.chance(0.3)) {
            Program::Line c(l);
            agree(c, "in a copy");
            VH_CHECK(c == l && l == c && !(c != l), "copy equal", "a copied line differs from the original");
            // one difference in one field
            bool changed = false;
            uint64_t which = r.below(2 + 2 * m), v;
            if (which == 0 && e->usable.size() > 1) { do v = r.below(e->usable.size()); while (v == f.i); changed = c.setInstructionIndex(v); }
            else if (which == 1 && e->nbRegs > 1) { do v = r.below(e->nbRegs); while (v == f.d); changed = c.setDestinationIndex(v); }
            else if (which >= 2) {
                size_t k = (which - 2) / 2;
                if (which % 2 == 0) { do v = r.below(e->nbSources()); while (v == f.o[k].first); changed = c.setOperand(k, v, f.o[k].second); }
                else if (e->largest() > 1) { do v = r.below(e->largest()); while (v == f.o[k].second); changed = c.setOperand(k, f.o[k].first, v); }
            }
            if (changed) {
                VH_CHECK(c != l && l != c && !(c == l), "lines differ", "lines that differ in field " << which << " compare equal");
                vh::count("different_lines");
            }
            agree(l, "after changing a copy");
        }
    }
    // Rebuilding with the surviving instructions gives the same environment
    std::unique_ptr<Environment> again;
    mute([&] { again.reset(new Environment(e->env->getInstructionSet(), e->handlers(), e->nbRegs, e->nbConst)); });
    VH_CHECK(again->getNbInstructions() == e->usable.size(), "filter twice", "filtering twice removes more");
}

// Environments in which no program can be written
static void unitRefused(Rng& r)
{
    auto e = makeEnv(r, EnvOptions());
    Instructions::Set set;
    auto hs = e->handlers();
    size_t regs = e->nbRegs, kind = r.below(5);
    std::vector<std::unique_ptr<Instructions::Instruction>> store;
    switch (kind) {
    case 0: regs = 0; set = e->set; break; // no register
    case 1: hs.clear(); set = e->set; break; // nothing but registers
    case 2: break; // no instruction
    case 3: { // a single usable one
        store.push_back(pool()[e->usable[0]].make());
        set.add(*store.back());
        for (int c = 0; c < (int)pool().size() && store.size() < 4; c++) {
            bool ok = true;
            for (auto& op : pool()[c].ops) {
                bool any = false;
                for (size_t s = 0; s < e->nbSources(); s++) any |= e->space(op, s) > 0;
                ok &= any;
            }
            if (!ok) { store.push_back(pool()[c].make()); set.add(*store.back()); }
        }
        break;
    }
    default: { // instructions without operand
        struct Nop : Instructions::Instruction { Nop() : Instruction("") {} double execute(const std::vector<Data::UntypedSharedPtr>&) const override { return 1.0; } };
        for (int i = 0; i < 3; i++) { store.push_back(std::make_unique<Nop>()); set.add(*store.back()); }
    }
    }
    size_t nbConst = kind == 1 ? 0 : e->nbConst;
    bool threw = false;
    try { mute([&] { Environment env(set, hs, regs, nbConst); }); }
    catch (const std::domain_error&) { threw = true; }
    VH_CHECK(threw, "refusal", "an environment in which no program can be written was accepted, case " << kind);
    vh::count("environments_refused");
    vh::distinct(vh::mix(kind, hashStr(e->describe())));
}
VH_MAIN({"env", 4, unitEnv}, {"refused", 1, unitRefused})
