// P02: dead-line marks, removal of dead lines and behavioural identity.
// Oracles: independent backward liveness; independent interpreter.
#include "gen.hpp"
#include "program/programExecutionEngine.h"
using namespace gen;
using vh::Rng;

static bool sameOn(EnvBundle& e, const Program::Program& a, const Program::Program& b, Rng& r, int n, std::string& why)
{
    for (int i = 0; i < n; i++) {
        if (i) e.randomizeData(r, 0.1);
        Program::ProgramExecutionEngine ea(a), eb(b);
        double x = ea.executeProgram(), y = eb.executeProgram();
        vh::count("behaviour_comparisons");
        if (!vh::same(x, y)) {
            std::ostringstream o;
            o << x << " vs " << y << "\n" << e.describe() << "\n" << text(a) << "\n" << text(b);
            why = o.str();
            return false;
        }
    }
    return true;
}

static std::vector<bool> marks(const Program::Program& p)
{
    std::vector<bool> m;
    for (size_t i = 0; i < p.getNbLines(); i++) m.push_back(p.isIntron(i));
    return m;
}

static void unitLiveness(Rng& r)
{
    auto e = makeEnv(r, EnvOptions());
    auto p = makeProgram(r, *e, r.chance(0.2) ? 40 : 12, false);
    for (int step = 0; step < 3; step++) {
        auto dead = refDead(*e, *p);
        uint64_t n = p->identifyIntrons();
        VH_CHECK(marks(*p) == dead, "marks", "dead-line marks differ from a liveness analysis\n" << e->describe() << "\n"
                 << text(*p));
        VH_CHECK(n == (uint64_t)std::count(dead.begin(), dead.end(), true), "count",
                 "identifyIntrons returned " << n << " for " << text(*p));
        vh::count("dead_lines", n);
        vh::count("live_lines", dead.size() - n);
        if (n && n < dead.size()) vh::distinct(hashStr(text(*p)));
        // Executing every line gives the same as skipping the dead ones.
        double all = refExecute(*e, *p, [](size_t) { return false; });
        Program::ProgramExecutionEngine eng(*p);
        double skipping = eng.executeProgram();
        VH_CHECK(vh::same(all, skipping), "skip", "executing all lines gives " << all << ", skipping the dead ones "
                 << skipping << "\n" << e->describe() << "\n" << text(*p));
        // Edit: marks are brought up to date by the next analysis.
        switch (r.below(3)) {
        case 0: randomLine(r, *e, p->addNewLine(r.below(p->getNbLines() + 1))); break;
        case 1:
            if (p->getNbLines() > 1) p->removeLine(r.below(p->getNbLines()));
            break;
        case 2: p->swapLines(r.below(p->getNbLines()), r.below(p->getNbLines())); break;
        }
    }
    vh::sample(text(*p));
}

static void unitClear(Rng& r)
{
    auto e = makeEnv(r, EnvOptions());
    auto p = makeProgram(r, *e, 20);
    Program::Program c(*p);
    VH_CHECK(text(c) == text(*p), "copy", "a copy differs: " << text(*p) << " -> " << text(c));
    VH_CHECK(p->hasIdenticalBehavior(c) && c.hasIdenticalBehavior(*p), "copy not identical",
             "a program is not identical to its copy\n" << e->describe() << "\n" << text(*p));
    std::vector<std::string> kept;
    size_t nDead = 0;
    for (size_t i = 0; i < p->getNbLines(); i++) nDead += p->isIntron(i);
    c.clearIntrons();
    VH_CHECK(c.getNbLines() + nDead == p->getNbLines(), "cleared count", "clearing dead lines leaves " << c.getNbLines()
             << " lines of " << p->getNbLines() << " with " << nDead << " dead: " << text(*p));
    for (size_t i = 0, j = 0; i < p->getNbLines(); i++)
        if (!p->isIntron(i)) {
            VH_CHECK(p->getLine(i) == c.getLine(j) && !c.isIntron(j), "cleared lines", "clearing dead lines changed the others: "
                     << text(*p) << " -> " << text(c));
            j++;
        }
    VH_CHECK(p->hasIdenticalBehavior(c) && c.hasIdenticalBehavior(*p), "cleared not identical",
             "not identical after clearing dead lines\n" << e->describe() << "\n" << text(*p) << "\n" << text(c));
    std::string why;
    VH_CHECK(sameOn(*e, *p, c, r, 3, why), "cleared differs", "clearing dead lines changed the result: " << why);
    // Erasing and inserting dead lines one at a time
    auto d = std::make_shared<Program::Program>(*p);
    for (int k = 0; k < 4; k++) {
        auto dead = refDead(*e, *d);
        if (r.chance(0.5)) {
            std::vector<size_t> idx;
            for (size_t i = 0; i < dead.size(); i++)
                if (dead[i]) idx.push_back(i);
            if (idx.empty()) continue;
            d->removeLine(r.pick(idx));
            vh::count("dead_line_removed");
        }
        else {
            size_t at = r.below(d->getNbLines() + 1);
            auto t = std::make_shared<Program::Program>(*d);
            randomLine(r, *e, t->addNewLine(at));
            if (!refDead(*e, *t)[at]) continue;
            d = t;
            vh::count("dead_line_inserted");
        }
        d->identifyIntrons();
        VH_CHECK(p->hasIdenticalBehavior(*d) && d->hasIdenticalBehavior(*p), "dead-line edit not identical",
                 "identity lost by editing dead lines\n" << e->describe() << "\n" << text(*p) << "\n" << text(*d));
        VH_CHECK(sameOn(*e, *p, *d, r, 2, why), "dead-line edit differs", "result changed by editing dead lines: " << why);
    }
    if (nDead) vh::distinct(hashStr(text(*p)));
}

// Programs made almost alike: reported identical => same results.
static void unitIdentity(Rng& r)
{
    EnvOptions o;
    if (r.chance(0.5)) o.pNoConst = 0;
    o.pLarge = 0.15;
    auto e = makeEnv(r, o);
    auto p = makeProgram(r, *e, 8);
    for (int k = 0; k < 6; k++) {
        Program::Program q(*p);
        size_t n = 1 + r.below(2);
        std::string edit;
        for (size_t j = 0; j < n; j++) {
            size_t i = r.below(q.getNbLines());
            switch (r.below(7)) {
            case 0:
            case 1:
                if (e->nbConst) {
                    size_t c = r.below(e->nbConst);
                    int32_t v = (int32_t)((uint32_t)(int32_t)q.getConstantAt(c) + (r.chance(0.4) ? 1u : (uint32_t)-7));
                    if (r.chance(0.2)) v = (int32_t)((uint32_t)v ^ (1u << r.below(32)));
                    q.getConstantHandler().setDataAt(typeid(Data::Constant), c, {v});
                    edit += "constant ";
                }
                break;
            case 2: q.getLine(i).setDestinationIndex(r.below(e->nbRegs)); edit += "destination "; break;
            case 3: {
                // another location in the same source
                const InstrDesc& d = e->instr(q.getLine(i).getInstructionIndex());
                size_t k2 = r.below(d.ops.size());
                size_t old = q.getLine(i).getOperand(k2).second, loc = old ^ ((size_t)1 << r.below(11));
                if (loc >= e->largest() || r.chance(0.5)) loc = r.below(e->largest());
                if (loc != old && loc % 256 == old % 256) vh::count("far_locations");
                q.getLine(i).setOperand(k2, q.getLine(i).getOperand(k2).first, loc);
                edit += "location ";
                break;
            }
            case 4: q.swapLines(i, r.below(q.getNbLines())); edit += "swap "; break;
            case 5:
                if (q.getNbLines() > 1) q.removeLine(i);
                edit += "remove ";
                break;
            case 6: randomLine(r, *e, q.addNewLine(i)); edit += "insert "; break;
            }
        }
        q.identifyIntrons();
        bool id = p->hasIdenticalBehavior(q), di = q.hasIdenticalBehavior(*p);
        VH_CHECK(id == di, "asymmetric", "identity is not symmetric\n" << text(*p) << "\n" << text(q));
        std::string why;
        bool same = sameOn(*e, *p, q, r, 4, why);
        vh::count(id ? (same ? "identical_same" : "identical_differ") : (same ? "distinct_same" : "distinct_differ"));
        VH_CHECK(!id || same, "identity unsound", "programs reported identical (" << edit << ") return " << why);
        vh::distinct(vh::mix(hashStr(text(*p)), hashStr(text(q))));
    }
}

VH_MAIN({"liveness", 3, unitLiveness}, {"clear", 3, unitClear}, {"identity", 4, unitIdentity})
