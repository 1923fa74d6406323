// M02: mutation yields programs whose behaviour is new to the archive.
// Oracle: the harness keeps its own copy of every recording and of the data it was made on; every mutated program
// is re-evaluated on that data with the independent interpreter and compared with every archived program.
#include "gen.hpp"
#include "archive.h"
#include "mutator/mutationParameters.h"
#include "mutator/rng.h"
#include "mutator/tpgMutator.h"
#include "tpg/tpgAction.h"
#include "tpg/tpgEdge.h"
#include "tpg/tpgExecutionEngine.h"
#include "tpg/tpgTeam.h"
using namespace gen;
using vh::Rng;

typedef std::shared_ptr<Program::Program> PP;
typedef std::vector<std::vector<double>> Snap;
static Snap snap(const EnvBundle& e)
{
    Snap s;
    for (auto& x : e.sources) s.push_back(x->shadow);
    return s;
}
static void restore(EnvBundle& e, const Snap& s)
{
    for (size_t i = 0; i < s.size(); i++)
        for (size_t k = 0; k < s[i].size(); k++) e.sources[i]->set(k, s[i][k]);
}

struct History
{
    std::map<size_t, Snap> data;      // by combined hash
    std::vector<PP> alive;            // archived programs stay alive: their address identifies them
};
// Sensible environments: enough instructions, data and registers for behaviours to differ.
static std::unique_ptr<EnvBundle> env(Rng& r)
{
    for (;;) {
        EnvOptions o;
        o.forceArray0 = true;
        o.minRegs = 2;
        o.maxConst = 3;
        o.arrays = r.chance(0.12); // the library compiles regular expressions at each access to an array: slow
        auto e = makeEnv(r, o);
        // Mutation goes on until the behaviour is new: infinitely many behaviours must be possible.
        bool rich = false;
        for (size_t i = 0; i < e->usable.size(); i++) {
            const std::string& n = e->instr(i).name;
            rich |= n == "add" || n == "sub" || n == "neg1" || n == "fma3";
        }
        if (e->usable.size() >= 4 && rich) return e;
    }
}
static Mutator::MutationParameters params(Rng& r)
{
    Mutator::MutationParameters m;
    m.tpg.nbActions = 2 + r.below(4);
    m.tpg.maxInitOutgoingEdges = 2 + r.below(m.tpg.nbActions - 1);
    m.tpg.maxOutgoingEdges = m.tpg.maxInitOutgoingEdges + r.below(3);
    m.tpg.nbRoots = 5 + r.below(15);
    m.tpg.pEdgeDeletion = r.unit();
    m.tpg.pEdgeAddition = r.unit();
    m.tpg.pProgramMutation = 0.1 + 0.9 * r.unit();
    m.tpg.forceProgramBehaviorChangeOnMutation = r.chance(0.5);
    m.tpg.pEdgeDestinationChange = r.unit();
    m.tpg.pEdgeDestinationIsAction = 0.0;
    m.prog.maxProgramSize = 4 + r.below(15);
    m.prog.pDelete = 0.2 + 0.6 * r.unit();
    m.prog.pAdd = 0.2 + 0.6 * r.unit();
    m.prog.pMutate = 0.2 + 0.8 * r.unit();
    m.prog.pSwap = r.unit();
    m.prog.pConstantMutation = r.unit();
    m.prog.minConstValue = -20;
    m.prog.maxConstValue = 20;
    return m;
}
// The lines that matter, all their fields, with the values of the constants they use ("line-for-line").
static std::string essence(const EnvBundle& e, const Program::Program& p)
{
    auto dead = refDead(e, p);
    std::ostringstream o;
    for (size_t i = 0; i < p.getNbLines(); i++) {
        if (dead[i]) continue;
        const Program::Line& l = p.getLine(i);
        const InstrDesc& d = e.instr(l.getInstructionIndex());
        o << l.getInstructionIndex() << ">" << l.getDestinationIndex();
        for (size_t k = 0; k < e.maxOps(); k++) {
            size_t s = l.getOperand(k).first;
            o << "," << s << ":" << l.getOperand(k).second;
            if (k < d.ops.size() && e.nbConst > 0 && s == 1)
                for (size_t c : refIndices(d.ops[k], false, e.nbConst, l.getOperand(k).second % e.space(d.ops[k], s)))
                    o << "=" << (int32_t)p.getConstantAt(c);
        }
        o << ";";
    }
    return o.str();
}
// Is there an archived program that the candidate reproduces?
static void checkNew(EnvBundle& e, const Archive& a, const History& h, const Program::Program& p, const char* how)
{
    std::map<const Program::Program*, std::pair<int, int>> agree;
    std::map<size_t, double> mine;
    for (size_t i = 0; i < a.getNbRecordings(); i++) {
        auto& rec = a.at(i);
        auto it = mine.find(rec.dataHash);
        if (it == mine.end()) {
            restore(e, h.data.at(rec.dataHash));
            it = mine.emplace(rec.dataHash, refExecute(e, p)).first;
        }
        bool eq = std::fabs(it->second - rec.result) <= 1e-4;
        (eq ? agree[rec.prog].first : agree[rec.prog].second)++;
        vh::count(eq ? "bids_equal" : "bids_different");
    }
    for (auto& x : agree) {
        VH_CHECK(x.second.second > 0, "not new", "a program " << how << " reproduces all the " << x.second.first << " bids of an archived program: "
                 << text(p) << "\n" << e.describe());
        if (x.second.first) vh::count("partly_reproduced");
    }
    vh::count("programs_compared", agree.size());
    vh::count("programs_checked");
}
// Fill the archive by running policies on several data sets.
static void record(Rng& r, EnvBundle& e, const TPG::TPGGraph& g, Archive& a, History& h, int n)
{
    TPG::TPGExecutionEngine eng(*e.env, &a);
    for (auto& x : g.getEdges()) h.alive.push_back(x->getProgramSharedPointer());
    for (int i = 0; i < n; i++) {
        if (i == 0 || r.chance(0.8)) {
            e.randomizeData(r, 0.02);
            e.sources[0]->set(0, 0.5 + r.unit());
        }
        auto roots = g.getRootVertices();
        auto v = roots[r.below(roots.size())];
        if (dynamic_cast<const TPG::TPGTeam*>(v) == nullptr) continue;
        eng.executeFromRoot(*v);
        Snap s = snap(e);
        h.data[Archive::getCombinedHash(e.handlers())] = s;
    }
    vh::count("recordings", a.getNbRecordings());
}
static std::string behaviour(EnvBundle& e, const History& h, const Program::Program& p)
{
    std::ostringstream o;
    for (auto& d : h.data) { restore(e, d.second); o << refExecute(e, p) << " "; }
    return o.str();
}

// Programs mutated together, sequentially or by several threads.
static void casePrograms(Rng& r)
{
    auto e = env(r);
    auto m = params(r);
    TPG::TPGGraph g(*e->env);
    GraphOptions go;
    go.maxLines = m.prog.maxProgramSize;
    makeGraph(r, *e, g, go);
    Archive a(r.chance(0.2) ? 1 + r.below(3) : 1 + r.below(60), r.chance(0.5) ? 1.0 : 0.3 + r.unit() * 0.7, r.next());
    History h;
    record(r, *e, g, a, h, 1 + (int)r.below(12));
    std::list<PP> progs;
    std::vector<std::string> parents;
    std::vector<PP> parentProgs;
    size_t n = 1 + r.below(8);
    std::vector<PP> pool;
    for (auto& x : g.getEdges()) pool.push_back(x->getProgramSharedPointer());
    for (size_t i = 0; i < n; i++) {
        // Copies of archived programs: the most likely to reproduce one.
        PP parent = r.chance(0.8) ? r.pick(pool) : makeProgram(r, *e, m.prog.maxProgramSize);
        progs.push_back(std::make_shared<Program::Program>(*parent));
        parents.push_back(essence(*e, *parent));
        parentProgs.push_back(parent);
    }
    std::vector<std::string> before;
    for (auto& p : parentProgs) before.push_back(text(*p));
    Mutator::RNG rng(r.next());
    uint64_t threads = r.chance(0.5) ? 1 : 2 + r.below(4);
    if (r.chance(0.7)) Mutator::TPGMutator::mutateNewProgramBehaviors(threads, progs, rng, m, a);
    else
        for (PP p : progs) Mutator::TPGMutator::mutateProgramBehaviorAgainstArchive(p, m, a, rng);
    vh::count(threads > 1 ? "batches_parallel" : "batches_sequential");
    size_t i = 0;
    for (auto& p : progs) {
        checkNew(*e, a, h, *p, "mutated");
        VH_CHECK(text(*parentProgs[i]) == before[i], "parent changed", "the parent program was changed");
        VH_CHECK(p->getNbLines() >= 1 && p->getNbLines() <= m.prog.maxProgramSize, "size", p->getNbLines() << " lines");
        if (m.tpg.forceProgramBehaviorChangeOnMutation) {
            VH_CHECK(essence(*e, *p) != parents[i], "equivalent to its parent", "behaviour change was demanded, yet the mutated program "
                     "has the same live lines as its parent: " << text(*p) << "\nparent " << before[i] << "\n" << e->describe());
            vh::count("behaviour_changes_forced");
        }
        else {
            if (essence(*e, *p) == parents[i]) vh::count("behaviour_changes_not_forced_and_absent");
        }
        i++;
    }
    vh::distinct(vh::mixs(hashStr(graphText(g)), behaviour(*e, h, *progs.front())));
}
// Whole population steps.
static void casePopulate(Rng& r)
{
    auto e = env(r);
    auto m = params(r);
    TPG::TPGGraph g(*e->env);
    Mutator::RNG rng(r.next());
    Mutator::TPGMutator::initRandomTPG(g, m, rng);
    Archive a(r.chance(0.2) ? 1 + r.below(3) : 1 + r.below(80), r.chance(0.5) ? 1.0 : 0.2 + r.unit() * 0.8, r.next());
    History h;
    int gens = 1 + (int)r.below(3);
    for (int k = 0; k < gens; k++) {
        record(r, *e, g, a, h, (int)r.below(10));
        std::set<const Program::Program*> old;
        for (auto& x : g.getEdges()) old.insert(&x->getProgram());
        m.tpg.nbRoots = g.getNbRootVertices() + 1 + r.below(10);
        Mutator::TPGMutator::populateTPG(g, a, m, rng, 1 + r.below(3));
        for (auto& x : g.getEdges())
            if (!old.count(&x->getProgram())) {
                checkNew(*e, a, h, x->getProgram(), "created by a population step");
                vh::count("programs_from_population");
            }
        vh::count("populations");
    }
    vh::distinct(hashStr(graphText(g)));
}

VH_MAIN({"programs", 3, casePrograms}, {"populate", 1, casePopulate})
