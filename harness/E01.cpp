// E01: a policy always follows the highest bid down to an action.
// Oracle: reference bids computed by the independent interpreter.
#include "gen.hpp"
#include "archive.h"
#include "tpg/tpgAction.h"
#include "tpg/tpgEdge.h"
#include "tpg/tpgExecutionEngine.h"
#include "tpg/tpgTeam.h"
using namespace gen;
using vh::Rng;

struct Watching : TPG::TPGExecutionEngine
{
    using TPG::TPGExecutionEngine::TPGExecutionEngine;
    std::vector<std::pair<const TPG::TPGEdge*, double>> seen;
    double evaluateEdge(const TPG::TPGEdge& e) override
    {
        double d = TPG::TPGExecutionEngine::evaluateEdge(e);
        seen.push_back({&e, d});
        return d;
    }
};

static std::string names(const TPG::TPGGraph& g, const std::vector<const TPG::TPGVertex*>& p)
{
    std::ostringstream o;
    auto vs = g.getVertices();
    for (auto v : p) {
        auto it = std::find(vs.begin(), vs.end(), v);
        o << (it == vs.end() ? std::string("?") : std::to_string(it - vs.begin())) << " ";
    }
    return o.str();
}

static void unitPaths(Rng& r)
{
    EnvOptions eo;
    eo.maxSources = 3;
    auto e = makeEnv(r, eo);
    TPG::TPGGraph g(*e->env);
    GraphOptions go;
    go.shareAnyDest = r.chance(0.4); // equal bids in a team
    go.rootActions = r.chance(0.3);
    go.maxEdges = 2 + r.below(6);
    go.maxTeams = 1 + r.below(9);
    go.pDeep = go.pWide = 0.04;
    go.uniqueActions = r.chance(0.7);
    makeGraph(r, *e, g, go);
    std::string before = graphText(g);
    Archive arch(r.below(200), 1.0, 3);
    bool withArchive = r.chance(0.5);
    Watching w(*e->env, withArchive ? &arch : nullptr);
    TPG::TPGExecutionEngine plain(*e->env);
    auto starts = r.chance(0.5) ? g.getRootVertices() : g.getVertices();
    vh::sample(e->describe() + "\n" + before);
    for (int k = 0; k < 4; k++) {
        if (r.chance(0.7)) e->randomizeData(r, 0.2);
        std::vector<size_t> h;
        for (auto& s : e->sources) h.push_back(s->handler->getHash());
        const TPG::TPGVertex* root = r.pick(starts);
        auto want = refPath(*e, *root);
        w.seen.clear();
        auto got = w.executeFromRoot(*root);
        auto got2 = plain.executeFromRoot(*root);
        vh::count("executions");
        vh::count("path_length", got.size());
        VH_CHECK(got == want, "path", "path " << names(g, got) << "instead of " << names(g, want) << "\n"
                 << e->describe() << "\n" << before);
        VH_CHECK(got2 == got, "repeat", "another engine follows " << names(g, got2) << "instead of " << names(g, got));
        VH_CHECK(dynamic_cast<const TPG::TPGAction*>(got.back()) != nullptr, "end", "the path does not end at an action");
        // Evaluations: every edge of every visited team, once, with its bid
        std::multiset<const TPG::TPGEdge*> expected, seen;
        for (auto v : got)
            for (auto ed : v->getOutgoingEdges()) expected.insert(ed);
        for (auto& s : w.seen) {
            seen.insert(s.first);
            double b = refBid(*e, s.first->getProgram());
            VH_CHECK(vh::same(b, s.second), "bid", "bid " << s.second << " instead of " << b << "\n" << e->describe() << "\n"
                     << text(s.first->getProgram()));
            if (std::isinf(b) && b < 0) vh::count("bids_minus_inf");
        }
        VH_CHECK(expected == seen, "evaluated edges", seen.size() << " edge evaluations instead of " << expected.size());
        vh::count("edges_evaluated", seen.size());
        // single steps
        for (size_t i = 0; i + 1 < got.size(); i++) {
            auto t = dynamic_cast<const TPG::TPGTeam*>(got[i]);
            const TPG::TPGEdge& win = plain.evaluateTeam(*t);
            double best = refBid(*e, win.getProgram());
            bool after = false;
            int ties = 0;
            for (auto ed : t->getOutgoingEdges()) {
                double b = refBid(*e, ed->getProgram());
                VH_CHECK(b <= best, "not maximal", "winning bid " << best << ", another edge bids " << b);
                ties += b == best;
                VH_CHECK(!(after && b == best), "tie", "an edge listed after the winner has the same bid " << b);
                if (ed == &win) after = true;
            }
            VH_CHECK(after, "foreign edge", "the winning edge is not an edge of the team");
            if (ties > 1) vh::count("ties");
        }
        // Purity
        VH_CHECK(graphText(g) == before, "graph changed", "execution changed the graph");
        for (size_t i = 0; i < h.size(); i++)
            VH_CHECK(e->sources[i]->handler->getHash() == h[i], "data changed", "execution changed the data");
        if (got.size() > 1) vh::distinct(vh::mix(hashStr(before), vh::mix(hashStr(names(g, got)), h[0])));
    }
}
// A team that has no edge is refused, alone or at the end of a path.
static void unitEmpty(Rng& r)
{
    auto e = makeEnv(r);
    TPG::TPGGraph g(*e->env);
    auto& t = g.addNewTeam();
    auto& root = g.addNewTeam();
    g.addNewEdge(root, t, makeProgram(r, *e));
    TPG::TPGExecutionEngine eng(*e->env);
    if (r.chance(0.5)) VH_THROWS(eng.evaluateTeam(t), std::runtime_error, "team without edge", "evaluated");
    else VH_THROWS(eng.executeFromRoot(r.chance(0.5) ? t : root), std::runtime_error, "team without edge", "executed");
    vh::count("teams_without_edge");
}

VH_MAIN({"paths", 20, unitPaths}, {"empty", 1, unitEmpty})
