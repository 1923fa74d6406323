// L04: selection removes exactly the worst root teams and tracks the best policy.
// Oracle: the graph, results and records before and after each selection, compared with an independent model.
#include "gen_learn.hpp"
using namespace gen;
using vh::Rng;
typedef FnLogger::Results Results;
typedef const TPG::TPGVertex* V;
typedef std::shared_ptr<Learn::EvaluationResult> Res;

static bool isTeam(V v) { return dynamic_cast<const TPG::TPGTeam*>(v) != nullptr; }
// Outgoing edges of a vertex, in order.
typedef std::vector<std::pair<V, const Program::Program*>> Edges;
static std::map<V, Edges> shape(const TPG::TPGGraph& g)
{
    std::map<V, Edges> m;
    for (V v : g.getVertices()) {
        Edges& e = m[v];
        for (auto x : v->getOutgoingEdges()) e.push_back({x->getDestination(), &x->getProgram()});
    }
    return m;
}
struct Watch
{
    Learn::LearningAgent& a;
    const Learn::LearningParameters& p;
    std::string ctx;
    std::map<V, Edges> before;
    std::vector<std::pair<Res, V>> results;
    std::pair<V, Res> best; // reported before the selection
    std::map<V, std::pair<double, size_t>> records;

    void snapshot(const Results& r)
    {
        before = shape(*a.getTPGGraph());
        results.assign(r.begin(), r.end());
        best = a.getBestRoot();
    }
    std::set<V> survivors() const
    {
        std::set<V> s;
        for (V v : a.getTPGGraph()->getVertices()) s.insert(v);
        return s;
    }
    void selected()
    {
        auto after = shape(*a.getTPGGraph());
        double k = std::floor(p.ratioDeletedRoots * (double)p.mutation.tpg.nbRoots);
        size_t teams = 0, gone = 0;
        for (auto& r : results) teams += isTeam2(r.second);
        size_t expected = std::min<size_t>((size_t)k, teams);
        double worstKept = INFINITY, bestGone = -INFINITY;
        for (auto& r : results)
            if (isTeam2(r.second)) {
                if (after.count(r.second)) worstKept = std::min(worstKept, r.first->getResult());
                else bestGone = std::max(bestGone, r.first->getResult());
            }
        std::set<V> evaluated;
        for (auto& r : results) evaluated.insert(r.second);
        for (auto& b : before)
            if (!after.count(b.first)) {
                gone++;
                VH_CHECK(evaluated.count(b.first) != 0, "a vertex that is no root was removed", ctx);
            }
            else VH_CHECK(after[b.first] == b.second, "selection changes a surviving vertex", ctx);
        for (auto& r : results)
            if (!after.count(r.second)) {
                auto it = before.find(r.second);
                VH_CHECK(it != before.end() && isTeam2(r.second), "root action removed", ctx);
            }
        for (auto& x : after) VH_CHECK(before.count(x.first), "selection adds a vertex", ctx);
        VH_CHECK(gone == expected, "number of roots removed", gone << " instead of " << expected << " (ratio x target = " << p.ratioDeletedRoots * (double)p.mutation.tpg.nbRoots << ", " << teams << " root teams) " << ctx);
        VH_CHECK(bestGone <= worstKept, "better root team removed", "removed " << bestGone << ", kept " << worstKept << " " << ctx);
        vh::count("selections");
        vh::count("roots_removed", gone);
        if (bestGone == worstKept) vh::count("ties");
        if (results.size() > teams) {
            vh::count("root_actions_present");
            double worstAction = INFINITY;
            for (auto& r : results)
                if (!isTeam2(r.second)) worstAction = std::min(worstAction, r.first->getResult());
            if (worstAction < bestGone) vh::count("worse_root_actions_kept");
        }
        if (expected == teams && teams) vh::count("all_teams_removed");
    }
    std::vector<V> teamsBefore;
    bool isTeam2(V v) const { return std::find(teamsBefore.begin(), teamsBefore.end(), v) != teamsBefore.end(); }
    void noteTeams()
    {
        teamsBefore.clear();
        for (V v : a.getTPGGraph()->getVertices())
            if (isTeam(v)) teamsBefore.push_back(v);
    }
    // After updateEvaluationRecords.
    void updated()
    {
        auto alive = survivors();
        for (auto it = records.begin(); it != records.end();)
            if (alive.count(it->first)) ++it;
            else it = records.erase(it);
        double max = -INFINITY;
        std::map<V, Res> s;
        for (auto& r : results)
            if (alive.count(r.second)) {
                s[r.second] = r.first;
                max = std::max(max, r.first->getResult());
                records[r.second] = {r.first->getResult(), r.first->getNbEvaluation()};
            }
        for (auto& r : s) {
            Res prev;
            bool skip = a.isRootEvalSkipped(*r.first, prev);
            VH_CHECK(prev == r.second, "record of a survivor", ctx);
            VH_CHECK(skip == (r.second->getNbEvaluation() >= p.maxNbEvaluationPerPolicy), "skipping of a survivor", ctx);
            vh::count("records_checked");
        }
        auto now = a.getBestRoot();
        if (s.empty()) {
            if (best.first && alive.count(best.first)) VH_CHECK(now == best, "best policy without result", ctx);
            else VH_CHECK(now.first == nullptr, "best policy reported when none is left", ctx);
            vh::count("nothing_left");
            return;
        }
        VH_CHECK(now.first && alive.count(now.first), "best policy is not in the graph", ctx);
        bool vanished = best.first && !alive.count(best.first);
        double title = 0;
        if (best.first && !vanished) title = s.count(best.first) ? s[best.first]->getResult() : best.second->getResult();
        if (!best.first || vanished || title < max) {
            VH_CHECK(s.count(now.first) && s[now.first]->getResult() == max, "new best policy is not the best survivor",
                     "score " << (s.count(now.first) ? s[now.first]->getResult() : NAN) << " instead of " << max << " (" << (!best.first ? "first" : vanished ? "vanished" : "beaten") << ") " << ctx);
            vh::count(!best.first ? "best_first" : vanished ? "best_vanished" : "best_beaten");
        }
        else {
            VH_CHECK(now.first == best.first, "best policy replaced without reason", "held " << title << ", best survivor " << max << " " << ctx);
            vh::count("best_kept");
            if (s.count(best.first) && s[best.first] != best.second) vh::count("best_reevaluated");
            if (!s.count(best.first)) vh::count("best_internal");
        }
        VH_CHECK(now.second != nullptr, "best policy without score", ctx);
        if (records.count(now.first))
            VH_CHECK(vh::same(now.second->getResult(), records[now.first].first) && now.second->getNbEvaluation() == records[now.first].second,
                     "score of the best policy is not the one recorded",
                     now.second->getResult() << " over " << now.second->getNbEvaluation() << " instead of " << records[now.first].first << " over " << records[now.first].second << " " << ctx);
    }
};
static void reach(V v, std::set<V>& s)
{
    if (!s.insert(v).second) return;
    for (auto e : v->getOutgoingEdges()) reach(e->getDestination(), s);
}
static void prune(Rng& r, Learn::LearningAgent& a, const std::string& ctx)
{
    auto g = a.getTPGGraph();
    V best = a.getBestRoot().first;
    // The best policy may be used by others, which may be the only root.
    if (best && indexOf(*g, best) < g->getNbVertices() && isTeam(best) && r.chance(0.5)) {
        std::shared_ptr<Program::Program> pr;
        for (auto e : best->getOutgoingEdges()) pr = e->getProgramSharedPointer();
        if (pr) {
            V top = best;
            for (size_t i = 1 + r.below(2); i > 0; i--) {
                const TPG::TPGTeam& t = g->addNewTeam();
                g->addNewEdge(t, *top, pr);
                if (r.chance(0.5)) {
                    auto all = g->getVertices();
                    V other = r.pick(all);
                    if (other != &t) g->addNewEdge(t, *other, pr);
                }
                top = &t;
            }
            if (r.chance(0.5)) {
                // Only one root is left.
                auto roots = g->getRootVertices();
                for (V v : roots)
                    if (v != top && v != best) g->addNewEdge(*top, *v, pr);
            }
            vh::count("best_made_internal");
        }
    }
    auto before = shape(*g);
    std::set<V> keep;
    bool present = best && before.count(best);
    if (present) reach(best, keep);
    a.keepBestPolicy();
    auto after = shape(*g);
    if (!present) {
        VH_CHECK(after == before, "pruning without best policy changes the graph", ctx);
        vh::count("prunings_without_best");
        return;
    }
    for (auto& x : before) {
        VH_CHECK(after.count(x.first) == keep.count(x.first), after.count(x.first) ? "pruning keeps another vertex" : "pruning removes a vertex of the best policy", ctx);
        if (after.count(x.first)) VH_CHECK(after[x.first] == x.second, "pruning changes the best policy", ctx);
    }
    for (auto& x : after) VH_CHECK(before.count(x.first), "pruning adds a vertex", ctx);
    auto roots = g->getRootVertices();
    VH_CHECK(roots.size() == 1 && roots[0] == best, "roots after pruning", roots.size() << " roots " << ctx);
    VH_CHECK(a.getBestRoot().first == best, "pruning changes the best policy reported", ctx);
    vh::count("prunings");
}
template <class A, class E, class... X> static void train(Rng& r, X... x)
{
    Quiet q;
    LSpecOptions o;
    o.pArrays = 0.05;
    auto s = makeSpec(r, o);
    auto p = makeParams(r, *s, 10);
    if (r.chance(0.1)) {
        p.ratioDeletedRoots = r.chance(0.5) ? 1.0 : 0.99;
        p.mutation.tpg.pEdgeDestinationIsAction = 0;
    }
    p.nbIterationsPerPolicyEvaluation = 1 + r.below(2);
    s->agents = 2;
    E le(s);
    A a(le, s->set, p, x...);
    Watch w{a, p, describe(p) + " " + s->describe(), {}, {}, {}, {}, {}};
    vh::sample(w.ctx);
    FnLogger log(a);
    double last = 0;
    log.onNew = [&](uint64_t) {
        bool team = false;
        for (V v : a.getTPGGraph()->getRootVertices()) team |= isTeam(v);
        if (!team) w.records.clear();
    };
    log.onEvaluate = [&](Results& res) {
        w.snapshot(res);
        w.noteTeams();
        last = res.rbegin()->first->getResult();
    };
    log.onDecimate = [&] {
        w.selected();
        w.updated();
        VH_CHECK(vh::same(a.getBestScoreLastGen(), last), "best score of the generation", a.getBestScoreLastGen() << " instead of " << last << " " << w.ctx);
    };
    a.init(r.next());
    VH_CHECK(a.getBestRoot().first == nullptr, "best policy before training", w.ctx);
    uint64_t n = 1 + r.below(7);
    for (uint64_t g = 0; g < n; g++) {
        a.trainOneGeneration(g);
        vh::count("generations");
        if (r.chance(0.06)) {
            a.forgetPreviousResults();
            w.records.clear();
            vh::count("forgotten");
        }
    }
    vh::distinct(hashStr(graphText(*a.getTPGGraph())));
    prune(r, a, w.ctx);
}
static void caseTrain(Rng& r)
{
    switch (r.below(3)) {
    case 0: train<Learn::LearningAgent, PlainEnv>(r); break;
    case 1: train<Learn::ParallelLearningAgent, PlainEnv>(r); break;
    default: train<Learn::AdversarialLearningAgent, DuelEnv>(r, (size_t)2); break;
    }
}
// Selections on hand-made results.
static void caseDirect(Rng& r)
{
    Quiet q;
    LSpecOptions o;
    o.pArrays = 0;
    auto s = makeSpec(r, o);
    auto p = makeParams(r, *s, 10);
    if (r.chance(0.1)) p.ratioDeletedRoots = 1.0;
    PlainEnv le(s);
    Learn::LearningAgent a(le, s->set, p);
    a.init(r.next());
    auto g = a.getTPGGraph();
    Watch w{a, p, describe(p), {}, {}, {}, {}, {}};
    std::map<V, Res> stored;
    for (int round = 0; round < 4; round++) {
        for (size_t i = r.below(3); i > 0; i--) g->addNewAction(r.below(s->nbActions)); // root actions
        for (size_t i = r.below(5); i > 0; i--) {
            auto roots = g->getRootVertices();
            std::vector<V> teams;
            for (V v : roots)
                if (isTeam(v)) teams.push_back(v);
            if (teams.empty()) break;
            g->cloneVertex(*r.pick(teams));
        }
        int kind = (int)r.below(4);
        Results res;
        for (V v : g->getRootVertices()) {
            double x = kind == 0 ? (double)r.below(3) : kind == 1 ? r.real(0.0) : kind == 2 ? -1.0 : (r.chance(0.2) ? -INFINITY : r.chance(0.1) ? INFINITY : r.real(0.0));
            Res e = stored.count(v) && r.chance(0.3) ? stored[v] : std::make_shared<Learn::EvaluationResult>(x, 1 + r.below(10));
            res.emplace(e, v);
        }
        w.noteTeams();
        w.snapshot(res);
        a.decimateWorstRoots(res);
        w.selected();
        auto alive = w.survivors();
        Results want;
        for (auto& x : w.results)
            if (alive.count(x.second)) want.emplace(x.first, x.second);
        std::set<std::pair<const void*, V>> a1, a2;
        for (auto& x : res) a1.insert({x.first.get(), x.second});
        for (auto& x : want) a2.insert({x.first.get(), x.second});
        VH_CHECK(a1 == a2 && res.size() == want.size(), "results handed on", res.size() << " instead of " << want.size() << " " << w.ctx);
        double prev = -INFINITY;
        for (auto& x : res) {
            VH_CHECK(x.first->getResult() >= prev, "results handed on unsorted", w.ctx);
            prev = x.first->getResult();
        }
        if (res.empty()) vh::count("empty_results");
        a.updateEvaluationRecords(res);
        w.updated();
        stored.clear();
        for (auto& x : res) stored[x.second] = x.first;
        if (r.chance(0.1)) {
            // The user removes the best policy.
            V b = a.getBestRoot().first;
            if (b && r.chance(0.5)) {
                g->removeVertex(*b);
                stored.erase(b);
                w.records.erase(b);
                vh::count("best_removed_by_user");
                if (r.chance(0.5)) break;
                a.forgetPreviousResults();
                stored.clear();
                w.records.clear();
            }
        }
        vh::count("direct_selections");
    }
    if (r.chance(0.5)) prune(r, a, w.ctx);
}
VH_MAIN({"train", 2, caseTrain}, {"direct", 1, caseDirect})
