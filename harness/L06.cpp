// L06: classification scores are per-class F1 scores, and the best of each class survive selection.
// Oracle: scores recomputed from an independent replay of every evaluation; survivors judged by thresholds.
#include "gen_learn.hpp"
using namespace gen;
using vh::Rng;
typedef Learn::LearningMode Mode;
typedef FnLogger::Results Results;
typedef const TPG::TPGVertex* V;
typedef std::shared_ptr<Learn::EvaluationResult> Res;
typedef Learn::ClassificationEvaluationResult CRes;
typedef std::vector<std::vector<uint64_t>> Table;

static bool isTeam(V v) { return dynamic_cast<const TPG::TPGTeam*>(v) != nullptr; }
// F1 = 2 TP / (2 TP + FN + FP).
static long double f1(const Table& t, size_t c)
{
    uint64_t tp = t[c][c], row = 0, col = 0;
    for (size_t i = 0; i < t.size(); i++) {
        row += t[c][i];
        col += t[i][c];
    }
    return tp == 0 ? 0.0L : 2.0L * tp / (long double)(row + col);
}
static uint64_t support(const Table& t, size_t c)
{
    uint64_t n = 0;
    for (uint64_t x : t[c]) n += x;
    return n;
}
static bool close(double got, long double want) { return std::isfinite(got) && std::fabs((long double)got - want) <= 1e-11L * (1 + std::fabs(want)); }

// Scores and weights of each class.
struct Model
{
    std::vector<long double> score;
    std::vector<uint64_t> n;
    explicit Model(size_t k = 0) : score(k, 0), n(k, 0) {}
    void add(const Model& o)
    {
        for (size_t c = 0; c < n.size(); c++) {
            uint64_t t = n[c] + o.n[c];
            if (t) score[c] = (score[c] * n[c] + o.score[c] * o.n[c]) / t;
            n[c] = t;
        }
    }
    long double global() const
    {
        long double s = 0;
        for (auto x : score) s += x;
        return s / score.size();
    }
    uint64_t total() const
    {
        uint64_t s = 0;
        for (auto x : n) s += x;
        return s;
    }
};
static void judgeResult(const Learn::EvaluationResult& e, const Model& m, const std::string& ctx, const char* what)
{
    auto* c = dynamic_cast<const CRes*>(&e);
    VH_CHECK(c, "type of the result", what << " " << ctx);
    auto& sc = c->getScorePerClass();
    auto& n = c->getNbEvaluationPerClass();
    VH_CHECK(sc.size() == m.score.size() && n.size() == m.n.size(), "number of classes", what << " " << ctx);
    for (size_t i = 0; i < sc.size(); i++) {
        VH_CHECK(std::isfinite(sc[i]), "score of a class is not finite", what << ": " << sc[i] << " for class " << i << " with " << m.n[i] << " evaluations " << ctx);
        VH_CHECK(close(sc[i], m.score[i]), std::string("score of a class, ") + what, sc[i] << " instead of " << (double)m.score[i] << " for class " << i << " " << ctx);
        VH_CHECK(n[i] == m.n[i], std::string("evaluations of a class, ") + what, n[i] << " instead of " << m.n[i] << " " << ctx);
        if (m.n[i] == 0) vh::count("empty_classes");
    }
    VH_CHECK(close(e.getResult(), m.global()), std::string("global score, ") + what, e.getResult() << " instead of " << (double)m.global() << " " << ctx);
    VH_CHECK(e.getNbEvaluation() == m.total(), std::string("number of evaluations, ") + what, e.getNbEvaluation() << " instead of " << m.total() << " " << ctx);
    vh::count("results_judged");
}
// --- Confusion tables made by hand.
struct TableEnv : Learn::ClassificationLearningEnvironment
{
    Data::PrimitiveTypeArray<double> d{1};
    explicit TableEnv(size_t n) : ClassificationLearningEnvironment(n) {}
    void see(uint64_t c, uint64_t a)
    {
        currentClass = c;
        doAction(a);
    }
    void doAction(uint64_t a) override { ClassificationLearningEnvironment::doAction(a); }
    void reset(size_t seed, Mode m, uint16_t it, uint64_t g) override { ClassificationLearningEnvironment::reset(seed, m, it, g); }
    std::vector<std::reference_wrapper<const Data::DataHandler>> getDataSources() override { return {d}; }
    bool isTerminal() const override { return false; }
};
static void caseTable(Rng& r)
{
    for (int round = 0; round < 20; round++) {
        size_t k = 1 + r.below(7);
        TableEnv le(k);
        Table want(k, std::vector<uint64_t>(k, 0));
        for (int phase = 0; phase < 3; phase++) {
            int kind = (int)r.below(5);
            for (size_t n = r.below(4) ? r.below(60) : 0; n > 0; n--) {
                uint64_t c = r.below(k), a = r.below(k);
                if (kind == 0) a = c;                  // perfect
                if (kind == 1) c = 0;                  // one class only
                if (kind == 2) a = 0;                  // always the same answer
                if (kind == 3 && r.chance(0.8)) a = c; // good
                le.see(c, a);
                want[c][a]++;
            }
            VH_CHECK(le.getClassificationTable() == want, "confusion table", k << " classes, phase " << phase);
            long double g = 0;
            for (size_t c = 0; c < k; c++) g += f1(want, c);
            VH_CHECK(close(le.getScore(), g / k), "score of the environment", le.getScore() << " instead of " << (double)(g / k));
            vh::count("tables");
            if (g == k) vh::count("perfect_tables");
            bool zero = false;
            for (size_t c = 0; c < k; c++) zero |= want[c][c] == 0;
            if (zero) vh::count("tables_without_true_positive");
            try {
                le.see(r.below(k), k + r.below(3));
                VH_CHECK(false, "impossible answer accepted", k);
            }
            catch (const std::runtime_error&) {
            }
            catch (const std::out_of_range&) {
            }
            VH_CHECK(le.getClassificationTable() == want, "impossible answer recorded", k);
            if (r.chance(0.5)) {
                le.reset(r.next(), Mode::TRAINING, 0, 0);
                want = Table(k, std::vector<uint64_t>(k, 0));
                VH_CHECK(le.getClassificationTable() == want, "table after a reset", k);
            }
        }
    }
}
static void caseMerge(Rng& r)
{
    for (int round = 0; round < 40; round++) {
        size_t k = 1 + r.below(6);
        Model m(k);
        std::unique_ptr<CRes> acc;
        for (size_t step = 0; step < 2 + r.below(5); step++) {
            std::vector<double> sc(k);
            std::vector<size_t> n(k);
            Model x(k);
            for (size_t c = 0; c < k; c++) {
                n[c] = r.chance(0.3) ? 0 : 1 + r.below(r.chance(0.2) ? 100000 : 10);
                sc[c] = n[c] == 0 || r.chance(0.2) ? 0.0 : r.chance(0.2) ? 1.0 : r.unit();
                x.score[c] = sc[c];
                x.n[c] = n[c];
            }
            auto e = std::make_unique<CRes>(sc, n);
            judgeResult(*e, x, "", "new");
            if (!acc) {
                acc = std::move(e);
                m = x;
            }
            else {
                *acc += *e;
                m.add(x);
                judgeResult(*acc, m, "", "accumulated");
                judgeResult(*e, x, "", "added");
            }
        }
        // What cannot be added is refused.
        std::vector<double> other(k + 1 + r.below(2), 0.5);
        CRes o(other, std::vector<size_t>(other.size(), 1));
        Learn::EvaluationResult plain(1.0, 3);
        auto refused = [&](auto f) {
            try {
                f();
                return false;
            }
            catch (const std::runtime_error&) {
                return true;
            }
        };
        VH_CHECK(refused([&] { *acc += o; }), "other number of classes accepted", k);
        VH_CHECK(refused([&] { *acc += plain; }), "other type accepted", k);
        VH_CHECK(refused([&] { plain += *acc; }), "other type accepted", k);
        VH_CHECK(refused([&] { CRes(std::vector<double>(k), std::vector<size_t>(k + 1)); }), "sizes differ", k);
        judgeResult(*acc, m, "", "after a refusal");
        vh::count("refusals", 4);
    }
}
// --- Selection.
struct Selection
{
    size_t classes;
    double ratio;
    std::string ctx;
    std::vector<std::pair<V, std::vector<double>>> roots; // root, score of each class then global score
    std::set<V> teams;
    size_t vertices = 0;
    void before(const TPG::TPGGraph& g, const Results& res)
    {
        roots.clear();
        teams.clear();
        auto rs = g.getRootVertices();
        std::set<V> all(rs.begin(), rs.end());
        for (auto& x : res) {
            if (!all.count(x.second)) continue;
            auto v = dynamic_cast<const CRes&>(*x.first).getScorePerClass();
            v.push_back(x.first->getResult());
            roots.push_back({x.second, v});
            if (isTeam(x.second)) teams.insert(x.second);
        }
        vertices = g.getNbVertices();
        VH_CHECK(roots.size() == rs.size(), "results of all roots", ctx);
    }
    // The m-th best score (from 1) in column c.
    double threshold(size_t c, size_t m) const
    {
        std::vector<double> v;
        for (auto& x : roots) v.push_back(x.second[c]);
        std::sort(v.rbegin(), v.rend());
        return v[m - 1];
    }
    void after(const TPG::TPGGraph& g)
    {
        auto left = g.getVertices();
        std::set<V> alive(left.begin(), left.end());
        size_t removed = 0, actions = roots.size() - teams.size();
        for (auto& x : roots)
            if (!alive.count(x.first)) {
                removed++;
                VH_CHECK(teams.count(x.first), "root action removed", ctx);
            }
        VH_CHECK(vertices - left.size() == removed, "something else than a root removed", ctx);
        size_t del = (size_t)std::floor(ratio * (double)roots.size()), keep = roots.size() - del;
        VH_CHECK(removed <= del, "too many roots removed", removed << " of " << roots.size() << " instead of " << del << " " << ctx);
        VH_CHECK(removed + actions >= del, "too few roots removed", removed << " of " << roots.size() << " instead of " << del << ", " << actions << " root actions " << ctx);
        size_t m = keep / classes / 2;
        std::vector<double> th;
        for (size_t c = 0; m && c < classes; c++) {
            th.push_back(threshold(c, m));
            size_t n = 0;
            for (auto& x : roots) {
                if (x.second[c] > th[c]) VH_CHECK(alive.count(x.first), "one of the best roots of a class removed", "class " << c << ": " << x.second[c] << ", the best " << m << " reach " << th[c] << " " << ctx);
                if (x.second[c] >= th[c] && alive.count(x.first)) n++;
            }
            VH_CHECK(n >= m, "too few of the best roots of a class kept", n << " instead of " << m << " for class " << c << " " << ctx);
            vh::count("class_quotas");
        }
        // Others survive by their global score, or because they are root actions.
        double bestGone = -INFINITY;
        for (auto& x : roots)
            if (!alive.count(x.first)) bestGone = std::max(bestGone, x.second[classes]);
        size_t privileged = 0;
        for (auto& x : roots)
            if (alive.count(x.first) && x.second[classes] < bestGone) {
                bool may = !teams.count(x.first);
                for (size_t c = 0; c < th.size(); c++) may |= x.second[c] >= th[c];
                VH_CHECK(may, "worse root kept", "score " << x.second[classes] << " kept, " << bestGone << " removed " << ctx);
                if (teams.count(x.first)) privileged++;
            }
        if (privileged) vh::count("kept_for_a_class", privileged);
        if (m) vh::count("selections_with_quota");
        if (actions && removed) vh::count("selections_with_root_actions");
        vh::count("selections");
        vh::count("roots_removed", removed);
    }
};
static void caseDirect(Rng& r)
{
    Quiet q;
    LSpecOptions o;
    o.pArrays = 0;
    o.maxActions = 5;
    auto s = makeSpec(r, o);
    auto p = makeParams(r, *s, 40);
    p.ratioDeletedRoots = r.chance(0.1) ? 1.0 : r.chance(0.5) ? r.unit() : 0.3 * r.unit();
    ClassEnv le(s);
    Learn::ClassificationLearningAgent<Learn::LearningAgent> a(le, s->set, p);
    a.init(r.next());
    auto g = a.getTPGGraph();
    Selection sel{s->nbActions, p.ratioDeletedRoots, describe(p), {}, {}, 0};
    for (int round = 0; round < 4 && g->getNbRootVertices() > 0; round++) {
        for (size_t i = r.below(3); i > 0; i--) g->addNewAction(r.below(s->nbActions));
        int kind = (int)r.below(5);
        Results res;
        for (V v : g->getRootVertices()) {
            std::vector<double> sc(s->nbActions);
            std::vector<size_t> n(s->nbActions, 1 + r.below(5));
            size_t special = r.below(sc.size());
            for (size_t c = 0; c < sc.size(); c++)
                switch (kind) {
                case 0: sc[c] = r.unit(); break;
                case 1: sc[c] = (double)r.below(3) / 2; break;
                case 2: sc[c] = c == special ? 0.5 + r.unit() / 2 : r.unit() / 5; break; // specialists
                case 3: sc[c] = 0.25; break;
                default: sc[c] = c == 0 ? r.unit() : 0.0; break;
                }
            res.emplace(std::make_shared<CRes>(sc, n), v);
        }
        sel.before(*g, res);
        Results old = res;
        a.decimateWorstRoots(res);
        sel.after(*g);
        auto left = g->getVertices();
        std::set<V> alive(left.begin(), left.end());
        std::set<std::pair<const void*, V>> a1, a2;
        for (auto& x : old)
            if (alive.count(x.second)) a1.insert({x.first.get(), x.second});
        for (auto& x : res) a2.insert({x.first.get(), x.second});
        VH_CHECK(a1 == a2 && a1.size() == res.size(), "results handed on", sel.ctx);
        // Clones keep the population large.
        std::vector<V> teams;
        for (V v : g->getRootVertices())
            if (isTeam(v)) teams.push_back(v);
        for (size_t i = r.below(20); i > 0 && !teams.empty(); i--) g->cloneVertex(*r.pick(teams));
    }
    // Plain results are refused and nothing is removed.
    if (g->getNbRootVertices()) {
        Results res;
        for (V v : g->getRootVertices()) res.emplace(std::make_shared<Learn::EvaluationResult>(1.0, 1), v);
        size_t n = g->getNbVertices();
        try {
            a.decimateWorstRoots(res);
            VH_CHECK(false, "plain results accepted", sel.ctx);
        }
        catch (const std::runtime_error&) {
        }
        VH_CHECK(g->getNbVertices() == n, "refused selection removes vertices", sel.ctx);
    }
}
// --- Whole trainings.
template <class Base> static void kase(Rng& r)
{
    typedef Spy<Learn::ClassificationLearningAgent<Base>> A;
    Quiet q;
    LSpecOptions o;
    o.pArrays = 0.05;
    o.maxActions = 4;
    auto s = makeSpec(r, o);
    if (r.chance(0.7)) s->maxSteps += 5 + r.below(30);
    auto p = makeParams(r, *s, 20);
    p.maxNbActionsPerEval = r.chance(0.2) ? 1 + r.below(3) : 40;
    p.maxNbEvaluationPerPolicy = r.chance(0.3) ? 1000 : 1 + r.below(150);
    if (r.chance(0.5)) p.ratioDeletedRoots *= 0.4;
    double left = (double)p.mutation.tpg.nbRoots - std::ceil(p.ratioDeletedRoots * (double)(p.mutation.tpg.nbRoots + s->nbActions));
    if (left < 3.0 * (double)s->nbActions) p.mutation.tpg.pEdgeDestinationIsAction = 0;
    std::string ctx = describe(p) + " " + s->describe();
    vh::sample(ctx);
    auto rec = std::make_shared<Recorder>();
    ClassEnv le(s, rec);
    A a(le, s->set, p);
    Sim<ClassEnv> sim(s, p);
    Selection sel{s->nbActions, p.ratioDeletedRoots, ctx, {}, {}, 0};
    std::map<V, Model> known, fresh;
    uint64_t gen = 0;
    std::map<V, size_t> evaluated; // number of iterations of each root
    // What the environments were told.
    auto judgeRuns = [&](Mode mode) {
        le.w.close();
        std::vector<Run> runs;
        {
            std::lock_guard<std::mutex> l(rec->m);
            runs.swap(rec->runs);
        }
        std::map<V, std::map<uint64_t, size_t>> iterations;
        for (auto& x : runs) {
            if (!x.root) continue;
            VH_CHECK(x.mode == mode, "mode of a run", (int)x.mode << " instead of " << (int)mode << " " << ctx);
            VH_CHECK(x.gen == gen, "generation number of a run", x.gen << " instead of " << gen << " " << ctx);
            iterations[x.root][x.iter]++;
        }
        for (auto& x : evaluated) {
            VH_CHECK(iterations[x.first].size() == x.second, "iteration numbers of the runs", iterations[x.first].size() << " instead of " << x.second << " " << ctx);
            for (auto& i : iterations[x.first])
                VH_CHECK(i.first < x.second && i.second == 1, "iteration numbers of the runs", i.second << " times iteration " << i.first << " " << ctx);
            vh::count("runs_announced", x.second);
        }
        evaluated.clear();
    };
    auto judge = [&](V root, const Learn::EvaluationResult& e, Mode mode) {
        Model m(s->nbActions);
        bool had = mode == Mode::TRAINING && known.count(root);
        if (had && known[root].total() >= p.maxNbEvaluationPerPolicy) {
            m = known[root];
            vh::count("skipped");
        }
        else {
            for (uint64_t i = 0; i < p.nbIterationsPerPolicyEvaluation; i++) {
                Data::Hash<uint64_t> h;
                sim.play({root}, h(gen) ^ h(i), mode, p.maxNbActionsPerEval);
                Table t = sim.le.getClassificationTable();
                for (size_t c = 0; c < s->nbActions; c++) {
                    m.score[c] += f1(t, c) / p.nbIterationsPerPolicyEvaluation;
                    m.n[c] += support(t, c);
                }
                vh::count("runs_replayed");
            }
            evaluated[root] = p.nbIterationsPerPolicyEvaluation;
            if (had) {
                m.add(known[root]);
                vh::count("accumulated");
            }
        }
        judgeResult(e, m, ctx, mode == Mode::TRAINING ? "training" : "validation");
        if (mode == Mode::TRAINING) fresh[root] = m;
    };
    FnLogger log(a);
    log.onNew = [&](uint64_t) {
        bool team = false;
        for (V v : a.getTPGGraph()->getRootVertices()) team |= isTeam(v);
        if (!team) known.clear();
    };
    log.onEvaluate = [&](Results& res) {
        fresh.clear();
        VH_CHECK(res.size() == a.getTPGGraph()->getNbRootVertices(), "one result per root", ctx);
        for (auto& x : res) judge(x.second, *x.first, Mode::TRAINING);
        judgeRuns(Mode::TRAINING);
        sel.before(*a.getTPGGraph(), res);
    };
    log.onDecimate = [&] {
        sel.after(*a.getTPGGraph());
        for (auto& x : fresh) known[x.first] = x.second;
        auto vs = a.getTPGGraph()->getVertices();
        std::set<V> alive(vs.begin(), vs.end());
        for (auto it = known.begin(); it != known.end();)
            if (alive.count(it->first)) ++it;
            else it = known.erase(it);
    };
    log.onValidate = [&](Results& res) {
        for (auto& x : res) judge(x.second, *x.first, Mode::VALIDATION);
        judgeRuns(Mode::VALIDATION);
        vh::count("validations");
    };
    a.init(r.next());
    for (uint64_t n = 2 + r.below(5); gen < n; gen++) {
        a.trainOneGeneration(gen);
        vh::count("generations");
    }
    vh::distinct(hashStr(graphText(*a.getTPGGraph())));
}
VH_MAIN({"table", 1, caseTable}, {"merge", 1, caseMerge}, {"direct", 2, caseDirect}, {"sequential", 2, kase<Learn::LearningAgent>}, {"parallel", 1, kase<Learn::ParallelLearningAgent>})
