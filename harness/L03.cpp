// L03: a policy's score is the exact mean of its evaluations and is never recomputed.
// Oracle: every run of the environment is logged and re-simulated by the reference interpreter; a model keeps all scores.
#include "gen_learn.hpp"
using namespace gen;
using vh::Rng;
typedef Learn::LearningMode Mode;
typedef FnLogger::Results Results;

struct Score { long double sum = 0, mag = 0; uint64_t n = 0; };
template <class A> struct Watch
{
    std::shared_ptr<LSpec> s;
    Learn::LearningParameters p;
    std::shared_ptr<Recorder> rec = std::make_shared<Recorder>();
    PlainEnv le;
    A a;
    Sim<PlainEnv> sim;
    std::map<const TPG::TPGVertex*, Score> known, fresh;
    std::map<std::pair<uint64_t, uint64_t>, uint64_t> seeds; // of each (generation, iteration)
    uint64_t gen = 0;
    std::string ctx;

    Watch(std::shared_ptr<LSpec> sp, const Learn::LearningParameters& pa)
        : s(sp), p(pa), le(sp, rec), a(le, sp->set, pa), sim(sp, pa), ctx(describe(pa) + " " + sp->describe()) {}

    std::vector<Run> take()
    {
        le.w.close();
        std::lock_guard<std::mutex> l(rec->m);
        std::vector<Run> v;
        v.swap(rec->runs);
        return v;
    }
    bool mine(double got, const Score& sc) const
    {
        long double m = sc.sum / (long double)sc.n;
        return std::fabs((long double)got - m) <= 1e-11L * (1 + sc.mag);
    }
    // What the evaluation of one policy must have done and returned.
    void judge(const TPG::TPGVertex* root, const std::vector<const Run*>& runs, const Learn::EvaluationResult& res, Mode mode, uint64_t g)
    {
        Score sc;
        bool training = mode == Mode::TRAINING;
        if (training && known.count(root)) sc = known[root];
        bool skip = training && sc.n >= p.maxNbEvaluationPerPolicy && known.count(root);
        size_t expected = skip ? 0 : p.nbIterationsPerPolicyEvaluation;
        VH_CHECK(runs.size() == expected, skip ? "evaluated policy run again" : "number of iterations",
                 runs.size() << " runs instead of " << expected << " after " << sc.n << " evaluations, mode " << (int)mode << " " << ctx);
        for (size_t i = 0; i < runs.size(); i++) {
            const Run& x = *runs[i];
            VH_CHECK(x.mode == mode, "mode", (int)x.mode << " instead of " << (int)mode << " " << ctx);
            VH_CHECK(x.gen == g && x.iter == i, "generation or iteration number", x.gen << "/" << x.iter << " instead of " << g << "/" << i << " " << ctx);
            auto sd = seeds.emplace(std::make_pair(g, i), x.seed);
            VH_CHECK(sd.first->second == x.seed, "seed depends on something else", "generation " << g << " iteration " << i << " mode " << (int)mode << " " << ctx);
            if (sd.second)
                for (auto& o : seeds)
                    if ((o.first.first == g) != (o.first.second == i))
                        VH_CHECK(o.second != x.seed, "seed does not depend on generation or iteration",
                                 "same seed for " << g << "/" << i << " and " << o.first.first << "/" << o.first.second << " " << ctx);
            auto acts = sim.play({root}, x.seed, mode, p.maxNbActionsPerEval);
            VH_CHECK(!x.afterTerminal, "action after the end", ctx);
            VH_CHECK(x.actions.size() == acts.size(), "number of actions", x.actions.size() << " instead of " << acts.size() << " " << ctx);
            VH_CHECK(x.actions == acts, "actions are not the policy's", ctx);
            double v = sim.le.getScore();
            sc.sum += v;
            sc.mag = std::max(sc.mag, std::fabs((long double)v));
            sc.n++;
            vh::count("iterations_replayed");
            vh::count("actions_replayed", acts.size());
            if (x.ended && acts.size() == p.maxNbActionsPerEval) vh::count("ended_on_last_action");
            if (!x.ended) vh::count("runs_cut");
            if (acts.empty()) vh::count("runs_without_action");
        }
        VH_CHECK(res.getNbEvaluation() == sc.n, "number of evaluations", res.getNbEvaluation() << " instead of " << sc.n << " mode " << (int)mode << " " << ctx);
        VH_CHECK(mine(res.getResult(), sc), "score is not the mean", res.getResult() << " instead of " << (double)(sc.sum / sc.n) << " over " << sc.n << " iterations, mode " << (int)mode << " " << ctx);
        if (skip) vh::count("skipped");
        else if (sc.n > expected) vh::count("accumulated");
        if (training) fresh[root] = sc;
    }
    void all(const Results& results, Mode mode, uint64_t g)
    {
        auto runs = take();
        std::map<const TPG::TPGVertex*, std::vector<const Run*>> per;
        for (auto& x : runs) per[x.root].push_back(&x);
        auto roots = a.getTPGGraph()->getRootVertices();
        std::set<const TPG::TPGVertex*> rs(roots.begin(), roots.end()), seen;
        VH_CHECK(results.size() == roots.size(), "one result per root", results.size() << " results, " << roots.size() << " roots " << ctx);
        for (auto& x : per) VH_CHECK(rs.count(x.first), "run of something else than a root", ctx);
        double last = -INFINITY;
        for (auto& x : results) {
            VH_CHECK(rs.count(x.second) && seen.insert(x.second).second, "one result per root", ctx);
            VH_CHECK(x.first->getResult() >= last, "results sorted", ctx);
            last = x.first->getResult();
            judge(x.second, per[x.second], *x.first, mode, g);
        }
        vh::count(mode == Mode::TRAINING ? "trainings" : mode == Mode::VALIDATION ? "validations" : "testings");
    }
    struct Print { uint64_t archive, draw; const TPG::TPGVertex* best; const void* bestRes; std::string graph; double last; };
    Print print() { return {archivePrint(a.getArchive()), nextDraw(a), a.getBestRoot().first, a.getBestRoot().second.get(), graphText(*a.getTPGGraph()), 0}; }
    void unchanged(const Print& b, const std::string& what)
    {
        Print n = print();
        VH_CHECK(n.archive == b.archive, what + " changed the archive", ctx);
        VH_CHECK(n.draw == b.draw, what + " used the generator", ctx);
        VH_CHECK(n.best == b.best && n.bestRes == b.bestRes, what + " changed the best policy", ctx);
        VH_CHECK(n.graph == b.graph, what + " changed the graph", ctx);
        vh::count("purity_checks");
    }
    void purge()
    {
        auto v = a.getTPGGraph()->getVertices();
        std::set<const TPG::TPGVertex*> alive(v.begin(), v.end());
        for (auto it = known.begin(); it != known.end();)
            if (alive.count(it->first)) ++it;
            else it = known.erase(it);
    }
    void go(Rng& r)
    {
        FnLogger log(a);
        Print afterDecimate;
        log.onNew = [&](uint64_t) {
            bool team = false;
            for (auto v : a.getTPGGraph()->getRootVertices()) team |= dynamic_cast<const TPG::TPGTeam*>(v) != nullptr;
            if (!team) known.clear(); // all vertices will be replaced
        };
        log.onEvaluate = [&](Results& res) {
            fresh.clear();
            all(res, Mode::TRAINING, gen);
            known = fresh; // (roots that became internal keep theirs, see below)
        };
        std::map<const TPG::TPGVertex*, Score> before;
        log.onPopulate = [&] { before = known; };
        log.onDecimate = [&] {
            for (auto& b : before) known.insert(b);
            purge();
            afterDecimate = print();
        };
        log.onValidate = [&](Results& res) {
            all(res, Mode::VALIDATION, gen);
            unchanged(afterDecimate, "validation");
        };
        a.init(r.next());
        uint64_t n = 2 + r.below(6);
        for (uint64_t g = 0; g < n; g++) {
            gen = g;
            a.trainOneGeneration(g);
            vh::count("generations");
            take();
            switch (r.below(9)) {
            case 0: {
                Print b = print();
                Mode m = r.chance(0.5) ? Mode::TESTING : Mode::VALIDATION;
                uint64_t gg = r.chance(0.5) ? g : g + 1 + r.below(100);
                auto res = a.evaluateAllRoots(gg, m);
                all(res, m, gg);
                unchanged(b, m == Mode::TESTING ? "testing" : "validation");
                break;
            }
            case 1:
            case 2: {
                auto vs = a.getTPGGraph()->getVertices();
                auto v = r.pick(vs);
                Mode m = r.chance(0.4) ? Mode::TRAINING : r.chance(0.5) ? Mode::TESTING : Mode::VALIDATION;
                Print b = print();
                auto res = a.evaluateOneRoot(g, m, v);
                auto runs = take();
                std::vector<const Run*> rr;
                for (auto& x : runs) {
                    VH_CHECK(x.root == v, "evaluateOneRoot runs another policy", ctx);
                    rr.push_back(&x);
                }
                judge(v, rr, *res, m, g);
                if (m != Mode::TRAINING) unchanged(b, "evaluateOneRoot");
                vh::count("single_evaluations");
                if (r.chance(0.2)) {
                    // A vertex of another graph is refused.
                    TPG::TPGGraph other(a.getTPGGraph()->getEnvironment());
                    const TPG::TPGVertex* x = r.chance(0.5) ? (const TPG::TPGVertex*)&other.addNewAction(0) : r.chance(0.5) ? (const TPG::TPGVertex*)&other.addNewTeam() : nullptr;
                    Print c = print();
                    VH_THROWS(a.evaluateOneRoot(g, m, x), std::runtime_error, "vertex of another graph evaluated", ctx);
                    unchanged(c, "a refused evaluation");
                    VH_CHECK(take().empty(), "vertex of another graph evaluated", "the environment was used " << ctx);
                    vh::count("evaluations_refused");
                }
                break;
            }
            case 3: { // an evaluation alone changes no record
                auto res = a.evaluateAllRoots(g, Mode::TRAINING);
                all(res, Mode::TRAINING, g);
                break;
            }
            case 4:
                if (r.chance(0.5)) {
                    a.forgetPreviousResults();
                    known.clear();
                    VH_CHECK(a.getBestRoot().first == nullptr, "best policy kept by forgetPreviousResults", ctx);
                    vh::count("forgotten");
                }
                break;
            case 5:
                if (r.chance(0.3) && p.mutation.tpg.pEdgeDestinationIsAction == 0.0) {
                    a.keepBestPolicy();
                    purge();
                    vh::count("pruned");
                }
                break;
            case 6:
                if (r.chance(0.3)) {
                    a.init(r.next());
                    known.clear();
                    vh::count("reinitialised");
                }
                break;
            default: break;
            }
        }
        vh::distinct(hashStr(graphText(*a.getTPGGraph())));
    }
};
static std::pair<std::shared_ptr<LSpec>, Learn::LearningParameters> setup(Rng& r)
{
    LSpecOptions o;
    o.pArrays = 0.15;
    o.pNotCopyable = 0.1;
    auto s = makeSpec(r, o);
    auto p = makeParams(r, *s, 8);
    return {s, p};
}
template <class A> static void kase(Rng& r)
{
    Quiet q;
    auto [s, p] = setup(r);
    Watch<Spy<A>> w(s, p);
    vh::sample(w.ctx);
    w.go(r);
}
// Twin trainings, one of them with extra validations and tests: same outcome.
template <class A, class E, class... X> static std::string train(Rng r, const std::shared_ptr<LSpec>& s, Learn::LearningParameters p, uint64_t seed, bool extra, X... x)
{
    std::ostringstream o;
    E le(s);
    if (!extra) p.doValidation = false;
    A a(le, s->set, p, x...);
    a.init(seed);
    for (uint64_t g = 0; g < 3; g++) {
        uint64_t c = r.below(4);
        if (extra) {
            if (c & 1) a.evaluateAllRoots(g, Mode::VALIDATION);
            if (c & 2) a.evaluateAllRoots(g, Mode::TESTING);
            vh::count("extra_evaluations");
        }
        FnLogger log(a);
        a.trainOneGeneration(g);
        o << "generation " << g << " " << graphText(*a.getTPGGraph());
        auto b = a.getBestRoot();
        o << " best " << indexOf(*a.getTPGGraph(), b.first) << " " << vh::bits(b.second->getResult()) << " " << b.second->getNbEvaluation() << " " << nextDraw(a);
        o << " archive";
        for (size_t i = 0; i < a.getArchive().getNbRecordings(); i++) o << " " << vh::bits(a.getArchive().at(i).result);
    }
    return o.str();
}
template <class A, class E, class... X> static void twins(Rng& r, const char* kind, bool small, X... x)
{
    Quiet q;
    auto [s, p] = setup(r);
    if (small) {
        p.nbIterationsPerPolicyEvaluation = 1 + r.below(2);
        s->agents = 2;
        s->copyable = true;
    }
    p.doValidation = true;
    uint64_t seed = r.next();
    Rng rr(r.next());
    std::string t1 = train<A, E>(rr, s, p, seed, false, x...), t2 = train<A, E>(rr, s, p, seed, true, x...);
    size_t d = 0;
    while (d < t1.size() && d < t2.size() && t1[d] == t2[d]) d++;
    VH_CHECK(t1 == t2, std::string("validation or testing changes the training: ") + kind,
             "..." << t1.substr(d > 50 ? d - 50 : 0, 120) << "... vs ..." << t2.substr(d > 50 ? d - 50 : 0, 120) << " " << describe(p) << " " << s->describe());
    vh::count(std::string("twins_") + kind);
}
static void caseTwins(Rng& r)
{
    switch (r.below(4)) {
    case 0: twins<Learn::LearningAgent, PlainEnv>(r, "sequential", false); break;
    case 1: twins<Learn::ParallelLearningAgent, PlainEnv>(r, "parallel", false); break;
    case 2: twins<Learn::AdversarialLearningAgent, DuelEnv>(r, "adversarial", true, (size_t)2); break;
    default: twins<Learn::ClassificationLearningAgent<Learn::ParallelLearningAgent>, ClassEnv>(r, "classification", false); break;
    }
}
VH_MAIN({"sequential", 2, kase<Learn::LearningAgent>}, {"parallel", 1, kase<Learn::ParallelLearningAgent>}, {"twins", 1, caseTwins})
