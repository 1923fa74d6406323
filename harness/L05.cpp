// L05: adversarial matches are fair, complete and correctly attributed.
// Oracle: every job, match and result is logged; combinatorics checked, matches re-simulated by the reference interpreter.
#include "gen_learn.hpp"
#include "learn/adversarialJob.h"
using namespace gen;
using vh::Rng;
typedef Learn::LearningMode Mode;
typedef FnLogger::Results Results;
typedef const TPG::TPGVertex* V;

struct Played
{
    uint64_t idx;
    std::vector<V> roots;
    int seat;
    std::vector<double> scores;
    size_t n;
};
struct Agent : Learn::AdversarialLearningAgent
{
    using AdversarialLearningAgent::AdversarialLearningAgent;
    mutable std::mutex m;
    mutable std::vector<Played> played;
    std::shared_ptr<Learn::EvaluationResult> evaluateJob(TPG::TPGExecutionEngine& tee, const Learn::Job& job, uint64_t gen, Mode mode,
                                                         Learn::LearningEnvironment& le) const override
    {
        Context saved = context();
        context() = {job.getRoot(), job.getIdx() + 1};
        auto r = AdversarialLearningAgent::evaluateJob(tee, job, gen, mode, le);
        context() = saved;
        auto& j = dynamic_cast<const Learn::AdversarialJob&>(job);
        auto a = std::dynamic_pointer_cast<Learn::AdversarialEvaluationResult>(r);
        Played p{job.getIdx(), j.getRoots(), j.getPosOfStudiedRoot(), {}, a->getNbEvaluation()};
        for (size_t i = 0; i < a->getSize(); i++) p.scores.push_back(a->getScoreOf((int)i));
        std::lock_guard<std::mutex> l(m);
        played.push_back(p);
        return r;
    }
    std::vector<V> champs() const { return champions; }
};
struct Watch
{
    std::shared_ptr<LSpec> s;
    Learn::LearningParameters p;
    std::shared_ptr<Recorder> rec = std::make_shared<Recorder>();
    DuelEnv le;
    Agent a;
    Sim<DuelEnv> sim;
    std::string ctx;
    std::set<V> eligible; // expected champions; empty: none designated yet
    std::map<std::pair<uint64_t, uint64_t>, uint64_t> seeds;

    Watch(std::shared_ptr<LSpec> sp, const Learn::LearningParameters& pa)
        : s(sp), p(pa), le(sp, rec), a(le, sp->set, pa, sp->agents), sim(sp, pa), ctx(describe(pa) + " " + sp->describe()) {}

    void evaluated(const Results& results, Mode mode, uint64_t g)
    {
        le.w.close();
        std::vector<Run> runs;
        {
            std::lock_guard<std::mutex> l(rec->m);
            runs.swap(rec->runs);
        }
        std::vector<Played> played;
        played.swap(a.played);
        auto roots = a.getTPGGraph()->getRootVertices();
        std::set<V> rootSet(roots.begin(), roots.end());
        size_t seats = s->agents;
        size_t teams = (p.nbIterationsPerPolicyEvaluation + seats * p.nbIterationsPerJob - 1) / (seats * p.nbIterationsPerJob);

        // Who played whom.
        std::map<V, std::multiset<std::pair<int, std::vector<V>>>> matches;
        std::set<V> opponents;
        for (auto& j : played) {
            VH_CHECK(j.roots.size() == seats, "number of agents in a match", j.roots.size() << " instead of " << seats << " " << ctx);
            VH_CHECK(j.seat >= 0 && j.seat < (int)seats, "seat", j.seat << " " << ctx);
            V studied = j.roots[j.seat];
            VH_CHECK(rootSet.count(studied), "a match studies something else than a root", ctx);
            std::vector<V> others = j.roots;
            others.erase(others.begin() + j.seat);
            for (V o : others) opponents.insert(o);
            matches[studied].insert({j.seat, others});
        }
        VH_CHECK(matches.size() == roots.size(), "roots without match", matches.size() << " of " << roots.size() << " " << ctx);
        auto& first = matches[roots[0]];
        for (V v : roots) VH_CHECK(matches[v] == first, "roots do not play the same matches", matches[v].size() << " and " << first.size() << " matches " << ctx);
        VH_CHECK(first.size() == teams * seats, "number of matches", first.size() << " instead of " << teams << " teams x " << seats << " seats " << ctx);
        std::map<std::vector<V>, std::vector<size_t>> bySeat;
        for (auto& x : first) {
            auto& c = bySeat[x.second];
            c.resize(seats);
            c[x.first]++;
        }
        for (auto& x : bySeat)
            for (size_t c : x.second) VH_CHECK(c == x.second[0], "a team of champions is not met at every seat equally", ctx);
        auto all = a.getTPGGraph()->getVertices();
        for (V o : opponents) {
            VH_CHECK(std::find(all.begin(), all.end(), o) != all.end(), "opponent out of the graph", ctx);
            if (eligible.empty()) VH_CHECK(rootSet.count(o), "first champion is no root", ctx);
            else VH_CHECK(eligible.count(o), "opponent is no champion", ctx);
            vh::count("opponents");
        }
        if (teams > 1) vh::count("several_teams");

        // The matches themselves.
        std::map<uint64_t, std::vector<const Run*>> byJob;
        for (auto& x : runs)
            if (x.job) byJob[x.job - 1].push_back(&x);
        std::map<V, std::pair<long double, size_t>> sums;
        double mag = 1;
        std::set<uint64_t> ids;
        for (auto& j : played) {
            VH_CHECK(ids.insert(j.idx).second, "job index used twice", ctx);
            auto& rr = byJob[j.idx];
            VH_CHECK(rr.size() == p.nbIterationsPerJob, "number of matches per job", rr.size() << " instead of " << p.nbIterationsPerJob << " " << ctx);
            std::vector<long double> sum(seats, 0);
            for (size_t i = 0; i < rr.size(); i++) {
                const Run& x = *rr[i];
                VH_CHECK(x.mode == mode, "mode", ctx);
                VH_CHECK(x.gen == g && x.iter == i, "generation or iteration number", x.gen << "/" << x.iter << " instead of " << g << "/" << i << " " << ctx);
                auto sd = seeds.emplace(std::make_pair(g, i), x.seed);
                VH_CHECK(sd.first->second == x.seed, "matches of an iteration have different seeds", ctx);
                auto acts = sim.play(j.roots, x.seed, mode, p.maxNbActionsPerEval * seats);
                VH_CHECK(!x.afterTerminal, "action after the end", ctx);
                VH_CHECK(x.actions == acts, "turns or actions of a match", x.actions.size() << " actions, expected " << acts.size() << " " << ctx);
                for (size_t k = 0; k < seats; k++) {
                    double v = sim.le.w.score(k);
                    sum[k] += v;
                    mag = std::max(mag, std::fabs(v));
                }
                vh::count("matches_replayed");
                vh::count("turns_replayed", acts.size());
                if (x.ended && acts.size() % seats) vh::count("ended_within_a_turn");
                if (!x.ended) vh::count("matches_cut");
            }
            VH_CHECK(j.scores.size() == seats && j.n == p.nbIterationsPerJob, "result of a job", ctx);
            for (size_t k = 0; k < seats; k++)
                VH_CHECK(std::fabs((double)(sum[k] / rr.size()) - j.scores[k]) <= 1e-10 * mag, "score of a seat", "seat " << k << ": " << j.scores[k] << " instead of " << (double)(sum[k] / rr.size()) << " " << ctx);
            auto& t = sums[j.roots[j.seat]];
            t.first += sum[j.seat];
            t.second += rr.size();
        }
        VH_CHECK(results.size() == roots.size(), "one result per root", ctx);
        double last = -INFINITY;
        std::set<V> seen;
        for (auto& x : results) {
            VH_CHECK(rootSet.count(x.second) && seen.insert(x.second).second, "one result per root", ctx);
            auto& t = sums[x.second];
            VH_CHECK(x.first->getNbEvaluation() == t.second, "number of evaluations", x.first->getNbEvaluation() << " instead of " << t.second << " " << ctx);
            VH_CHECK(std::fabs(x.first->getResult() - (double)(t.first / t.second)) <= 1e-10 * mag, "score of a root", x.first->getResult() << " instead of " << (double)(t.first / t.second) << " " << ctx);
            VH_CHECK(x.first->getResult() >= last, "results sorted", ctx);
            last = x.first->getResult();
            vh::count("root_scores");
        }
        vh::count(mode == Mode::TRAINING ? "trainings" : "other_evaluations");
        if (mode == Mode::TRAINING) designated(results);
    }
    // Champions after a training evaluation.
    void designated(const Results& results)
    {
        auto c = a.champs();
        std::set<V> cs(c.begin(), c.end());
        double share = (1.0 - p.ratioDeletedRoots) * (double)results.size();
        size_t lo = (size_t)std::floor(share - 1e-9), hi = (size_t)std::floor(share + 1e-9);
        VH_CHECK(cs.size() == c.size(), "a champion twice", ctx);
        VH_CHECK(c.size() >= lo && c.size() <= hi, "number of champions", c.size() << " instead of " << lo << " among " << results.size() << " " << ctx);
        double worstIn = INFINITY, bestOut = -INFINITY;
        for (auto& x : results)
            if (cs.count(x.second)) worstIn = std::min(worstIn, x.first->getResult());
            else bestOut = std::max(bestOut, x.first->getResult());
        VH_CHECK(bestOut <= worstIn, "champions are not the best", "worst champion " << worstIn << ", best other " << bestOut << " " << ctx);
        size_t known = 0;
        for (auto& x : results) known += cs.count(x.second);
        VH_CHECK(known == c.size(), "a champion was not evaluated", ctx);
        eligible = cs;
        vh::count("champions_designated", c.size());
        if (c.empty()) vh::count("no_champion");
    }
    void exist()
    {
        auto all = a.getTPGGraph()->getVertices();
        std::set<V> alive(all.begin(), all.end());
        for (V v : a.champs()) VH_CHECK(alive.count(v), "champion out of the graph", ctx);
        for (auto it = eligible.begin(); it != eligible.end();)
            if (alive.count(*it)) ++it;
            else {
                it = eligible.erase(it);
                vh::count("champions_removed");
            }
        auto c = a.champs();
        VH_CHECK(std::set<V>(c.begin(), c.end()) == eligible, "champions are not those designated", ctx);
    }
    void go(Rng& r)
    {
        FnLogger log(a);
        uint64_t gen = 0;
        log.onNew = [&](uint64_t) {
            bool team = false;
            for (auto v : a.getTPGGraph()->getRootVertices()) team |= dynamic_cast<const TPG::TPGTeam*>(v) != nullptr;
            if (!team) eligible.clear();
        };
        log.onEvaluate = [&](Results& res) { evaluated(res, Mode::TRAINING, gen); };
        log.onDecimate = [&] { exist(); };
        log.onValidate = [&](Results& res) {
            evaluated(res, Mode::VALIDATION, gen);
            exist();
        };
        a.init(r.next());
        uint64_t n = 1 + r.below(5);
        for (uint64_t g = 0; g < n; g++) {
            gen = g;
            a.trainOneGeneration(g);
            vh::count("generations");
            switch (r.below(8)) {
            case 0: {
                Mode m = r.chance(0.5) ? Mode::TESTING : r.chance(0.5) ? Mode::VALIDATION : Mode::TRAINING;
                auto res = a.evaluateAllRoots(g, m);
                evaluated(res, m, g);
                exist();
                break;
            }
            case 1:
                if (r.chance(0.3)) {
                    a.init(r.next());
                    eligible.clear();
                    exist();
                    vh::count("reinitialised");
                }
                break;
            case 2:
                if (p.mutation.tpg.pEdgeDestinationIsAction == 0.0 && r.chance(0.5)) {
                    a.keepBestPolicy();
                    exist();
                    vh::count("pruned");
                }
                break;
            case 3:
                if (r.chance(0.5)) {
                    a.forgetPreviousResults();
                    auto c = a.champs();
                    eligible = std::set<V>(c.begin(), c.end());
                }
                break;
            default: break;
            }
        }
        vh::distinct(hashStr(graphText(*a.getTPGGraph())));
    }
};
static void caseGo(Rng& r)
{
    Quiet q;
    LSpecOptions o;
    o.pArrays = 0.1;
    o.pNotCopyable = 0.1;
    auto s = makeSpec(r, o);
    auto p = makeParams(r, *s, 8);
    p.nbIterationsPerPolicyEvaluation = 1 + r.below(r.chance(0.2) ? 12 : 5);
    if (!s->copyable && p.nbThreads > 1) {
        DuelEnv le(s);
        Learn::AdversarialLearningAgent a(le, s->set, p, s->agents);
        a.init(1);
        VH_THROWS(a.evaluateAllRoots(0, Mode::TRAINING), std::runtime_error, "environment that cannot be copied accepted", describe(p));
        vh::count("not_copyable_refused");
        p.nbThreads = 1;
    }
    // Root actions of low score.
    if (r.chance(0.3)) {
        p.mutation.tpg.pEdgeDestinationIsAction = 0;
        p.ratioDeletedRoots = 0.5 + 0.45 * r.unit();
    }
    Watch w(s, p);
    vh::sample(w.ctx);
    w.go(r);
}
// Results of matches, combined and divided in any order.
static std::shared_ptr<Learn::AdversarialEvaluationResult> makeResult(const std::vector<double>& v, size_t n)
{
    typedef Learn::AdversarialEvaluationResult R;
    switch (v.size()) {
    case 1: return std::make_shared<R>(std::initializer_list<double>{v[0]}, n);
    case 2: return std::make_shared<R>(std::initializer_list<double>{v[0], v[1]}, n);
    case 3: return std::make_shared<R>(std::initializer_list<double>{v[0], v[1], v[2]}, n);
    default: return std::make_shared<R>(std::initializer_list<double>{v[0], v[1], v[2], v[3]}, n);
    }
}
static void caseResults(Rng& r)
{
    size_t n = 1 + r.below(4);
    auto scores = [&](size_t k) {
        std::vector<double> v;
        for (size_t i = 0; i < k; i++) v.push_back(r.chance(0.2) ? (double)r.below(3) : (r.unit() - 0.5) * 2000);
        return v;
    };
    std::vector<long double> sum(n, 0);
    size_t count = 0;
    std::shared_ptr<Learn::AdversarialEvaluationResult> total;
    if (r.chance(0.5)) total = std::make_shared<Learn::AdversarialEvaluationResult>(n);
    else {
        auto v = scores(n);
        count = 1 + r.below(9);
        total = makeResult(v, count);
        for (size_t i = 0; i < n; i++) sum[i] = (long double)v[i] * count;
    }
    auto verify = [&](const char* after) {
        long double mean = 0;
        VH_CHECK(total->getSize() == n && total->getNbEvaluation() == count, "count of a result", total->getNbEvaluation() << " instead of " << count << " after " << after);
        if (count == 0) return;
        for (size_t i = 0; i < n; i++) {
            double want = (double)(sum[i] / count), is = total->getScoreOf((int)i);
            VH_CHECK(std::fabs(is - want) <= 1e-9 * (1 + std::fabs(want)), "score of a result", is << " instead of " << want << " at " << i << " of " << n << " after " << after);
            mean += sum[i] / count / n;
        }
        VH_CHECK(std::fabs(total->getResult() - (double)mean) <= 1e-9 * (1 + std::fabs((double)mean)), "mean of a result",
                 total->getResult() << " instead of " << (double)mean << " after " << after);
    };
    verify("creation");
    for (int step = 0; step < 12; step++) {
        switch (r.below(4)) {
        case 0: {
            if (count == 0) break;
            double d = r.chance(0.5) ? (double)(1 + r.below(9)) : 0.25 + r.unit();
            Learn::EvaluationResult& back = (*total /= d);
            VH_CHECK(&back == total.get(), "division", "another result is returned");
            for (auto& x : sum) x /= d;
            verify("a division");
            break;
        }
        case 1: {
            size_t m = 1 + r.below(4);
            if (m == n) break;
            VH_THROWS(*total += *makeResult(scores(m), 1), std::runtime_error, "result of another size", "accepted: " << m << " scores with " << n);
            VH_THROWS(*total += Learn::EvaluationResult(1.0, 1), std::runtime_error, "result of another type", "accepted");
            verify("a refused addition");
            vh::count("results_refused");
            break;
        }
        default: {
            auto v = scores(n);
            size_t k = 1 + r.below(9);
            auto other = makeResult(v, k);
            *total += *other;
            for (size_t i = 0; i < n; i++) sum[i] += (long double)v[i] * k;
            count += k;
            verify("an addition");
            for (size_t i = 0; i < n; i++) VH_CHECK(other->getScoreOf((int)i) == v[i] && other->getNbEvaluation() == k, "added result", "it was changed");
            vh::count("results_combined");
        }
        }
    }
    // The score of an environment used by a single agent is that of its first seat.
    Quiet q;
    auto s = makeSpec(r, LSpecOptions());
    DuelEnv e(s);
    e.reset(r.next(), Mode::TRAINING, 0, 0);
    for (uint64_t i = r.below(5); i > 0 && !e.isTerminal(); i--) e.doAction(r.below(s->nbActions));
    VH_CHECK(e.getScore() == e.getScores()->getScoreOf(0), "score of an adversarial environment", e.getScore());
    vh::distinct(vh::mix(vh::bits(total->getResult()), count));
}
VH_MAIN({"go", 4, caseGo}, {"results", 1, caseResults})
