// O01: logs report the true course of the training.
// Oracle: what the agent's evaluations returned and the graph itself, observed at every hook; twins without loggers;
// an independent search of cycles.
#include "gen_learn.hpp"
#include "log/cycleDetectionLALogger.h"
#include "log/laBasicLogger.h"
#include "log/laPolicyStatsLogger.h"
#include "tpg/policyStats.h"
#include <numeric>
#include <unistd.h>
using namespace gen;
using vh::Rng;
typedef const TPG::TPGVertex* V;
typedef FnLogger::Results Results;
typedef std::chrono::system_clock Clock;

// An agent that tells what its evaluations returned.
template <class Base> struct Watched : Base
{
    using Base::Base;
    struct Eval { uint64_t gen; Learn::LearningMode mode; Results results; };
    std::vector<Eval> evals;
    Results evaluateAllRoots(uint64_t gen, Learn::LearningMode mode) override
    {
        Results r = Base::evaluateAllRoots(gen, mode);
        evals.push_back({gen, mode, r});
        return r;
    }
};
// Scores of any magnitude.
struct ScaledEnv : PlainEnv
{
    double factor;
    bool slow;
    ScaledEnv(std::shared_ptr<const LSpec> s, std::shared_ptr<Recorder> r, double f, bool slow) : PlainEnv(s, r), factor(f), slow(slow) {}
    ScaledEnv(const ScaledEnv& o) = default;
    LearningEnvironment* clone() const override { return new ScaledEnv(*this); }
    double getScore() const override
    {
        if (slow) std::this_thread::sleep_for(std::chrono::milliseconds(2));
        return factor * PlainEnv::getScore();
    }
};
static std::vector<std::string> words(const std::string& s)
{
    std::istringstream i(s);
    std::vector<std::string> o;
    for (std::string w; i >> w;) o.push_back(w);
    return o;
}
static bool number(const std::string& s, double& x)
{
    char* end;
    x = strtod(s.c_str(), &end);
    return !s.empty() && *end == 0;
}
// Written with two decimals.
static bool same(const std::string& s, double x, double slack = 0)
{
    double y;
    if (!number(s, y)) return false;
    if (std::isnan(x) || std::isinf(x)) return vh::bits(x) == vh::bits(y) || (std::isnan(x) && std::isnan(y));
    return std::fabs(x - y) <= 1e-12 * std::fabs(x) + 0.005001 + slack;
}
struct Marks // the times at which a bracket logger was called
{
    Clock::time_point made, fresh, populate, evaluate, decimate, validate, end;
};
struct Row
{
    uint64_t gen;
    size_t vertices;
    Results train, valid;
    bool validated;
    Marks m[2];
};
static void judgeScores(const std::vector<std::string>& w, size_t at, const Results& r, const char* what, const std::string& ctx)
{
    long double sum = 0, abs = 0;
    double lo = INFINITY, hi = -INFINITY;
    for (auto& x : r) {
        double v = x.first->getResult();
        sum += v;
        abs += std::fabs(v);
        lo = std::min(lo, v);
        hi = std::max(hi, v);
    }
    double n = (double)r.size();
    VH_CHECK(same(w[at], lo), std::string(what) + ": minimum of a row", w[at] << " instead of " << lo << " " << ctx);
    VH_CHECK(same(w[at + 1], (double)(sum / n), (double)(abs / n) * 1e-12), std::string(what) + ": mean of a row", w[at + 1] << " instead of " << (double)(sum / n) << " " << ctx);
    VH_CHECK(same(w[at + 2], hi), std::string(what) + ": maximum of a row", w[at + 2] << " instead of " << hi << " " << ctx);
    if (hi > lo) vh::count("rows_with_spread");
    if (lo < 0) vh::count("rows_with_negative_scores");
}
static double secs(Clock::duration d) { return std::chrono::duration<double>(d).count(); }
static void judgeTime(const std::string& w, const std::string& what, const Row& r, Clock::time_point Marks::*inFrom, Clock::time_point Marks::*from, Clock::time_point Marks::*to, const std::string& ctx)
{
    double x;
    VH_CHECK(number(w, x), "duration of " + what + " is not a number", w << " " << ctx);
    // Loggers are called in any order: the widest and the narrowest interval.
    double most = secs(std::max(r.m[0].*to, r.m[1].*to) - std::min(r.m[0].*from, r.m[1].*from));
    double least = secs(std::min(r.m[0].*to, r.m[1].*to) - std::max(r.m[0].*inFrom, r.m[1].*inFrom));
    VH_CHECK(x <= most + 0.00501 && x >= least - 0.00501, "duration of " + what, w << " not in " << least << ".." << most << " " << ctx);
    if (least > 0.02) vh::count("durations_told_apart");
}
template <class A, class E> struct Session
{
    std::shared_ptr<LSpec> s;
    Learn::LearningParameters p;
    uint64_t seed;
    std::vector<uint64_t> gens; // trained generations; UINT64_MAX: initialise again
    std::function<std::unique_ptr<E>(std::shared_ptr<Recorder>)> env;
    std::function<std::unique_ptr<Watched<A>>(E&)> agent;

    std::string print(const Watched<A>& a, Learn::LearningAgent& la)
    {
        std::ostringstream o;
        auto& g = *la.getTPGGraph();
        o << graphText(g) << indexOf(g, la.getBestRoot().first) << " " << nextDraw(la) << " ";
        for (auto& e : a.evals) {
            o << e.gen << (int)e.mode;
            for (auto& x : e.results) o << " " << vh::bits(x.first->getResult());
        }
        for (size_t i = 0; i < la.getArchive().getNbRecordings(); i++) o << vh::bits(la.getArchive().at(i).result) << " ";
        return o.str();
    }
    std::string alone()
    {
        auto le = env(nullptr);
        auto a = agent(*le);
        std::ostringstream o;
        a->init(seed);
        for (uint64_t g : gens) {
            if (g == UINT64_MAX) a->init(seed ^ 5);
            else a->trainOneGeneration(g);
            o << "\n" << print(*a, *a);
        }
        return o.str();
    }
    std::string logged(Rng& r)
    {
        auto le = env(nullptr);
        auto a = agent(*le);
        std::ostringstream fp, basicOut, statsOut, cycleOut;
        std::string ctx = describe(p) + " " + s->describe();
        std::vector<Row> rows;
        std::vector<std::string> sections; // expected
        std::string order[2];
        bool withStats = r.chance(0.7), withCycles = r.chance(0.5), success = r.chance(0.5), flag = r.chance(0.9) ? p.doValidation : !p.doValidation;
        size_t populated = 0;
        Clock::time_point made[2], madeAfter[2];
        Row cur;
        size_t before = 0;
        V last = nullptr;
        auto evalsOf = [&](Learn::LearningMode m) -> const Results& {
            VH_CHECK(!a->evals.empty() && a->evals.back().mode == m && a->evals.back().gen == cur.gen, "hook called before its evaluation", ctx);
            return a->evals.back().results;
        };
        auto attach = [&](FnLogger& l, int k) {
            l.onNew = [&, k](uint64_t g) {
                order[k] += 'N';
                cur.gen = k == 0 ? g : cur.gen;
                VH_CHECK(cur.gen == g, "generation told to a hook", g << " " << ctx);
                VH_CHECK(a->getTPGGraph()->getNbVertices() == before, "first hook called after the generation began", ctx);
                cur.m[k].fresh = Clock::now();
            };
            l.onPopulate = [&, k] {
                order[k] += 'P';
                cur.m[k].populate = Clock::now();
                cur.vertices = a->getTPGGraph()->getNbVertices();
                if (k) {
                    populated++;
                    if (a->getBestRoot().first == nullptr) last = nullptr; // everything was replaced
                }
            };
            l.onEvaluate = [&, k](Results& res) {
                order[k] += 'E';
                cur.m[k].evaluate = Clock::now();
                VH_CHECK(res == evalsOf(Learn::LearningMode::TRAINING), "results told after the evaluation", ctx);
                VH_CHECK(a->getTPGGraph()->getNbVertices() == cur.vertices, "hook after evaluation called after the decimation", ctx);
                cur.train = res;
            };
            l.onDecimate = [&, k] {
                order[k] += 'D';
                cur.m[k].decimate = Clock::now();
                cur.validated = false;
                VH_CHECK(!evalsOf(Learn::LearningMode::TRAINING).empty(), "evaluation without result", ctx);
                if (k == 0) return;
                auto best = a->getBestRoot();
                VH_CHECK(best.first && a->getTPGGraph()->hasVertex(*best.first), "hook called before the best policy is known", ctx);
                if (best.first == last) {
                    vh::count("best_policy_kept");
                    return;
                }
                last = best.first;
                TPG::PolicyStats ps;
                ps.setEnvironment(a->getTPGGraph()->getEnvironment());
                ps.analyzePolicy(last);
                std::ostringstream o, sc;
                o << ps;
                sc << best.second->getResult();
                sections.push_back("Generation " + std::to_string(cur.gen) + " - Score " + sc.str() + " " + o.str());
            };
            l.onValidate = [&, k](Results& res) {
                order[k] += 'V';
                cur.m[k].validate = Clock::now();
                VH_CHECK(res == evalsOf(Learn::LearningMode::VALIDATION), "results told after the validation", ctx);
                cur.valid = res;
                cur.validated = true;
            };
            l.onEnd = [&, k] {
                order[k] += 'X';
                cur.m[k].end = Clock::now();
            };
        };
        made[0] = Clock::now();
        FnLogger first(*a);
        std::unique_ptr<Log::LABasicLogger> basic;
        std::unique_ptr<Log::LAPolicyStatsLogger> stats;
        std::unique_ptr<Log::CycleDetectionLALogger> cycles;
        basic.reset(new Log::LABasicLogger(*a, basicOut));
        madeAfter[0] = Clock::now();
        basic->doValidation = flag;
        size_t header = basicOut.str().size();
        if (withStats) stats.reset(new Log::LAPolicyStatsLogger(*a, statsOut));
        if (withCycles) cycles.reset(new Log::CycleDetectionLALogger(*a, cycleOut, success));
        FnLogger second(*a);
        attach(first, 0);
        attach(second, 1);
        a->init(seed);
        for (uint64_t g : gens) {
            if (g == UINT64_MAX) {
                a->init(seed ^ 5);
                last = nullptr;
                vh::count("initialised_again");
            }
            else {
                cur = Row();
                before = a->getTPGGraph()->getNbVertices();
                order[0].clear();
                order[1].clear();
                a->trainOneGeneration(g);
                std::string want = p.doValidation ? "NPEDVX" : "NPEDX";
                VH_CHECK(order[0] == want && order[1] == want, "order of the hooks", order[0] << " " << order[1] << " instead of " << want << " " << ctx);
                VH_CHECK(cur.gen == g, "generation told to a hook", cur.gen << " instead of " << g << " " << ctx);
                rows.push_back(cur);
                vh::count("generations");
                if (p.doValidation) vh::count("validations");
            }
            fp << "\n" << print(*a, *a);
        }
        // Rows.
        std::istringstream in(basicOut.str().substr(header));
        std::string line;
        size_t i = 0;
        while (std::getline(in, line)) {
            VH_CHECK(i < rows.size(), "more rows than generations", basicOut.str() << ctx);
            auto& row = rows[i++];
            std::string c = "row: " + line + " " + ctx;
            auto w = words(line);
            VH_CHECK(w.size() == 8 + (row.validated ? 3u : 0u) + (flag ? 1u : 0u), "columns of a row", w.size() << " " << c);
            VH_CHECK(w[0] == std::to_string(row.gen), "generation of a row", row.gen << " " << c);
            VH_CHECK(w[1] == std::to_string(row.vertices), "number of vertices of a row", row.vertices << " " << c);
            judgeScores(w, 2, row.train, "evaluation", c);
            size_t at = 5;
            if (row.validated) {
                judgeScores(w, at, row.valid, "validation", c);
                at += 3;
                vh::count("rows_with_validation");
            }
            judgeTime(w[at++], "the mutations", row, &Marks::fresh, &Marks::fresh, &Marks::populate, c);
            judgeTime(w[at++], "the evaluation", row, &Marks::populate, &Marks::populate, &Marks::evaluate, c);
            if (flag && row.validated) judgeTime(w[at++], "the validation", row, &Marks::decimate, &Marks::evaluate, &Marks::validate, c);
            else if (flag) at++;
            double total, most = secs(std::max(row.m[0].end, row.m[1].end) - made[0]), least = secs(std::min(row.m[0].end, row.m[1].end) - madeAfter[0]);
            VH_CHECK(number(w[at], total) && total <= most + 0.00501 && total >= least - 0.00501, "total duration", w[at] << " not in " << least << ".." << most << " " << c);
            vh::count("rows");
        }
        VH_CHECK(i == rows.size(), "rows missing", i << " rows for " << rows.size() << " generations " << ctx);
        // Policies.
        if (withStats) {
            std::string all = statsOut.str();
            std::vector<std::string> got;
            for (size_t at = 0;;) {
                size_t e = all.find("==========", at);
                if (e == std::string::npos) break;
                got.push_back(all.substr(at, e - at));
                at = e + 10;
            }
            for (size_t k = 0; k < std::min(got.size(), sections.size()); k++)
                VH_CHECK(words(got[k]) == words(sections[k]), "policy logged", got[k] << "\ninstead of\n" << sections[k] << " " << ctx);
            VH_CHECK(got.size() == sections.size(), "number of policies logged", got.size() << " instead of " << sections.size() << " " << ctx);
            vh::count("policies_logged", got.size());
        }
        if (withCycles) {
            std::string all = cycleOut.str();
            VH_CHECK(all.find("A cycle was") == std::string::npos, "cycle logged in a training", ctx);
            size_t n = 0;
            for (size_t at = 0; (at = all.find("No cycle detected", at)) != std::string::npos; at++) n++;
            VH_CHECK(n == (success ? populated : 0), "absence of cycles logged", n << " times instead of " << populated << " " << ctx);
            vh::count("trainings_searched_for_cycles");
        }
        return fp.str();
    }
    void run(Rng& r)
    {
        std::string b = logged(r), a = alone();
        VH_CHECK(a == b, "loggers change the training", describe(p) + " " + s->describe());
        vh::count("twin_trainings");
        vh::distinct(hashStr(a));
    }
};
template <class A, class E, class... X> static void session(Rng& r, std::function<std::unique_ptr<E>(std::shared_ptr<LSpec>, std::shared_ptr<Recorder>)> env, X... x)
{
    Quiet q;
    LSpecOptions lo;
    lo.pArrays = 0.05;
    Session<A, E> t;
    t.s = makeSpec(r, lo);
    t.s->agents = 2;
    t.p = makeParams(r, *t.s, 10);
    t.p.doValidation = r.chance(0.5);
    if (std::is_same<E, DuelEnv>::value) t.p.nbIterationsPerPolicyEvaluation = 1 + r.below(2);
    t.seed = r.next();
    uint64_t n = 1 + r.below(6), g = r.chance(0.8) ? 0 : r.below(100000000);
    for (uint64_t i = 0; i < n; i++) t.gens.push_back(g + i);
    if (r.chance(0.3)) {
        t.gens.push_back(UINT64_MAX);
        for (uint64_t i = 0; i < n; i++) t.gens.push_back(i);
    }
    auto s = t.s;
    auto p = t.p;
    t.env = [s, env](std::shared_ptr<Recorder> rec) { return env(s, rec); };
    t.agent = [s, p, x...](E& e) { return std::make_unique<Watched<A>>(e, s->set, p, x...); };
    t.run(r);
}
template <class A> static void scaled(Rng& r)
{
    static const double factors[] = {1, 1, -1, 1e-3, -1e-5, 1e6, -1e7, 1e20, -1e200};
    double f = factors[r.below(9)];
    bool slow = r.chance(0.04);
    session<A, ScaledEnv>(r, [f, slow](std::shared_ptr<LSpec> s, std::shared_ptr<Recorder> rec) { return std::make_unique<ScaledEnv>(s, rec, f, slow); });
}
static void caseTraining(Rng& r)
{
    switch (r.below(6)) {
    case 0:
    case 1: scaled<Learn::LearningAgent>(r); break;
    case 2: scaled<Learn::ParallelLearningAgent>(r); break;
    case 3: session<Learn::AdversarialLearningAgent, DuelEnv>(r, [](std::shared_ptr<LSpec> s, std::shared_ptr<Recorder> rec) { return std::make_unique<DuelEnv>(s, rec); }, (size_t)2); break;
    case 4: session<Learn::ClassificationLearningAgent<Learn::LearningAgent>, ClassEnv>(r, [](std::shared_ptr<LSpec> s, std::shared_ptr<Recorder> rec) { return std::make_unique<ClassEnv>(s, rec); }); break;
    default: session<Learn::ClassificationLearningAgent<Learn::ParallelLearningAgent>, ClassEnv>(r, [](std::shared_ptr<LSpec> s, std::shared_ptr<Recorder> rec) { return std::make_unique<ClassEnv>(s, rec); });
    }
}
// A whole training: the configured generations in order, none after it was asked to stop, the same as one by one.
struct Captured // what is printed meanwhile
{
    int old;
    FILE* f = std::tmpfile();
    Captured()
    {
        std::fflush(stdout);
        old = dup(1);
        dup2(fileno(f), 1);
    }
    std::string end()
    {
        std::fflush(stdout);
        dup2(old, 1);
        close(old);
        std::string s;
        std::rewind(f);
        for (int c; (c = std::fgetc(f)) != EOF;) s += (char)c;
        std::fclose(f);
        return s;
    }
};
template <class A, class E, class... X> static void wholeTraining(Rng& r, const char* kind, X... x)
{
    Quiet q;
    LSpecOptions lo;
    lo.pArrays = 0.05;
    auto s = makeSpec(r, lo);
    s->agents = 2;
    s->copyable = true;
    auto p = makeParams(r, *s, 8);
    p.doValidation = r.chance(0.3);
    if (std::is_same<E, DuelEnv>::value) p.nbIterationsPerPolicyEvaluation = 1;
    p.nbGenerations = r.below(6);
    uint64_t seed = r.next(), stop = r.chance(0.5) ? UINT64_MAX : r.below(p.nbGenerations + 1);
    bool before = r.chance(0.1), print = r.chance(0.7);
    unsigned hook = (unsigned)r.below(3);
    std::string ctx = std::string(kind) + " generations=" + std::to_string(p.nbGenerations) + " stop=" + std::to_string(stop) + " " + describe(p) + " " + s->describe();
    auto state = [](Learn::LearningAgent& a) {
        std::ostringstream o;
        auto b = a.getBestRoot();
        o << graphText(*a.getTPGGraph()) << " best " << indexOf(*a.getTPGGraph(), b.first) << " ";
        if (b.second) o << vh::bits(b.second->getResult()) << " " << b.second->getNbEvaluation();
        o << " " << nextDraw(a) << " archive";
        for (size_t i = 0; i < a.getArchive().getNbRecordings(); i++) o << " " << vh::bits(a.getArchive().at(i).result);
        return o.str();
    };
    uint64_t expected = before ? 0 : stop < p.nbGenerations ? stop + 1 : p.nbGenerations;
    bool asked = before || stop < p.nbGenerations;
    E le1(s), le2(s);
    A whole(le1, s->set, p, x...), stepwise(le2, s->set, p, x...);
    whole.init(seed);
    stepwise.init(seed);
    volatile bool alt = before;
    std::vector<uint64_t> seen;
    FnLogger log(whole);
    auto ask = [&](unsigned h) {
        if (h == hook && seen.back() == stop) const_cast<bool&>(alt) = true;
    };
    log.onNew = [&](uint64_t g) {
        seen.push_back(g);
        ask(0);
    };
    log.onEvaluate = [&](Results&) { ask(1); };
    log.onEnd = [&] { ask(2); };
    Captured c;
    uint64_t n = whole.train(const_cast<volatile bool&>(alt), print);
    std::string out = c.end();
    FnLogger none(stepwise);
    for (uint64_t g = 0; g < expected; g++) stepwise.trainOneGeneration(g);
    std::vector<uint64_t> wanted(expected);
    std::iota(wanted.begin(), wanted.end(), 0);
    VH_CHECK(seen == wanted, "generations of a training", seen.size() << " generations instead of " << expected << "; " << ctx);
    VH_CHECK(n == expected, "number of generations returned", n << " instead of " << expected << "; " << ctx);
    VH_CHECK(state(whole) == state(stepwise), "a training differs from its generations", ctx);
    vh::count(before ? "trainings_not_started" : asked ? "trainings_stopped" : "trainings_completed");
    if (!print) {
        VH_CHECK(out.empty(), "unwanted progress", out.substr(0, 200) << " " << ctx);
        return;
    }
    std::string last = out.substr(out.rfind('\r') == std::string::npos ? 0 : out.rfind('\r'));
    VH_CHECK((size_t)std::count(out.begin(), out.end(), '\r') == expected, "progress", out << " " << ctx);
    VH_CHECK((out.find("completed") != std::string::npos) == !asked, "end of training announced", out << " " << ctx);
    if (asked)
        VH_CHECK(out.find(" generation " + std::to_string(expected) + ".") != std::string::npos, "end of training announced", out << " " << ctx);
    if (expected) {
        char percent[40];
        double ratio = (double)expected / (double)p.nbGenerations;
        std::snprintf(percent, sizeof percent, "%.2f%%", ratio * 100.0);
        size_t from = last.find('['), to = last.find(']');
        VH_CHECK(from != std::string::npos && to != std::string::npos && to - from - 1 == 50 &&
                     (size_t)std::count(last.begin() + from + 1, last.begin() + to, ' ') == 50 - (size_t)(ratio * 50) &&
                     last.find(percent) != std::string::npos,
                 "progress", last << " " << ctx);
    }
    vh::count("progress_checked");
}
static void caseTrain(Rng& r)
{
    switch (r.below(4)) {
    case 0: wholeTraining<Learn::LearningAgent, PlainEnv>(r, "sequential"); break;
    case 1: wholeTraining<Learn::ParallelLearningAgent, PlainEnv>(r, "parallel"); break;
    case 2: wholeTraining<Learn::AdversarialLearningAgent, DuelEnv>(r, "adversarial", (size_t)2); break;
    default: wholeTraining<Learn::ClassificationLearningAgent<Learn::LearningAgent>, ClassEnv>(r, "classification");
    }
}
// Any graph: a cycle is reported if there is one, its absence if asked.
static void caseCycles(Rng& r)
{
    Quiet q;
    auto s = makeSpec(r);
    auto p = makeParams(r, *s, 5);
    PlainEnv le(s, nullptr);
    Learn::LearningAgent a(le, s->set, p);
    std::ostringstream loud, quiet;
    Log::CycleDetectionLALogger l(a, loud, true), l2(a, quiet, false);
    auto& g = *a.getTPGGraph();
    for (int round = 0; round < 10; round++) {
        g.clear();
        size_t n = r.chance(0.05) ? 0 : 1 + r.below(9), m = r.below(4), ne = r.below(2 * n + 2);
        std::vector<const TPG::TPGTeam*> teams;
        std::vector<V> vs;
        for (size_t i = 0; i < n; i++) {
            teams.push_back(&g.addNewTeam());
            vs.push_back(teams.back());
        }
        for (size_t i = 0; i < m; i++) vs.push_back(&g.addNewAction(i));
        for (size_t i = vs.size(); i > 1; i--) std::swap(vs[i - 1], vs[r.below(i)]);
        bool ordered = r.chance(0.4); // acyclic
        auto prog = std::make_shared<Program::Program>(a.getTPGGraph()->getEnvironment());
        for (size_t i = 0; n > 0 && i < ne; i++) {
            V t = teams[r.below(n)], d = r.pick(vs);
            if (ordered && std::find(vs.begin(), vs.end(), d) <= std::find(vs.begin(), vs.end(), t)) continue;
            g.addNewEdge(*t, *d, prog);
        }
        // Vertices without remaining predecessors are removed until there is none.
        std::map<V, size_t> in;
        for (V v : g.getVertices())
            for (auto e : v->getOutgoingEdges()) in[e->getDestination()]++;
        std::set<V> left;
        for (V v : g.getVertices()) left.insert(v);
        for (bool more = true; more;) {
            more = false;
            for (V v : std::set<V>(left))
                if (in[v] == 0) {
                    left.erase(v);
                    for (auto e : v->getOutgoingEdges()) in[e->getDestination()]--;
                    more = true;
                }
        }
        bool cyclic = !left.empty();
        loud.str("");
        quiet.str("");
        l.logAfterPopulateTPG();
        l2.logAfterPopulateTPG();
        for (auto* o : {&loud, &quiet}) {
            bool found = o->str().find("A cycle was detected") != std::string::npos, absent = o->str().find("No cycle detected") != std::string::npos;
            VH_CHECK(found == cyclic, cyclic ? "cycle not reported" : "cycle reported in an acyclic graph", graphText(g));
            VH_CHECK(absent == (!cyclic && o == &loud), absent ? "absence of cycles reported in a cyclic graph" : "absence of cycles not reported", graphText(g));
        }
        if (cyclic) {
            bool rooted = false; // reachable from a root
            std::set<V> seen;
            std::vector<V> todo;
            for (V v : g.getRootVertices()) todo.push_back(v);
            while (!todo.empty()) {
                V v = todo.back();
                todo.pop_back();
                if (!seen.insert(v).second) continue;
                rooted |= left.count(v) > 0;
                for (auto e : v->getOutgoingEdges()) todo.push_back(e->getDestination());
            }
            vh::count(rooted ? "rooted_cycles" : "cycles_without_root");
        }
        else vh::count("acyclic_graphs");
        vh::distinct(hashStr(graphText(g)));
    }
    g.clear();
}
VH_MAIN({"training", 3, caseTraining}, {"cycles", 1, caseCycles}, {"train", 0.5, caseTrain})
