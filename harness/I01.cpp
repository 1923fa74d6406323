// I01: instrumentation counts exactly what was executed and changes nothing.
// Oracle: a model of all counters fed by the reference interpreter, and plain twins.
#include "gen_learn.hpp"
#include "tpg/instrumented/executionStats.h"
#include "tpg/instrumented/tpgActionInstrumented.h"
#include "tpg/instrumented/tpgEdgeInstrumented.h"
#include "tpg/instrumented/tpgExecutionEngineInstrumented.h"
#include "tpg/instrumented/tpgInstrumentedFactory.h"
#include "tpg/instrumented/tpgTeamInstrumented.h"
#include <json.h>
#include <random>
using namespace gen;
using vh::Rng;
typedef const TPG::TPGVertex* V;
typedef const TPG::TPGEdge* Ed;

static bool isTeam(V v) { return dynamic_cast<const TPG::TPGTeam*>(v) != nullptr; }
static uint64_t visits(V v)
{
    auto i = dynamic_cast<const TPG::TPGVertexInstrumentation*>(v);
    VH_CHECK(i, "vertex of an instrumented graph is not instrumented", "");
    return i->getNbVisits();
}
static const TPG::TPGEdgeInstrumented& inst(Ed e)
{
    auto i = dynamic_cast<const TPG::TPGEdgeInstrumented*>(e);
    VH_CHECK(i, "edge of an instrumented graph is not instrumented", "");
    return *i;
}
struct Counts
{
    std::map<V, uint64_t> v;
    std::map<Ed, std::pair<uint64_t, uint64_t>> e; // visits, traversals
    void team(V t, Ed win)
    {
        v[t]++;
        for (auto x : t->getOutgoingEdges()) e[x].first++;
        e[win].second++;
    }
    void add(const Counts& o)
    {
        for (auto& x : o.v) v[x.first] += x.second;
        for (auto& x : o.e) {
            e[x.first].first += x.second.first;
            e[x.first].second += x.second.second;
        }
    }
    void check(const TPG::TPGGraph& g, const std::string& ctx)
    {
        for (V x : g.getVertices()) {
            VH_CHECK(visits(x) == v[x], isTeam(x) ? "visits of a team" : "visits of an action", visits(x) << " instead of " << v[x] << " " << ctx);
            vh::count("counters_checked");
        }
        for (auto& x : g.getEdges()) {
            auto& i = inst(x.get());
            auto& w = e[x.get()];
            VH_CHECK(i.getNbVisits() == w.first, "evaluations of an edge", i.getNbVisits() << " instead of " << w.first << " " << ctx);
            VH_CHECK(i.getNbTraversal() == w.second, "traversals of an edge", i.getNbTraversal() << " instead of " << w.second << " " << ctx);
            vh::count("counters_checked", 2);
        }
    }
};
static Ed winner(const EnvBundle& e, V t)
{
    Ed best = nullptr;
    double bb = 0;
    for (auto x : t->getOutgoingEdges()) {
        double b = refBid(e, x->getProgram());
        if (!best || !(b < bb)) {
            best = x;
            bb = b;
        }
    }
    return best;
}
static std::vector<V> follow(const EnvBundle& e, V root, Counts& c)
{
    std::vector<V> p{root};
    while (isTeam(p.back())) {
        Ed w = winner(e, p.back());
        c.team(p.back(), w);
        p.push_back(w->getDestination());
    }
    c.v[p.back()]++;
    return p;
}
// Statistics of one trace.
struct Stat
{
    uint64_t teams = 0, programs = 0, lines = 0;
    std::map<uint64_t, uint64_t> instr;
    explicit Stat(const std::vector<V>& t)
    {
        for (size_t i = 0; i + 1 < t.size(); i++) {
            teams++;
            for (auto e : t[i]->getOutgoingEdges()) {
                programs++;
                auto& p = e->getProgram();
                lines += p.getNbLines();
                for (size_t k = 0; k < p.getNbLines(); k++) instr[p.getLine(k).getInstructionIndex()]++;
            }
        }
    }
};
struct Averages
{
    double teams = 0, programs = 0, lines = 0;
    std::map<size_t, double> instr;
    uint64_t inferences = 0;
};
static bool near(double a, double b, double tol = 1e-12) { return std::fabs(a - b) <= tol * (1 + std::fabs(b)); }
// From the model of the counters.
static Averages averages(const TPG::TPGGraph& g, Counts& c)
{
    Averages a;
    for (V r : g.getRootVertices()) a.inferences += c.v[r];
    long double teams = 0, programs = 0, lines = 0;
    std::map<size_t, long double> instr;
    for (V v : g.getVertices())
        if (isTeam(v)) {
            teams += c.v[v];
            for (auto e : v->getOutgoingEdges()) {
                uint64_t n = c.e[e].first;
                auto& p = e->getProgram();
                programs += n;
                lines += (long double)n * p.getNbLines();
                for (size_t k = 0; n && k < p.getNbLines(); k++) instr[p.getLine(k).getInstructionIndex()] += n;
            }
        }
    a.teams = (double)(teams / a.inferences);
    a.programs = (double)(programs / a.inferences);
    a.lines = (double)(lines / a.inferences);
    for (auto& x : instr) a.instr[x.first] = (double)(x.second / a.inferences);
    return a;
}
static void judgeAverages(const TPG::ExecutionStats& s, const Averages& a, const std::string& ctx)
{
    if (a.inferences == 0) return;
    VH_CHECK(near(s.getAvgEvaluatedTeams(), a.teams), "average of teams", s.getAvgEvaluatedTeams() << " instead of " << a.teams << " " << ctx);
    VH_CHECK(near(s.getAvgEvaluatedPrograms(), a.programs), "average of programs", s.getAvgEvaluatedPrograms() << " instead of " << a.programs << " " << ctx);
    VH_CHECK(near(s.getAvgExecutedLines(), a.lines), "average of lines", s.getAvgExecutedLines() << " instead of " << a.lines << " " << ctx);
    auto& i = s.getAvgNbExecutionPerInstruction();
    for (auto& x : a.instr) {
        auto it = i.find(x.first);
        VH_CHECK(it != i.end() && near(it->second, x.second), "average of an instruction", (it == i.end() ? -1 : it->second) << " instead of " << x.second << " " << ctx);
    }
    for (auto& x : i) VH_CHECK(x.second == 0 || a.instr.count(x.first), "average of an unused instruction", x.second << " " << ctx);
    vh::count("averages_checked");
}
static void judgeTraces(const TPG::ExecutionStats& s, const std::vector<std::vector<V>>& traces, const std::string& ctx)
{
    auto& got = s.getInferenceTracesStats();
    VH_CHECK(got.size() == traces.size(), "number of analysed traces", got.size() << " instead of " << traces.size() << " " << ctx);
    std::map<size_t, size_t> dt, dp, dl;
    std::map<size_t, std::map<size_t, size_t>> di;
    std::map<V, size_t> dv;
    for (size_t i = 0; i < traces.size(); i++) {
        Stat w(traces[i]);
        VH_CHECK(got[i].trace == traces[i], "analysed trace", ctx);
        VH_CHECK(got[i].nbEvaluatedTeams == w.teams, "teams of a trace", got[i].nbEvaluatedTeams << " instead of " << w.teams << " " << ctx);
        VH_CHECK(got[i].nbEvaluatedPrograms == w.programs, "programs of a trace", got[i].nbEvaluatedPrograms << " instead of " << w.programs << " " << ctx);
        VH_CHECK(got[i].nbExecutedLines == w.lines, "lines of a trace", got[i].nbExecutedLines << " instead of " << w.lines << " " << ctx);
        VH_CHECK(got[i].nbExecutionPerInstruction == w.instr, "instructions of a trace", ctx);
        dt[w.teams]++;
        dp[w.programs]++;
        dl[w.lines]++;
        for (auto& x : w.instr) di[x.first][x.second]++;
        for (V v : traces[i]) dv[v]++;
        vh::count("traces_analysed");
    }
    VH_CHECK(s.getDistribEvaluatedTeams() == dt, "distribution of teams", ctx);
    VH_CHECK(s.getDistribEvaluatedPrograms() == dp, "distribution of programs", ctx);
    VH_CHECK(s.getDistribExecutedLines() == dl, "distribution of lines", ctx);
    VH_CHECK(s.getDistribNbExecutionPerInstruction() == di, "distribution of instructions", ctx);
    VH_CHECK(s.getDistribUsedVertices() == dv, "distribution of vertices", ctx);
}
static void judgeJson(const TPG::ExecutionStats& s, const TPG::TPGGraph& g, bool averages, bool flat, const std::string& ctx)
{
    std::string f = vh::opt().scratch + "/i" + std::to_string(getpid()) + ".json";
    s.writeStatsToJson(f.c_str(), flat);
    Json::Value root;
    {
        std::ifstream in(f);
        Json::CharReaderBuilder b;
        std::string err;
        VH_CHECK(Json::parseFromStream(b, in, &root, &err), "file of statistics", err << " " << ctx);
    }
    unlink(f.c_str());
    auto& x = root["ExecutionStats"];
    if (averages) {
        VH_CHECK(near(x["avgEvaluatedTeams"].asDouble(), s.getAvgEvaluatedTeams(), 1e-5), "file: average of teams", ctx);
        VH_CHECK(near(x["avgEvaluatedPrograms"].asDouble(), s.getAvgEvaluatedPrograms(), 1e-5), "file: average of programs", ctx);
        VH_CHECK(near(x["avgExecutedLines"].asDouble(), s.getAvgExecutedLines(), 1e-5), "file: average of lines", ctx);
        for (auto& i : s.getAvgNbExecutionPerInstruction())
            VH_CHECK(near(x["avgNbExecutionPerInstruction"][std::to_string(i.first)].asDouble(), i.second, 1e-5), "file: average of an instruction", ctx);
    }
    auto distrib = [&](const Json::Value& v, const std::map<size_t, size_t>& m, const char* what) {
        VH_CHECK(v.size() == m.size(), std::string("file: ") + what, v.size() << " entries instead of " << m.size() << " " << ctx);
        for (auto& i : m) VH_CHECK(v[std::to_string(i.first)].asUInt64() == i.second, std::string("file: ") + what, ctx);
    };
    distrib(x["distributionEvaluatedTeams"], s.getDistribEvaluatedTeams(), "distribution of teams");
    distrib(x["distributionEvaluatedPrograms"], s.getDistribEvaluatedPrograms(), "distribution of programs");
    distrib(x["distributionExecutedLines"], s.getDistribExecutedLines(), "distribution of lines");
    for (auto& i : s.getDistribNbExecutionPerInstruction())
        distrib(x["distributionNbExecutionPerInstruction"][std::to_string(i.first)], i.second, "distribution of an instruction");
    std::map<size_t, size_t> used;
    for (auto& v : s.getDistribUsedVertices()) used[indexOf(g, v.first)] = v.second;
    distrib(x["distributionUsedVertices"], used, "distribution of vertices");
    auto& t = root["TracesStats"];
    auto& st = s.getInferenceTracesStats();
    VH_CHECK(t.size() == st.size(), "file: number of traces", t.size() << " instead of " << st.size() << " " << ctx);
    for (size_t i = 0; i < st.size(); i++) {
        auto& y = t[std::to_string(i)];
        VH_CHECK(y["nbEvaluatedTeams"].asUInt64() == st[i].nbEvaluatedTeams && y["nbEvaluatedPrograms"].asUInt64() == st[i].nbEvaluatedPrograms &&
                     y["nbExecutedLines"].asUInt64() == st[i].nbExecutedLines, "file: trace", ctx);
        VH_CHECK(y["trace"].size() == st[i].trace.size(), "file: trace", ctx);
        for (size_t k = 0; k < st[i].trace.size(); k++)
            VH_CHECK(y["trace"][(int)k].asUInt64() == indexOf(g, st[i].trace[k]), "file: vertices of a trace", ctx);
        for (auto& p : st[i].nbExecutionPerInstruction)
            VH_CHECK(y["nbExecutionPerInstruction"][std::to_string(p.first)].asUInt64() == p.second, "file: instructions of a trace", ctx);
    }
    vh::count("files_checked");
}
static bool reaches(V from, V to, std::set<V>& seen)
{
    if (from == to) return true;
    if (!seen.insert(from).second) return false;
    for (auto e : from->getOutgoingEdges())
        if (reaches(e->getDestination(), to, seen)) return true;
    return false;
}
static bool reaches(V from, V to)
{
    std::set<V> seen;
    return reaches(from, to, seen);
}
// Two engines on one graph; executions, resets, analyses and changes of the graph in any order.
static void caseHistory(Rng& r)
{
    Quiet q;
    EnvOptions eo;
    eo.maxSources = 3;
    auto e = makeEnv(r, eo);
    TPG::TPGInstrumentedFactory fac;
    std::shared_ptr<TPG::TPGGraph> gp = fac.createTPGGraph(*e->env);
    auto& g = *gp;
    GraphOptions go;
    go.shareAnyDest = r.chance(0.4);
    go.rootActions = r.chance(0.4);
    go.maxEdges = 1 + r.below(5);
    go.maxTeams = 1 + r.below(9);
    go.pDeep = go.pWide = 0.04;
    go.uniqueActions = r.chance(0.7);
    makeGraph(r, *e, g, go);
    std::string ctx = e->describe() + "\n" + graphText(g, false).substr(0, 1500);
    vh::sample(ctx);
    std::unique_ptr<TPG::TPGExecutionEngine> base[2] = {fac.createTPGExecutionEngine(*e->env), fac.createTPGExecutionEngine(*e->env)};
    TPG::TPGExecutionEngineInstrumented* eng[2];
    for (int i = 0; i < 2; i++) {
        eng[i] = dynamic_cast<TPG::TPGExecutionEngineInstrumented*>(base[i].get());
        VH_CHECK(eng[i], "engine of the instrumented factory", "");
    }
    TPG::TPGExecutionEngine plain(*e->env);
    std::vector<std::vector<V>> traces[2];
    TPG::ExecutionStats stats;
    Counts c;
    // Traces and counters agree as long as both were cleared together and only one engine ran, from roots.
    bool clean[2] = {true, true};
    for (int op = 0; op < 40; op++) {
        int k = (int)r.below(2);
        if (r.chance(0.4)) e->randomizeData(r, 0.2);
        auto vs = g.getVertices();
        auto roots = g.getRootVertices();
        switch (r.below(16)) {
        default: {
            V root = r.chance(0.7) ? r.pick(roots) : r.pick(vs);
            bool isRoot = root->getIncomingEdges().empty();
            auto want = follow(*e, root, c);
            auto got = eng[k]->executeFromRoot(*root);
            VH_CHECK(got == want, "path of the instrumented engine", ctx);
            traces[k].push_back(want);
            clean[1 - k] = false;
            if (!isRoot) clean[k] = false;
            if (!isTeam(root)) vh::count("executions_of_an_action");
            vh::count("executions");
            break;
        }
        case 8: { // a plain engine counts nothing
            V root = r.pick(vs);
            Counts none;
            VH_CHECK(plain.executeFromRoot(*root) == follow(*e, root, none), "path of the plain engine", ctx);
            vh::count("plain_executions");
            break;
        }
        case 9: {
            V t = r.pick(vs);
            if (!isTeam(t)) break;
            Ed w = winner(*e, t);
            const TPG::TPGEdge& got = eng[k]->evaluateTeam(*(const TPG::TPGTeam*)t);
            VH_CHECK(&got == w, "winner", ctx);
            c.team(t, w);
            clean[0] = clean[1] = false;
            vh::count("teams_evaluated");
            break;
        }
        case 10: {
            auto it = g.getEdges().begin();
            std::advance(it, r.below(g.getEdges().size()));
            double b = eng[k]->evaluateEdge(**it);
            VH_CHECK(vh::same(b, refBid(*e, (*it)->getProgram())), "bid of the instrumented engine", ctx);
            c.e[it->get()].first++;
            clean[0] = clean[1] = false;
            vh::count("edges_evaluated");
            break;
        }
        case 11:
            fac.resetTPGGraphCounters(g);
            c = Counts();
            for (int i = 0; i < 2; i++) clean[i] = traces[i].empty();
            vh::count("resets");
            break;
        case 12:
            eng[k]->clearTraceHistory();
            traces[k].clear();
            clean[k] = false;
            if (r.chance(0.5)) {
                fac.resetTPGGraphCounters(g);
                c = Counts();
                clean[k] = true;
                clean[1 - k] = traces[1 - k].empty();
            }
            vh::count("traces_cleared");
            break;
        case 13:
        case 14: {
            Averages a = averages(g, c);
            if (r.chance(0.3)) {
                stats.analyzeInstrumentedGraph(&g);
                judgeAverages(stats, a, ctx);
                vh::count("graph_analyses");
                break;
            }
            if (r.chance(0.2)) {
                stats.clearInferenceTracesStats();
                judgeTraces(stats, {}, ctx);
                if (traces[k].empty()) break;
                auto t = r.pick(traces[k]);
                stats.analyzeInferenceTrace(t);
                judgeTraces(stats, {t}, ctx);
                vh::count("trace_analyses");
                break;
            }
            stats.analyzeExecution(*eng[k], &g);
            judgeAverages(stats, a, ctx);
            judgeTraces(stats, traces[k], ctx);
            // Without inference from the roots, averages may be infinite, which is a number that JSON does not have.
            if (std::isfinite(stats.getAvgEvaluatedTeams() + stats.getAvgEvaluatedPrograms() + stats.getAvgExecutedLines())) judgeJson(stats, g, a.inferences > 0, r.chance(0.5), ctx);
            if (clean[k] && a.inferences > 0) {
                // The averages are those of the traces.
                double teams = 0, lines = 0;
                for (auto& t : traces[k]) {
                    Stat s(t);
                    teams += (double)s.teams;
                    lines += (double)s.lines;
                }
                VH_CHECK(a.inferences == traces[k].size() && near(stats.getAvgEvaluatedTeams(), teams / (double)traces[k].size(), 1e-9) &&
                             near(stats.getAvgExecutedLines(), lines / (double)traces[k].size(), 1e-9),
                         "averages are not those of the traces", ctx);
                vh::count("averages_of_traces");
            }
            vh::count("analyses");
            break;
        }
        case 15: {
            // The graph evolves: new elements start at zero, others keep their counts. Recorded traces would change.
            if (r.chance(0.6)) break;
            for (int i = 0; i < 2; i++) {
                eng[i]->clearTraceHistory();
                traces[i].clear();
                clean[i] = false;
            }
            V t = r.pick(vs), d = r.pick(vs);
            if (!isTeam(t)) break;
            if (r.chance(0.5)) c.v[&g.cloneVertex(*t)] = 0;
            else if (!reaches(d, t)) g.addNewEdge(*t, *d, makeProgram(r, *e, 5));
            vh::count("graph_changes");
            break;
        }
        }
        c.check(g, ctx);
        for (int i = 0; i < 2; i++) VH_CHECK(eng[i]->getTraceHistory() == traces[i], "recorded traces", eng[i]->getTraceHistory().size() << " instead of " << traces[i].size() << " " << ctx);
    }
    vh::distinct(hashStr(graphText(g)));
}
// Unused elements are removed, and nothing else: the same inputs are still treated the same.
static void caseClear(Rng& r)
{
    Quiet q;
    EnvOptions eo;
    eo.maxSources = 3;
    auto e = makeEnv(r, eo);
    TPG::TPGInstrumentedFactory fac;
    auto gp = fac.createTPGGraph(*e->env);
    auto& g = *gp;
    GraphOptions go;
    go.rootActions = r.chance(0.4);
    go.maxEdges = 1 + r.below(6);
    go.maxTeams = 1 + r.below(10);
    go.pDeep = go.pWide = 0.04;
    makeGraph(r, *e, g, go);
    std::string ctx = e->describe() + "\n" + graphText(g, false).substr(0, 1500);
    auto engine = fac.createTPGExecutionEngine(*e->env);
    if (r.chance(0.3)) {
        for (V v : g.getRootVertices()) engine->executeFromRoot(*v);
        fac.resetTPGGraphCounters(g);
    }
    Counts c;
    struct Exec { uint64_t seed; V root; std::vector<V> path; };
    std::vector<Exec> ex;
    for (size_t n = r.below(8); n > 0; n--) {
        uint64_t s = r.next();
        Rng d(s);
        e->randomizeData(d, 0.2);
        V root = r.pick(g.getRootVertices());
        ex.push_back({s, root, follow(*e, root, c)});
        VH_CHECK(engine->executeFromRoot(*root) == ex.back().path, "path", ctx);
    }
    std::set<V> keepV;
    std::set<Ed> keepE;
    for (V v : g.getVertices())
        if (c.v[v]) keepV.insert(v);
    for (auto& x : g.getEdges())
        if (c.e[x.get()].second) keepE.insert(x.get());
    size_t before = g.getNbVertices(), edges = g.getEdges().size();
    fac.clearUnusedTPGGraphElements(g);
    std::set<V> nowV;
    std::set<Ed> nowE;
    for (V v : g.getVertices()) nowV.insert(v);
    for (auto& x : g.getEdges()) nowE.insert(x.get());
    VH_CHECK(nowV == keepV, "vertices left", nowV.size() << " of " << before << " instead of " << keepV.size() << " " << ctx);
    VH_CHECK(nowE == keepE, "edges left", nowE.size() << " of " << edges << " instead of " << keepE.size() << " " << ctx);
    for (auto& x : ex) {
        Rng d(x.seed);
        e->randomizeData(d, 0.2);
        VH_CHECK(engine->executeFromRoot(*x.root) == x.path, "path after the removal", ctx);
    }
    // Graphs without instrumentation are left alone.
    TPG::TPGGraph p(*e->env);
    makeGraph(r, *e, p, go);
    std::string t = graphText(p);
    fac.resetTPGGraphCounters(p);
    fac.clearUnusedTPGGraphElements(p);
    VH_CHECK(graphText(p) == t, "plain graph changed", ctx);
    vh::count("removals");
    vh::count("elements_removed", before - nowV.size() + edges - nowE.size());
    vh::distinct(hashStr(t));
}
// Concurrent executions.
static void caseParallel(Rng& r)
{
    Quiet q;
    EnvOptions eo;
    eo.maxSources = 3;
    auto e = makeEnv(r, eo);
    TPG::TPGInstrumentedFactory fac;
    auto gp = fac.createTPGGraph(*e->env);
    auto& g = *gp;
    GraphOptions go;
    go.maxTeams = 1 + r.below(4);
    go.maxLines = 3;
    makeGraph(r, *e, g, go);
    auto roots = g.getRootVertices();
    size_t nt = 2 + r.below(5), n = 300;
    std::vector<Counts> c(nt);
    std::vector<std::vector<std::vector<V>>> want(nt);
    std::vector<std::unique_ptr<TPG::TPGExecutionEngine>> engines;
    std::map<V, std::pair<std::vector<V>, Counts>> one;
    for (V x : roots) one[x].first = follow(*e, x, one[x].second);
    std::vector<std::vector<V>> plan(nt);
    for (size_t t = 0; t < nt; t++) {
        for (size_t i = 0; i < n; i++) {
            V x = roots[r.below(roots.size())];
            plan[t].push_back(x);
            want[t].push_back(one[x].first);
            c[t].add(one[x].second);
        }
        engines.push_back(fac.createTPGExecutionEngine(*e->env));
    }
    std::atomic<size_t> ready{0};
    std::vector<std::thread> th;
    for (size_t t = 0; t < nt; t++)
        th.emplace_back([&, t] {
            ready++;
            while (ready < nt) std::this_thread::yield();
            for (V x : plan[t]) engines[t]->executeFromRoot(*x);
        });
    for (auto& t : th) t.join();
    Counts all;
    for (auto& x : c) all.add(x);
    all.check(g, "parallel");
    for (size_t t = 0; t < nt; t++)
        VH_CHECK(dynamic_cast<TPG::TPGExecutionEngineInstrumented&>(*engines[t]).getTraceHistory() == want[t], "traces of a thread", t);
    vh::count("parallel_executions", nt * n);
}
// Trainings with and without instrumentation.
template <class A, class E, class... X>
static std::string train(const std::shared_ptr<LSpec>& s, const Learn::LearningParameters& p, uint64_t seed, uint64_t gens, const TPG::TPGFactory& f, bool counted, X... x)
{
    std::ostringstream o;
    auto rec = std::make_shared<Recorder>();
    E le(s, rec);
    A a(le, s->set, p, x..., f);
    FnLogger log(a);
    TPG::TPGInstrumentedFactory fac;
    auto take = [&] {
        le.w.close();
        std::lock_guard<std::mutex> l(rec->m);
        uint64_t n = 0;
        for (auto& run : rec->runs) n += run.actions.size();
        rec->runs.clear();
        return n;
    };
    log.onPopulate = [&] {
        take();
        fac.resetTPGGraphCounters(*a.getTPGGraph());
    };
    log.onEvaluate = [&](FnLogger::Results& res) {
        for (auto& x : res) o << indexOf(*a.getTPGGraph(), x.second) << ":" << vh::bits(x.first->getResult()) << " ";
        if (!counted) return;
        uint64_t acts = take(), n = 0, traversed = 0, teams = 0;
        for (V v : a.getTPGGraph()->getVertices())
            if (isTeam(v)) teams += visits(v);
            else n += visits(v);
        for (auto& e : a.getTPGGraph()->getEdges()) traversed += inst(e.get()).getNbTraversal();
        VH_CHECK(n == acts, "visits of actions in a training", n << " instead of " << acts << " " << describe(p));
        VH_CHECK(traversed == teams, "traversals in a training", traversed << " instead of " << teams << " " << describe(p));
        vh::count("trainings_counted");
        vh::count("actions_in_trainings", acts);
    };
    a.init(seed);
    for (uint64_t g = 0; g < gens; g++) {
        a.trainOneGeneration(g);
        o << "\n" << graphText(*a.getTPGGraph()) << indexOf(*a.getTPGGraph(), a.getBestRoot().first) << " " << nextDraw(a) << " ";
        for (size_t i = 0; i < a.getArchive().getNbRecordings(); i++) o << vh::bits(a.getArchive().at(i).result) << " ";
    }
    return o.str();
}
template <class A, class E, class... X> static void twins(Rng& r, X... x)
{
    Quiet q;
    LSpecOptions lo;
    lo.pArrays = 0.05;
    auto s = makeSpec(r, lo);
    s->agents = 2;
    auto p = makeParams(r, *s, 10);
    if (std::is_same<E, DuelEnv>::value) p.nbIterationsPerPolicyEvaluation = 1 + r.below(2);
    uint64_t seed = r.next(), gens = 1 + r.below(3);
    std::string a = train<A, E>(s, p, seed, gens, TPG::TPGFactory(), false, x...), b = train<A, E>(s, p, seed, gens, TPG::TPGInstrumentedFactory(), true, x...);
    VH_CHECK(a == b, "instrumentation changes the training", describe(p) << " " << s->describe());
    vh::count("twin_trainings");
    vh::distinct(hashStr(a));
}
static void caseTwins(Rng& r)
{
    switch (r.below(4)) {
    case 0: twins<Learn::LearningAgent, PlainEnv>(r); break;
    case 1: twins<Learn::ParallelLearningAgent, PlainEnv>(r); break;
    case 2: twins<Learn::AdversarialLearningAgent, DuelEnv>(r, (size_t)2); break;
    default: twins<Learn::ClassificationLearningAgent<Learn::ParallelLearningAgent>, ClassEnv>(r); break;
    }
}
VH_MAIN({"history", 4, caseHistory}, {"clear", 2, caseClear}, {"parallel", 1, caseParallel}, {"twins", 1, caseTwins})
