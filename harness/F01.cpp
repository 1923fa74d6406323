// F01: exporting a graph and importing it back preserves the policies.
// Oracle: canonical form of graphs, numbered by traversal, and executions on equal data.
#include "gen_learn.hpp"
#include "file/tpgGraphDotExporter.h"
#include "file/tpgGraphDotImporter.h"
#include "tpg/tpgExecutionEngine.h"
#include <dirent.h>
#include <sys/stat.h>
using namespace gen;
using vh::Rng;
typedef const TPG::TPGVertex* V;

static bool isTeam(V v) { return dynamic_cast<const TPG::TPGTeam*>(v) != nullptr; }
static uint64_t actionOf(V v) { return dynamic_cast<const TPG::TPGAction*>(v)->getActionID(); }

// Structure reachable from the given vertices: teams and programs numbered as they are met, actions by identifier.
struct Canon
{
    std::ostringstream o;
    std::map<V, size_t> teams;
    std::map<const Program::Program*, size_t> progs;
    size_t edges = 0, shared = 0, otherDest = 0;
    std::map<const Program::Program*, V> dests;
    void visit(V v)
    {
        if (!isTeam(v) || !teams.emplace(v, teams.size()).second) return;
        o << "T" << teams[v] << "\n";
        auto out = v->getOutgoingEdges();
        for (auto e : out) {
            auto* p = &e->getProgram();
            V d = e->getDestination();
            bool first = progs.emplace(p, progs.size()).second;
            if (!first) shared++;
            if (!dests.emplace(p, d).second && dests[p] != d) otherDest++;
            o << " P" << progs[p];
            if (first) o << " " << text(*p, false);
            if (isTeam(d)) {
                o << " to";
                if (teams.count(d)) o << " T" << teams[d] << "\n";
                else {
                    o << " new\n";
                    visit(d);
                }
                o << " of T" << teams[v] << "\n";
            }
            else o << " to A" << actionOf(d) << "\n";
            edges++;
        }
    }
};
static uint64_t shapeHash(V v, std::map<V, uint64_t>& known)
{
    if (!isTeam(v)) return vh::mix(7, actionOf(v));
    auto it = known.find(v);
    if (it != known.end()) return it->second;
    uint64_t h = 11;
    for (auto e : v->getOutgoingEdges()) h = vh::mix(vh::mix(h, hashStr(text(e->getProgram(), false))), shapeHash(e->getDestination(), known));
    return known[v] = h;
}
static void sortByShape(std::vector<V>& v)
{
    std::map<V, uint64_t> known;
    for (V x : v) known[x] = shapeHash(x, known);
    std::stable_sort(v.begin(), v.end(), [&](V a, V b) { return known[a] < known[b]; });
}
static std::vector<V> rootTeams(const TPG::TPGGraph& g, bool sorted)
{
    std::vector<V> v;
    for (V x : g.getRootVertices())
        if (isTeam(x)) v.push_back(x);
    if (sorted) sortByShape(v);
    return v;
}
struct Form { std::string text; size_t edges, teams; Canon* c; };
static std::string form(const std::vector<V>& roots, Canon* keep = nullptr)
{
    Canon c, &x = keep ? *keep : c;
    for (V v : roots) {
        x.o << "root\n";
        x.visit(v);
    }
    return x.o.str();
}
static std::set<uint64_t> actionIDs(const TPG::TPGGraph& g)
{
    std::set<uint64_t> s;
    for (V v : g.getVertices())
        if (!isTeam(v)) s.insert(actionOf(v));
    return s;
}
static std::string content(const std::string& f)
{
    std::ifstream in(f);
    std::string s((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
    return s;
}
// The description: everything but the comments at its head (version and date).
static std::string body(const std::string& f)
{
    std::istringstream in(content(f));
    std::string s, l;
    bool head = true;
    while (std::getline(in, l)) {
        head = head && l.rfind("//", 0) == 0;
        if (!head) s += l + "\n";
    }
    return s;
}
static std::string firstDiff(const std::string& a, const std::string& b)
{
    size_t i = 0;
    while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
    size_t s = i > 60 ? i - 60 : 0;
    return "..." + a.substr(s, 160) + "...\nVERSUS\n..." + b.substr(s, 160) + "...";
}
static bool reaches(V from, V to, std::set<V>& seen)
{
    if (from == to) return true;
    if (!seen.insert(from).second) return false;
    for (auto e : from->getOutgoingEdges())
        if (reaches(e->getDestination(), to, seen)) return true;
    return false;
}
static bool reaches(V from, V to)
{
    std::set<V> s;
    return reaches(from, to, s);
}
struct Dir
{
    std::string d;
    Dir()
    {
        static int nb = 0;
        d = vh::opt().scratch + "/f" + std::to_string(getpid()) + "_" + std::to_string(nb++);
        mkdir(d.c_str(), 0700);
    }
    std::string operator()(const std::string& n) const { return d + "/" + n; }
    ~Dir()
    {
        if (DIR* x = opendir(d.c_str())) {
            while (dirent* f = readdir(x))
                if (f->d_name[0] != '.') unlink((d + "/" + f->d_name).c_str());
            closedir(x);
        }
        rmdir(d.c_str());
    }
};
// Changes a user or a mutation may make, the graph staying acyclic and all teams with edges.
static void disturb(Rng& r, const EnvBundle& e, TPG::TPGGraph& g)
{
    for (size_t n = r.below(6); n > 0; n--) {
        std::vector<TPG::TPGEdge*> es;
        for (auto& x : g.getEdges()) es.push_back(x.get());
        std::vector<V> teams;
        for (V v : g.getVertices())
            if (isTeam(v)) teams.push_back(v);
        if (es.empty() || teams.empty()) return;
        auto* x = r.pick(es);
        V t = r.pick(teams);
        auto vs = g.getVertices();
        V d = r.pick(vs);
        switch (r.below(7)) {
        case 0:
            if (!reaches(x->getDestination(), t) && x->getSource()->getOutgoingEdges().size() > 1) g.setEdgeSource(*x, *t);
            break;
        case 1:
            if (!reaches(d, x->getSource())) g.setEdgeDestination(*x, *d);
            break;
        case 2: g.cloneVertex(*t); break;
        case 3:
            if (x->getSource()->getOutgoingEdges().size() > 1) g.removeEdge(*x);
            break;
        case 4: // a program used again, maybe elsewhere
            if (!reaches(d, t)) g.addNewEdge(*t, *d, x->getProgramSharedPointer());
            break;
        case 5:
            if (!reaches(d, t)) g.addNewEdge(*t, *d, makeProgram(r, e, r.chance(0.05) ? 500 : 5));
            break;
        default: {
            bool ok = t->getIncomingEdges().empty() && teams.size() > 1;
            if (ok) g.removeVertex(*t);
        }
        }
    }
}
static std::vector<std::pair<uint64_t, uint64_t>> behave(const TPG::TPGGraph& g, const Environment& env, const std::vector<V>& roots)
{
    std::vector<std::pair<uint64_t, uint64_t>> v;
    TPG::TPGExecutionEngine tee(env);
    for (V root : roots) {
        auto p = tee.executeFromRoot(*root);
        v.push_back({p.size(), actionOf(p.back())});
    }
    return v;
}
struct Pair // two equal environments
{
    std::unique_ptr<EnvBundle> a, b;
    uint64_t seed;
    explicit Pair(Rng& r)
    {
        EnvOptions eo;
        eo.maxSources = 3;
        seed = r.next();
        Rng r1(seed), r2(seed);
        a = makeEnv(r1, eo);
        b = makeEnv(r2, eo);
    }
};
static void compare(Rng& r, Pair& pr, const TPG::TPGGraph& g, const std::vector<V>& rootsA, const std::set<uint64_t>& ids, size_t nbTeams,
                    const TPG::TPGGraph& h, const char* what)
{
    std::string ctx = std::string(what) + "\n" + pr.a->describe();
    Canon ca;
    std::string want = form(rootsA, &ca);
    auto rootsB = rootTeams(h, false);
    std::vector<V> ra = rootsA;
    std::string got = form(rootsB);
    if (got != want) {
        sortByShape(ra);
        rootsB = rootTeams(h, true);
        std::string w2 = form(ra), g2 = form(rootsB);
        VH_CHECK(g2 == w2, std::string("graph, ") + what, firstDiff(want, got) << "\n" << ctx);
    }
    size_t teams = 0;
    for (V v : h.getVertices()) teams += isTeam(v);
    VH_CHECK(teams == nbTeams, std::string("number of teams, ") + what, teams << " instead of " << nbTeams << " " << ctx);
    VH_CHECK(h.getEdges().size() == ca.edges, std::string("number of edges, ") + what, h.getEdges().size() << " instead of " << ca.edges << " " << ctx);
    VH_CHECK(actionIDs(h) == ids, std::string("action identifiers, ") + what, ctx);
    vh::count("teams_compared", teams);
    vh::count("edges_compared", ca.edges);
    vh::count("shared_uses", ca.shared);
    vh::count("shared_to_other_destination", ca.otherDest);
    // From the same root, the same behaviour.
    for (int k = 0; k < 3; k++) {
        uint64_t s = r.next();
        Rng d1(s), d2(s);
        pr.a->randomizeData(d1, 0.2);
        pr.b->randomizeData(d2, 0.2);
        auto x = behave(g, *pr.a->env, ra), y = behave(h, *pr.b->env, rootsB);
        VH_CHECK(x == y, std::string("behaviour, ") + what, ctx);
        vh::count("executions_compared", x.size());
    }
    // Dead lines are known again.
    std::map<const Program::Program*, bool> done;
    for (auto& e : h.getEdges()) {
        auto& p = e->getProgram();
        if (!done.emplace(&p, true).second) continue;
        auto dead = refDead(*pr.b, p);
        for (size_t i = 0; i < p.getNbLines(); i++)
            VH_CHECK(p.isIntron(i) == dead[i], std::string("dead lines, ") + what, ctx);
    }
    vh::distinct(hashStr(want));
}
static std::vector<V> reachable(V root)
{
    std::vector<V> q{root};
    for (size_t i = 0; i < q.size(); i++)
        for (auto e : q[i]->getOutgoingEdges())
            if (std::find(q.begin(), q.end(), e->getDestination()) == q.end()) q.push_back(e->getDestination());
    return q;
}
static void makeAny(Rng& r, const EnvBundle& e, TPG::TPGGraph& g)
{
    GraphOptions go;
    go.shareAnyDest = r.chance(0.5);
    go.rootActions = r.chance(0.4);
    go.uniqueActions = r.chance(0.7);
    go.maxTeams = 1 + r.below(10);
    go.pDeep = go.pWide = 0.04;
    go.maxEdges = 1 + r.below(6);
    go.maxLines = r.chance(0.07) ? 600 : r.chance(0.01) ? 4000 : 1 + r.below(15);
    makeGraph(r, e, g, go);
    // Some programs are empty.
    if (r.chance(0.6)) disturb(r, e, g);
    if (r.chance(0.2)) {
        std::vector<V> teams;
        for (V v : g.getVertices())
            if (isTeam(v)) teams.push_back(v);
        V t = r.pick(teams);
        g.addNewEdge(*t, g.addNewAction(r.below(30)), std::make_shared<Program::Program>(*e.env));
        vh::count("empty_programs");
    }
}
static void shapes(TPG::TPGGraph& g)
{
    std::map<const Program::Program*, bool> done;
    for (auto& e : g.getEdges()) {
        auto& p = e->getProgram();
        if (p.getNbLines() > 130) vh::count("long_programs");
        for (size_t i = 0; i < p.getEnvironment().getNbConstant(); i++)
            if ((int)p.getConstantAt(i) < 0) {
                vh::count("negative_constants");
                break;
            }
    }
}
static void caseRound(Rng& r)
{
    Quiet q;
    Dir dir;
    Pair pr(r);
    TPG::TPGGraph g(*pr.a->env), h(*pr.b->env);
    makeAny(r, *pr.a, g);
    auto exporter = std::make_unique<File::TPGGraphDotExporter>(dir("a.dot").c_str(), g);
    std::unique_ptr<File::TPGGraphDotImporter> im;
    vh::sample(graphText(g, false).substr(0, 1500));
    if (r.chance(0.5)) makeAny(r, *pr.b, h); // whatever it held
    for (int round = 0; round < 3; round++) {
        shapes(g);
        std::string before = graphText(g), f = dir("r" + std::to_string(round) + ".dot");
        // A fresh exporter numbers everything anew.
        if (r.chance(0.4)) exporter = std::make_unique<File::TPGGraphDotExporter>(f.c_str(), g);
        else exporter->setNewFilePath(f.c_str());
        auto& ex = *exporter;
        bool sub = r.chance(0.4);
        auto vs = g.getVertices();
        V root = sub ? (r.chance(0.5) ? r.pick(vs) : r.pick(g.getRootVertices())) : nullptr;
        if (sub) ex.printSubGraph(root);
        else ex.print();
        VH_CHECK(graphText(g) == before, "exporting changes the graph", before);
        if (!im) im = std::make_unique<File::TPGGraphDotImporter>(f.c_str(), *pr.b->env, h);
        else {
            im->setNewFilePath(f.c_str());
            im->importGraph();
            vh::count("importers_reused");
        }
        if (r.chance(0.15)) {
            im->importGraph();
            vh::count("imported_twice");
        }
        std::set<uint64_t> ids;
        size_t teams = 0;
        bool sameDescription = true;
        if (sub) {
            for (V v : reachable(root)) {
                if (isTeam(v)) teams++;
                else if (!ids.insert(actionOf(v)).second) sameDescription = false;
            }
            if (!root->getIncomingEdges().empty()) sameDescription = false; // roots have a colour of their own
            compare(r, pr, g, isTeam(root) ? std::vector<V>{root} : std::vector<V>{}, ids, teams, h, "sub-graph");
            vh::count(isTeam(root) ? "sub_graphs" : "sub_graphs_of_an_action");
        }
        else {
            ids = actionIDs(g);
            std::map<uint64_t, int> nb;
            bool rootActions = false;
            for (V v : g.getVertices()) {
                if (isTeam(v)) teams++;
                else {
                    nb[actionOf(v)]++;
                    if (v->getIncomingEdges().empty()) rootActions = true;
                }
            }
            if (rootActions) vh::count("root_actions");
            for (auto& x : nb) sameDescription &= x.second == 1; // actions of one identifier become one
            compare(r, pr, g, rootTeams(g, false), ids, teams, h, "whole graph");
            vh::count("whole_graphs");
        }
        // Exported again, the same description.
        std::string first = body(f), f2 = dir("s.dot"), again;
        std::string hb = graphText(h);
        {
            File::TPGGraphDotExporter ex2(f2.c_str(), h);
            if (sub && h.getNbRootVertices()) ex2.printSubGraph(h.getRootVertices()[0]);
            else ex2.print();
            again = body(f2);
        }
        VH_CHECK(graphText(h) == hb, "exporting changes the graph", hb);
        if (round == 0 && sameDescription) {
            VH_CHECK(again == first, "description of the imported graph", firstDiff(first, again));
            vh::count("descriptions_compared");
        }
        TPG::TPGGraph h2(*pr.b->env);
        {
            File::TPGGraphDotImporter im2(f2.c_str(), *pr.b->env, h2);
            File::TPGGraphDotExporter ex3(dir("t.dot").c_str(), h2);
            if (sub && h2.getNbRootVertices()) ex3.printSubGraph(h2.getRootVertices()[0]);
            else ex3.print();
        }
        VH_CHECK(body(dir("t.dot")) == again, "description after two imports", firstDiff(again, body(dir("t.dot"))));
        disturb(r, *pr.a, g);
        if (g.getNbRootVertices() == 0) break;
    }
}
// Graphs born from training, exported to resume elsewhere.
static void caseTrained(Rng& r)
{
    Quiet q;
    Dir dir;
    LSpecOptions o;
    o.pArrays = 0.05;
    auto s = makeSpec(r, o);
    auto p = makeParams(r, *s, 10);
    PlainEnv le(s);
    Learn::LearningAgent a(le, s->set, p), b(le, s->set, p);
    a.init(r.next());
    for (uint64_t g = 0, n = 1 + r.below(4); g < n; g++) a.trainOneGeneration(g);
    if (r.chance(0.5)) b.init(r.next());
    auto &g = *a.getTPGGraph(), &h = *b.getTPGGraph();
    std::string f = dir("x.dot");
    bool sub = r.chance(0.5) && a.getBestRoot().first;
    {
        File::TPGGraphDotExporter ex(f.c_str(), g);
        if (sub) ex.printSubGraph(a.getBestRoot().first);
        else ex.print();
    }
    File::TPGGraphDotImporter im(f.c_str(), b.getTPGGraph()->getEnvironment(), h);
    Canon c;
    std::vector<V> ra, rb = rootTeams(h, false);
    if (!sub) ra = rootTeams(g, false);
    else if (isTeam(a.getBestRoot().first)) ra = {a.getBestRoot().first};
    std::string x = form(ra, &c), y = form(rb);
    if (x != y) {
        sortByShape(ra);
        rb = rootTeams(h, true);
        VH_CHECK(form(ra) == form(rb), "trained graph", firstDiff(x, y));
    }
    VH_CHECK(ra.size() == rb.size(), "roots of a trained graph", ra.size());
    vh::count("shared_uses", c.shared);
    vh::count("shared_to_other_destination", c.otherDest);
    for (size_t i = 0; i < ra.size(); i++) {
        auto u = a.evaluateOneRoot(3, Learn::LearningMode::TESTING, ra[i]), v = b.evaluateOneRoot(3, Learn::LearningMode::TESTING, rb[i]);
        VH_CHECK(vh::same(u->getResult(), v->getResult()), "score of an imported policy", v->getResult() << " instead of " << u->getResult());
        vh::count("imported_scores");
    }
    // Training goes on.
    if (h.getNbRootVertices()) {
        bool team = false;
        for (V v : h.getRootVertices()) team |= isTeam(v);
        if (team && p.mutation.tpg.pEdgeDestinationIsAction == 0.0) {
            b.forgetPreviousResults();
            b.trainOneGeneration(0);
            vh::count("trained_further");
        }
    }
    vh::distinct(hashStr(x));
}
static void caseErrors(Rng& r)
{
    Quiet q;
    Dir dir;
    Pair pr(r);
    TPG::TPGGraph g(*pr.a->env), h(*pr.b->env);
    makeAny(r, *pr.a, g);
    auto refused = [&](auto f) {
        try {
            f();
            return false;
        }
        catch (const std::runtime_error&) {
            return true;
        }
    };
    std::string none = dir("no/such.dot"), ok = dir("ok.dot"), bad = dir("bad.dot");
    VH_CHECK(refused([&] { File::TPGGraphDotExporter(none.c_str(), g); }), "export to an impossible file", none);
    VH_CHECK(refused([&] { File::TPGGraphDotImporter(none.c_str(), *pr.b->env, h); }), "import of a missing file", none);
    {
        File::TPGGraphDotExporter ex(ok.c_str(), g);
        ex.print();
        VH_CHECK(refused([&] { ex.setNewFilePath(none.c_str()); }), "export to an impossible file", none);
    }
    vh::count("missing_files");
    std::string want = form(rootTeams(g, true)), all = content(ok);
    File::TPGGraphDotImporter im(ok.c_str(), *pr.b->env, h);
    VH_CHECK(form(rootTeams(h, true)) == want, "import", firstDiff(want, form(rootTeams(h, true))));
    auto ids = actionIDs(g);
    for (int k = 0; k < 6; k++) {
        // A file cut short: an error, or nothing of importance was lost.
        size_t n = k == 0 ? 0 : k == 1 ? all.size() - 1 - r.below(std::min<size_t>(all.size() - 1, 60)) : r.below(all.size());
        if (k == 2) n = all.find('\n', n) == std::string::npos ? n : all.find('\n', n) + 1;
        {
            std::ofstream out(bad);
            out << all.substr(0, n);
        }
        bool error = refused([&] {
            im.setNewFilePath(bad.c_str());
            im.importGraph();
        });
        if (!error)
            VH_CHECK(form(rootTeams(h, true)) == want && actionIDs(h) == ids, "truncated file imported in part",
                     "cut after " << n << " of " << all.size() << " characters: ..." << all.substr(n > 60 ? n - 60 : 0, n > 60 ? 60 : n));
        vh::count(error ? "truncations_reported" : "truncations_harmless");
        // The importer is still usable.
        im.setNewFilePath(ok.c_str());
        im.importGraph();
        VH_CHECK(form(rootTeams(h, true)) == want, "import after an error", firstDiff(want, form(rootTeams(h, true))));
    }
}
VH_MAIN({"round", 4, caseRound}, {"trained", 1, caseTrained}, {"errors", 1, caseErrors})
