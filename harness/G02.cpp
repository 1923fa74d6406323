// G02: populating the graph keeps it acyclic, bounded and non-destructive.
// Oracle: comparison of the graph before and after every initialisation / population step; frequency
// tables of the targets drawn by re-targeting.
#include "gen.hpp"
#include "archive.h"
#include "mutator/mutationParameters.h"
#include "mutator/rng.h"
#include "mutator/tpgMutator.h"
#include "program/programExecutionEngine.h"
#include "tpg/tpgAction.h"
#include "tpg/tpgEdge.h"
#include "tpg/tpgExecutionEngine.h"
#include "tpg/tpgTeam.h"
using namespace gen;
using vh::Rng;

typedef const TPG::TPGVertex* V;
static bool isAction(V v) { return dynamic_cast<const TPG::TPGAction*>(v) != nullptr; }
static bool isTeam(V v) { return dynamic_cast<const TPG::TPGTeam*>(v) != nullptr; }

struct EdgeRec
{
    const TPG::TPGEdge* e;
    V dst;
    const Program::Program* p;
    bool operator==(const EdgeRec& x) const { return e == x.e && dst == x.dst && p == x.p; }
    bool operator<(const EdgeRec& x) const { return std::tie(e, dst, p) < std::tie(x.e, x.dst, x.p); }
};
struct Snap
{
    std::vector<V> vertices;
    std::map<V, std::vector<EdgeRec>> out;      // sorted
    std::map<V, uint64_t> action;
    std::map<const Program::Program*, std::string> text;
    size_t roots = 0, teams = 0, actions = 0, edges = 0;
    std::vector<std::shared_ptr<Program::Program>> keep; // programs observed stay alive
};
static Snap snap(const TPG::TPGGraph& g)
{
    Snap s;
    for (auto v : g.getVertices()) {
        s.vertices.push_back(v);
        auto& o = s.out[v];
        for (auto e : v->getOutgoingEdges()) {
            o.push_back({e, e->getDestination(), &e->getProgram()});
            if (s.text.emplace(&e->getProgram(), "").second) {
                s.text[&e->getProgram()] = text(e->getProgram());
                s.keep.push_back(e->getProgramSharedPointer());
            }
        }
        std::sort(o.begin(), o.end());
        if (auto a = dynamic_cast<const TPG::TPGAction*>(v)) { s.action[v] = a->getActionID(); s.actions++; }
        else s.teams++;
        if (v->getIncomingEdges().empty()) s.roots++;
    }
    s.edges = g.getEdges().size();
    return s;
}
static bool acyclic(const TPG::TPGGraph& g)
{
    std::map<V, size_t> left; // remaining outgoing edges
    std::vector<V> ready;
    size_t done = 0;
    for (auto v : g.getVertices()) {
        left[v] = v->getOutgoingEdges().size();
        if (!left[v]) ready.push_back(v);
    }
    while (!ready.empty()) {
        V v = ready.back();
        ready.pop_back();
        done++;
        for (auto e : v->getIncomingEdges())
            if (--left[e->getSource()] == 0) ready.push_back(e->getSource());
    }
    return done == left.size();
}
static void validProgram(const EnvBundle& e, const Program::Program& p, const Mutator::MutationParameters& m)
{
    VH_CHECK(p.getNbLines() >= 1 && p.getNbLines() <= m.prog.maxProgramSize, "program size",
             "new program of " << p.getNbLines() << " lines, maximum " << m.prog.maxProgramSize);
    double x = refExecute(e, p), y;
    Program::ProgramExecutionEngine eng(p);
    y = eng.executeProgram();
    VH_CHECK(vh::same(x, y), "program result", "new program gives " << y << ", expected " << x << ": " << text(p));
}

static Mutator::MutationParameters params(Rng& r)
{
    Mutator::MutationParameters m;
    auto prob = [&r]() { return r.chance(0.2) ? 0.0 : r.chance(0.2) ? 1.0 : r.unit(); };
    m.tpg.nbActions = r.chance(0.2) ? 2 : 2 + r.below(9);
    m.tpg.maxInitOutgoingEdges = 2 + r.below(m.tpg.nbActions - 1);
    m.tpg.maxOutgoingEdges = m.tpg.maxInitOutgoingEdges + r.below(5);
    m.tpg.nbRoots = 1 + r.below(r.chance(0.2) ? 60 : 25);
    // Repeated addition or deletion stops by itself only through the bounds.
    m.tpg.pEdgeDeletion = prob();
    m.tpg.pEdgeAddition = prob();
    m.tpg.pProgramMutation = r.chance(0.2) ? 1.0 : 0.05 + 0.95 * r.unit();
    m.tpg.forceProgramBehaviorChangeOnMutation = false;
    m.tpg.pEdgeDestinationChange = prob();
    m.tpg.pEdgeDestinationIsAction = prob();
    m.prog.maxProgramSize = r.chance(0.1) ? 2 : 2 + r.below(15);
    m.prog.pDelete = r.unit();
    m.prog.pAdd = r.unit();
    m.prog.pMutate = 0.2 + 0.8 * r.unit();
    m.prog.pSwap = r.unit();
    m.prog.pConstantMutation = r.unit();
    m.prog.minConstValue = -(int)r.below(50);
    m.prog.maxConstValue = (int)r.below(50);
    return m;
}
static std::string describe(const Mutator::MutationParameters& m)
{
    std::ostringstream o;
    o << "actions=" << m.tpg.nbActions << " roots=" << m.tpg.nbRoots << " init=" << m.tpg.maxInitOutgoingEdges
      << " max=" << m.tpg.maxOutgoingEdges << " pDel=" << m.tpg.pEdgeDeletion << " pAdd=" << m.tpg.pEdgeAddition
      << " pProg=" << m.tpg.pProgramMutation << " pChange=" << m.tpg.pEdgeDestinationChange
      << " pAction=" << m.tpg.pEdgeDestinationIsAction;
    return o.str();
}

// After initialisation: nbActions distinct actions and as many teams, all teams within the bounds.
static void checkInit(const EnvBundle& e, const TPG::TPGGraph& g, const Mutator::MutationParameters& m)
{
    Snap s = snap(g);
    std::set<uint64_t> ids;
    for (auto& a : s.action) ids.insert(a.second);
    VH_CHECK(s.actions == m.tpg.nbActions && ids.size() == s.actions && *ids.rbegin() == s.actions - 1, "init actions",
             s.actions << " actions with " << ids.size() << " identifiers up to " << (ids.empty() ? 0 : *ids.rbegin()) << "; " << describe(m));
    VH_CHECK(s.teams == m.tpg.nbActions, "init teams", s.teams << " teams; " << describe(m));
    VH_CHECK(acyclic(g), "init acyclic", "cycle after initialisation; " << describe(m));
    size_t edges = 0;
    std::map<const Program::Program*, std::set<V>> leadsTo;
    std::map<const Program::Program*, size_t> used;
    for (auto v : s.vertices) {
        if (isAction(v)) {
            VH_CHECK(!v->getIncomingEdges().empty(), "init action unused", "an action is reachable from no team; " << describe(m));
            continue;
        }
        auto& o = s.out[v];
        edges += o.size();
        VH_CHECK(o.size() >= 2 && o.size() <= m.tpg.maxInitOutgoingEdges, "init edges", "team with " << o.size()
                 << " edges after initialisation; " << describe(m));
        vh::count(o.size() == 2 ? "init_teams_minimal" : o.size() == m.tpg.maxInitOutgoingEdges ? "init_teams_full" : "init_teams_between");
        std::set<V> dst;
        std::set<const Program::Program*> progs;
        for (auto& x : o) {
            VH_CHECK(isAction(x.dst), "init destination", "an initial edge does not lead to an action; " << describe(m));
            dst.insert(x.dst);
            progs.insert(x.p);
            leadsTo[x.p].insert(x.dst);
            used[x.p]++;
        }
        if (dst.size() != o.size()) vh::count("init_same_action_twice");
        VH_CHECK(dst.size() >= 2, "init single action", "an initial team leads to a single action; " << describe(m));
        VH_CHECK(progs.size() == o.size(), "init program twice", "an initial team uses the same program twice; " << describe(m));
    }
    VH_CHECK(edges == s.edges, "init edge count", s.edges << " edges in the graph, " << edges << " in its teams");
    VH_CHECK(leadsTo.size() == 2 * m.tpg.nbActions, "init programs", leadsTo.size() << " programs; " << describe(m));
    for (auto& l : leadsTo)
        VH_CHECK(l.second.size() == 1, "init program leads to several actions", l.second.size() << " actions; " << describe(m));
    std::set<size_t> uses;
    for (auto& u : used) uses.insert(u.second);
    vh::count("init_use_spread_" + std::to_string(*uses.rbegin() - *uses.begin()));
    for (auto& p : s.keep) validProgram(e, *p, m);
    vh::count("initialisations");
}

// Exceptions allowed for the known finding only.
static bool knownRetargetFailure(const Mutator::MutationParameters& m, size_t teams, size_t actions)
{
    return m.tpg.pEdgeDestinationIsAction > 0.0 && m.tpg.pEdgeDestinationChange > 0.0 && actions > teams;
}

static void checkPopulate(const EnvBundle& e, TPG::TPGGraph& g, const Archive& archive, const Mutator::MutationParameters& m,
                          Mutator::RNG& rng, size_t threads)
{
    Snap b = snap(g);
    try {
        Mutator::TPGMutator::populateTPG(g, archive, m, rng, threads);
    }
    catch (const std::out_of_range& x) {
        if (knownRetargetFailure(m, b.teams, b.actions)) {
            static bool once = false;
            if (!once)
                vh::violation("populate fails: re-targeting with fewer teams than actions", std::string(x.what()) + "; teams="
                    + std::to_string(b.teams) + " actions=" + std::to_string(b.actions) + " " + describe(m));
            once = true;
            vh::count("populations_failed_known");
            throw vh::CaseFail();
        }
        vh::fail("populate fails", std::string("unexpected exception ") + x.what() + " teams=" + std::to_string(b.teams)
            + " actions=" + std::to_string(b.actions) + " " + describe(m));
    }
    Snap a = snap(g);
    vh::count("populations");
    VH_CHECK(acyclic(g), "acyclic", "cycle after populating; " << describe(m));
    // what existed is untouched
    for (auto v : b.vertices) {
        VH_CHECK(a.out.count(v), "vertex lost", "a pre-existing vertex disappeared; " << describe(m));
        VH_CHECK(a.out[v] == b.out[v], "team changed", "the edges of a pre-existing vertex changed (" << b.out[v].size() << " -> "
                 << a.out[v].size() << "); " << describe(m));
        VH_CHECK(b.action.count(v) == a.action.count(v) && (!b.action.count(v) || a.action[v] == b.action[v]), "action changed",
                 "the identifier of a pre-existing action changed");
    }
    for (auto& p : b.keep) // kept alive by the snapshot
        VH_CHECK(text(*p) == b.text[p.get()], "program changed", "a pre-existing program changed: " << b.text[p.get()] << " -> " << text(*p));
    VH_CHECK(a.actions == b.actions, "actions created", a.actions << " actions after, " << b.actions << " before; " << describe(m));
    // roots
    if (b.roots >= m.tpg.nbRoots) {
        VH_CHECK(a.vertices.size() == b.vertices.size() && a.edges == b.edges, "populated without need",
                 b.roots << " roots for a target of " << m.tpg.nbRoots << ", yet vertices " << b.vertices.size() << " -> " << a.vertices.size());
        vh::count("populations_idle");
    }
    else
        VH_CHECK(a.roots == m.tpg.nbRoots && g.getNbRootVertices() == m.tpg.nbRoots, "roots", a.roots << " roots (graph says "
                 << g.getNbRootVertices() << ") for a target of " << m.tpg.nbRoots << "; " << describe(m));
    // pairs (program, destination) and destinations that existed
    std::set<std::pair<const Program::Program*, V>> pairs;
    std::set<V> dests;
    for (auto& o : b.out)
        for (auto& x : o.second) { pairs.insert({x.p, x.dst}); dests.insert(x.dst); }
    std::map<const Program::Program*, int> uses;
    bool retargeted = false;
    for (auto v : a.vertices) {
        if (b.out.count(v)) continue;
        VH_CHECK(isTeam(v), "new vertex", "a new vertex is not a team");
        auto& o = a.out[v];
        VH_CHECK(o.size() >= 2 && o.size() <= m.tpg.maxOutgoingEdges, "new team edges", "new team with " << o.size() << " edges; " << describe(m));
        VH_CHECK(v->getIncomingEdges().empty(), "new team used", "an edge leads to a new team; " << describe(m));
        vh::count("new_teams");
        if (o.size() == m.tpg.maxOutgoingEdges) vh::count("new_teams_full");
        int fresh = 0;
        for (auto& x : o) {
            VH_CHECK(b.out.count(x.dst), "new destination", "an edge of a new team leads to a vertex that did not exist; " << describe(m));
            if (b.text.count(x.p)) {
                VH_CHECK(pairs.count({x.p, x.dst}), "edge with an old program", "a new edge joins an existing program with a destination "
                         "it never had; " << describe(m));
                vh::count("edges_inherited");
                continue;
            }
            fresh++;
            uses[x.p]++;
            vh::count("edges_mutated");
            if (!dests.count(x.dst)) retargeted = true;
            if (isTeam(x.dst)) vh::count("edges_to_teams");
        }
        VH_CHECK(fresh >= 1, "team not mutated", "a new team has no new program; " << describe(m));
        if (m.tpg.pProgramMutation >= 1.0)
            VH_CHECK(fresh == (int)o.size(), "certain mutation", "with probability 1, only " << fresh << " of " << o.size() << " programs were mutated");
    }
    VH_CHECK(!(retargeted && m.tpg.pEdgeDestinationChange <= 0.0), "retargeted without permission", "destination changed although its probability is 0");
    for (auto& u : uses) VH_CHECK(u.second == 1, "new program shared", "a new program is used by " << u.second << " edges");
    for (auto& p : a.keep)
        if (!b.text.count(p.get())) validProgram(e, *p, m);
}

static std::unique_ptr<EnvBundle> env(Rng& r)
{
    EnvOptions o;
    o.maxConst = 3;
    return makeEnv(r, o);
}
static void caseInit(Rng& r)
{
    auto e = env(r);
    e->randomizeData(r, 0.05);
    TPG::TPGGraph g(*e->env);
    if (r.chance(0.5)) makeGraph(r, *e, g);
    auto m = params(r);
    Mutator::RNG rng(r.next());
    Mutator::TPGMutator::initRandomTPG(g, m, rng);
    checkInit(*e, g, m);
    vh::distinct(hashStr(graphText(g)));
    // invalid settings are refused and leave the graph alone
    std::string before = graphText(g);
    auto bad = m;
    if (r.chance(0.5)) bad.tpg.nbActions = r.below(2);
    bad.tpg.maxInitOutgoingEdges = bad.tpg.nbActions + 1 + r.below(3);
    VH_THROWS(Mutator::TPGMutator::initRandomTPG(g, bad, rng), std::runtime_error, "invalid settings", "accepted: " << describe(bad));
    VH_CHECK(graphText(g) == before, "refused initialisation", "a refused initialisation changed the graph");
    auto one = m;
    one.tpg.nbActions = 1;
    one.tpg.maxInitOutgoingEdges = 1;
    VH_THROWS(Mutator::TPGMutator::initRandomTPG(g, one, rng), std::runtime_error, "single action", "accepted: " << describe(one));
    vh::count("settings_refused", 2);
}
// Several generations: populate, then remove a random part of the roots.
static void caseEvolve(Rng& r)
{
    auto e = env(r);
    e->randomizeData(r, 0.05);
    auto m = params(r);
    TPG::TPGGraph g(*e->env);
    Mutator::RNG rng(r.next());
    Archive archive(1 + r.below(20), 0.3);
    bool own = r.chance(0.3);
    if (own) {
        // A graph with actions that are roots, teams over teams and shared programs.
        GraphOptions go;
        go.maxEdges = m.tpg.maxOutgoingEdges;
        go.maxTeams = 12;
        go.rootActions = r.chance(0.5);
        go.shareAnyDest = r.chance(0.3);
        go.maxLines = m.prog.maxProgramSize;
        makeGraph(r, *e, g, go);
    }
    else {
        Mutator::TPGMutator::initRandomTPG(g, m, rng);
        checkInit(*e, g, m);
    }
    int gens = 1 + (int)r.below(6);
    for (int k = 0; k < gens; k++) {
        // The library cannot re-target an edge to an action (known finding): most graphs avoid its failure.
        Snap s = snap(g);
        auto mm = m;
        if (s.actions > s.teams && r.chance(0.9)) mm.tpg.pEdgeDestinationIsAction = 0.0;
        mm.tpg.nbRoots = r.chance(0.2) ? r.below(s.roots + 1) : s.roots + r.below(20);
        bool teamRoot = false;
        for (auto v : g.getRootVertices()) teamRoot |= isTeam(v);
        if (!teamRoot) break; // re-initialised: covered by caseEmpty
        checkPopulate(*e, g, archive, mm, rng, 1 + r.below(3));
        for (auto v : g.getRootVertices())
            if (r.chance(0.4) && isTeam(v) && g.getNbRootVertices() > 1) g.removeVertex(*v);
        vh::count("generations");
    }
    vh::distinct(hashStr(graphText(g)));
}
// Populating a graph without root team starts from a fresh initialisation.
static void caseEmpty(Rng& r)
{
    auto e = env(r);
    auto m = params(r);
    m.tpg.pEdgeDestinationIsAction = r.chance(0.5) ? 0 : m.tpg.pEdgeDestinationIsAction;
    TPG::TPGGraph g(*e->env);
    if (r.chance(0.5))
        for (size_t i = r.below(4); i > 0; i--) g.addNewAction(i);
    Mutator::RNG rng(r.next());
    Archive archive(5, 0);
    Mutator::TPGMutator::populateTPG(g, archive, m, rng, 1);
    Snap s = snap(g);
    size_t target = std::max(m.tpg.nbRoots, m.tpg.nbActions);
    VH_CHECK(s.roots == target, "roots from nothing", s.roots << " roots, expected " << target << "; " << describe(m));
    VH_CHECK(s.actions == m.tpg.nbActions, "actions from nothing", s.actions << " actions; " << describe(m));
    VH_CHECK(acyclic(g), "acyclic", "cycle after populating an empty graph");
    for (auto v : s.vertices)
        if (isTeam(v))
            VH_CHECK(s.out[v].size() >= 2 && s.out[v].size() <= m.tpg.maxOutgoingEdges, "new team edges", "team with " << s.out[v].size()
                     << " edges; " << describe(m));
    vh::count("populations_from_nothing");
}
// Frequency of the targets drawn by re-targeting.
static void caseRetarget(Rng& r)
{
    auto e = env(r);
    TPG::TPGGraph g(*e->env);
    GraphOptions go;
    makeGraph(r, *e, g, go);
    std::vector<const TPG::TPGTeam*> teams;
    std::vector<const TPG::TPGAction*> actions;
    for (auto v : g.getVertices()) {
        if (isAction(v)) actions.push_back((const TPG::TPGAction*)v);
        else teams.push_back((const TPG::TPGTeam*)v);
    }
    const TPG::TPGTeam& src = g.addNewTeam();
    auto prog = makeProgram(r, *e, 4);
    const TPG::TPGEdge& edge = g.addNewEdge(src, *r.pick(actions), prog);
    size_t others = g.getEdges().size();
    auto m = params(r);
    double p = m.tpg.pEdgeDestinationIsAction = r.chance(0.35) ? 0.0 : r.chance(0.5) ? 1.0 : r.unit();
    Mutator::RNG rng(r.next());
    const int N = 400;
    std::map<V, int> freq;
    int toAction = 0, toTeam = 0, failed = 0;
    for (int i = 0; i < N; i++) {
        try {
            Mutator::TPGMutator::mutateEdgeDestination(g, &edge, teams, actions, m, rng);
        }
        catch (const std::out_of_range&) { failed++; continue; }
        V d = edge.getDestination();
        freq[d]++;
        (isAction(d) ? toAction : toTeam)++;
        VH_CHECK(edge.getSource() == &src && &edge.getProgram() == prog.get() && g.getEdges().size() == others, "retarget side effects",
                 "re-targeting changed more than the destination");
        VH_CHECK((isAction(d) ? std::find(actions.begin(), actions.end(), d) != actions.end()
                              : std::find(teams.begin(), teams.end(), d) != teams.end()), "retarget target", "target not among those offered");
    }
    vh::count("retargetings", N);
    auto info = [&]() {
        std::ostringstream o;
        o << "p=" << p << " teams=" << teams.size() << " actions=" << actions.size() << " to actions=" << toAction << " to teams=" << toTeam
          << " failed=" << failed;
        return o.str();
    };
    // 5.5 standard deviations: about one false alarm in 10^7
    auto off = [&](double n, double q, double k) { return std::fabs(k - n * q) > 5.5 * std::sqrt(n * q * (1 - q)) + 1; };
    if (p == 0.0) {
        VH_CHECK(toAction == 0 && failed == 0, "p=0: action", "re-targeted to an action (or failed) although only teams are allowed: " << info());
        for (auto t : teams)
            VH_CHECK(!off(N, 1.0 / teams.size(), freq[t]), "teams not uniform", "a team was drawn " << freq[t] << " times of " << N << ": " << info());
        vh::count("retarget_teams_only");
    }
    else if (off(N, p, toAction)) {
        // Known finding: a team is taken when an action was drawn.
        std::string key = toAction == 0 ? (failed ? (actions.size() > teams.size() ? "actions never drawn: fails" : "retarget fails")
                                                  : "actions never drawn: a team is taken")
                                        : "share of actions";
        static std::set<std::string> once;
        if (once.insert(key).second) vh::violation(key, info());
        vh::count("retarget_share_wrong");
    }
    else {
        vh::count("retarget_share_right");
        for (auto t : actions)
            VH_CHECK(!off(N, p / actions.size(), freq[t]), "actions not uniform", "an action was drawn " << freq[t] << " times: " << info());
        for (auto t : teams)
            VH_CHECK(!off(N, (1 - p) / teams.size(), freq[t]), "teams not uniform", "a team was drawn " << freq[t] << " times: " << info());
    }
}

// How many edges a mutated team loses and gains: at least one of each where the bounds allow it, no more when the
// probability is 0, as many as the bounds allow when it is 1.
static void caseCounts(Rng& r)
{
    auto e = env(r);
    e->randomizeData(r, 0.05);
    TPG::TPGGraph g(*e->env);
    makeGraph(r, *e, g);
    std::vector<const TPG::TPGTeam*> teams;
    std::vector<const TPG::TPGAction*> actions;
    for (auto v : g.getVertices()) {
        if (isAction(v)) actions.push_back((const TPG::TPGAction*)v);
        else teams.push_back((const TPG::TPGTeam*)v);
    }
    std::list<const TPG::TPGEdge*> existing;
    for (auto& x : g.getEdges()) existing.push_back(x.get());
    auto m = params(r);
    m.tpg.pEdgeDestinationChange = 0;
    m.tpg.pProgramMutation = 1.0;
    size_t max = m.tpg.maxOutgoingEdges = 2 + r.below(12);
    double pd = m.tpg.pEdgeDeletion = r.chance(0.4) ? 0 : r.chance(0.7) ? 1 : r.unit();
    double pa = m.tpg.pEdgeAddition = r.chance(0.4) ? 0 : r.chance(0.7) ? 1 : r.unit();
    size_t before = 2 + r.below(max - 1);
    Mutator::RNG rng(r.next());
    Archive archive(5, 0);
    for (int k = 0; k < 5; k++) {
        const TPG::TPGTeam& team = g.addNewTeam();
        std::set<const Program::Program*> own;
        for (size_t i = 0; i < before; i++) {
            auto p = makeProgram(r, *e, std::min<size_t>(4, m.prog.maxProgramSize));
            own.insert(p.get());
            g.addNewEdge(team, *r.pick(actions), p);
        }
        std::list<std::shared_ptr<Program::Program>> fresh;
        Mutator::TPGMutator::mutateTPGTeam(g, archive, team, teams, actions, existing, fresh, m, rng);
        size_t after = team.getOutgoingEdges().size();
        VH_CHECK(after >= 2 && after <= max, "mutated team edges", after << " edges, bounds 2 to " << max);
        // bounds on what is left after the deletions, then on the result
        size_t lo = before > 2 ? (pd == 0 ? before - 1 : 2) : before, hi = before > 2 ? (pd == 1 ? 2 : before - 1) : before;
        size_t lo2 = pa == 1 ? max : std::min(max, lo + 1), hi2 = pa == 0 ? std::min(max, hi + 1) : max;
        VH_CHECK(after >= lo2 && after <= hi2, "edges deleted and added", before << " edges became " << after << ", expected " << lo2 << " to "
                 << hi2 << "; " << describe(m));
        VH_CHECK(fresh.size() >= after, "certain mutation", fresh.size() << " new programs for " << after << " edges");
        if (lo2 == hi2) vh::count("edge_counts_settled");
        vh::count("edge_counts");
    }
}

VH_MAIN({"counts", 0.7, caseCounts}, {"init", 1, caseInit}, {"evolve", 4, caseEvolve}, {"empty", 0.7, caseEmpty}, {"retarget", 0.7, caseRetarget})
