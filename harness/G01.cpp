// G01: the graph stays consistent under any sequence of operations.
// Oracle: a shadow graph (sets of vertices, edges with source, destination and program) compared after every operation.
#include "gen.hpp"
#include "tpg/instrumented/tpgEdgeInstrumented.h"
#include "tpg/instrumented/tpgInstrumentedFactory.h"
#include "tpg/instrumented/tpgVertexInstrumentation.h"
#include "tpg/tpgAction.h"
#include "tpg/tpgEdge.h"
#include "tpg/tpgExecutionEngine.h"
#include "tpg/tpgFactory.h"
#include "tpg/tpgTeam.h"
using namespace gen;
using vh::Rng;
typedef const TPG::TPGVertex* V;
typedef const TPG::TPGEdge* E;
typedef std::shared_ptr<Program::Program> PP;

struct ME { V s, d; Program::Program* p; };
struct Model
{
    std::map<V, int64_t> v; // -1: team, otherwise the action identifier
    std::map<E, ME> e;
    bool instrumented = false;

    void removeVertex(V x)
    {
        for (auto it = e.begin(); it != e.end();)
            if (it->second.s == x || it->second.d == x) it = e.erase(it);
            else ++it;
        v.erase(x);
    }
};

static void check(const TPG::TPGGraph& g, const Model& m, const std::string& log)
{
    auto vs = g.getVertices();
    VH_CHECK(vs.size() == m.v.size() && g.getNbVertices() == m.v.size(), "vertices", vs.size() << " vertices, " << m.v.size()
             << " expected; " << log);
    std::set<V> seen;
    for (auto x : vs) {
        VH_CHECK(seen.insert(x).second, "vertices", "a vertex is listed twice; " << log);
        auto it = m.v.find(x);
        VH_CHECK(it != m.v.end(), "vertices", "an unexpected vertex; " << log);
        auto a = dynamic_cast<const TPG::TPGAction*>(x);
        auto t = dynamic_cast<const TPG::TPGTeam*>(x);
        VH_CHECK((a != nullptr) == (it->second >= 0) && (t != nullptr) == (it->second < 0), "kind", "kind of a vertex; " << log);
        if (a) VH_CHECK((int64_t)a->getActionID() == it->second, "action", "identifier of an action; " << log);
        VH_CHECK(g.hasVertex(*x), "hasVertex", "hasVertex denies a vertex; " << log);
        VH_CHECK((dynamic_cast<const TPG::TPGVertexInstrumentation*>(x) != nullptr) == m.instrumented, "factory",
                 "a vertex was not made by the factory of the graph; " << log);
    }
    // edges
    const auto& es = g.getEdges();
    VH_CHECK(es.size() == m.e.size(), "edges", es.size() << " edges, " << m.e.size() << " expected; " << log);
    std::set<E> eseen;
    std::map<V, std::multiset<E>> out, in;
    for (auto& up : es) {
        E x = up.get();
        VH_CHECK(eseen.insert(x).second, "edges", "an edge is listed twice; " << log);
        auto it = m.e.find(x);
        VH_CHECK(it != m.e.end(), "edges", "an unexpected edge; " << log);
        VH_CHECK(x->getSource() == it->second.s, "source", "source of an edge; " << log);
        VH_CHECK(x->getDestination() == it->second.d, "destination", "destination of an edge; " << log);
        VH_CHECK(seen.count(x->getSource()) && seen.count(x->getDestination()), "foreign end", "an end is not in the graph; " << log);
        VH_CHECK(&x->getProgram() == it->second.p, "program", "program of an edge; " << log);
        VH_CHECK((dynamic_cast<const TPG::TPGEdgeInstrumented*>(x) != nullptr) == m.instrumented, "factory",
                 "an edge was not made by the factory of the graph; " << log);
    }
    for (auto& kv : m.e) {
        out[kv.second.s].insert(kv.first);
        in[kv.second.d].insert(kv.first);
    }
    std::set<V> roots;
    for (auto x : vs) {
        std::multiset<E> o(x->getOutgoingEdges().begin(), x->getOutgoingEdges().end()),
            i(x->getIncomingEdges().begin(), x->getIncomingEdges().end());
        VH_CHECK(o == out[x], "outgoing list", "a vertex lists " << o.size() << " outgoing edges, " << out[x].size() << " expected; " << log);
        VH_CHECK(i == in[x], "incoming list", "a vertex lists " << i.size() << " incoming edges, " << in[x].size() << " expected; " << log);
        if (i.empty()) roots.insert(x);
    }
    auto rv = g.getRootVertices();
    VH_CHECK(rv.size() == roots.size() && std::set<V>(rv.begin(), rv.end()) == roots && g.getNbRootVertices() == roots.size(), "roots",
             rv.size() << " roots, " << roots.size() << " expected; " << log);
    vh::count("states_compared");
}

static void unitHistory(Rng& r)
{
    EnvOptions eo;
    eo.maxSources = 2;
    eo.maxDim = 3;
    auto e = makeEnv(r, eo);
    bool inst = r.chance(0.3);
    auto make = [&](bool in) {
        return std::make_unique<TPG::TPGGraph>(*e->env, in ? std::unique_ptr<TPG::TPGFactory>(new TPG::TPGInstrumentedFactory())
                                                          : std::make_unique<TPG::TPGFactory>());
    };
    auto g = make(inst);
    Model m;
    m.instrumented = inst;
    // a second graph, whose vertices and edges are foreign to the first
    auto f = make(r.chance(0.5));
    V fa = &f->addNewAction(3), ft = &f->addNewTeam();
    PP fp = makeProgram(r, *e, 3);
    E fe = &f->addNewEdge(*ft, *fa, fp);
    std::vector<std::weak_ptr<Program::Program>> allProgs;
    std::vector<PP> held;
    std::string log;
    auto anyV = [&](bool& foreign) -> V {
        foreign = m.v.empty() || r.chance(0.08);
        if (foreign) return r.chance(0.5) ? fa : ft;
        auto it = m.v.begin();
        std::advance(it, r.below(m.v.size()));
        return it->first;
    };
    auto anyE = [&](bool& foreign) -> E {
        foreign = m.e.empty() || r.chance(0.1);
        if (foreign) return fe;
        auto it = m.e.begin();
        std::advance(it, r.below(m.e.size()));
        return it->first;
    };
    size_t steps = 20 + r.below(r.chance(0.1) ? 300 : 60);
    for (size_t step = 0; step < steps; step++) {
        switch (r.below(20)) {
        case 0: case 1: {
            auto& t = g->addNewTeam();
            m.v[&t] = -1;
            log += "T ";
            break;
        }
        case 2: {
            uint64_t id = r.below(5);
            auto& a = g->addNewAction(id);
            m.v[&a] = (int64_t)id;
            log += "A ";
            break;
        }
        case 3: case 4: case 5: case 6: case 7: {
            bool f1, f2;
            V s = anyV(f1), d = anyV(f2);
            PP p;
            if (!held.empty() && r.chance(0.4)) p = r.pick(held);
            else {
                p = makeProgram(r, *e, 2);
                allProgs.push_back(p);
                if (r.chance(0.3)) held.push_back(p);
            }
            bool ok = !f1 && !f2 && m.v.at(s) < 0;
            bool threw = false;
            try {
                auto& x = g->addNewEdge(*s, *d, p);
                m.e[&x] = {s, d, p.get()};
            }
            catch (std::runtime_error&) { threw = true; }
            VH_CHECK(threw == !ok, "edge refusal", "an edge was " << (threw ? "refused" : "accepted") << "; " << log);
            log += ok ? "E " : "E! ";
            vh::count(ok ? "edges_added" : "refused");
            break;
        }
        case 8: {
            bool fo;
            E x = anyE(fo);
            bool threw = false;
            try { g->removeEdge(*x); }
            catch (std::runtime_error&) { threw = true; }
            VH_CHECK(threw == fo, "removal", "removing an edge: threw " << threw << "; " << log);
            if (!fo) m.e.erase(x);
            log += fo ? "rE! " : "rE ";
            vh::count(fo ? "refused" : "edges_removed");
            break;
        }
        case 9: {
            if (r.chance(0.4)) break;
            bool fo;
            V x = anyV(fo);
            g->removeVertex(*x);
            if (!fo) m.removeVertex(x);
            log += fo ? "rV! " : "rV ";
            vh::count(fo ? "refused" : "vertices_removed");
            break;
        }
        case 10: case 11: {
            bool fo;
            V x = anyV(fo);
            bool threw = false;
            try {
                V c = &g->cloneVertex(*x);
                VH_CHECK(!m.v.count(c), "clone", "the clone is an existing vertex");
                m.v[c] = m.v.at(x);
                // its edges: same destinations and programs as the original
                std::multiset<std::pair<V, Program::Program*>> want, got;
                for (auto& kv : m.e)
                    if (kv.second.s == x) want.insert({kv.second.d, kv.second.p});
                for (auto ed : c->getOutgoingEdges()) {
                    got.insert({ed->getDestination(), &ed->getProgram()});
                    m.e[ed] = {c, ed->getDestination(), &ed->getProgram()};
                }
                VH_CHECK(want == got, "clone", "a cloned vertex has " << got.size() << " edges, " << want.size() << " expected; " << log);
                vh::count("vertices_cloned");
            }
            catch (std::runtime_error&) { threw = true; }
            VH_CHECK(threw == fo, "clone", "cloning a vertex: threw " << threw << "; " << log);
            log += fo ? "cV! " : "cV ";
            break;
        }
        case 12: {
            bool fo;
            E x = anyE(fo);
            bool threw = false;
            try {
                E c = &g->cloneEdge(*x);
                VH_CHECK(!m.e.count(c), "clone", "the clone is an existing edge");
                if (!fo) m.e[c] = ME(m.e.at(x));
                vh::count("edges_cloned");
            }
            catch (std::runtime_error&) { threw = true; }
            VH_CHECK(threw == fo, "clone", "cloning an edge: threw " << threw << "; " << log);
            log += fo ? "cE! " : "cE ";
            break;
        }
        case 13: case 14: {
            bool f1, f2;
            E x = anyE(f1);
            V d = anyV(f2);
            bool ok = g->setEdgeDestination(*x, *d);
            VH_CHECK(ok == (!f1 && !f2), "destination refusal", "setEdgeDestination returned " << ok << "; " << log);
            if (ok) m.e.at(x).d = d;
            log += ok ? "sD " : "sD! ";
            vh::count(ok ? "destinations_set" : "refused");
            break;
        }
        case 15: case 16: {
            bool f1, f2;
            E x = anyE(f1);
            V s = anyV(f2);
            bool ok = false, threw = false;
            bool action = !f1 && !f2 && m.v.at(s) >= 0;
            try { ok = g->setEdgeSource(*x, *s); }
            catch (std::runtime_error&) { threw = true; }
            VH_CHECK(action ? (threw || !ok) : (!threw && ok == (!f1 && !f2)), "source refusal", "setEdgeSource returned " << ok
                     << ", threw " << threw << "; " << log);
            if (ok) m.e.at(x).s = s;
            log += ok ? "sS " : "sS! ";
            vh::count(ok ? "sources_set" : "refused");
            break;
        }
        case 17: {
            bool fo;
            E x = anyE(fo);
            if (fo) break;
            PP p = held.empty() || r.chance(0.5) ? makeProgram(r, *e, 2) : r.pick(held);
            allProgs.push_back(p);
            x->setProgram(p);
            m.e.at(x).p = p.get();
            log += "sP ";
            break;
        }
        case 18: {
            int k = (int)r.below(6);
            if (k == 0 && r.chance(0.3)) {
                g->clear();
                m.v.clear();
                m.e.clear();
                log += "clear ";
                vh::count("clears");
            }
            else if (k == 1) {
                g->clearProgramIntrons();
                for (auto& x : g->getEdges()) {
                    bool none = true;
                    for (size_t i = 0; i < x->getProgram().getNbLines(); i++) none &= !x->getProgram().isIntron(i);
                    VH_CHECK(none, "introns", "a dead line is left after clearing them");
                }
                log += "introns ";
            }
            else if (k == 2) { // move construction
                auto n = std::unique_ptr<TPG::TPGGraph>(new TPG::TPGGraph(std::move(*g)));
                g = std::move(n);
                log += "move ";
                vh::count("moves");
            }
            else if (k == 3) { // assignment to a graph that holds something
                auto n = make(r.chance(0.5));
                auto& t = n->addNewTeam();
                auto& a = n->addNewAction(1);
                n->addNewEdge(t, a, makeProgram(r, *e, 2));
                *n = std::move(*g);
                g = std::move(n);
                log += "assign ";
                vh::count("assignments");
            }
            else if (k == 4) {
                using std::swap;
                auto n = make(inst);
                swap(*n, *g);
                g = std::move(n);
                log += "swap ";
                vh::count("swaps");
            }
            break;
        }
        default: break;
        }
        check(*g, m, log);
        if (r.chance(0.05)) {
            VH_CHECK(f->getNbVertices() == 2 && f->getEdges().size() == 1 && fe->getSource() == ft && fe->getDestination() == fa
                     && ft->getOutgoingEdges().size() == 1 && fa->getIncomingEdges().size() == 1 && &fe->getProgram() == fp.get(),
                     "foreign graph", "a graph was changed by operations on another; " << log);
            VH_CHECK(!g->hasVertex(*ft) && !g->hasVertex(*fa), "hasVertex", "hasVertex accepts a foreign vertex");
        }
    }
    // programs live exactly as long as an edge (or the harness) needs them
    std::set<Program::Program*> used;
    for (auto& kv : m.e) used.insert(kv.second.p);
    for (auto& p : held) used.insert(p.get());
    for (auto& w : allProgs)
        if (auto p = w.lock()) {
            VH_CHECK(used.count(p.get()), "program kept", "a program no edge uses is still alive; " << log);
            vh::count("programs_alive");
        }
        else vh::count("programs_released");
    g.reset();
    held.clear();
    for (auto& w : allProgs) VH_CHECK(w.expired(), "program leaked", "a program outlives its graph; " << log);
    vh::distinct(hashStr(log));
    vh::sample(log);
}
VH_MAIN({"history", 1, unitHistory})
