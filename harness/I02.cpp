// I02: policy statistics equal the facts of the policy.
// Oracle: an independent account of the policy (distances, then one pass over the edges).
#include "gen_learn.hpp"
#include "tpg/instrumented/tpgInstrumentedFactory.h"
#include "tpg/policyStats.h"
using namespace gen;
using vh::Rng;
typedef const TPG::TPGVertex* V;

struct Facts
{
    std::map<const Program::Program*, size_t> programs;
    std::map<const TPG::TPGTeam*, size_t> teams;
    std::map<const TPG::TPGAction*, size_t> actions;
    std::map<size_t, size_t> ids, instructions, perDepth;
    std::map<std::pair<size_t, size_t>, size_t> locations;
    std::vector<std::pair<size_t, size_t>> lines; // lines, dead lines
    std::vector<size_t> edges;
    size_t depth = 0;

    void line(const EnvBundle& e, const Program::Line& l)
    {
        instructions[l.getInstructionIndex()]++;
        auto& d = e.instr(l.getInstructionIndex());
        for (size_t k = 0; k < d.ops.size(); k++) {
            size_t s = l.getOperand(k).first, w;
            bool is2D = false;
            if (s == 0) w = e.nbRegs;
            else if (e.nbConst > 0 && s == 1) w = e.nbConst;
            else {
                auto& src = *e.sources[s - 1 - (e.nbConst > 0)];
                is2D = src.is2D();
                w = src.w;
            }
            for (size_t i : refIndices(d.ops[k], is2D, w, l.getOperand(k).second % e.space(d.ops[k], s))) locations[{s, i}]++;
        }
    }
    void program(const EnvBundle& e, const Program::Program& p)
    {
        if (programs[&p]++) return;
        auto dead = refDead(e, p);
        size_t n = 0;
        for (size_t i = 0; i < p.getNbLines(); i++)
            if (dead[i]) n++;
            else line(e, p.getLine(i));
        lines.push_back({p.getNbLines(), n});
        vh::count("programs_analysed");
        vh::count("dead_lines", n);
    }
    void vertex(V v)
    {
        if (auto t = dynamic_cast<const TPG::TPGTeam*>(v)) {
            if (!teams[t]++) edges.push_back(t->getOutgoingEdges().size());
        }
        else {
            auto a = dynamic_cast<const TPG::TPGAction*>(v);
            actions[a]++;
            ids[a->getActionID()]++;
        }
    }
    void policy(const EnvBundle& e, V root)
    {
        // Relax distances until they are stable.
        std::map<V, size_t> dist{{root, 0}};
        for (bool more = true; more;) {
            more = false;
            for (auto& x : std::map<V, size_t>(dist))
                for (auto ed : x.first->getOutgoingEdges()) {
                    auto it = dist.find(ed->getDestination());
                    if (it != dist.end() && it->second <= x.second + 1) continue;
                    dist[ed->getDestination()] = x.second + 1;
                    more = true;
                }
        }
        perDepth[0] = 1;
        vertex(root);
        for (auto& x : dist)
            for (auto ed : x.first->getOutgoingEdges()) {
                perDepth[x.second + 1]++;
                vertex(ed->getDestination());
                program(e, ed->getProgram());
            }
        depth = perDepth.rbegin()->first;
        if (depth >= 4) vh::count("deep_policies");
        if (programs.empty()) vh::count("policies_without_program");
        else vh::count("policies");
    }
};
static void judge(const TPG::PolicyStats& s, const Facts& f, const std::string& ctx)
{
    VH_CHECK(s.nbUsePerProgram == f.programs, "uses of programs", s.nbUsePerProgram.size() << " instead of " << f.programs.size() << " " << ctx);
    VH_CHECK(s.nbUsePerTPGTeam == f.teams, "uses of teams", s.nbUsePerTPGTeam.size() << " instead of " << f.teams.size() << " " << ctx);
    VH_CHECK(s.nbUsePerTPGAction == f.actions, "uses of actions", s.nbUsePerTPGAction.size() << " instead of " << f.actions.size() << " " << ctx);
    VH_CHECK(s.nbUsagePerActionID == f.ids, "uses of action identifiers", s.nbUsagePerActionID.size() << " instead of " << f.ids.size() << " " << ctx);
    VH_CHECK(s.nbUsagePerInstruction == f.instructions, "uses of instructions", s.nbUsagePerInstruction.size() << " instead of " << f.instructions.size() << " " << ctx);
    if (s.nbUsagePerDataLocation != f.locations) {
        std::ostringstream o;
        for (auto& x : f.locations) {
            auto it = s.nbUsagePerDataLocation.find(x.first);
            size_t n = it == s.nbUsagePerDataLocation.end() ? 0 : it->second;
            if (n != x.second) o << x.first.first << ":" << x.first.second << " " << n << " instead of " << x.second << "; ";
        }
        vh::fail("uses of data locations", o.str() + ctx);
    }
    VH_CHECK(s.nbLinesPerProgram.size() == s.nbIntronPerProgram.size(), "lines and dead lines of programs", ctx);
    std::vector<std::pair<size_t, size_t>> l;
    for (size_t i = 0; i < s.nbLinesPerProgram.size(); i++) l.push_back({s.nbLinesPerProgram[i], s.nbIntronPerProgram[i]});
    auto fl = f.lines;
    auto fe = f.edges, e = s.nbOutgoingEdgesPerTeam;
    std::sort(l.begin(), l.end());
    std::sort(fl.begin(), fl.end());
    std::sort(e.begin(), e.end());
    std::sort(fe.begin(), fe.end());
    VH_CHECK(l == fl, "lines and dead lines of programs", l.size() << " instead of " << fl.size() << " " << ctx);
    VH_CHECK(e == fe, "edges of teams", e.size() << " instead of " << fe.size() << " " << ctx);
    VH_CHECK(s.nbDistinctTeams == f.teams.size(), "number of teams", s.nbDistinctTeams << " instead of " << f.teams.size() << " " << ctx);
    VH_CHECK(s.maxPolicyDepth == f.depth, "depth", s.maxPolicyDepth << " instead of " << f.depth << " " << ctx);
    VH_CHECK(s.nbTPGVertexPerDepthLevel == f.perDepth, "vertices per depth", ctx);
    vh::count("judged");
}
// The text written tells the same facts: the value of every label, and the pairs listed after it.
static void judgeText(const std::string& text, const Facts& f, const std::string& ctx)
{
    struct Entry { std::string value; std::map<size_t, size_t> pairs; };
    std::map<std::string, Entry> entries; // by label, those of data sources by "number/label"
    std::istringstream in(text);
    std::string l, source;
    while (std::getline(in, l)) {
        size_t at = l.find("DataHandler ");
        if (at != std::string::npos) {
            source = std::to_string(std::stoul(l.substr(at + 12))) + "/";
            VH_CHECK(!entries.count(source), "written statistics", "a data source listed twice " << text << " " << ctx);
            entries[source];
            continue;
        }
        size_t end = l.find_first_of(":\t");
        std::string label = end == std::string::npos || l[0] == '{' ? "" : l.substr(0, end);
        Entry& e = entries[source + label];
        if (!label.empty()) {
            size_t v = l.find_first_not_of(": \t", end);
            if (v != std::string::npos && l[v] != '{') e.value = l.substr(v, l.find_first_of(": \t", v) - v);
        }
        for (size_t p = l.find('{'); p != std::string::npos; p = l.find('{', p + 1)) {
            char* next;
            size_t k = std::strtoull(l.c_str() + p + 1, &next, 10);
            VH_CHECK(*next == ',' && e.pairs.emplace(k, std::strtoull(next + 1, nullptr, 10)).second, "written statistics", l << " " << ctx);
        }
    }
    auto value = [&](const std::string& label, double x) {
        VH_CHECK(entries.count(label), "written statistics", "nothing about " << label << " in " << text << " " << ctx);
        if (std::isnan(x)) return; // mean of nothing
        std::ostringstream o;
        o << x;
        VH_CHECK(!entries[label].value.empty() && std::fabs(std::stod(entries[label].value) - x) <= 2e-5 * std::fabs(x), "written statistics: " + label,
                 entries[label].value << " instead of " << x << " " << ctx);
    };
    auto pairs = [&](const std::string& label, const std::map<size_t, size_t>& x) {
        VH_CHECK(entries[label].pairs == x, "written statistics: list of " + label, text << " " << ctx);
    };
    auto sum = [](auto& c) {
        double t = 0;
        for (auto& x : c) t += (double)x.second;
        return t;
    };
    double edges = 0, lines = 0;
    for (size_t e : f.edges) edges += (double)e;
    for (auto& x : f.lines) lines += (double)x.first;
    value("Teams", (double)f.teams.size());
    value("Edges", edges);
    value("Actions", (double)f.ids.size());
    value("Stages", (double)f.depth);
    pairs("Vertex/stage", f.perDepth);
    value("Use/action", sum(f.ids) / (double)f.ids.size());
    pairs("Use/action", f.ids);
    value("Programs", (double)f.programs.size());
    value("Line/prog", lines / (double)f.lines.size());
    value("Intr/prog", sum(f.lines) / (double)f.lines.size());
    value("Use/prog", sum(f.programs) / (double)f.programs.size());
    value("Use/instr", sum(f.instructions) / (double)f.instructions.size());
    pairs("Use/instr", f.instructions);
    std::map<size_t, std::map<size_t, size_t>> data;
    for (auto& x : f.locations) data[x.first.first][x.first.second] = x.second;
    size_t listed = 0;
    for (auto& e : entries) listed += e.first.size() > 1 && e.first.back() == '/' && e.first.find('/') == e.first.size() - 1 && isdigit(e.first[0]);
    VH_CHECK(listed == data.size(), "written statistics: data sources", text << " " << ctx);
    for (auto& d : data) {
        std::string n = std::to_string(d.first) + "/";
        value(n + "Accesses", sum(d.second));
        value(n + "Locations", (double)d.second.size());
        pairs(n, d.second);
    }
    vh::count("written_judged");
}
struct Place
{
    std::unique_ptr<EnvBundle> e;
    std::shared_ptr<TPG::TPGGraph> g;
};
static Place makePlace(Rng& r)
{
    Place w;
    w.e = makeEnv(r);
    if (r.chance(0.3)) w.g = TPG::TPGInstrumentedFactory().createTPGGraph(*w.e->env);
    else w.g = std::make_shared<TPG::TPGGraph>(*w.e->env);
    GraphOptions go;
    go.maxTeams = 1 + r.below(14);
    go.pDeep = go.pWide = 0.04;
    go.maxEdges = 1 + r.below(7);
    go.maxActions = 1 + r.below(5);
    go.maxLines = r.chance(0.1) ? 0 : 1 + r.below(14);
    go.rootActions = r.chance(0.4);
    go.shareAnyDest = r.chance(0.6);
    go.uniqueActions = r.chance(0.5);
    makeGraph(r, *w.e, *w.g, go);
    return w;
}
static void caseHistory(Rng& r)
{
    Quiet q;
    TPG::PolicyStats s;
    size_t worlds = 1 + r.below(3);
    for (size_t n = 0; n < worlds; n++) {
        Place w = makePlace(r);
        std::string ctx = w.e->describe() + "\n" + graphText(*w.g);
        auto vs = w.g->getVertices();
        s.setEnvironment(*w.e->env);
        if (n > 0) vh::count("environments_changed");
        if (r.chance(0.2)) s.setEnvironment(*w.e->env);
        Facts f;
        for (int i = 0; i < 12; i++) {
            V v = r.pick(vs);
            switch (r.below(7)) {
            case 0:
            case 1:
            case 2:
                s.clear();
                f = Facts();
                judge(s, f, "after clearing " + ctx);
                s.analyzePolicy(v);
                f.policy(*w.e, v);
                vh::count("analyses_after_clearing");
                break;
            case 3: {
                if (v->getOutgoingEdges().empty()) break;
                std::vector<const TPG::TPGEdge*> out(v->getOutgoingEdges().begin(), v->getOutgoingEdges().end());
                auto& p = r.pick(out)->getProgram();
                s.analyzeProgram(&p);
                f.program(*w.e, p);
                vh::count("single_programs");
                break;
            }
            case 4:
                if (auto t = dynamic_cast<const TPG::TPGTeam*>(v)) s.analyzeTPGTeam(t);
                else s.analyzeTPGAction((const TPG::TPGAction*)v);
                f.vertex(v);
                vh::count("single_vertices");
                break;
            case 5: {
                if (v->getOutgoingEdges().empty()) break;
                auto& p = v->getOutgoingEdges().front()->getProgram();
                if (p.getNbLines() == 0) break;
                auto& l = p.getLine(r.below(p.getNbLines()));
                s.analyzeLine(&l);
                f.line(*w.e, l);
                vh::count("single_lines");
                break;
            }
            default: {
                // Writing the statistics changes nothing.
                std::ostringstream o, o2;
                o << s;
                o2 << s;
                VH_CHECK(o.str() == o2.str() && !o.str().empty(), "written statistics differ", ctx);
                judgeText(o.str(), f, ctx);
                vh::count("written");
            }
            }
            judge(s, f, ctx);
        }
        s.clear();
        vh::distinct(hashStr(ctx));
    }
}
// Policies found by training.
static void caseTrained(Rng& r)
{
    Quiet q;
    auto s = makeSpec(r);
    auto p = makeParams(r, *s, 12);
    PlainEnv env(s);
    Sim<PlainEnv> sim(s, p);
    Learn::LearningAgent a(env, s->set, p);
    a.init(r.next());
    TPG::PolicyStats st;
    st.setEnvironment(a.getTPGGraph()->getEnvironment());
    for (uint64_t g = 0; g < 4; g++) {
        a.trainOneGeneration(g);
        for (V v : a.getTPGGraph()->getRootVertices()) {
            Facts f;
            st.clear();
            st.analyzePolicy(v);
            f.policy(sim.e, v);
            judge(st, f, "trained " + describe(p) + " " + s->describe());
            vh::count("trained_policies");
        }
    }
    vh::distinct(hashStr(graphText(*a.getTPGGraph())));
}
VH_MAIN({"history", 4, caseHistory}, {"trained", 1, caseTrained})
