// C01: generated C code behaves exactly like the engine.
// Oracle: the generated code is compiled and run; its actions are compared with the engine's.
#include "gen.hpp"
#include "codeGen/tpgGenerationEngineFactory.h"
#include "codeGen/tpgGenerationEngine.h"
#include "tpg/tpgAction.h"
#include "tpg/tpgEdge.h"
#include "tpg/tpgExecutionEngine.h"
#include "tpg/tpgTeam.h"
#include <dlfcn.h>
#include <spawn.h>
#include <sys/stat.h>
#include <sys/wait.h>
extern char** environ;
using namespace gen;
using vh::Rng;

static int runGcc(std::vector<std::string> a, const std::string& log)
{
    std::vector<char*> v;
    for (auto& s : a) v.push_back(&s[0]);
    v.push_back(nullptr);
    posix_spawn_file_actions_t fa;
    posix_spawn_file_actions_init(&fa);
    posix_spawn_file_actions_addopen(&fa, 2, log.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    pid_t pid;
    int rc = posix_spawnp(&pid, v[0], &fa, nullptr, v.data(), environ);
    posix_spawn_file_actions_destroy(&fa);
    if (rc) return -1;
    int st = 0;
    waitpid(pid, &st, 0);
    return WIFEXITED(st) ? WEXITSTATUS(st) : -2;
}

static std::string slurp(const std::string& f)
{
    std::ifstream i(f);
    std::ostringstream o;
    o << i.rdbuf();
    return o.str();
}

struct Code
{
    std::string dir, name;
    void* h = nullptr;
    ~Code()
    {
        if (h) dlclose(h);
        for (auto f : {"/" + name + ".c", "/" + name + ".h", "/" + name + "_program.c", "/" + name + "_program.h",
                       std::string("/driver.c"), std::string("/externHeader.h"), std::string("/lib.so"),
                       std::string("/log")})
            unlink((dir + f).c_str());
        rmdir(dir.c_str());
    }
};

static void compileIt(const EnvBundle& e, Code& c)
{
    const char* tn[] = {"double", "int", "float"};
    std::ofstream(c.dir + "/externHeader.h") << "#ifndef EH\n#define EH\n#include <math.h>\n#include <stdint.h>\n#endif\n";
    std::ofstream d(c.dir + "/driver.c");
    for (size_t i = 0; i < e.sources.size(); i++)
        d << tn[(int)e.sources[i]->el] << "* in" << i + 1 << ";\nvoid setin" << i + 1 << "(void* p){in" << i + 1
          << " = p;}\n";
    d.close();
    // Compiled as separate units, as a user would.
    int rc = runGcc({"gcc", "-w", "-O0", "-ffp-contract=off", "-fPIC", "-shared", "-I" + c.dir, c.dir + "/" + c.name + ".c",
                     c.dir + "/" + c.name + "_program.c", c.dir + "/driver.c", "-lm", "-o", c.dir + "/lib.so"},
                    c.dir + "/log");
    if (rc == -1) {
        std::cerr << "cannot run gcc" << std::endl;
        _exit(42);
    }
    VH_CHECK(rc == 0, "does not compile", "gcc refuses the generated code: " << slurp(c.dir + "/log").substr(0, 1500));
    c.h = dlopen((c.dir + "/lib.so").c_str(), RTLD_NOW | RTLD_LOCAL);
    VH_CHECK(c.h, "does not link", "the generated code does not load: " << dlerror());
    vh::count("compiled");
}

struct Buffers
{
    std::vector<std::vector<double>> d;
    std::vector<std::vector<int>> i;
    std::vector<std::vector<float>> f;
};

static uint64_t nb = 0;

static void run(Rng& r, bool stack, const GraphOptions& go)
{
    EnvOptions eo;
    eo.onlyPrintable = true;
    eo.maxSources = 4;
    auto e = makeEnv(r, eo);
    TPG::TPGGraph g(*e->env);
    makeGraph(r, *e, g, go);
    std::string gt = graphText(g);
    Code c;
    c.name = r.chance(0.5) ? "tpg" : "my_policy" + std::to_string(r.below(100));
    c.dir = vh::opt().scratch + "/c" + std::to_string(getpid()) + "_" + std::to_string(nb++);
    mkdir(c.dir.c_str(), 0700);
    {
        CodeGen::TPGGenerationEngineFactory f(stack ? CodeGen::TPGGenerationEngineFactory::stackMode
                                                    : CodeGen::TPGGenerationEngineFactory::switchMode);
        auto eng = f.create(c.name, g, c.dir + "/");
        eng->generateTPGGraph();
    }
    VH_CHECK(graphText(g) == gt, "graph changed", "generating code changed the graph");
    vh::sample(std::string(stack ? "stack " : "switch ") + e->describe() + "\n" + gt);
    std::string what = e->describe() + "\n" + gt;
    try {
        compileIt(*e, c);
    }
    catch (vh::CaseFail&) {
        vh::st().violations.back().detail += "\n" + what.substr(0, 1500);
        throw;
    }
    auto inference = (int (*)())dlsym(c.h, "inferenceTPG");
    VH_CHECK(inference, "entry point", "no inferenceTPG in the generated code");
    auto fromVertex = (int (*)(void*))dlsym(c.h, "executeFromVertex");
    // Functions of the vertices: teams in the order of the graph, actions by ID.
    std::vector<void*> fn;
    if (stack && fromVertex) {
        std::string h = slurp(c.dir + "/" + c.name + ".h");
        std::vector<std::string> teams;
        size_t a = h.find("enum Vertex {"), b = h.find('}', a);
        if (a != std::string::npos && b != std::string::npos) {
            std::istringstream in(h.substr(a + 13, b - a - 13));
            std::string t;
            while (std::getline(in, t, ',')) {
                size_t s = t.find_first_not_of(" \n\t"), en = t.rfind("Vert");
                if (s == std::string::npos || en == std::string::npos) continue;
                if (t[s] == 'T') teams.push_back(t.substr(s, en - s));
            }
        }
        size_t k = 0;
        for (auto v : g.getVertices()) {
            auto act = dynamic_cast<const TPG::TPGAction*>(v);
            std::string n = act ? "A" + std::to_string(act->getActionID()) : k < teams.size() ? teams[k++] : "?";
            fn.push_back(dlsym(c.h, n.c_str()));
        }
        if (k != teams.size() || std::count(fn.begin(), fn.end(), nullptr)) fn.clear();
    }
    TPG::TPGExecutionEngine eng(*e->env);
    auto roots = g.getRootVertices();
    auto vs = g.getVertices();
    std::set<uint64_t> actions;
    Buffers buf;
    size_t n = e->sources.size();
    buf.d.resize(n);
    buf.i.resize(n);
    buf.f.resize(n);
    for (int k = 0; k < 120; k++) {
        e->randomizeData(r, k % 3 ? 0.02 : 0.2);
        for (size_t s = 0; s < n; s++) {
            auto& src = *e->sources[s];
            void* p;
            if (src.el == El::D) { buf.d[s].assign(src.shadow.begin(), src.shadow.end()); p = buf.d[s].data(); }
            else if (src.el == El::I) { buf.i[s].assign(src.shadow.begin(), src.shadow.end()); p = buf.i[s].data(); }
            else { buf.f[s].assign(src.shadow.begin(), src.shadow.end()); p = buf.f[s].data(); }
            ((void (*)(void*))dlsym(c.h, ("setin" + std::to_string(s + 1)).c_str()))(p);
        }
        auto expected = [&](const TPG::TPGVertex* v) {
            return dynamic_cast<const TPG::TPGAction*>(eng.executeFromRoot(*v).back())->getActionID();
        };
        uint64_t want = expected(roots[0]);
        int got = inference();
        vh::count("inferences");
        VH_CHECK((uint64_t)(int64_t)got == want, "action", "generated code chooses " << got << " instead of " << want
                 << " (call " << k << ", " << (stack ? "stack" : "switch") << ")\n" << what);
        if (roots[0]->getOutgoingEdges().size()) actions.insert(want);
        if (!fn.empty()) {
            size_t i = r.below(vs.size());
            want = expected(vs[i]);
            got = fromVertex(fn[i]);
            vh::count("inferences_from_other_vertices");
            VH_CHECK((uint64_t)(int64_t)got == want, "action from vertex", "started from vertex " << i
                     << " the generated code chooses " << got << " instead of " << want << "\n" << what);
        }
    }
    if (actions.size() > 1) vh::distinct(vh::mix(hashStr(gt), stack));
    vh::count(stack ? "stack_mode" : "switch_mode");
}

static GraphOptions options(Rng& r)
{
    GraphOptions go;
    go.maxTeams = 1 + r.below(8);
    go.pDeep = go.pWide = 0.04;
    go.maxEdges = 2 + r.below(6);
    go.maxActions = 2 + r.below(6);
    go.shareAnyDest = r.chance(0.4);
    go.maxLines = r.chance(0.5) ? 6 : 14;
    go.rootActions = r.chance(0.15);
    go.uniqueActions = r.chance(0.85);
    return go;
}
static void unitStack(Rng& r) { auto o = options(r); run(r, true, o); }
static void unitSwitch(Rng& r) { auto o = options(r); run(r, false, o); }

// What cannot be written is reported: instructions without print template in use, impossible destinations.
static void unitRefused(Rng& r)
{
    for (int again = 0; again < 6; again++) {
        EnvOptions eo;
        eo.onlyPrintable = r.chance(0.3);
        eo.maxSources = 4;
        auto e = makeEnv(r, eo);
        TPG::TPGGraph g(*e->env);
        auto go = options(r);
        go.rootActions = false;
        makeGraph(r, *e, g, go);
        bool printable = true; // all live lines of the graph
        for (auto v : g.getVertices())
            for (auto ed : v->getOutgoingEdges()) {
                auto dead = refDead(*e, ed->getProgram());
                for (size_t i = 0; i < dead.size(); i++)
                    if (!dead[i]) printable = printable && e->instr(ed->getProgram().getLine(i).getInstructionIndex()).printable;
            }
        std::string gt = graphText(g), dir = vh::opt().scratch + "/r" + std::to_string(getpid()) + "_" + std::to_string(nb++);
        mkdir(dir.c_str(), 0700);
        bool stack = r.chance(0.5), missing = r.chance(0.2), threw = false;
        // Any one of the files may be impossible to write.
        static const char* names[] = {"p.c", "p.h", "p_program.c", "p_program.h"};
        std::string blocked = r.chance(0.3) ? dir + "/" + names[r.below(4)] : "";
        if (!blocked.empty()) mkdir(blocked.c_str(), 0700);
        std::streambuf* old = std::cout.rdbuf(nullptr);
        try {
            CodeGen::TPGGenerationEngineFactory f = r.chance(0.3) ? CodeGen::TPGGenerationEngineFactory()
                                                                  : CodeGen::TPGGenerationEngineFactory(stack ? CodeGen::TPGGenerationEngineFactory::stackMode
                                                                                                              : CodeGen::TPGGenerationEngineFactory::switchMode);
            auto eng = f.create("p", g, dir + (missing ? "/missing/" : "/"));
            VH_CHECK(eng != nullptr, "no engine", "the factory makes no engine");
            eng->generateTPGGraph();
        }
        catch (const std::runtime_error&) {
            threw = true;
        }
        std::cout.rdbuf(old);
        std::cout.clear();
        bool possible = printable && !missing && blocked.empty();
        VH_CHECK(threw == !possible, "refusal", (threw ? "refused" : "accepted") << (printable ? "" : " an instruction that cannot be printed")
                 << (missing ? " a missing directory " : " ") << blocked << "\n" << e->describe() << "\n" << gt);
        VH_CHECK(graphText(g) == gt, "graph changed", "generating code changed the graph");
        if (!printable) vh::count("unprintable_refused");
        if (missing || !blocked.empty()) vh::count("destinations_refused");
        if (possible) vh::count("generated_with_unprintable_available");
        for (auto n : names) {
            std::string p = dir + "/" + n;
            if (p == blocked) rmdir(p.c_str());
            else unlink(p.c_str());
        }
        rmdir(dir.c_str());
    }
}
VH_MAIN({"stack", 1, unitStack}, {"switch", 1, unitSwitch}, {"refused", 0.4, unitRefused})
