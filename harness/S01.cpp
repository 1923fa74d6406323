// S01: no memory error, leak or undefined behaviour in whole life cycles.
// Oracle: AddressSanitizer, LeakSanitizer, UBSan and the library's debug mode; here only the workload.
#include "gen_learn.hpp"
#include "codeGen/tpgGenerationEngine.h"
#include "codeGen/tpgGenerationEngineFactory.h"
#include "file/parametersParser.h"
#include "file/tpgGraphDotExporter.h"
#include "file/tpgGraphDotImporter.h"
#include "learn/classificationLearningAgent.h"
#include "log/cycleDetectionLALogger.h"
#include "log/laBasicLogger.h"
#include "log/laPolicyStatsLogger.h"
#include "mutator/programMutator.h"
#include "mutator/tpgMutator.h"
#include "tpg/instrumented/executionStats.h"
#include "tpg/instrumented/tpgExecutionEngineInstrumented.h"
#include "tpg/instrumented/tpgInstrumentedFactory.h"
#include "tpg/policyStats.h"
#include "tpg/tpgExecutionEngine.h"
#include "program/programExecutionEngine.h"
#include <sys/stat.h>
#include <dirent.h>
#include <fstream>
using namespace gen;
using vh::Rng;
typedef const TPG::TPGVertex* V;
typedef Learn::LearningMode Mode;

static bool isTeam(V v) { return dynamic_cast<const TPG::TPGTeam*>(v) != nullptr; }
struct Dir
{
    std::string d;
    Dir()
    {
        static int n = 0;
        d = vh::opt().scratch + "/s" + std::to_string(getpid()) + "_" + std::to_string(n++) + "/";
        mkdir(d.c_str(), 0700);
    }
    ~Dir()
    {
        if (DIR* x = opendir(d.c_str())) {
            while (dirent* e = readdir(x))
                if (e->d_name[0] != '.') unlink((d + e->d_name).c_str());
            closedir(x);
        }
        rmdir(d.c_str());
    }
};
struct Hollow {}; // end of a life after an exception

template <class A, class E> struct Life
{
    Rng& r;
    std::shared_ptr<LSpec> s;
    Learn::LearningParameters p;
    bool inst, printable;
    Dir dir;
    std::unique_ptr<E> le;
    std::unique_ptr<A> a;
    std::vector<std::unique_ptr<Log::LALogger>> loggers;
    std::vector<std::unique_ptr<std::ostringstream>> outs;
    std::vector<std::shared_ptr<Program::Program>> kept;
    std::vector<std::shared_ptr<TPG::TPGGraph>> graphs;
    std::vector<std::pair<V, std::shared_ptr<Learn::EvaluationResult>>> results;
    std::unique_ptr<Learn::LearningEnvironment> copy;
    std::string trail;
    uint64_t gen = 0;
    bool ready = false;

    explicit Life(Rng& r) : r(r) {}
    template <class... X> void make(bool printableOnly, X... x)
    {
        printable = printableOnly;
        LSpecOptions lo;
        lo.pArrays = 0.15;
        lo.onlyPrintable = printable;
        lo.pNotCopyable = 0.1;
        s = makeSpec(r, lo);
        s->agents = 2;
        p = makeParams(r, *s, 9);
        if (!s->copyable) p.nbThreads = 1; // refused otherwise
        if (std::is_same<E, DuelEnv>::value) p.nbIterationsPerPolicyEvaluation = 1 + r.below(2);
        inst = r.chance(0.4);
        le = std::make_unique<E>(s, nullptr);
        if (inst) a = std::make_unique<A>(*le, s->set, p, x..., TPG::TPGInstrumentedFactory());
        else a = std::make_unique<A>(*le, s->set, p, x..., TPG::TPGFactory());
    }
    TPG::TPGGraph& g() { return *a->getTPGGraph(); }
    V anyVertex()
    {
        auto vs = g().getVertices();
        return vs.empty() ? nullptr : r.pick(vs);
    }
    void execute(TPG::TPGGraph& graph, const Environment& env)
    {
        Archive own(r.below(50), 0.7, r.next());
        bool useInst = inst && &graph == &g();
        if (useInst) {
            TPG::TPGExecutionEngineInstrumented eng(env, r.chance(0.5) ? &own : nullptr);
            for (V v : graph.getRootVertices()) eng.executeFromRoot(*v);
            TPG::ExecutionStats st;
            st.analyzeExecution(eng, &graph);
            st.writeStatsToJson((dir.d + "stats.json").c_str(), r.chance(0.5));
            vh::count("op_instrumented_execution");
        }
        else {
            TPG::TPGExecutionEngine eng(env, r.chance(0.5) ? &own : nullptr);
            for (V v : graph.getRootVertices()) eng.executeFromRoot(*v);
            vh::count("op_execution");
        }
        if (own.getNbRecordings()) (void)own.at(r.below(own.getNbRecordings()));
    }
    void stats(V v)
    {
        TPG::PolicyStats ps;
        ps.setEnvironment(a->getEnvironment());
        ps.analyzePolicy(v);
        std::ostringstream o;
        o << ps;
        vh::count("op_policy_statistics");
    }
    void step()
    {
        size_t op = ready ? r.below(26) : 0;
        trail += std::to_string(op) + " ";
        if (vh::opt().replay) std::cerr << "op " << op << std::endl;
        switch (op) {
        case 0:
            a->init(r.next());
            results.clear();
            gen = 0;
            ready = true;
            vh::count("op_init");
            break;
        case 1:
        case 2:
        case 3:
        case 4:
        case 5:
            a->trainOneGeneration(gen++);
            vh::count("op_generation");
            break;
        case 6: {
            volatile bool stop = r.chance(0.2);
            Quiet q;
            a->train(stop, false);
            vh::count("op_train");
            break;
        }
        case 7: {
            if (!a->getBestRoot().first || !g().hasVertex(*a->getBestRoot().first)) break;
            a->keepBestPolicy();
            vh::count("op_keep_best");
            break;
        }
        case 8: {
            auto res = a->evaluateAllRoots(gen, r.chance(0.5) ? Mode::TESTING : r.chance(0.5) ? Mode::VALIDATION : Mode::TRAINING);
            results.clear();
            for (auto& x : res) results.push_back({x.second, x.first});
            vh::count("op_evaluate_all");
            break;
        }
        case 9: {
            outs.push_back(std::make_unique<std::ostringstream>());
            switch (r.below(3)) {
            case 0: {
                auto l = std::make_unique<Log::LABasicLogger>(*a, *outs.back());
                l->doValidation = p.doValidation;
                loggers.push_back(std::move(l));
                break;
            }
            case 1: loggers.push_back(std::make_unique<Log::LAPolicyStatsLogger>(*a, *outs.back())); break;
            default: loggers.push_back(std::make_unique<Log::CycleDetectionLALogger>(*a, *outs.back(), true));
            }
            vh::count("op_logger");
            break;
        }
        case 10: {
            File::TPGGraphDotExporter ex((dir.d + "g.dot").c_str(), g());
            ex.print();
            if (r.chance(0.5)) {
                auto roots = g().getRootVertices();
                ex.setNewFilePath((dir.d + "sub.dot").c_str());
                if (!roots.empty()) ex.printSubGraph(r.pick(roots));
            }
            vh::count("op_export");
            break;
        }
        case 11: {
            std::string f = dir.d + (r.chance(0.5) ? "g.dot" : "sub.dot");
            if (access(f.c_str(), R_OK)) break;
            TPG::TPGGraph h(a->getEnvironment());
            File::TPGGraphDotImporter im(f.c_str(), a->getEnvironment(), h);
            if (r.chance(0.3)) im.importGraph();
            execute(h, a->getEnvironment());
            auto hv = h.getVertices();
            if (!hv.empty()) stats(r.pick(hv));
            vh::count("op_import");
            break;
        }
        case 12: {
            std::string f = dir.d + "g.dot";
            if (access(f.c_str(), R_OK)) break;
            results.clear();
            File::TPGGraphDotImporter im(f.c_str(), a->getEnvironment(), g());
            a->forgetPreviousResults(); // of vertices that are gone
            vh::count("op_import_and_continue");
            break;
        }
        case 13: {
            if (!printable || g().getNbVertices() == 0) break;
            CodeGen::TPGGenerationEngineFactory f(r.chance(0.5) ? CodeGen::TPGGenerationEngineFactory::stackMode : CodeGen::TPGGenerationEngineFactory::switchMode);
            auto eng = f.create("code", g(), dir.d);
            eng->generateTPGGraph();
            vh::count("op_code");
            break;
        }
        case 14: execute(g(), a->getEnvironment()); break;
        case 15:
            if (V v = anyVertex()) stats(v);
            break;
        case 16: {
            // Programs outlive the graph they come from.
            for (auto& e : g().getEdges())
                if (r.chance(0.2)) kept.push_back(e->getProgramSharedPointer());
            Program::ProgramExecutionEngine pe(a->getEnvironment());
            for (auto& k : kept) {
                pe.setProgram(*k);
                pe.executeProgram(r.chance(0.5));
                Program::Program c(*k);
                k->identifyIntrons();
                c.clearIntrons();
                (void)c.hasIdenticalBehavior(*k);
                vh::count("op_kept_program");
            }
            if (kept.size() > 30) kept.clear();
            break;
        }
        case 17: {
            File::ParametersParser::writeParametersToJson((dir.d + "p.json").c_str(), p);
            Learn::LearningParameters q;
            File::ParametersParser::loadParametersFromJson((dir.d + "p.json").c_str(), q);
            vh::count("op_parameters");
            break;
        }
        case 18: {
            // Mutation from outside of the agent.
            Archive own(20, 0.5, r.next());
            Mutator::RNG rng(r.next());
            auto m = p.mutation;
            m.tpg.nbActions = s->nbActions;
            a->forgetPreviousResults();
            results.clear();
            Mutator::TPGMutator::populateTPG(g(), own, m, rng, 1 + r.below(3));
            if (r.chance(0.3)) g().clearProgramIntrons();
            vh::count("op_populate");
            break;
        }
        case 19: {
            // Surgery: only on vertices without recorded results.
            a->forgetPreviousResults();
            results.clear();
            V v = anyVertex();
            if (!v) break;
            switch (r.below(4)) {
            case 0: g().cloneVertex(*v); break;
            case 1:
                for (V x : g().getRootVertices())
                    if (isTeam(x) && g().getNbRootVertices() > 3) {
                        g().removeVertex(*x);
                        break;
                    }
                break;
            case 2:
                if (v->getOutgoingEdges().size() > 2) g().removeEdge(*v->getOutgoingEdges().front());
                break;
            default: {
                // A new root above everything.
                auto& t = g().addNewTeam();
                for (V d : g().getVertices())
                    if (d != &t && r.chance(0.3)) g().addNewEdge(t, *d, std::make_shared<Program::Program>(a->getEnvironment()));
                if (t.getOutgoingEdges().empty()) g().removeVertex(t);
            }
            }
            vh::count("op_surgery");
            break;
        }
        case 20: {
            if (!le->isCopyable()) break;
            copy.reset(le->clone());
            copy->reset(r.next(), Mode::TESTING, 0, 0);
            for (auto& d : copy->getDataSources()) {
                std::unique_ptr<Data::DataHandler> c(d.get().clone());
                (void)c->getHash();
            }
            vh::count("op_environment_copy");
            break;
        }
        case 21: {
            auto jobs = a->makeJobs(Mode::TRAINING);
            while (!jobs.empty()) {
                if (jobs.front()->getRoot() == nullptr) break;
                jobs.pop();
            }
            std::shared_ptr<Learn::EvaluationResult> old;
            for (V v : g().getRootVertices()) a->isRootEvalSkipped(*v, old);
            vh::count("op_jobs");
            break;
        }
        case 22: {
            auto roots = g().getRootVertices();
            if (roots.empty() || std::is_same<E, DuelEnv>::value) break;
            V v = r.pick(roots);
            results.push_back({v, a->evaluateOneRoot(gen, r.chance(0.5) ? Mode::TRAINING : Mode::VALIDATION, v)});
            vh::count("op_evaluate_one");
            break;
        }
        case 23: {
            graphs.push_back(a->getTPGGraph());
            auto best = a->getBestRoot();
            results.push_back({nullptr, best.second});
            vh::count("op_shares");
            break;
        }
        case 24: {
            if (!a->getBestRoot().first || !g().hasVertex(*a->getBestRoot().first)) break;
            stats(a->getBestRoot().first);
            File::TPGGraphDotExporter ex((dir.d + "sub.dot").c_str(), g());
            ex.printSubGraph(a->getBestRoot().first);
            vh::count("op_export_best");
            break;
        }
        default: a->forgetPreviousResults(); vh::count("op_forget");
        }
    }
    void live()
    {
        Quiet q;
        size_t n = 10 + r.below(25);
        try {
            for (size_t i = 0; i < n; i++) step();
            vh::count("complete_lives");
        }
        catch (const std::out_of_range& e) {
            // Known to happen (finding of G02) when few teams are left; the life ends here, all is destroyed.
            if (p.mutation.tpg.pEdgeDestinationIsAction == 0.0) throw;
            vh::count("lives_ended_by_exception");
        }
        vh::distinct(hashStr(s->describe() + describe(p) + trail));
        // The end, in any permitted order.
        if (r.chance(0.5)) {
            loggers.clear();
            kept.clear();
            a.reset();
            graphs.clear();
        }
        else {
            a.reset();
            graphs.clear();
            kept.clear();
            loggers.clear();
        }
        if (r.chance(0.5)) le.reset();
        for (auto& x : results)
            if (x.second) (void)x.second->getResult();
        copy.reset();
    }
};
template <class A, class E, class... X> static void life(Rng& r, X... x)
{
    Life<A, E> l(r);
    l.make(r.chance(0.5), x...);
    try {
        l.live();
    }
    catch (const std::exception& e) {
        vh::fail("exception in a life", std::string(e.what()) + " after " + l.trail + describe(l.p) + " " + l.s->describe());
    }
}
static void caseLife(Rng& r)
{
    switch (r.below(6)) {
    case 0:
    case 1: life<Learn::LearningAgent, PlainEnv>(r); break;
    case 2: life<Learn::ParallelLearningAgent, PlainEnv>(r); break;
    case 3: life<Learn::AdversarialLearningAgent, DuelEnv>(r, (size_t)2); break;
    case 4: life<Learn::ClassificationLearningAgent<Learn::LearningAgent>, ClassEnv>(r); break;
    default: life<Learn::ClassificationLearningAgent<Learn::ParallelLearningAgent>, ClassEnv>(r);
    }
}
// Damaged files: refused or loaded, never followed by a memory error.
static std::string damage(Rng& r, std::string t)
{
    for (size_t n = 1 + r.below(4); n > 0 && !t.empty(); n--) {
        size_t i = r.below(t.size()), l = 1 + r.below(r.chance(0.5) ? 3 : 40);
        switch (r.below(6)) {
        case 0: t.erase(i, l); break;
        case 1: t.insert(i, t.substr(r.below(t.size()), l)); break;
        case 2: t[i] = (char)(r.chance(0.7) ? '0' + r.below(10) : r.below(256)); break;
        case 3: {
            // Another number.
            size_t d = t.find_first_of("0123456789", i);
            if (d == std::string::npos) break;
            size_t e = t.find_first_not_of("0123456789", d);
            static const char* big[] = {"0", "1", "-1", "7", "999", "2147483648", "4294967296", "18446744073709551615", "99999999999999999999999"};
            t.replace(d, e == std::string::npos ? std::string::npos : e - d, big[r.below(9)]);
            break;
        }
        case 4: {
            // Lines in another order.
            size_t b = t.rfind('\n', i), e = t.find('\n', i);
            if (b == std::string::npos || e == std::string::npos) break;
            std::string line = t.substr(b, e - b);
            if (r.chance(0.5)) t.erase(b, e - b);
            size_t k = t.find('\n', r.below(t.size()));
            if (k != std::string::npos) t.insert(k, line);
            break;
        }
        default: t.resize(i);
        }
    }
    return t;
}
static std::string slurp(const std::string& f)
{
    std::ifstream i(f, std::ios::binary);
    return std::string(std::istreambuf_iterator<char>(i), {});
}
static void spit(const std::string& f, const std::string& t) { std::ofstream(f, std::ios::binary) << t; }
static void caseDamaged(Rng& r)
{
    Quiet q;
    std::streambuf* old = std::cerr.rdbuf(nullptr);
    struct Back { std::streambuf* b; ~Back() { std::cerr.rdbuf(b); std::cerr.clear(); } } back{old};
    Dir dir;
    EnvOptions eo;
    eo.maxSources = 2;
    auto e = makeEnv(r, eo);
    TPG::TPGGraph g(*e->env);
    GraphOptions go;
    go.maxTeams = 1 + r.below(3);
    go.maxLines = 3;
    makeGraph(r, *e, g, go);
    std::string f = dir.d + "g.dot";
    File::TPGGraphDotExporter(f.c_str(), g).print();
    std::string good = slurp(f);
    for (int k = 0; k < 5; k++) {
        std::string bad = damage(r, good);
        spit(f, bad);
        vh::distinct(hashStr(bad));
        TPG::TPGGraph h(*e->env);
        bool loaded = false;
        try {
            File::TPGGraphDotImporter im(f.c_str(), *e->env, h);
            loaded = true;
        }
        catch (const std::exception&) {
            vh::count("damaged_graphs_refused");
        }
        if (loaded) vh::count("damaged_graphs_loaded");
        // What was read can be used.
        for (V v : h.getVertices())
            for (auto ed : v->getOutgoingEdges()) {
                (void)ed->getProgram().getNbLines();
                (void)h.hasVertex(*ed->getDestination());
            }
        TPG::PolicyStats ps;
        ps.setEnvironment(*e->env);
        for (V v : h.getRootVertices()) {
            try {
                ps.clear();
                ps.analyzePolicy(v);
            }
            catch (const std::exception&) {
            }
        }
        if (loaded) File::TPGGraphDotExporter((dir.d + "h.dot").c_str(), h).print();
    }
    Learn::LearningParameters p;
    std::string j = dir.d + "p.json";
    File::ParametersParser::writeParametersToJson(j.c_str(), p);
    good = slurp(j);
    for (int k = 0; k < 10; k++) {
        std::string bad = damage(r, good);
        spit(j, bad);
        try {
            File::ParametersParser::loadParametersFromJson(j.c_str(), p);
            vh::count("damaged_parameters_loaded");
        }
        catch (const std::exception&) {
            vh::count("damaged_parameters_refused");
        }
    }
}
VH_MAIN({"life", 1, caseLife}, {"damaged", 1, caseDamaged})
