// Generated learning environments (plain, adversarial, classification) and learning parameters.
#ifndef GEN_LEARN_HPP
#define GEN_LEARN_HPP
#include "gen.hpp"
#include "learn/adversarialLearningAgent.h"
#include "learn/adversarialLearningEnvironment.h"
#include "learn/classificationLearningAgent.h"
#include "learn/classificationLearningEnvironment.h"
#include "learn/learningAgent.h"
#include "learn/learningEnvironment.h"
#include "learn/learningParameters.h"
#include "learn/parallelLearningAgent.h"
#include "log/laLogger.h"
#include <thread>

namespace gen {

enum class ScoreKind { Fine, Coarse, Constant };
struct LSpec // description of a learning problem; immutable once made
{
    struct Src { Source::Kind kind; El el; size_t w, h; };
    uint64_t seed = 0;
    size_t nbActions = 2;
    std::vector<Src> sources;
    uint64_t minSteps = 1, maxSteps = 5; // 0 steps possible
    ScoreKind score = ScoreKind::Fine;
    size_t agents = 2; // adversarial
    bool copyable = true;
    int jitter = 0; // per mille of actions followed by a pause
    std::vector<int> instr;
    std::vector<std::unique_ptr<Instructions::Instruction>> store;
    Instructions::Set set;
    std::string describe() const
    {
        std::ostringstream o;
        static const char* k[] = {"Array", "Array2D", "WrapArray", "WrapArray2D", "Pointer"};
        o << "actions=" << nbActions << " steps=" << minSteps << ".." << maxSteps << " score=" << (int)score << " agents=" << agents << " sources=[";
        for (auto& s : sources) o << k[s.kind] << "<" << (s.el == El::D ? "double" : "int") << ">(" << s.w << "x" << s.h << ") ";
        o << "] instr=[";
        for (int i : instr) o << pool()[i].name << " ";
        o << "]";
        return o.str();
    }
};
struct LSpecOptions
{
    double pArrays = 0.2;   // operand types that are arrays (slow: the library compiles regular expressions)
    double pJitter = 0.0;
    double pNotCopyable = 0.0;
    bool pointers = true;
    bool onlyPrintable = false;
    size_t maxActions = 6;
};
inline std::shared_ptr<LSpec> makeSpec(vh::Rng& r, const LSpecOptions& o = LSpecOptions())
{
    auto s = std::make_shared<LSpec>();
    s->seed = r.next();
    s->nbActions = 2 + r.below(o.maxActions - 1);
    bool arrays = r.chance(o.pArrays);
    s->sources.push_back({Source::Array, El::D, 2 + r.below(6), 1});
    for (size_t i = r.below(4); i > 0; i--) {
        LSpec::Src x{Source::Array, r.chance(0.3) ? El::I : El::D, 1 + r.below(6), 1};
        switch (r.below(6)) {
        case 0: x.kind = Source::Array2D; x.h = 1 + r.below(4); break;
        case 1: x.kind = Source::WrapArray; break;
        case 2: x.kind = Source::WrapArray2D; x.h = 1 + r.below(4); break;
        case 3: if (o.pointers) { x.kind = Source::Pointer; x.w = 1; } break;
        default: break;
        }
        s->sources.push_back(x);
    }
    s->minSteps = r.chance(0.1) ? 0 : 1 + r.below(3);
    s->maxSteps = s->minSteps + r.below(6);
    s->score = r.chance(0.5) ? ScoreKind::Fine : r.chance(0.8) ? ScoreKind::Coarse : ScoreKind::Constant;
    s->agents = 1 + r.below(4);
    s->copyable = !r.chance(o.pNotCopyable);
    s->jitter = r.chance(o.pJitter) ? (int)(10 + r.below(300)) : 0;
    s->instr = {0, 1}; // sub, add: infinitely many behaviours are possible
    for (size_t i = r.below(6); i > 0; i--) {
        int c = (int)r.below(pool().size());
        bool arr = false;
        for (auto& op : pool()[c].ops) arr |= op.rank > 0;
        if (pool()[c].name == "imultc") continue;
        if (arr && !arrays) c = (int)r.below(8);
        if (o.onlyPrintable && !pool()[c].printable) continue;
        s->instr.push_back(c);
    }
    for (int c : s->instr) {
        s->store.push_back(pool()[c].make());
        s->set.add(*s->store.back());
    }
    return s;
}

// What an environment was asked to do, from a reset to the next one.
struct Run
{
    const TPG::TPGVertex* root = nullptr;
    uint64_t job = 0;
    uint64_t seed = 0, gen = 0, iter = 0;
    Learn::LearningMode mode = Learn::LearningMode::TRAINING;
    std::vector<uint64_t> actions;
    bool afterTerminal = false, ended = false; // action after the end; run ended by the environment
    int scoreReads = 0;
    double score = 0;
    std::vector<double> scores; // adversarial
    std::vector<std::vector<uint64_t>> table; // classification
    const void* env = nullptr;
};
struct Recorder
{
    std::mutex m;
    std::vector<Run> runs;
};
struct Context { const TPG::TPGVertex* root = nullptr; uint64_t job = 0; }; // set by Spy agents
inline Context& context()
{
    thread_local Context c;
    return c;
}

// State and data shared by the three kinds of environment.
struct World
{
    std::shared_ptr<const LSpec> spec;
    uint64_t s = 0, t = 0, horizon = 0;
    std::vector<std::unique_ptr<Source>> src;
    std::shared_ptr<Recorder> rec;
    Run run;
    bool open = false;

    explicit World(std::shared_ptr<const LSpec> sp, std::shared_ptr<Recorder> r = nullptr) : spec(sp), rec(r)
    {
        for (auto& x : spec->sources) src.push_back(std::make_unique<Source>(x.kind, x.el, x.w, x.h));
        write(1, true);
    }
    World(const World& o) : spec(o.spec), s(o.s), t(o.t), horizon(o.horizon), rec(o.rec)
    {
        for (auto& x : o.src) {
            auto y = std::make_unique<Source>(x->kind, x->el, x->w, x->h);
            y->shadow = x->shadow;
            y->bd = x->bd;
            y->bi = x->bi;
            copyHandler(*y, *x);
            src.push_back(std::move(y));
        }
    }
    ~World() { close(); }
    // A handler with the same identity, on the copy's own data.
    static void copyHandler(Source& y, const Source& x)
    {
        auto mk = [&](auto zero, auto& store) {
            using T = decltype(zero);
            const Data::DataHandler& h = *x.handler;
            switch (x.kind) {
            case Source::Array: y.handler = std::make_unique<Data::PrimitiveTypeArray<T>>((const Data::PrimitiveTypeArray<T>&)h); break;
            case Source::Array2D: y.handler = std::make_unique<Data::PrimitiveTypeArray2D<T>>((const Data::PrimitiveTypeArray2D<T>&)h); break;
            case Source::WrapArray: {
                auto w = std::make_unique<Data::ArrayWrapper<T>>((const Data::ArrayWrapper<T>&)h);
                w->setPointer(&store);
                y.handler = std::move(w);
                break;
            }
            case Source::WrapArray2D: {
                auto w = std::make_unique<Data::Array2DWrapper<T>>((const Data::Array2DWrapper<T>&)h);
                w->setPointer(&store);
                y.handler = std::move(w);
                break;
            }
            case Source::Pointer: {
                auto w = std::make_unique<Data::PointerWrapper<T>>((const Data::PointerWrapper<T>&)h);
                w->setPointer(&store[0]);
                y.handler = std::move(w);
                break;
            }
            }
        };
        if (x.el == El::D) mk(0.0, y.bd);
        else mk(0, y.bi);
    }
    void write(uint64_t h, bool all)
    {
        for (size_t k = 0; k < src.size(); k++) {
            size_t n = src[k]->w * src[k]->h;
            for (size_t i = 0; i < n; i++) {
                uint64_t x = vh::mix(vh::mix(h, k), i);
                if (!all && x % 3 == 0 && n > 1) continue;
                double v = src[k]->el == El::I ? (double)(int)(x % 41) - 20 : ((double)(x >> 11) / 9007199254740992.0 + 0.01) * ((x & 1) ? 3 : -2);
                src[k]->set(i, v);
            }
        }
    }
    void reset(size_t seed, Learn::LearningMode mode, uint64_t iter, uint64_t gen)
    {
        close();
        s = vh::mix(vh::mix(spec->seed, seed), (uint64_t)mode);
        t = 0;
        horizon = spec->minSteps + vh::mix(s, 5) % (spec->maxSteps - spec->minSteps + 1);
        write(s, true);
        if (rec) {
            run = Run();
            run.root = context().root;
            run.job = context().job;
            run.seed = seed;
            run.iter = iter;
            run.gen = gen;
            run.mode = mode;
            run.env = this;
            open = true;
        }
    }
    void act(uint64_t a)
    {
        if (rec) {
            run.afterTerminal |= t >= horizon;
            run.actions.push_back(a);
        }
        s = vh::mix(s, a + 1);
        t++;
        write(s, false);
        if (spec->jitter) {
            thread_local uint64_t local = std::hash<std::thread::id>()(std::this_thread::get_id());
            local = vh::mix(local, 3);
            if ((int)(local % 1000) < spec->jitter) {
                if (local & 4096) std::this_thread::yield();
                else std::this_thread::sleep_for(std::chrono::microseconds(local >> 50 & 127));
            }
        }
    }
    bool terminal() const { return t >= horizon; }
    double score(uint64_t seat = 0) const
    {
        uint64_t x = vh::mix(s, 1000 + seat);
        switch (spec->score) {
        case ScoreKind::Fine: return (double)(x >> 11) / 9007199254740992.0 * 200 - 100;
        case ScoreKind::Coarse: return (double)(x % 4);
        default: return 1.5;
        }
    }
    void close()
    {
        if (rec && open) {
            run.ended = t >= horizon;
            std::lock_guard<std::mutex> l(rec->m);
            rec->runs.push_back(run);
        }
        open = false;
    }
    std::vector<std::reference_wrapper<const Data::DataHandler>> handlers() const
    {
        std::vector<std::reference_wrapper<const Data::DataHandler>> v;
        for (auto& x : src) v.push_back(*x->handler);
        return v;
    }
};

struct PlainEnv : Learn::LearningEnvironment
{
    mutable World w;
    explicit PlainEnv(std::shared_ptr<const LSpec> s, std::shared_ptr<Recorder> r = nullptr) : LearningEnvironment(s->nbActions), w(s, r) {}
    PlainEnv(const PlainEnv& o) = default;
    LearningEnvironment* clone() const override { return new PlainEnv(*this); }
    bool isCopyable() const override { return w.spec->copyable; }
    void doAction(uint64_t a) override { LearningEnvironment::doAction(a); w.act(a); }
    void reset(size_t seed, Learn::LearningMode m, uint16_t it, uint64_t g) override { w.reset(seed, m, it, g); }
    std::vector<std::reference_wrapper<const Data::DataHandler>> getDataSources() override { return w.handlers(); }
    double getScore() const override
    {
        double x = w.score();
        w.run.scoreReads++;
        w.run.score = x;
        return x;
    }
    bool isTerminal() const override { return w.terminal(); }
};
struct DuelEnv : Learn::AdversarialLearningEnvironment
{
    mutable World w;
    explicit DuelEnv(std::shared_ptr<const LSpec> s, std::shared_ptr<Recorder> r = nullptr)
        : AdversarialLearningEnvironment(s->nbActions), w(s, r) {}
    DuelEnv(const DuelEnv& o) = default;
    LearningEnvironment* clone() const override { return new DuelEnv(*this); }
    bool isCopyable() const override { return w.spec->copyable; }
    void doAction(uint64_t a) override { LearningEnvironment::doAction(a); w.act(a); }
    void reset(size_t seed, Learn::LearningMode m, uint16_t it, uint64_t g) override { w.reset(seed, m, it, g); }
    std::vector<std::reference_wrapper<const Data::DataHandler>> getDataSources() override { return w.handlers(); }
    std::shared_ptr<Learn::AdversarialEvaluationResult> getScores() const override
    {
        std::vector<double> v;
        for (size_t i = 0; i < w.spec->agents; i++) v.push_back(w.score(i));
        w.run.scoreReads++;
        w.run.scores = v;
        typedef Learn::AdversarialEvaluationResult R;
        switch (v.size()) {
        case 1: return std::make_shared<R>(std::initializer_list<double>{v[0]});
        case 2: return std::make_shared<R>(std::initializer_list<double>{v[0], v[1]});
        case 3: return std::make_shared<R>(std::initializer_list<double>{v[0], v[1], v[2]});
        default: return std::make_shared<R>(std::initializer_list<double>{v[0], v[1], v[2], v[3]});
        }
    }
    bool isTerminal() const override { return w.terminal(); }
};
struct ClassEnv : Learn::ClassificationLearningEnvironment
{
    mutable World w;
    explicit ClassEnv(std::shared_ptr<const LSpec> s, std::shared_ptr<Recorder> r = nullptr)
        : ClassificationLearningEnvironment(s->nbActions), w(s, r) { next(); }
    ClassEnv(const ClassEnv& o) = default;
    LearningEnvironment* clone() const override { return new ClassEnv(*this); }
    bool isCopyable() const override { return w.spec->copyable; }
    void next()
    {
        // Some classes are rare, the data of a class have something in common.
        uint64_t x = vh::mix(w.s, 77);
        currentClass = (x & 3) ? x / 4 % nbActions : 0;
        w.src[0]->set(0, (double)currentClass + 0.3 * ((double)(x >> 11) / 9007199254740992.0));
    }
    void doAction(uint64_t a) override
    {
        ClassificationLearningEnvironment::doAction(a);
        w.run.table = classificationTable;
        w.act(a);
        next();
    }
    void reset(size_t seed, Learn::LearningMode m, uint16_t it, uint64_t g) override
    {
        ClassificationLearningEnvironment::reset(seed, m, it, g);
        w.reset(seed, m, it, g);
        w.run.table = classificationTable;
        next();
    }
    std::vector<std::reference_wrapper<const Data::DataHandler>> getDataSources() override { return w.handlers(); }
    bool isTerminal() const override { return w.terminal(); }
};

// Agents that tell the environments which root and job they run.
template <class Base> struct Spy : Base
{
    using Base::Base;
    mutable std::mutex jobsMutex;
    struct Done { uint64_t idx; const TPG::TPGVertex* root; std::shared_ptr<Learn::EvaluationResult> result; Learn::LearningMode mode; uint64_t gen; };
    mutable std::vector<Done> done;
    std::shared_ptr<Learn::EvaluationResult> evaluateJob(TPG::TPGExecutionEngine& tee, const Learn::Job& job, uint64_t gen,
                                                         Learn::LearningMode mode, Learn::LearningEnvironment& le) const override
    {
        Context saved = context();
        context() = {job.getRoot(), job.getIdx()};
        auto r = Base::evaluateJob(tee, job, gen, mode, le);
        context() = saved;
        std::lock_guard<std::mutex> l(jobsMutex);
        done.push_back({job.getIdx(), job.getRoot(), r, mode, gen});
        return r;
    }
};

inline Learn::LearningParameters makeParams(vh::Rng& r, const LSpec& s, size_t maxRoots = 15)
{
    Learn::LearningParameters p;
    auto& t = p.mutation.tpg;
    t.nbActions = s.nbActions;
    t.nbRoots = 2 + r.below(maxRoots - 1);
    if (r.chance(0.05)) t.nbRoots += 10 + r.below(50);
    t.maxInitOutgoingEdges = 2 + r.below(s.nbActions - 1);
    t.maxOutgoingEdges = t.maxInitOutgoingEdges + r.below(4);
    t.pEdgeDeletion = r.unit();
    t.pEdgeAddition = r.unit();
    t.pProgramMutation = 0.1 + 0.9 * r.unit();
    t.forceProgramBehaviorChangeOnMutation = r.chance(0.4);
    t.pEdgeDestinationChange = r.unit();
    auto& g = p.mutation.prog;
    g.maxProgramSize = 3 + r.below(12);
    g.pDelete = r.unit();
    g.pAdd = 0.1 + 0.9 * r.unit();
    g.pMutate = 0.2 + 0.8 * r.unit();
    g.pSwap = r.unit();
    g.pConstantMutation = r.unit();
    g.minConstValue = -(int)r.below(50);
    g.maxConstValue = 1 + (int)r.below(50);
    p.archiveSize = 1 + r.below(r.chance(0.3) ? 5 : 60);
    p.archivingProbability = r.chance(0.2) ? 1.0 : r.unit();
    p.nbIterationsPerPolicyEvaluation = 1 + r.below(4);
    p.maxNbActionsPerEval = r.chance(0.2) ? 1 : 1 + r.below(10);
    p.ratioDeletedRoots = r.chance(0.1) ? 0.0 : 0.9 * r.unit();
    p.nbGenerations = 1 + r.below(5);
    p.maxNbEvaluationPerPolicy = r.chance(0.3) ? 1000 : 1 + r.below(12);
    p.nbIterationsPerJob = 1 + r.below(3);
    p.nbRegisters = 2 + r.below(6);
    p.nbProgramConstant = r.chance(0.5) ? 0 : 1 + r.below(4);
    p.nbThreads = 1 + r.below(4);
    p.doValidation = r.chance(0.3);
    // Re-targeting edges to actions fails with fewer teams than actions (known finding of G02): keep away from it.
    double left = (double)t.nbRoots - std::floor(p.ratioDeletedRoots * (double)t.nbRoots);
    t.pEdgeDestinationIsAction = left >= 3.0 * (double)s.nbActions ? r.unit() : 0.0;
    return p;
}
inline std::string describe(const Learn::LearningParameters& p)
{
    std::ostringstream o;
    o << "roots=" << p.mutation.tpg.nbRoots << " ratio=" << p.ratioDeletedRoots << " iterations=" << p.nbIterationsPerPolicyEvaluation
      << " maxActions=" << p.maxNbActionsPerEval << " maxEval=" << p.maxNbEvaluationPerPolicy << " perJob=" << p.nbIterationsPerJob
      << " archive=" << p.archiveSize << "@" << p.archivingProbability << " threads=" << p.nbThreads << " validation=" << p.doValidation
      << " regs=" << p.nbRegisters << " const=" << p.nbProgramConstant << " pAction=" << p.mutation.tpg.pEdgeDestinationIsAction;
    return o.str();
}
// Independent simulation of evaluations: an environment of its own, and the reference interpreter.
template <class E> struct Sim
{
    E le;
    EnvBundle e;
    Sim(const std::shared_ptr<LSpec>& s, const Learn::LearningParameters& p) : le(s)
    {
        e.nbRegs = p.nbRegisters;
        e.nbConst = p.nbProgramConstant;
        for (auto& x : s->sources) e.sources.push_back(std::make_unique<Source>(x.kind, x.el, x.w, x.h));
        for (int c : s->instr) {
            bool ok = true;
            for (auto& op : pool()[c].ops) {
                bool any = false;
                for (size_t k = 0; k < e.nbSources(); k++) any |= e.space(op, k) > 0;
                ok &= any;
            }
            if (ok) e.usable.push_back(c);
        }
    }
    uint64_t action(const TPG::TPGVertex& root)
    {
        for (size_t i = 0; i < e.sources.size(); i++) e.sources[i]->shadow = le.w.src[i]->shadow;
        auto path = refPath(e, root);
        return ((const TPG::TPGAction*)path.back())->getActionID();
    }
    // Plays one run, agents in turn; returns the actions.
    std::vector<uint64_t> play(const std::vector<const TPG::TPGVertex*>& roots, size_t seed, Learn::LearningMode m, uint64_t maxSteps)
    {
        le.reset(seed, m, 0, 0);
        std::vector<uint64_t> acts;
        while (!le.isTerminal() && acts.size() < maxSteps) {
            uint64_t a = action(*roots[acts.size() % roots.size()]);
            le.doAction(a);
            acts.push_back(a);
        }
        return acts;
    }
};
// A logger made of functions.
struct FnLogger : Log::LALogger
{
    typedef std::multimap<std::shared_ptr<Learn::EvaluationResult>, const TPG::TPGVertex*> Results;
    std::function<void(uint64_t)> onNew;
    std::function<void()> onPopulate, onDecimate, onEnd;
    std::function<void(Results&)> onEvaluate, onValidate;
    explicit FnLogger(Learn::LearningAgent& la) : LALogger(la) {}
    void logHeader() override {}
    void logNewGeneration(uint64_t& g) override { if (onNew) onNew(g); }
    void logAfterPopulateTPG() override { if (onPopulate) onPopulate(); }
    void logAfterEvaluate(Results& r) override { if (onEvaluate) onEvaluate(r); }
    void logAfterDecimate() override { if (onDecimate) onDecimate(); }
    void logAfterValidate(Results& r) override { if (onValidate) onValidate(r); }
    void logEndOfTraining() override { if (onEnd) onEnd(); }
};
inline uint64_t archivePrint(const Archive& ar)
{
    uint64_t h = ar.getNbRecordings();
    for (size_t i = 0; i < ar.getNbRecordings(); i++) {
        auto& rec = ar.at(i);
        h = vh::mix(vh::mix(vh::mix(h, (uint64_t)(uintptr_t)rec.prog), rec.dataHash), vh::bits(rec.result));
    }
    for (auto& d : ar.getDataHandlers()) {
        h = vh::mix(h, d.first);
        for (auto& x : d.second) h = vh::mix(vh::mix(h, (uint64_t)(uintptr_t)&x.get()), x.get().getHash());
    }
    return h;
}
inline uint64_t nextDraw(Learn::LearningAgent& a)
{
    Mutator::RNG copy = a.getRNG();
    return copy.getUnsignedInt64(0, UINT64_MAX);
}
inline size_t indexOf(const TPG::TPGGraph& g, const TPG::TPGVertex* v)
{
    auto all = g.getVertices();
    return (size_t)(std::find(all.begin(), all.end(), v) - all.begin());
}
// "Instruction ignored" notices of environments.
struct Quiet
{
    std::streambuf* old;
    Quiet() : old(std::cout.rdbuf(nullptr)) {}
    ~Quiet() { std::cout.rdbuf(old); std::cout.clear(); }
};
} // namespace gen
#endif
