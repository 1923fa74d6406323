// L02: parallel training is free of data races.
// Oracle: ThreadSanitizer (vector-clock happens-before race detector) on the real training code.
#include "gen_learn.hpp"
#include "tpg/instrumented/tpgInstrumentedFactory.h"
using namespace gen;
using vh::Rng;

template <class Agent> static void go(Rng& r, Agent& a, const Learn::LearningParameters& p)
{
    a.init(r.next());
    uint64_t gens = 1 + r.below(3);
    for (uint64_t g = 0; g < gens; g++) {
        a.trainOneGeneration(g);
        vh::count("generations");
        vh::count("evaluations_parallel", a.getTPGGraph()->getNbRootVertices());
        vh::count("recordings", a.getArchive().getNbRecordings());
    }
    if (r.chance(0.3)) {
        auto res = a.evaluateAllRoots(gens, Learn::LearningMode::TESTING);
        vh::count("testings");
    }
    vh::count("threads_" + std::to_string(p.nbThreads));
    vh::distinct(hashStr(graphText(*a.getTPGGraph())));
}
static std::pair<std::shared_ptr<LSpec>, Learn::LearningParameters> setup(Rng& r)
{
    LSpecOptions o;
    o.pArrays = 0.4;
    o.pJitter = 0.5;
    auto s = makeSpec(r, o);
    auto p = makeParams(r, *s, 9);
    p.nbThreads = 2 + r.below(5);
    return {s, p};
}
static void casePlain(Rng& r)
{
    Quiet q;
    auto [s, p] = setup(r);
    PlainEnv le(s);
    TPG::TPGInstrumentedFactory fi;
    bool inst = r.chance(0.4);
    if (inst) {
        Learn::ParallelLearningAgent a(le, s->set, p, fi);
        go(r, a, p);
        vh::count("agents_instrumented");
    }
    else {
        Learn::ParallelLearningAgent a(le, s->set, p);
        go(r, a, p);
        vh::count("agents_plain");
    }
}
static void caseDuel(Rng& r)
{
    Quiet q;
    auto [s, p] = setup(r);
    DuelEnv le(s);
    p.nbIterationsPerPolicyEvaluation = 1 + r.below(2);
    Learn::AdversarialLearningAgent a(le, s->set, p, s->agents);
    go(r, a, p);
    vh::count("agents_adversarial");
}
static void caseClass(Rng& r)
{
    Quiet q;
    auto [s, p] = setup(r);
    ClassEnv le(s);
    Learn::ClassificationLearningAgent<Learn::ParallelLearningAgent> a(le, s->set, p);
    go(r, a, p);
    vh::count("agents_classification");
}
VH_MAIN({"plain", 2, casePlain}, {"duel", 1, caseDuel}, {"class", 1, caseClass})
