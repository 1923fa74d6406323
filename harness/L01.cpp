// L01: training is reproducible and independent of threads, scheduling, addresses and previous use of the agent.
// Oracle: traces of the same training, run in separate processes under different conditions, compared line by line.
#include "gen_learn.hpp"
#include <deque>
#include <poll.h>
#include <sys/prctl.h>
#include <sys/wait.h>
using namespace gen;
using vh::Rng;

// ---------------------------------------------------------------- allocation policies
namespace al {
enum Mode { Malloc, Up, Down, Lifo, Fifo, NB };
static const char* names[] = {"malloc", "ascending", "descending", "lifo", "fifo"};
static Mode mode = Malloc;
static char *base = nullptr, *lo = nullptr, *hi = nullptr, *end = nullptr;
static constexpr size_t CAP = 768u << 20, NC = 65;
struct Node { Node* next; };
static Node *head[NC], *tail[NC];
static std::atomic_flag lock = ATOMIC_FLAG_INIT;
struct Guard
{
    Guard() { while (lock.test_and_set(std::memory_order_acquire)) std::this_thread::yield(); }
    ~Guard() { lock.clear(std::memory_order_release); }
};
static void start(Mode m)
{
    if (m != Malloc) {
        void* p = mmap(nullptr, CAP, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (p == MAP_FAILED) return;
        base = lo = (char*)p;
        end = hi = base + CAP;
    }
    mode = m;
}
static void* get(size_t n)
{
    if (mode != Malloc) {
        Guard g;
        size_t c = (n + 15) / 16;
        if (c == 0) c = 1;
        if ((mode == Lifo || mode == Fifo) && c < NC && head[c]) {
            Node* x = head[c];
            head[c] = x->next;
            return x;
        }
        size_t need = c * 16 + 16;
        if ((size_t)(hi - lo) > need) {
            char* b;
            if (mode == Down) b = hi -= need;
            else { b = lo; lo += need; }
            *(size_t*)b = c;
            return b + 16;
        }
    }
    void* p = malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    return p;
}
static void put(void* p)
{
    if (!p) return;
    if ((char*)p < base || (char*)p >= end || !base) { free(p); return; }
    size_t c = *(size_t*)((char*)p - 16);
    if ((mode != Lifo && mode != Fifo) || c >= NC) return;
    Guard g;
    Node* x = (Node*)p;
    if (mode == Lifo || !head[c]) {
        x->next = head[c];
        if (!head[c]) tail[c] = x;
        head[c] = x;
    }
    else {
        x->next = nullptr;
        tail[c]->next = x;
        tail[c] = x;
    }
}
} // namespace al
void* operator new(size_t n) { return al::get(n); }
void* operator new[](size_t n) { return al::get(n); }
void operator delete(void* p) noexcept { al::put(p); }
void operator delete[](void* p) noexcept { al::put(p); }
void operator delete(void* p, size_t) noexcept { al::put(p); }
void operator delete[](void* p, size_t) noexcept { al::put(p); }

// ---------------------------------------------------------------- recording of one training
struct Variant
{
    int threads = 0; // 0: sequential agent
    al::Mode alloc = al::Malloc;
    int before = 0; // 1: initialised and trained with another seed before; 2: and pruned; 3: another agent lived before
    std::string text() const
    {
        static const char* b[] = {"fresh", "re-initialised", "re-initialised after pruning", "second agent"};
        return (threads ? std::to_string(threads) + " threads" : std::string("sequential")) + ", " + al::names[alloc] + " addresses, " + b[before];
    }
    bool exactAddresses() const { return alloc == al::Up || alloc == al::Down; }
};
struct Trace
{
    std::ostringstream o;
    std::map<std::string, uint64_t> counts;
};
struct Capture : Log::LALogger
{
    Learn::LearningAgent& a;
    Trace& t;
    Capture(Learn::LearningAgent& la, Trace& t) : LALogger(la), a(la), t(t) {}
    void results(const char* tag, const std::multimap<std::shared_ptr<Learn::EvaluationResult>, const TPG::TPGVertex*>& res)
    {
        auto v = a.getTPGGraph()->getVertices();
        std::map<const TPG::TPGVertex*, size_t> idx;
        for (size_t i = 0; i < v.size(); i++) idx[v[i]] = i;
        t.o << tag;
        for (auto& x : res) {
            t.o << " " << (idx.count(x.second) ? (long)idx[x.second] : -1L) << ":" << std::hex << vh::bits(x.first->getResult()) << std::dec << ":"
                << x.first->getNbEvaluation();
            if (auto c = dynamic_cast<Learn::ClassificationEvaluationResult*>(x.first.get()))
                for (auto d : c->getScorePerClass()) t.o << "," << std::hex << vh::bits(d) << std::dec;
        }
        t.o << "\n";
        t.counts["evaluations_recorded"] += res.size();
    }
    void logHeader() override {}
    void logNewGeneration(uint64_t& g) override { t.o << "generation " << g << "\n"; }
    void graph(const char* tag)
    {
        // On one line, so that a difference shows where it first appears.
        std::string s = graphText(*a.getTPGGraph());
        for (auto& c : s)
            if (c == '\n') c = '|';
        t.o << tag << " " << s << "\n";
    }
    void logAfterPopulateTPG() override { graph("populated"); }
    void logAfterEvaluate(std::multimap<std::shared_ptr<Learn::EvaluationResult>, const TPG::TPGVertex*>& r) override { results("scores", r); }
    void logAfterDecimate() override { graph("decimated"); }
    void logAfterValidate(std::multimap<std::shared_ptr<Learn::EvaluationResult>, const TPG::TPGVertex*>& r) override { results("validation", r); }
    void logEndOfTraining() override {}
    void rest(bool exact)
    {
        const Archive& ar = a.getArchive();
        t.o << "archive";
        std::map<size_t, size_t> data;
        std::map<const void*, size_t> progs;
        std::ostringstream p;
        for (size_t i = 0; i < ar.getNbRecordings(); i++) {
            auto& rec = ar.at(i);
            size_t k = data.emplace(rec.dataHash, data.size()).first->second;
            p << " " << progs.emplace(rec.prog, progs.size()).first->second;
            t.o << " " << k << ":" << std::hex << vh::bits(rec.result) << std::dec;
        }
        t.o << "\ndata " << ar.getNbDataHandlers();
        std::map<size_t, size_t> byIndex;
        for (auto& d : data) byIndex[d.second] = d.first;
        for (auto& d : byIndex) {
            uint64_t h = 0;
            auto it = ar.getDataHandlers().find(d.second);
            if (it == ar.getDataHandlers().end()) { t.o << " missing"; continue; }
            for (auto& dh : it->second)
                for (auto ty : {&typeid(double), &typeid(int)})
                    for (size_t i = 0; i < dh.get().getAddressSpace(*ty); i++) {
                        auto x = dh.get().getDataAt(*ty, i);
                        h = vh::mix(h, *ty == typeid(int) ? (uint64_t)*x.getSharedPointer<const int>() : vh::bits(*x.getSharedPointer<const double>()));
                    }
            t.o << " " << std::hex << h << std::dec;
        }
        t.o << "\n";
        if (exact) t.o << "programs" << p.str() << "\n"; // an address identifies a program
        Mutator::RNG copy = a.getRNG();
        t.o << "rng " << copy.getUnsignedInt64(0, UINT64_MAX) << "\n";
        auto v = a.getTPGGraph()->getVertices();
        auto best = a.getBestRoot();
        long b = -1;
        for (size_t i = 0; i < v.size(); i++)
            if (v[i] == best.first) b = (long)i;
        t.o << "best " << b << ":" << std::hex << (best.second ? vh::bits(best.second->getResult()) : 0) << " " << vh::bits(a.getBestScoreLastGen()) << std::dec << "\n";
        t.counts["recordings_compared"] += ar.getNbRecordings();
        t.counts["generations"]++;
    }
};
static uint64_t trainingSeed, otherSeed, nbGens;
template <class A, class E, class... X>
static void record(const Variant& v, const std::shared_ptr<LSpec>& s, const Learn::LearningParameters& p, Trace& t, X... extra)
{
    if (v.before == 3) {
        E le(s);
        A a(le, s->set, p, extra...);
        a.init(otherSeed);
        a.trainOneGeneration(0);
    }
    E le(s);
    A a(le, s->set, p, extra...);
    if (v.before == 1 || v.before == 2) {
        a.init(otherSeed);
        for (uint64_t g = 0; g < 2; g++) a.trainOneGeneration(g);
        if (v.before == 2) a.keepBestPolicy();
    }
    a.init(trainingSeed);
    Capture c(a, t);
    c.graph("initialised");
    for (uint64_t g = 0; g < nbGens; g++) {
        a.trainOneGeneration(g);
        c.rest(v.exactAddresses());
    }
    c.results("testing", a.evaluateAllRoots(nbGens, Learn::LearningMode::TESTING));
    c.results("again", a.evaluateAllRoots(nbGens, Learn::LearningMode::TRAINING));
    c.rest(v.exactAddresses());
}

enum Kind { Plain, Duel, Class };
static void runVariant(Kind k, const Variant& v, const std::shared_ptr<LSpec>& s, Learn::LearningParameters p, Trace& t)
{
    p.nbThreads = std::max(1, v.threads);
    if (k == Plain && v.threads == 0) record<Learn::LearningAgent, PlainEnv>(v, s, p, t);
    else if (k == Plain) record<Learn::ParallelLearningAgent, PlainEnv>(v, s, p, t);
    else if (k == Duel) record<Learn::AdversarialLearningAgent, DuelEnv>(v, s, p, t, s->agents);
    else if (v.threads == 0) record<Learn::ClassificationLearningAgent<Learn::LearningAgent>, ClassEnv>(v, s, p, t);
    else record<Learn::ClassificationLearningAgent<Learn::ParallelLearningAgent>, ClassEnv>(v, s, p, t);
}
// Runs a variant in a process of its own, returns its trace.
static std::string fork_(Kind k, const Variant& v, const std::shared_ptr<LSpec>& s, const Learn::LearningParameters& p)
{
    int fd[2];
    if (pipe(fd) != 0) { perror("pipe"); exit(3); }
    fflush(nullptr);
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); exit(3); }
    if (pid == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        close(fd[0]);
        std::string out;
        {
            al::start(v.alloc);
            Trace t;
            std::string end = "end\n";
            try {
                Quiet q;
                runVariant(k, v, s, p, t);
            }
            catch (const std::exception& e) {
                end = std::string("exception ") + e.what() + "\n";
            }
            out = t.o.str() + end;
            for (auto& c : t.counts) out += "#" + c.first + " " + std::to_string(c.second) + "\n";
            if (al::mode != al::Malloc) out += "#bytes_placed " + std::to_string((al::lo - al::base) + (al::end - al::hi)) + "\n";
        }
        for (size_t i = 0; i < out.size();) {
            ssize_t n = write(fd[1], out.data() + i, out.size() - i);
            if (n <= 0) _exit(9);
            i += (size_t)n;
        }
        _exit(0);
    }
    close(fd[1]);
    std::string got;
    std::vector<char> buf(1 << 16);
    ssize_t n;
    while ((n = read(fd[0], buf.data(), buf.size())) > 0) got.append(buf.data(), (size_t)n);
    close(fd[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    if (WIFSIGNALED(st)) got += "died of signal " + std::to_string(WTERMSIG(st)) + "\n";
    else if (WEXITSTATUS(st) != 0) got += "died with status " + std::to_string(WEXITSTATUS(st)) + "\n";
    return got;
}
static std::vector<std::string> lines(const std::string& s, bool programs)
{
    std::vector<std::string> v;
    std::istringstream i(s);
    std::string l;
    while (std::getline(i, l)) {
        if (l[0] == '#') {
            std::istringstream c(l.substr(1));
            std::string n;
            uint64_t x;
            c >> n >> x;
            vh::count(n, x);
            continue;
        }
        if (!programs && l.rfind("programs", 0) == 0) continue;
        v.push_back(l);
    }
    return v;
}
static std::string excerpt(const std::string& s, size_t at)
{
    size_t a = at > 60 ? at - 60 : 0;
    return s.substr(a, 200);
}
static void kase(Rng& r, Kind k)
{
    LSpecOptions o;
    o.pArrays = 0.15;
    o.pJitter = 0.4;
    o.pNotCopyable = k == Duel ? 0.0 : 0.1;
    auto s = makeSpec(r, o);
    auto p = makeParams(r, *s, 12);
    if (k == Duel) {
        p.nbIterationsPerPolicyEvaluation = 1 + r.below(3);
        if (p.ratioDeletedRoots < 0.1) p.ratioDeletedRoots = 0.3;
    }
    // Programs are numerous, short-lived and similar.
    if (r.chance(0.5)) {
        p.ratioDeletedRoots = 0.5 + 0.4 * r.unit();
        p.archivingProbability = 0.3 + 0.7 * r.unit();
        p.archiveSize = 20 + r.below(100);
        p.mutation.tpg.pEdgeDestinationIsAction = 0;
        auto sp = std::const_pointer_cast<LSpec>(std::shared_ptr<const LSpec>(s));
        sp->maxSteps = sp->minSteps + r.below(2);
    }
    trainingSeed = r.next();
    otherSeed = r.next();
    nbGens = 2 + r.below(4);
    std::vector<Variant> vs;
    Variant base;
    base.alloc = al::Up;
    if (k == Duel) base.threads = 1;
    vs.push_back(base);
    static const int th[] = {1, 2, 3, 4, 8};
    for (int i = 0; i < 4; i++) {
        Variant v;
        v.threads = k == Duel || i == 0 || r.chance(0.7) ? th[r.below(5)] : 0;
        v.alloc = (al::Mode)r.below(al::NB);
        if (i == 1) v.alloc = al::Down;
        if (i == 2) v.alloc = r.chance(0.5) ? al::Lifo : al::Fifo;
        v.before = i == 3 ? 1 + (int)r.below(3) : 0;
        vs.push_back(v);
    }
    std::vector<std::string> traces;
    std::string ctx = std::string(k == Plain ? "plain" : k == Duel ? "adversarial" : "classification") + " " + describe(p) + " " + s->describe();
    vh::sample(ctx);
    for (auto& v : vs) {
        traces.push_back(fork_(k, v, s, p));
        if (!s->copyable) vh::count("not_copyable");
        vh::count("variants_" + std::to_string(v.threads) + "_threads");
        vh::count(std::string("variants_") + al::names[v.alloc]);
        static const char* b[] = {"fresh", "reinitialised", "reinitialised_pruned", "second_agent"};
        vh::count(std::string("variants_") + b[v.before]);
        if (&v == &vs[0]) {
            vh::distinct(hashStr(traces[0]));
            continue;
        }
        bool pr = v.exactAddresses();
        auto a = lines(traces[0], pr), b2 = lines(traces.back(), pr);
        for (size_t i = 0; i < std::max(a.size(), b2.size()); i++) {
            std::string x = i < a.size() ? a[i] : "(none)", y = i < b2.size() ? b2[i] : "(none)";
            if (x == y) { vh::count("observations_compared"); continue; }
            size_t d = 0;
            while (d < x.size() && d < y.size() && x[d] == y[d]) d++;
            std::string why = v.before ? "earlier use of the agent or process" : v.alloc >= al::Lifo && v.threads == base.threads ? "reuse of addresses" : v.threads != base.threads ? "threads or addresses" : "addresses";
            std::string gen;
            for (size_t j = 0; j < i; j++)
                if (a[j].rfind("generation", 0) == 0) gen = a[j];
            vh::violation("outcome depends on " + why + ": " + (x + " ").substr(0, x.find(' ')),
                          "[" + vs[0].text() + "] vs [" + v.text() + "] in " + gen + ": ..." + excerpt(x, d) + "... vs ..." + excerpt(y, d) + "... " + ctx);
            break;
        }
    }
    if (traces[0].find("\nend\n") == std::string::npos) vh::count("baselines_failed");
}
static void casePlain(Rng& r) { kase(r, Plain); }
static void caseDuel(Rng& r) { kase(r, Duel); }
static void caseClass(Rng& r) { kase(r, Class); }
VH_MAIN({"plain", 2, casePlain}, {"duel", 1, caseDuel}, {"class", 1, caseClass})
