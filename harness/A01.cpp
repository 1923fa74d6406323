// A01: the archive is a bounded, exact and self-contained record of recent bids.
// Oracle: a model deque with snapshots of the data, an independent generator, a direct evaluation of queries.
#include "gen.hpp"
#include "archive.h"
#include "tpg/tpgEdge.h"
#include "tpg/tpgExecutionEngine.h"
#include "tpg/tpgTeam.h"
#include <random>
using namespace gen;
using vh::Rng;

typedef std::vector<std::vector<double>> Snap;
static std::vector<double> read(const Data::DataHandler& h, El el, size_t n)
{
    std::vector<double> v;
    for (size_t i = 0; i < n; i++) {
        if (el == El::D) v.push_back(*h.getDataAt(typeid(double), i).getSharedPointer<const double>());
        else if (el == El::I) v.push_back(*h.getDataAt(typeid(int), i).getSharedPointer<const int>());
        else v.push_back(*h.getDataAt(typeid(float), i).getSharedPointer<const float>());
    }
    return v;
}
static Snap snap(const EnvBundle& e)
{
    Snap s;
    for (auto& x : e.sources) s.push_back(x->shadow);
    return s;
}
static bool same(const std::vector<double>& a, const std::vector<double>& b)
{
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); i++)
        if (!vh::same(a[i], b[i])) return false;
    return true;
}
struct Rec { const Program::Program* p; size_t hash; double result; };
struct Model
{
    size_t cap;
    double prob;
    std::mt19937_64 rng;
    std::deque<Rec> recs;
    std::map<size_t, Snap> data;
    std::string log;

    bool accept(bool forced)
    {
        if (forced || prob == 1.0) return true;
        double x = (double)rng() / 18446744073709551616.0;
        if (x >= 1.0) x = std::nextafter(1.0, 0.0);
        return x <= prob;
    }
    void add(const Program::Program* p, size_t hash, const Snap& s, double result)
    {
        data.emplace(hash, s);
        recs.push_back({p, hash, result});
        while (recs.size() > cap) {
            size_t h = recs.front().hash;
            recs.pop_front();
            bool used = false;
            for (auto& x : recs) used |= x.hash == h;
            if (!used) { data.erase(h); vh::count("data_released"); }
            vh::count("evictions");
        }
    }
    bool unique(const std::map<size_t, double>& m, double tau) const
    {
        std::map<const Program::Program*, std::pair<int, int>> agree; // archived program -> (equal, different)
        for (auto& x : recs) {
            auto it = m.find(x.hash);
            if (it == m.end()) continue;
            if (std::fabs(it->second - x.result) <= tau) agree[x.p].first++;
            else agree[x.p].second++;
        }
        for (auto& a : agree)
            if (a.second.first && !a.second.second) return false;
        return true;
    }
    // everything observable agrees
    void check(const Archive& a, const EnvBundle& e, bool deep) const
    {
        VH_CHECK(a.getNbRecordings() == recs.size(), "number", a.getNbRecordings() << " recordings, " << recs.size()
                 << " expected, capacity " << cap << "; " << log);
        for (size_t i = 0; i < recs.size(); i++) {
            const ArchiveRecording& x = a.at(i);
            VH_CHECK(x.prog == recs[i].p && x.dataHash == recs[i].hash && vh::same(x.result, recs[i].result), "recording",
                     "recording " << i << " of " << recs.size() << " is not the expected one; " << log);
        }
        VH_THROWS(a.at(recs.size()), std::exception, "beyond", "a recording beyond the last was returned");
        VH_CHECK(a.getNbDataHandlers() == data.size(), "number of data", a.getNbDataHandlers() << " data sets, " << data.size()
                 << " needed; " << log);
        const auto& d = a.getDataHandlers();
        VH_CHECK(d.size() == data.size(), "number of data", "list of " << d.size() << " data sets");
        for (auto& kv : data) {
            VH_CHECK(a.hasDataHandlers(kv.first), "data missing", "data of a recording are not in the archive; " << log);
            auto it = d.find(kv.first);
            VH_CHECK(it != d.end() && it->second.size() == e.sources.size(), "data missing", "data of a recording are not listed");
            if (!deep) continue;
            VH_CHECK(Archive::getCombinedHash(it->second) == kv.first, "hash of data", "archived data no longer have their hash; " << log);
            for (size_t s = 0; s < e.sources.size(); s++) {
                const Data::DataHandler& h = it->second[s].get();
                const Source& src = *e.sources[s];
                VH_CHECK(&h != src.handler.get() && h.getId() == src.handler->getId(), "identity", "archived source " << s
                         << " is the live one or has another identity");
                VH_CHECK(same(read(h, src.el, src.w * src.h), kv.second[s]), "data changed", "archived contents of source " << s
                         << " (" << src.describe() << ") differ from what they were when recorded; " << log);
            }
            vh::count("data_sets_verified");
        }
        VH_CHECK(!a.hasDataHandlers(0x1234567), "data invented", "hasDataHandlers true for an unknown hash");
    }
};

static void unitHistory(Rng& r)
{
    EnvOptions eo;
    eo.maxSources = 3;
    eo.maxDim = 4;
    auto e = makeEnv(r, eo);
    std::vector<std::shared_ptr<Program::Program>> progs;
    for (int i = 0, n = 1 + (int)r.below(5); i < n; i++) progs.push_back(makeProgram(r, *e, 3));
    Model m;
    m.cap = r.below(r.chance(0.3) ? 60 : 9);
    double ps[] = {1.0, 1.0, 0.0, 0.5, 0.05, 0.95, r.unit()};
    m.prob = ps[r.below(7)];
    uint64_t seed = r.chance(0.5) ? r.below(10) : r.next();
    m.rng.seed(seed);
    auto a = std::make_unique<Archive>(m.cap, m.prob, seed);
    m.log = "capacity " + std::to_string(m.cap) + " probability " + std::to_string(m.prob) + ": ";
    std::vector<std::vector<std::vector<double>>> pool; // data contents that come back
    std::vector<double> results{0, 1, 1 + 5e-5, 1 + 2e-4, -3, 1e300, INFINITY, -INFINITY, NAN};
    std::map<size_t, Snap> everSeen;
    for (int step = 0; step < 60; step++) {
        switch (r.below(10)) {
        case 0:
        case 1: // change the live data, or go back to former contents
            if (!pool.empty() && r.chance(0.6)) {
                auto& c = r.pick(pool);
                for (size_t s = 0; s < c.size(); s++)
                    for (size_t i = 0; i < c[s].size(); i++) e->sources[s]->set(i, c[s][i]);
            }
            else if (r.chance(0.5)) {
                e->randomizeData(r, 0.02);
                pool.push_back(snap(*e));
            }
            else {
                Source& s = *r.pick(e->sources);
                s.set(r.below(s.w * s.h), (double)r.range(-2, 2));
            }
            m.log += "data ";
            break;
        case 2:
            if (r.chance(0.2)) {
                seed = r.next();
                a->setRandomSeed(seed);
                m.rng.seed(seed);
                m.log += "seed ";
            }
            break;
        case 3:
            if (r.chance(0.15)) {
                a->clear();
                m.recs.clear();
                m.data.clear();
                m.log += "clear ";
                vh::count("clears");
            }
            break;
        case 4:
        case 5: { // query
            std::map<size_t, double> q;
            for (auto& kv : m.data)
                if (r.chance(0.7)) q[kv.first] = r.pick(results);
            if (!m.recs.empty() && r.chance(0.6)) { // reproduce one archived program, more or less
                const Program::Program* p = r.pick(m.recs).p;
                for (auto& x : m.recs)
                    if (x.p == p && r.chance(0.9)) q[x.hash] = x.result + (r.chance(0.1) ? 3e-4 : r.chance(0.3) ? 5e-5 : 0.0);
            }
            if (r.chance(0.2)) q[r.next()] = 1.0;
            double tau = 1e-4;
            bool got, want;
            if (r.chance(0.5)) got = a->areProgramResultsUnique(q);
            else { tau = r.chance(0.3) ? 0.0 : r.unit() * 3; got = a->areProgramResultsUnique(q, tau); }
            want = m.unique(q, tau);
            VH_CHECK(got == want, "uniqueness", "uniqueness query answered " << got << ", expected " << want << "; " << m.log);
            vh::count(want ? "unique_answers" : "duplicate_answers");
            break;
        }
        default: {
            auto p = r.pick(progs).get();
            double res = r.pick(results);
            bool forced = r.chance(0.15);
            auto hs = e->handlers();
            bool acc = m.accept(forced);
            a->addRecording(p, hs, res, forced);
            vh::count(acc ? "accepted" : "declined");
            if (acc) {
                size_t h = Archive::getCombinedHash(hs);
                auto it = everSeen.emplace(h, snap(*e));
                bool eq = true;
                for (size_t s = 0; s < e->sources.size(); s++) eq &= same(it.first->second[s], e->sources[s]->shadow);
                VH_CHECK(eq, "hash", "different data have the same combined hash");
                m.add(p, h, snap(*e), res);
            }
            m.log += forced ? "force " : "add ";
        }
        }
        m.check(*a, *e, step % 6 == 5 || r.chance(0.1));
    }
    // self-contained: the live sources are gone
    std::vector<std::pair<size_t, Snap>> keep(m.data.begin(), m.data.end());
    m.check(*a, *e, true);
    for (auto& s : e->sources) {
        for (size_t i = 0; i < s->w * s->h; i++) s->set(i, 77);
    }
    m.check(*a, *e, true);
    std::vector<std::pair<El, size_t>> shape;
    for (auto& s : e->sources) shape.push_back({s->el, s->w * s->h});
    progs.clear();
    e.reset();
    for (auto& kv : keep)
        for (size_t s = 0; s < shape.size(); s++)
            VH_CHECK(same(read(a->getDataHandlers().at(kv.first)[s].get(), shape[s].first, shape[s].second), kv.second[s]),
                     "not self-contained", "archived data changed when the live sources were destroyed; " << m.log);
    vh::distinct(hashStr(m.log));
    vh::sample(m.log);
}

// Recordings made by executing policies
static void unitEngine(Rng& r)
{
    EnvOptions eo;
    eo.maxSources = 2;
    eo.maxDim = 4;
    auto e = makeEnv(r, eo);
    TPG::TPGGraph g(*e->env);
    GraphOptions go;
    go.shareAnyDest = true;
    makeGraph(r, *e, g, go);
    Model m;
    m.cap = 1 + r.below(40);
    m.prob = r.chance(0.5) ? 1.0 : r.unit();
    uint64_t seed = r.next();
    m.rng.seed(seed);
    Archive a(m.cap, m.prob, seed);
    TPG::TPGExecutionEngine eng(*e->env, &a);
    for (int i = 0; i < 12; i++) {
        if (r.chance(0.7)) e->randomizeData(r, 0.1);
        auto vs = g.getVertices();
        const TPG::TPGVertex& root = *r.pick(vs);
        size_t h = Archive::getCombinedHash(e->handlers());
        auto expected = refPath(*e, root);
        auto got = eng.executeFromRoot(root);
        VH_CHECK(got == expected, "path", "path differs from the reference");
        for (auto v : expected)
            for (auto edge : v->getOutgoingEdges()) {
                if (!m.accept(false)) { vh::count("declined"); continue; }
                m.add(&edge->getProgram(), h, snap(*e), refBid(*e, edge->getProgram()));
                vh::count("bids_recorded");
            }
        m.check(a, *e, r.chance(0.3));
    }
    // detached: nothing is recorded any more
    eng.setArchive(nullptr);
    for (auto v : g.getRootVertices()) eng.executeFromRoot(*v);
    m.check(a, *e, true);
    vh::distinct(hashStr(graphText(g)));
}
VH_MAIN({"history", 3, unitHistory}, {"engine", 1, unitEngine})
