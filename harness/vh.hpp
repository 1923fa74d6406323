// Common runtime for the monitors: seeded cases, violation and coverage records.
#ifndef VH_HPP
#define VH_HPP
#include <algorithm>
#include <atomic>
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <fstream>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace vh {

// ---------------------------------------------------------------- randomness
struct Rng
{
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed) {}
    uint64_t next()
    {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int64_t range(int64_t a, int64_t b)
    {
        return a + (int64_t)below((uint64_t)(b - a) + 1);
    }
    double unit() { return (double)(next() >> 11) * (1.0 / 9007199254740992.0); }
    bool chance(double p) { return unit() < p; }
    template <class C> auto& pick(C& c) { return c[below(c.size())]; }
    // Doubles of all sorts; `special` is the probability of an awkward value.
    double real(double special = 0.1)
    {
        if (chance(special)) {
            switch (below(9)) {
            case 0: return 0.0;
            case 1: return -0.0;
            case 2: return std::numeric_limits<double>::infinity();
            case 3: return -std::numeric_limits<double>::infinity();
            case 4: return std::numeric_limits<double>::quiet_NaN();
            case 5: return 1e308;
            case 6: return -1e308;
            case 7: return 5e-324;
            default: return 1.0;
            }
        }
        switch (below(3)) {
        case 0: return (double)range(-5, 5);
        case 1: return unit() * 2 - 1;
        default: return (unit() * 2 - 1) * std::pow(10.0, (double)range(-6, 6));
        }
    }
};

inline uint64_t mix(uint64_t h, uint64_t v)
{
    h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull;
    h ^= h >> 33;
    return h;
}
inline uint64_t mixs(uint64_t h, const std::string& s)
{
    for (unsigned char c : s) h = mix(h, c);
    return mix(h, s.size());
}
inline uint64_t bits(double d)
{
    if (d != d) return 0x7ff8dead00000000ull; // all NaN alike
    uint64_t u;
    std::memcpy(&u, &d, 8);
    return u;
}
// Same value (NaN equals NaN, +0 equals -0)
inline bool same(double a, double b)
{
    return a == b || (a != a && b != b);
}

// ---------------------------------------------------------------- records
struct CaseFail : std::exception
{
    const char* what() const noexcept override { return "case failed"; }
};

struct Violation
{
    std::string key, detail, unit;
    uint64_t seed;
};

struct State
{
    std::map<std::string, uint64_t> counters;
    std::unordered_set<uint64_t> distinct;
    std::vector<std::string> samples;
    std::vector<Violation> violations;
    uint64_t evaluations = 0;
    uint64_t curSeed = 0;
    std::string curUnit;
    uint64_t nbViolations = 0;
};
inline State& st()
{
    static State s;
    return s;
}
inline void count(const std::string& k, uint64_t n = 1) { st().counters[k] += n; }
inline void distinct(uint64_t h)
{
    if (st().distinct.size() < 60000) st().distinct.insert(h);
}
inline void sample(const std::string& s)
{
    if (st().samples.size() < 2) st().samples.push_back(s.substr(0, 1500));
}
inline void violation(const std::string& key, const std::string& detail)
{
    st().nbViolations++;
    if (st().violations.size() < 12)
        st().violations.push_back(
            {key, detail.substr(0, 3000), st().curUnit, st().curSeed});
}
[[noreturn]] inline void fail(const std::string& key, const std::string& detail)
{
    violation(key, detail);
    throw CaseFail();
}

#define VH_CHECK(cond, key, msg)                                               \
    do {                                                                       \
        if (!(cond)) {                                                         \
            std::ostringstream vh_os;                                          \
            vh_os.precision(17);                                               \
            vh_os << msg;                                                      \
            vh::fail(key, vh_os.str());                                        \
        }                                                                      \
    } while (0)

// Expect that an expression throws E (any exception derived from it).
#define VH_THROWS(expr, E, key, msg)                                           \
    do {                                                                       \
        bool vh_thrown = false;                                                \
        try {                                                                  \
            (void)(expr);                                                      \
        }                                                                      \
        catch (const E&) {                                                     \
            vh_thrown = true;                                                  \
        }                                                                      \
        VH_CHECK(vh_thrown, key, msg);                                         \
    } while (0)

inline std::string jstr(const std::string& s)
{
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
        else if (c == '\n') o += "\\n";
        else if (c == '\t') o += "\\t";
        else if (c < 32 || c >= 127) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
        else o += (char)c;
    }
    return o + "\"";
}

struct Options
{
    uint64_t seed = 1, shard = 0, cases = 1;
    std::string tier = "quick", out, progress, scratch = "/tmp";
    bool replay = false;
    std::string replayUnit;
    uint64_t replaySeed = 0;
    std::map<std::string, std::string> extra;
    uint64_t num(const std::string& k, uint64_t d) const
    {
        auto it = extra.find(k);
        return it == extra.end() ? d : std::stoull(it->second);
    }
};
inline Options& opt()
{
    static Options o;
    return o;
}
inline bool thorough() { return opt().tier == "thorough"; }

inline char* progressMem()
{
    static char* m = nullptr;
    if (!m && !opt().progress.empty()) {
        int fd = open(opt().progress.c_str(), O_RDWR | O_CREAT, 0644);
        if (fd >= 0 && ftruncate(fd, 4096) == 0)
            m = (char*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        if (m == MAP_FAILED) m = nullptr;
    }
    return m;
}
inline void progress(const std::string& unit, uint64_t seed)
{
    st().curUnit = unit;
    st().curSeed = seed;
    if (char* m = progressMem())
        snprintf(m, 4096, "%s %llu\n", unit.c_str(), (unsigned long long)seed);
}

inline void writeOut()
{
    if (opt().out.empty()) return;
    std::ofstream f(opt().out);
    State& s = st();
    f << "{\"evaluations\":" << s.evaluations << ",\"nb_violations\":" << s.nbViolations
      << ",\"counters\":{";
    bool first = true;
    for (auto& c : s.counters) {
        f << (first ? "" : ",") << jstr(c.first) << ":" << c.second;
        first = false;
    }
    f << "},\"distinct\":[";
    first = true;
    for (auto h : s.distinct) {
        f << (first ? "" : ",") << h;
        first = false;
    }
    f << "],\"samples\":[";
    first = true;
    for (auto& x : s.samples) {
        f << (first ? "" : ",") << jstr(x);
        first = false;
    }
    f << "],\"violations\":[";
    first = true;
    for (auto& v : s.violations) {
        f << (first ? "" : ",") << "{\"key\":" << jstr(v.key) << ",\"detail\":" << jstr(v.detail)
          << ",\"unit\":" << jstr(v.unit) << ",\"seed\":" << v.seed << "}";
        first = false;
    }
    f << "],\"done\":true}\n";
}

// A unit is a kind of case. weight = share of the random cases; 0 = directed,
// run once (in shard 0).
struct Unit
{
    std::string name;
    double weight;
    std::function<void(Rng&)> fn;
};

inline void runCase(const Unit& u, uint64_t seed)
{
    progress(u.name, seed);
    Rng r(seed);
    st().evaluations++;
    try {
        u.fn(r);
    }
    catch (const CaseFail&) {
    }
    catch (const std::exception& e) {
        violation("exception:" + u.name, std::string("unexpected exception: ") + e.what());
    }
}

inline int main_(int argc, char** argv, const std::vector<Unit>& units)
{
    Options& o = opt();
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--seed") o.seed = std::stoull(val());
        else if (a == "--shard") o.shard = std::stoull(val());
        else if (a == "--cases") o.cases = std::stoull(val());
        else if (a == "--tier") o.tier = val();
        else if (a == "--out") o.out = val();
        else if (a == "--progress") o.progress = val();
        else if (a == "--scratch") o.scratch = val();
        else if (a == "--replay") {
            o.replay = true;
            o.replayUnit = val();
            o.replaySeed = std::stoull(val());
        }
        else if (a.rfind("--", 0) == 0) { std::string k = a.substr(2); o.extra[k] = val(); }
    }
    if (o.replay) {
        for (auto& u : units)
            if (u.name == o.replayUnit) runCase(u, o.replaySeed);
        for (auto& v : st().violations)
            std::cout << v.key << ": " << v.detail << std::endl;
        writeOut();
        return st().nbViolations ? 1 : 0;
    }
    if (o.shard == 0)
        for (auto& u : units)
            if (u.weight == 0) runCase(u, mix(mixs(o.seed, u.name), 77));
    double total = 0;
    for (auto& u : units) total += u.weight;
    Rng r(mix(mix(o.seed, 0xC0FFEE), o.shard));
    if (total > 0)
        for (uint64_t c = 0; c < o.cases; c++) {
            // The first cases of a shard go through the units in turn.
            const Unit* chosen = nullptr;
            double x = r.unit() * total;
            for (auto& u : units) {
                if (u.weight == 0) continue;
                chosen = &u;
                if ((x -= u.weight) < 0) break;
            }
            runCase(*chosen, r.next());
            if (st().nbViolations >= 12) break;
        }
    progress("end", 0);
    writeOut();
    return 0;
}

} // namespace vh

#define VH_MAIN(...)                                                           \
    int main(int argc, char** argv)                                            \
    {                                                                          \
        std::vector<vh::Unit> units{__VA_ARGS__};                              \
        return vh::main_(argc, argv, units);                                   \
    }
#endif
