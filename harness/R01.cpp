// R01: random draws are in range, uniform, replayable and equal to the specified sequence.
// Oracle: an independent MT19937-64 and independent range reductions.
#include "vh.hpp"
#include "mutator/rng.h"
using vh::Rng;

struct MT // from the published algorithm, not from the standard library
{
    uint64_t s[312];
    int i = 312;
    explicit MT(uint64_t seed)
    {
        s[0] = seed;
        for (int k = 1; k < 312; k++) s[k] = 6364136223846793005ull * (s[k - 1] ^ (s[k - 1] >> 62)) + k;
    }
    uint64_t next()
    {
        if (i >= 312) {
            for (int k = 0; k < 312; k++) {
                uint64_t x = (s[k] & 0xFFFFFFFF80000000ull) | (s[(k + 1) % 312] & 0x7FFFFFFFull);
                s[k] = s[(k + 156) % 312] ^ (x >> 1) ^ ((x & 1) ? 0xB5026F5AA96619E9ull : 0);
            }
            i = 0;
        }
        uint64_t x = s[i++];
        x ^= (x >> 29) & 0x5555555555555555ull;
        x ^= (x << 17) & 0x71D67FFFEDA60000ull;
        x ^= (x << 37) & 0xFFF7EEE000000000ull;
        x ^= x >> 43;
        return x;
    }
    uint64_t u64(uint64_t lo, uint64_t hi)
    {
        unsigned __int128 n = (unsigned __int128)hi - lo + 1;
        if (n == 1) return lo; // no draw is needed
        if (n >> 64) return next();
        unsigned __int128 lim = (((unsigned __int128)1 << 64) / n) * n; // reject above: unbiased
        for (;;) {
            uint64_t x = next();
            if (x < lim) return lo + (uint64_t)(x % n);
        }
    }
    int32_t i32(int32_t lo, int32_t hi)
    {
        uint64_t n = (uint64_t)((int64_t)hi - lo) + 1;
        if (n >> 32) return (int32_t)(uint32_t)(lo + (int64_t)(uint32_t)next());
        return (int32_t)(lo + (int64_t)u64(0, n - 1));
    }
    double real(double lo, double hi)
    {
        double x = (double)next() / 18446744073709551616.0;
        if (x >= 1.0) x = std::nextafter(1.0, 0.0);
        return x * (hi - lo) + lo;
    }
};

static uint64_t anyU(Rng& r)
{
    switch (r.below(6)) {
    case 0: return r.below(20);
    case 1: return ~0ull - r.below(5);
    case 2: return 1ull << r.below(64);
    case 3: return (1ull << r.below(64)) - 1;
    case 4: return (1ull << 63) + r.below(7) - 3;
    default: return r.next() >> r.below(64);
    }
}
static int32_t anyI(Rng& r)
{
    switch (r.below(5)) {
    case 0: return (int32_t)r.range(-20, 20);
    case 1: return std::numeric_limits<int32_t>::min() + (int32_t)r.below(4);
    case 2: return std::numeric_limits<int32_t>::max() - (int32_t)r.below(4);
    default: return (int32_t)r.next() >> r.below(31);
    }
}
static double anyD(Rng& r)
{
    switch (r.below(4)) {
    case 0: return (double)r.range(-10, 10);
    case 1: return (r.unit() - 0.5) * std::pow(10.0, (double)r.range(-100, 100));
    case 2: return r.chance(0.5) ? 0.0 : 1.0;
    default: return r.unit();
    }
}

static void unitSequence(Rng& r)
{
    uint64_t seed = anyU(r);
    Mutator::RNG g(seed);
    MT m(seed);
    struct Pair { std::unique_ptr<Mutator::RNG> g; MT m; };
    std::vector<Pair> others;
    uint64_t shape = 0;
    for (int step = 0; step < 300; step++) {
        switch (r.below(20)) {
        case 0: { // re-seed
            seed = anyU(r);
            g.setSeed(seed);
            m = MT(seed);
            vh::count("reseeds");
            break;
        }
        case 1: // copy, to be used later on
            if (others.size() < 4) { others.push_back({std::make_unique<Mutator::RNG>(g), m}); vh::count("copies"); }
            break;
        case 2: // go on with a copy: the original must not be disturbed
            if (!others.empty()) {
                Pair& p = r.pick(others);
                uint64_t a = p.g->getUnsignedInt64(0, ~0ull), b = p.m.u64(0, ~0ull);
                VH_CHECK(a == b, "copy", "a copied generator gives " << a << ", expected " << b);
                vh::count("draws_from_copies");
            }
            break;
        case 3: case 4: case 5: case 6: case 7: case 8: case 9: {
            uint64_t a = anyU(r), b = anyU(r);
            if (a > b) std::swap(a, b);
            uint64_t x = g.getUnsignedInt64(a, b), y = m.u64(a, b);
            VH_CHECK(x >= a && x <= b, "range of unsigned", x << " drawn in [" << a << "," << b << "]");
            VH_CHECK(x == y, "sequence of unsigned", x << " drawn in [" << a << "," << b << "], expected " << y);
            vh::count("draws_u64");
            shape = vh::mix(shape, vh::mix(a, b));
            break;
        }
        case 10: case 11: case 12: case 13: case 14: {
            int32_t a = anyI(r), b = anyI(r);
            if (a > b) std::swap(a, b);
            int32_t x = g.getInt32(a, b), y = m.i32(a, b);
            VH_CHECK(x >= a && x <= b, "range of int32", x << " drawn in [" << a << "," << b << "]");
            VH_CHECK(x == y, "sequence of int32", x << " drawn in [" << a << "," << b << "], expected " << y);
            vh::count("draws_i32");
            if ((uint64_t)((int64_t)b - a) > 0xFFFFFFFEull) vh::count("draws_i32_full_range");
            shape = vh::mix(shape, vh::mix(a, b));
            break;
        }
        default: {
            double a = anyD(r), b = anyD(r);
            if (a > b) std::swap(a, b);
            double x = g.getDouble(a, b), y = m.real(a, b);
            VH_CHECK(x >= a && x <= b, "range of double", x << " drawn in [" << a << "," << b << "]");
            // the last bit may depend on the contraction of the multiplication and the addition
            double tol = std::max(std::abs(a), std::abs(b)) * 1e-15;
            VH_CHECK(std::abs(x - y) <= tol, "sequence of double", x << " drawn in [" << a << "," << b << "], expected " << y);
            vh::count("draws_double");
        }
        }
    }
    vh::distinct(shape);
}

// Expected frequencies, on a fixed set of seeds (deterministic: no chance of a false alarm from run to run)
static void unitUniform(Rng& r)
{
    uint64_t n = 1 + r.below(40), base = anyU(r) >> 2;
    int kind = (int)r.below(3);
    Mutator::RNG g(r.next());
    const int draws = 400 * (int)n;
    std::vector<int> c(n);
    int32_t ibase = (int32_t)r.range(-1000, 1000);
    double mean = 0;
    for (int i = 0; i < draws; i++) {
        if (kind == 0) c.at(g.getUnsignedInt64(base, base + n - 1) - base)++;
        else if (kind == 1) c.at(g.getInt32(ibase, ibase + (int32_t)n - 1) - ibase)++;
        else {
            double x = g.getDouble(0, (double)n);
            c.at(std::min<size_t>(n - 1, (size_t)x))++;
            mean += x;
        }
    }
    double chi = 0;
    for (int x : c) {
        VH_CHECK(x > 0, "unreached value", "a value of a range of " << n << " never occurred in " << draws << " draws");
        chi += (x - 400.0) * (x - 400.0) / 400.0;
    }
    double dof = (double)n - 1;
    VH_CHECK(chi < dof + 8 * std::sqrt(2 * dof) + 40, "frequencies", "chi-square " << chi << " for " << dof << " degrees of freedom");
    vh::count("frequency_tables");
}
// Large ranges: a biased reduction would favour the lower part
static void unitBias(Rng& r)
{
    Mutator::RNG g(r.next());
    uint64_t n = (3ull << 62); // 3/4 of the range: modulo alone would draw the first third twice as often
    int low = 0;
    for (int i = 0; i < 4000; i++) low += g.getUnsignedInt64(0, n - 1) < n / 3;
    VH_CHECK(std::abs(low - 4000 / 3.0) < 8 * 30, "bias", low << " draws of 4000 in the first third of a large range");
    vh::count("bias_tables");
}
VH_MAIN({"sequence", 6, unitSequence}, {"uniform", 1, unitUniform}, {"bias", 1, unitBias})
