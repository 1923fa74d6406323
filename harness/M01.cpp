// M01: mutated programs are valid and executable, mutations are bounded, nothing is unreachable.
// Oracles: reference validity, edit search between the states before and after, coverage of alternatives.
#include "gen.hpp"
#include "mutator/lineMutator.h"
#include "mutator/mutationParameters.h"
#include "mutator/programMutator.h"
#include "mutator/rng.h"
#include "program/programExecutionEngine.h"
using namespace gen;
using vh::Rng;

struct L
{
    uint64_t i, d;
    std::vector<std::pair<uint64_t, uint64_t>> o;
    bool operator==(const L& x) const { return i == x.i && d == x.d && o == x.o; }
};
struct P
{
    std::vector<L> l;
    std::vector<int32_t> c;
    bool operator==(const P& x) const { return l == x.l && c == x.c; }
};
static L lineOf(const Program::Line& l, size_t m)
{
    L x{l.getInstructionIndex(), l.getDestinationIndex(), {}};
    for (size_t k = 0; k < m; k++) x.o.push_back(l.getOperand(k));
    return x;
}
static P snap(const Program::Program& p)
{
    P s;
    size_t m = p.getEnvironment().getMaxNbOperands();
    for (size_t i = 0; i < p.getNbLines(); i++) s.l.push_back(lineOf(p.getLine(i), m));
    for (size_t i = 0; i < p.getEnvironment().getNbConstant(); i++) s.c.push_back((int32_t)p.getConstantAt(i));
    return s;
}
// all field values in range and operand types provided
static bool validLine(const EnvBundle& e, const L& l)
{
    if (l.i >= e.usable.size() || l.d >= e.nbRegs) return false;
    const InstrDesc& d = e.instr(l.i);
    for (size_t k = 0; k < l.o.size(); k++) {
        if (l.o[k].first >= e.nbSources() || l.o[k].second >= e.largest()) return false;
        if (k < d.ops.size() && e.space(d.ops[k], l.o[k].first) == 0) return false;
    }
    return true;
}
static void checkValid(const EnvBundle& e, const Program::Program& p, size_t maxLines, int32_t lo, int32_t hi, const char* when)
{
    VH_CHECK(p.getNbLines() >= 1 && p.getNbLines() <= maxLines, "number of lines", p.getNbLines() << " lines " << when
             << ", the maximum is " << maxLines << "; " << e.describe());
    P s = snap(p);
    for (auto& l : s.l)
        VH_CHECK(validLine(e, l), "valid line", "invalid line " << when << ": " << e.describe() << "\n" << text(p));
    for (int32_t c : s.c)
        VH_CHECK(c >= lo && c <= hi, "constant range", "constant " << c << " outside [" << lo << "," << hi << "] " << when);
    auto dead = refDead(e, p);
    for (size_t i = 0; i < dead.size(); i++)
        VH_CHECK(p.isIntron(i) == dead[i], "marks", "dead-line mark " << i << " is out of date " << when << ": " << e.describe() << "\n"
                 << text(p));
    Program::ProgramExecutionEngine eng(p);
    double x = eng.executeProgram(), y = refExecute(e, p);
    VH_CHECK(vh::same(x, y), "execution", "execution gives " << x << ", expected " << y << " " << when);
    vh::count("programs_validated");
}

// Are a and b equal but for at most one position?
static bool oneDiff(const std::vector<L>& a, const std::vector<L>& b)
{
    int n = 0;
    for (size_t i = 0; i < a.size(); i++) n += !(a[i] == b[i]);
    return n <= 1;
}
// Can b be reached from a by (delete)? (insert)? (alter one)? (swap two)? in this order?
static bool oneEdit(const std::vector<L>& a, const std::vector<L>& b)
{
    long diff = (long)b.size() - (long)a.size();
    if (diff < -1 || diff > 1) return false;
    std::vector<std::vector<L>> unswapped{b};
    for (size_t i = 0; i < b.size(); i++)
        for (size_t j = i + 1; j < b.size(); j++) {
            auto c = b;
            std::swap(c[i], c[j]);
            unswapped.push_back(c);
        }
    for (auto& u : unswapped) {
        if (diff == 0 && oneDiff(a, u)) return true;
        // with a deletion and/or an insertion
        std::vector<std::vector<L>> del, ins;
        if (diff <= 0)
            for (size_t i = 0; i < a.size(); i++) {
                auto c = a;
                c.erase(c.begin() + i);
                del.push_back(c);
            }
        else del.push_back(a);
        if (diff >= 0)
            for (size_t i = 0; i < u.size(); i++) {
                auto c = u;
                c.erase(c.begin() + i);
                ins.push_back(c);
            }
        else ins.push_back(u);
        for (auto& x : del)
            for (auto& y : ins)
                if (x.size() == y.size() && oneDiff(x, y)) return true;
    }
    return false;
}

static Mutator::MutationParameters params(Rng& r, size_t maxSize)
{
    Mutator::MutationParameters mp;
    auto p = [&]() { return r.chance(0.2) ? 0.0 : r.chance(0.25) ? 1.0 : r.unit(); };
    mp.prog.maxProgramSize = maxSize;
    mp.prog.pDelete = p();
    mp.prog.pAdd = p();
    mp.prog.pMutate = p();
    mp.prog.pSwap = p();
    mp.prog.pConstantMutation = p();
    mp.prog.minConstValue = (int32_t)r.range(-50, 50);
    mp.prog.maxConstValue = mp.prog.minConstValue + (int32_t)r.below(60);
    if (r.chance(0.1)) {
        mp.prog.minConstValue = std::numeric_limits<int32_t>::min();
        mp.prog.maxConstValue = std::numeric_limits<int32_t>::max();
    }
    return mp;
}

static void unitChain(Rng& r)
{
    auto e = makeEnv(r, EnvOptions());
    size_t maxSize = 1 + r.below(r.chance(0.2) ? 40 : 6);
    auto mp = params(r, maxSize);
    Mutator::RNG rng(r.next());
    Program::Program p(*e->env);
    if (r.chance(0.3)) fillProgram(r, *e, p, 1 + r.below(5)); // initialising discards former lines
    Mutator::ProgramMutator::initRandomProgram(p, mp, rng);
    checkValid(*e, p, maxSize, mp.prog.minConstValue, mp.prog.maxConstValue, "after initialisation");
    for (int step = 0; step < 40; step++) {
        if (r.chance(0.3)) e->randomizeData(r, 0.1);
        P before = snap(p);
        std::string tb = text(p);
        bool done = Mutator::ProgramMutator::mutateProgram(p, mp, rng);
        P after = snap(p);
        checkValid(*e, p, maxSize, mp.prog.minConstValue, mp.prog.maxConstValue, "after a mutation");
        if (!done) {
            VH_CHECK(before == after, "not done", "a mutation reported as not done changed the program\n" << tb << "\n" << text(p));
            vh::count("mutations_not_done");
            continue;
        }
        vh::count("mutations_done");
        if (!(before == after)) vh::count("mutations_visible");
        int nc = 0;
        for (size_t i = 0; i < after.c.size(); i++) nc += after.c[i] != before.c[i];
        VH_CHECK(nc <= 1, "constants", nc << " constants changed by one mutation");
        if (nc) vh::count("constants_changed");
        // a probability of 0 rules a kind of change out, a probability of 1 makes it certain
        if (mp.prog.pConstantMutation == 0) VH_CHECK(nc == 0, "constants", "a constant changed with probability 0");
        long grow = (long)after.l.size() - (long)before.l.size();
        bool mayDel = mp.prog.pDelete > 0 && before.l.size() > 1;
        if (!mayDel) VH_CHECK(grow >= 0, "deletion", "a line was deleted with probability 0");
        if (mp.prog.pAdd == 0) VH_CHECK(grow <= 0, "insertion", "a line was inserted with probability 0");
        if (mp.prog.pAdd == 1 && mp.prog.pDelete == 0 && before.l.size() < maxSize)
            VH_CHECK(grow == 1, "insertion", "no line was inserted with probability 1");
        if (mp.prog.pDelete == 1 && mp.prog.pAdd == 0 && before.l.size() > 1)
            VH_CHECK(grow == -1, "deletion", "no line was deleted with probability 1");
        if (mp.prog.pDelete == 0 && mp.prog.pAdd == 0 && mp.prog.pMutate == 0 && mp.prog.pSwap == 0)
            VH_CHECK(before.l == after.l, "lines", "lines changed with all line probabilities at 0");
        if (before.l.size() <= 7 && after.l.size() <= 7) {
            VH_CHECK(oneEdit(before.l, after.l), "too many changes", "more than one change of each kind in a mutation\n" << e->describe()
                     << "\n" << tb << "\n" << text(p));
            vh::count("edits_explained");
        }
        vh::distinct(hashStr(tb + text(p)));
    }
    vh::sample(e->describe() + " " + text(p));
}

// Each operation alone
static void unitOps(Rng& r)
{
    EnvOptions eo;
    eo.maxConst = 4;
    auto e = makeEnv(r, eo);
    auto mp = params(r, 6);
    if (mp.prog.minConstValue > -1000) mp.prog.maxConstValue = mp.prog.minConstValue + (int32_t)r.below(5);
    Mutator::RNG rng(r.next());
    if (r.chance(0.3)) {
        // a few values anywhere in the range of constants
        mp.prog.minConstValue = (int32_t)r.range(INT32_MIN, INT32_MAX - 5);
        mp.prog.maxConstValue = mp.prog.minConstValue + (int32_t)r.below(5);
    }
    size_t n = r.chance(0.15) ? 6 + r.below(15) : 1 + r.below(5);
    Program::Program base(*e->env);
    fillProgram(r, *e, base, n);
    P b = snap(base);
    // make lines distinguishable through the location of the first operand
    if (e->largest() >= n && e->maxOps() > 0)
        for (size_t i = 0; i < n; i++) base.getLine(i).setOperand(0, base.getLine(i).getOperand(0).first, i);
    b = snap(base);
    bool distinctLines = e->largest() >= n;
    std::map<std::vector<uint64_t>, int> dels, swaps;
    std::set<std::vector<uint64_t>> inss, alts;
    std::map<size_t, int> changed; // constants
    std::set<std::pair<size_t, int32_t>> consts;
    const int N = n <= 5 ? 600 : 200 * (int)n;
    auto order = [&](const P& x) {
        std::vector<uint64_t> o;
        for (auto& l : x.l) o.push_back(l.o[0].second);
        return o;
    };
    for (int t = 0; t < N; t++) {
        {
            Program::Program p(base);
            bool ok = Mutator::ProgramMutator::deleteRandomLine(p, rng);
            P a = snap(p);
            VH_CHECK(ok == (n > 1), "delete", "deleteRandomLine returned " << ok << " for " << n << " lines");
            if (!ok) VH_CHECK(a == b, "delete", "a refused deletion changed the program");
            else VH_CHECK(a.l.size() == n - 1 && oneEdit(b.l, a.l) && a.c == b.c, "delete", "wrong deletion");
            if (distinctLines) dels[order(a)]++;
        }
        {
            Program::Program p(base);
            Mutator::ProgramMutator::insertRandomLine(p, rng);
            P a = snap(p);
            VH_CHECK(a.l.size() == n + 1 && a.c == b.c, "insert", "wrong insertion");
            bool found = false;
            for (size_t i = 0; i <= n && !found; i++) {
                auto c = a.l;
                L ins = c[i];
                c.erase(c.begin() + i);
                if (c == b.l) {
                    found = true;
                    VH_CHECK(validLine(*e, ins), "insert", "invalid inserted line");
                    inss.insert({i});
                }
            }
            VH_CHECK(found, "insert", "an insertion changed other lines");
        }
        {
            Program::Program p(base);
            bool ok = Mutator::ProgramMutator::swapRandomLines(p, rng);
            P a = snap(p);
            VH_CHECK(ok == (n > 1), "swap", "swapRandomLines returned " << ok << " for " << n << " lines");
            if (!ok) VH_CHECK(a == b, "swap", "a refused swap changed the program");
            else {
                std::vector<size_t> d;
                for (size_t i = 0; i < n; i++)
                    if (!(a.l[i] == b.l[i])) d.push_back(i);
                VH_CHECK(d.empty() || (d.size() == 2 && a.l[d[0]] == b.l[d[1]] && a.l[d[1]] == b.l[d[0]]), "swap", "not a swap");
                if (distinctLines) VH_CHECK(d.size() == 2, "swap", "two equal positions were swapped");
                if (distinctLines) swaps[order(a)]++;
            }
        }
        {
            Program::Program p(base);
            bool ok = Mutator::ProgramMutator::alterRandomLine(p, rng);
            P a = snap(p);
            VH_CHECK(ok, "alter", "alterRandomLine reported a failure");
            std::vector<uint64_t> d;
            for (size_t i = 0; i < n; i++)
                if (!(a.l[i] == b.l[i])) d.push_back(i);
            VH_CHECK(a.l.size() == n && d.size() <= 1 && a.c == b.c, "alter", "alteration of several lines");
            for (auto i : d) VH_CHECK(validLine(*e, a.l[i]), "alter", "an alteration made an invalid line");
            if (!d.empty()) alts.insert(d);
        }
        if (e->nbConst) {
            Program::Program p(base);
            Mutator::ProgramMutator::alterRandomConstant(p, mp, rng);
            P a = snap(p);
            int nd = 0;
            for (size_t i = 0; i < a.c.size(); i++)
                if (a.c[i] != b.c[i]) {
                    nd++;
                    changed[i]++;
                    consts.insert({i, a.c[i]});
                    VH_CHECK(a.c[i] >= mp.prog.minConstValue && a.c[i] <= mp.prog.maxConstValue, "constant range", a.c[i]
                             << " is outside the range");
                }
            VH_CHECK(nd <= 1 && a.l == b.l, "constant alteration", "more than one constant changed");
        }
    }
    // every position has the same chances (6.5 standard deviations: about one false alarm in 10^9)
    auto off = [&](double q, double k) { return N * q >= 100 && std::fabs(k - N * q) > 6.5 * std::sqrt(N * q * (1 - q)) + 1; };
    if (distinctLines && n > 1) {
        for (auto& x : dels) VH_CHECK(!off(1.0 / n, x.second), "deletions not uniform", x.second << " of " << N << " for one of " << n << " lines");
        for (auto& x : swaps)
            VH_CHECK(!off(2.0 / (n * (n - 1)), x.second), "swaps not uniform", x.second << " of " << N << " for one pair of " << n << " lines");
        vh::count("positions_uniform");
    }
    int64_t range = mp.prog.maxConstValue - (int64_t)mp.prog.minConstValue + 1;
    for (size_t i = 0; i < e->nbConst; i++) {
        bool in = b.c[i] >= mp.prog.minConstValue && b.c[i] <= mp.prog.maxConstValue;
        double q = (in ? (range - 1.0) / range : 1.0) / e->nbConst;
        VH_CHECK(!off(q, changed[i]), "constants not uniform", "constant " << i << " of " << e->nbConst << " changed " << changed[i] << " times in " << N
                 << ", expected " << N * q);
        vh::count("constants_uniform");
    }
    // nothing is out of reach
    if (distinctLines && n > 1) {
        VH_CHECK(dels.size() == n, "unreachable deletion", dels.size() << " of " << n << " lines can be deleted");
        VH_CHECK(swaps.size() == n * (n - 1) / 2, "unreachable swap", swaps.size() << " of " << n * (n - 1) / 2 << " pairs can be swapped");
    }
    VH_CHECK(inss.size() == n + 1, "unreachable insertion", inss.size() << " of " << n + 1 << " insertion positions");
    if (e->nbRegs > 1) VH_CHECK(alts.size() == n, "unreachable alteration", alts.size() << " of " << n << " lines can be altered");
    if (e->nbConst && mp.prog.maxConstValue - (int64_t)mp.prog.minConstValue < 5)
        for (size_t i = 0; i < e->nbConst; i++)
            for (int32_t v = mp.prog.minConstValue; v <= mp.prog.maxConstValue; v++)
                VH_CHECK(v == b.c[i] || consts.count({i, v}), "unreachable constant", "constant " << i << " never becomes " << v);
    vh::count("operation_coverages");
    vh::distinct(hashStr(e->describe() + text(base)));
}

// One line: exact alteration and reachability of every alternative
static void unitLine(Rng& r)
{
    EnvOptions eo;
    eo.maxDim = 3;
    eo.maxRegs = 6;
    eo.maxSources = 3;
    eo.pLarge = 0.2;
    eo.largeArrays = false;
    auto e = makeEnv(r, eo);
    // enough draws for every alternative of large environments
    const int scale = e->large ? 20 : 1;
    if (e->large) vh::count("line_coverages_large");
    size_t m = e->maxOps();
    Mutator::RNG rng(r.next());
    Program::Line base(*e->env);
    randomLine(r, *e, base);
    L b = lineOf(base, m);
    const InstrDesc& d = e->instr(b.i);
    std::set<uint64_t> is, ds;
    std::vector<std::set<uint64_t>> ss(m), ls(m);
    const int N = 5000 * scale;
    for (int t = 0; t < N; t++) {
        Program::Line l(base);
        Mutator::LineMutator::alterCorrectLine(l, rng);
        L a = lineOf(l, m);
        VH_CHECK(validLine(*e, a), "valid alteration", "an alteration made an invalid line: " << e->describe());
        if (a == b) {
            // allowed only where some field has no alternative
            bool excuse = false;
            for (size_t k = 0; k < m; k++) {
                size_t alternatives = 0;
                for (size_t s = 0; s < e->nbSources(); s++)
                    alternatives += s != b.o[k].first && (k >= d.ops.size() || e->space(d.ops[k], s) > 0);
                excuse |= alternatives == 0;
            }
            if (!excuse && e->nbRegs == 1) {
                static bool once = false;
                if (!once) vh::violation("one register: alteration without effect", "no change by alterCorrectLine: " + e->describe());
                once = true;
                continue;
            }
            VH_CHECK(excuse || e->nbRegs == 1, "alteration without effect", "alterCorrectLine changed nothing: " << e->describe());
            vh::count("alterations_without_alternative");
            continue;
        }
        vh::count("alterations");
        if (a.i != b.i) {
            is.insert(a.i);
            const InstrDesc& nd = e->instr(a.i);
            VH_CHECK(a.d == b.d, "several fields", "instruction and destination altered together");
            for (size_t k = 0; k < m; k++) {
                VH_CHECK(a.o[k].second == b.o[k].second, "several fields", "instruction and a location altered together");
                bool needed = k < nd.ops.size() && e->space(nd.ops[k], b.o[k].first) == 0;
                VH_CHECK(needed || a.o[k].first == b.o[k].first, "several fields", "the source of an operand changed needlessly "
                         "together with the instruction");
                if (needed) vh::count("operands_adapted");
            }
            continue;
        }
        int fields = a.d != b.d;
        if (a.d != b.d) ds.insert(a.d);
        for (size_t k = 0; k < m; k++) {
            if (a.o[k].first != b.o[k].first) { fields++; ss[k].insert(a.o[k].first); }
            if (a.o[k].second != b.o[k].second) { fields++; ls[k].insert(a.o[k].second); }
        }
        VH_CHECK(fields == 1, "several fields", fields << " fields altered at once");
    }
    if (is.size() != e->usable.size() - 1) {
        VH_CHECK(e->nbRegs == 1, "unreachable instruction", is.size() << " of " << e->usable.size() - 1
                 << " other instructions reached: " << e->describe());
        static bool once = false;
        if (!once) vh::violation("one register: instruction unreachable", "alterCorrectLine never changes the instruction: " + e->describe());
        once = true;
    }
    VH_CHECK(ds.size() == e->nbRegs - 1, "unreachable destination", ds.size() << " of " << e->nbRegs - 1 << " other destinations reached: "
             << e->describe());
    for (size_t k = 0; k < m; k++) {
        for (size_t s = 0; s < e->nbSources(); s++)
            if (s != b.o[k].first && (k >= d.ops.size() || e->space(d.ops[k], s) > 0))
                VH_CHECK(ss[k].count(s), "unreachable source", "operand " << k << " never gets source " << s << ": " << e->describe());
        VH_CHECK(ls[k].size() == e->largest() - 1, "unreachable location", ls[k].size() << " of " << e->largest() - 1
                 << " other locations reached for operand " << k << ": " << e->describe());
    }
    // Initialisation reaches everything as well
    std::set<uint64_t> i2, d2;
    std::map<std::pair<uint64_t, size_t>, std::set<uint64_t>> s2;
    std::vector<std::set<uint64_t>> l2(m);
    for (int t = 0; t < 4000 * scale; t++) {
        Program::Line l(*e->env);
        Mutator::LineMutator::initRandomCorrectLine(l, rng);
        L a = lineOf(l, m);
        VH_CHECK(validLine(*e, a), "valid initialisation", "an initialised line is invalid: " << e->describe());
        i2.insert(a.i);
        d2.insert(a.d);
        for (size_t k = 0; k < m; k++) {
            s2[{a.i, k}].insert(a.o[k].first);
            l2[k].insert(a.o[k].second);
        }
    }
    VH_CHECK(i2.size() == e->usable.size() && d2.size() == e->nbRegs, "unreachable initialisation",
             i2.size() << " instructions and " << d2.size() << " destinations reached: " << e->describe());
    for (size_t k = 0; k < m; k++) {
        VH_CHECK(l2[k].size() == e->largest(), "unreachable initialisation", l2[k].size() << " locations reached: " << e->describe());
        for (uint64_t i = 0; i < e->usable.size(); i++)
            for (size_t s = 0; s < e->nbSources(); s++)
                if (k >= e->instr(i).ops.size() || e->space(e->instr(i).ops[k], s) > 0)
                    VH_CHECK((s2[std::make_pair(i, k)].count(s)), "unreachable initialisation", "source " << s << " is never chosen for operand " << k
                             << " of instruction " << i << ": " << e->describe());
    }
    vh::count("line_coverages");
    vh::distinct(hashStr(e->describe()));
}
VH_MAIN({"chain", 10, unitChain}, {"ops", 2, unitOps}, {"line", 2, unitLine})
