// F02: parameters survive a write and read round trip, and partial or broken files do what they should.
// Oracle: an independent table of all parameters.
#include "gen.hpp"
#include "file/parametersParser.h"
#include "learn/learningParameters.h"
#include <iomanip>
using vh::Rng;
typedef Learn::LearningParameters P;

enum Kind { Size, Int, Real, Bool };
struct Field
{
    const char* group; // "", "tpg" or "prog"
    const char* name;
    Kind kind;
    std::function<void*(P&)> at;
    size_t bytes;
};
#define FIELD(group, name, kind, member) Field{group, name, kind, [](P& p) { return (void*)&p.member; }, sizeof(P().member)}
static const std::vector<Field>& fields()
{
    static const std::vector<Field> f{
        FIELD("", "archiveSize", Size, archiveSize),
        FIELD("", "archivingProbability", Real, archivingProbability),
        FIELD("", "nbIterationsPerPolicyEvaluation", Size, nbIterationsPerPolicyEvaluation),
        FIELD("", "maxNbActionsPerEval", Size, maxNbActionsPerEval),
        FIELD("", "ratioDeletedRoots", Real, ratioDeletedRoots),
        FIELD("", "nbGenerations", Size, nbGenerations),
        FIELD("", "maxNbEvaluationPerPolicy", Size, maxNbEvaluationPerPolicy),
        FIELD("", "nbIterationsPerJob", Size, nbIterationsPerJob),
        FIELD("", "nbRegisters", Size, nbRegisters),
        FIELD("", "nbProgramConstant", Size, nbProgramConstant),
        FIELD("", "nbThreads", Size, nbThreads),
        FIELD("", "doValidation", Bool, doValidation),
        FIELD("tpg", "nbActions", Size, mutation.tpg.nbActions),
        FIELD("tpg", "nbRoots", Size, mutation.tpg.nbRoots),
        FIELD("tpg", "maxInitOutgoingEdges", Size, mutation.tpg.maxInitOutgoingEdges),
        FIELD("tpg", "maxOutgoingEdges", Size, mutation.tpg.maxOutgoingEdges),
        FIELD("tpg", "pEdgeDeletion", Real, mutation.tpg.pEdgeDeletion),
        FIELD("tpg", "pEdgeAddition", Real, mutation.tpg.pEdgeAddition),
        FIELD("tpg", "pProgramMutation", Real, mutation.tpg.pProgramMutation),
        FIELD("tpg", "forceProgramBehaviorChangeOnMutation", Bool, mutation.tpg.forceProgramBehaviorChangeOnMutation),
        FIELD("tpg", "pEdgeDestinationChange", Real, mutation.tpg.pEdgeDestinationChange),
        FIELD("tpg", "pEdgeDestinationIsAction", Real, mutation.tpg.pEdgeDestinationIsAction),
        FIELD("prog", "maxProgramSize", Size, mutation.prog.maxProgramSize),
        FIELD("prog", "pDelete", Real, mutation.prog.pDelete),
        FIELD("prog", "pAdd", Real, mutation.prog.pAdd),
        FIELD("prog", "pMutate", Real, mutation.prog.pMutate),
        FIELD("prog", "pSwap", Real, mutation.prog.pSwap),
        FIELD("prog", "pConstantMutation", Real, mutation.prog.pConstantMutation),
        FIELD("prog", "minConstValue", Int, mutation.prog.minConstValue),
        FIELD("prog", "maxConstValue", Int, mutation.prog.maxConstValue),
    };
    return f;
}
static bool same(const Field& f, P& a, P& b) { return memcmp(f.at(a), f.at(b), f.bytes) == 0; }
static std::string show(const Field& f, P& p)
{
    std::ostringstream o;
    switch (f.kind) {
    case Size: o << *(uint64_t*)f.at(p); break;
    case Int: o << *(int32_t*)f.at(p); break;
    case Real: o << std::setprecision(17) << *(double*)f.at(p); break;
    case Bool: o << (*(bool*)f.at(p) ? "true" : "false"); break;
    }
    return o.str();
}
static uint64_t big(Rng& r)
{
    switch (r.below(8)) {
    case 0: return 0;
    case 1: return UINT32_MAX;
    case 2: return (1ull << 32) + r.below(3);
    case 3: return SIZE_MAX;
    case 4: return r.next();
    case 5: return (uint64_t)INT64_MAX + r.below(3);
    default: return r.below(2000);
    }
}
static double real(Rng& r, bool shortOnly)
{
    switch (r.below(shortOnly ? 4 : 8)) {
    case 0: return 0.0;
    case 1: return 1.0;
    case 2:
    case 3: { // at most six significant digits
        std::ostringstream o;
        o << r.below(1000000) << "e-" << r.below(12);
        return std::stod(o.str());
    }
    case 4: return r.unit() * std::pow(10.0, -(double)r.below(40));
    case 5: return 1.0 - 1e-12 * r.unit();
    default: return r.unit();
    }
}
static void randomise(Rng& r, const Field& f, P& p)
{
    switch (f.kind) {
    case Size: {
        uint64_t x = big(r);
        memcpy(f.at(p), &x, sizeof x);
        break;
    }
    case Int: *(int32_t*)f.at(p) = r.chance(0.1) ? INT32_MIN : r.chance(0.1) ? INT32_MAX : (int32_t)r.below(4001) - 2000; break;
    case Real: *(double*)f.at(p) = real(r, false); break;
    case Bool: *(bool*)f.at(p) = r.chance(0.5); break;
    }
}
static P any(Rng& r)
{
    P p;
    for (auto& f : fields()) randomise(r, f, p);
    return p;
}
static P copyOf(P& p) { return p; }
struct Silent
{
    std::streambuf *o, *e;
    Silent() : o(std::cout.rdbuf(nullptr)), e(std::cerr.rdbuf(nullptr)) {}
    ~Silent()
    {
        std::cout.rdbuf(o);
        std::cerr.rdbuf(e);
        std::cout.clear();
        std::cerr.clear();
    }
};
struct File_
{
    std::string name;
    File_()
    {
        static int nb = 0;
        name = vh::opt().scratch + "/p" + std::to_string(getpid()) + "_" + std::to_string(nb++) + ".json";
    }
    void write(const std::string& s) const { std::ofstream(name) << s; }
    std::string read() const
    {
        std::ifstream in(name);
        return std::string((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
    }
    ~File_() { unlink(name.c_str()); }
};
// --- Round trips.
static void caseRound(Rng& r)
{
    Silent q;
    File_ f;
    P p = any(r), before = copyOf(p), back = r.chance(0.5) ? P() : any(r);
    File::ParametersParser::writeParametersToJson(f.name.c_str(), p);
    for (auto& x : fields()) VH_CHECK(same(x, p, before), "writing changes a parameter", x.name);
    File::ParametersParser::loadParametersFromJson(f.name.c_str(), back);
    for (auto& x : fields()) {
        if (x.kind == Real) {
            double a = *(double*)x.at(p), b = *(double*)x.at(back);
            std::ostringstream o;
            o << std::setprecision(6) << a;
            bool brief = std::stod(o.str()) == a;
            if (brief) VH_CHECK(a == b, std::string("restored: ") + x.name, show(x, back) << " instead of " << show(x, p));
            VH_CHECK(std::fabs(a - b) <= 5.0001e-6 * std::fabs(a), std::string("restored: ") + x.name, show(x, back) << " instead of " << show(x, p));
            vh::count(brief ? "short_fractions" : "long_fractions");
        }
        else {
            VH_CHECK(same(x, p, back), std::string("restored: ") + x.name, show(x, back) << " instead of " << show(x, p));
            if (x.kind == Size && *(uint64_t*)x.at(p) > UINT32_MAX) vh::count("above_32_bits");
        }
        vh::count("parameters_restored");
    }
    std::string first = f.read();
    // From there on, exact.
    P again = any(r);
    File::ParametersParser::writeParametersToJson(f.name.c_str(), back);
    VH_CHECK(f.read() == first, "file written again", "differs");
    File::ParametersParser::loadParametersFromJson(f.name.c_str(), again);
    for (auto& x : fields()) VH_CHECK(same(x, back, again), std::string("restored again: ") + x.name, show(x, again) << " instead of " << show(x, back));
    vh::distinct(gen::hashStr(first));
}
// --- Files that set some of the parameters.
static std::string comment(Rng& r)
{
    switch (r.below(6)) {
    case 0: return "// \"nbRoots\" : 7, // Default value\n";
    case 1: return "/* \"archiveSize\": 3, \"pAdd\": 0.1 */";
    case 2: return "\n\t ";
    default: return " ";
    }
}
static std::string junk(Rng& r)
{
    static const char* names[] = {"unknown", "nbroots", "pAddd", "archive_size", "NbThreads", "tpg2", "Mutation", "nbRoots "};
    std::string n = std::string("\"") + names[r.below(8)] + std::to_string(r.below(100)) + "\" : ";
    switch (r.below(7)) {
    case 0: return n + "12";
    case 1: return n + "\"text\"";
    case 2: return n + "null";
    case 3: return n + "[1, 2.5, {\"nbRoots\" : 3}]";
    case 4: return n + "{\"nbRoots\" : 3, \"pAdd\" : 0.25, \"tpg\" : {\"nbActions\" : 4}}";
    case 5: return n + "-1e300";
    default: return n + "false";
    }
}
struct Made
{
    std::string text;
    std::vector<const Field*> set;
    P values;
};
static std::string literal(const Field& x, P& v)
{
    std::ostringstream o;
    if (x.kind == Real) o << std::setprecision(17) << *(double*)x.at(v);
    else o << show(x, v);
    return "\"" + std::string(x.name) + "\" : " + o.str();
}
static Made make(Rng& r, double density)
{
    Made m;
    m.values = any(r);
    std::map<std::string, std::vector<std::string>> groups;
    for (auto& x : fields())
        if (r.chance(density)) {
            m.set.push_back(&x);
            groups[x.group].push_back(literal(x, m.values));
        }
    for (const char* g : {"", "tpg", "prog"})
        for (size_t n = r.below(3); n > 0; n--) {
            groups[g].push_back(junk(r));
            vh::count("unknown_names");
        }
    auto join = [&](std::vector<std::string> v) {
        for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[r.below(i)]);
        std::string s = "{" + comment(r);
        for (size_t i = 0; i < v.size(); i++) s += comment(r) + v[i] + comment(r) + (i + 1 < v.size() ? "," : "");
        return s + comment(r) + "}";
    };
    std::vector<std::string> mut;
    for (const char* g : {"tpg", "prog"})
        if (!groups[g].empty()) mut.push_back("\"" + std::string(g) + "\" :" + comment(r) + join(groups[g]));
    if (r.chance(0.3)) mut.push_back("\"other\" : {\"pAdd\" : 0.125, \"nbRoots\" : 9}");
    auto top = groups[""];
    if (!mut.empty()) top.push_back("\"mutation\" : " + join(mut));
    m.text = comment(r) + join(top) + comment(r);
    return m;
}
static void caseSubset(Rng& r)
{
    Silent q;
    File_ f;
    Made m = make(r, r.chance(0.2) ? 0.0 : r.chance(0.2) ? 1.0 : r.unit());
    f.write(m.text);
    P p = r.chance(0.5) ? P() : any(r), before = p;
    File::ParametersParser::loadParametersFromJson(f.name.c_str(), p);
    std::set<const Field*> set(m.set.begin(), m.set.end());
    for (auto& x : fields()) {
        if (set.count(&x)) VH_CHECK(same(x, p, m.values), std::string("set by the file: ") + x.name, show(x, p) << " instead of " << show(x, m.values) << "\n" << m.text);
        else VH_CHECK(same(x, p, before), std::string("not set by the file: ") + x.name, show(x, p) << " instead of " << show(x, before) << "\n" << m.text);
        vh::count(set.count(&x) ? "parameters_set" : "parameters_kept");
    }
    vh::distinct(gen::hashStr(m.text));
}
// --- Broken files.
static void caseBroken(Rng& r)
{
    Silent q;
    File_ f;
    Made m = make(r, 0.3 + 0.7 * r.unit());
    std::string t = m.text, what;
    bool mustThrow = false, missing = false;
    switch (r.below(7)) {
    case 0: {
        what = "truncated";
        size_t end = t.rfind('}');
        // The last brace may be one in a comment; cut where the object is certainly open.
        std::string c = "{\"archiveSize\" : 3, \"nbRoots\" : 12, \"zzz\" : " + t;
        t = c.substr(0, c.size() - t.size() + r.below(end + 1));
        break;
    }
    case 1: what = "missing"; missing = mustThrow = true; break;
    case 2: {
        what = "a value that is no value";
        t = "{\"archiveSize\" : 3, \"mutation\" : {\"tpg\" : {\"nbRoots\" : " + std::string(r.chance(0.5) ? "twelve" : "@") + "}}, \"zzz\" : " + t + "}";
        break;
    }
    case 3: {
        what = "no comma";
        t = "{\"archiveSize\" : 3 \"nbThreads\" : 5, \"zzz\" : " + t + "}";
        break;
    }
    case 4: {
        // A value of another type among good ones.
        what = "wrong type";
        auto& x = fields()[r.below(fields().size())];
        std::string bad = x.kind == Bool ? "\"yes\"" : "\"12\"";
        if (x.kind == Size && r.chance(0.3)) bad = "-4";
        if (x.kind == Int && r.chance(0.3)) bad = "1e12";
        std::string e = "\"" + std::string(x.name) + "\" : " + bad;
        std::string g = x.group;
        std::string head = "{\"archiveSize\" : 3, \"nbGenerations\" : 4, \"zzz\" : 1, ";
        if (g.empty()) t = (std::string(x.name) == "archiveSize" || std::string(x.name) == "nbGenerations" ? "{\"doValidation\" : true, " : head) + e + "}";
        else t = head + "\"mutation\" : {\"" + g + "\" : {" + e + "}}}";
        break;
    }
    case 5: {
        what = "not an object";
        static const char* v[] = {"[1, 2]", "12", "\"nbRoots\"", "true", "[{\"nbRoots\" : 5}]"};
        t = v[r.below(5)];
        break;
    }
    default:
        what = "empty";
        t = r.chance(0.5) ? "" : "   \n// nothing\n";
    }
    if (!missing) f.write(t);
    P p = r.chance(0.5) ? P() : any(r), before = p;
    bool thrown = false;
    try {
        File::ParametersParser::loadParametersFromJson(f.name.c_str(), p);
    }
    catch (const std::exception&) {
        thrown = true;
    }
    if (mustThrow) VH_CHECK(thrown, "missing file not reported", f.name);
    for (auto& x : fields())
        VH_CHECK(same(x, p, before), "malformed file changes a parameter: " + what, x.name << ": " << show(x, p) << " instead of " << show(x, before) << "\n" << t);
    vh::count("broken_" + what);
    vh::count(thrown ? "broken_reported" : "broken_ignored");
    vh::distinct(gen::hashStr(t));
}
VH_MAIN({"round", 1, caseRound}, {"subset", 1, caseSubset}, {"broken", 1, caseBroken})
