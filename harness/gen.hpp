// Generators of environments, programs and graphs, with independent reference
// models of their semantics.
#ifndef GEN_HPP
#define GEN_HPP
#include "vh.hpp"

#include "data/array2DWrapper.h"
#include "data/arrayWrapper.h"
#include "data/constantHandler.h"
#include "data/pointerWrapper.h"
#include "data/primitiveTypeArray.h"
#include "data/primitiveTypeArray2D.h"
#include "environment.h"
#include "instructions/set.h"
#include "program/program.h"
#include "tpg/tpgGraph.h"

namespace gen {

enum class El { D, I, F, C }; // double, int, float, Data::Constant

// Type of an operand: scalar (rank 0), row (rank 1) or block (rank 2).
struct OpT
{
    El el;
    int rank = 0;
    size_t h = 0, w = 0;
    const std::type_info* ti = nullptr;
};

struct InstrDesc
{
    std::string name;
    std::vector<OpT> ops;
    // Reference semantics: one flattened vector of values per operand.
    std::function<double(const std::vector<std::vector<double>>&)> ref;
    std::function<std::unique_ptr<Instructions::Instruction>()> make;
    bool printable = false;
};
// All the instructions of the pool (fixed order).
const std::vector<InstrDesc>& pool();

// A data source, with a shadow copy of its contents kept by the harness.
struct Source
{
    enum Kind { Array, Array2D, WrapArray, WrapArray2D, Pointer } kind;
    El el;
    size_t w = 1, h = 1; // 1-D: w elements
    bool is2D() const { return kind == Array2D || kind == WrapArray2D; }
    std::vector<double> shadow;
    std::unique_ptr<Data::DataHandler> handler;
    // Backing stores of wrappers.
    std::vector<double> bd;
    std::vector<int> bi;
    std::vector<float> bf;

    Source(Kind k, El e, size_t w, size_t h);
    Source(const Source&) = delete;
    void set(size_t i, double v); // write through the public interface
    std::string describe() const;
};

// Positions at which an operand type fits in a source of given shape.
size_t refSpace(const OpT& t, El el, bool is2D, bool isPointer, size_t w, size_t h);
// Indices read for a type at an address.
std::vector<size_t> refIndices(const OpT& t, bool is2D, size_t w, size_t addr);

struct EnvOptions
{
    size_t maxSources = 4, maxRegs = 9, maxConst = 5;
    bool arrays = true;     // array operands and 2-D sources
    bool onlyPrintable = false;
    bool ints = true, floats = true, pointers = true, wrappers = true;
    size_t maxDim = 7;
    double pNoConst = 0.4;
    size_t minRegs = 1;
    bool forceArray0 = false; // first source a plain array of doubles
    double pLarge = 0.05;     // many instructions, registers, constants or sources; long arrays
    bool largeArrays = true;
};

struct EnvBundle
{
    std::vector<std::unique_ptr<Source>> sources;
    std::vector<std::unique_ptr<Instructions::Instruction>> instrStore;
    std::vector<int> chosen;  // pool indices given to the set, in order
    std::vector<int> usable;  // pool indices expected to survive filtering
    Instructions::Set set;
    size_t nbRegs, nbConst;
    bool large = false;
    std::unique_ptr<Environment> env;

    std::vector<std::reference_wrapper<const Data::DataHandler>> handlers() const;
    // Address space of operand type t in data source index s (0 = registers,
    // then constants if any, then the sources), by the reference model.
    size_t space(const OpT& t, size_t s) const;
    size_t nbSources() const { return sources.size() + (nbConst > 0 ? 2 : 1); }
    size_t largest() const;
    size_t maxOps() const;
    const InstrDesc& instr(size_t idx) const { return pool()[usable[idx]]; }
    void randomizeData(vh::Rng& r, double special = 0.1);
    std::string describe() const;
};
std::unique_ptr<EnvBundle> makeEnv(vh::Rng& r, const EnvOptions& o = EnvOptions());

// Fill a program with random valid lines.
void fillProgram(vh::Rng& r, const EnvBundle& e, Program::Program& p,
                 size_t nbLines, double specialConst = 0.1);
void randomLine(vh::Rng& r, const EnvBundle& e, Program::Line& l);
std::shared_ptr<Program::Program> makeProgram(vh::Rng& r, const EnvBundle& e,
                                              size_t maxLines = 12,
                                              bool introns = true);

// Independent interpreter. `skip` says whether a line is not executed.
double refExecute(const EnvBundle& e, const Program::Program& p,
                  const std::function<bool(size_t)>& skip);
// Same, skipping lines marked as introns by the library.
double refExecute(const EnvBundle& e, const Program::Program& p);
// Independent liveness: true = dead line.
std::vector<bool> refDead(const EnvBundle& e, const Program::Program& p);

// Text of a program (all fields, constants, optionally intron marks).
std::string text(const Program::Program& p, bool introns = true);

// Random acyclic graph. Teams have at least one outgoing edge.
struct GraphOptions
{
    size_t maxTeams = 8, maxActions = 5, maxEdges = 5, maxLines = 10;
    bool shareProgramsSameDest = true, shareAnyDest = false;
    bool rootActions = false;
    bool uniqueActions = true;
    double pDeep = 0; // long chains of teams
    double pWide = 0; // teams of many edges
};
void makeGraph(vh::Rng& r, const EnvBundle& e, TPG::TPGGraph& g,
               const GraphOptions& o = GraphOptions());

// Reference bid of an edge (NaN -> -inf).
double refBid(const EnvBundle& e, const Program::Program& p);
// Reference path from a root.
std::vector<const TPG::TPGVertex*> refPath(const EnvBundle& e, const TPG::TPGVertex& root);

// Canonical text of a graph: vertices in order, outgoing edges in order, with
// program text; `progIds` numbers programs by first use to show sharing.
std::string graphText(const TPG::TPGGraph& g, bool introns = true);
uint64_t hashStr(const std::string& s);

} // namespace gen
#endif
