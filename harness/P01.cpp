// P01: executing a program computes exactly what its lines say.
// Oracle: an independent interpreter over shadow data, run on every execution.
#include "gen.hpp"
#include "data/primitiveTypeArray.h"
#include "instructions/lambdaInstruction.h"
#include "program/programExecutionEngine.h"
using namespace gen;
using vh::Rng;
typedef std::vector<std::reference_wrapper<const Data::DataHandler>> Handlers;

static void record(const EnvBundle& e, const Program::Program& p, double v)
{
    size_t live = 0;
    for (size_t i = 0; i < p.getNbLines(); i++) {
        if (p.isIntron(i)) {
            vh::count("lines_dead");
            continue;
        }
        live++;
        const Program::Line& l = p.getLine(i);
        const InstrDesc& d = e.instr(l.getInstructionIndex());
        for (size_t k = 0; k < d.ops.size(); k++) {
            size_t s = l.getOperand(k).first;
            std::string where = s == 0 ? "register" : (e.nbConst && s == 1) ? "constant" : "source";
            if (where == "source") {
                const Source& src = *e.sources[s - 1 - (e.nbConst ? 1 : 0)];
                where = src.is2D() ? "source2D" : (src.kind == Source::Pointer ? "pointer" : "source1D");
            }
            vh::count("operand_" + where + "_rank" + std::to_string(d.ops[k].rank));
            if (l.getOperand(k).second >= e.space(d.ops[k], s)) vh::count("operand_location_wrapped");
        }
    }
    vh::count("lines_executed", live);
    vh::count(v != v ? "result_nan" : std::isinf(v) ? "result_inf" : v == 0 ? "result_zero" : "result_number");
    if (live) vh::distinct(vh::mix(hashStr(text(p)), vh::bits(v)));
}

static void expect(EnvBundle& e, const Program::Program& p, double got, const char* how)
{
    double want = refExecute(e, p);
    vh::count("executions");
    VH_CHECK(vh::same(got, want), std::string("result:") + how,
             "program returns " << got << ", its lines say " << want << "\n"
                                << e.describe() << "\n" << text(p));
    record(e, p, got);
}

static void unitMany(Rng& r)
{
    EnvOptions o;
    auto e = makeEnv(r, o);
    std::vector<std::shared_ptr<Program::Program>> progs;
    size_t n = 1 + r.below(5);
    for (size_t i = 0; i < n; i++) progs.push_back(makeProgram(r, *e, r.chance(0.1) ? 60 : 15, r.chance(0.8)));
    vh::sample(e->describe() + " :: " + text(*progs[0]));
    Program::ProgramExecutionEngine fromEnv(*e->env);
    Program::ProgramExecutionEngine fromProg(*progs[0]);
    // Clones of the sources: equivalent data with its own contents.
    std::vector<std::unique_ptr<Data::DataHandler>> clones;
    Handlers cl;
    bool cloned = false;
    for (int step = 0; step < 12; step++) {
        auto& p = *r.pick(progs);
        switch (r.below(6)) {
        case 0:
            e->randomizeData(r, 0.15);
            [[fallthrough]];
        case 1:
            fromEnv.setProgram(p);
            expect(*e, p, fromEnv.executeProgram(), "engine of the environment");
            break;
        case 2: {
            Program::ProgramExecutionEngine fresh(p);
            expect(*e, p, fresh.executeProgram(), "fresh engine");
            expect(*e, p, fresh.executeProgram(), "second execution");
            break;
        }
        case 3: {
            // back and forth between the live data and a frozen copy of it
            fromProg.setProgram(p);
            fromProg.setDataSources(e->handlers());
            expect(*e, p, fromProg.executeProgram(), "live data");
            double want = refExecute(*e, p);
            clones.clear();
            cl.clear();
            for (auto& s : e->sources) {
                clones.emplace_back(s->handler->clone());
                cl.push_back(*clones.back());
            }
            fromProg.setDataSources(cl);
            cloned = true;
            e->randomizeData(r);
            double got = fromProg.executeProgram();
            VH_CHECK(vh::same(got, want), "result:frozen copy",
                     "on a copy of the data the program returns " << got << " instead of " << want
                     << " after the live data changed\n" << e->describe() << "\n" << text(p));
            vh::count("executions_on_copies");
            fromProg.setDataSources(e->handlers());
            expect(*e, p, fromProg.executeProgram(), "live data again");
            break;
        }
        case 4: {
            std::vector<std::shared_ptr<Program::Program>> copies{std::make_shared<Program::Program>(p)};
            fromEnv.setProgram(*copies[0]);
            expect(*e, p, fromEnv.executeProgram(), "copied program");
            fromEnv.setProgram(p);
            break;
        }
        case 5: {
            // change the constants of the program
            if (e->nbConst) {
                size_t i = r.below(e->nbConst);
                p.getConstantHandler().setDataAt(typeid(Data::Constant), i, {(int32_t)r.range(-9, 9)});
                vh::count("constant_changed");
            }
            fromProg.setProgram(p);
            fromProg.setDataSources(e->handlers());
            double a = fromProg.executeProgram();
            expect(*e, p, a, "after changing constants");
            break;
        }
        }
    }
    (void)cloned;
}

// Executing does not change the data nor the program.
static void unitPure(Rng& r)
{
    auto e = makeEnv(r, EnvOptions());
    auto p = makeProgram(r, *e, 20, r.chance(0.5));
    std::string before = text(*p);
    std::vector<size_t> h;
    for (auto& s : e->sources) h.push_back(s->handler->getHash());
    Program::ProgramExecutionEngine eng(*p);
    double a = eng.executeProgram(), b = eng.executeProgram(true), c = eng.executeProgram();
    VH_CHECK(vh::same(a, b) && vh::same(a, c), "repeat", "repeated executions return " << a << ", " << b << ", " << c
             << "\n" << e->describe() << "\n" << before);
    expect(*e, *p, a, "fresh engine");
    VH_CHECK(text(*p) == before, "program changed", "executing changed the program: " << before << " -> " << text(*p));
    for (size_t i = 0; i < h.size(); i++)
        VH_CHECK(e->sources[i]->handler->getHash() == h[i], "data changed", "executing changed the data of source " << i);
}

// A program whose environment has other data sources is refused.
static void unitRefuse(Rng& r)
{
    auto e1 = makeEnv(r, EnvOptions()), e2 = makeEnv(r, EnvOptions());
    auto p1 = makeProgram(r, *e1), p2 = makeProgram(r, *e2);
    if ((e1->nbConst > 0) != (e2->nbConst > 0)) return;
    Program::ProgramExecutionEngine eng(*p1);
    VH_THROWS(eng.setProgram(*p2), std::runtime_error, "foreign program accepted",
              "an engine accepted a program of an environment with other data sources");
    vh::count("refused");
    eng.setProgram(*p1);
    expect(*e1, *p1, eng.executeProgram(), "after a refused program");
}

// Lines that cannot be read: ignored on request, otherwise reported, without effect on later executions.
static void unitBroken(Rng& r)
{
    auto e = makeEnv(r, EnvOptions());
    auto p = makeProgram(r, *e, 12, r.chance(0.5)), other = makeProgram(r, *e);
    std::vector<bool> broken(p->getNbLines());
    struct Old { size_t line, instr; std::pair<uint64_t, uint64_t> op; };
    std::vector<Old> olds;
    bool any = false;
    for (size_t i = 0; i < p->getNbLines(); i++) {
        if (!r.chance(0.3)) continue;
        auto& l = p->getLine(i);
        olds.push_back({i, l.getInstructionIndex(), l.getOperand(0)});
        bool hasOperand = !e->instr(l.getInstructionIndex()).ops.empty();
        if (hasOperand && r.chance(0.6)) {
            l.setOperand(0, e->nbSources() + r.below(5), l.getOperand(0).second, false);
            vh::count("lines_with_unknown_source");
        }
        else {
            l.setInstructionIndex(e->env->getNbInstructions() + r.below(4), false);
            vh::count("lines_with_unknown_instruction");
        }
        broken[i] = true;
        any |= !p->isIntron(i);
    }
    double want = refExecute(*e, *p, [&](size_t i) { return broken[i] || p->isIntron(i); });
    Program::ProgramExecutionEngine eng(*p);
    for (int k = 0; k < 2; k++) {
        double got = 0;
        bool thrown = false;
        try { got = eng.executeProgram(true); } catch (const std::out_of_range&) { thrown = true; }
        VH_CHECK(!thrown, "unreadable line reported", "an exception although unreadable lines are to be ignored");
        VH_CHECK(vh::same(got, want), "unreadable line ignored", "program returns " << got << ", its readable lines say " << want << "\n" << e->describe());
        thrown = false;
        try { got = eng.executeProgram(); } catch (const std::out_of_range&) { thrown = true; }
        VH_CHECK(thrown == any, "unreadable line", (any ? "an unreadable line was accepted" : "an exception although all live lines are readable"));
        if (!thrown) VH_CHECK(vh::same(got, want), "dead unreadable line", "program returns " << got << " instead of " << want);
        vh::count(any ? "executions_interrupted" : "executions_without_live_unreadable_line");
        eng.setProgram(*other);
        expect(*e, *other, eng.executeProgram(), "after an interrupted execution");
        eng.setProgram(*p);
    }
    for (auto& o : olds) {
        p->getLine(o.line).setInstructionIndex(o.instr);
        p->getLine(o.line).setOperand(0, o.op.first, o.op.second);
    }
    expect(*e, *p, eng.executeProgram(), "after repairing the lines");
    // a program without lines
    Program::Program empty(*e->env);
    Program::ProgramExecutionEngine none(empty);
    double got = none.executeProgram();
    eng.setProgram(empty);
    VH_CHECK(got == 0 && eng.executeProgram() == 0, "empty program", "a program without lines returns " << got);
    vh::count("empty_programs", 2);
}

// Which lines are executed, and in which order, as seen by the instructions themselves.
static void unitTrace(Rng& r)
{
    std::vector<std::pair<double, double>> seen;
    Instructions::Set set;
    Instructions::LambdaInstruction<double, double> a([&](double x, double y) { seen.push_back({x, y}); return x - 2 * y + 1; });
    Instructions::LambdaInstruction<double, double> b([&](double x, double y) { seen.push_back({y, x}); return 3 * y - x; });
    set.add(a);
    set.add(b);
    size_t n = 1 + r.below(6), regs = 1 + r.below(5);
    Data::PrimitiveTypeArray<double> data(n);
    std::vector<double> shadow(n);
    for (size_t i = 0; i < n; i++) data.setDataAt(typeid(double), i, shadow[i] = (double)r.range(-50, 50));
    Environment env(set, {data}, regs);
    Program::Program p(env);
    size_t lines = r.below(12);
    for (size_t i = 0; i < lines; i++) {
        auto& l = p.addNewLine();
        l.setInstructionIndex(r.below(2));
        l.setDestinationIndex(r.below(regs));
        for (int k = 0; k < 2; k++) l.setOperand(k, r.below(2), r.below(std::max(n, regs)));
    }
    if (r.chance(0.8)) p.identifyIntrons();
    std::vector<double> reg(regs, 0);
    std::vector<std::pair<double, double>> want;
    for (size_t i = 0; i < lines; i++) {
        if (p.isIntron(i)) continue;
        auto& l = p.getLine(i);
        double v[2];
        for (int k = 0; k < 2; k++)
            v[k] = l.getOperand(k).first == 0 ? reg[l.getOperand(k).second % regs] : shadow[l.getOperand(k).second % n];
        if (l.getInstructionIndex() == 0) { want.push_back({v[0], v[1]}); reg[l.getDestinationIndex()] = v[0] - 2 * v[1] + 1; }
        else { want.push_back({v[1], v[0]}); reg[l.getDestinationIndex()] = 3 * v[1] - v[0]; }
    }
    Program::ProgramExecutionEngine eng(p);
    for (int k = 0; k < 2; k++) {
        seen.clear();
        double got = eng.executeProgram(k == 1);
        VH_CHECK(seen == want, "lines executed", seen.size() << " calls of instructions where " << want.size()
                 << " lines are not dead, or other operands: " << text(p));
        VH_CHECK(got == reg[0], "result:traced", "program returns " << got << " instead of " << reg[0] << ": " << text(p));
    }
    vh::count("calls_traced", 2 * want.size());
    if (lines && p.isIntron(lines - 1)) vh::count("last_line_dead");
    vh::distinct(vh::mix(hashStr(text(p)), vh::bits(reg[0])));
}

VH_MAIN({"many", 6, unitMany}, {"pure", 2, unitPure}, {"refuse", 1, unitRefuse}, {"broken", 1, unitBroken}, {"trace", 1, unitTrace})
