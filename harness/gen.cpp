#include "gen_lam.hpp"
#include "tpg/tpgAction.h"
#include "tpg/tpgEdge.h"
#include "tpg/tpgTeam.h"

namespace gen {
const std::vector<InstrDesc>& pool()
{
    static const std::vector<InstrDesc> p = []() {
        std::vector<InstrDesc> v;
        pool1(v);
        pool2(v);
        pool3(v);
        return v;
    }();
    return p;
}

std::string Source::describe() const
{
    static const char* k[] = {"Array", "Array2D", "WrapArray", "WrapArray2D", "Pointer"};
    static const char* e[] = {"double", "int", "float", "const"};
    std::ostringstream o;
    o << k[kind] << "<" << e[(int)el] << ">(" << w;
    if (is2D()) o << "x" << h;
    o << ")";
    return o.str();
}

size_t refSpace(const OpT& t, El el, bool is2D, bool isPointer, size_t w, size_t h)
{
    if (t.el != el) return 0;
    if (t.rank == 0) return isPointer ? 1 : w * h;
    if (isPointer) return 0;
    if (!is2D) {
        if (t.rank == 2) return 0;
        return t.w <= w ? w - t.w + 1 : 0;
    }
    if (t.w > w || t.h > h) return 0;
    return (w - t.w + 1) * (h - t.h + 1);
}

std::vector<size_t> refIndices(const OpT& t, bool is2D, size_t w, size_t addr)
{
    std::vector<size_t> r;
    if (t.rank == 0) {
        r.push_back(addr);
        return r;
    }
    if (!is2D) {
        for (size_t i = 0; i < t.w; i++) r.push_back(addr + i);
        return r;
    }
    size_t perRow = w - t.w + 1;
    size_t y = addr / perRow, x = addr % perRow;
    for (size_t dy = 0; dy < t.h; dy++)
        for (size_t dx = 0; dx < t.w; dx++) r.push_back((y + dy) * w + (x + dx));
    return r;
}

std::vector<std::reference_wrapper<const Data::DataHandler>> EnvBundle::handlers() const
{
    std::vector<std::reference_wrapper<const Data::DataHandler>> v;
    for (auto& s : sources) v.push_back(*s->handler);
    return v;
}

size_t EnvBundle::space(const OpT& t, size_t s) const
{
    if (s == 0) return refSpace(t, El::D, false, false, nbRegs, 1);
    if (nbConst > 0) {
        if (s == 1) return refSpace(t, El::C, false, false, nbConst, 1);
        s--;
    }
    const Source& src = *sources.at(s - 1);
    return refSpace(t, src.el, src.is2D(), src.kind == Source::Pointer, src.w, src.h);
}

size_t EnvBundle::largest() const
{
    size_t m = std::max(nbRegs, nbConst);
    for (auto& s : sources) m = std::max(m, s->w * s->h);
    return m;
}
size_t EnvBundle::maxOps() const
{
    size_t m = 0;
    for (int i : usable) m = std::max(m, pool()[i].ops.size());
    return m;
}

void EnvBundle::randomizeData(vh::Rng& r, double special)
{
    for (auto& s : sources)
        for (size_t i = 0; i < s->w * s->h; i++)
            s->set(i, r.chance(0.3) ? (double)r.range(-3, 3) : r.real(special));
}

std::string EnvBundle::describe() const
{
    std::ostringstream o;
    o << "regs=" << nbRegs << " const=" << nbConst << " sources=[";
    for (auto& s : sources) o << s->describe() << " ";
    o << "] instr=[";
    for (int i : usable) o << pool()[i].name << " ";
    o << "]";
    return o.str();
}

std::unique_ptr<EnvBundle> makeEnv(vh::Rng& r, const EnvOptions& o)
{
    for (;;) {
        auto e = std::make_unique<EnvBundle>();
        e->nbRegs = o.minRegs + r.below(o.maxRegs - o.minRegs + 1);
        e->nbConst = (o.maxConst == 0 || r.chance(o.pNoConst)) ? 0 : 1 + r.below(o.maxConst);
        size_t n = 1 + r.below(o.maxSources);
        e->large = r.chance(o.pLarge);
        if (e->large) {
            if (o.maxRegs >= 6 && r.chance(0.5)) e->nbRegs = 10 + r.below(60);
            if (e->nbConst && o.maxConst >= 4 && r.chance(0.5)) e->nbConst = 6 + r.below(40);
            if (o.maxSources >= 3 && r.chance(0.5)) n = 5 + r.below(9);
        }
        for (size_t i = 0; i < n; i++) {
            Source::Kind k = Source::Array;
            El el = El::D;
            if (!(o.forceArray0 && i == 0)) {
                uint64_t x = r.below(10);
                if (o.arrays && x < 3) k = Source::Array2D;
                else if (o.arrays && o.wrappers && x == 3) k = Source::WrapArray2D;
                else if (o.wrappers && x < 6) k = Source::WrapArray;
                else if (o.pointers && x == 6) k = Source::Pointer;
                x = r.below(10);
                if (o.ints && x < 3) el = El::I;
                else if (o.floats && x == 3) el = El::F;
            }
            size_t w = 1 + r.below(o.maxDim), h = 1;
            if (k == Source::Array2D || k == Source::WrapArray2D) h = 1 + r.below(o.maxDim);
            if (k == Source::Pointer) w = 1;
            if (k == Source::Array && r.chance(0.1)) w = 1 + r.below(20);
            if (e->large && o.largeArrays && k != Source::Pointer && r.chance(0.3)) w = 1 + r.below(h > 1 ? 300 : 2000);
            e->sources.push_back(std::make_unique<Source>(k, el, w, h));
        }
        size_t nbPool = pool().size();
        size_t ni = 2 + r.below(7);
        if (e->large && r.chance(0.5)) ni = 9 + r.below(32);
        for (size_t i = 0; i < ni; i++) {
            int c = (int)r.below(nbPool);
            if (r.chance(0.25)) c = (int)r.below(7); // plain scalar ones
            const InstrDesc& d = pool()[c];
            if (o.onlyPrintable && !d.printable) continue;
            if (!o.arrays) {
                bool arr = false;
                for (auto& op : d.ops) arr |= op.rank > 0;
                if (arr) continue;
            }
            e->chosen.push_back(c);
        }
        // What should survive
        for (int c : e->chosen) {
            bool ok = true;
            for (auto& op : pool()[c].ops) {
                bool any = false;
                for (size_t s = 0; s < e->nbSources(); s++) any |= e->space(op, s) > 0;
                ok &= any;
            }
            if (ok) e->usable.push_back(c);
        }
        if (e->usable.size() < 2) continue;
        for (int c : e->chosen) {
            e->instrStore.push_back(pool()[c].make());
            e->set.add(*e->instrStore.back());
        }
        std::streambuf* old = std::cout.rdbuf(nullptr); // "instruction ignored" notices
        try {
            e->env = std::make_unique<Environment>(e->set, e->handlers(), e->nbRegs, e->nbConst);
        }
        catch (...) {
            std::cout.rdbuf(old);
            throw;
        }
        std::cout.rdbuf(old);
        std::cout.clear();
        e->randomizeData(r);
        return e;
    }
}

void randomLine(vh::Rng& r, const EnvBundle& e, Program::Line& l)
{
    size_t ii = r.below(e.usable.size());
    const InstrDesc& d = e.instr(ii);
    l.setInstructionIndex(ii);
    l.setDestinationIndex(r.below(r.chance(0.4) ? std::min<size_t>(3, e.nbRegs) : e.nbRegs));
    for (size_t k = 0; k < e.maxOps(); k++) {
        size_t src;
        if (k < d.ops.size()) {
            std::vector<size_t> ok;
            for (size_t s = 0; s < e.nbSources(); s++)
                if (e.space(d.ops[k], s) > 0) ok.push_back(s);
            // favour registers, so that lines depend on each other
            src = (ok[0] == 0 && r.chance(0.4)) ? 0 : r.pick(ok);
        }
        else
            src = r.below(e.nbSources());
        l.setOperand(k, src, r.below(e.largest()));
    }
}

void fillProgram(vh::Rng& r, const EnvBundle& e, Program::Program& p, size_t nbLines,
                 double specialConst)
{
    for (size_t i = 0; i < nbLines; i++) randomLine(r, e, p.addNewLine());
    for (size_t i = 0; i < e.nbConst; i++) {
        int32_t v = (int32_t)r.range(-100, 100);
        if (r.chance(specialConst))
            v = r.chance(0.5) ? std::numeric_limits<int32_t>::min() : std::numeric_limits<int32_t>::max();
        p.getConstantHandler().setDataAt(typeid(Data::Constant), i, {v});
    }
}

std::shared_ptr<Program::Program> makeProgram(vh::Rng& r, const EnvBundle& e, size_t maxLines,
                                              bool introns)
{
    auto p = std::make_shared<Program::Program>(*e.env);
    fillProgram(r, e, *p, 1 + r.below(maxLines));
    if (introns) p->identifyIntrons();
    return p;
}

double refExecute(const EnvBundle& e, const Program::Program& p,
                  const std::function<bool(size_t)>& skip)
{
    std::vector<double> regs(e.nbRegs, 0.0);
    std::vector<double> consts(e.nbConst, 0.0);
    for (size_t i = 0; i < e.nbConst; i++)
        consts[i] = (double)(int32_t)p.getConstantAt(i);
    for (size_t i = 0; i < p.getNbLines(); i++) {
        if (skip(i)) continue;
        const Program::Line& l = p.getLine(i);
        const InstrDesc& d = e.instr(l.getInstructionIndex());
        Args args;
        for (size_t k = 0; k < d.ops.size(); k++) {
            size_t s = l.getOperand(k).first;
            size_t sp = e.space(d.ops[k], s);
            if (sp == 0) throw std::logic_error("reference: operand type not provided by its source");
            size_t addr = l.getOperand(k).second % sp;
            const std::vector<double>* data;
            bool is2D = false;
            size_t w = 1;
            if (s == 0) {
                data = &regs;
                w = e.nbRegs;
            }
            else if (e.nbConst > 0 && s == 1) {
                data = &consts;
                w = e.nbConst;
            }
            else {
                const Source& src = *e.sources[s - 1 - (e.nbConst > 0 ? 1 : 0)];
                data = &src.shadow;
                is2D = src.is2D();
                w = src.w;
            }
            std::vector<double> vals;
            for (size_t idx : refIndices(d.ops[k], is2D, w, addr)) vals.push_back(data->at(idx));
            args.push_back(vals);
        }
        regs[l.getDestinationIndex()] = d.ref(args);
    }
    return regs[0];
}
double refExecute(const EnvBundle& e, const Program::Program& p)
{
    return refExecute(e, p, [&p](size_t i) { return p.isIntron(i); });
}

std::vector<bool> refDead(const EnvBundle& e, const Program::Program& p)
{
    size_t n = p.getNbLines();
    std::vector<bool> dead(n, true);
    std::vector<bool> live(e.nbRegs, false);
    live[0] = true;
    for (size_t i = n; i-- > 0;) {
        const Program::Line& l = p.getLine(i);
        if (!live[l.getDestinationIndex()]) continue;
        dead[i] = false;
        live[l.getDestinationIndex()] = false;
        const InstrDesc& d = e.instr(l.getInstructionIndex());
        for (size_t k = 0; k < d.ops.size(); k++)
            if (l.getOperand(k).first == 0) {
                size_t addr = l.getOperand(k).second % e.space(d.ops[k], 0);
                for (size_t idx : refIndices(d.ops[k], false, e.nbRegs, addr)) live[idx] = true;
            }
    }
    return dead;
}

std::string text(const Program::Program& p, bool introns)
{
    std::ostringstream o;
    size_t m = p.getEnvironment().getMaxNbOperands();
    for (size_t i = 0; i < p.getNbLines(); i++) {
        const Program::Line& l = p.getLine(i);
        o << (introns && p.isIntron(i) ? "~" : "") << l.getInstructionIndex() << ">"
          << l.getDestinationIndex();
        for (size_t k = 0; k < m; k++)
            o << "," << l.getOperand(k).first << ":" << l.getOperand(k).second;
        o << ";";
    }
    o << "{";
    for (size_t i = 0; i < p.getEnvironment().getNbConstant(); i++)
        o << (int32_t)p.getConstantAt(i) << " ";
    o << "}";
    return o.str();
}

void makeGraph(vh::Rng& r, const EnvBundle& e, TPG::TPGGraph& g, const GraphOptions& o)
{
    size_t nt = 1 + r.below(o.maxTeams), na = 1 + r.below(o.maxActions);
    bool deep = o.pDeep > 0 && r.chance(o.pDeep), wide = o.pWide > 0 && r.chance(o.pWide);
    if (deep) nt += 10 + r.below(30);
    std::vector<const TPG::TPGTeam*> teams;
    std::vector<const TPG::TPGAction*> actions;
    // Vertices in a random creation order
    std::vector<int> order;
    for (size_t i = 0; i < nt; i++) order.push_back(0);
    for (size_t i = 0; i < na; i++) order.push_back(1);
    for (size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[r.below(i)]);
    uint64_t id = r.below(3);
    for (int k : order) {
        if (k == 0) teams.push_back(&g.addNewTeam());
        else {
            actions.push_back(&g.addNewAction(id));
            id += o.uniqueActions ? 1 + r.below(2) : r.below(2);
        }
    }
    struct PD { std::shared_ptr<Program::Program> p; const TPG::TPGVertex* d; };
    std::vector<PD> progs;
    for (size_t i = 0; i < nt; i++) {
        size_t ne = 1 + r.below(o.maxEdges);
        if (wide && r.chance(0.4)) ne += 8 + r.below(40);
        for (size_t k = 0; k < ne; k++) {
            const TPG::TPGVertex* dest;
            if (deep && i + 1 < nt && (k == 0 || r.chance(0.5))) dest = teams[std::min(nt - 1, i + 1 + r.below(3))];
            else if (i + 1 < nt && r.chance(0.5)) dest = teams[i + 1 + r.below(nt - i - 1)];
            else dest = r.pick(actions);
            std::shared_ptr<Program::Program> p;
            if (!progs.empty() && r.chance(0.3)) {
                PD& x = r.pick(progs);
                bool later = !deep || k > 0; // keep the graph acyclic
                for (size_t t = 0; t <= i; t++) later &= x.d != teams[t];
                if (o.shareAnyDest) p = x.p;
                else if (o.shareProgramsSameDest && later) {
                    p = x.p;
                    dest = x.d;
                }
            }
            if (!p) p = makeProgram(r, e, o.maxLines);
            progs.push_back({p, dest});
            g.addNewEdge(*teams[i], *dest, p);
        }
    }
    if (!o.rootActions) {
        // Remove the actions nobody uses.
        for (auto a : actions)
            if (a->getIncomingEdges().empty()) g.removeVertex(*a);
    }
}

double refBid(const EnvBundle& e, const Program::Program& p)
{
    double b = refExecute(e, p);
    return b != b ? -std::numeric_limits<double>::infinity() : b;
}

std::vector<const TPG::TPGVertex*> refPath(const EnvBundle& e, const TPG::TPGVertex& root)
{
    std::vector<const TPG::TPGVertex*> path{&root};
    while (dynamic_cast<const TPG::TPGAction*>(path.back()) == nullptr) {
        const TPG::TPGEdge* best = nullptr;
        double bb = 0;
        for (auto edge : path.back()->getOutgoingEdges()) {
            double b = refBid(e, edge->getProgram());
            if (!best || !(b < bb)) {
                best = edge;
                bb = b;
            }
        }
        path.push_back(best->getDestination());
    }
    return path;
}

std::string graphText(const TPG::TPGGraph& g, bool introns)
{
    std::ostringstream o;
    std::map<const TPG::TPGVertex*, size_t> vid;
    std::map<const Program::Program*, size_t> pid;
    auto vs = g.getVertices();
    for (auto v : vs) vid.emplace(v, vid.size());
    auto label = [&](const TPG::TPGVertex* v) {
        auto it = vid.find(v);
        return it == vid.end() ? std::string("?") : std::to_string(it->second);
    };
    for (auto v : vs) {
        auto a = dynamic_cast<const TPG::TPGAction*>(v);
        o << label(v) << (a ? "=A" + std::to_string(a->getActionID()) : std::string("=T")) << "\n";
        for (auto e : v->getOutgoingEdges()) {
            const Program::Program* p = &e->getProgram();
            bool first = pid.emplace(p, pid.size()).second;
            o << "  ->" << label(e->getDestination()) << " P" << pid[p];
            if (first) o << " " << text(*p, introns);
            o << "\n";
        }
        o << "  <-" << v->getIncomingEdges().size() << "\n";
    }
    o << g.getEdges().size() << " edges\n";
    return o.str();
}
uint64_t hashStr(const std::string& s)
{
    return vh::mixs(0x1234, s);
}

} // namespace gen
