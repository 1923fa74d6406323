// D01: data sources serve exactly the addressable data of each type.
// Oracle: shapes and contents kept by the harness; every (type, address) of a source is read.
#include "vh.hpp"
#include "data/array2DWrapper.h"
#include "data/arrayWrapper.h"
#include "data/constantHandler.h"
#include "data/pointerWrapper.h"
#include "data/primitiveTypeArray.h"
#include "data/primitiveTypeArray2D.h"
using vh::Rng;

struct Shape
{
    const std::type_info* ti;
    int rank;
    size_t h, w;
    std::string name;
};
#define SH(T, r, hh, ww, x) Shape{&typeid(x), r, hh, ww, #x}

template <class T> std::vector<Shape> shapes()
{
    return {SH(T, 0, 1, 1, T), SH(T, 1, 1, 1, T[1]), SH(T, 1, 1, 2, T[2]), SH(T, 1, 1, 3, const T[3]), SH(T, 1, 1, 5, T[5]),
            SH(T, 1, 1, 12, const T[12]), SH(T, 2, 1, 1, T[1][1]), SH(T, 2, 1, 3, T[1][3]), SH(T, 2, 2, 1, const T[2][1]),
            SH(T, 2, 2, 2, T[2][2]), SH(T, 2, 2, 3, const T[2][3]), SH(T, 2, 3, 2, T[3][2]), SH(T, 2, 4, 4, const T[4][4]),
            SH(T, 2, 10, 10, T[10][10])};
}
template <class T> T val(double d) { return (T)d; }
template <> Data::Constant val<Data::Constant>(double d) { return {(int32_t)d}; }
template <class T> bool eq(const T& a, const T& b) { return a == b; }

enum Kind { ARR, ARR2, WR, WR2, PTR, CST };

static size_t space(const Shape& t, Kind k, size_t w, size_t h)
{
    if (t.rank == 0) return w * h;
    if (k == PTR) return 0;
    if (k == ARR || k == WR || k == CST) return t.rank == 1 && t.w <= w ? w - t.w + 1 : 0;
    return t.w <= w && t.h <= h ? (w - t.w + 1) * (h - t.h + 1) : 0;
}

template <class T> static void walk(const Data::DataHandler& d, Kind k, size_t w, size_t h, const std::vector<T>& content,
                                    bool isNull, Rng& r, const char* tname)
{
    struct Other { int x; };
    std::string what = std::string(tname) + " kind " + std::to_string(k) + " " + std::to_string(w) + "x" + std::to_string(h);
    VH_CHECK(d.getLargestAddressSpace() == w * h, "largest", "largest address space " << d.getLargestAddressSpace() << " of "
             << what);
    if (k != CST) { // what code generators ask
        std::vector<size_t> dims = d.getDimensionsSize();
        std::vector<size_t> wantDims = k == ARR2 || k == WR2 ? std::vector<size_t>{h, w} : std::vector<size_t>{w};
        VH_CHECK(dims == wantDims, "dimensions", "other dimensions than those of " << what);
        VH_CHECK(d.getNativeType() == typeid(T), "native type", "another native type than that of " << what);
    }
    // Rows and blocks are copies: they stay as read whatever is read next.
    std::vector<std::pair<std::shared_ptr<const T>, std::vector<size_t>>> earlier;
    auto ss = shapes<T>();
    // in any order: answers are cached by the sources
    for (size_t i = ss.size(); i > 1; i--) std::swap(ss[i - 1], ss[r.below(i)]);
    for (auto& t : ss) {
        size_t sp = space(t, k, w, h);
        std::string wh = t.name + " (T=" + tname + ") in " + what;
        for (int again = 0; again < 2; again++) {
            bool first = r.chance(0.5);
            if (first) VH_CHECK(d.canHandle(*t.ti) == (sp > 0), "canHandle", "canHandle is " << d.canHandle(*t.ti) << " for " << wh);
            VH_CHECK(d.getAddressSpace(*t.ti) == sp, "space", "address space " << d.getAddressSpace(*t.ti) << " instead of "
                     << sp << " for " << wh);
            VH_CHECK(d.canHandle(*t.ti) == (sp > 0), "canHandle", "canHandle is " << d.canHandle(*t.ti) << " for " << wh);
        }
        vh::count(sp ? "types_provided" : "types_refused");
        vh::distinct(vh::mixs(vh::mixs(7, wh), ""));
        if (sp)
            for (int i = 0; i < 4; i++) {
                uint64_t raw = r.chance(0.3) ? r.next() : r.below(3 * sp + 2);
                uint64_t s = d.scaleLocation(raw, *t.ti);
                VH_CHECK(s < sp && (raw >= sp || s == raw), "scale", "location " << raw << " scaled to " << s << ", space " << sp
                         << " for " << wh);
            }
        // Every address, and some beyond
        std::vector<size_t> addr;
        for (size_t a = 0; a < sp + 3; a++) addr.push_back(a);
        addr.push_back(w * h);
        addr.push_back(1000000);
        for (size_t a : addr) {
            bool ok = a < sp;
            auto acc = d.getAddressesAccessed(*t.ti, a);
            std::vector<size_t> want;
            if (ok) {
                if (t.rank == 0) want = {a};
                else if (k == ARR2 || k == WR2) {
                    size_t per = w - t.w + 1;
                    for (size_t y = 0; y < t.h; y++)
                        for (size_t x = 0; x < t.w; x++) want.push_back((a / per + y) * w + a % per + x);
                }
                else
                    for (size_t x = 0; x < t.w; x++) want.push_back(a + x);
            }
            VH_CHECK(acc == want, "addresses", "addresses accessed at " << a << " differ for " << wh);
            if (isNull) {
                VH_THROWS(d.getDataAt(*t.ti, a), std::exception, "null read", "a read without data succeeds: " << wh);
                vh::count("null_reads_refused");
                continue;
            }
            if (!ok) {
                VH_THROWS(d.getDataAt(*t.ti, a), std::exception, "bad read",
                          "a read at " << a << " succeeds, address space " << sp << ": " << wh);
                vh::count("reads_refused");
                continue;
            }
            auto u = d.getDataAt(*t.ti, a);
            vh::count(t.rank == 0 ? "reads_scalar" : t.rank == 1 ? "reads_row" : "reads_block");
            if (t.rank == 0) {
                auto p = u.template getSharedPointer<const T>();
                if (r.chance(0.05)) {
                    VH_THROWS(u.template getSharedPointer<const Other>(), std::runtime_error, "value of another type", "a value of another type is served by " << wh);
                    VH_THROWS(u.template getSharedPointer<const T[]>(), std::runtime_error, "value of another type", "a scalar is served as an array by " << wh);
                    vh::count("conversions_refused");
                }
                VH_CHECK(eq(*p, content[a]), "value", "wrong value at " << a << " of " << wh);
            }
            else {
                auto p = u.template getSharedPointer<const T[]>();
                if (r.chance(0.05)) {
                    VH_THROWS(u.template getSharedPointer<const Other[]>(), std::runtime_error, "value of another type", "a value of another type is served by " << wh);
                    VH_THROWS(u.template getSharedPointer<const T>(), std::runtime_error, "value of another type", "an array is served as a scalar by " << wh);
                    vh::count("conversions_refused");
                }
                if (earlier.size() < 20) earlier.push_back({std::shared_ptr<const T>(p, &p.get()[0]), want});
                else if (r.chance(0.1)) earlier[r.below(20)] = {std::shared_ptr<const T>(p, &p.get()[0]), want};
                for (size_t i = 0; i < want.size(); i++)
                    VH_CHECK(eq((&p.get()[0])[i], content[want[i]]), "value", "wrong element " << i << " at " << a << " of " << wh);
            }
        }
    }
    for (auto& x : earlier) {
        for (size_t i = 0; i < x.second.size(); i++)
            VH_CHECK(eq(x.first.get()[i], content[x.second[i]]), "earlier value", "values read earlier changed in " << what);
        vh::count("earlier_reads_checked");
    }
    // A type of another family
    VH_CHECK(!d.canHandle(typeid(Other)) && d.getAddressSpace(typeid(Other)) == 0, "foreign type", "a foreign type is declared in "
             << what);
    VH_CHECK(!d.canHandle(typeid(std::string)) && !d.canHandle(typeid(T*)) && !d.canHandle(typeid(unsigned short[2])),
             "foreign type", "a foreign type is declared in " << what);
    if (!isNull)
        VH_THROWS(d.getDataAt(typeid(Other), 0), std::exception, "foreign read", "a foreign type is read in " << what);
}

template <class T> static void kinds(Rng& r, const char* name)
{
    size_t w = 1 + r.below(r.chance(0.15) ? 40 : 13), h = 1 + r.below(r.chance(0.1) ? 20 : 6);
    Kind k = (Kind)r.below(5);
    if (k == ARR || k == WR) h = 1;
    if (k == PTR) w = h = 1;
    std::vector<T> c(w * h);
    for (auto& x : c) x = val<T>((double)r.below(100));
    bool isNull = false;
    std::unique_ptr<Data::DataHandler> d;
    std::vector<T> store(c);
    switch (k) {
    case ARR: {
        auto p = new Data::PrimitiveTypeArray<T>(w);
        d.reset(p);
        for (size_t i = 0; i < c.size(); i++) p->setDataAt(typeid(T), i, c[i]);
        break;
    }
    case ARR2: {
        auto p = new Data::PrimitiveTypeArray2D<T>(w, h);
        d.reset(p);
        for (size_t i = 0; i < c.size(); i++) p->setDataAt(typeid(T), i, c[i]);
        VH_THROWS(p->setDataAt(typeid(T), w * h, c[0]), std::exception, "bad write", "a write beyond the end succeeds");
        break;
    }
    case WR:
        isNull = r.chance(0.15);
        d.reset(new Data::ArrayWrapper<T>(w, isNull ? nullptr : &store));
        break;
    case WR2:
        isNull = r.chance(0.15);
        d.reset(new Data::Array2DWrapper<T>(w, h, isNull ? nullptr : &store));
        break;
    default:
        isNull = r.chance(0.15);
        d.reset(new Data::PointerWrapper<T>(isNull ? nullptr : &store[0]));
    }
    vh::sample(std::string(name) + " kind " + std::to_string(k) + " " + std::to_string(w) + "x" + std::to_string(h));
    walk<T>(*d, k, w, h, c, isNull, r, name);
    if (!isNull && k >= WR) {
        // live view: what is read follows the wrapped data
        for (auto& x : store) x = val<T>((double)r.below(100));
        walk<T>(*d, k, w, h, store, false, r, name);
    }
    if (r.chance(0.5)) {
        std::unique_ptr<Data::DataHandler> cl(d->clone());
        std::vector<T> z(w * h, val<T>(0));
        walk<T>(*cl, k == PTR ? ARR : k, w, h, isNull ? z : k >= WR ? store : c, false, r, name);
        vh::count("clones_read");
    }
}

static void unitAll(Rng& r)
{
    switch (r.below(7)) {
    case 0: kinds<double>(r, "double"); break;
    case 1: kinds<int>(r, "int"); break;
    case 2: kinds<float>(r, "float"); break;
    case 3: kinds<unsigned char>(r, "unsigned char"); break;
    case 4: kinds<long>(r, "long"); break;
    case 5: kinds<unsigned int>(r, "unsigned int"); break;
    default: kinds<Data::Constant>(r, "Constant");
    }
}
static void unitConst(Rng& r)
{
    size_t n = 1 + r.below(8);
    Data::ConstantHandler c(n);
    std::vector<Data::Constant> v(n);
    for (size_t i = 0; i < n; i++) {
        v[i] = {(int32_t)r.next()};
        c.setDataAt(typeid(Data::Constant), i, v[i]);
    }
    walk<Data::Constant>(c, CST, n, 1, v, false, r, "Constant");
    Data::ConstantHandler d(c);
    walk<Data::Constant>(d, CST, n, 1, v, false, r, "Constant");
}
VH_MAIN({"all", 6, unitAll}, {"const", 1, unitConst})
