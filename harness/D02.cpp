// D02: copies of data are isolated and hashes always reflect the current contents.
// Oracle: over a history of operations, (identity, contents) -> hash must be a function, and injective.
#include "vh.hpp"
#include "data/array2DWrapper.h"
#include "data/arrayWrapper.h"
#include "data/pointerWrapper.h"
#include "data/constantHandler.h"
#include "data/primitiveTypeArray.h"
#include "data/primitiveTypeArray2D.h"
#include "archive.h"
using vh::Rng;

template <class T> T val(int64_t d) { return (T)d; }
template <> double val<double>(int64_t d) { return (double)d * 0.75; }
template <> Data::Constant val<Data::Constant>(int64_t d) { return {(int32_t)d}; }
// Zeros of both signs are distinct contents, but may have the same hash.
const int64_t NEGATIVE_ZERO = INT64_MAX, NOT_A_NUMBER = INT64_MIN;
template <class T> int64_t key(const T& t)
{
    if constexpr (std::is_floating_point_v<T>) {
        if (t != t) return NOT_A_NUMBER;
        if (t == 0 && std::signbit(t)) return NEGATIVE_ZERO;
        return (int64_t)(t * 4);
    }
    else
        return (int64_t)t;
}
template <> int64_t key<Data::Constant>(const Data::Constant& t) { return t.value; }

template <class T> struct World
{
    typedef std::vector<T> V;
    enum Kind { ARR, ARR2, WR, WR2, PTR };
    struct Obj
    {
        std::unique_ptr<Data::DataHandler> h;
        Kind k;
        size_t w, hh;
        V shadow;                 // expected contents
        std::shared_ptr<V> store; // of wrappers
        size_t id;
    };
    std::vector<std::unique_ptr<Obj>> objs;
    // hash seen for an identity and contents
    std::map<std::pair<size_t, std::vector<int64_t>>, size_t> byContent;
    std::map<size_t, std::pair<size_t, std::vector<int64_t>>> byHash;
    std::string log;

    V read(const Obj& o)
    {
        V v;
        for (size_t i = 0; i < o.w * o.hh; i++)
            v.push_back(*o.h->getDataAt(typeid(T), i).template getSharedPointer<const T>());
        return v;
    }
    void check(Obj& o, Rng& r, bool force = false)
    {
        V v = read(o);
        bool same = v.size() == o.shadow.size() && (v.empty() || memcmp(v.data(), o.shadow.data(), v.size() * sizeof(T)) == 0);
        VH_CHECK(same, "contents", "contents of a source differ from what was written to it; history: " << log);
        VH_CHECK(o.h->getId() == o.id, "identity", "the identity changed; history: " << log);
        if (!force && r.chance(0.3)) return; // leave the cached hash alone now and then
        size_t hash = o.h->getHash();
        vh::count("hash_observations");
        std::vector<int64_t> k;
        for (auto& x : v) k.push_back(key<T>(x));
        auto kk = std::make_pair(o.id, k);
        auto it = byContent.emplace(kk, hash);
        if (!it.second) vh::count("contents_seen_again");
        VH_CHECK(it.first->second == hash, "hash of equal contents", "hash " << hash << " instead of " << it.first->second
                 << " for the same identity and contents; history: " << log);
        for (auto& x : k)
            if (x == NEGATIVE_ZERO) { x = 0; vh::count("negative_zeros"); }
            else if (x == NOT_A_NUMBER) vh::count("not_a_numbers");
        kk = std::make_pair(o.id, k);
        auto jt = byHash.emplace(hash, kk);
        VH_CHECK(jt.first->second == kk, "hash collision", "hash " << hash << " for two different contents or identities of "
                 << v.size() << " and " << jt.first->second.second.size() << " elements; history: " << log);
        std::unique_ptr<Data::DataHandler> fresh(o.h->clone());
        VH_CHECK(fresh->getHash() == hash, "hash of a clone", "hash " << hash << ", clone " << fresh->getHash() << "; history: "
                 << log);
        VH_CHECK(fresh->getId() == o.id, "identity of a clone", "a clone has another identity");
    }
    Obj& add(std::unique_ptr<Data::DataHandler> h, Kind k, size_t w, size_t hh, V shadow, std::shared_ptr<V> st = nullptr)
    {
        auto o = std::make_unique<Obj>();
        o->id = h->getId();
        o->h = std::move(h);
        o->k = k;
        o->w = w;
        o->hh = hh;
        o->shadow = shadow;
        o->store = st;
        objs.push_back(std::move(o));
        return *objs.back();
    }
    T elt(Rng& r, int alphabet)
    {
        if constexpr (std::is_floating_point_v<T>) {
            if (r.chance(0.07)) return -(T)0;
            if (r.chance(0.04)) return std::numeric_limits<T>::quiet_NaN();
        }
        return val<T>((int64_t)r.below(alphabet) - 1);
    }

    void create(Rng& r, int alphabet)
    {
        size_t w = 1 + r.below(r.chance(0.1) ? 40 : 5), hh = 1 + r.below(4);
        if (r.chance(0.04)) w = 64 * (1 + r.below(2)), hh = 1 + r.below(3);
        Kind k = (Kind)r.below(5);
        if (k == ARR || k == WR) hh = 1;
        if (k == PTR) w = hh = 1;
        auto st = std::make_shared<V>(w * hh, val<T>(0));
        std::unique_ptr<Data::DataHandler> h;
        if (k >= WR)
            for (auto& x : *st) x = elt(r, alphabet);
        switch (k) {
        case ARR: h.reset(new Data::PrimitiveTypeArray<T>(w)); break;
        case ARR2: h.reset(new Data::PrimitiveTypeArray2D<T>(w, hh)); break;
        case WR: h.reset(new Data::ArrayWrapper<T>(w, st.get())); break;
        case WR2: h.reset(new Data::Array2DWrapper<T>(w, hh, st.get())); break;
        case PTR: h.reset(new Data::PointerWrapper<T>(&(*st)[0])); break;
        }
        for (auto& o : objs) VH_CHECK(o->id != h->getId(), "identity reused", "a new source has the identity of another one");
        log += "new" + std::to_string(k) + "(" + std::to_string(w) + "x" + std::to_string(hh) + ") ";
        add(std::move(h), k, w, hh, *st, k >= WR ? st : nullptr);
        if (k < WR) { // fresh arrays are zero-filled only after a reset
            if (k == ARR) ((Data::PrimitiveTypeArray<T>*)objs.back()->h.get())->resetData();
            else ((Data::PrimitiveTypeArray2D<T>*)objs.back()->h.get())->resetData();
        }
    }
    void write(Obj& o, size_t i, T x)
    {
        o.shadow[i] = x;
        if (o.k == ARR) ((Data::PrimitiveTypeArray<T>*)o.h.get())->setDataAt(typeid(T), i, x);
        else if (o.k == ARR2) ((Data::PrimitiveTypeArray2D<T>*)o.h.get())->setDataAt(typeid(T), i, x);
        else {
            (*o.store)[i] = x;
            if (o.k != PTR) ((Data::ArrayWrapper<T>*)o.h.get())->invalidateCachedHash();
        }
    }
    void run(Rng& r, const char* name)
    {
        int alphabet = 2 + (int)r.below(3);
        create(r, alphabet);
        for (int step = 0; step < 40; step++) {
            Obj& o = *r.pick(objs);
            switch (r.below(9)) {
            case 0:
                if (objs.size() < 8) create(r, alphabet);
                break;
            case 1: {
                if (objs.size() >= 10) break;
                auto c = std::unique_ptr<Data::DataHandler>(o.h->clone());
                VH_CHECK(c->getId() == o.id, "identity of a clone", "a clone has another identity");
                Kind k = o.k == WR || o.k == PTR ? ARR : o.k == WR2 ? ARR2 : o.k;
                log += "clone(" + std::to_string(o.k) + ") ";
                add(std::move(c), k, o.w, o.hh, o.shadow);
                vh::count("clones");
                break;
            }
            case 2: {
                if (objs.size() >= 10 || o.k > ARR2) break;
                std::unique_ptr<Data::DataHandler> c;
                if (o.k == ARR) c.reset(new Data::PrimitiveTypeArray<T>(*(Data::PrimitiveTypeArray<T>*)o.h.get()));
                else c.reset(new Data::PrimitiveTypeArray2D<T>(*(Data::PrimitiveTypeArray2D<T>*)o.h.get()));
                log += "copy ";
                add(std::move(c), o.k, o.w, o.hh, o.shadow);
                break;
            }
            case 3:
                if (o.k <= ARR2) {
                    o.h->resetData();
                    o.shadow.assign(o.shadow.size(), val<T>(0));
                    log += "reset ";
                }
                break;
            case 4: {
                // assignment from a source of the same kind
                Obj& p = *r.pick(objs);
                if (p.k != o.k || o.k > ARR2) break;
                bool fits = p.w * p.hh == o.w * o.hh;
                bool threw = false;
                try {
                    if (o.k == ARR)
                        *(Data::PrimitiveTypeArray<T>*)o.h.get() = *(Data::PrimitiveTypeArray<T>*)p.h.get();
                    else
                        *(Data::PrimitiveTypeArray2D<T>*)o.h.get() = *(Data::PrimitiveTypeArray2D<T>*)p.h.get();
                }
                catch (std::domain_error&) {
                    threw = true;
                }
                VH_CHECK(threw == !fits, "assignment", "assignment between sources of " << p.w * p.hh << " and " << o.w * o.hh
                         << " elements " << (threw ? "refused" : "accepted"));
                if (fits) o.shadow = p.shadow;
                log += fits ? "assign " : "badassign ";
                vh::count("assignments");
                break;
            }
            case 5:
                if (o.k >= WR && o.k != PTR && r.chance(0.3)) {
                    // Data of another size is refused.
                    V other(r.chance(0.3) ? 0 : o.shadow.size() + (r.chance(0.5) ? 1 : o.shadow.size() > 1 ? -1 : 2));
                    VH_THROWS(((Data::ArrayWrapper<T>*)o.h.get())->setPointer(&other), std::domain_error, "pointer to data of another size",
                              other.size() << " instead of " << o.shadow.size() << " elements accepted; history: " << log);
                    log += "badPointer ";
                    vh::count("pointers_refused");
                    check(o, r, true);
                }
                if (o.k >= WR && r.chance(0.2)) {
                    // Detached for a while.
                    auto set = [&](bool on) {
                        if (o.k == PTR) ((Data::PointerWrapper<T>*)o.h.get())->setPointer(on ? &(*o.store)[0] : nullptr);
                        else ((Data::ArrayWrapper<T>*)o.h.get())->setPointer(on ? o.store.get() : nullptr);
                    };
                    set(false);
                    size_t h = o.h->getHash();
                    std::unique_ptr<Data::DataHandler> c(o.h->clone());
                    VH_CHECK(c->getId() == o.id, "identity of a clone", "a clone of a detached source has another identity");
                    Obj zero;
                    zero.h = std::move(c);
                    zero.id = o.id;
                    zero.k = o.k == WR2 ? ARR2 : ARR;
                    zero.w = o.w;
                    zero.hh = o.hh;
                    zero.shadow.assign(o.shadow.size(), val<T>(0));
                    check(zero, r, true);
                    VH_CHECK(o.h->getHash() == h, "hash of a detached source", "changes by itself; history: " << log);
                    if (r.chance(0.5)) o.h->resetData(); // must not touch anything
                    set(true);
                    log += "detach ";
                    vh::count("detached");
                    check(o, r, true);
                }
                if (o.k >= WR && r.chance(0.15)) {
                    // Resetting a wrapper leaves the data alone.
                    o.h->resetData();
                    log += "resetWrapper ";
                    VH_CHECK(memcmp(o.store->data(), o.shadow.data(), o.shadow.size() * sizeof(T)) == 0, "reset of a wrapper", "wrapped data changed; history: " << log);
                    check(o, r, true);
                }
                if (o.k >= WR) {
                    auto st = std::make_shared<V>(o.shadow.size());
                    for (auto& x : *st) x = elt(r, alphabet);
                    if (o.k == PTR) ((Data::PointerWrapper<T>*)o.h.get())->setPointer(&(*st)[0]);
                    else ((Data::ArrayWrapper<T>*)o.h.get())->setPointer(st.get());
                    o.store = st;
                    o.shadow = *st;
                    log += "setPointer ";
                }
                break;
            case 6: {
                // swap two elements
                size_t i = r.below(o.shadow.size()), j = r.below(o.shadow.size());
                if (r.chance(0.3) && o.shadow.size() > 64) j = (i + 64) % o.shadow.size();
                T a = o.shadow[i], b = o.shadow[j];
                write(o, i, b);
                write(o, j, a);
                log += "swap ";
                break;
            }
            case 7: {
                T x = elt(r, alphabet);
                for (size_t i = 0; i < o.shadow.size(); i++) write(o, i, x);
                log += "fill ";
                break;
            }
            default: {
                size_t i = r.below(o.shadow.size());
                write(o, i, elt(r, alphabet));
                log += "set ";
            }
            }
            if (r.chance(0.4)) check(o, r);
            else check(*r.pick(objs), r);
            vh::count("operations");
        }
        for (auto& o : objs) check(*o, r, true);
        // every source still alive after the others are gone
        while (objs.size() > 1) {
            objs.erase(objs.begin() + r.below(objs.size()));
            check(*r.pick(objs), r, true);
        }
        vh::distinct(vh::mixs(vh::mixs(1, name), log));
        vh::sample(std::string(name) + ": " + log);
    }
};

static void unitHistory(Rng& r)
{
    switch (r.below(5)) {
    case 0: World<double>().run(r, "double"); break;
    case 1: World<int>().run(r, "int"); break;
    case 2: World<float>().run(r, "float"); break;
    case 3: World<unsigned char>().run(r, "unsigned char"); break;
    default: World<Data::Constant>().run(r, "Constant"); break;
    }
}
VH_MAIN({"history", 1, unitHistory})
