#include "gen.hpp"
namespace gen {
Source::Source(Kind k, El e, size_t w_, size_t h_) : kind(k), el(e), w(w_), h(h_)
{
    size_t n = w * h;
    shadow.assign(n, 0.0);
    auto mk = [&](auto zero, auto& store) {
        using T = decltype(zero);
        store.assign(n, T(0));
        switch (kind) {
        case Array: handler = std::make_unique<Data::PrimitiveTypeArray<T>>(n); break;
        case Array2D: handler = std::make_unique<Data::PrimitiveTypeArray2D<T>>(w, h); break;
        case WrapArray: handler = std::make_unique<Data::ArrayWrapper<T>>(n, &store); break;
        case WrapArray2D: handler = std::make_unique<Data::Array2DWrapper<T>>(w, h, &store); break;
        case Pointer: handler = std::make_unique<Data::PointerWrapper<T>>(&store[0]); break;
        }
    };
    if (el == El::D) mk(0.0, bd);
    else if (el == El::I) mk(0, bi);
    else mk(0.0f, bf);
}

void Source::set(size_t i, double v)
{
    auto put = [&](auto zero, auto& store) {
        using T = decltype(zero);
        T x = (T)v;
        shadow[i] = (double)x;
        switch (kind) {
        case Array:
            ((Data::PrimitiveTypeArray<T>*)handler.get())->setDataAt(typeid(T), i, x);
            break;
        case Array2D:
            ((Data::PrimitiveTypeArray2D<T>*)handler.get())->setDataAt(typeid(T), i, x);
            break;
        case WrapArray:
        case WrapArray2D:
            store[i] = x;
            ((Data::ArrayWrapper<T>*)handler.get())->invalidateCachedHash();
            break;
        case Pointer: store[0] = x; break;
        }
    };
    if (el == El::D) put(0.0, bd);
    else if (el == El::I) {
        if (!(v > -1e6 && v < 1e6)) v = std::isnan(v) ? 7 : (v > 0 ? 1000003 : -1000003);
        put(0, bi);
    }
    else {
        if (std::isfinite(v) && std::fabs(v) > 1e30) v = 12.5;
        put(0.0f, bf);
    }
}

} // namespace gen
