// Helpers to describe instructions.
#ifndef GEN_LAM_HPP
#define GEN_LAM_HPP
#include "gen.hpp"
#include "instructions/addPrimitiveType.h"
#include "instructions/lambdaInstruction.h"
#include "instructions/multByConstant.h"

namespace gen {
using Args = std::vector<std::vector<double>>;
using Data::Constant;
template <class T> struct ElOf;
template <> struct ElOf<double> { static const El el = El::D; };
template <> struct ElOf<int> { static const El el = El::I; };
template <> struct ElOf<float> { static const El el = El::F; };
template <> struct ElOf<Constant> { static const El el = El::C; };

template <class T> OpT opt_()
{
    OpT o;
    o.ti = &typeid(T);
    if constexpr (std::is_array<T>::value) {
        using R = std::remove_extent_t<T>;
        o.el = ElOf<std::remove_const_t<std::remove_all_extents_t<T>>>::el;
        if constexpr (std::is_array<R>::value) {
            o.rank = 2;
            o.h = std::extent_v<T, 0>;
            o.w = std::extent_v<T, 1>;
        }
        else {
            o.rank = 1;
            o.h = 1;
            o.w = std::extent_v<T, 0>;
        }
    }
    else
        o.el = ElOf<std::remove_const_t<T>>::el;
    return o;
}

template <class T> struct Id { using type = T; };
template <class... Ts>
InstrDesc lam(const std::string& name, typename Id<std::function<double(Ts...)>>::type f,
              std::function<double(const Args&)> ref, const std::string& tmpl)
{
    InstrDesc d;
    d.name = name;
    d.ops = {opt_<Ts>()...};
    d.ref = ref;
    d.printable = !tmpl.empty();
    d.make = [f, tmpl]() -> std::unique_ptr<Instructions::Instruction> {
        return std::make_unique<Instructions::LambdaInstruction<Ts...>>(f, tmpl);
    };
    return d;
}

void pool1(std::vector<InstrDesc>& v);
void pool2(std::vector<InstrDesc>& v);
void pool3(std::vector<InstrDesc>& v);
} // namespace gen
#endif
