#include "gen_lam.hpp"
namespace gen {
void pool1(std::vector<InstrDesc>& v)
{
    v.push_back(lam<double, double>(
        "sub", [](double a, double b) { return a - b; },
        [](const Args& x) { return x[0][0] - x[1][0]; }, "$0 = $1 - $2;"));
    {
        InstrDesc d;
        d.name = "add";
        d.ops = {opt_<double>(), opt_<double>()};
        d.ref = [](const Args& x) { return x[0][0] + x[1][0]; };
        d.make = []() -> std::unique_ptr<Instructions::Instruction> {
            return std::make_unique<Instructions::AddPrimitiveType<double>>("$0 = $1 + $2;");
        };
        d.printable = true;
        v.push_back(d);
    }
    v.push_back(lam<double, double>(
        "mul", [](double a, double b) { return a * b; },
        [](const Args& x) { return x[0][0] * x[1][0]; }, "$0 = $1 * $2;"));
    v.push_back(lam<double, double>(
        "div", [](double a, double b) { return a / b; },
        [](const Args& x) { return x[0][0] / x[1][0]; }, "$0 = $1 / $2;"));
    v.push_back(lam<double, double>(
        "lt", [](double a, double b) { return a < b ? -a : b * 0.5; },
        [](const Args& x) { return x[0][0] < x[1][0] ? -x[0][0] : x[1][0] * 0.5; },
        "$0 = ($1 < $2) ? -($1) : ($2) * 0.5;"));
    v.push_back(lam<double>(
        "neg1", [](double a) { return 1.25 - a; },
        [](const Args& x) { return 1.25 - x[0][0]; }, "$0 = 1.25 - $1;"));
    v.push_back(lam<double, double, double>(
        "fma3", [](double a, double b, double c) { return a < 0 ? b - c : c * 2 + a; },
        [](const Args& x) { return x[0][0] < 0 ? x[1][0] - x[2][0] : x[2][0] * 2 + x[0][0]; },
        "$0 = ($1 < 0) ? $2 - $3 : $3 * 2 + $1;"));
    {
        InstrDesc d;
        d.name = "multc";
        d.ops = {opt_<double>(), opt_<Constant>()};
        d.ref = [](const Args& x) { return x[0][0] * x[1][0]; };
        d.make = []() -> std::unique_ptr<Instructions::Instruction> {
            return std::make_unique<Instructions::MultByConstant<double>>("$0 = $1 * $2;");
        };
        d.printable = true;
        v.push_back(d);
    }
}
} // namespace gen
