#include "gen_lam.hpp"
namespace gen {
void pool3(std::vector<InstrDesc>& v)
{    v.push_back(lam<const int[2][3]>(
        "blk23",
        [](const int a[2][3]) {
            return (double)a[0][0] - 3.0 * a[0][1] + 5.0 * a[0][2] + 0.5 * a[1][0] - 7.0 * a[1][1] + 11.0 * a[1][2];
        },
        [](const Args& x) {
            return x[0][0] - 3.0 * x[0][1] + 5.0 * x[0][2] + 0.5 * x[0][3] - 7.0 * x[0][4] + 11.0 * x[0][5];
        },
        "$0 = (double)$1[0][0] - 3.0 * $1[0][1] + 5.0 * $1[0][2] + 0.5 * $1[1][0] - 7.0 * $1[1][1] + 11.0 * $1[1][2];"));
    v.push_back(lam<double, const int[3]>(
        "irow3", [](double d, const int a[3]) { return d + a[0] - 2.0 * a[1] + 4.0 * a[2]; },
        [](const Args& x) { return x[0][0] + x[1][0] - 2.0 * x[1][1] + 4.0 * x[1][2]; },
        "$0 = $1 + $2[0] - 2.0 * $2[1] + 4.0 * $2[2];"));
    // Not printable from here on.
    v.push_back(lam<float, double>(
        "fadd", [](float a, double b) { return (double)a - b; },
        [](const Args& x) { return x[0][0] - x[1][0]; }, "$0 = (double)($1) - $2;"));
    v.push_back(lam<const float[2]>(
        "frow", [](const float a[2]) { return (double)a[0] * 2 - (double)a[1]; },
        [](const Args& x) { return x[0][0] * 2 - x[0][1]; }, "$0 = (double)$1[0] * 2 - (double)$1[1];"));
    v.push_back(lam<const Constant[2]>(
        "crow", [](const Constant a[2]) { return (double)a[0].value * 3 - (double)a[1].value; },
        [](const Args& x) { return x[0][0] * 3 - x[0][1]; }, "$0 = (double)$1[0] * 3 - (double)$1[1];"));
    v.push_back(lam<const double[12]>(
        "row12", [](const double a[12]) { return a[0] - a[11] + 2 * a[5]; },
        [](const Args& x) { return x[0][0] - x[0][11] + 2 * x[0][5]; }, "$0 = $1[0] - $1[11] + 2 * $1[5];"));
    v.push_back(lam<const double[3][1], double>(
        "col3", [](const double a[3][1], double b) { return a[0][0] - b * a[1][0] + 2 * a[2][0]; },
        [](const Args& x) { return x[0][0] - x[1][0] * x[0][1] + 2 * x[0][2]; },
        "$0 = $1[0][0] - $2 * $1[1][0] + 2 * $1[2][0];"));
    {
        InstrDesc d;
        d.name = "iadd";
        d.ops = {opt_<int>(), opt_<int>()};
        d.ref = [](const Args& x) { return x[0][0] + x[1][0]; };
        d.make = []() -> std::unique_ptr<Instructions::Instruction> {
            return std::make_unique<Instructions::AddPrimitiveType<int>>();
        };
        v.push_back(d);
    }
    {
        InstrDesc d;
        d.name = "imultc";
        d.ops = {opt_<int>(), opt_<Constant>()};
        d.ref = [](const Args& x) { return x[0][0] * x[1][0]; };
        d.make = []() -> std::unique_ptr<Instructions::Instruction> {
            return std::make_unique<Instructions::MultByConstant<int>>(); // its default template
        };
        d.printable = true;
        v.push_back(d);
    }
    v.push_back(lam<double, double, int>(
        "ddi", [](double a, double b, int c) { return a - 2 * b + 3.0 * c; },
        [](const Args& x) { return x[0][0] - 2 * x[1][0] + 3.0 * x[2][0]; }, "$0 = $1 - 2 * $2 + 3.0 * $3;"));
    v.push_back(lam<double, double, double, Constant>(
        "dddc", [](double a, double b, double c, Constant k) { return a + 2 * b - c * (double)k.value; },
        [](const Args& x) { return x[0][0] + 2 * x[1][0] - x[2][0] * x[3][0]; }, "$0 = $1 + 2 * $2 - $3 * (double)$4;"));
    v.push_back(lam<double, float, const double[2], const int[2]>(
        "dfri", [](double a, float f, const double b[2], const int c[2]) { return a - (double)f + b[0] * 2 - b[1] + 4.0 * c[0] - c[1]; },
        [](const Args& x) { return x[0][0] - x[1][0] + x[2][0] * 2 - x[2][1] + 4.0 * x[3][0] - x[3][1]; },
        "$0 = $1 - (double)$2 + $3[0] * 2 - $3[1] + 4.0 * $4[0] - $4[1];"));
}
} // namespace gen
