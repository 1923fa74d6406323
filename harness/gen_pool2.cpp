#include "gen_lam.hpp"
namespace gen {
void pool2(std::vector<InstrDesc>& v)
{    v.push_back(lam<Constant, Constant>(
        "csub", [](Constant a, Constant b) { return (double)a.value - (double)b.value * 0.25; },
        [](const Args& x) { return x[0][0] - x[1][0] * 0.25; },
        "$0 = (double)($1) - (double)($2) * 0.25;"));
    v.push_back(lam<const double[2]>(
        "row2", [](const double a[2]) { return a[0] - 2 * a[1]; },
        [](const Args& x) { return x[0][0] - 2 * x[0][1]; }, "$0 = $1[0] - 2 * $1[1];"));
    v.push_back(lam<const double[3], double>(
        "row3", [](const double a[3], double b) { return a[0] * b - a[1] + 3 * a[2]; },
        [](const Args& x) { return x[0][0] * x[1][0] - x[0][1] + 3 * x[0][2]; },
        "$0 = $1[0] * $2 - $1[1] + 3 * $1[2];"));
    v.push_back(lam<const double[2][2]>(
        "blk22", [](const double a[2][2]) { return a[0][0] - 3 * a[0][1] + 5 * a[1][0] - 7 * a[1][1]; },
        [](const Args& x) { return x[0][0] - 3 * x[0][1] + 5 * x[0][2] - 7 * x[0][3]; },
        "$0 = $1[0][0] - 3 * $1[0][1] + 5 * $1[1][0] - 7 * $1[1][1];"));
    v.push_back(lam<int, int>(
        "isub", [](int a, int b) { return (double)a - 0.5 * (double)b; },
        [](const Args& x) { return x[0][0] - 0.5 * x[1][0]; },
        "$0 = (double)($1) - 0.5 * (double)($2);"));
}
} // namespace gen
