#include "script.hpp"
#define MAKE(k, nx, nu, ndu, ny, ph, ch) \
    template <> struct St<k> { using T = mpc::LMPC<nx, nu, ndu, ny, ph, ch>; };
template <int K> struct St;
PAIRS(MAKE)
#define FN2(k) staticRun##k
#define FN(k) FN2(k)
void FN(PAIR)(const LDims &d, const std::vector<LOp> &ops, LTrace &t) {
    auto m = std::make_unique<St<PAIR>::T>();
    for (auto &o : ops) step(*m, d, o, t);
}
