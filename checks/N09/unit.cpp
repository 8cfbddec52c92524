// one compile-time-sized controller, selected by -DPAIR=k
#include "script.hpp"
#define ONE(k, nx, nu, ny, ph, ch, ineq, eq) \
    template <> struct Sel<k> { using T = mpc::NLMPC<nx, nu, ny, ph, ch, ineq, eq>; };
template <int> struct Sel;
PAIRS(ONE)
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
void CAT(staticRun, PAIR)(const Dims &d, const std::vector<SOp> &ops, Trace &t) {
    Sel<PAIR>::T m;
    runOps(m, d, ops, t);
}
