// ordinary uses of both controllers; tells a library that does not build at all from one broken for some uses
#include <mpc/NLMPC.hpp>
#include <mpc/LMPC.hpp>
void probe() {
    mpc::NLMPC<> n(1, 1, 1, 2, 2, 0, 0);
    mpc::LMPC<> l(1, 1, 0, 1, 2, 2);
    mpc::cvec<> x(1), u(1);
    n.optimize(x, u);
    l.optimize(x, u);
}
