// S01: no operation sequence touches memory it does not own, leaves memory behind or has undefined behaviour.
// @flags -fsanitize=address,undefined -fno-sanitize-recover=undefined
// @unit S01/nonlinear.cpp
// @unit S01/nonlinear.cpp -DPART=1
// @unit S01/nonlinear.cpp -DPART=2
// @unit S01/nonlinear.cpp -DPART=3
// @unit S01/linear.cpp
#include "S01/heap.hpp"
#include <mpc/Integrator.hpp>
#include <mpc/Logger.hpp>
#include <mpc/Profiler.hpp>
#include <mpc/Types.hpp>
#include <mpc/Utils.hpp>
#include <sstream>
using pbt::Src;
using pbt::Case;
void nonlinear(Src &s, Case &c);
void components(Src &s, Case &c);
void linear(Src &s, Case &c);

static void utilities(Src &s, Case &c) {
    int steps = s.irange(1, 12);
    std::vector<std::array<int, 4>> ops;
    std::vector<double> num;
    std::string hist;
    for (int i = 0; i < steps; i++) {
        ops.push_back({(int)s.below(5), s.irange(0, 5), s.irange(1, 4), s.irange(1, 3)});
        num.push_back(s.real(1));
        static const char *n[] = {" integrate", " discretize", " discretize-disturbance", " profile", " log"};
        hist += n[ops.back()[0]];
    }
    balanced("the utilities", hist, [&] {
        mpc::Profiler p;
        std::ostringstream os;
        auto &log = mpc::Logger::instance();
        log.setStream(&os);
        for (int i = 0; i < steps; i++) {
            auto &o = ops[i];
            double v = num[i];
            switch (o[0]) {
            case 0: {
                mpc::RK4<3> rk([v](double t, const mpc::cvec<3> &x) { return mpc::cvec<3>(v * x * t); });
                rk.run(0, mpc::cvec<3>::Ones(), 0.1, o[1]);
                break;
            }
            case 1: case 2: {
                mpc::mat<3, 3> A = mpc::mat<3, 3>::Constant(v), Ad;
                mpc::mat<3, 2> B = mpc::mat<3, 2>::Ones(), Bd, E = B, Ed;
                if (o[0] == 1) mpc::discretization<3, 2>(A, B, 0.1 * o[1], Ad, Bd);
                else mpc::discretization<3, 2, 2>(A, B, E, 0.1 * o[1], Ad, Bd, Ed);
                break;
            }
            case 3: {
                p.solutionStart();
                mpc::Result<2> r;
                r.status = (mpc::ResultStatus)(o[1] % 5);
                if (o[2] > 1) p.solutionEnd(r);
                if (o[3] == 1) p.reset();
                std::ostringstream t;
                if (o[2] > 1 && o[3] != 1) t << p.getStats();
                break;
            }
            default:
                log.setLevel(mpc::Logger::DEEP);
                log.setPrefix(std::string(o[1] * 10, 'x'));
                log.log(mpc::Logger::log_type::INFO) << "a message " << v << std::endl;
                if (o[2] == 1) { log.reset(); log.setStream(&os); }
            }
        }
        log.reset();
        log.setPrefix("");
    });
    c.nontrivial = steps >= 3;
    if (c.wantSample) c.sample = hist;
}
void pbt_register(pbt::Runner &r) {
    r.assumptions.push_back("address and undefined-behaviour sanitizers of gcc; code inside NLopt is not instrumented, its allocations are");
    r.add("nonlinear", nonlinear, 12000, 400000, "an optimisation among at least four operations", 0.4);
    r.add("components", components, 20000, 600000, "at least one gradient requested", 0.4);
    r.add("linear", linear, 12000, 400000, "an optimisation among at least four operations", 0.4);
    r.add("utilities", utilities, 40000, 1000000, "at least three operations", 0.4);
}
PBT_MAIN("S01")
