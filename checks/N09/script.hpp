// One operation script for both sizing modes of the non-linear controller.
#pragma once
#include "../../harness/ctl.hpp"
using namespace nl;

struct SOp {
    int kind = 0;
    VecD a, b;
    MatD A, B;
    int i = 0, j = 0;
    double t = 0;
    mpc::NLParameters par;
    std::shared_ptr<Spec> sp;
    bool defaults = false;
};
enum { O_MODEL, O_OUT, O_OBJ, O_INEQ, O_EQ, O_SCALE, O_TS, O_PAR, O_XB, O_UB, O_XBM, O_UBM, O_YB, O_OPT, O_LAST, O_STATS, O_RESET, O_COUNT };
inline const char *opName(int k) {
    static const char *n[] = {"model", "output", "cost", "inequality", "equality", "scales", "sampling", "parameters", "state-bounds", "input-bounds", "state-bounds-matrix", "input-bounds-matrix", "output-bounds", "optimize", "last", "stats", "reset-stats"};
    return n[k];
}
struct Trace {
    std::vector<double> v;
    std::vector<int> ends;                    // v.size() after every operation
    std::vector<std::vector<double>> start;   // arguments and value of the first cost call of every operation
    std::vector<int> converged;               // 1: the result is feasible and follows the model
};
template <class Ctrl>
void runOps(Ctrl &m, const Dims &d, const std::vector<SOp> &ops, Trace &out) {
    auto &v = out.v;
    auto first = std::make_shared<std::vector<double>>();
    std::shared_ptr<Spec> model;
    double ts = 0;  // as last set; the model decides which time domain applies
    bool cont = false;
    for (auto &o : ops) {
        auto sp = o.sp;
        switch (o.kind) {
        case O_MODEL: model = sp; v.push_back(o.defaults ? m.setStateSpaceFunction(stateFn(sp)) : m.setStateSpaceFunction(stateFn(sp), (float)o.t)); break;
        case O_OUT: v.push_back(m.setOutputFunction(outFn(sp))); break;
        case O_OBJ: v.push_back(m.setObjectiveFunction([first, f = objFn(sp)](const auto &x, const auto &y, const auto &u, const double &e) -> double {
                double val = f(x, y, u, e);
                if (first->empty()) {
                    auto add = [&](const auto &M) { for (int i = 0; i < M.rows(); i++) for (int j = 0; j < M.cols(); j++) first->push_back(M(i, j)); };
                    add(x); add(y); add(u);
                    first->push_back(e);
                    first->push_back(val);
                }
                return val;
            })); break;
        case O_INEQ: v.push_back(o.defaults ? m.setIneqConFunction(ineqFn(sp)) : m.setIneqConFunction(ineqFn(sp), (float)o.t)); break;
        case O_EQ: v.push_back(o.defaults ? m.setEqConFunction(eqFn(sp)) : m.setEqConFunction(eqFn(sp), (float)o.t)); break;
        case O_SCALE: m.setStateScale(o.a); m.setInputScale(o.b); break;
        case O_TS: v.push_back(m.setDiscretizationSamplingTime(o.t)); ts = o.t; cont = true; break;
        case O_PAR: m.setOptimizerParameters(o.par); break;
        case O_XB: v.push_back(m.setStateBounds(o.a, o.b, mpc::HorizonSlice{o.i, o.j})); break;
        case O_UB: v.push_back(m.setInputBounds(o.a, o.b, mpc::HorizonSlice{o.i, o.j})); break;
        case O_XBM: v.push_back(m.setStateBounds(o.A, o.B)); break;
        case O_UBM: v.push_back(m.setInputBounds(o.A, o.B)); break;
        case O_YB:
            try {
                v.push_back(o.i ? m.setOutputBounds(o.a, o.b, mpc::HorizonSlice{0, 1}) : m.setOutputBounds(o.A, o.B));
            } catch (std::exception &) { v.push_back(77); }
            break;
        case O_OPT: {
            first->clear();
            auto q = m.optimize(o.a, o.b);
            {
                Spec p = *model;
                p.cont = cont;
                p.ts = ts;
                auto sq = m.getOptimalSequence();
                out.converged.resize(out.ends.size() + 1);
                out.converged.back() = q.is_feasible && maxResidual(p, sq.state, sq.input) < 1e-4;
            }
            flatten(v, q, m.getOptimalSequence());
            break;
        }
        case O_LAST: flatten(v, m.getLastResult(), m.getOptimalSequence()); break;
        case O_STATS: {
            auto &st = m.getExecutionStats();
            v.push_back(st.numberOfSolutions);
            for (auto &e : st.solutionsStates) { v.push_back((double)e.first); v.push_back(e.second); }
            break;
        }
        default: m.resetStats();
        }
        out.ends.push_back((int)v.size());
        out.start.push_back(o.kind == O_OPT ? *first : std::vector<double>());
        out.converged.resize(out.ends.size());
    }
}
#define PAIRS(F) F(0, 2, 1, 1, 3, 2, 1, 1) F(1, 1, 2, 2, 2, 2, 0, 0) F(2, 3, 2, 1, 4, 1, 2, 0) F(3, 4, 1, 3, 5, 5, 3, 2) F(4, 1, 1, 1, 1, 1, 0, 1) F(5, 2, 3, 2, 6, 3, 1, 0)
