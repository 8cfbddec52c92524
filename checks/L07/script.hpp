// One operation script for both sizing modes of the linear controller.
#pragma once
#include "../../harness/lin.hpp"
using namespace lin;

enum { Q_MODEL, Q_DIST, Q_WMAT, Q_WSL, Q_RMAT, Q_RSL, Q_EMAT, Q_ESL, Q_XMAT, Q_XSL, Q_UMAT, Q_USL, Q_YMAT, Q_YSL, Q_STEP, Q_SC, Q_SCI, Q_PAR, Q_WARM, Q_OPT, Q_LAST, Q_STATS, Q_RESET, Q_SCALE, Q_COUNT };
inline const char *qName(int k) {
    static const char *n[] = {"model", "disturbance-model", "weights", "weights-slice", "references", "references-slice", "disturbances", "disturbances-slice", "state-limits", "state-limits-slice", "input-limits", "input-limits-slice", "output-limits", "output-limits-slice", "step-limits", "scalar", "scalar-step", "parameters", "warm-pair", "optimize", "last", "stats", "reset-stats", "unsupported"};
    return n[k];
}
struct LOp {
    int kind = 0;
    MatD a, b, c, d, e, f;
    int i = 0, j = 0;
    double lo = 0, hi = 0;
    mpc::LParameters par;
};
struct LTrace {
    std::vector<double> v;
    std::vector<int> ends;
};
inline void put(std::vector<double> &v, const MatD &m) {
    v.push_back((double)m.rows());
    v.push_back((double)m.cols());
    for (int i = 0; i < m.rows(); i++) for (int j = 0; j < m.cols(); j++) v.push_back(m(i, j));
}
template <class L>
void step(L &m, const LDims &d, const LOp &o, LTrace &t) {
    auto &v = t.v;
    mpc::HorizonSlice sl(o.i, o.j);
    auto vec = [](const MatD &x) { return VecD(x.col(0)); };
    switch (o.kind) {
    case Q_MODEL: v.push_back(m.setStateSpaceModel(o.a, o.b, o.c)); break;
    case Q_DIST: v.push_back(m.setDisturbances(o.a, o.b)); break;
    case Q_WMAT: v.push_back(m.setObjectiveWeights(o.a, o.b, o.c)); break;
    case Q_WSL: v.push_back(m.setObjectiveWeights(vec(o.a), vec(o.b), vec(o.c), sl)); break;
    case Q_RMAT: v.push_back(m.setReferences(o.a, o.b, o.c)); break;
    case Q_RSL: v.push_back(m.setReferences(vec(o.a), vec(o.b), vec(o.c), sl)); break;
    case Q_EMAT: v.push_back(m.setExogenousInputs(o.a)); break;
    case Q_ESL: v.push_back(m.setExogenousInputs(vec(o.a), sl)); break;
    case Q_XMAT: v.push_back(m.setStateBounds(o.a, o.b)); break;
    case Q_XSL: v.push_back(m.setStateBounds(vec(o.a), vec(o.b), sl)); break;
    case Q_UMAT: v.push_back(m.setInputBounds(o.a, o.b)); break;
    case Q_USL: v.push_back(m.setInputBounds(vec(o.a), vec(o.b), sl)); break;
    case Q_YMAT: v.push_back(m.setOutputBounds(o.a, o.b)); break;
    case Q_YSL: v.push_back(m.setOutputBounds(vec(o.a), vec(o.b), sl)); break;
    case Q_STEP: v.push_back(m.setConstraints((unsigned)o.i, vec(o.a), vec(o.c), vec(o.e), vec(o.b), vec(o.d), vec(o.f))); break;
    case Q_SC: v.push_back(m.setScalarConstraint(o.lo, o.hi, vec(o.a), vec(o.b), sl)); break;
    case Q_SCI: v.push_back(m.setScalarConstraint((unsigned)o.i, o.lo, o.hi, vec(o.a), vec(o.b))); break;
    case Q_PAR: m.setOptimizerParameters(o.par); break;
    case Q_WARM: {
        std::vector<double> x(o.a.data(), o.a.data() + o.a.size()), y(o.b.data(), o.b.data() + o.b.size());
        m.setSolverWarmStart(x, y);
        break;
    }
    case Q_OPT: case Q_LAST: {
        size_t n = fake::st().runs.size();
        auto r = o.kind == Q_OPT ? m.optimize(vec(o.a), vec(o.b)) : m.getLastResult();
        if (o.kind == Q_OPT) {
            v.push_back(fake::st().runs.size() > n);  // others may run meanwhile
            if (fake::st().runs.size() > n) {
                const fake::Program &g = fake::st().runs[n];
                put(v, g.P); put(v, g.q); put(v, g.A); put(v, g.l); put(v, g.u);
                v.push_back(g.warmFlagAtSolve);
                v.insert(v.end(), g.wx.begin(), g.wx.end());
                v.insert(v.end(), g.wy.begin(), g.wy.end());
            }
        }
        v.push_back(r.status); v.push_back(r.solver_status); v.push_back(r.cost); v.push_back(r.is_feasible);
        put(v, r.cmd);
        auto q = m.getOptimalSequence();
        put(v, q.state); put(v, q.input); put(v, q.output);
        auto w = m.getSolverWarmStartPrimal();
        v.insert(v.end(), w.begin(), w.end());
        break;
    }
    case Q_STATS: {
        auto q = m.getExecutionStats();
        v.push_back((double)q.numberOfSolutions);
        for (auto &e : q.solutionsStates) { v.push_back(e.first); v.push_back(e.second); }
        break;
    }
    case Q_RESET: m.resetStats(); break;
    case Q_SCALE: {
        auto refuse = [&](auto &&fn) { try { fn(); v.push_back(0); } catch (const std::runtime_error &) { v.push_back(1); } };
        refuse([&] { m.setInputScale(VecD(VecD::Ones(d.nu))); });
        refuse([&] { m.setStateScale(VecD(VecD::Ones(d.nx))); });
        refuse([&] { m.setDiscretizationSamplingTime(0.1); });
        break;
    }
    }
    t.ends.push_back((int)v.size());
}
#define PAIRS(X) X(0, 1, 1, 0, 1, 1, 1) X(1, 2, 1, 1, 2, 3, 2) X(2, 3, 2, 2, 1, 4, 4) X(3, 2, 2, 0, 3, 5, 1) X(4, 1, 3, 1, 2, 2, 2) X(5, 4, 1, 3, 2, 3, 1)
