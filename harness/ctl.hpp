// Well-behaved control problems and recording callbacks for checks that run the whole non-linear controller.
#pragma once
#include "nl.hpp"

namespace nl {
struct Rec {  // one call of the cost callback
    G<double> X, Y, U;
    double e = 0, v = 0;
};
struct POpt {
    bool linear = false, soft = false, outputs = true, cons = true, stepDep = true;
};
// a problem the solver handles easily: contractive dynamics, strictly convex quadratic cost, linear constraints
inline Spec genProblem(Src &s, const Dims &d0, POpt o) {
    Spec p;
    p.d = d0;
    const Dims &d = p.d;
    p.cont = s.coin();
    p.ts = s.uniform(0.05, 0.3);
    p.sx = VecD::Ones(d.nx);
    p.su = VecD::Ones(d.nu);
    for (int i = 0; i < d.nx; i++) {
        Func f;
        if (s.chance(1, 3)) f.c0 = s.real(0.3);
        Term t;
        t.c = p.cont ? -s.uniform(0, 1) : s.uniform(-0.9, 0.9);
        t.a = {KX, 0, i};
        f.terms.push_back(t);
        if (d.nx > 1) {
            t.c = s.real(0.3);
            t.a = {KX, 0, (i + 1) % d.nx};
            f.terms.push_back(t);
        }
        t.c = s.sgn() * s.uniform(0.5, 1.5);
        t.a = {KU, 0, i % d.nu};
        f.terms.push_back(t);
        if (d.nu > 1) {
            t.c = s.real(0.3);
            t.a = {KU, 0, (int)s.below(d.nu)};
            f.terms.push_back(t);
        }
        if (!o.linear && s.chance(1, 2)) {
            t.shape = 3;
            t.c = s.real(0.2);
            t.a = {KX, 0, (int)s.below(d.nx)};
            f.terms.push_back(t);
        }
        if (o.stepDep && s.chance(1, 2)) {
            t.shape = 0;
            t.c = s.real(0.1);
            t.a = {KK, 0, 0};
            if (s.coin()) {  // time-varying, still linear
                t.shape = 2;
                t.c *= 0.3;
                if (s.coin()) t.b = {KX, 0, (int)s.below(d.nx)};
                else t.b = {KU, 0, (int)s.below(d.nu)};
            }
            f.terms.push_back(t);
        }
        p.dyn.push_back(f);
    }
    p.hasOut = o.outputs && !s.chance(1, 5);
    for (int i = 0; i < d.ny; i++) {
        Func f;
        f.c0 = s.real(0.5);
        Term t;
        t.c = genCoef(s, 1.5);
        t.a = {KX, 0, (int)s.below(d.nx)};
        f.terms.push_back(t);
        t.c = s.real(0.5);
        t.a = {KU, 0, (int)s.below(d.nu)};
        f.terms.push_back(t);
        if (o.stepDep) {
            t.c = s.real(0.2);
            t.a = {KK, 0, 0};
            f.terms.push_back(t);
        }
        p.out.push_back(f);
    }
    Term q;
    q.shape = 1;
    for (int i = 0; i <= d.ph; i++) {
        for (int j = 0; j < d.nx; j++) {
            q.c = s.uniform(0.2, 2); q.t = s.real(2); q.a = {KX, i, j};
            p.obj.terms.push_back(q);
        }
        for (int j = 0; j < d.nu; j++) {
            q.c = s.uniform(0.2, 2); q.t = s.chance(1, 2) ? 0 : s.real(2); q.a = {KU, i, j};
            p.obj.terms.push_back(q);
        }
        for (int j = 0; p.hasOut && j < d.ny; j++)
            if (s.chance(1, 2)) {
                q.c = s.uniform(0.1, 1); q.t = s.real(2); q.a = {KY, i, j};
                p.obj.terms.push_back(q);
            }
    }
    q.c = o.soft ? s.uniform(0.5, 20) : 1; q.t = 0; q.a = {KE, 0, 0};
    p.obj.terms.push_back(q);
    p.hasIneq = d.ineq > 0 && o.cons;
    p.hasEq = d.eq > 0 && o.cons;
    for (int i = 0; i < d.ineq; i++) {
        Func f;
        Term t;
        t.c = s.sgn() * s.uniform(0.5, 1.5);
        t.a = genVar(s, d, p.hasOut, false);
        f.terms.push_back(t);
        f.c0 = -s.uniform(0.0, 3.0);
        if (o.soft) { t.c = -1; t.a = {KE, 0, 0}; f.terms.push_back(t); }
        p.ineq.push_back(f);
    }
    for (int i = 0; i < d.eq; i++) {
        Func f;
        Term t;
        t.c = s.sgn() * s.uniform(0.5, 1.5);
        t.a = {KU, i % d.ch, (i / d.ch) % d.nu};
        f.terms.push_back(t);
        f.c0 = s.real(0.5);
        p.eq.push_back(f);
    }
    return p;
}
inline mpc::NLParameters tightParams(int evals = 300) {
    mpc::NLParameters q;
    q.maximum_iteration = evals;
    q.relative_ftol = 1e-11;
    q.relative_xtol = 1e-9;
    q.absolute_ftol = 1e-12;
    q.absolute_xtol = 1e-10;
    return q;
}
inline std::string resStr(const mpc::Result<> &r) {
    std::string m = fmt("status=%d code=%d feasible=%d cost=%.12g msg='%s' cmd=[", (int)r.status, r.solver_status, (int)r.is_feasible, r.cost, r.solver_status_msg.c_str());
    for (int i = 0; i < r.cmd.size(); i++) m += fmt("%s%.12g", i ? "," : "", r.cmd(i));
    return m + "]";
}
// everything an optimisation returns, as numbers that can be compared bit for bit
template <class R, class Q>
void flatten(std::vector<double> &o, const R &r, const Q &q) {
    o.push_back(r.status); o.push_back(r.solver_status); o.push_back(r.is_feasible); o.push_back(r.cost);
    o.push_back((double)std::hash<std::string>()(r.solver_status_msg));
    o.push_back(r.cmd.size());
    for (int i = 0; i < r.cmd.size(); i++) o.push_back(r.cmd(i));
    auto m = [&](const auto &M) {
        o.push_back(M.rows());
        o.push_back(M.cols());
        for (int i = 0; i < M.rows(); i++) for (int j = 0; j < M.cols(); j++) o.push_back(M(i, j));
    };
    m(q.state); m(q.input); m(q.output);
}
inline bool same(const std::vector<double> &a, const std::vector<double> &b, size_t &at) {
    for (at = 0; at < a.size() && at < b.size(); at++)
        if (!(a[at] == b[at] || (std::isnan(a[at]) && std::isnan(b[at])))) return false;
    return a.size() == b.size();
}
inline double maxResidual(const Spec &p, const MatD &X, const MatD &U) {
    double m = 0;
    for (double v : p.dynRes(fromEigen(X), fromEigen(U))) m = std::max(m, std::abs(v));
    return m;
}
}  // namespace nl

namespace nl {
// Separates the evaluations requested by the solver from finite-difference probes: a probe moves the
// last evaluation by a tiny amount. Tiny solver steps are not counted either, so the count never exceeds the truth.
struct BaseCounter {
    Dims d;
    bool have = false;
    Rec base;
    long bases = 0, calls = 0;
    double minMove = 1e300;  // smallest move between consecutive evaluations
    explicit BaseCounter(const Dims &d_) : d(d_) {}
    void reset() { have = false; bases = calls = 0; minMove = 1e300; }
    void see(const Rec &r) {
        calls++;
        if (have) {
            double big = 0;
            auto cmp = [&](double a, double b) { big = std::max(big, std::abs(a - b) / std::max(1.0, std::abs(b))); };
            for (int i = 1; i <= d.ph; i++) for (int j = 0; j < d.nx; j++) cmp(r.X(i, j), base.X(i, j));
            for (int i = 0; i <= d.ph; i++) for (int j = 0; j < d.nu; j++) cmp(r.U(i, j), base.U(i, j));
            cmp(r.e, base.e);
            if (big <= 1e-5) return;
            minMove = std::min(minMove, big);
        }
        base = r;
        have = true;
        bases++;
    }
};
}  // namespace nl
