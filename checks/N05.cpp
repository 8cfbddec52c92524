// N05: bounds are last-write-wins over valid slices and are respected by every solution.
// @instantiates
#include "../harness/ctl.hpp"
using namespace nl;
using Ctrl = mpc::NLMPC<>;

struct Bounds {  // the model: one limit per step and variable
    Dims d;
    MatD xl, xh, ul, uh;
    Bounds(const Dims &d_) : d(d_) {
        xl = MatD::Constant(d.nx, d.ph, -mpc::inf); xh = -xl;
        ul = MatD::Constant(d.nu, d.ch, -mpc::inf); uh = -ul;
    }
};
static void genBox(Src &s, VecD &lo, VecD &hi, double wide) {
    for (int i = 0; i < lo.size(); i++) {
        double a = s.dyadic(16) * wide, b = a + 0.125 * (double)s.below(24) * wide;
        lo(i) = s.chance(1, 4) ? -mpc::inf : a;
        hi(i) = s.chance(1, 4) ? mpc::inf : b;
    }
}
static mpc::HorizonSlice genSlice(Src &s, int len, bool &valid, bool &all) {
    all = s.chance(1, 6);
    valid = true;
    if (all) return mpc::HorizonSlice::all();
    if (s.chance(1, 4)) {
        int a = s.irange(-3, len + 3), b = s.irange(-3, len + 3);
        valid = a >= 0 && a < b && b <= len;
        if (a == -1 && b == -1) { all = valid = true; }
        return {a, b};
    }
    int a = (int)s.below(len), b = s.irange(a + 1, len);
    return {a, b};
}
// one random bound setting applied to the controller and to the model
template <class M>
static std::string boundOp(Src &s, M &m, Bounds &b, double wide, bool &rejected) {
    const Dims &d = b.d;
    rejected = false;
    bool st = s.coin();
    int n = st ? d.nx : d.nu, len = st ? d.ph : d.ch;
    VecD lo(n), hi(n);
    switch (s.below(5)) {
    case 0: {
        MatD L(n, len), H(n, len);
        for (int k = 0; k < len; k++) { genBox(s, lo, hi, wide); L.col(k) = lo; H.col(k) = hi; }
        bool r = st ? m.setStateBounds(L, H) : m.setInputBounds(L, H);
        PBT_CHECK(r, "matrix-rejected", "%s: setting a full %s bound matrix returned false", d.str().c_str(), st ? "state" : "input");
        (st ? b.xl : b.ul) = L; (st ? b.xh : b.uh) = H;
        return fmt(" %s-matrix", st ? "state" : "input");
    }
    case 1: {
        bool threw = false, ret = true;
        try {
            if (s.coin()) { MatD L = MatD::Zero(d.ny, d.ph); ret = m.setOutputBounds(L, L); }
            else { VecD v = VecD::Zero(d.ny); ret = m.setOutputBounds(v, v, mpc::HorizonSlice::all()); }
        } catch (const std::exception &) { threw = true; }
        PBT_CHECK(threw || !ret, "output-bounds-accepted", "output bounds are not supported but were accepted");
        rejected = true;
        return " output-bounds";
    }
    default: {
        bool valid, all;
        mpc::HorizonSlice sl = genSlice(s, len, valid, all);
        genBox(s, lo, hi, wide);
        bool r = st ? m.setStateBounds(lo, hi, sl) : m.setInputBounds(lo, hi, sl);
        PBT_CHECK(r == valid, valid ? "valid-slice-rejected" : "invalid-slice-accepted", "%s: %s bounds on slice [%d,%d) of a horizon of %d steps returned %d", d.str().c_str(), st ? "state" : "input", sl.start, sl.end, len, (int)r);
        rejected = !valid;
        if (valid)
            for (int k = all ? 0 : sl.start; k < (all ? len : sl.end); k++) {
                (st ? b.xl : b.ul).col(k) = lo;
                (st ? b.xh : b.uh).col(k) = hi;
            }
        return fmt(" %s[%d,%d)%s", st ? "state" : "input", sl.start, sl.end, valid ? "" : "!");
    }
    }
}
template <class Q>
static void checkRespected(const Bounds &b, const Q &sq, const std::string &hist, const VecD &sx, const VecD &su) {
    const Dims &d = b.d;
    for (int k = 0; k < d.ph; k++)
        for (int j = 0; j < d.nx; j++) {
            double v = sq.state(k + 1, j), t = 1e-8 * (1 + std::abs(v) + sx(j));
            PBT_CHECK(v >= b.xl(j, k) - t && v <= b.xh(j, k) + t, "state-bound-violated", "%s: state %d of step %d is %.10g outside [%g,%g] after%s", d.str().c_str(), j, k + 1, v, b.xl(j, k), b.xh(j, k), hist.c_str());
        }
    for (int k = 0; k <= d.ph; k++)
        for (int j = 0; j < d.nu; j++) {
            int q = std::min(k, d.ch - 1);
            double v = sq.input(k, j), t = 1e-8 * (1 + std::abs(v) + su(j));
            PBT_CHECK(v >= b.ul(j, q) - t && v <= b.uh(j, q) + t, "input-bound-violated", "%s: input %d of step %d is %.10g outside [%g,%g] after%s", d.str().c_str(), j, k, v, b.ul(j, q), b.uh(j, q), hist.c_str());
        }
}

// x(k+1) = u(k): every limit in force shows in the optimum, which is known in closed form
static void exact(Src &s, Case &c) {
    quiet();
    Dims d = genDims(s, 7, 3, 40, 30, 6);
    d.nu = d.nx;
    Ctrl m(d.nx, d.nu, d.ny, d.ph, d.ch, 0, 0);
    MatD T(d.nx, d.ph), W(d.nx, d.ph);
    for (int k = 0; k < d.ph; k++)
        for (int j = 0; j < d.nx; j++) { T(j, k) = s.real(4); W(j, k) = s.uniform(0.5, 2); }
    auto calls = std::make_shared<int>(0);
    m.setStateSpaceFunction([](auto &dx, const auto &, const auto &u, const unsigned int &) { dx = u; });
    m.setObjectiveFunction([=](const auto &x, const auto &, const auto &, double) -> double {
        double v = 0;
        ++*calls;
        for (int k = 0; k < d.ph; k++)
            for (int j = 0; j < d.nx; j++) v += W(j, k) * std::pow(x(k + 1, j) - T(j, k), 2);
        return v;
    });
    auto par = tightParams();
    m.setOptimizerParameters(par);
    Bounds b(d);
    VecD sx = VecD::Ones(d.nx), su = VecD::Ones(d.nu);
    std::string hist;
    VecD x0, u0;
    int nset = 0, nrej = 0, nopt = 0, nconv = 0, active = 0, steps = s.irange(1, 10);
    bool scaled = false;
    for (int k = 0; k < steps || nopt == 0; k++) {
        int op = k >= steps ? 9 : (int)s.below(10);
        if (op < 6) {
            bool rej;
            hist += boundOp(s, m, b, 1.0, rej);
            (rej ? nrej : nset)++;
        } else if (op == 6) {
            if (s.coin()) { for (int j = 0; j < d.nx; j++) sx(j) = s.positive(0.2, 5); m.setStateScale(sx); hist += " state-scale"; }
            else { for (int j = 0; j < d.nu; j++) su(j) = s.positive(0.2, 5); m.setInputScale(su); hist += " input-scale"; }
            scaled = true;
        } else if (op == 7) {
            par.enable_warm_start = s.coin();
            m.setOptimizerParameters(par);
            hist += " parameters";
        } else {
            if (!x0.size() || s.chance(2, 3)) x0 = genVec(s, d.nx, 4), u0 = genVec(s, d.nu, 4);  // or the same measurement again
            // the exact optimum
            MatD want(d.nx, d.ph);
            bool feasible = true;
            for (int j = 0; j < d.nx; j++)
                for (int i = 0; i < d.ch; i++) {
                    double lo = b.ul(j, i), hi = b.uh(j, i), sw = 0, st = 0;
                    int last = i == d.ch - 1 ? d.ph - 1 : i;
                    for (int q = i; q <= last; q++) {
                        lo = std::max(lo, b.xl(j, q));
                        hi = std::min(hi, b.xh(j, q));
                        sw += W(j, q);
                        st += W(j, q) * T(j, q);
                    }
                    if (lo > hi) feasible = false;
                    double v = std::min(std::max(st / sw, lo), hi);
                    if (v != st / sw) active++;
                    for (int q = i; q <= last; q++) want(j, q) = v;
                }
            *calls = 0;
            auto r = m.optimize(x0, u0);
            auto sq = m.getOptimalSequence();
            nopt++;
            hist += " optimize";
            if (!feasible) { c.label("infeasible"); if (r.status != mpc::ERROR) checkRespected(b, sq, hist, sx, su); continue; }
            PBT_CHECK(*calls > 0, "refused", "%s: the solver refused the problem (%s) with x0=%s lastU=%s after%s", d.str().c_str(), resStr(r).c_str(), vstr(x0).c_str(), vstr(u0).c_str(), hist.c_str());
            c.label(r.status == mpc::SUCCESS ? "converged" : r.status == mpc::ERROR ? "solver-failure" : "limit");
            if (r.status == mpc::ERROR) continue;
            checkRespected(b, sq, hist, sx, su);
            nconv += r.status == mpc::SUCCESS;
            if (r.status == mpc::SUCCESS)
                for (int q = 0; q < d.ph; q++)
                    for (int j = 0; j < d.nx; j++)
                        PBT_CHECK(std::abs(sq.state(q + 1, j) - want(j, q)) <= 1e-4, "limit-in-force", "%s: state %d of step %d is %.8g, with the limits in force the optimum is %.8g (target %g) after%s", d.str().c_str(), j, q + 1, sq.state(q + 1, j), want(j, q), T(j, q), hist.c_str());
        }
    }
    if (d.ph > 7) c.label("large");
    c.nontrivial = nset >= 2 && active > 0 && nconv > 0;
    if (nrej) c.label("rejected");
    if (scaled) c.label("scaled");
    if (d.ch < d.ph) c.label("held");
    if (c.wantSample) c.sample = d.str() + hist;
}

// arbitrary problems: no solution leaves the box, whatever the guess
static void respect(Src &s, Case &c) {
    quiet();
    Dims d = genDims(s, 5, 2, 100, 12, 4);
    d.ineq = s.irange(0, 1);
    POpt o;
    o.soft = s.coin();
    auto sp = std::make_shared<Spec>(genProblem(s, d, o));
    Ctrl m(d.nx, d.nu, d.ny, d.ph, d.ch, d.ineq, 0);
    Bounds b(d);
    bool rej;
    std::string hist;
    VecD x0, u0;
    int nset = 0, nok = 0;
    for (int k = s.irange(0, 2); k > 0; k--) { hist += boundOp(s, m, b, 1.0, rej); nset += !rej; }
    bindModel(m, sp);
    if (sp->hasOut) m.setOutputFunction(outFn(sp));
    auto calls = std::make_shared<int>(0);
    m.setObjectiveFunction([=, f = objFn(sp)](const auto &x, const auto &y, const auto &u, double e) -> double { ++*calls; return f(x, y, u, e); });
    if (sp->hasIneq) m.setIneqConFunction(ineqFn(sp));
    auto par = tightParams(60);
    par.hard_constraints = !o.soft;
    m.setOptimizerParameters(par);
    for (int k = s.irange(1, 6); k > 0; k--) {
        int op = (int)s.below(8);
        if (op < 3) { hist += boundOp(s, m, b, 1.0, rej); nset += !rej; }
        else if (op == 3) {
            genScales(s, *sp);
            if (s.coin()) sp->sx.setOnes(); 
            m.setStateScale(sp->sx);
            m.setInputScale(sp->su);
            hist += " scales";
        } else if (op == 4) {
            par.enable_warm_start = s.coin();
            par.maximum_iteration = s.coin() ? 60 : s.irange(1, 10);
            m.setOptimizerParameters(par);
            hist += " parameters";
        } else {
            if (!x0.size() || s.chance(2, 3)) x0 = genVec(s, d.nx, 4), u0 = genVec(s, d.nu, 4);  // or the same measurement again
            *calls = 0;
            auto r = m.optimize(x0, u0);
            hist += " optimize";
            PBT_CHECK(*calls > 0, "refused", "%s: the solver refused the problem (%s) after%s", d.str().c_str(), resStr(r).c_str(), hist.c_str());
            if (r.status == mpc::ERROR) continue;
            checkRespected(b, m.getOptimalSequence(), hist, sp->sx, sp->su);
            nok++;
        }
    }
    c.nontrivial = nset > 0 && nok > 0;
    if (c.wantSample) c.sample = d.str() + hist;
}

void pbt_register(pbt::Runner &r) {
    r.assumptions.push_back("lower limits do not exceed upper limits in one call");
    r.add("exact-optimum", exact, 40000, 1500000, "at least two settings accepted and a limit active at the optimum", 0.3);
    r.add("respected", respect, 30000, 1000000, "at least one setting accepted and one optimisation solved", 0.3);
}
PBT_MAIN("N05")
