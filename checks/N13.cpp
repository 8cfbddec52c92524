// N13: the starting point of every optimisation, seen through the first call of the cost function, against a model.
#include "../harness/ctl.hpp"
using namespace nl;
using Ctrl = mpc::NLMPC<>;
static const double INF = std::numeric_limits<double>::infinity();

static void start(Src &s, Case &c) {
    quiet();
    Dims d = genDims(s, 6, 3, 100, 14, 5);
    d.ineq = s.irange(0, 1);
    POpt o;
    o.soft = s.coin();
    o.linear = s.coin();
    auto sp = std::make_shared<Spec>(genProblem(s, d, o));
    Ctrl m(d.nx, d.nu, d.ny, d.ph, d.ch, d.ineq, d.eq);
    auto recs = std::make_shared<std::vector<Rec>>();
    auto boom = std::make_shared<long>(-1);
    bindModel(m, sp);
    if (sp->hasOut) m.setOutputFunction(outFn(sp));
    m.setObjectiveFunction([=](const auto &x, const auto &y, const auto &u, double e) -> double {
        Rec r;
        r.X = fromEigen(x); r.Y = fromEigen(y); r.U = fromEigen(u); r.e = e;
        r.v = sp->objF(r.X, r.Y, r.U, e);
        recs->push_back(r);
        if ((long)recs->size() == *boom) throw std::runtime_error("user failure");
        return r.v;
    });
    if (sp->hasIneq) m.setIneqConFunction(ineqFn(sp), 1e-6f);
    auto par = tightParams();
    par.hard_constraints = !o.soft;
    par.enable_warm_start = s.coin();
    m.setOptimizerParameters(par);
    MatD lox = MatD::Constant(d.ph, d.nx, -INF), hix = -lox, lou = MatD::Constant(d.ch, d.nu, -INF), hiu = -lou;
    bool have = false, clamped = false;
    MatD px, pu;  // previous solution
    double pe = 0;
    std::string hist;
    int nwarm = 0, ncold = 0, nfault = 0, steps = s.irange(2, 9);
    VecD x = genVec(s, d.nx, 3), u = genVec(s, d.nu, 2);
    for (int k = 0; k < steps; k++) {
        switch (s.below(8)) {
        case 0:
            par.enable_warm_start = !par.enable_warm_start;
            m.setOptimizerParameters(par);
            hist += par.enable_warm_start ? " warm-on" : " warm-off";
            break;
        case 1:
            par.hard_constraints = !o.soft || s.coin();
            par.maximum_iteration = s.coin() ? 300 : s.irange(1, 8);
            m.setOptimizerParameters(par);
            hist += fmt(" limit=%d hard=%d", par.maximum_iteration, (int)par.hard_constraints);
            break;
        case 2: {
            double a = s.uniform(0.1, 3), b = s.uniform(0.1, 3);
            int i = (int)s.below(d.ch), n = i + 1 + (int)s.below(d.ch - i);
            for (int q = i; q < n; q++) { lou.row(q).setConstant(-a); hiu.row(q).setConstant(b); }
            m.setInputBounds(VecD::Constant(d.nu, -a), VecD::Constant(d.nu, b), mpc::HorizonSlice{i, n});
            hist += " input-bounds";
            break;
        }
        case 3: {
            double a = s.uniform(0.5, 4), b = s.uniform(0.5, 4);
            int i = (int)s.below(d.ph), n = i + 1 + (int)s.below(d.ph - i);
            for (int q = i; q < n; q++) { lox.row(q).setConstant(-a); hix.row(q).setConstant(b); }
            m.setStateBounds(VecD::Constant(d.nx, -a), VecD::Constant(d.nx, b), mpc::HorizonSlice{i, n});
            hist += " state-bounds";
            break;
        }
        case 4:
            if (s.coin()) { genScales(s, *sp); m.setStateScale(sp->sx); m.setInputScale(sp->su); hist += " scales"; }
            break;
        default: break;
        }
        if (s.chance(2, 3)) { x = genVec(s, d.nx, 3); u = genVec(s, d.nu, 2); }
        // expected starting point
        bool warm = par.enable_warm_start && have;
        MatD gx(d.ph + 1, d.nx), gu(d.ph + 1, d.nu);
        double ge = warm ? pe : 0;
        auto clamp = [&](double v, double lo, double hi) { if (v < lo || v > hi) clamped = true; return std::min(std::max(v, lo), hi); };
        gx.row(0) = x;
        for (int i = 1; i <= d.ph; i++)
            for (int j = 0; j < d.nx; j++) gx(i, j) = clamp(warm ? px(std::min(i + 1, d.ph), j) : x(j), lox(i - 1, j), hix(i - 1, j));
        for (int i = 0; i < d.ch; i++)
            for (int j = 0; j < d.nu; j++) gu(i, j) = clamp(warm ? pu(std::min(i + 1, d.ch - 1), j) : u(j), lou(i, j), hiu(i, j));
        for (int i = d.ch; i <= d.ph; i++) gu.row(i) = gu.row(d.ch - 1);
        if (par.hard_constraints) ge = 0;
        recs->clear();
        *boom = s.chance(1, 5) ? 2 + (long)s.below(60) : -1;
        mpc::Result<> r = m.optimize(x, u);
        auto sq = m.getOptimalSequence();
        hist += *boom > 0 ? " optimize(fault)" : " optimize";
        auto ctx = [&]() { return d.str() + hist + (warm ? " (warm)" : " (cold)"); };
        if (recs->empty()) {  // refused: contradicting bounds cannot happen here
            pbt::fail("no-evaluation", ctx() + " -> " + resStr(r) + ": the cost was never evaluated");
        }
        const Rec &f = (*recs)[0];
        auto near = [&](double a, double b) { return std::abs(a - b) <= 1e-9 * (1 + std::abs(b)); };
        for (int j = 0; j < d.nx; j++) PBT_CHECK(f.X(0, j) == x(j), "initial-row", "%s: first row %.17g, state %.17g", ctx().c_str(), f.X(0, j), x(j));
        for (int i = 1; i <= d.ph; i++)
            for (int j = 0; j < d.nx; j++) PBT_CHECK(near(f.X(i, j), gx(i, j)), warm ? "warm-state" : "cold-state", "%s: starts with state %d of step %d = %.12g, expected %.12g", ctx().c_str(), j, i, f.X(i, j), gx(i, j));
        for (int i = 0; i <= d.ph; i++)
            for (int j = 0; j < d.nu; j++) PBT_CHECK(near(f.U(i, j), gu(i, j)), warm ? "warm-input" : "cold-input", "%s: starts with input %d of step %d = %.12g, expected %.12g", ctx().c_str(), j, i, f.U(i, j), gu(i, j));
        PBT_CHECK(near(f.e, ge), "slack", "%s: starts with slack %g, expected %g", ctx().c_str(), f.e, ge);
        (warm ? nwarm : ncold)++;
        if (r.status == mpc::ERROR) { nfault++; continue; }
        have = true;
        px = sq.state;
        pu = sq.input;
        // the slack of the solution: from the evaluation of the returned trajectory
        double best = 1e300;
        G<double> X = fromEigen(sq.state), U = fromEigen(sq.input), Y = fromEigen(sq.output);
        for (auto &q : *recs) {
            double e = 0;
            for (size_t z = 0; z < X.v.size(); z++) e = std::max(e, std::abs(q.X.v[z] - X.v[z]));
            for (size_t z = 0; z < U.v.size(); z++) e = std::max(e, std::abs(q.U.v[z] - U.v[z]));
            if (e > 1e-9) continue;
            double w = std::abs(q.v - r.cost);
            if (w < best) { best = w; pe = q.e; }
        }
        if (best > 1e-6 * (1 + std::abs(r.cost))) throw pbt::Discard();
    }
    if (d.ph > 6) c.label("large");
    c.nontrivial = nwarm > 0 && ncold > 0 && d.ph >= 2;
    if (clamped) c.label("clamped");
    if (nfault) c.label("failed-runs");
    if (nwarm) c.label("warm");
    if (c.wantSample) c.sample = d.str() + hist;
}

// the solution does not depend on where the solver starts
static void sameSolution(Src &s, Case &c) {
    quiet();
    Dims d = genDims(s, 5, 2);
    POpt o;
    o.linear = true;
    o.stepDep = false;
    o.cons = false;
    auto sp = std::make_shared<Spec>(genProblem(s, d, o));
    Ctrl a(d.nx, d.nu, d.ny, d.ph, d.ch, 0, 0), b(d.nx, d.nu, d.ny, d.ph, d.ch, 0, 0);
    auto par = tightParams();
    double lim = s.uniform(0.2, 4);
    for (Ctrl *m : {&a, &b}) {
        bindModel(*m, sp);
        if (sp->hasOut) m->setOutputFunction(outFn(sp));
        m->setObjectiveFunction(objFn(sp));
        m->setInputBounds(VecD::Constant(d.nu, -lim), VecD::Constant(d.nu, lim), mpc::HorizonSlice::all());
    }
    a.setOptimizerParameters(par);
    par.enable_warm_start = true;
    b.setOptimizerParameters(par);
    int cmp = 0, steps = s.irange(2, 5);
    VecD x = genVec(s, d.nx, 3), u = VecD::Zero(d.nu);
    for (int k = 0; k < steps; k++) {
        mpc::Result<> ra = a.optimize(x, u), rb = b.optimize(x, u);
        auto sa = a.getOptimalSequence(), sb = b.getOptimalSequence();
        if (ra.status == mpc::SUCCESS && rb.status == mpc::SUCCESS && maxResidual(*sp, sa.state, sa.input) < 1e-7 && maxResidual(*sp, sb.state, sb.input) < 1e-7) {
            double e = (sa.state - sb.state).cwiseAbs().maxCoeff() + (sa.input - sb.input).cwiseAbs().maxCoeff();
            PBT_CHECK(e <= 1e-3 * (1 + sa.state.cwiseAbs().maxCoeff() + sa.input.cwiseAbs().maxCoeff()), "solution", "%s step %d: warm and cold solutions differ by %g (%s / %s)", d.str().c_str(), k, e, resStr(ra).c_str(), resStr(rb).c_str());
            PBT_CHECK(std::abs(ra.cost - rb.cost) <= 1e-5 * (1 + std::abs(ra.cost)), "solution-cost", "%s step %d: warm and cold costs differ: %.12g %.12g", d.str().c_str(), k, ra.cost, rb.cost);
            if (k) cmp++;
        }
        x = ra.status == mpc::ERROR ? genVec(s, d.nx, 3) : VecD(sa.state.row(1));
        if (s.chance(1, 4)) x = genVec(s, d.nx, 3);
        u = ra.cmd;
    }
    c.nontrivial = cmp > 0;
}

void pbt_register(pbt::Runner &r) {
    r.assumptions.push_back("the solver evaluates the cost at the starting point first (NLopt's SLSQP does)");
    r.add("starting-point", start, 25000, 1500000, "prediction horizon >= 2 and both a warm and a cold start were compared with the model", 0.25);
    r.add("same-solution", sameSolution, 10000, 300000, "a warm started and a cold started optimisation both converged and were compared", 0.5);
}
PBT_MAIN("N13")
