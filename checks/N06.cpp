// N06: the pieces returned by an optimisation describe one consistent solution.
#include "../harness/ctl.hpp"
using namespace nl;
using Ctrl = mpc::NLMPC<>;

static void prop(Src &s, Case &c) {
    quiet();
    Dims d = genDims(s, 6, 3, 100, 14, 5);
    d.ineq = s.chance(1, 3) ? 0 : s.irange(0, 2);
    d.eq = s.chance(1, 3) ? 1 : 0;
    POpt o;
    o.soft = s.coin();
    o.linear = s.coin();
    auto sp = std::make_shared<Spec>(genProblem(s, d, o));
    double ineqTol = s.coin() ? 1e-10 : 1e-3, eqTol = s.coin() ? 1e-10 : 1e-3;
    float fi = (float)ineqTol, fe = (float)eqTol;
    Ctrl m(d.nx, d.nu, d.ny, d.ph, d.ch, d.ineq, d.eq);
    bool scaled = s.chance(1, 2);
    if (scaled && s.coin()) { genScales(s, *sp); m.setStateScale(sp->sx); m.setInputScale(sp->su); }
    bindModel(m, sp);
    auto recs = std::make_shared<std::vector<Rec>>();
    if (sp->hasOut) m.setOutputFunction(outFn(sp));
    m.setObjectiveFunction([=](const auto &x, const auto &y, const auto &u, double e) -> double {
        Rec r;
        r.X = fromEigen(x); r.Y = fromEigen(y); r.U = fromEigen(u); r.e = e;
        r.v = sp->objF(r.X, r.Y, r.U, e);
        recs->push_back(r);
        return r.v;
    });
    if (sp->hasIneq) m.setIneqConFunction(ineqFn(sp), fi);
    if (sp->hasEq) m.setEqConFunction(eqFn(sp), fe);
    auto par = tightParams();
    par.hard_constraints = !o.soft;
    m.setOptimizerParameters(par);
    bool bounded = false;
    if (s.chance(1, 3)) {
        VecD lo = VecD::Constant(d.nu, -s.uniform(0.2, 2)), hi = VecD::Constant(d.nu, s.uniform(0.2, 2));
        m.setInputBounds(lo, hi, mpc::HorizonSlice::all());
        bounded = true;
    }
    std::string hist;
    int nopt = 0, nconv = 0, nfollow = 0, nfeas = 0, ninf = 0, steps = s.irange(1, 6);
    VecD lastCmd = VecD::Zero(d.nu);
    VecD fb;  // closed loop state
    VecD x0, u0;
    for (int k = 0; k < steps || !nopt; k++) {
        int op = k >= steps ? 5 : (int)s.below(8);
        if (op == 0) {
            par.enable_warm_start = s.coin();
            par.maximum_iteration = s.coin() ? 300 : s.irange(1, 30);
            bool tight = s.coin();
            par.relative_ftol = tight ? 1e-11 : 1e-4;
            par.relative_xtol = tight ? 1e-9 : 1e-4;
            par.absolute_ftol = 1e-12;
            par.absolute_xtol = 1e-10;
            // without any tolerance the solver goes on until round-off stops it
            if (s.chance(1, 4)) par.relative_ftol = par.relative_xtol = par.absolute_ftol = par.absolute_xtol = -1;
            par.time_limit = s.chance(1, 3) ? (s.coin() ? 1e-9 : s.positive(1e-6, 1e-3)) : 0;
            m.setOptimizerParameters(par);
            hist += " parameters";
            continue;
        }
        if (op == 1 && scaled) { genScales(s, *sp); m.setStateScale(sp->sx); m.setInputScale(sp->su); hist += " scales"; continue; }
        // the fed back state, a new one, or the same measurement again
        if (!x0.size() || s.chance(3, 4)) x0 = fb.size() && s.coin() ? fb : genVec(s, d.nx, 3), u0 = genVec(s, d.nu, 2);
        recs->clear();
        mpc::Result<> r = m.optimize(x0, u0);
        auto sq = m.getOptimalSequence();
        nopt++;
        hist += " optimize";
        auto ctx = [&]() { return d.str() + hist + " -> " + resStr(r); };
        // the last-result query shows the same result
        mpc::Result<> l = m.getLastResult();
        std::vector<double> a, b;
        flatten(a, r, sq);
        flatten(b, l, m.getOptimalSequence());
        size_t at;
        PBT_CHECK(same(a, b, at), "last-result", "%s: getLastResult differs (%s)", ctx().c_str(), resStr(l).c_str());
        PBT_CHECK(r.cmd.size() == d.nu && sq.state.rows() == d.ph + 1 && sq.state.cols() == d.nx && sq.input.rows() == d.ph + 1 && sq.input.cols() == d.nu && sq.output.rows() == d.ph + 1 && sq.output.cols() == d.ny,
                  "shape", "%s: result shapes are wrong", ctx().c_str());
        // status follows the solver code (NLopt's public codes)
        mpc::ResultStatus want = r.solver_status == 5 || r.solver_status == 6 ? mpc::MAX_ITERATION : r.solver_status >= 1 && r.solver_status <= 4 ? mpc::SUCCESS : r.solver_status < 0 ? mpc::ERROR : mpc::UNKNOWN;
        PBT_CHECK(r.status == want && r.solver_status != 0, "status", "%s: status %d for solver code %d", ctx().c_str(), (int)r.status, r.solver_status);
        if (r.solver_status == 6) c.label("time-limit");
        if (r.status == mpc::ERROR) {
            c.label("solver-error");
            PBT_CHECK(r.solver_status == -1 && !r.is_feasible && r.cost == std::numeric_limits<double>::infinity() && !r.solver_status_msg.empty(), "error-fields", "%s: fields of a failed optimisation", ctx().c_str());
            PBT_CHECK(VecD(r.cmd) == lastCmd, "error-command", "%s: a failed optimisation commands %s, the last successful one %s", ctx().c_str(), vstr(VecD(r.cmd)).c_str(), vstr(lastCmd).c_str());
            PBT_CHECK(sq.state.isZero(0) && sq.input.isZero(0) && sq.output.isZero(0), "error-sequence", "%s: the sequences of a failed optimisation are not zero", ctx().c_str());
            continue;
        }
        lastCmd = r.cmd;
        G<double> X = fromEigen(sq.state), U = fromEigen(sq.input), Y = fromEigen(sq.output);
        for (int j = 0; j < d.nx; j++) PBT_CHECK(X(0, j) == x0(j), "initial-state", "%s: the sequence starts at %.17g, the given state is %.17g", ctx().c_str(), X(0, j), x0(j));
        for (int i = 0; i <= d.ph; i++)
            for (int j = 0; j < d.nu; j++) PBT_CHECK(U(i, j) == U(std::min(i, d.ch - 1), j), "input-hold", "%s: input row %d is not held", ctx().c_str(), i);
        for (int j = 0; j < d.nu; j++) PBT_CHECK(r.cmd(j) == U(0, j), "command", "%s: command %d is %.17g, first input of the sequence %.17g", ctx().c_str(), j, r.cmd(j), U(0, j));
        G<double> Yw = sp->outputs(X, U);
        for (int i = 0; i <= d.ph; i++)
            for (int j = 0; j < d.ny; j++)
                PBT_CHECK(std::abs(Y(i, j) - Yw(i, j)) <= 1e-12 * (1 + std::abs(Yw(i, j))), "output", "%s: output %d of row %d is %.12g, the output function gives %.12g", ctx().c_str(), j, i, Y(i, j), Yw(i, j));
        // the cost callback saw exactly this trajectory; it tells the slack
        const Rec *hit = nullptr;
        double best = 1e-12;
        for (auto &q : *recs) {
            double e = 0;
            for (size_t z = 0; z < X.v.size(); z++) e = std::max(e, std::abs(q.X.v[z] - X.v[z]) / (1 + std::abs(X.v[z])));
            for (size_t z = 0; z < U.v.size(); z++) e = std::max(e, std::abs(q.U.v[z] - U.v[z]) / (1 + std::abs(U.v[z])));
            if (e <= 1e-12) e = std::abs(q.v - r.cost) / (1e-300 + 1e6 * (1 + std::abs(r.cost)));
            if (e < best) { best = e; hit = &q; }
        }
        PBT_CHECK(hit, "unseen-trajectory", "%s: the returned trajectory was never evaluated", ctx().c_str());
        double slack = hit->e;
        if (!o.soft) PBT_CHECK(slack == 0, "hard-slack", "%s: slack %g with hard constraints", ctx().c_str(), slack);
        double cost = sp->objF(X, Y, U, slack);
        PBT_CHECK(std::abs(cost - r.cost) <= 1e-9 * (1 + std::abs(cost)), "cost", "%s: reported cost %.15g, the sequence costs %.15g", ctx().c_str(), r.cost, cost);
        // feasibility flag
        bool feas = true, close = false;
        if (sp->hasIneq)
            for (double v : sp->conF(sp->ineq, X, Y, U, slack)) {
                if (v > fi) feas = false;
                if (std::abs(v - fi) < 1e-13) close = true;
            }
        if (sp->hasEq)
            for (double v : sp->conF(sp->eq, X, Y, U, 0.0)) {
                if (std::abs(v) > fe) feas = false;
                if (std::abs(std::abs(v) - fe) < 1e-13) close = true;
            }
        if (!close) PBT_CHECK(r.is_feasible == feas, "feasibility-flag", "%s: feasibility flag %d, the user constraints say %d", ctx().c_str(), (int)r.is_feasible, (int)feas);
        (feas ? nfeas : ninf)++;
        if (r.status == mpc::SUCCESS && par.relative_xtol < 1e-6) {
            nconv++;
            double res = maxResidual(*sp, sq.state, sq.input);
            bool free = !sp->hasEq && (!sp->hasIneq || o.soft);  // always feasible
            if (free) PBT_CHECK(res < 1e-4, "dynamics", "%s: converged sequence misses the model by %g", ctx().c_str(), res);
            if (res < 1e-6) nfollow++;
        }
        if (sq.state.allFinite() && sq.state.cwiseAbs().maxCoeff() < 1e3) fb = sq.state.row(1);
    }
    if (d.ph > 6) c.label("large");
    c.nontrivial = nconv > 0 && nfollow > 0 && d.ph >= 2;
    if (ninf) c.label("infeasible");
    if (nfeas) c.label("feasible");
    if (scaled) c.label("scaled");
    if (bounded) c.label("bounded");
    if (c.wantSample) c.sample = d.str() + (sp->cont ? " continuous" : " discrete") + (o.soft ? " soft" : " hard") + hist;
}

void pbt_register(pbt::Runner &r) {
    r.assumptions.push_back("contractive dynamics, strictly convex costs and linear user constraints, so that the solver converges on almost all problems");
    r.add("calls", prop, 40000, 1500000, "prediction horizon >= 2, at least one tightly converged optimisation whose sequence follows the model within 1e-6", 0.4);
}
PBT_MAIN("N06")
