// L08: the closed loop of a linear controller with its own model: recursively feasible, cost decreasing by the stage cost,
// the state the plant reaches is the one predicted.
#include "../harness/lin.hpp"
using namespace lin;

static void prop(Src &s, Case &c) {
    quiet();
    fake::reset();
    LDims d = genDims(s, 3, 6, 100, 4, 12);
    d.ph = d.ch = s.irange(2, 6);  // every input of the horizon is free
    while (d.ph * d.nu < d.nx + 1) d.ph = ++d.ch;
    LSpec p(d);
    genModel(s, p);
    p.A += 0.6 * MatD::Identity(d.nx, d.nx);
    if (std::abs(p.A.determinant()) < 0.05 || p.A.norm() > 4) throw pbt::Discard();
    MatD Ai = p.A.inverse();
    if (Ai.norm() > 30) throw pbt::Discard();
    VecD q = VecD(d.ny), r = VecD(d.nu);
    for (int i = 0; i < d.ny; i++) q(i) = s.positive(0.05, 20);
    for (int i = 0; i < d.nu; i++) r(i) = s.positive(0.05, 20);
    for (int k = 0; k < d.ph; k++) { p.wy.col(k) = q; p.wu.col(k) = r; }
    p.wd.setZero();
    // an admissible trajectory that ends in the origin, built backwards; limits hold it and the origin
    bool terminal = s.chance(4, 5);
    VecD x = VecD::Zero(d.nx);
    VecD uM = VecD::Zero(d.nu), um = uM, xM = x, xm = x, yM = VecD::Zero(d.ny), ym = yM;
    auto cover = [](VecD &lo, VecD &hi, const VecD &v) { lo = lo.cwiseMin(v); hi = hi.cwiseMax(v); };
    for (int k = 0; k < d.ph; k++) {
        VecD u = genV(s, d.nu, 2);
        x = Ai * (x - p.B * u);
        cover(um, uM, u); cover(xm, xM, x); cover(ym, yM, p.C * x);
    }
    if (x.norm() > 200) throw pbt::Discard();
    VecD last(d.nu);
    for (int i = 0; i < d.nu; i++) last(i) = s.uniform(um(i), uM(i));
    int fin = 0;
    auto widen = [&](MatD &lo, MatD &hi, const VecD &a, const VecD &b) {
        if (!s.chance(2, 3)) return;
        for (int i = 0; i < a.size(); i++) {
            if (s.chance(2, 3)) { double l = a(i) - s.positive(0.01, 3); for (int k = 0; k < lo.cols(); k++) lo(i, k) = l; fin++; }
            if (s.chance(2, 3)) { double h = b(i) + s.positive(0.01, 3); for (int k = 0; k < hi.cols(); k++) hi(i, k) = h; fin++; }
        }
    };
    widen(p.ulo, p.uhi, um, uM);
    if (terminal) {
        widen(p.xlo, p.xhi, xm, xM);
        widen(p.ylo, p.yhi, ym, yM);
        for (int i = 0; i < d.nx; i++) p.xlo(i, d.ph - 1) = p.xhi(i, d.ph - 1) = 0;
    }
    auto m = make(d);
    std::string how;
    apply(s, *m, p, &how);
    dump(c, p);
    mpc::LParameters par;
    par.enable_warm_start = s.coin();
    m->setOptimizerParameters(par);
    fake::st().script = [](const fake::Program &) { return fake::Outcome(); };
    int T = s.irange(3, 12), ran = 0;
    double before = INF, scale = 0;
    VecD predicted;
    for (int t = 0; t < T; t++) {
        if (t && s.chance(1, 4)) apply(s, *m, p, &how);  // the same settings once more
        auto at = [&]() { return fmt("step %d of the closed loop, setters%s; ", t, how.c_str()) + str(d); };
        auto res = m->optimize(x, last);
        auto seq = m->getOptimalSequence();
        protocol();
        if (res.status != mpc::ResultStatus::SUCCESS) {
            // the stand-in may give up on the numbers, but not because the program excludes the rest of the last prediction
            if (t) {
                MatD U = predicted.reshaped(d.nu, d.ph);
                int row;
                double v = rowsViolation(fake::st().runs.back(), pack(p, simulate(p, x, last, U)), &row);
                PBT_CHECK(v < 1e-4 * (1 + scale), "not-recursive", "%s: the program excludes the rest of the previous prediction by %g in row %d", at().c_str(), v, row);
            }
            c.label("stand-in did not converge");
            break;
        }
        PBT_CHECK(res.is_feasible, "infeasible", "%s: the solution is reported as not feasible", at().c_str());
        VecD u = res.cmd, y = p.C * x;
        Traj tr = simulate(p, x, last, MatD(MatD(seq.input).topRows(d.ph).transpose()));
        double mg, J = cost(p, tr, &mg);
        scale = std::max({1.0, tr.X.cwiseAbs().maxCoeff(), tr.U.cwiseAbs().maxCoeff()});
        double tol = 1e-5 * (1 + mg);
        if (terminal) PBT_CHECK(J <= before + tol, "cost-increases", "%s: the optimal cost is %.10g; the rest of the previous prediction costs %.10g", at().c_str(), J, before);
        std::string where;
        double v = worst(limits(p, tr), &where);
        PBT_CHECK(v < 1e-5 * scale, "limit", "%s: %s is violated by %g", at().c_str(), where.c_str(), v);
        before = J - sq(q, y) - sq(r, u);
        // the plant is the model
        VecD xn = p.A * x + p.B * u;
        PBT_CHECK((xn - VecD(seq.state.row(1).transpose())).cwiseAbs().maxCoeff() < 1e-5 * scale, "prediction", "%s: the plant reaches another state than predicted", at().c_str());
        x = xn;
        last = u;
        predicted = VecD::Zero(d.nu * d.ph);
        for (int k = 1; k < d.ph; k++) predicted.segment((k - 1) * d.nu, d.nu) = tr.U.col(k);
        ran++;
    }
    if (d.ph > 6) c.label("large");
    c.nontrivial = ran >= 3 && terminal;
    c.label(terminal ? "terminal state" : "no terminal state");
    if (fin) c.label("with limits");
    if (par.enable_warm_start) c.label("warm start");
    if (c.wantSample) c.sample = fmt("%s, %d finite limits, terminal state %d, %d steps", str(d).c_str(), fin, terminal, ran);
}
void pbt_register(pbt::Runner &r) {
    r.add("loop", prop, 8000, 200000, "at least three closed-loop steps with a terminal state", 0.3);
}
PBT_MAIN("L08")
