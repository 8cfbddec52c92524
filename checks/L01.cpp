// L01: the quadratic program is the documented cost and model.
#include "../harness/lin.hpp"
using namespace lin;

// largest violation over the rows, each relative to the size of its own terms: the same verdict whatever the units of the states and commands
static double relViolation(const fake::Program &g, const VecD &z, int *row = nullptr) {
    double w = -INF;
    for (int r = 0; r < g.A.rows(); r++) {
        double v = g.A.row(r).dot(z), e = std::max(g.l(r) - v, v - g.u(r)), m = g.A.row(r).cwiseAbs().dot(z.cwiseAbs());
        if (std::isfinite(g.l(r))) m = std::max(m, std::fabs(g.l(r)));
        if (std::isfinite(g.u(r))) m = std::max(m, std::fabs(g.u(r)));
        if (std::isnan(e)) e = INF;
        if (m > 0) e /= m;
        else if (e > 0) e = INF;
        if (e > w) { w = e; if (row) *row = r; }
    }
    return w;
}
static void prop(Src &s, Case &c) {
    quiet();
    fake::reset();
    LSpec p(genDims(s, 4, 7, 50));
    auto &d = p.d;
    genModel(s, p);
    genCost(s, p);
    VecD sx = VecD::Ones(d.nx), su = VecD::Ones(d.nu);
    bool units = s.chance(1, 4);
    if (units) {  // the same plant in other units: tiny and huge coefficients side by side
        for (int i = 0; i < d.nx; i++) sx(i) = std::ldexp(1.0, s.irange(-40, 40));
        for (int i = 0; i < d.nu; i++) su(i) = std::ldexp(1.0, s.irange(-20, 20));
        p.A = sx.asDiagonal() * p.A * sx.cwiseInverse().asDiagonal();
        p.B = sx.asDiagonal() * p.B * su.cwiseInverse().asDiagonal();
        p.C = p.C * sx.cwiseInverse().asDiagonal();
        p.Bd = sx.asDiagonal() * p.Bd;
        for (MatD *w : {&p.wu, &p.wd}) *w = su.cwiseAbs2().cwiseInverse().asDiagonal() * *w;
        for (MatD *r : {&p.ru, &p.rd}) *r = su.asDiagonal() * *r;
        c.label("other units");
    }
    VecD x0 = sx.cwiseProduct(genV(s, d.nx, 5)), last = su.cwiseProduct(genV(s, d.nu, 3));
    auto m = make(d);
    std::string how;
    fake::st().script = [](const fake::Program &g) { fake::Outcome o; o.exact = false; o.x.assign(g.q.size(), 0); o.y.assign(g.l.size(), 0); return o; };
    applyAfter(s, *m, p, x0, last, &how);
    size_t before = fake::st().runs.size();
    dump(c, p);
    m->optimize(x0, last);
    protocol();
    PBT_CHECK(fake::st().runs.size() == before + 1, "no-run", "the solver was called %zu times", fake::st().runs.size() - before);
    const fake::Program g = fake::st().runs.back();
    PBT_CHECK(g.P.allFinite() && g.q.allFinite() && g.A.allFinite(), "not-finite", "the program holds values that are not numbers; %s", str(d).c_str());
    std::vector<double> diff;
    double mag = 0;
    for (int t = 0; t < 3; t++) {
        MatD U = su.asDiagonal() * genMat(s, d.nu, d.ph, 5);
        for (int k = d.ch; k < d.ph; k++) U.col(k) = U.col(d.ch - 1);
        Traj tr = simulate(p, x0, last, U);
        VecD z = pack(p, tr);
        PBT_CHECK(z.size() == g.q.size(), "layout", "the program has %d variables instead of %d", (int)g.q.size(), (int)z.size());
        int row = -1;
        double v = relViolation(g, z, &row);
        PBT_CHECK(v < 1e-11, "model-row", "a trajectory of the model violates row %d by %g (setters%s); %s", row, v, how.c_str(), str(d).c_str());
        int k = (int)s.below(z.size());
        VecD w = z;
        int nv = d.nx + d.nu, q = k < (d.ph + 1) * nv ? k % nv : d.nx + (k - (d.ph + 1) * nv) % d.nu;
        w(k) += 0.5 * s.sgn() * ((q < d.nx ? sx(q) : su(q - d.nx)) + std::fabs(z(k)));
        PBT_CHECK(relViolation(g, w) > 1e-9, "model-loose", "entry %d of a trajectory can be changed freely; %s", k, str(d).c_str());
        double mg, cst = cost(p, tr, &mg);
        mag = std::max(mag, mg);
        // round-off in the terms of the quadratic form, whatever their order
        double om = 0.5 * z.cwiseAbs().dot(g.P.cwiseAbs() * z.cwiseAbs()) + g.q.cwiseAbs().dot(z.cwiseAbs());
        mag = std::max(mag, om);
        diff.push_back(progObj(g, z) - 0.5 * cst);
        if (d.ch < d.ph && t == 2) {
            int at = s.irange(d.ch, d.ph - 1);
            for (int q = at; q < d.ph; q++) U(0, q) += su(0);
            int r2;
            double v2 = relViolation(g, pack(p, simulate(p, x0, last, U)), &r2);
            PBT_CHECK(v2 > 1e-9, "control-horizon", "the input may still change at step %d after a control horizon of %d; %s", at, d.ch, str(d).c_str());
        }
    }
    for (int t = 1; t < 3; t++)
        PBT_CHECK(std::fabs(diff[t] - diff[0]) <= 1e-10 * (1 + mag), "objective", "the objective minus half the documented cost is %.12g on one trajectory and %.12g on another (setters%s); %s", diff[0], diff[t], how.c_str(), str(d).c_str());
    if (d.ph > 7) c.label("large");
    c.nontrivial = d.ph > 1 && d.nx + d.nu > 2 && (p.wy.any() || p.wu.any() || p.wd.any());
    c.label(d.ch < d.ph ? "short control horizon" : "full control horizon");
    c.label(p.Dd.size() && !p.Dd.isZero(0) ? "output disturbance" : "no output disturbance");
    if (c.wantSample) c.sample = str(d) + " setters" + how;
}
void pbt_register(pbt::Runner &r) {
    r.add("program", prop, 60000, 2000000, "horizon above 1, more than one state or input, some weight not zero", 0.5);
}
PBT_MAIN("L01")
