// N04: the dynamics constraint (discrete map, or trapezoidal rule for continuous models) and its gradient.
#include "../harness/nl.hpp"
using namespace nl;

template <mpc::MPCSize SZ>
static void prop(Src &s, Case &c, Dims d) {
    auto sp = std::make_shared<Spec>(genSpec(s, d));
    Spec &p = *sp;
    bool scaled = s.coin();
    if (scaled) genScales(s, p, true);
    VecD x0;
    bool wide = false;
    VecD z;
    x0 = genVec(s, d.nx, 3);
    z = VecD(d.nz());
    wide = s.chance(1, 3);
    auto val = [&]() { return wide && s.chance(1, 3) ? s.sgn() * s.positive(1e-3, 1e3) : s.real(3); };
    for (int i = 0; i < d.ph * d.nx; i++) z(i) = val() / p.sx(i % d.nx);
    for (int i = 0; i < d.ch * d.nu; i++) z(d.ph * d.nx + i) = val() / p.su(i % d.nu);
    z(d.nz() - 1) = s.coin() ? 0.0 : s.real(2);
    if (vanish(s, p, z, x0)) c.label("origin");
    quiet();
    Parts<SZ> parts;
    parts.wireAfter(s, sp, x0, z);
    auto F = [&](const auto &zz) {
        using S = typename std::decay_t<decltype(zz)>::value_type;
        G<S> X, U;
        S e;
        p.unwrap(zz, x0, X, U, e);
        auto r = p.dynRes(X, U);
        return r;
    };
    int m = d.ph * d.nx;
    int reps = s.irange(1, 2);
    bool traj = s.coin();
    if (traj && !p.cont) {  // a trajectory of the model must satisfy the constraint
        std::vector<double> zz = lift<double>(z);
        G<double> X, U;
        double e;
        p.unwrap(zz, x0, X, U, e);
        bool ok = true;
        for (int i = 0; i < d.ph; i++) {
            std::vector<double> f(d.nx);
            p.stepF(f.data(), Spec::rowOf(X, i), Spec::rowOf(U, i), i);
            for (int j = 0; j < d.nx; j++) { X(i + 1, j) = f[j]; z(i * d.nx + j) = f[j] / p.sx(j); if (!(std::abs(f[j]) < 1e4)) ok = false; }
        }
        if (!ok) throw pbt::Discard{};
    }
    for (int k = 0; k < reps; k++) {
        if (k) parts.con.evaluateStateModelEq(genVec(s, d.nz(), 2), s.coin());
        auto r = parts.con.evaluateStateModelEq(z, true);
        PBT_CHECK(r.value.size() == m && r.grad.size() == m * d.nz(), "size", "%s: %d residuals, %d derivatives", d.str().c_str(), (int)r.value.size(), (int)r.grad.size());
        auto ref = F(lift<double>(z));
        auto mag = F(lift<Mag>(z));
        // the sign of the residual is immaterial to an equality constraint, but value and gradient must agree on it
        double worst = 0, worstNeg = 0;
        int at = 0;
        for (int i = 0; i < m; i++) {
            double tol = 1e-9 * (1e-3 + mag[i].v);
            double a = std::abs(r.value(i) - ref[i]) / tol, b = std::abs(r.value(i) + ref[i]) / tol;
            if (!(a <= worst)) { worst = a; at = i; }
            if (!(b <= worstNeg)) worstNeg = b;
        }
        double sg = worst <= 1 ? 1 : -1;
        PBT_CHECK(worst <= 1 || worstNeg <= 1, p.cont ? "residual-continuous" : "residual-discrete", "%s %s ts=%g: dynamics residual of step %d state %d is %.17g, expected %.17g", d.str().c_str(),
                  p.cont ? "continuous" : "discrete", p.ts, at / d.nx, at % d.nx, r.value(at), ref[at]);
        for (int j = 0; j < d.nz(); j++) {
            std::vector<double> g(m);
            for (int i = 0; i < m; i++) g[i] = sg * r.grad(i * d.nz() + j);
            checkGrad(p, z, j, g, F, F, j < d.ph * d.nx ? "gradient-state" : j < d.nz() - 1 ? "gradient-input" : "gradient-slack");
        }
        auto v2 = parts.con.evaluateStateModelEq(z, false);
        PBT_CHECK(v2.value == r.value, "value-without-gradient", "%s: residuals depend on whether a gradient was requested", d.str().c_str());
    }
    if (traj && !p.cont) c.label("on-trajectory");
    if (d.ph > 6) c.label("large");
    c.nontrivial = d.ph >= 2;
    c.label(p.cont ? "continuous" : "discrete");
    if (scaled) c.label("scaled");
    if (wide) c.label("wide");
    if (d.ch < d.ph) c.label("held");
    if (c.wantSample) c.sample = d.str() + fmt(" %s ts=%g scaled=%d z=", p.cont ? "continuous" : "discrete", p.ts, scaled) + vstr(z);
}

void pbt_register(pbt::Runner &r) {
    std::string rule = "prediction horizon >= 2 (the constraint couples decision states)";
    r.add("runtime-sized", [](Src &s, Case &c) { prop<DYN>(s, c, genDims(s, 6, 3, 100, 20, 8)); }, 120000, 3600000, rule, 0.3);
    r.add("fixed-sized", [](Src &s, Case &c) {
        Dims d;
        if (s.coin()) { d = {2, 1, 1, 4, 2, 0, 0}; return prop<mpc::MPCSize(2, 1, 0, 1, 4, 2, 0, 0)>(s, c, d); }
        d = {3, 2, 1, 5, 5, 0, 0};
        return prop<mpc::MPCSize(3, 2, 0, 1, 5, 5, 0, 0)>(s, c, d);
    }, 40000, 1200000, rule, 0.3);
}
PBT_MAIN("N04")
