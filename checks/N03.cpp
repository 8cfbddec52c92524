// N03: values and gradients of the user's inequality and equality constraints, and the feasibility test.
#include "../harness/nl.hpp"
using namespace nl;

template <mpc::MPCSize SZ>
static void prop(Src &s, Case &c, Dims d) {
    auto sp = std::make_shared<Spec>(genSpec(s, d));
    Spec &p = *sp;
    bool scaled = s.coin();
    if (scaled) genScales(s, p, true);
    p.hasIneq = !s.chance(1, 8);  // also for an empty set: the function is then never asked for a value
    p.hasEq = !s.chance(1, 8);
    VecD x0;
    bool wide;
    VecD z = genZ(s, p, x0, wide);
    if (wide)
        for (auto *fs : {&p.ineq, &p.eq})
            for (auto &f : *fs)
                for (auto &t : f.terms) {
                    if (t.a.k != KK && t.a.k != KE && t.a.r == 0) t.a.r = 1;
                    if (t.b.k != KK && t.b.k != KE && t.b.r == 0) t.b.r = 1;
                }
    if (vanish(s, p, z, x0)) c.label("origin");
    quiet();
    Parts<SZ> parts;
    float itol = parts.itol = (float)s.positive(1e-10, 1e-2), etol = parts.etol = (float)s.positive(1e-10, 1e-2);
    parts.wireAfter(s, sp, x0, z);
    auto FI = [&](const auto &zz) {
        using S = typename std::decay_t<decltype(zz)>::value_type;
        G<S> X, U;
        S e;
        p.unwrap(zz, x0, X, U, e);
        return p.conF(p.ineq, X, p.outputs(X, U), U, e);
    };
    auto FE = [&](const auto &zz) {
        using S = typename std::decay_t<decltype(zz)>::value_type;
        G<S> X, U;
        S e;
        p.unwrap(zz, x0, X, U, e);
        return p.conF(p.eq, X, X, U, S(0.0));
    };
    int reps = s.irange(1, 2);
    // what the test must answer; points within round-off of a tolerance are not judged
    bool feasible = true, clear = true;
    for (int which = 0; which < 2; which++) {
        if (!(which ? p.hasEq && d.eq : p.hasIneq && d.ineq)) continue;
        auto ref = which ? FE(lift<double>(z)) : FI(lift<double>(z));
        auto mag = which ? FE(lift<Mag>(z)) : FI(lift<Mag>(z));
        for (size_t i = 0; i < ref.size(); i++) {
            double excess = which ? std::abs(ref[i]) - (double)etol : ref[i] - (double)itol;
            if (excess > 0) feasible = false;
            if (std::abs(excess) <= 1e-9 * (1e-3 + mag[i].v)) clear = false;
        }
    }
    auto test = [&]() {
        if (!clear) return;
        bool f = parts.con.isFeasible(z);
        PBT_CHECK(f == feasible, "feasibility", "%s: point reported %s but the user constraints say %s (tolerances %g and %g)", d.str().c_str(), f ? "feasible" : "infeasible",
                  feasible ? "feasible" : "infeasible", (double)itol, (double)etol);
        c.label(feasible ? "feasible" : "infeasible");
    };
    for (int k = 0; k < reps; k++) {
        if (k) {  // evaluations elsewhere in between must not matter
            VecD other = genVec(s, d.nz(), 2);
            if (s.chance(2, 3)) parts.con.evaluateIneq(other, s.coin());
            if (s.chance(2, 3)) parts.con.evaluateEq(other, s.coin());
            if (s.coin()) parts.con.isFeasible(other);
        }
        if (s.coin()) test();
        for (int which = 0; which < 2; which++) {
            bool ineq = which == 0;
            int m = ineq ? d.ineq : d.eq;
            bool has = ineq ? p.hasIneq : p.hasEq;
            VecD val, grad;
            if (ineq) { auto r = parts.con.evaluateIneq(z, true); val = r.value; grad = r.grad; }
            else { auto r = parts.con.evaluateEq(z, true); val = r.value; grad = r.grad; }
            PBT_CHECK(val.size() == m && grad.size() == m * d.nz(), "constraint-size", "%s: %d values and %d derivatives", d.str().c_str(), (int)val.size(), (int)grad.size());
            if (!has) {
                if (m) PBT_CHECK(val.cwiseAbs().maxCoeff() == 0 && grad.cwiseAbs().maxCoeff() == 0, "unset-constraint", "%s: a constraint that was not set is not zero", d.str().c_str());
                continue;
            }
            if (!m) continue;
            auto ref = ineq ? FI(lift<double>(z)) : FE(lift<double>(z));
            auto mag = ineq ? FI(lift<Mag>(z)) : FE(lift<Mag>(z));
            for (int i = 0; i < m; i++) {
                double tol = 1e-9 * (1e-3 + mag[i].v);
                PBT_CHECK(std::abs(val(i) - ref[i]) <= tol, ineq ? "ineq-value" : "eq-value", "%s: %s constraint %d is %.17g, expected %.17g", d.str().c_str(), ineq ? "inequality" : "equality", i, val(i), ref[i]);
            }
            for (int j = 0; j < d.nz(); j++) {
                std::vector<double> g(m);
                for (int i = 0; i < m; i++) g[i] = grad(i * d.nz() + j);
                if (ineq) checkGrad(p, z, j, g, FI, FI, j < d.ph * d.nx ? "ineq-gradient-state" : j < d.nz() - 1 ? "ineq-gradient-input" : "ineq-gradient-slack");
                else checkGrad(p, z, j, g, FE, FE, j < d.ph * d.nx ? "eq-gradient-state" : j < d.nz() - 1 ? "eq-gradient-input" : "eq-gradient-slack");
            }
            VecD v2 = ineq ? VecD(parts.con.evaluateIneq(z, false).value) : VecD(parts.con.evaluateEq(z, false).value);
            PBT_CHECK(v2 == val, "value-without-gradient", "%s: constraint values depend on whether a gradient was requested", d.str().c_str());
        }
        if (s.chance(3, 4)) test();
    }
    // the test itself, on prescribed values: everything at most (inequalities) or within (equalities) its tolerance, limits included
    if (s.chance(1, 2) && d.ineq + d.eq > 0) {
        auto vi = std::make_shared<std::vector<double>>(), ve = std::make_shared<std::vector<double>>();
        float ti = s.chance(1, 4) ? 0.f : itol, te = s.chance(1, 4) ? 0.f : etol;
        bool ok = true, edge = false;
        auto value = [&](double t, bool eq) {
            double v;
            switch (s.below(8)) {
            case 0: v = t; break;
            case 1: v = std::nextafter(t, 1e9); break;
            case 2: v = -t; break;
            case 3: v = -std::nextafter(t, 1e9); break;
            case 4: v = 0; break;
            case 5: v = eq ? t / 2 : -1e6; break;
            case 6: v = s.chance(1, 4) ? (double)INFINITY : std::nextafter(t, -1e9); break;
            default: v = s.real(1) * (s.chance(1, 3) ? 10 * t : t); break;
            }
            if (s.chance(1, 2) && !(eq ? std::abs(v) <= t : v <= t)) v = eq ? 0 : -1;  // keep some of them feasible
            if (std::abs(v) == t) edge = true;
            if (!(eq ? std::abs(v) <= t : v <= t)) ok = false;
            return v;
        };
        if (p.hasIneq) {
            for (int i = 0; i < d.ineq; i++) vi->push_back(value(ti, false));
            parts.con.setIneqConstraints([vi](auto &v, const auto &, const auto &, const auto &, const double &) { for (size_t i = 0; i < vi->size(); i++) v(i) = (*vi)[i]; }, ti);
        }
        if (p.hasEq) {
            for (int i = 0; i < d.eq; i++) ve->push_back(value(te, true));
            parts.con.setEqConstraints([ve](auto &v, const auto &, const auto &) { for (size_t i = 0; i < ve->size(); i++) v(i) = (*ve)[i]; }, te);
        }
        bool f = parts.con.isFeasible(z);
        std::string shown;
        for (double v : *vi) shown += fmt(" %.17g", v);
        shown += " |";
        for (double v : *ve) shown += fmt(" %.17g", v);
        PBT_CHECK(f == ok, "feasibility-limit", "%s: point with constraint values%s reported %s (tolerances %.9g and %.9g)", d.str().c_str(), shown.c_str(), f ? "feasible" : "infeasible", (double)ti, (double)te);
        if (edge) c.label("value-at-tolerance");
    }
    // a constraint that cannot be evaluated is not satisfied
    for (int which = 0; which < 2; which++) {
        int m = which ? d.eq : d.ineq;
        if (!m || !(which ? p.hasEq : p.hasIneq) || !s.chance(1, 4)) continue;
        int bad = (int)s.below(m);
        if (which) parts.con.setEqConstraints([m, bad](auto &v, const auto &, const auto &) { for (int i = 0; i < m; i++) v(i) = i == bad ? NAN : 0.0; }, etol);
        else parts.con.setIneqConstraints([m, bad](auto &v, const auto &, const auto &, const auto &, const double &) { for (int i = 0; i < m; i++) v(i) = i == bad ? NAN : -1.0; }, itol);
        PBT_CHECK(!parts.con.isFeasible(z), "feasibility", "%s: point reported feasible although %s %d is not a number", d.str().c_str(), which ? "equality" : "inequality", bad);
        c.label("nan-constraint");
        break;
    }
    bool con = (p.hasIneq && d.ineq) || (p.hasEq && d.eq);
    if (d.ph > 5) c.label("large");
    c.nontrivial = d.ph >= 2 && con;
    if (p.hasIneq) c.label("ineq");
    if (p.hasEq) c.label("eq");
    if (scaled) c.label("scaled");
    if (wide) c.label("wide");
    if (c.wantSample) c.sample = d.str() + fmt(" scaled=%d wide=%d z=", scaled, wide) + vstr(z);
}

void pbt_register(pbt::Runner &r) {
    std::string rule = "prediction horizon >= 2 and at least one user constraint set";
    r.add("runtime-sized", [](Src &s, Case &c) {
        Dims d = genDims(s, 5, 3, 100, 20, 8);
        d.ineq = (int)s.below(4);
        d.eq = (int)s.below(3);
        prop<DYN>(s, c, d);
    }, 150000, 4500000, rule, 0.3);
    r.add("fixed-sized", [](Src &s, Case &c) {
        Dims d;
        if (s.coin()) { d = {2, 1, 2, 4, 2, 2, 1}; return prop<mpc::MPCSize(2, 1, 0, 2, 4, 2, 2, 1)>(s, c, d); }
        d = {1, 2, 1, 3, 3, 1, 2};
        return prop<mpc::MPCSize(1, 2, 0, 1, 3, 3, 1, 2)>(s, c, d);
    }, 50000, 1500000, rule, 0.3);
}
PBT_MAIN("N03")
