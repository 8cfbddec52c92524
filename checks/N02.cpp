// N02: value and gradient of the objective, as handed to the solver.
#include "../harness/nl.hpp"
using namespace nl;

template <mpc::MPCSize SZ>
static void prop(Src &s, Case &c, Dims d) {
    auto sp = std::make_shared<Spec>(genSpec(s, d));
    Spec &p = *sp;
    bool scaled = s.coin();
    if (scaled) genScales(s, p, true);
    VecD x0;
    bool wide;
    VecD z = genZ(s, p, x0, wide);
    if (wide)  // a huge initial state must not enter the value itself, only (if at all) the step sizes
        for (auto &t : p.obj.terms) {
            if (t.a.k != KK && t.a.k != KE && t.a.r == 0) t.a.r = 1;
            if (t.b.k != KK && t.b.k != KE && t.b.r == 0) t.b.r = 1;
        }
    bool van = vanish(s, p, z, x0);
    quiet();
    Parts<SZ> parts;
    parts.wireAfter(s, sp, x0, z);
    auto F = [&](const auto &zz) {
        using S = typename std::decay_t<decltype(zz)>::value_type;
        G<S> X, U;
        S e;
        p.unwrap(zz, x0, X, U, e);
        return std::vector<S>{p.objF(X, p.outputs(X, U), U, e)};
    };
    double ref = F(lift<double>(z))[0], mag = F(lift<Mag>(z))[0].v;
    // repeated evaluations must not influence each other
    int reps = s.irange(1, 2);
    for (int k = 0; k < reps; k++) {
        VecD other = genVec(s, d.nz(), 2);
        if (k) parts.obj.evaluate(other, s.coin());
        auto v0 = parts.obj.evaluate(z, false);
        PBT_CHECK(std::abs(v0.value - ref) <= 1e-9 * (1e-3 + mag), "value", "%s: objective value %.17g, expected %.17g", d.str().c_str(), v0.value, ref);
        auto v1 = parts.obj.evaluate(z, true);
        PBT_CHECK(v1.value == v0.value, "value-with-gradient", "%s: the value changes when the gradient is requested", d.str().c_str());
        PBT_CHECK(v1.grad.size() == d.nz(), "gradient-size", "%s: gradient has %d entries", d.str().c_str(), (int)v1.grad.size());
        for (int i = 0; i < d.nz(); i++) {
            ZInfo zi = zinfo(p, z, i);
            checkGrad(p, z, i, {v1.grad(i)}, F, F, i < d.ph * d.nx ? "gradient-state" : i < d.nz() - 1 ? "gradient-input" : "gradient-slack");
        }
    }
    if (d.ph > 6) c.label("large");
    c.nontrivial = d.ph >= 2 && (std::abs(ref) > 0 || van) && (scaled || d.ch < d.ph || p.hasOut);
    if (scaled) c.label("scaled");
    if (wide) c.label("wide");
    if (van && ref == 0) c.label("zero-value");
    if (p.hasOut) c.label("output");
    if (d.ch < d.ph) c.label("held");
    if (c.wantSample) c.sample = d.str() + fmt(" scaled=%d value=%.6g terms=%zu z=", scaled, ref, p.obj.terms.size()) + vstr(z);
}

void pbt_register(pbt::Runner &r) {
    std::string rule = "prediction horizon >= 2, non-zero cost, and scaling, a shorter control horizon or an output model in play";
    r.add("runtime-sized", [](Src &s, Case &c) { prop<DYN>(s, c, genDims(s, 6, 3, 100, 20, 8)); }, 300000, 9000000, rule, 0.3);
    r.add("fixed-sized", [](Src &s, Case &c) {
        Dims d;
        if (s.coin()) { d = {2, 1, 2, 4, 2, 0, 0}; return prop<mpc::MPCSize(2, 1, 0, 2, 4, 2, 0, 0)>(s, c, d); }
        d = {3, 2, 1, 5, 5, 0, 0};
        return prop<mpc::MPCSize(3, 2, 0, 1, 5, 5, 0, 0)>(s, c, d);
    }, 100000, 3000000, rule, 0.3);
}
PBT_MAIN("N02")
