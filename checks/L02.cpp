// L02: the program's inequalities are exactly the user's limits.
// @instantiates
#include "../harness/lin.hpp"
using namespace lin;

static void prop(Src &s, Case &c) {
    quiet();
    fake::reset();
    LSpec p(genDims(s, 4, 7, 50));
    auto &d = p.d;
    genModel(s, p);
    if (d.ndu) p.dist = genMat(s, d.ndu, d.ph, 3);
    if (s.chance(1, 4)) genCost(s, p);
    VecD x0 = genV(s, d.nx, 5), last = genV(s, d.nu, 3);
    MatD U = genMat(s, d.nu, d.ph, 5);
    int keep = d.ch;
    for (int k = d.ch; k < d.ph; k++) U.col(k) = U.col(d.ch - 1);
    Traj tr = simulate(p, x0, last, U);
    int n = genLimits(s, p, tr);
    int kind = (int)s.below(8);
    double by = s.positive(0.01, 2);
    bool up = s.coin();
    auto cut = [&](double v, double &lo, double &hi) {
        if (up) { hi = v - by; lo = std::min(lo, hi - by); }
        else { lo = v + by; hi = std::max(hi, lo + by); }
    };
    // at most one limit moved past the value of one of the steps it covers
    int i, k;
    std::string what = "inside";
    auto pick = [&](int rows) { i = (int)s.below(rows); k = (int)s.below(d.ph); };
    switch (kind) {
    case 1: pick(d.nx); cut(tr.X(i, k == 0 && s.coin() ? 0 : k + 1), p.xlo(i, k), p.xhi(i, k)); what = "state limit"; break;
    case 2: pick(d.ny); cut(tr.Y(i, k == 0 && s.coin() ? 0 : k + 1), p.ylo(i, k), p.yhi(i, k)); what = "output limit"; break;
    case 3: { i = (int)s.below(d.nu); k = (int)s.below(d.ch); cut(k == 0 && s.chance(1, 4) ? last(i) : tr.U(i, k), p.ulo(i, k), p.uhi(i, k)); what = "input limit"; break; }
    case 4: {
        if (p.sx.isZero(0) && p.su.isZero(0)) genScalar(s, p);
        k = (int)s.below(d.ph);
        int st = k == 0 && s.coin() ? 0 : k + 1;
        cut(scalar(p, tr, st), p.slo(k), p.shi(k));
        what = "scalar limit";
        break;
    }
    case 5: case 6:  // the trajectory itself leaves its shape
        if (d.ch < d.ph) {
            keep = s.irange(d.ch, d.ph - 1);
            VecD e = genV(s, d.nu, 1);
            for (int q = keep; q < d.ph; q++) U.col(q) += e;
            tr = simulate(p, x0, last, U);
            if (!e.isZero(1e-3)) what = "command still moving";
            break;
        }
        [[fallthrough]];
    case 7: {  // another admissible trajectory, unrelated to the limits
        VecD e = genV(s, d.nu, 1);
        int q0 = s.irange(0, d.ch - 1);
        for (int q = q0; q < d.ph; q++) U.col(q) += e;
        tr = simulate(p, x0, last, U);
        what = "moved trajectory";
        break;
    }
    default: break;
    }
    auto m = make(d);
    std::string how;
    fake::st().script = [](const fake::Program &g) { fake::Outcome o; o.exact = false; o.x.assign(g.q.size(), 0); o.y.assign(g.l.size(), 0); return o; };
    applyAfter(s, *m, p, x0, last, &how);
    size_t before = fake::st().runs.size();
    dump(c, p);
    m->optimize(x0, last);
    protocol();
    PBT_CHECK(fake::st().runs.size() == before + 1, "no-run", "the solver was called %zu times", fake::st().runs.size() - before);
    const fake::Program &g = fake::st().runs.back();
    VecD z = pack(p, tr);
    PBT_CHECK(z.size() == g.q.size(), "layout", "the program has %d variables instead of %d", (int)g.q.size(), (int)z.size());
    double zs = 1 + z.cwiseAbs().maxCoeff() + tr.Y.cwiseAbs().maxCoeff();
    auto lim = limits(p, tr);
    for (int q = d.ch; q < d.ph; q++)
        for (int j = 0; j < d.nu; j++) lim.push_back({fmt("hold of input %d step %d", j, q), tr.U(j, q) - tr.U(j, q - 1), 0, 0});
    // equality of held inputs is exact by construction, so it never counts as a near miss
    std::string where;
    double w = -INF;
    for (auto &e : lim) {
        double v = e.lo == e.hi ? (e.v == e.lo ? -INF : std::fabs(e.v - e.lo)) : std::max(e.lo - e.v, e.v - e.hi);
        if (v > w) { w = v; where = e.what; }
    }
    double tol = 1e-9 * zs;
    if (std::fabs(w) <= 100 * tol) throw pbt::Discard();
    int row;
    double got = rowsViolation(g, z, &row);
    if (w < 0)
        PBT_CHECK(got < tol, "limit-too-tight", "a trajectory inside every limit (nearest: %s at %g) violates row %d of the program by %g (setters%s); %s", where.c_str(), -w, row, got, how.c_str(), str(d).c_str());
    else
        PBT_CHECK(got > w / 2 && got > tol, "limit-missing", "a trajectory violating %s by %g satisfies the program (setters%s); %s", where.c_str(), w, how.c_str(), str(d).c_str());
    if (d.ph > 7) c.label("large");
    c.nontrivial = n >= 2 || w > 0;
    c.label(w > 0 ? what + " violated" : what + " ok");
    if (d.ch < d.ph) c.label("short control horizon");
    if (c.wantSample) c.sample = fmt("%s, %d finite limits, %s at %g, setters%s", str(d).c_str(), n, where.c_str(), w, how.c_str());
}
void pbt_register(pbt::Runner &r) {
    r.add("limits", prop, 80000, 2000000, "at least two finite limits, or one violated", 0.5);
}
PBT_MAIN("L02")
