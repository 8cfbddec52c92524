// L06: parameters, warm start and solver lifetime.
// @flags -fsanitize=address
#include "../harness/lin.hpp"
using namespace lin;

static bool sameSettings(const OSQPSettings &g, const mpc::LParameters &p, std::string &what) {
#define EQ(a, b) if (!((double)(a) == (double)(b))) { what = fmt(#a " = %g instead of %g", (double)(a), (double)(b)); return false; }
    EQ(g.alpha, p.alpha) EQ(g.rho, p.rho) EQ(g.eps_rel, p.eps_rel) EQ(g.eps_abs, p.eps_abs) EQ(g.eps_prim_inf, p.eps_prim_inf) EQ(g.eps_dual_inf, p.eps_dual_inf)
    EQ(g.verbose, p.verbose ? 1 : 0) EQ(g.adaptive_rho, p.adaptive_rho ? 1 : 0) EQ(g.polish, p.polish ? 1 : 0) EQ(g.max_iter, p.maximum_iteration) EQ(g.time_limit, p.time_limit)
#undef EQ
    return true;
}
static void prop(Src &s, Case &c) {
    quiet();
    fake::reset();
    LSpec p(genDims(s, 3, 4));
    auto &d = p.d;
    genModel(s, p);
    genCost(s, p);
    std::string hist;
    int opts = 0, warm = 0, fails = 0, changes = 0;
    size_t nz = (size_t)((d.ph + 1) * (d.nx + d.nu) + d.ph * d.nu), nl = (size_t)(2 * (d.ph + 1) * (d.nx + d.nu) + (d.ph + 1) * d.ny + d.ph * d.nu + d.ph + 1);
    {
        auto m = make(d);
        apply(s, *m, p);
        mpc::LParameters par;
        std::vector<double> wx, wy;
        int ops = s.irange(1, 12);
        size_t held = 0;
        for (int k = 0; k < ops; k++) {
            int kind = k + 1 == ops ? 0 : (int)s.below(6);
            switch (kind) {
            case 3: {
                par = mpc::LParameters();
                if (s.coin()) {
                    par.alpha = s.uniform(0.1, 1.9); par.rho = s.positive(1e-6, 10); par.eps_rel = s.positive(1e-9, 1e-2); par.eps_abs = s.positive(1e-9, 1e-2);
                    par.eps_prim_inf = s.positive(1e-9, 1e-2); par.eps_dual_inf = s.positive(1e-9, 1e-2);
                }
                par.verbose = s.coin(); par.adaptive_rho = s.coin(); par.polish = s.coin();
                par.maximum_iteration = s.irange(1, 5000);
                par.time_limit = s.coin() ? 0 : s.positive(1e-7, 1e4);
                par.enable_warm_start = s.chance(2, 3);
                m->setOptimizerParameters(par);
                hist += par.enable_warm_start ? " parameters+warm" : " parameters";
                changes++;
                break;
            }
            case 4:
                if (s.chance(1, 4)) { wx.clear(); wy.clear(); }
                else {
                    wx.assign(nz, 0); wy.assign(nl, 0);
                    for (auto &v : wx) v = s.real();
                    for (size_t i = 0; i < wy.size(); i += 3) wy[i] = s.real();
                }
                if (s.chance(1, 5)) {  // a pair that does not fit the problem
                    auto &v = s.coin() ? wx : wy;
                    v.resize(s.coin() ? s.below(v.size() + 1) : v.size() + 1 + s.below(3), 1.0);
                }
                m->setSolverWarmStart(wx, wy);
                hist += fmt(" pair(%zu/%zu,%zu/%zu)", wx.size(), nz, wy.size(), nl);
                break;
            case 5:
                PBT_CHECK(m->getSolverWarmStartPrimal() == wx && m->getSolverWarmStartDual() == wy, "stored-pair", "the stored primal/dual pair is not the expected one after%s; %s", hist.c_str(), str(d).c_str());
                break;
            default: {
                fake::Outcome o;
                o.exact = false;
                VecD x = genV(s, (int)nz, 4);
                o.x.assign(x.data(), x.data() + nz);
                o.y.assign(nl, 0);
                for (size_t i = 0; i < nl; i += 2) o.y[i] = s.real();
                int f = s.chance(1, 4) ? (int)s.irange(1, 6) : 0;
                if (f == 1) o.setupError = 4;
                if (f == 2) { o.setupError = 5; o.setupKeepsWork = true; }
                if (f == 3) o.status = OSQP_PRIMAL_INFEASIBLE;
                if (f == 4) o.status = OSQP_DUAL_INFEASIBLE_INACCURATE;
                if (f == 5) { o.solveError = 1; o.status = OSQP_SIGINT; }
                if (f == 6) {  // the solver does not notice values that are not numbers
                    static const c_int st[] = {OSQP_SOLVED, OSQP_MAX_ITER_REACHED, OSQP_TIME_LIMIT_REACHED};
                    o.status = st[s.below(3)];
                    (s.chance(2, 3) ? o.x[s.below(nz)] : o.y[s.below(nl)]) = s.coin() ? NAN : INF;
                }
                if (!f && s.chance(1, 3)) { static const c_int st[] = {OSQP_MAX_ITER_REACHED, OSQP_SOLVED_INACCURATE, OSQP_TIME_LIMIT_REACHED}; o.status = st[s.below(3)]; o.cost = s.chance(1, 3) ? s.sgn() * s.positive(1e-12, 1e29) : s.real(50); }
                fails += f != 0;
                fake::st().script = [o](const fake::Program &) { return o; };
                size_t n = fake::st().runs.size();
                hist += f ? fmt(" failing-run-%d", f) : " run";
                m->optimize(genV(s, d.nx, 3), genV(s, d.nu, 3));
                opts++;
                std::string at = fmt("after%s; %s", hist.c_str(), str(d).c_str());
                c.trace = at;
                protocol();
                PBT_CHECK(fake::st().runs.size() == n + 1, "setup-count", "one optimisation set up %zu solvers %s", fake::st().runs.size() - n, at.c_str());
                const fake::Program &g = fake::st().runs[n];
                std::string what;
                PBT_CHECK(sameSettings(g.set, par, what), "settings", "the solver runs with %s %s", what.c_str(), at.c_str());
                if (!o.setupError) {
                    PBT_CHECK(g.solved, "not-solved", "the solver was set up but not run %s", at.c_str());
                    bool want = par.enable_warm_start && wx.size() == nz && wy.size() == nl;
                    PBT_CHECK(g.warmFlagAtSolve == want, "warm-flag", "warm start %s %s", want ? "is missing" : "is active without a pair or without being enabled", at.c_str());
                    if (want) {
                        warm++;
                        PBT_CHECK(g.warmGiven && g.wx == wx && g.wy == wy, "warm-pair", "the solver was warm started with another pair %s", at.c_str());
                    }
                }
                if (!f) { wx = o.x; wy = o.y; }
                if (f == 5) { wx = m->getSolverWarmStartPrimal(); wy = m->getSolverWarmStartDual(); }  // an interrupted solver may leave a pair or not
                PBT_CHECK(m->getSolverWarmStartPrimal() == wx && m->getSolverWarmStartDual() == wy, "stored-pair", "the stored primal/dual pair is not %s %s", f ? "the one before the failure" : "the solver's", at.c_str());
                if (opts == 1) held = fake::st().live.size();
                PBT_CHECK(fake::st().live.size() <= std::max<size_t>(held, 12), "leak", "%zu solver objects are alive %s", fake::st().live.size(), at.c_str());
            }
            }
        }
    }
    protocol();
    PBT_CHECK(fake::st().live.empty(), "leak", "%zu solver objects outlive the controller after%s; %s", fake::st().live.size(), hist.c_str(), str(d).c_str());
    c.nontrivial = opts >= 2;
    if (warm) c.label("warm started");
    if (fails) c.label("with failing runs");
    if (changes) c.label("with parameter changes");
    if (c.wantSample) c.sample = str(d) + ":" + hist;
}
// memory owned by the controller itself is returned too
static void life(Src &s, Case &c) {
    quiet();
    fake::reset();
    LSpec p(genDims(s, 3, 4));
    genModel(s, p);
    int n = s.irange(0, 2);
    size_t before = 0, after = 0;
    for (int round = 0; round < 3; round++) {
        size_t a = fake::heap();
        {
            auto m = make(p.d);
            if (n) m->setStateSpaceModel(p.A, p.B, p.C);
            for (int k = 0; k < n; k++) m->optimize(VecD(VecD::Ones(p.d.nx)), VecD(VecD::Ones(p.d.nu)));
            fake::reset();
        }
        size_t b = fake::heap();
        if (round == 2) { before = a; after = b; }
    }
    PBT_CHECK(after <= before + 64, "controller-leak", "creating, using %d times and destroying a controller leaves %zu more bytes on the heap; %s", n, after - before, str(p.d).c_str());
    c.nontrivial = true;
    if (c.wantSample) c.sample = fmt("%s, %d optimisations", str(p.d).c_str(), n);
}
void pbt_register(pbt::Runner &r) {
    r.add("histories", prop, 40000, 800000, "at least two optimisations", 0.4);
    r.add("lifetime", life, 1500, 20000, "every case");
}
PBT_MAIN("L06")
