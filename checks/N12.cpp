// N12: solver parameters. Virtual clock, counted cost evaluations, and a twin configured only with the last parameters.
// @libs -Wl,--wrap=nlopt_optimize -Wl,--wrap=nlopt_add_equality_mconstraint -Wl,--wrap=nlopt_add_inequality_mconstraint -Wl,--wrap=nlopt_add_equality_constraint -Wl,--wrap=nlopt_add_inequality_constraint -Wl,--wrap=nlopt_remove_equality_constraints -Wl,--wrap=nlopt_remove_inequality_constraints -Wl,--wrap=nlopt_destroy -Wl,--wrap=nlopt_copy
#include <chrono>
#include <map>
#include <nlopt.h>
#include <sys/time.h>
#include "../harness/ctl.hpp"
using namespace nl;
using Ctrl = mpc::NLMPC<>;

static long g_us = 1000;  // virtual microseconds
extern "C" int gettimeofday(struct timeval *tv, void *) noexcept {
    tv->tv_sec = 1000 + g_us / 1000000;
    tv->tv_usec = g_us % 1000000;
    return 0;
}
namespace std::chrono {
system_clock::time_point system_clock::now() noexcept { return time_point(duration(g_us * 1000)); }
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(g_us * 1000)); }
}

struct Watch {
    BaseCounter b;
    long tick = 0, lastStart = 0;   // microseconds per cost evaluation
    long deadline = -1, late = 0;   // evaluations that began after the deadline
    double worstSlack = 0, lastSlack = 0;
    bool hit = false;
    explicit Watch(const Dims &d) : b(d) {}
};
static std::shared_ptr<Watch> watch(Ctrl &m, const std::shared_ptr<Spec> &sp) {
    auto w = std::make_shared<Watch>(sp->d);
    bindModel(m, sp);
    if (sp->hasOut) m.setOutputFunction(outFn(sp));
    m.setObjectiveFunction([=](const auto &x, const auto &y, const auto &u, double e) -> double {
        Rec r;
        r.X = fromEigen(x); r.Y = fromEigen(y); r.U = fromEigen(u); r.e = e;
        long n = w->b.bases;
        w->b.see(r);
        if (w->b.bases > n) {
            if (w->deadline >= 0 && g_us > w->deadline) w->late++;
            g_us += w->tick;
            w->worstSlack = std::max(w->worstSlack, std::abs(e));
        }
        w->lastSlack = e;
        return sp->objF(r.X, r.Y, r.U, e);
    });
    if (sp->hasIneq) m.setIneqConFunction(ineqFn(sp), 1e-8f);
    if (sp->hasEq) m.setEqConFunction(eqFn(sp), 1e-8f);
    return w;
}
static std::string parStr(const mpc::NLParameters &p) {
    return fmt("{eval %d time %g ftol %g/%g xtol %g/%g hard %d warm %d}", p.maximum_iteration, p.time_limit, p.relative_ftol, p.absolute_ftol, p.relative_xtol, p.absolute_xtol, (int)p.hard_constraints, (int)p.enable_warm_start);
}
static mpc::NLParameters genPar(Src &s) {
    mpc::NLParameters p;
    auto tol = [&]() { return s.coin() ? -1.0 : std::pow(10.0, -(double)s.below(12)); };
    p.relative_ftol = tol();
    p.absolute_ftol = tol();
    p.relative_xtol = tol();
    p.absolute_xtol = tol();
    p.maximum_iteration = s.chance(1, 3) ? s.irange(1, 6) : s.irange(1, 150);
    p.time_limit = s.chance(1, 3) ? 0.001 * s.irange(1, 50) : 0;
    p.hard_constraints = s.coin();
    return p;
}

// any history of settings and optimisations ends like a fresh controller with the last setting
static void history(Src &s, Case &c) {
    quiet();
    Dims d = genDims(s, 4, 2);
    d.ineq = s.irange(0, 2);
    d.eq = s.chance(1, 3) ? 1 : 0;
    POpt o;
    o.soft = s.chance(2, 3);
    o.linear = s.coin();
    auto sp = std::make_shared<Spec>(genProblem(s, d, o));
    Ctrl m(d.nx, d.nu, d.ny, d.ph, d.ch, d.ineq, d.eq);
    mpc::NLParameters par;
    std::string hist;
    bool early = s.coin();
    if (early) { par = genPar(s); m.setOptimizerParameters(par); hist += " set" + parStr(par); }
    auto w = watch(m, sp);
    w->tick = s.irange(0, 3000);
    int sets = early, compared = 0, steps = s.irange(2, 7);
    for (int k = 0; k < steps; k++) {
        if (s.coin() && k + 1 < steps) {
            par = genPar(s);
            m.setOptimizerParameters(par);
            sets++;
            hist += " set" + parStr(par);
            continue;
        }
        VecD x = genVec(s, d.nx, 3), u = genVec(s, d.nu, 1);
        Ctrl t(d.nx, d.nu, d.ny, d.ph, d.ch, d.ineq, d.eq);
        auto tw = watch(t, sp);
        if (sets || s.coin()) t.setOptimizerParameters(par);  // never set means the default parameters
        tw->tick = w->tick;
        hist += " optimize";
        auto one = [&](Ctrl &q, Watch &v) {
            v.b.reset();
            v.worstSlack = 0;
            v.late = 0;
            g_us = (g_us / 1000000 + 1) * 1000000;
            v.deadline = par.time_limit > 0 ? g_us + (long)std::llround(par.time_limit * 1e6) : -1;
            mpc::Result<> r = q.optimize(x, u);
            v.deadline = -1;
            return r;
        };
        mpc::Result<> r = one(m, *w), f = one(t, *tw);
        auto ctx = [&]() { return d.str() + hist + " -> " + resStr(r); };
        PBT_CHECK(w->b.bases <= par.maximum_iteration, "eval-limit", "%s: %ld evaluations with limit %d", ctx().c_str(), w->b.bases, par.maximum_iteration);
        PBT_CHECK(w->late == 0 || w->tick == 0, "time-limit", "%s: %ld evaluations after the time limit of %g s (each takes %ld us)", ctx().c_str(), w->late, par.time_limit, w->tick);
        if (par.time_limit <= 0) PBT_CHECK(r.solver_status != 6, "no-time-limit", "%s: stopped by a time limit that is not set", ctx().c_str());
        if (par.hard_constraints) PBT_CHECK(w->worstSlack <= 1e-5, "hard-slack", "%s: slack %g with hard constraints", ctx().c_str(), w->worstSlack);
        if (par.relative_ftol < 0 && par.absolute_ftol < 0) PBT_CHECK(r.solver_status != 3, "ftol-off", "%s: stopped by a disabled cost tolerance", ctx().c_str());
        if (par.relative_xtol < 0 && par.absolute_xtol < 0) PBT_CHECK(r.solver_status != 4, "xtol-off", "%s: stopped by a disabled variable tolerance", ctx().c_str());
        if (r.solver_status == 5 || r.solver_status == 6) PBT_CHECK(r.status == mpc::MAX_ITERATION, "limit-status", "%s: a limit was reached but the status is %d", ctx().c_str(), (int)r.status);
        std::vector<double> a, b;
        f.cmd = r.status == mpc::ERROR && f.status == mpc::ERROR ? r.cmd : f.cmd;  // a failed run keeps its own last command
        flatten(a, r, m.getOptimalSequence());
        flatten(b, f, t.getOptimalSequence());
        size_t at;
        PBT_CHECK(same(a, b, at), "last-wins", "%s; a fresh controller with the last parameters gives %s", ctx().c_str(), resStr(f).c_str());
        compared++;
        c.label(fmt("code%d", r.solver_status));
    }
    c.nontrivial = sets >= 2 && compared > 0;
    if (c.wantSample) c.sample = d.str() + hist;
}

// one state following a target, quartic or quadratic, with chosen magnitudes
static Spec simple(Src &s, Dims d, double size, double offset, int shape, double scale) {
    Spec p;
    p.d = d;
    p.sx = VecD::Ones(d.nx);
    p.su = VecD::Ones(d.nu);
    for (int i = 0; i < d.nx; i++) {
        Func f;
        Term t;
        t.c = s.uniform(0.5, 0.95); t.a = {KX, 0, i};
        f.terms.push_back(t);
        t.c = s.sgn() * s.uniform(0.5, 1.5); t.a = {KU, 0, i % d.nu};
        f.terms.push_back(t);
        p.dyn.push_back(f);
    }
    p.hasOut = false;
    for (int i = 0; i < d.ny; i++) p.out.push_back(Func());
    p.obj.c0 = offset;
    Term q;
    q.shape = 1;
    for (int i = 0; i <= d.ph; i++) {
        for (int j = 0; j < d.nx; j++) { q.shape = shape; q.c = scale * s.uniform(0.5, 2); q.t = s.uniform(-1, 1) * size; q.a = {KX, i, j}; p.obj.terms.push_back(q); }
        for (int j = 0; j < d.nu; j++) { q.shape = 1; q.c = scale * s.uniform(0.1, 1); q.t = s.uniform(-1, 1) * size; q.a = {KU, i, j}; p.obj.terms.push_back(q); }
    }
    q.shape = 1; q.c = scale * s.uniform(0.5, 2); q.t = s.uniform(-1, 1) * size; q.a = {KE, 0, 0};
    p.obj.terms.push_back(q);
    return p;
}
// tolerances large enough to stop at once on problems where only that kind of tolerance is large
static void tolerances(Src &s, Case &c) {
    quiet();
    Dims d = genDims(s, 4, 2);
    int which = (int)s.below(5);
    mpc::NLParameters p;
    p.maximum_iteration = 400;
    p.hard_constraints = s.coin();
    double size = 1, offset = 0, scale = 1, x0 = s.uniform(1, 3) * s.sgn();
    int want = 3;
    switch (which) {
    case 0: offset = 1e5; p.relative_ftol = 0.1; break;            // cost changes are tiny relative to the cost
    case 1: scale = 1e-6; p.absolute_ftol = 0.1; break;            // cost changes are tiny in absolute terms
    case 2: size = 1e-3; x0 *= 1e-3; p.absolute_xtol = 0.1; want = 4; break;
    case 3: p.relative_xtol = s.uniform(1e3, 1e6); want = 4; break;
    default: want = 5; p.maximum_iteration = s.irange(1, 150); break;
    }
    auto sp = std::make_shared<Spec>(simple(s, d, size, offset, 1, scale));
    Ctrl m(d.nx, d.nu, d.ny, d.ph, d.ch, 0, 0);
    auto w = watch(m, sp);
    m.setOptimizerParameters(p);
    VecD x = VecD::Constant(d.nx, x0), u = VecD::Zero(d.nu);
    mpc::Result<> r = m.optimize(x, u);
    auto ctx = [&]() { return d.str() + " " + parStr(p) + " -> " + resStr(r) + fmt(" after %ld evaluations", w->b.bases); };
    static const char *nm[] = {"ftol-rel", "ftol-abs", "xtol-abs", "xtol-rel", "all-off"};
    PBT_CHECK(r.solver_status == want, nm[which], "%s: stopped with code %d instead of %d", ctx().c_str(), r.solver_status, want);
    if (which < 4) PBT_CHECK(w->b.bases <= 6, nm[which], "%s: the tolerance did not stop the run at once", ctx().c_str());
    PBT_CHECK(r.status == (want == 5 ? mpc::MAX_ITERATION : mpc::SUCCESS), "limit-status", "%s: wrong status", ctx().c_str());
    c.label(nm[which]);
    c.nontrivial = true;
    if (c.wantSample) c.sample = ctx();
}
// the evaluation limit is used up, the slack is free exactly with soft constraints, a tight tolerance converges
static void limits(Src &s, Case &c) {
    quiet();
    Dims d = genDims(s, 4, 2);
    mpc::NLParameters p;
    int L = p.maximum_iteration = s.irange(1, 4);
    p.hard_constraints = s.coin();
    bool quart = s.coin();
    auto sp = std::make_shared<Spec>(simple(s, d, 1, 0, 1, 1));
    if (quart)  // non-quadratic: converges slowly enough for the first evaluations to differ
        for (auto &t : sp->obj.terms)
            if (t.a.k == KX) { t.shape = 3; t.c = 1.5 * s.sgn(); }
    Ctrl m(d.nx, d.nu, d.ny, d.ph, d.ch, 0, 0);
    auto w = watch(m, sp);
    bool byTime = s.chance(1, 3);
    if (byTime) {  // the clock runs out during evaluation L
        w->tick = 1000;
        p.maximum_iteration = 300;
        p.time_limit = 0.001 * L - 0.0005;
    }
    m.setOptimizerParameters(p);
    VecD x = VecD::Constant(d.nx, s.uniform(2, 6) * s.sgn()), u = VecD::Constant(d.nu, s.uniform(2, 6) * s.sgn());
    g_us = (g_us / 1000000 + 1) * 1000000;
    mpc::Result<> r = m.optimize(x, u);
    auto ctx = [&]() { return d.str() + " " + parStr(p) + " -> " + resStr(r) + fmt(" after %ld evaluations", w->b.bases); };
    PBT_CHECK(w->b.bases <= L, "limit-exceeded", "%s: more than %d evaluations", ctx().c_str(), L);
    PBT_CHECK(r.status == mpc::MAX_ITERATION && r.solver_status == (byTime ? 6 : 5), "limit-status", "%s: the limit was not reported", ctx().c_str());
    if (L == 1 || L <= (quart ? 3 : 2) && w->b.minMove > 0.1) {  // far from convergence: no evaluation can hide among the probes
        PBT_CHECK(w->b.bases == L, "limit-early", "%s: stopped before %d evaluations", ctx().c_str(), L);
        c.nontrivial = true;
    }
    // slack
    auto t = tightParams();
    t.hard_constraints = p.hard_constraints;
    double target = 0;
    for (auto &q : sp->obj.terms) if (q.a.k == KE) target = q.t;
    m.setOptimizerParameters(t);
    w->b.reset();
    r = m.optimize(x, u);
    if (r.status == mpc::SUCCESS && w->b.have) {
        double best = 1e300, slack = 0;
        (void)best;
        slack = w->b.base.e;  // slack of the last evaluation
        double want = t.hard_constraints ? 0 : target;
        PBT_CHECK(std::abs(slack - want) <= (t.hard_constraints ? 0 : 1e-3), "slack", "%s: slack %g at the solution, expected %g", ctx().c_str(), slack, want);
        c.label("slack-checked");
    }
    if (c.wantSample) c.sample = ctx();
}

// what the solver is told at the start of each optimisation, read from the solver itself; the constraint tolerances,
// which it does not give back, are followed through the calls that add and remove constraints
struct Told {
    double ftolRel, ftolAbs, xtolRel, maxtime, stopval;
    int maxeval;
    std::vector<double> xtolAbs, eq, ineq;
};
static std::vector<Told> g_told;
static std::map<nlopt_opt, std::pair<std::vector<double>, std::vector<double>>> g_con;
static bool g_listen = false;
extern "C" {
nlopt_result __real_nlopt_optimize(nlopt_opt, double *, double *);
nlopt_result __real_nlopt_add_equality_mconstraint(nlopt_opt, unsigned, nlopt_mfunc, void *, const double *);
nlopt_result __real_nlopt_add_inequality_mconstraint(nlopt_opt, unsigned, nlopt_mfunc, void *, const double *);
nlopt_result __real_nlopt_add_equality_constraint(nlopt_opt, nlopt_func, void *, double);
nlopt_result __real_nlopt_add_inequality_constraint(nlopt_opt, nlopt_func, void *, double);
nlopt_result __real_nlopt_remove_equality_constraints(nlopt_opt);
nlopt_result __real_nlopt_remove_inequality_constraints(nlopt_opt);
void __real_nlopt_destroy(nlopt_opt);
nlopt_opt __real_nlopt_copy(const nlopt_opt);
static void added(std::vector<double> &to, nlopt_result r, unsigned m, const double *tol) {
    if (r == NLOPT_SUCCESS) for (unsigned i = 0; i < m; i++) to.push_back(tol ? tol[i] : 0);
}
nlopt_result __wrap_nlopt_add_equality_mconstraint(nlopt_opt o, unsigned m, nlopt_mfunc f, void *d, const double *tol) {
    auto r = __real_nlopt_add_equality_mconstraint(o, m, f, d, tol);
    if (g_listen) added(g_con[o].first, r, m, tol);
    return r;
}
nlopt_result __wrap_nlopt_add_inequality_mconstraint(nlopt_opt o, unsigned m, nlopt_mfunc f, void *d, const double *tol) {
    auto r = __real_nlopt_add_inequality_mconstraint(o, m, f, d, tol);
    if (g_listen) added(g_con[o].second, r, m, tol);
    return r;
}
nlopt_result __wrap_nlopt_add_equality_constraint(nlopt_opt o, nlopt_func f, void *d, double tol) {
    auto r = __real_nlopt_add_equality_constraint(o, f, d, tol);
    if (g_listen) added(g_con[o].first, r, 1, &tol);
    return r;
}
nlopt_result __wrap_nlopt_add_inequality_constraint(nlopt_opt o, nlopt_func f, void *d, double tol) {
    auto r = __real_nlopt_add_inequality_constraint(o, f, d, tol);
    if (g_listen) added(g_con[o].second, r, 1, &tol);
    return r;
}
nlopt_result __wrap_nlopt_remove_equality_constraints(nlopt_opt o) { g_con[o].first.clear(); return __real_nlopt_remove_equality_constraints(o); }
nlopt_result __wrap_nlopt_remove_inequality_constraints(nlopt_opt o) { g_con[o].second.clear(); return __real_nlopt_remove_inequality_constraints(o); }
void __wrap_nlopt_destroy(nlopt_opt o) { g_con.erase(o); __real_nlopt_destroy(o); }
nlopt_opt __wrap_nlopt_copy(const nlopt_opt o) {
    auto c = __real_nlopt_copy(o);
    if (g_listen && c && g_con.count(o)) g_con[c] = g_con[o];
    return c;
}
nlopt_result __wrap_nlopt_optimize(nlopt_opt o, double *x, double *f) {
    if (g_listen) {
        Told t;
        t.ftolRel = nlopt_get_ftol_rel(o); t.ftolAbs = nlopt_get_ftol_abs(o); t.xtolRel = nlopt_get_xtol_rel(o);
        t.maxtime = nlopt_get_maxtime(o); t.maxeval = nlopt_get_maxeval(o); t.stopval = nlopt_get_stopval(o);
        t.xtolAbs.resize(nlopt_get_dimension(o));
        if (t.xtolAbs.size()) nlopt_get_xtol_abs(o, t.xtolAbs.data());
        t.eq = g_con[o].first; t.ineq = g_con[o].second;
        g_told.push_back(t);
    }
    return __real_nlopt_optimize(o, x, f);
}
}
static void handOver(Src &s, Case &c) {
    quiet();
    Dims d = genDims(s, 4, 2);
    d.ineq = s.irange(0, 2);
    d.eq = s.irange(0, 1);
    POpt o;
    o.soft = s.chance(2, 3);
    o.linear = true;
    auto sp = std::make_shared<Spec>(genProblem(s, d, o));
    g_listen = true;
    g_told.clear();
    g_con.clear();
    struct Off { ~Off() { g_listen = false; g_con.clear(); g_told.clear(); } } off;
    Ctrl m(d.nx, d.nu, d.ny, d.ph, d.ch, d.ineq, d.eq);
    mpc::NLParameters par;
    double tm = 0, te = 0, ti = 0;
    bool hasE = false, hasI = false;
    auto tol = [&]() { return std::pow(10.0, -s.uniform(2, 12)); };
    std::string hist;
    auto model = [&]() {
        bool def = s.chance(1, 3);
        tm = def ? 1e-10 : tol();
        auto f = [sp](auto &dx, const auto &x, const auto &u, const unsigned int &k) {
            G<double> X(1, sp->d.nx), U(1, sp->d.nu);
            for (int i = 0; i < sp->d.nx; i++) X(0, i) = x(i);
            for (int i = 0; i < sp->d.nu; i++) U(0, i) = u(i);
            std::vector<double> r(sp->d.nx);
            sp->stepF(r.data(), X, U, (int)k);
            for (int i = 0; i < sp->d.nx; i++) dx(i) = r[i];
        };
        def ? m.setStateSpaceFunction(f) : m.setStateSpaceFunction(f, (float)tm);
        hist += fmt(" model%s(%g)", def ? "-default" : "", tm);
    };
    auto user = [&](bool eq) {
        bool def = s.chance(1, 3);
        double t = def ? 1e-10 : tol();
        if (eq) { te = t; hasE = true; def ? m.setEqConFunction(eqFn(sp)) : m.setEqConFunction(eqFn(sp), (float)t); }
        else { ti = t; hasI = true; def ? m.setIneqConFunction(ineqFn(sp)) : m.setIneqConFunction(ineqFn(sp), (float)t); }
        hist += fmt(" %s%s(%g)", eq ? "eq" : "ineq", def ? "-default" : "", t);
    };
    if (sp->cont) m.setDiscretizationSamplingTime(sp->ts);
    int calls = 0;
    auto cost = objFn(sp);
    m.setObjectiveFunction([&calls, cost](const auto &x, const auto &y, const auto &u, const double &e) -> double {
        if (++calls > 3000) throw std::runtime_error("enough");  // runs without an evaluation limit end here
        return cost(x, y, u, e);
    });
    bool first = s.coin();
    if (first) { if (d.ineq && s.coin()) user(false); if (d.eq && s.coin()) user(true); }
    model();
    int sets = 0, opts = 0, steps = s.irange(2, 8);
    for (int k = 0; k < steps || !opts; k++) {
        int op = k >= steps ? 9 : (int)s.below(10);
        if (op < 3) { par = genPar(s); if (par.time_limit) par.time_limit += s.below(4); if (s.chance(1, 6)) par.maximum_iteration = s.irange(-1, 0); m.setOptimizerParameters(par); sets++; hist += " set" + parStr(par); continue; }
        if (op == 3) { model(); continue; }
        if (op == 4 && d.ineq) { user(false); continue; }
        if (op == 5 && d.eq) { user(true); continue; }
        if (op == 6) { genScales(s, *sp); m.setStateScale(sp->sx); m.setInputScale(sp->su); hist += " scale"; continue; }
        VecD x = genVec(s, d.nx, 2), u = genVec(s, d.nu, 1);
        size_t before = g_told.size();
        calls = 0;
        m.optimize(x, u);
        opts++;
        hist += " optimize";
        if (g_told.size() != before + 1) { c.label("solver-not-observed"); continue; }
        const Told &t = g_told.back();
        auto ctx = [&]() { return d.str() + hist; };
        auto near = [](double a, double b) { return std::abs(a - b) <= 1e-6 * std::abs(b); };
        auto crit = [&](double got, double want) { return want > 0 ? near(got, want) : got <= 0; };  // not positive: switched off
        PBT_CHECK(crit(t.ftolRel, par.relative_ftol), "told-ftol-rel", "%s: the solver works with relative cost tolerance %g", ctx().c_str(), t.ftolRel);
        PBT_CHECK(crit(t.ftolAbs, par.absolute_ftol), "told-ftol-abs", "%s: the solver works with absolute cost tolerance %g", ctx().c_str(), t.ftolAbs);
        PBT_CHECK(crit(t.xtolRel, par.relative_xtol), "told-xtol-rel", "%s: the solver works with relative variable tolerance %g", ctx().c_str(), t.xtolRel);
        for (double v : t.xtolAbs) PBT_CHECK(crit(v, par.absolute_xtol), "told-xtol-abs", "%s: the solver works with absolute variable tolerance %g", ctx().c_str(), v);
        PBT_CHECK(crit(t.maxtime, par.time_limit), "told-time", "%s: the solver works with time limit %g", ctx().c_str(), t.maxtime);
        PBT_CHECK(t.maxeval == par.maximum_iteration || (t.maxeval <= 0 && par.maximum_iteration <= 0), "told-evaluations", "%s: the solver works with evaluation limit %d", ctx().c_str(), t.maxeval);
        PBT_CHECK(t.stopval == -HUGE_VAL, "told-stopval", "%s: the solver stops at cost %g", ctx().c_str(), t.stopval);
        // one tolerance per scalar constraint, in any order
        std::vector<double> we(d.ph * d.nx, tm), wi, e = t.eq, i = t.ineq;
        if (hasE) we.insert(we.end(), d.eq, te);
        if (hasI) wi.insert(wi.end(), d.ineq, ti);
        for (auto *v : {&we, &wi, &e, &i}) std::sort(v->begin(), v->end());
        PBT_CHECK(e.size() == we.size() && i.size() == wi.size(), "told-constraints", "%s: the solver has %d equalities and %d inequalities, expected %d and %d", ctx().c_str(), (int)e.size(), (int)i.size(), (int)we.size(), (int)wi.size());
        for (size_t q = 0; q < e.size(); q++) PBT_CHECK(near(e[q], we[q]), "told-equality-tolerance", "%s: the solver works with equality tolerance %g instead of %g", ctx().c_str(), e[q], we[q]);
        for (size_t q = 0; q < i.size(); q++) PBT_CHECK(near(i[q], wi[q]), "told-inequality-tolerance", "%s: the solver works with inequality tolerance %g instead of %g", ctx().c_str(), i[q], wi[q]);
        c.label("observed");
        c.nontrivial = sets > 0;
    }
    if (hasE || hasI) c.label("user-constraints");
    if (c.wantSample) c.sample = d.str() + hist;
}

void pbt_register(pbt::Runner &r) {
    r.assumptions.push_back("time is virtual: the solver's clock advances only by the cost evaluations");
    r.add("history", history, 30000, 1000000, "at least two parameter settings and one optimisation compared with a fresh controller", 0.4);
    r.add("tolerances", tolerances, 20000, 500000, "every case: one tolerance alone must stop the run (or none may)", 0.9);
    r.add("limits", limits, 20000, 500000, "the first evaluations moved by more than 0.1, so that they can be counted exactly", 0.4);
    r.add("hand-over", handOver, 15000, 600000, "an optimisation whose solver settings were read after at least one parameter setting", 0.4);
}
PBT_MAIN("N12")
