// N14: every call of a user function during an optimisation gets well-formed, mutually consistent arguments.
#include "../harness/ctl.hpp"
using namespace nl;

struct Watch {  // filled by the callbacks, checked after the run (a throw inside a callback would be swallowed)
    Dims d;
    std::shared_ptr<Spec> sp;
    VecD x0;
    bool feasible = true;  // always feasible problem: the solver then never proposes a point that is not finite
    bool lost = false;     // it did for an infeasible one: nothing to check any more
    long n[5] = {};
    long probes = 0;
    std::set<int> mk, ok;  // step indices seen by the model and the output function
    std::string sig, msg;
    void bad(const char *s, const std::string &m) {
        if (!feasible && std::string(s) == "not-finite") lost = true;
        if (sig.empty() && !lost) { sig = s; msg = m; }
    }
};
static const char *who[] = {"model", "output", "cost", "inequality", "equality"};
enum { M_, O_, C_, I_, E_ };

template <class MX>
bool finite(const MX &m) {
    for (int i = 0; i < m.rows(); i++) for (int j = 0; j < m.cols(); j++) if (!std::isfinite(m(i, j))) return false;
    return true;
}
template <class X, class U>
void point(Watch &w, int f, const X &x, const U &u, unsigned k, int last) {
    const Dims &d = w.d;
    w.n[f]++;
    (f == M_ ? w.mk : w.ok).insert((int)k);
    if (x.size() != d.nx || u.size() != d.nu) return w.bad("size", fmt("the %s function gets a state of %d and an input of %d entries", who[f], (int)x.size(), (int)u.size()));
    if (!finite(x) || !finite(u)) w.bad("not-finite", fmt("the %s function gets a state or input that is not finite at step %u", who[f], k));
    if ((int)k > last || (int)k < 0) w.bad("step-index", fmt("the %s function gets step %u, the last one is %d", who[f], k, last));
}
template <class X, class U>
bool traj(Watch &w, int f, const X &x, const U &u) {
    const Dims &d = w.d;
    w.n[f]++;
    if (x.rows() != d.ph + 1 || x.cols() != d.nx || u.rows() != d.ph + 1 || u.cols() != d.nu) {
        w.bad("size", fmt("the %s function gets states %dx%d and inputs %dx%d", who[f], (int)x.rows(), (int)x.cols(), (int)u.rows(), (int)u.cols()));
        return false;
    }
    if (!finite(x) || !finite(u)) { w.bad("not-finite", fmt("the %s function gets trajectories that are not finite", who[f])); return false; }
    for (int j = 0; j < d.nx; j++)
        if (x(0, j) != w.x0(j)) w.bad("initial-state", fmt("the %s function gets state %d of the first row %.17g, the current state is %.17g", who[f], j, x(0, j), w.x0(j)));
    int off = 0;
    std::string at;
    for (int j = 0; j < d.nu; j++) {
        // the held rows agree (up to round-off of undone perturbations), but for one perturbed entry
        std::vector<double> v;
        for (int i = d.ch - 1; i <= d.ph; i++) v.push_back(u(i, j));
        std::sort(v.begin(), v.end());
        double ref = v[v.size() / 2];
        for (int i = d.ch - 1; i <= d.ph; i++)
            if (!(std::abs(u(i, j) - ref) <= 1e-13 * (1 + std::abs(ref)))) {
                off++;
                at += fmt(" (%d,%d) %.12g instead of %.12g", i, j, u(i, j), ref);
                if (!(std::abs(u(i, j) - ref) <= 1e-3 * (1 + std::abs(ref)))) off += 100;
            }
    }
    if (off) w.probes++;
    // the final row has no move of its own: it goes with the row before
    if (off > 2) w.bad("input-hold", fmt("the %s function gets inputs that are not held after the control horizon:%s", who[f], at.c_str()));
    return true;
}
template <class X, class Y, class U>
void outputs(Watch &w, int f, const X &x, const Y &y, const U &u) {
    const Dims &d = w.d;
    if (y.rows() != d.ph + 1 || y.cols() != d.ny) return w.bad("size", fmt("the %s function gets outputs %dx%d", who[f], (int)y.rows(), (int)y.cols()));
    G<double> R = w.sp->outputs(fromEigen(x), fromEigen(u));
    for (int i = 0; i <= d.ph; i++)
        for (int j = 0; j < d.ny; j++)
            if (!(std::abs(y(i, j) - R(i, j)) <= 1e-11 * (1 + std::abs(R(i, j)))))
                return w.bad("outputs", fmt("the %s function gets output %d of row %d = %.15g, but the output function gives %.15g for the states and inputs it gets", who[f], j, i, y(i, j), R(i, j)));
}
template <class Ctrl>
void wire(Ctrl &m, const std::shared_ptr<Watch> &w) {
    auto sp = w->sp;
    auto st = stateFn(sp);
    m.setStateSpaceFunction([=](auto &dx, const auto &x, const auto &u, const unsigned int &k) {
        point(*w, M_, x, u, k, w->d.ph - 1);
        if (dx.size() != w->d.nx) w->bad("size", fmt("the model has to fill %d entries", (int)dx.size()));
        st(dx, x, u, k);
    });
    auto ou = outFn(sp);
    if (sp->hasOut) m.setOutputFunction([=](auto &y, const auto &x, const auto &u, const unsigned int &k) {
        point(*w, O_, x, u, k, w->d.ph);
        if (y.size() != w->d.ny) w->bad("size", fmt("the output function has to fill %d entries", (int)y.size()));
        for (int i = 0; i < y.size(); i++) if (y(i) != 0) { w->bad("output-not-cleared", fmt("entry %d of the output vector is %g before the output function has filled it", i, (double)y(i))); break; }
        ou(y, x, u, k);
    });
    m.setObjectiveFunction([=](const auto &x, const auto &y, const auto &u, const double &e) -> double {
        if (traj(*w, C_, x, u)) outputs(*w, C_, x, y, u);
        if (!std::isfinite(e)) w->bad("not-finite", "the cost function gets a slack that is not finite");
        return sp->objF(fromEigen(x), fromEigen(y), fromEigen(u), e);
    });
    auto in = ineqFn(sp);
    if (sp->hasIneq) m.setIneqConFunction([=](auto &c, const auto &x, const auto &y, const auto &u, const double &e) {
        if (traj(*w, I_, x, u)) outputs(*w, I_, x, y, u);
        if (c.size() != w->d.ineq) w->bad("size", fmt("the inequality function has to fill %d entries", (int)c.size()));
        if (!std::isfinite(e)) w->bad("not-finite", "the inequality function gets a slack that is not finite");
        in(c, x, y, u, e);
    });
    auto eq = eqFn(sp);
    if (sp->hasEq) m.setEqConFunction([=](auto &c, const auto &x, const auto &u) {
        traj(*w, E_, x, u);
        if (c.size() != w->d.eq) w->bad("size", fmt("the equality function has to fill %d entries", (int)c.size()));
        eq(c, x, u);
    });
}
template <class Ctrl>
static void drive(Src &s, Case &c, Ctrl &m, Dims d) {
    POpt o;
    o.soft = s.coin();
    o.linear = s.coin();
    auto w = std::make_shared<Watch>();
    w->d = d;
    w->sp = std::make_shared<Spec>(genProblem(s, d, o));
    auto &sp = *w->sp;
    bool scaled = s.chance(1, 2);
    if (scaled) {
        VecD sx(d.nx), su(d.nu);
        for (int i = 0; i < d.nx; i++) sx(i) = s.positive(0.1, 10);
        for (int i = 0; i < d.nu; i++) su(i) = s.positive(0.1, 10);
        m.setStateScale(sx);
        m.setInputScale(su);
    }
    if (sp.cont) m.setDiscretizationSamplingTime(sp.ts);
    wire(m, w);
    auto par = tightParams(60);
    par.hard_constraints = !o.soft;
    m.setOptimizerParameters(par);
    std::string hist;
    int nopt = 0, steps = s.irange(1, 5);
    bool limits = s.chance(1, 3), stateLimits = false;
    for (int k = 0; k < steps; k++) {
        if (s.chance(1, 4)) { par.enable_warm_start = s.coin(); m.setOptimizerParameters(par); hist += " parameters"; }
        if (limits && s.coin()) { m.setInputBounds(VecD::Constant(d.nu, -s.uniform(0.1, 2)), VecD::Constant(d.nu, s.uniform(0.1, 2)), mpc::HorizonSlice::all()); hist += " input-bounds"; }
        if (limits && s.coin()) { stateLimits = true; m.setStateBounds(VecD::Constant(d.nx, -s.uniform(0.5, 4)), VecD::Constant(d.nx, s.uniform(0.5, 4)), mpc::HorizonSlice::all()); hist += " state-bounds"; }
        w->feasible = !sp.hasEq && !stateLimits && (!sp.hasIneq || o.soft);
        w->lost = false;
        w->x0 = genVec(s, d.nx, s.coin() ? 3 : 1000);
        for (auto &v : w->n) v = 0;
        w->mk.clear();
        w->ok.clear();
        auto r = m.optimize(w->x0, genVec(s, d.nu, 2));
        hist += " optimize";
        nopt++;
        auto ctx = [&]() { return d.str() + (sp.cont ? " continuous" : " discrete") + fmt(" scaled=%d", scaled) + hist; };
        if (!w->sig.empty()) pbt::fail(w->sig.c_str(), ctx() + ": " + w->msg);
        bool want[] = {true, sp.hasOut, true, sp.hasIneq, sp.hasEq};
        for (int f = 0; f < 5; f++)
            if (want[f]) PBT_CHECK(w->n[f] > 0, "never-called", "%s: the %s function is never called", ctx().c_str(), who[f]);
        // all steps are visited
        PBT_CHECK((int)w->mk.size() == d.ph && *w->mk.begin() == 0 && *w->mk.rbegin() == d.ph - 1, "step-index", "%s: the model is asked for %d distinct steps, the horizon has %d", ctx().c_str(), (int)w->mk.size(), d.ph);
        if (sp.hasOut) PBT_CHECK((int)w->ok.size() == d.ph + 1 && *w->ok.begin() == 0 && *w->ok.rbegin() == d.ph, "step-index", "%s: the output function is asked for %d distinct steps, the horizon has %d", ctx().c_str(), (int)w->ok.size(), d.ph + 1);
        if (w->lost) c.label("solver-lost");
        if (w->feasible) c.label("always-feasible");
        if (r.status == mpc::ERROR) c.label("solver-error");
    }
    if (d.ph > 6) c.label("large");
    c.nontrivial = d.ph >= 2 && w->n[C_] > 2;
    if (w->probes) c.label("perturbed-hold");
    if (sp.hasOut) c.label("outputs");
    if (sp.hasIneq) c.label("ineq");
    if (sp.hasEq) c.label("eq");
    if (scaled) c.label("scaled");
    if (c.wantSample) c.sample = d.str() + hist + fmt(": %ld model, %ld output, %ld cost, %ld inequality and %ld equality calls in the last one", w->n[0], w->n[1], w->n[2], w->n[3], w->n[4]);
}

void pbt_register(pbt::Runner &r) {
    std::string rule = "prediction horizon >= 2 and at least three cost calls in the last optimisation";
    r.add("runtime-sized", [](Src &s, Case &c) {
        quiet();
        Dims d = genDims(s, 6, 3, 100, 14, 5);
        d.ineq = s.irange(0, 2);
        d.eq = s.chance(1, 3) ? s.irange(1, 2) : 0;
        mpc::NLMPC<> m(d.nx, d.nu, d.ny, d.ph, d.ch, d.ineq, d.eq);
        drive(s, c, m, d);
    }, 20000, 800000, rule, 0.4);
    r.add("fixed-sized", [](Src &s, Case &c) {
        quiet();
        mpc::NLMPC<2, 1, 2, 4, 2, 2, 1> m;
        drive(s, c, m, Dims{2, 1, 2, 4, 2, 2, 1});
    }, 6000, 200000, rule, 0.4);
}
PBT_MAIN("N14")
