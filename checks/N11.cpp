// N11: histories of redefinitions against a controller configured once with the latest definitions.
#include "../harness/ctl.hpp"
using namespace nl;
using Ctrl = mpc::NLMPC<>;

struct Calls {
    long dyn = 0, out = 0, obj = 0, ineq = 0, eq = 0;
    bool operator==(const Calls &o) const { return dyn == o.dyn && out == o.out && obj == o.obj && ineq == o.ineq && eq == o.eq; }
};
// one definition of every function; "live" tells which version may still be called
struct Def {
    std::shared_ptr<Spec> sp;
    int id;
};
struct Live {
    int dyn = -1, out = -1, obj = -1, ineq = -1, eq = -1;
    Calls n;
    std::string stale;
    void at(int want, int id, long &cnt, const char *what) {
        cnt++;
        if (want != id) stale = what;
    }
};
using LiveP = std::shared_ptr<Live>;
static void accepted(const char *what, bool r) { PBT_CHECK(r, "refused", "%s reports a failure", what); }
static void setDyn(Ctrl &m, LiveP l, Def f) {
    l->dyn = f.id;
    auto g = stateFn(f.sp);
    accepted("setStateSpaceFunction", m.setStateSpaceFunction([=](auto &dx, const auto &x, const auto &u, const unsigned int &k) { l->at(l->dyn, f.id, l->n.dyn, "model"); g(dx, x, u, k); }));
}
static void setOut(Ctrl &m, LiveP l, Def f) {
    l->out = f.id;
    auto g = outFn(f.sp);
    accepted("setOutputFunction", m.setOutputFunction([=](auto &y, const auto &x, const auto &u, const unsigned int &k) { l->at(l->out, f.id, l->n.out, "output"); g(y, x, u, k); }));
}
static void setObj(Ctrl &m, LiveP l, Def f) {
    l->obj = f.id;
    auto g = objFn(f.sp);
    accepted("setObjectiveFunction", m.setObjectiveFunction([=](const auto &x, const auto &y, const auto &u, const double &e) -> double { l->at(l->obj, f.id, l->n.obj, "cost"); return g(x, y, u, e); }));
}
static void setIneq(Ctrl &m, LiveP l, Def f, float tol) {
    l->ineq = f.id;
    auto g = ineqFn(f.sp);
    accepted("setIneqConFunction", m.setIneqConFunction([=](auto &c, const auto &x, const auto &y, const auto &u, const double &e) { l->at(l->ineq, f.id, l->n.ineq, "inequality"); g(c, x, y, u, e); }, tol));
}
static void setEq(Ctrl &m, LiveP l, Def f, float tol) {
    l->eq = f.id;
    auto g = eqFn(f.sp);
    accepted("setEqConFunction", m.setEqConFunction([=](auto &c, const auto &x, const auto &u) { l->at(l->eq, f.id, l->n.eq, "equality"); g(c, x, u); }, tol));
}

static void prop(Src &s, Case &c) {
    quiet();
    Dims d = genDims(s, 4, 2, 100, 12, 4);
    d.ineq = s.irange(0, 2);
    d.eq = s.chance(1, 10) ? s.irange(1, d.ch * d.nu + 4) : s.irange(0, 1);
    POpt o;
    o.soft = s.coin();
    o.linear = s.coin();
    const char *names[] = {"model", "output", "cost", "inequality", "equality", "scales", "sampling", "parameters", "bounds"};
    Def cur[5];
    int nextId = 0;
    auto fresh = [&](bool cont) {
        Spec p = genProblem(s, d, o);
        p.cont = cont;
        p.hasOut = true;
        return Def{std::make_shared<Spec>(p), nextId++};
    };
    bool cont = false;
    double ts = 0;
    float tolI = 0, tolE = 0;
    bool has[9] = {};
    VecD sx, su, lo, hi;
    mpc::NLParameters par;
    Ctrl m(d.nx, d.nu, d.ny, d.ph, d.ch, d.ineq, d.eq);
    LiveP live = std::make_shared<Live>();
    static const float tols[] = {1e-10f, 1e-8f, 1e-6f, 1e-3f};
    std::string hist;
    VecD x, u;
    int redefined = 0, refused = 0, compared = 0, steps = s.irange(4, 16);
    bool ran = false;
    // the solver takes no more equalities than unknowns: beyond that the definition must be accepted and used, or refused
    auto crowded = [&](int op) { return op == 4 ? d.eq > d.ch * d.nu + 1 + (has[0] ? 0 : d.ph * d.nx) : op == 0 && has[4] && d.eq > d.ch * d.nu + 1; };
    // a definition that may be refused: when it is, nothing of it may take effect (the live ids do not change)
    auto attempt = [&](int op, Def f, float tol) {
        Live keep = *live;
        bool r;
        switch (op) {
        case 0: { auto g = stateFn(f.sp); r = m.setStateSpaceFunction([=](auto &dx, const auto &x, const auto &u, const unsigned int &k) { live->at(live->dyn, f.id, live->n.dyn, "model"); g(dx, x, u, k); }, tol); if (r) live->dyn = f.id; break; }
        case 3: { auto g = ineqFn(f.sp); r = m.setIneqConFunction([=](auto &c, const auto &x, const auto &y, const auto &u, const double &e) { live->at(live->ineq, f.id, live->n.ineq, "inequality"); g(c, x, y, u, e); }, tol); if (r) live->ineq = f.id; break; }
        default: { auto g = eqFn(f.sp); r = m.setEqConFunction([=](auto &c, const auto &x, const auto &u) { live->at(live->eq, f.id, live->n.eq, "equality"); g(c, x, u); }, tol); if (r) live->eq = f.id; }
        }
        return r;
    };
    auto define = [&](int op) {
        if (crowded(op)) {
            Def f = fresh(cont);
            hist += std::string(" crowded-") + names[op];
            refused++;
            if (!attempt(op, f, op == 4 ? 1e-6f : 1e-10f)) return;
            cur[op] = f;
            tolE = op == 4 ? 1e-6f : tolE;
            has[op] = true;
            return;
        }
        if ((op == 0 || op == 3 || op == 4) && s.chance(1, 6)) {  // a tolerance that makes no sense
            float tol = -tols[s.below(4)];
            hist += std::string(" refused-") + names[op];
            refused++;
            PBT_CHECK(!attempt(op, fresh(cont), tol), "not-refused", "%s: a tolerance of %g is reported as accepted", hist.c_str(), tol);
            if (s.coin()) return;
        }
        if (has[op]) redefined++;
        has[op] = true;
        hist += std::string(" ") + names[op];
        switch (op) {
        case 0: cur[0] = fresh(cont); setDyn(m, live, cur[0]); break;
        case 1: cur[1] = fresh(cont); setOut(m, live, cur[1]); break;
        case 2: cur[2] = fresh(cont); setObj(m, live, cur[2]); break;
        case 3: cur[3] = fresh(cont); tolI = tols[s.below(4)]; setIneq(m, live, cur[3], tolI); break;
        case 4: cur[4] = fresh(cont); tolE = tols[s.below(4)]; setEq(m, live, cur[4], tolE); break;
        case 5: {
            sx = VecD(d.nx); su = VecD(d.nu);
            for (int i = 0; i < d.nx; i++) sx(i) = s.positive(0.1, 10);
            for (int i = 0; i < d.nu; i++) su(i) = s.positive(0.1, 10);
            if (s.coin()) { m.setStateScale(sx); m.setInputScale(su); }
            else { m.setInputScale(su); m.setStateScale(sx); }
            break;
        }
        case 6: cont = true; ts = s.uniform(0.05, 0.3); accepted("setDiscretizationSamplingTime", m.setDiscretizationSamplingTime(ts)); break;
        case 7:
            par = tightParams(s.coin() ? 200 : s.irange(1, 40));
            par.hard_constraints = s.coin();
            if (s.coin()) par.relative_xtol = 1e-4;
            m.setOptimizerParameters(par);
            break;
        default:
            lo = VecD::Constant(d.nu, -s.uniform(0.1, 3)); hi = VecD::Constant(d.nu, s.uniform(0.1, 3));
            m.setInputBounds(lo, hi, mpc::HorizonSlice::all());
        }
    };
    for (int k = 0; k < steps; k++) {
        if (k + 1 < steps && s.chance(2, 3)) {
            int op = (int)s.below(9);
            if (op == 3 && !d.ineq) op = 0;
            if (op == 4 && !d.eq) op = 2;
            define(op);
            continue;
        }
        for (int i = 0; i < 20 && !has[0] && !(i && crowded(0)); i++) define(0);
        if (!has[2]) define(2);
        hist += " optimize";
        if (!x.size() || s.coin()) x = genVec(s, d.nx, 3), u = genVec(s, d.nu, 2);  // or the same measurement, so that only the settings differ
        live->n = Calls();
        live->stale.clear();
        mpc::Result<> r = m.optimize(x, u);
        auto ctx = [&]() { return d.str() + hist; };
        PBT_CHECK(live->stale.empty(), "stale", "%s: a replaced %s function was called", ctx().c_str(), live->stale.c_str());
        // the same definitions, each given once, in another order
        Ctrl t(d.nx, d.nu, d.ny, d.ph, d.ch, d.ineq, d.eq);
        LiveP tl = std::make_shared<Live>();
        int order[9] = {0, 1, 2, 3, 4, 5, 6, 7, 8};
        for (int i = 8; i > 0; i--) std::swap(order[i], order[s.below(i + 1)]);
        for (int op : order) {
            if (!has[op]) continue;
            switch (op) {
            case 0: setDyn(t, tl, cur[0]); break;
            case 1: setOut(t, tl, cur[1]); break;
            case 2: setObj(t, tl, cur[2]); break;
            case 3: setIneq(t, tl, cur[3], tolI); break;
            case 4: setEq(t, tl, cur[4], tolE); break;
            case 5: t.setStateScale(sx); t.setInputScale(su); break;
            case 6: t.setDiscretizationSamplingTime(ts); break;
            case 7: t.setOptimizerParameters(par); break;
            default: t.setInputBounds(lo, hi, mpc::HorizonSlice::all());
            }
        }
        mpc::Result<> f = t.optimize(x, u);
        PBT_CHECK(live->n == tl->n, "calls", "%s: function calls differ from a controller configured once (model %ld/%ld output %ld/%ld cost %ld/%ld inequality %ld/%ld equality %ld/%ld), results %s / %s", ctx().c_str(), live->n.dyn,
                  tl->n.dyn, live->n.out, tl->n.out, live->n.obj, tl->n.obj, live->n.ineq, tl->n.ineq, live->n.eq, tl->n.eq, resStr(r).c_str(), resStr(f).c_str());
        if (has[3]) PBT_CHECK(live->n.ineq > 0, "unused", "%s: the inequality function was never called", ctx().c_str());
        if (has[4]) PBT_CHECK(live->n.eq > 0, "unused", "%s: the equality function was never called", ctx().c_str());
        if (r.status == mpc::ERROR && f.status == mpc::ERROR) f.cmd = r.cmd;  // each keeps its own last command
        std::vector<double> a, b;
        flatten(a, r, m.getOptimalSequence());
        flatten(b, f, t.getOptimalSequence());
        size_t at;
        PBT_CHECK(same(a, b, at), "result", "%s: %s, a controller configured once gives %s", ctx().c_str(), resStr(r).c_str(), resStr(f).c_str());
        if (redefined) compared++;
        ran = true;
        c.label(fmt("code%d", r.solver_status));
    }
    if (d.ph > 4) c.label("large");
    if (refused) c.label("with refused definitions");
    c.nontrivial = compared > 0;
    if (c.wantSample) c.sample = d.str() + hist;
}

void pbt_register(pbt::Runner &r) {
    r.assumptions.push_back("the model and the cost are defined before the first optimisation; warm start is off");
    r.add("redefine", prop, 22000, 1000000, "something was defined more than once before a compared optimisation", 0.4);
}
PBT_MAIN("N11")
