#include "py.hpp"
#include "../L07/script.hpp"
using namespace pyt;
using lin::Case;
using lin::fmt;

struct PyL : PyBase<mpc::LMPC<>> {
    PyL(Src &s, const LDims &d) : PyBase(s, "LMPC", {d.nx, d.nu, d.ndu, d.ny, d.ph, d.ch}) {}
    using H = mpc::HorizonSlice;
    bool setStateSpaceModel(const MatD &A, const MatD &B, const MatD &C) { return yes(call("setStateSpaceModel", a(A), a(B), a(C))); }
    bool setDisturbances(const MatD &B, const MatD &D) { return yes(call("setDisturbances", a(B), a(D))); }
    bool setObjectiveWeights(const MatD &y, const MatD &u, const MatD &du) { return yes(call("setObjectiveWeights", a(y), a(u), a(du))); }
    bool setObjectiveWeights(const VecD &y, const VecD &u, const VecD &du, const H &h) { return yes(call("setObjectiveWeights", a(y), a(u), a(du), a(h))); }
    bool setReferences(const MatD &y, const MatD &u, const MatD &du) { return yes(call("setReferences", a(y), a(u), a(du))); }
    bool setReferences(const VecD &y, const VecD &u, const VecD &du, const H &h) { return yes(call("setReferences", a(y), a(u), a(du), a(h))); }
    bool setExogenousInputs(const MatD &m) { return yes(call("setExogenousInputs", a(m))); }
    bool setExogenousInputs(const VecD &v, const H &h) { return yes(call("setExogenousInputs", a(v), a(h))); }
    bool setScalarConstraint(double lo, double hi, const VecD &x, const VecD &u, const H &h) { return yes(call("setScalarConstraint", a.num(lo), a.num(hi), a(x), a(u), a(h))); }
    bool setScalarConstraint(unsigned i, double lo, double hi, const VecD &x, const VecD &u) { return yes(call("setScalarConstraint", a.num((int)i), a.num(lo), a.num(hi), a(x), a(u))); }
    template <class... A> bool setConstraints(A &&...) { throw pbt::Discard(); }  // not offered in Python
    void setInputScale(const VecD &) { throw pbt::Discard(); }
    void setStateScale(const VecD &) { throw pbt::Discard(); }
    bool setDiscretizationSamplingTime(double) { throw pbt::Discard(); }
    void setOptimizerParameters(const mpc::LParameters &p) {
        py::object q = world().mpc.attr("LParameters")();
        q.attr("maximum_iteration") = p.maximum_iteration;
        q.attr("time_limit") = a.num(p.time_limit);
        q.attr("enable_warm_start") = p.enable_warm_start;
        q.attr("alpha") = p.alpha;
        q.attr("rho") = p.rho;
        q.attr("eps_rel") = p.eps_rel;
        q.attr("eps_abs") = p.eps_abs;
        q.attr("eps_prim_inf") = p.eps_prim_inf;
        q.attr("eps_dual_inf") = p.eps_dual_inf;
        q.attr("verbose") = p.verbose;
        q.attr("adaptive_rho") = p.adaptive_rho;
        q.attr("polish") = p.polish;
        none(call("setOptimizerParameters", q));
        if (s.coin()) q.attr("alpha") = 1.0;
    }
    py::object numbers(const std::vector<double> &v) { return s.coin() ? py::object(py::cast(v)) : a(VecD(Eigen::Map<const VecD>(v.data(), v.size()))); }
    void setSolverWarmStart(const std::vector<double> &x, const std::vector<double> &y) {
        py::object l = py::cast(x), r = py::cast(y);
        none(call("setSolverWarmStart", l, r));
        l.attr("clear")();
    }
    std::vector<double> getSolverWarmStartPrimal() { return call("getSolverWarmStartPrimal").cast<std::vector<double>>(); }
    std::vector<double> getSolverWarmStartDual() { return call("getSolverWarmStartDual").cast<std::vector<double>>(); }
};
static void box(Src &s, int r, int c, MatD &lo, MatD &hi) {
    lo = genMat(s, r, c, 3); hi = lo;
    for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) {
        hi(i, j) += s.positive(0.01, 3);
        if (s.chance(1, 5)) lo(i, j) = -INF;
        if (s.chance(1, 5)) hi(i, j) = INF;
    }
}
static LOp genOp(Src &s, const LDims &d, int kind) {
    LOp o;
    o.kind = kind;
    int h = kind == Q_USL ? d.ch : d.ph;
    o.i = s.irange(-1, h); o.j = s.irange(-1, h + 1);
    if (s.coin()) { o.i = (int)s.below(h); o.j = s.irange(o.i + 1, h); }
    else if (s.coin()) o.i = o.j = -1;
    switch (kind) {
    case Q_MODEL: o.a = genMat(s, d.nx, d.nx, 1); o.b = genMat(s, d.nx, d.nu, 2); o.c = genMat(s, d.ny, d.nx, 2); break;
    case Q_DIST: o.a = genMat(s, d.nx, d.ndu, 2); o.b = genMat(s, d.ny, d.ndu, 2); break;
    case Q_WMAT: case Q_WSL: o.a = genPos(s, d.ny, d.ph, false); o.b = genPos(s, d.nu, d.ph, false); o.c = genPos(s, d.nu, d.ph, false); break;
    case Q_RMAT: case Q_RSL: o.a = genMat(s, d.ny, d.ph, 3); o.b = genMat(s, d.nu, d.ph, 3); o.c = genMat(s, d.nu, d.ph, 3); break;
    case Q_EMAT: case Q_ESL: o.a = genMat(s, d.ndu, d.ph, 3); break;
    case Q_XMAT: case Q_XSL: box(s, d.nx, d.ph, o.a, o.b); break;
    case Q_UMAT: case Q_USL: box(s, d.nu, d.ch, o.a, o.b); break;
    case Q_YMAT: case Q_YSL: box(s, d.ny, d.ph, o.a, o.b); break;
    case Q_SC: case Q_SCI:
        if (kind == Q_SCI) o.i = s.chance(1, 4) ? d.ph + (int)s.below(3) : (int)s.below(d.ph);
        o.a = genV(s, d.nx, 2); o.b = genV(s, d.nu, 2);
        o.lo = s.real(); o.hi = o.lo + s.positive(0.1, 3);
        break;
    case Q_PAR:
        o.par.enable_warm_start = s.coin(); o.par.maximum_iteration = s.irange(1, 4000);
        o.par.alpha = s.uniform(0.1, 1.9); o.par.rho = s.positive(1e-7, 1); o.par.eps_rel = s.positive(1e-9, 1e-2); o.par.eps_abs = s.positive(1e-9, 1e-2);
        o.par.eps_prim_inf = s.positive(1e-9, 1e-2); o.par.eps_dual_inf = s.positive(1e-9, 1e-2); o.par.time_limit = s.coin() ? 0 : s.positive(1e-3, 10);
        o.par.verbose = s.coin(); o.par.adaptive_rho = s.coin(); o.par.polish = s.coin();
        break;
    case Q_WARM:
        o.a = genV(s, (d.ph + 1) * (d.nx + d.nu) + d.ph * d.nu, 2);
        o.b = genV(s, 2 * (d.ph + 1) * (d.nx + d.nu) + (d.ph + 1) * d.ny + d.ph * d.nu + d.ph + 1, 2);
        break;
    case Q_OPT: o.a = genV(s, d.nx, 4); o.b = genV(s, d.nu, 3); break;
    default: break;
    }
    return o;
}
static fake::Outcome outcome(uint64_t seed, int k, const fake::Program &g) {
    fake::Outcome o;
    o.exact = false;
    auto r = [&](int i) { return (double)(pbt::mix(seed + 1000003ull * k + i) >> 11) * 0x1p-53 * 8 - 4; };
    static const c_int st[] = {OSQP_SOLVED, OSQP_SOLVED, OSQP_SOLVED, OSQP_MAX_ITER_REACHED, OSQP_PRIMAL_INFEASIBLE, OSQP_SOLVED_INACCURATE};
    o.status = st[pbt::mix(seed + k) % 6];
    for (int i = 0; i < g.q.size(); i++) o.x.push_back(r(i));
    for (int i = 0; i < g.l.size(); i++) o.y.push_back(r(100000 + i));
    o.cost = r(-1);
    return o;
}
template <class L>
static void oneStep(L &m, const LDims &d, const LOp &o, LTrace &t) {
    size_t before = fake::st().runs.size();
    step(m, d, o, t);
    if (o.kind == Q_OPT && fake::st().runs.size() > before) {  // what the solver was told, too
        const OSQPSettings &q = fake::st().runs.back().set;
        for (double v : {q.alpha, q.rho, q.eps_rel, q.eps_abs, q.eps_prim_inf, q.eps_dual_inf, q.time_limit, (double)q.max_iter, (double)q.verbose, (double)q.adaptive_rho, (double)q.polish, (double)q.warm_start}) t.v.push_back(v);
    }
    if (o.kind == Q_OPT) {
        auto w = m.getSolverWarmStartDual();
        t.v.insert(t.v.end(), w.begin(), w.end());
    }
    t.ends.back() = (int)t.v.size();
}
void linear(Src &s, Case &c) {
    start();
    lin::quiet();
    LDims d = genDims(s, 3, 4);
    std::string hist;
    int opts = 0, n = s.irange(2, 16);
    std::vector<LOp> ops;
    bool model = false;
    auto add = [&](int kind) { ops.push_back(genOp(s, d, kind)); hist += std::string(" ") + qName(kind); };
    for (int k = 0; k < n; k++) {
        int kind = k + 1 == n || s.chance(1, 4) ? (int)Q_OPT : (int)s.below(Q_COUNT);
        if (kind == Q_STEP || kind == Q_SCALE || (d.ndu == 0 && (kind == Q_DIST || kind == Q_EMAT || kind == Q_ESL))) kind = Q_STATS;
        if (kind == Q_OPT && !model) add(Q_MODEL);
        model |= kind == Q_MODEL || kind == Q_OPT;
        opts += kind == Q_OPT;
        add(kind);
    }
    auto ctx = [&] { return lin::str(d) + ":" + hist; };
    static const std::vector<std::string> bad = {"m.setStateSpaceModel(A, A)", "m.setObjectiveWeights('x', A, A)", "m.optimize(v)", "m.optimize(v, v, 1)", "m.setReferences(v, v)", "m.setReferences(v, v, v, 3)", "m.setScalarConstraint(0.5, 0.0, 1.0, v, v)", "m.setScalarConstraint(0, 1.0, v, v)",
        "m.setOptimizerParameters(3)", "m.setLoggerLevel('NONE')", "m.setExogenousInputs(None)", "m.setSolverWarmStart(3, [])", "m.setSolverWarmStart(['a'], [])", "mpc.LMPC(1, 1, 1)", "mpc.LMPC(1.5, 1, 1, 1, 1, 1)", "m.setDisturbances(A)", "m.setInputBounds(v, v, None, 3)", "m.noSuchMethod()"};
    uint64_t seed = s.below(1u << 20);
    LTrace a, b;
    int k = 0;
    fake::reset();
    fake::st().script = [&](const fake::Program &g) { return outcome(seed, k++, g); };
    {
        auto m = make(d);
        for (auto &o : ops) oneStep(*m, d, o, a);
    }
    protocol();
    fake::reset();
    k = 0;
    fake::st().script = [&](const fake::Program &g) { return outcome(seed, k++, g); };
    noProblem();
    {
        PyL m(s, d);
        if (s.chance(1, 3)) m.misuse(bad);
        try {
            for (auto &o : ops) oneStep(m, d, o, b);
        } catch (py::error_already_set &e) {
            pbt::fail("python-raises", ctx() + ": operation " + fmt("%zu raises ", b.ends.size()) + e.what());
        }
        if (s.chance(1, 3)) m.misuse(bad);
        m.kept.check();
    }
    protocol();
    if (!problem().empty()) pbt::fail("python-arguments", ctx() + ": " + problem());
    for (size_t i = 0; i < ops.size(); i++) {
        int a0 = i ? a.ends[i - 1] : 0, b0 = i ? b.ends[i - 1] : 0, m = a.ends[i] - a0;
        PBT_CHECK(m == b.ends[i] - b0, "python-differs", "%s: operation %zu (%s) gives %d values in C++ and %d in Python", ctx().c_str(), i, qName(ops[i].kind), m, b.ends[i] - b0);
        for (int j = 0; j < m; j++)
            PBT_CHECK(eq(a.v[a0 + j], b.v[b0 + j]), "python-differs", "%s: operation %zu (%s): value %d is %.17g in C++ and %.17g in Python", ctx().c_str(), i, qName(ops[i].kind), j, a.v[a0 + j], b.v[b0 + j]);
    }
    c.nontrivial = opts >= 1 && ops.size() >= 4;
    if (c.wantSample) c.sample = ctx();
}
