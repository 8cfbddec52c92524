#include "py.hpp"
#include "../N09/gen.hpp"
using namespace pyt;
using nl::Case;

// a user function that fails at a given call, in both languages
static long g_calls = 0, g_fail = 0;
static void mayFail() {
    if (++g_calls == g_fail) throw std::runtime_error("sensor");
}
struct Plain {  // the C++ controller
    mpc::NLMPC<> &m;
    template <class F> bool setStateSpaceFunction(F f, float tol = 1e-10f) { return m.setStateSpaceFunction([f](VecD &dx, const VecD &x, const VecD &u, const unsigned &k) { mayFail(); f(dx, x, u, k); }, tol); }
    template <class F> bool setOutputFunction(F f) { return m.setOutputFunction([f](VecD &y, const VecD &x, const VecD &u, const unsigned &k) { mayFail(); f(y, x, u, k); }); }
    template <class F> bool setObjectiveFunction(F f) { return m.setObjectiveFunction([f](const MatD &x, const MatD &y, const MatD &u, const double &e) { mayFail(); return f(x, y, u, e); }); }
    template <class F> bool setIneqConFunction(F f, float tol = 1e-10f) { return m.setIneqConFunction([f](VecD &c, const MatD &x, const MatD &y, const MatD &u, const double &e) { mayFail(); f(c, x, y, u, e); }, tol); }
    template <class F> bool setEqConFunction(F f, float tol = 1e-10f) { return m.setEqConFunction([f](VecD &c, const MatD &x, const MatD &u) { mayFail(); f(c, x, u); }, tol); }
    void setStateScale(const VecD &v) { m.setStateScale(v); }
    void setInputScale(const VecD &v) { m.setInputScale(v); }
    bool setDiscretizationSamplingTime(double t) { return m.setDiscretizationSamplingTime(t); }
    void setOptimizerParameters(const mpc::NLParameters &p) { m.setOptimizerParameters(p); }
    template <class... A> bool setStateBounds(A &&...a) { return m.setStateBounds(a...); }
    template <class... A> bool setInputBounds(A &&...a) { return m.setInputBounds(a...); }
    template <class... A> bool setOutputBounds(A &&...a) { return m.setOutputBounds(a...); }
    auto optimize(const VecD &x, const VecD &u) { return m.optimize(x, u); }
    auto getLastResult() { return m.getLastResult(); }
    auto getOptimalSequence() { return m.getOptimalSequence(); }
    auto &getExecutionStats() { return m.getExecutionStats(); }
    void resetStats() { m.resetStats(); }
};
struct PyNL : PyBase<mpc::NLMPC<>> {
    nl::Dims d;
    PyNL(Src &s, const nl::Dims &d_) : PyBase(s, "NLMPC", {d_.nx, d_.nu, d_.ny, d_.ph, d_.ch, d_.ineq, d_.eq}), d(d_) {}
    py::object fun(py::cpp_function f, const char *name, py::tuple want) { return world()("wrap")(f, name, want, (int)s.below(64)); }
    py::tuple v(int n) { return py::make_tuple(n); }
    py::tuple t(int n) { return py::make_tuple(d.ph + 1, n); }
    template <class F> bool setStateSpaceFunction(F f, float tol) {
        int n = d.nx;
        return yes(call("setStateSpaceFunction", fun([f, n](const VecD &x, const VecD &u, int k) { mayFail(); VecD r(n); f(r, x, u, (unsigned)k); return r; }, "the model", py::make_tuple(v(d.nx), v(d.nu), real("int"))), a.num((double)tol)));
    }
    template <class F> bool setStateSpaceFunction(F f) { return setStateSpaceFunction(f, 1e-10f); }
    template <class F> bool setOutputFunction(F f) {
        int n = d.ny;
        return yes(call("setOutputFunction", fun([f, n](const VecD &x, const VecD &u, int k) { mayFail(); VecD r(n); f(r, x, u, (unsigned)k); return r; }, "the output function", py::make_tuple(v(d.nx), v(d.nu), real("int")))));
    }
    template <class F> bool setObjectiveFunction(F f) {
        return yes(call("setObjectiveFunction", fun([f](const MatD &x, const MatD &y, const MatD &u, double e) { mayFail(); return f(x, y, u, e); }, "the cost", py::make_tuple(t(d.nx), t(d.ny), t(d.nu), real("float")))));
    }
    template <class F> bool setIneqConFunction(F f, float tol = 1e-10f) {
        int n = d.ineq;
        return yes(call("setIneqConFunction", fun([f, n](const MatD &x, const MatD &y, const MatD &u, double e) { mayFail(); VecD r(n); f(r, x, y, u, e); return r; }, "the inequality", py::make_tuple(t(d.nx), t(d.ny), t(d.nu), real("float"))), a.num((double)tol)));
    }
    template <class F> bool setEqConFunction(F f, float tol = 1e-10f) {
        int n = d.eq;
        return yes(call("setEqConFunction", fun([f, n](const MatD &x, const MatD &u) { mayFail(); VecD r(n); f(r, x, u); return r; }, "the equality", py::make_tuple(t(d.nx), t(d.nu))), a.num((double)tol)));
    }
    void setStateScale(const VecD &x) { none(call("setStateScale", a(x))); }
    void setInputScale(const VecD &x) { none(call("setInputScale", a(x))); }
    bool setDiscretizationSamplingTime(double ts) { return yes(call("setDiscretizationSamplingTime", a.num(ts))); }
    void setOptimizerParameters(const mpc::NLParameters &p) {
        py::object q = world().mpc.attr("NLParameters")();
        q.attr("maximum_iteration") = p.maximum_iteration;
        q.attr("time_limit") = a.num(p.time_limit);
        q.attr("enable_warm_start") = p.enable_warm_start;
        q.attr("relative_ftol") = p.relative_ftol;
        q.attr("relative_xtol") = p.relative_xtol;
        q.attr("absolute_ftol") = p.absolute_ftol;
        q.attr("absolute_xtol") = p.absolute_xtol;
        q.attr("hard_constraints") = p.hard_constraints;
        none(call("setOptimizerParameters", q));
        if (s.coin()) q.attr("maximum_iteration") = 1;  // the parameters were taken at the call
    }
};
void nonlinear(Src &s, Case &c) {
    start();
    nl::quiet();
    nl::Dims d = nl::genDims(s, 4, 3);
    d.ineq = s.irange(0, 2);
    d.eq = s.chance(1, 3) ? 1 : 0;
    std::string hist;
    int nopt = 0;
    auto ops = genOps(s, d, hist, nopt);
    long failAt = s.chance(1, 4) ? s.irange(1, 200) : 0;
    if (failAt) hist += pbt::fmt(" (a user function fails at call %ld)", failAt);
    auto ctx = [&] { return d.str() + ":" + hist; };
    static const std::vector<std::string> bad = {"m.setStateScale('x')", "m.setInputScale(None)", "m.optimize(v)", "m.optimize(v, v, 1)", "m.setStateBounds(A)", "m.setObjectiveFunction(3)", "m.setStateSpaceFunction(lambda x, u, k: x)", "m.setDiscretizationSamplingTime('a')",
        "m.setOptimizerParameters(3)", "m.setLoggerLevel('NONE')", "m.setLoggerPrefix(3)", "m.setStateBounds(v, v, 3)", "m.setInputBounds(v, v, (0, 1))", "m.setStateScale(np.zeros((1, 1, 1)))", "m.setEqConFunction(None, 'x')", "m.noSuchMethod()", "mpc.NLMPC(1, 1, 1)", "mpc.NLMPC(1.5, 1, 1, 1, 1, 0, 0)",
        "mpc.HorizonSlice(1)", "mpc.HorizonSlice(0.5, 1)", "m.getLastResult(1)", "m.optimize('a', 'b')"};
    Trace a, b;
    g_calls = 0; g_fail = failAt;
    {
        mpc::NLMPC<> m(d.nx, d.nu, d.ny, d.ph, d.ch, d.ineq, d.eq);
        Plain p{m};
        runOps(p, d, ops, a);
    }
    noProblem();
    g_calls = 0; g_fail = failAt;
    {
        PyNL m(s, d);
        if (s.chance(1, 3)) m.misuse(bad);
        try {
            runOps(m, d, ops, b);
        } catch (py::error_already_set &e) {
            pbt::fail("python-raises", ctx() + ": operation " + pbt::fmt("%zu raises ", b.ends.size()) + e.what());
        }
        if (s.chance(1, 3)) m.misuse(bad);
        if (s.chance(1, 8)) {
            // what was obtained from a controller outlives it
            py::object r = m.o.attr("getLastResult")(), q = m.o.attr("getOptimalSequence")(), cmd = r.attr("cmd"), X = q.attr("state");
            auto c0 = result(r);
            auto q0 = sequence(q);
            MatD x0 = X.cast<MatD>();
            m.o = py::none();
            r = py::none(); q = py::none();
            py::module_::import("gc").attr("collect")();
            PBT_CHECK(eqM(cmd.cast<VecD>(), c0.cmd) && eqM(X.cast<MatD>(), x0) && eqM(x0, q0.state), "python-lifetime", "%s: a command or state obtained earlier changes when the controller is deleted", ctx().c_str());
            c.label("outlives");
        }
    }
    g_fail = 0;
    if (!problem().empty()) pbt::fail("python-arguments", ctx() + ": " + problem());
    PBT_CHECK(a.ends.size() == b.ends.size(), "python-differs", "%s: %zu and %zu operations completed", ctx().c_str(), a.ends.size(), b.ends.size());
    for (size_t k = 0; k < ops.size(); k++) {
        int a0 = k ? a.ends[k - 1] : 0, b0 = k ? b.ends[k - 1] : 0, n = a.ends[k] - a0;
        PBT_CHECK(n == b.ends[k] - b0, "python-differs", "%s: operation %zu (%s) gives %d values in C++ and %d in Python", ctx().c_str(), k, opName(ops[k].kind), n, b.ends[k] - b0);
        for (int i = 0; i < n; i++)
            if ((ops[k].kind == O_OPT || ops[k].kind == O_LAST) && i == 4 && failAt) continue;  // the text of the failure
            else PBT_CHECK(eq(a.v[a0 + i], b.v[b0 + i]), "python-differs", "%s: operation %zu (%s): value %d is %.17g in C++ and %.17g in Python", ctx().c_str(), k, opName(ops[k].kind), i, a.v[a0 + i], b.v[b0 + i]);
        PBT_CHECK(a.start[k].size() == b.start[k].size(), "python-differs", "%s: operation %zu: the cost function is called with %zu and %zu numbers", ctx().c_str(), k, a.start[k].size(), b.start[k].size());
        for (size_t i = 0; i < a.start[k].size(); i++)
            PBT_CHECK(eq(a.start[k][i], b.start[k][i]), "python-differs", "%s: operation %zu: number %zu of the first cost call is %.17g in C++ and %.17g in Python", ctx().c_str(), k, i, a.start[k][i], b.start[k][i]);
    }
    c.nontrivial = nopt >= 1 && ops.size() >= 4;
    if (failAt) c.label("failing-function");
    if (c.wantSample) c.sample = ctx();
}
