#include "../N09/gen.hpp"
#include "heap.hpp"
#include <mpc/Logger.hpp>
#ifndef PART
long g_calls = 0, g_fail = 0;
bool g_odd = false;
#else
extern long g_calls, g_fail;
extern bool g_odd;
#endif
[[maybe_unused]] static void mayFail() {
    if (++g_calls != g_fail) return;
    if (g_odd) throw 7;
    throw std::runtime_error("a user function failed with a message longer than any small string buffer");
}
// the user's functions fail at one of their calls
template <class C>
struct Failing {
    C &m;
    template <class F> bool setStateSpaceFunction(F f, float tol = 1e-10f) { return m.setStateSpaceFunction([f](auto &dx, const auto &x, const auto &u, const unsigned &k) { mayFail(); f(dx, x, u, k); }, tol); }
    template <class F> bool setOutputFunction(F f) { return m.setOutputFunction([f](auto &y, const auto &x, const auto &u, const unsigned &k) { mayFail(); f(y, x, u, k); }); }
    template <class F> bool setObjectiveFunction(F f) { return m.setObjectiveFunction([f](const auto &x, const auto &y, const auto &u, const double &e) { mayFail(); return f(x, y, u, e); }); }
    template <class F> bool setIneqConFunction(F f, float tol = 1e-10f) { return m.setIneqConFunction([f](auto &c, const auto &x, const auto &y, const auto &u, const double &e) { mayFail(); f(c, x, y, u, e); }, tol); }
    template <class F> bool setEqConFunction(F f, float tol = 1e-10f) { return m.setEqConFunction([f](auto &c, const auto &x, const auto &u) { mayFail(); f(c, x, u); }, tol); }
    template <class V> void setStateScale(const V &v) { m.setStateScale(v); }
    template <class V> void setInputScale(const V &v) { m.setInputScale(v); }
    bool setDiscretizationSamplingTime(double t) { return m.setDiscretizationSamplingTime(t); }
    void setOptimizerParameters(const mpc::NLParameters &p) { m.setOptimizerParameters(p); }
    template <class... A> bool setStateBounds(A &&...a) { return m.setStateBounds(a...); }
    template <class... A> bool setInputBounds(A &&...a) { return m.setInputBounds(a...); }
    template <class... A> bool setOutputBounds(A &&...a) { return m.setOutputBounds(a...); }
    template <class V, class W> auto optimize(const V &x, const W &u) { return m.optimize(x, u); }
    auto getLastResult() { return m.getLastResult(); }
    auto getOptimalSequence() { return m.getOptimalSequence(); }
    auto &getExecutionStats() { return m.getExecutionStats(); }
    void resetStats() { m.resetStats(); }
};
template <class C, class... A>
static double session(const Dims &d, const std::vector<SOp> &ops, A... sizes) {
    Trace t;
    auto m = std::make_unique<C>(sizes...);
    Failing<C> f{*m};
    runOps(f, d, ops, t);
    // what was returned outlives the controller
    auto r = m->getLastResult();
    auto q = m->getOptimalSequence();
    auto st = m->getExecutionStats();
    m.reset();
    double sum = r.cost + r.cmd.sum() + q.state.sum() + q.input.sum() + q.output.sum() + st.numberOfSolutions + (double)r.solver_status_msg.size();
    for (double v : t.v) sum += v;
    return sum;
}
double fixed1(const Dims &d, const std::vector<SOp> &ops);
double fixed2(const Dims &d, const std::vector<SOp> &ops);
#if defined(PART) && PART == 1
double fixed1(const Dims &d, const std::vector<SOp> &ops) { return session<mpc::NLMPC<2, 1, 2, 4, 2, 1, 1>>(d, ops); }
#elif defined(PART) && PART == 2
double fixed2(const Dims &d, const std::vector<SOp> &ops) { return session<mpc::NLMPC<3, 2, 1, 3, 3, 0, 0>>(d, ops); }
#elif !defined(PART)
static struct Sink : std::streambuf {
    int overflow(int c) override { return c == EOF ? 0 : c; }
    std::streamsize xsputn(const char *, std::streamsize n) override { return n; }
} g_sink;
static std::ostream g_null(&g_sink);
template <class SZ = void>
static void operations(Src &s, Case &c) {
    auto &log = mpc::Logger::instance();
    log.setStream(&g_null);
    static const mpc::Logger::log_level lv[] = {mpc::Logger::NONE, mpc::Logger::DEEP, mpc::Logger::NORMAL};
    log.setLevel(lv[s.below(3)]);
    int which = (int)s.below(4);
    Dims d;
    if (which < 2) { d = genDims(s, 4, 3, 60, 10, 5); d.ineq = s.irange(0, 3); d.eq = s.irange(0, 2); }
    else if (which == 2) d = {2, 1, 2, 4, 2, 1, 1};
    else d = {3, 2, 1, 3, 3, 0, 0};
    std::string hist;
    int nopt = 0;
    auto ops = genOps(s, d, hist, nopt);
    long fail = s.coin() ? s.irange(1, s.coin() ? 40 : 2000) : 0;
    g_odd = s.coin();
    double sum = 0;
    balanced("a controller", d.str() + hist + pbt::fmt(" fails at call %ld", fail), [&] {
        g_calls = 0; g_fail = fail;
        sum = which < 2 ? session<mpc::NLMPC<>>(d, ops, d.nx, d.nu, d.ny, d.ph, d.ch, d.ineq, d.eq) : which == 2 ? fixed1(d, ops) : fixed2(d, ops);
    });
    bool failed = fail && g_calls >= fail;
    c.nontrivial = nopt > 0 && ops.size() >= 4;
    if (failed) c.label("failing-function");
    if (sum != 0) c.label("values");
    c.label(which < 2 ? "run-time-sized" : "compile-time-sized");
    if (c.wantSample) c.sample = d.str() + hist;
}
void nonlinear(Src &s, Case &c) { operations(s, c); }
#else
// the pieces of the transcription, used on their own
void components(Src &s, Case &c) {
    quiet();
    Dims d = genDims(s, 5, 3, 60, 20, 8);
    d.ineq = s.irange(0, 3); d.eq = s.irange(0, 2);
    POpt o;
    o.soft = s.coin();
    auto sp = std::make_shared<Spec>(genProblem(s, d, o));
    VecD x0 = genVec(s, d.nx, 3);
    std::vector<VecD> zs;
    int n = s.irange(1, 4);
    for (int i = 0; i < n; i++) zs.push_back(genVec(s, d.nz(), 2));
    unsigned what = (unsigned)s.below(16);
    balanced("a set of components", d.str(), [&] {
        Parts<DYN> p;
        p.wire(sp, x0);
        for (auto &z : zs) {
            p.obj.evaluate(z, what & 1);
            p.con.evaluateStateModelEq(z, what & 2);
            if (d.ineq) p.con.evaluateIneq(z, what & 4);
            if (d.eq) p.con.evaluateEq(z, what & 8);
            p.con.isFeasible(z);
        }
    });
    c.nontrivial = what != 0;
    if (c.wantSample) c.sample = d.str();
}
#endif
