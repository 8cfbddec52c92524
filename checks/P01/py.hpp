// An embedded interpreter with the module under test, and the ways a Python user may write the same call.
#pragma once
#include <pybind11/eigen.h>
#include <pybind11/embed.h>
#include <pybind11/functional.h>
#include <pybind11/stl.h>
#include <osqp/osqp.h>
#include <mpc/LMPC.hpp>
#include <mpc/NLMPC.hpp>
#include "../../harness/pbt.hpp"
void p01_register_module();

namespace pyt {
namespace py = pybind11;
using pbt::Src;
using VecD = Eigen::VectorXd;
using MatD = Eigen::MatrixXd;

struct World {
    py::module_ mpc, np;
    py::dict env;
    py::object operator()(const char *name) const { return env[name]; }
};
inline World *&worldPtr() { static World *w = nullptr; return w; }
inline World &world() { return *worldPtr(); }
inline void start() {
    if (worldPtr()) return;
    p01_register_module();
    new py::scoped_interpreter();  // lives as long as the process
    auto *w = new World;
    py::module_::import("sys").attr("path").attr("insert")(0, "/opt/veriftools/pyvenv/lib/python3.12/site-packages");
    w->np = py::module_::import("numpy");
    w->mpc = py::module_::import("pympcxx");
    w->env = py::dict();
    w->env["np"] = w->np;
    w->env["mpc"] = w->mpc;
    py::exec(R"(
problems = []
def array(a, form):
    'the same numbers in another layout'
    if form == 1: return np.asfortranarray(a)
    if form == 2:
        b = np.full([2 * n for n in a.shape], np.nan); v = b[tuple(slice(0, 2 * n, 2) for n in a.shape)]; v[...] = a; return v
    if form == 3: return a.tolist()
    if form == 4: return a.astype('>f8')
    if form == 5:
        with np.errstate(all='ignore'):
            for t in (np.int64, np.float32):
                b = a.astype(t)
                if np.isfinite(a).all() and (b.astype(float) == a).all(): return b
        return a[::-1][::-1]
    if form == 6 and a.ndim == 1: return a.reshape(-1, 1)
    if form == 7:
        b = a.copy(); b.flags.writeable = False; return b
    return a
def spoil(a):
    if isinstance(a, np.ndarray) and a.flags.writeable: a[...] = 77
    if isinstance(a, list): a.clear()
def wrap(f, name, want, form):
    kept = []
    def g(*args):
        if len(args) != len(want): problems.append('%s gets %d arguments' % (name, len(args)))
        for a, w in zip(args, want):
            if isinstance(w, tuple):
                if not isinstance(a, np.ndarray) or a.dtype != np.float64 or a.shape != w: problems.append('%s gets %r instead of an array of shape %r' % (name, getattr(a, 'shape', type(a)), w))
            elif type(a) is not w: problems.append('%s gets a %s instead of a %s' % (name, type(a), w))
        if form & 1 and len(kept) < 6:
            for a in args:
                if isinstance(a, np.ndarray): kept.append((a, a.copy()))
        r = f(*args)
        for a, c in kept:
            if not np.array_equal(a, c, equal_nan=True): problems.append('%s: an argument changes after the call' % name); kept.clear(); break
        if form & 2 and not form & 1:
            for a in args: spoil(a)
        if isinstance(r, np.ndarray) and form & 4: return array(r, form >> 3)
        return np.float64(r) if isinstance(r, float) and form & 4 else r
    return g
def refused(call, kinds):
    try: call()
    except kinds: return True
    except BaseException as e: problems.append('%r' % (e,)); return False
    return False
)", w->env);
    worldPtr() = w;
}
inline std::string problem() {
    py::list l = world()("problems");
    return l.empty() ? "" : l[0].cast<std::string>();
}
inline void noProblem() { world()("problems").attr("clear")(); }

// one way to write an array; the arrays of a call are spoilt afterwards
struct Args {
    Src &s;
    std::vector<py::object> made;
    py::object array(py::object a) {
        int form = s.coin() ? (int)s.below(8) : 0;
        py::object r = world()("array")(a, form);
        made.push_back(r);
        return r;
    }
    py::object operator()(const VecD &v) { return array(py::cast(v)); }
    py::object operator()(const MatD &v) { return array(py::cast(v)); }
    py::object operator()(const mpc::HorizonSlice &h) {
        auto c = world().mpc.attr("HorizonSlice");
        if (h.start == -1 && h.end == -1 && s.coin()) return c.attr("all")();
        return c(num(h.start), num(h.end));
    }
    py::object num(int i) { return s.coin() ? py::object(py::int_(i)) : world().np.attr("int64")(i); }
    py::object num(double v) {
        if (s.coin()) return py::float_(v);
        if (s.coin() && v == std::floor(v) && std::abs(v) < 1e9) return py::int_((long)v);
        return world().np.attr("float64")(v);
    }
    void done() {
        for (auto &a : made) world()("spoil")(a);
        made.clear();
    }
};
inline py::object real(const char *n) { return py::module_::import("builtins").attr(n); }

// results as the C++ types, read field by field under their Python names
inline mpc::Result<> result(const py::object &r) {
    mpc::Result<> o;
    o.solver_status = r.attr("solver_status").cast<int>();
    o.solver_status_msg = r.attr("solver_status_msg").cast<std::string>();
    o.cost = r.attr("cost").cast<double>();
    o.cmd = r.attr("cmd").cast<VecD>();
    o.is_feasible = r.attr("is_feasible").cast<bool>();
    py::object st = r.attr("status");
    std::string name = st.attr("name").cast<std::string>();
    static const std::map<std::string, mpc::ResultStatus> names = {{"SUCCESS", mpc::SUCCESS}, {"MAX_ITERATION", mpc::MAX_ITERATION}, {"INFEASIBLE", mpc::INFEASIBLE}, {"ERROR", mpc::ERROR}, {"UNKNOWN", mpc::UNKNOWN}};
    auto it = names.find(name);
    if (it == names.end() || !st.equal(world().mpc.attr("ResultStatus").attr(name.c_str()))) pbt::fail("python-status", "a result carries the status " + name);
    o.status = it->second;
    return o;
}
inline mpc::OptSequence<> sequence(const py::object &q) {
    mpc::OptSequence<> o;
    o.state = q.attr("state").cast<MatD>();
    o.input = q.attr("input").cast<MatD>();
    o.output = q.attr("output").cast<MatD>();
    return o;
}
inline mpc::SolutionStats stats(const py::object &q, const mpc::SolutionStats &under) {
    mpc::SolutionStats o;
    o.numberOfSolutions = q.attr("numberOfSolutions").cast<int>();
    o.solutionsStates.clear();
    for (auto kv : q.attr("solutionsStates").cast<py::dict>()) {
        std::string name = kv.first.attr("name").cast<std::string>();
        auto e = kv.first.cast<mpc::ResultStatus>();
        if (!kv.first.equal(world().mpc.attr("ResultStatus").attr(name.c_str()))) pbt::fail("python-status", "the statistics count the status " + name);
        o.solutionsStates[e] = kv.second.cast<int>();
    }
    if (o.numberOfSolutions > 0) {
        auto t = [&](const char *n, double want) {
            double v = q.attr(n).attr("total_seconds")().cast<double>();
            PBT_CHECK(std::abs(v - want) <= 1.5e-6, "python-statistics", "%s is %.9g s in Python and %.9g s in C++", n, v, want);
        };
        t("minSolutionTime", under.minSolutionTime.count());
        t("maxSolutionTime", under.maxSolutionTime.count());
        t("averageSolutionTime", under.averageSolutionTime.count());
        t("totalSolutionTime", under.totalSolutionTime.count());
        double sd = q.attr("standardDeviation").cast<double>();
        PBT_CHECK(sd == under.standardDeviation || std::isnan(sd), "python-statistics", "the standard deviation is %.9g in Python and %.9g in C++", sd, under.standardDeviation);
    }
    return o;
}
inline bool eq(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }
inline bool eqM(const MatD &a, const MatD &b) {
    if (a.rows() != b.rows() || a.cols() != b.cols()) return false;
    for (int i = 0; i < a.size(); i++) if (!eq(a.data()[i], b.data()[i])) return false;
    return true;
}
inline void sameResult(const mpc::Result<> &p, const mpc::Result<> &c) {
    PBT_CHECK(p.status == c.status && p.solver_status == c.solver_status && p.is_feasible == c.is_feasible && eq(p.cost, c.cost) && p.solver_status_msg == c.solver_status_msg && eqM(p.cmd, c.cmd),
              "python-getter", "the result read in Python has status %d, code %d, feasible %d, cost %.12g, the one in C++ %d, %d, %d, %.12g", (int)p.status, p.solver_status, (int)p.is_feasible, p.cost, (int)c.status, c.solver_status, (int)c.is_feasible, c.cost);
}
inline void sameSequence(const mpc::OptSequence<> &p, const mpc::OptSequence<> &c) {
    PBT_CHECK(eqM(p.state, c.state) && eqM(p.input, c.input) && eqM(p.output, c.output), "python-getter", "the sequence read in Python differs from the one in C++");
}
// earlier results and sequences a user keeps must not change
struct Kept {
    py::object o, view;
    mpc::Result<> copy;
    bool any = false;
    void keep(Src &s, const py::object &r) {
        if (any && !s.chance(1, 3)) return;
        o = r; view = r.attr("cmd"); copy = result(r); any = true;
    }
    void check() {
        if (!any) return;
        sameResult(result(o), copy);
        PBT_CHECK(eqM(view.cast<VecD>(), copy.cmd), "python-kept", "the command of an earlier result changes");
    }
};
// what both controllers have in common
template <class Ctrl>
struct PyBase {
    Src &s;
    py::object o;
    Args a{s};
    Kept kept;
    mpc::SolutionStats st;
    PyBase(Src &s_, const char *cls, const std::vector<int> &n) : s(s_) {
        py::tuple t(n.size());
        for (size_t i = 0; i < n.size(); i++) t[i] = a.num(n[i]);
        o = world().mpc.attr(cls)(*t);
        o.attr("setLoggerLevel")(world().mpc.attr("LoggerLevel").attr("NONE"));
    }
    Ctrl &under() { return o.cast<Ctrl &>(); }
    template <class... A>
    py::object call(const char *name, A &&...args) {
        py::object r = o.attr(name)(std::forward<A>(args)...);
        a.done();
        return r;
    }
    // a bool of Python, nothing else
    bool yes(const py::object &r) {
        PBT_CHECK(py::isinstance<py::bool_>(r), "python-return", "a setter does not return a bool");
        return r.cast<bool>();
    }
    void none(const py::object &r) { PBT_CHECK(r.is_none(), "python-return", "a method without a result returns one"); }
    mpc::Result<> optimize(const VecD &x, const VecD &u) {
        py::object r = call("optimize", a(x), a(u));
        kept.check();
        kept.keep(s, r);
        auto q = result(r);
        sameResult(q, under().getLastResult());
        return q;
    }
    mpc::Result<> getLastResult() {
        py::object r = call("getLastResult");
        kept.check();
        kept.keep(s, r);
        return result(r);
    }
    mpc::OptSequence<> getOptimalSequence() {
        auto q = sequence(call("getOptimalSequence"));
        sameSequence(q, under().getOptimalSequence());
        return q;
    }
    const mpc::SolutionStats &getExecutionStats() { return st = stats(call("getExecutionStats"), under().getExecutionStats()); }
    void resetStats() { none(call("resetStats")); }
    bool setStateBounds(const MatD &l, const MatD &u) { return yes(call("setStateBounds", a(l), a(u))); }
    bool setInputBounds(const MatD &l, const MatD &u) { return yes(call("setInputBounds", a(l), a(u))); }
    bool setOutputBounds(const MatD &l, const MatD &u) { return yes(call("setOutputBounds", a(l), a(u))); }
    bool setStateBounds(const VecD &l, const VecD &u, const mpc::HorizonSlice &h) { return yes(call("setStateBounds", a(l), a(u), a(h))); }
    bool setInputBounds(const VecD &l, const VecD &u, const mpc::HorizonSlice &h) { return yes(call("setInputBounds", a(l), a(u), a(h))); }
    bool setOutputBounds(const VecD &l, const VecD &u, const mpc::HorizonSlice &h) { return yes(call("setOutputBounds", a(l), a(u), a(h))); }
    // a call with unsuitable arguments is refused (and the comparison shows that it changed nothing)
    void misuse(const std::vector<std::string> &calls) {
        const std::string &e = calls[s.below(calls.size())];
        py::dict env(world().env);
        env["m"] = o;
        env["v"] = world().np.attr("zeros")(1);
        env["A"] = world().np.attr("zeros")(py::make_tuple(1, 1));
        py::exec("r = refused(lambda: " + e + ", (TypeError, AttributeError))", env);
        PBT_CHECK(env["r"].cast<bool>(), "python-misuse", "%s is accepted (%s)", e.c_str(), problem().c_str());
    }
};
}  // namespace pyt
