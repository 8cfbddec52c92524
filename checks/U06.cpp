// U06: what the library logs about an optimisation is what the optimisation returned, and logging changes nothing.
#include <sstream>
#include "../harness/ctl.hpp"
#include "../harness/lin.hpp"
using namespace pbt;
using mpc::Logger;

// every reading of the clock advances it, so that durations are neither zero nor repeated
static int64_t g_now = 1000000000, g_tick = 1000;
namespace std::chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept { return time_point(duration(g_now += g_tick)); }
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(g_now += g_tick)); }
} }

static int count(const std::string &t, const std::string &w) {
    int n = 0;
    for (size_t k = t.find(w); k != std::string::npos; k = t.find(w, k + w.size())) n++;
    return n;
}
struct Log {  // one set of logging options
    Logger::log_level level;
    std::string prefix;
};
static Log genLog(Src &s) {
    static const Logger::log_level lv[] = {Logger::DEEP, Logger::NORMAL, Logger::NORMAL, Logger::ALERT, Logger::NONE};
    Log l{lv[s.below(5)], ""};
    int n = s.coin() ? s.irange(1, 6) : 0;
    for (int i = 0; i < n; i++) l.prefix += "abZ0 _%"[s.below(7)];
    return l;
}
static std::string after(const std::string &t, const std::string &key, const std::string &at) {
    size_t k = t.find(key);
    PBT_CHECK(k != std::string::npos, "summary-missing", "the summary has no '%s' %s: %s", key.c_str(), at.c_str(), t.c_str());
    k += key.size();
    if (k < t.size() && t[k] == ' ') k++;
    size_t e = t.find('\n', k);
    return t.substr(k, (e == std::string::npos ? t.size() : e) - k);
}
static bool near(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)) || std::abs(a - b) <= 1.1e-5 * std::abs(b) + 1e-300; }
template <class R>
static void inspect(const Log &l, const std::string &t, const R &r, double spent, bool mayComplain, const std::string &at) {
    // the prefix is on every message
    std::string want = l.prefix.empty() ? "[MPC++]" : "[MPC++ " + l.prefix + "]";
    PBT_CHECK(count(t, "[MPC++") == count(t, want), "prefix", "%d messages, %d with the prefix '%s' %s", count(t, "[MPC++"), count(t, want), want.c_str(), at.c_str());
    if (l.level == Logger::NONE) PBT_CHECK(t.empty(), "silence", "a silent logger wrote '%s' %s", t.substr(0, 200).c_str(), at.c_str());
    if (l.level == Logger::ALERT) {
        PBT_CHECK(count(t, "feasibility:") == 0, "level", "a summary is written above its level %s", at.c_str());
        if (!mayComplain) PBT_CHECK(t.empty(), "silence", "an undisturbed optimisation wrote '%s' %s", t.substr(0, 200).c_str(), at.c_str());
    }
    if (l.level > Logger::NORMAL) return;
    PBT_CHECK(count(t, "feasibility:") == 1 && count(t, "duration:") == 1, "summary-count", "%d summaries of one optimisation %s", count(t, "feasibility:"), at.c_str());
    std::string u = t.substr(t.rfind("[MPC++"));
    PBT_CHECK(near(strtod(after(u, "duration:", at).c_str(), nullptr), spent), "duration", "logged duration %s instead of %.9g %s", after(u, "duration:", at).c_str(), spent, at.c_str());
    std::string st = after(u, "\nstatus:", at), code = after(u, "(opt code:", at);
    static const char *names[] = {"SUCCESS", "MAX_ITERATION", "INFEASIBLE", "ERROR", "UNKNOWN"};
    std::string first = st.substr(0, st.find(' '));
    PBT_CHECK(first == fmt("%d", (int)r.status) || first == names[(int)r.status], "status", "logged status '%s' of an optimisation with status %d %s", st.c_str(), (int)r.status, at.c_str());
    PBT_CHECK(atoi(code.c_str()) == r.solver_status, "code", "logged code '%s' instead of %d %s", code.c_str(), r.solver_status, at.c_str());
    std::string fe = after(u, "feasibility:", at);
    PBT_CHECK((fe == "1" || fe == "true") == r.is_feasible, "feasibility", "logged feasibility '%s' instead of %d %s", fe.c_str(), (int)r.is_feasible, at.c_str());
    std::string ms = after(u, "status message:", at);
    PBT_CHECK(ms == r.solver_status_msg, "message", "logged message '%s' instead of '%s' %s", ms.c_str(), r.solver_status_msg.c_str(), at.c_str());
    PBT_CHECK(near(strtod(after(u, "\ncost:", at).c_str(), nullptr), r.cost), "cost", "logged cost %s instead of %.9g %s", after(u, "\ncost:", at).c_str(), r.cost, at.c_str());
}
template <class M>
static void level(Src &s, M &m, const Log &l) {
    auto &L = Logger::instance();
    if (s.coin()) { m.setLoggerLevel(l.level); m.setLoggerPrefix(l.prefix); }
    else L.setLevel(l.level).setPrefix(l.prefix);
}
static void calm() { Logger::instance().setLevel(Logger::NONE).setPrefix("stale").setStream(&std::cout); }

template <class M, class Run>
static void history(Src &s, Case &c, M &quiet, M &loud, int runs, Run run, const std::string &what) {
    std::ostringstream os;
    std::string hist;
    int shown = 0;
    std::vector<double> a, b;
    Log l = genLog(s);
    for (int k = 0; k < runs; k++) {
        if (s.coin()) l = genLog(s);
        g_tick = 1 + (int64_t)s.below(5000000);
        auto go = run(k);
        calm();
        go(quiet, a);
        level(s, loud, l);
        Logger::instance().setStream(&os);
        os.str("");
        double before = loud.getExecutionStats().totalSolutionTime.count();
        auto r = go(loud, b);
        std::string t = os.str();
        calm();
        double spent = loud.getExecutionStats().totalSolutionTime.count() - before;
        hist += fmt(" level %d prefix '%s': status %d;", (int)l.level, l.prefix.c_str(), (int)r.status);
        std::string at = fmt("after%s %s", hist.c_str(), what.c_str());
        c.trace = at;
        inspect(l, t, r, spent, r.status != mpc::ResultStatus::SUCCESS, at);
        shown += !t.empty();
        size_t i;
        PBT_CHECK(nl::same(a, b, i), "log-changes-result", "a silent controller returns %.17g, a logging one %.17g (value %zu) %s", i < a.size() ? a[i] : 0.0, i < b.size() ? b[i] : 0.0, i, at.c_str());
        c.label(fmt("status %d", (int)r.status));
    }
    c.nontrivial = runs >= 2 && shown;
    if (c.wantSample) c.sample = what + ":" + hist;
}

static void nonlinear(Src &s, Case &c) {
    calm();
    nl::Dims d = nl::genDims(s, 4, 2);
    d.ineq = s.irange(0, 2);
    d.eq = s.irange(0, 1);
    nl::POpt o;
    o.soft = s.coin();
    o.linear = s.coin();
    auto sp = std::make_shared<nl::Spec>(nl::genProblem(s, d, o));
    int evals = s.coin() ? 100 : s.irange(1, 30);
    bool hard = !o.soft && s.coin(), warm = s.coin();
    auto bad = std::make_shared<int>(0);
    using Ctrl = mpc::NLMPC<>;
    Ctrl quiet(d.nx, d.nu, d.ny, d.ph, d.ch, d.ineq, d.eq), loud(d.nx, d.nu, d.ny, d.ph, d.ch, d.ineq, d.eq);
    std::ostringstream os;
    for (auto *m : {&quiet, &loud}) {
        calm();
        if (m == &loud && s.coin()) { Logger::instance().setStream(&os).setLevel(Logger::DEEP); }
        nl::bindModel(*m, sp);
        if (sp->hasOut) m->setOutputFunction(nl::outFn(sp));
        auto f = nl::objFn(sp);
        m->setObjectiveFunction([=](const auto &x, const auto &y, const auto &u, const double &e) -> double {
            if (*bad) throw std::runtime_error("user");
            return f(x, y, u, e);
        });
        if (sp->hasIneq) m->setIneqConFunction(nl::ineqFn(sp), 1e-6f);
        if (sp->hasEq) m->setEqConFunction(nl::eqFn(sp), 1e-6f);
        auto q = nl::tightParams(evals);
        q.hard_constraints = hard;
        q.enable_warm_start = warm;
        m->setOptimizerParameters(q);
    }
    history(s, c, quiet, loud, s.irange(1, 5), [&](int) {
        nl::VecD x = nl::genVec(s, d.nx, 3), u = nl::genVec(s, d.nu, 2);
        int b = s.chance(1, 6);
        return [=](Ctrl &m, std::vector<double> &v) {
            *bad = b;
            mpc::Result<> r = m.optimize(x, u);
            *bad = 0;
            nl::flatten(v, r, m.getOptimalSequence());
            return r;
        };
    }, d.str());
}
static void linear(Src &s, Case &c) {
    calm();
    fake::reset();
    lin::LSpec p(lin::genDims(s, 3, 5));
    auto &d = p.d;
    lin::genModel(s, p);
    lin::genCost(s, p);
    auto quiet = lin::make(d), loud = lin::make(d);
    std::ostringstream os;
    mpc::LParameters par;
    par.enable_warm_start = s.coin();
    bool deep = s.coin();
    for (auto *m : {&quiet, &loud}) {
        calm();
        if (m == &loud && deep) { Logger::instance().setStream(&os).setLevel(Logger::DEEP); }
        Src t(s);
        lin::apply(t, **m, p);
        (*m)->setOptimizerParameters(par);
        if (m == &loud) s = t;
    }
    size_t nz = (size_t)((d.ph + 1) * (d.nx + d.nu) + d.ph * d.nu), nl = (size_t)(2 * (d.ph + 1) * (d.nx + d.nu) + (d.ph + 1) * d.ny + d.ph * d.nu + d.ph + 1);
    history(s, c, *quiet, *loud, s.irange(1, 6), [&](int) {
        fake::Outcome o;
        o.exact = false;
        static const c_int all[] = {OSQP_SOLVED, OSQP_SOLVED, OSQP_SOLVED, OSQP_SOLVED_INACCURATE, OSQP_MAX_ITER_REACHED, OSQP_TIME_LIMIT_REACHED, OSQP_PRIMAL_INFEASIBLE, OSQP_DUAL_INFEASIBLE, OSQP_SIGINT, OSQP_NON_CVX, OSQP_UNSOLVED};
        o.status = all[s.below(sizeof all / sizeof *all)];
        if (s.chance(1, 8)) o.setupError = 4;
        o.cost = s.chance(1, 4) ? s.sgn() * s.positive(1e-12, 1e20) : s.real(50);
        lin::VecD x = lin::genV(s, (int)nz, 4), x0 = lin::genV(s, d.nx, 3), last = lin::genV(s, d.nu, 3);
        o.x.assign(x.data(), x.data() + nz);
        o.y.assign(nl, 0.5);
        return [=](lin::DynL &m, std::vector<double> &v) {
            fake::st().script = [o](const fake::Program &) { return o; };
            mpc::Result<> r = m.optimize(x0, last);
            lin::protocol();
            nl::flatten(v, r, m.getOptimalSequence());
            const auto &g = fake::st().runs.back();  // the program given to the solver is part of the outcome
            for (auto *M : {&g.P, &g.A}) for (int i = 0; i < M->size(); i++) v.push_back(M->data()[i]);
            for (auto *M : {&g.q, &g.l, &g.u}) for (int i = 0; i < M->size(); i++) v.push_back((*M)(i));
            return r;
        };
    }, lin::str(d));
}
void pbt_register(pbt::Runner &r) {
    r.add("nonlinear", nonlinear, 16000, 500000, "at least two optimisations and one that wrote to the log", 0.5);
    r.add("linear", linear, 24000, 800000, "at least two optimisations and one that wrote to the log", 0.5);
}
PBT_MAIN("U06")
