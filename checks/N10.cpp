// N10: interleaved controllers, logging and heap contents must not change outcomes; without warm start every optimisation
// depends on the configuration and its arguments only.
#include <malloc.h>
#include <sstream>
#include "../harness/conc.hpp"
#include "../harness/ctl.hpp"
using namespace nl;
using Ctrl = mpc::NLMPC<>;

struct Out {
    std::vector<double> v;
    std::string text;  // what produced it
};
struct Op {
    std::string name;
    std::function<void(Ctrl &, std::vector<double> &)> run;
};
struct Script {
    Dims d;
    std::shared_ptr<Spec> sp;
    std::vector<Op> ops;
    std::string str() const {
        std::string s = "{" + d.str();
        for (auto &o : ops) s += " " + o.name;
        return s + "}";
    }
};
using Hook = std::shared_ptr<std::function<void(int)>>;  // called by every user function with its kind
static Script genScript(Src &s, const Dims *like, Hook hook = nullptr) {
    Script q;
    if (like) q.d = *like;
    else {
        q.d = genDims(s, 4, 2);
        q.d.ineq = s.irange(0, 2);
        q.d.eq = s.irange(0, 1);
    }
    Dims d = q.d;
    POpt o;
    o.soft = s.coin();
    o.linear = s.coin();
    auto sp = q.sp = std::make_shared<Spec>(genProblem(s, d, o));
    auto add = [&](const char *n, std::function<void(Ctrl &, std::vector<double> &)> f) { q.ops.push_back({n, f}); };
    auto hit = [=](int kind) { if (hook && *hook) (*hook)(kind); };
    add("setup", [=](Ctrl &m, std::vector<double> &) {
        if (!hook) {
            bindModel(m, sp);
            if (sp->hasOut) m.setOutputFunction(outFn(sp));
            m.setObjectiveFunction(objFn(sp));
            return;
        }
        // half of the calls run the hook before the function, half after it
        if (sp->cont) m.setDiscretizationSamplingTime(sp->ts);
        auto f = stateFn(sp);
        m.setStateSpaceFunction([=](auto &dx, const auto &x, const auto &u, const unsigned int &k) { if (k % 2) hit(0); f(dx, x, u, k); if (k % 2 == 0) hit(0); });
        auto o = outFn(sp);
        if (sp->hasOut) m.setOutputFunction([=](auto &y, const auto &x, const auto &u, const unsigned int &k) { if (k % 2) hit(1); o(y, x, u, k); if (k % 2 == 0) hit(1); });
        auto g = objFn(sp);
        auto odd = std::make_shared<int>(0);
        m.setObjectiveFunction([=](const auto &x, const auto &y, const auto &u, const double &e) -> double {
            if ((*odd)++ % 2) { hit(2); return g(x, y, u, e); }
            double v = g(x, y, u, e);
            hit(2);
            return v;
        });
    });
    int n = s.irange(2, 9);
    for (int k = 0; k < n; k++) switch (s.below(10)) {
        case 0: {
            auto p = tightParams(s.coin() ? 200 : s.irange(1, 40));
            p.hard_constraints = s.coin();
            p.enable_warm_start = s.coin();
            add("parameters", [=](Ctrl &m, std::vector<double> &) { m.setOptimizerParameters(p); });
            break;
        }
        case 1: {
            VecD sx(d.nx), su(d.nu);
            for (int i = 0; i < d.nx; i++) sx(i) = s.positive(0.1, 10);
            for (int i = 0; i < d.nu; i++) su(i) = s.positive(0.1, 10);
            add("scales", [=](Ctrl &m, std::vector<double> &) { m.setStateScale(sx); m.setInputScale(su); });
            break;
        }
        case 2: {
            VecD lo = VecD::Constant(d.nu, -s.uniform(0.1, 3)), hi = VecD::Constant(d.nu, s.uniform(0.1, 3));
            int a = (int)s.below(d.ch + 1) - 1, b = (int)s.below(d.ch + 2) - 1;
            add("input-bounds", [=](Ctrl &m, std::vector<double> &v) { v.push_back(m.setInputBounds(lo, hi, mpc::HorizonSlice{a, b})); });
            break;
        }
        case 3: {
            VecD lo = VecD::Constant(d.nx, -s.uniform(1, 5)), hi = VecD::Constant(d.nx, s.uniform(1, 5));
            int a = (int)s.below(d.ph + 1) - 1, b = (int)s.below(d.ph + 2) - 1;
            add("state-bounds", [=](Ctrl &m, std::vector<double> &v) { v.push_back(m.setStateBounds(lo, hi, mpc::HorizonSlice{a, b})); });
            break;
        }
        case 4:
            if (sp->hasIneq) add("inequality", [=](Ctrl &m, std::vector<double> &v) {
                auto f = ineqFn(sp);
                v.push_back(m.setIneqConFunction([=](auto &c, const auto &x, const auto &y, const auto &u, const double &e) { hit(3); f(c, x, y, u, e); hit(3); }, 1e-6f));
            });
            break;
        case 5:
            if (sp->hasEq) add("equality", [=](Ctrl &m, std::vector<double> &v) {
                auto f = eqFn(sp);
                v.push_back(m.setEqConFunction([=](auto &c, const auto &x, const auto &u) { hit(4); f(c, x, u); hit(4); }, 1e-6f));
            });
            break;
        case 6: add("reset-stats", [=](Ctrl &m, std::vector<double> &) { m.resetStats(); }); break;
        default: break;
    }
    // optimisations are spread over the script
    int nopt = s.irange(1, 4);
    VecD x, u;
    for (int k = 0; k < nopt; k++) {
        if (!k || s.chance(2, 3)) x = genVec(s, d.nx, 3), u = genVec(s, d.nu, 2);  // or the same measurement again
        Op op{"optimize", [=](Ctrl &m, std::vector<double> &v) {
                  mpc::Result<> r = m.optimize(x, u);
                  flatten(v, r, m.getOptimalSequence());
                  flatten(v, m.getLastResult(), m.getOptimalSequence());
                  auto &st = m.getExecutionStats();
                  v.push_back(st.numberOfSolutions);
                  for (auto &e : st.solutionsStates) { v.push_back((double)e.first); v.push_back(e.second); }
              }};
        q.ops.insert(q.ops.begin() + 1 + (long)s.below(q.ops.size()), op);
    }
    return q;
}
static Ctrl *make(const Dims &d) { return new Ctrl(d.nx, d.nu, d.ny, d.ph, d.ch, d.ineq, d.eq); }

static void interleaved(Src &s, Case &c) {
    int n = s.irange(1, 3);
    std::vector<Script> sc;
    for (int i = 0; i < n; i++) sc.push_back(genScript(s, i && s.coin() ? &sc[0].d : nullptr));
    std::vector<std::vector<double>> alone(n), mixed(n);
    // isolated runs, silent, with one heap filling
    quiet();
    mallopt(M_PERTURB, 0);
    for (int i = 0; i < n; i++) {
        std::unique_ptr<Ctrl> m(make(sc[i].d));
        for (auto &o : sc[i].ops) o.run(*m, alone[i]);
    }
    // interleaved run with logging and bystanders
    std::ostringstream sink;
    mallopt(M_PERTURB, 1 + (int)s.below(254));
    std::vector<std::unique_ptr<Ctrl>> m(n);
    std::vector<size_t> at(n, 0);
    std::vector<std::unique_ptr<Ctrl>> others;
    std::vector<int> otherOf;
    std::string sched;
    int switches = 0, last = -1;
    bool logged = false;
    while (true) {
        std::vector<int> open;
        for (int i = 0; i < n; i++) if (at[i] < sc[i].ops.size()) open.push_back(i);
        if (open.empty()) break;
        switch (s.below(8)) {
        case 0: {
            static const mpc::Logger::log_level lv[] = {mpc::Logger::NONE, mpc::Logger::DEEP, mpc::Logger::NORMAL, mpc::Logger::ALERT};
            mpc::Logger::instance().setStream(&sink);
            int l = (int)s.below(4);
            if (s.coin()) mpc::Logger::instance().setLevel(lv[l]);
            else if (n && m[0]) m[0]->setLoggerLevel(lv[l]);
            else mpc::Logger::instance().setLevel(lv[l]);
            sched += fmt(" log%d", l);
            continue;
        }
        case 1:  // a bystander appears, runs or disappears
            if (others.size() && s.coin()) {
                size_t k = s.below(others.size());
                others.erase(others.begin() + (long)k);
                otherOf.erase(otherOf.begin() + (long)k);
                sched += " -other";
            } else if (others.size() < 2) {
                int k = (int)s.below(n);
                others.emplace_back(make(sc[k].d));
                otherOf.push_back(k);
                std::vector<double> dump;
                for (auto &o : sc[k].ops) if (o.name == "setup" || s.coin()) o.run(*others.back(), dump);
                sched += " +other";
            }
            continue;
        default: break;
        }
        int i = open[s.below(open.size())];
        if (!m[i]) { m[i].reset(make(sc[i].d)); }
        sched += fmt(" %d", i);
        if (last >= 0 && last != i) switches++;
        last = i;
        sc[i].ops[at[i]++].run(*m[i], mixed[i]);
        if (at[i] == sc[i].ops.size() && s.coin()) { m[i].reset(); sched += fmt("~%d", i); }
    }
    logged = sink.tellp() > 0;
    m.clear();
    others.clear();
    mallopt(M_PERTURB, 0);
    quiet();
    for (int i = 0; i < n; i++) {
        size_t k;
        if (!same(alone[i], mixed[i], k)) {
            std::string all;
            for (auto &q : sc) all += q.str();
            pbt::fail("interleaving", fmt("schedule%s of %s: controller %d differs from its isolated run at value %zu of %zu: %.17g / %.17g", sched.c_str(), all.c_str(), i, k, alone[i].size(), k < mixed[i].size() ? mixed[i][k] : 0.0,
                                         k < alone[i].size() ? alone[i][k] : 0.0));
        }
    }
    c.nontrivial = switches > 0 || logged;
    if (switches) c.label("interleaved");
    if (logged) c.label("logged");
    if (c.wantSample) { for (auto &q : sc) c.sample += q.str() + " "; c.sample += "schedule" + sched; }
}

// one controller is operated from inside the user functions of another one
static void nested(Src &s, Case &c) {
    quiet();
    Hook hook = std::make_shared<std::function<void(int)>>();
    Script outer = genScript(s, nullptr, hook), inner = genScript(s, s.chance(3, 4) ? &outer.d : nullptr);
    std::vector<double> a[2], b[2];
    {
        std::unique_ptr<Ctrl> m(make(outer.d)), k(make(inner.d));
        for (auto &o : outer.ops) o.run(*m, a[0]);
        for (auto &o : inner.ops) o.run(*k, a[1]);
    }
    std::unique_ptr<Ctrl> m(make(outer.d)), k;
    size_t at = 0;
    int entered[5] = {}, total = 0;
    long wait = (long)s.below(60), every = 1 + (long)s.below(80);
    int only = s.coin() ? (int)s.below(5) : -1;
    bool inside = false;
    *hook = [&](int kind) {
        if (inside || at >= inner.ops.size() || (only >= 0 && kind != only) || wait-- > 0) return;
        wait = every;
        inside = true;
        if (!k) k.reset(make(inner.d));
        inner.ops[at++].run(*k, b[1]);
        inside = false;
        entered[kind]++;
        total++;
    };
    for (auto &o : outer.ops) o.run(*m, b[0]);
    *hook = nullptr;
    if (!k) k.reset(make(inner.d));
    while (at < inner.ops.size()) inner.ops[at++].run(*k, b[1]);
    for (int i = 0; i < 2; i++) {
        size_t v;
        if (!same(a[i], b[i], v))
            pbt::fail("nested", fmt("%s inside the functions of %s (first after %ld calls of kind %d, then every %ld): the %s controller differs from its isolated run at value %zu", inner.str().c_str(), outer.str().c_str(), wait, only, every,
                                    i ? "inner" : "outer", v));
    }
    c.nontrivial = total > 1;
    static const char *n[] = {"in model", "in output", "in cost", "in inequality", "in equality"};
    for (int i = 0; i < 5; i++) if (entered[i]) c.label(n[i]);
    if (c.wantSample) c.sample = inner.str() + " inside " + outer.str() + fmt(": %d operations", total);
}

// controllers operated by different threads at the same time
static void threads(Src &s, Case &c) {
    quiet();
    int n = s.irange(2, 3);
    std::vector<Script> sc;
    bool alike = s.chance(2, 3);
    std::string all;
    for (int i = 0; i < n; i++) { sc.push_back(genScript(s, i && alike ? &sc[0].d : nullptr)); all += sc[i].str(); }
    std::vector<std::vector<double>> alone(n);
    for (int i = 0; i < n; i++) {
        std::unique_ptr<Ctrl> m(make(sc[i].d));
        for (auto &o : sc[i].ops) o.run(*m, alone[i]);
    }
    std::string bad = conc::run(n, s.again ? 60 : 3, [&](int i, int) -> std::string {
        std::vector<double> v;
        {
            std::unique_ptr<Ctrl> m(make(sc[i].d));
            for (auto &o : sc[i].ops) o.run(*m, v);
        }
        size_t k;
        return same(alone[i], v, k) ? "" : fmt("controller %d differs from its isolated run at value %zu of %zu", i, k, alone[i].size());
    });
    if (!bad.empty()) pbt::fail("threads", fmt("%d controllers in as many threads, %s: %s", n, all.c_str(), bad.c_str()));
    c.nontrivial = true;
    c.label(alike ? "same sizes" : "different sizes");
    if (c.wantSample) c.sample = all;
}

// without warm start a long-used controller behaves as an unused one
static void memoryless(Src &s, Case &c) {
    quiet();
    Dims d = genDims(s, 4, 2);
    d.ineq = s.irange(0, 2);
    d.eq = s.irange(0, 1);
    POpt o;
    o.soft = s.coin();
    o.linear = s.coin();
    auto sp = std::make_shared<Spec>(genProblem(s, d, o));
    auto boom = std::make_shared<long>(-1);
    auto setup = [&](Ctrl &m, mpc::NLParameters p, bool bounds, const VecD &lim) {
        bindModel(m, sp);
        if (sp->hasOut) m.setOutputFunction(outFn(sp));
        auto g = objFn(sp);
        m.setObjectiveFunction([=](const auto &x, const auto &y, const auto &u, const double &e) -> double {
            if (*boom >= 0 && (*boom)-- == 0) throw std::runtime_error("user failure");
            return g(x, y, u, e);
        });
        if (sp->hasIneq) m.setIneqConFunction(ineqFn(sp), 1e-6f);
        if (sp->hasEq) m.setEqConFunction(eqFn(sp), 1e-6f);
        if (bounds) m.setInputBounds(VecD(-lim), lim, mpc::HorizonSlice::all());
        m.setOptimizerParameters(p);
    };
    auto p = tightParams(s.coin() ? 200 : s.irange(1, 40));
    p.hard_constraints = !o.soft || s.coin();
    bool bounds = s.coin();
    VecD lim = VecD::Constant(d.nu, s.uniform(0.2, 3));
    Ctrl used(d.nx, d.nu, d.ny, d.ph, d.ch, d.ineq, d.eq);
    setup(used, p, bounds, lim);
    int n = s.irange(1, 4), cmp = 0;
    std::string hist;
    for (int k = 0; k < n; k++) {
        // earlier use: possibly with warm start, possibly failing
        int before = s.irange(1, 3);
        VecD x = genVec(s, d.nx, 3), u = genVec(s, d.nu, 2);
        for (int q = 0; q < before; q++) {
            bool w = s.coin();
            auto pw = p;
            pw.enable_warm_start = w;
            if (w) used.setOptimizerParameters(pw);
            if (s.chance(1, 4)) *boom = (long)s.below(100);
            VecD xb = genVec(s, d.nx, 3), ub = genVec(s, d.nu, 2);
            if (s.chance(1, 4)) x = xb, u = ub;  // compared for the same measurement
            used.optimize(xb, ub);
            *boom = -1;
            if (w) used.setOptimizerParameters(p);
            hist += w ? " warm" : " cold";
        }
        Ctrl fresh(d.nx, d.nu, d.ny, d.ph, d.ch, d.ineq, d.eq);
        setup(fresh, p, bounds, lim);
        mpc::Result<> a = used.optimize(x, u), b = fresh.optimize(x, u);
        hist += " compared";
        if (a.status == mpc::ERROR && b.status == mpc::ERROR) b.cmd = a.cmd;  // a failed run returns the previous command
        std::vector<double> va, vb;
        flatten(va, a, used.getOptimalSequence());
        flatten(vb, b, fresh.getOptimalSequence());
        size_t at;
        PBT_CHECK(same(va, vb, at), "history", "%s:%s: used controller %s, fresh controller %s", d.str().c_str(), hist.c_str(), resStr(a).c_str(), resStr(b).c_str());
        cmp++;
    }
    c.nontrivial = cmp > 0;
    if (c.wantSample) c.sample = d.str() + hist;
}

void pbt_register(pbt::Runner &r) {
    r.assumptions.push_back("logging is off while several threads run; two runs of the same script are bit-for-bit comparable because the solver is deterministic");
    r.add("interleaved", interleaved, 9000, 600000, "controllers were interleaved or logging was switched between operations", 0.5);
    r.add("nested", nested, 5000, 300000, "at least two operations of one controller ran inside the functions of the other", 0.4);
    r.add("threads", threads, 1500, 60000, "every case", 0.9);
    r.add("memoryless", memoryless, 8000, 400000, "an optimisation of a used controller was compared with a fresh controller", 0.9);
}
PBT_MAIN("N10")
