// N07: a failing user callback at any point of any optimisation; model of the failed result and a twin that never sees the failures.
#include "../harness/ctl.hpp"
using namespace nl;
using Ctrl = mpc::NLMPC<>;

enum { DYN_, OUT_, OBJ_, INEQ_, EQ_, ANY_ };
static const char *kindName[] = {"model", "output", "cost", "inequality", "equality", "any"};
struct Odd {};  // not a std::exception
struct Fault {
    bool armed = false, sticky = false, fired = false;
    int kind = ANY_, type = 0;
    long at = 0;
    long n[6] = {};
    void reset() { armed = fired = false; for (auto &v : n) v = 0; }
    void tick(int k) {
        long mine = n[k]++, all = n[ANY_]++;
        if (!armed) return;
        bool hit = kind == ANY_ ? all == at : kind == k && mine == at;
        if (sticky && fired) hit = true;
        if (!hit) return;
        fired = true;
        switch (type) {
        case 0: throw std::runtime_error("user failure");
        case 1: throw std::invalid_argument("user failure");
        case 2: throw std::bad_alloc();
        case 3: throw std::out_of_range("user failure");
        case 4: throw 42;
        default: throw Odd();
        }
    }
};

struct Rig {
    Ctrl m;
    std::shared_ptr<Fault> f = std::make_shared<Fault>();
    Rig(const std::shared_ptr<Spec> &sp, bool scaled) : m(sp->d.nx, sp->d.nu, sp->d.ny, sp->d.ph, sp->d.ch, sp->d.ineq, sp->d.eq) {
        auto f = this->f;
        if (scaled) { m.setStateScale(sp->sx); m.setInputScale(sp->su); }
        if (sp->cont) m.setDiscretizationSamplingTime(sp->ts);
        auto st = stateFn(sp);
        m.setStateSpaceFunction([=](auto &dx, const auto &x, const auto &u, const unsigned int &k) { f->tick(DYN_); st(dx, x, u, k); });
        auto out = outFn(sp);
        if (sp->hasOut) m.setOutputFunction([=](auto &y, const auto &x, const auto &u, const unsigned int &k) { f->tick(OUT_); out(y, x, u, k); });
        auto ob = objFn(sp);
        m.setObjectiveFunction([=](const auto &x, const auto &y, const auto &u, const double &e) -> double { f->tick(OBJ_); return ob(x, y, u, e); });
        auto in = ineqFn(sp);
        if (sp->hasIneq) m.setIneqConFunction([=](auto &c, const auto &x, const auto &y, const auto &u, const double &e) { f->tick(INEQ_); in(c, x, y, u, e); });
        auto eq = eqFn(sp);
        if (sp->hasEq) m.setEqConFunction([=](auto &c, const auto &x, const auto &u) { f->tick(EQ_); eq(c, x, u); });
    }
};

static void prop(Src &s, Case &c) {
    quiet();
    Dims d = genDims(s, 4, 2, 100, 12, 4);
    d.ineq = s.irange(0, 2);
    d.eq = s.chance(1, 3) ? 1 : 0;
    POpt o;
    o.soft = s.coin();
    o.linear = s.coin();
    auto sp = std::make_shared<Spec>(genProblem(s, d, o));
    bool scaled = s.chance(1, 3);
    if (scaled) genScales(s, *sp);
    Rig real(sp, scaled), twin(sp, scaled);
    auto par = tightParams();
    par.hard_constraints = !o.soft;
    par.enable_warm_start = s.coin();
    real.m.setOptimizerParameters(par);
    twin.m.setOptimizerParameters(par);
    VecD lastCmd = VecD::Zero(d.nu), x = genVec(s, d.nx, 3), u = genVec(s, d.nu, 1);
    int steps = s.irange(2, 8), nfail = 0, nrecover = 0;
    bool after = false;
    std::string hist;
    for (int k = 0; k < steps; k++) {
        if (s.chance(1, 2)) { x = genVec(s, d.nx, 3); u = genVec(s, d.nu, 1); }
        if (s.chance(1, 6)) {
            par.enable_warm_start = s.coin();
            par.maximum_iteration = s.irange(1, 300);
            real.m.setOptimizerParameters(par);
            twin.m.setOptimizerParameters(par);
            hist += " parameters";
        }
        bool faulty = s.chance(1, 2) && k + 1 < steps;
        real.f->reset();
        if (faulty) {
            Fault &f = *real.f;
            // an untouched controller tells roughly how many calls an optimisation makes
            Rig pilot(sp, scaled);
            pilot.m.setOptimizerParameters(par);
            pilot.m.optimize(x, u);
            f.kind = (int)s.below(6);
            if (!pilot.f->n[f.kind]) f.kind = ANY_;
            long n = pilot.f->n[f.kind];
            f.at = s.coin() ? (long)s.below((u_long)n) : std::max(0L, n - 1 - (long)s.below(std::min<u_long>(n, d.ph + 3)));
            f.type = (int)s.below(6);
            f.sticky = s.coin();
            f.armed = true;
            hist += fmt(" optimize(%s call %ld of about %ld fails, kind %d)", kindName[f.kind], f.at, n, f.type);
        } else hist += " optimize";
        auto ctx = [&]() { return d.str() + (par.enable_warm_start ? " warm:" : ":") + hist; };
        mpc::Result<> r;
        try {
            r = real.m.optimize(x, u);
        } catch (...) {
            pbt::fail("escaped", ctx() + ": the failure escaped from the optimisation");
        }
        auto sq = real.m.getOptimalSequence();
        bool fired = real.f->fired;
        real.f->armed = false;
        if (fired) {
            nfail++;
            after = true;
            c.label(std::string("fault-") + kindName[real.f->kind]);
            PBT_CHECK(r.status == mpc::ERROR, "failed-status", "%s: status %d after a failure", ctx().c_str(), (int)r.status);
            PBT_CHECK(r.solver_status == -1, "failed-code", "%s: solver code %d after a failure", ctx().c_str(), r.solver_status);
            PBT_CHECK(std::isinf(r.cost) && r.cost > 0, "failed-cost", "%s: cost %g after a failure", ctx().c_str(), r.cost);
            PBT_CHECK(!r.is_feasible, "failed-feasible", "%s: reported feasible after a failure", ctx().c_str());
            PBT_CHECK(sq.state.isZero(0) && sq.input.isZero(0) && sq.output.isZero(0) && sq.state.rows() == d.ph + 1 && sq.input.rows() == d.ph + 1 && sq.output.rows() == d.ph + 1, "failed-sequence",
                      "%s: predicted sequences are not zero after a failure", ctx().c_str());
            PBT_CHECK(r.cmd.size() == d.nu && (r.cmd - lastCmd).isZero(0), "failed-command", "%s: command after a failure differs from the last successful one: %s", ctx().c_str(), vstr(r.cmd).c_str());
        } else {
            mpc::Result<> t = twin.m.optimize(x, u);
            auto tq = twin.m.getOptimalSequence();
            std::vector<double> a, b;
            flatten(a, r, sq);
            flatten(b, t, tq);
            size_t at;
            PBT_CHECK(same(a, b, at), "recovery", "%s: after failures %s, without them %s", ctx().c_str(), resStr(r).c_str(), resStr(t).c_str());
            if (after) nrecover++;
            after = false;
            if (r.status != mpc::ERROR) lastCmd = r.cmd;
            else {
                c.label("solver-error");
                PBT_CHECK((r.cmd - lastCmd).isZero(0) && std::isinf(r.cost) && !r.is_feasible && r.solver_status == -1 && sq.state.isZero(0) && sq.input.isZero(0) && sq.output.isZero(0), "solver-failure", "%s: a failed run returned %s", ctx().c_str(), resStr(r).c_str());
            }
        }
        mpc::Result<> l = real.m.getLastResult();
        std::vector<double> a, b;
        flatten(a, r, sq);
        flatten(b, l, sq);
        size_t at;
        PBT_CHECK(same(a, b, at), "last-result", "%s: getLastResult differs: %s / %s", ctx().c_str(), resStr(r).c_str(), resStr(l).c_str());
    }
    // statistics are kept for every call
    if (d.ph > 4) c.label("large");
    c.nontrivial = nfail > 0 && nrecover > 0;
    if (c.wantSample) c.sample = d.str() + (par.enable_warm_start ? " warm:" : ":") + hist;
}

// callbacks or arguments that are not numbers: no result may be reported that is not a number, and nothing may be left behind
static void numbers(Src &s, Case &c) {
    quiet();
    Dims d = genDims(s, 4, 2, 0);
    d.ineq = s.irange(0, 1);
    d.eq = s.chance(1, 4) ? 1 : 0;
    POpt o;
    o.soft = s.coin();
    o.linear = s.coin();
    auto sp = std::make_shared<Spec>(genProblem(s, d, o));
    struct Bad { bool armed = false, sticky = false, fired = false; int kind = 0; long at = 0, n = 0; double v = NAN; };
    struct Pair {
        Ctrl m;
        std::shared_ptr<Bad> b = std::make_shared<Bad>();
        Pair(const std::shared_ptr<Spec> &sp) : m(sp->d.nx, sp->d.nu, sp->d.ny, sp->d.ph, sp->d.ch, sp->d.ineq, sp->d.eq) {
            auto b = this->b;
            auto hit = [b](int k) {
                if (!b->armed || b->kind != k) return false;
                bool h = b->sticky ? b->n >= b->at : b->n == b->at;
                b->n++;
                b->fired |= h;
                return h;
            };
            if (sp->cont) m.setDiscretizationSamplingTime(sp->ts);
            auto st = stateFn(sp);
            m.setStateSpaceFunction([=](auto &dx, const auto &x, const auto &u, const unsigned int &k) { st(dx, x, u, k); if (hit(0)) dx(b->n % dx.size()) = b->v; });
            auto out = outFn(sp);
            if (sp->hasOut) m.setOutputFunction([=](auto &y, const auto &x, const auto &u, const unsigned int &k) { out(y, x, u, k); if (hit(1)) y(b->n % y.size()) = b->v; });
            auto ob = objFn(sp);
            m.setObjectiveFunction([=](const auto &x, const auto &y, const auto &u, const double &e) -> double { return hit(2) ? b->v : ob(x, y, u, e); });
            auto in = ineqFn(sp);
            if (sp->hasIneq) m.setIneqConFunction([=](auto &c, const auto &x, const auto &y, const auto &u, const double &e) { in(c, x, y, u, e); if (hit(3)) c(0) = b->v; });
            auto eq = eqFn(sp);
            if (sp->hasEq) m.setEqConFunction([=](auto &c, const auto &x, const auto &u) { eq(c, x, u); if (hit(4)) c(0) = b->v; });
        }
    };
    Pair real(sp), twin(sp);
    auto par = tightParams(100);
    par.hard_constraints = !o.soft;
    par.enable_warm_start = s.coin();
    real.m.setOptimizerParameters(par);
    twin.m.setOptimizerParameters(par);
    VecD lastCmd = VecD::Zero(d.nu);
    int steps = s.irange(2, 6), nbad = 0, nrec = 0;
    bool diverged = false;  // a doubtful optimisation succeeded, a warm start continues from there
    std::string hist;
    for (int k = 0; k < steps; k++) {
        VecD x = genVec(s, d.nx, 3), u = genVec(s, d.nu, 1);
        int what = k + 1 < steps && s.coin() ? (int)s.below(7) : -1;
        VecD xb = x, ub = u;
        Bad &b = *real.b;
        b = Bad();
        if (what >= 0) {
            b.v = s.chance(2, 3) ? NAN : s.coin() ? INFINITY : -INFINITY;
            if (what == 5) xb((int)s.below(d.nx)) = b.v, b.fired = true;
            else if (what == 6) ub((int)s.below(d.nu)) = b.v, b.fired = true;
            else { b.kind = what; b.armed = true; b.sticky = s.chance(2, 3); b.at = s.coin() ? 0 : (long)s.below(400); }
            static const char *names[] = {"model", "output", "cost", "inequality", "equality", "state argument", "command argument"};
            hist += fmt(" optimize(%s %g%s)", names[what], b.v, what < 5 ? fmt(" %s call %ld", b.sticky ? "from" : "at", b.at).c_str() : "");
        } else hist += " optimize";
        auto ctx = [&]() { return d.str() + (par.enable_warm_start ? " warm:" : ":") + hist; };
        mpc::Result<> r;
        try {
            r = real.m.optimize(xb, ub);
        } catch (...) {
            pbt::fail("escaped", ctx() + ": a failure escaped from the optimisation");
        }
        auto sq = real.m.getOptimalSequence();
        bool doubtful = b.fired;
        b.armed = false;
        if (r.status == mpc::ERROR) {
            PBT_CHECK(r.solver_status == -1 && r.cost == INFINITY && !r.is_feasible && sq.state.isZero(0) && sq.input.isZero(0) && sq.output.isZero(0) && r.cmd.size() == d.nu && (r.cmd - lastCmd).isZero(0), "failed-result",
                      "%s: %s after a failure", ctx().c_str(), resStr(r).c_str());
        } else {
            PBT_CHECK(r.cmd.allFinite() && sq.state.allFinite() && sq.input.allFinite() && !std::isnan(r.cost), "not-a-number", "%s: %s with values that are not numbers", ctx().c_str(), resStr(r).c_str());
            lastCmd = r.cmd;
        }
        if (doubtful) {
            nbad++;
            c.label(r.status == mpc::ERROR ? "doubtful-failed" : "doubtful-result");
            if (r.status != mpc::ERROR && par.enable_warm_start) diverged = true;
            continue;
        }
        if (diverged) {  // later results depend on a legitimate but different starting point
            c.label("diverged");
            continue;
        }
        mpc::Result<> t = twin.m.optimize(x, u);
        std::vector<double> a, bb;
        flatten(a, r, sq);
        flatten(bb, t, twin.m.getOptimalSequence());
        size_t at;
        if (t.status != mpc::ERROR) PBT_CHECK(same(a, bb, at), "recovery", "%s: after values that are not numbers %s, without them %s", ctx().c_str(), resStr(r).c_str(), resStr(t).c_str());
        if (nbad && t.status != mpc::ERROR) nrec++;
    }
    c.nontrivial = nrec > 0;
    if (c.wantSample) c.sample = d.str() + (par.enable_warm_start ? " warm:" : ":") + hist;
}

void pbt_register(pbt::Runner &r) {
    r.assumptions.push_back("a callback fails by throwing (standard exceptions and other types), once or from some call on");
    r.add("faults", prop, 35000, 2000000, "at least one callback failure fired and a later healthy optimisation was compared with the failure-free twin", 0.3);
    r.add("numbers", numbers, 10000, 400000, "a later healthy optimisation was compared with a twin that never saw a value that is not a number", 0.3);
}
PBT_MAIN("N07")
