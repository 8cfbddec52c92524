// N09: the same script on a compile-time-sized and a run-time-sized controller.
// @instantiates
// @unit N09/unit.cpp -DPAIR=0
// @unit N09/unit.cpp -DPAIR=1
// @unit N09/unit.cpp -DPAIR=2
// @unit N09/unit.cpp -DPAIR=3
// @unit N09/unit.cpp -DPAIR=4
// @unit N09/unit.cpp -DPAIR=5
#include "N09/script.hpp"
#define DECL(k, ...) void staticRun##k(const Dims &, const std::vector<SOp> &, Trace &);
PAIRS(DECL)
using RunFn = void (*)(const Dims &, const std::vector<SOp> &, Trace &);
#define ENTRY(k, nx, nu, ny, ph, ch, ineq, eq) {Dims{nx, nu, ny, ph, ch, ineq, eq}, staticRun##k},
static const std::pair<Dims, RunFn> table[] = {PAIRS(ENTRY)};

static void prop(Src &s, Case &c) {
    quiet();
    auto &e = table[s.below(sizeof table / sizeof *table)];
    Dims d = e.first;
    POpt o;
    o.soft = s.coin();
    o.linear = s.coin();
    std::vector<SOp> ops;
    std::string hist;
    auto spec = [&]() { return std::make_shared<Spec>(genProblem(s, d, o)); };
    auto add = [&](SOp op) { hist += std::string(" ") + opName(op.kind); ops.push_back(op); };
    auto box = [&](SOp &op, int n, double lim) {
        op.a = VecD(n); op.b = VecD(n);
        for (int i = 0; i < n; i++) { op.a(i) = -s.uniform(0.1, lim); op.b(i) = s.uniform(0.1, lim); }
    };
    auto boxM = [&](SOp &op, int n, int h, double lim) {
        op.A = MatD(n, h); op.B = MatD(n, h);
        for (int i = 0; i < n; i++) for (int j = 0; j < h; j++) { op.A(i, j) = -s.uniform(0.1, lim); op.B(i, j) = s.uniform(0.1, lim); }
    };
    auto gen = [&](int kind) {
        SOp op;
        op.kind = kind;
        op.defaults = s.coin();
        static const double tols[] = {1e-10, 1e-8, 1e-4};
        op.t = tols[s.below(3)];
        switch (kind) {
        case O_MODEL: case O_OUT: case O_OBJ: case O_INEQ: case O_EQ: op.sp = spec(); op.sp->hasOut = true; break;
        case O_SCALE:
            op.a = VecD(d.nx); op.b = VecD(d.nu);
            for (int i = 0; i < d.nx; i++) op.a(i) = s.positive(0.1, 10);
            for (int i = 0; i < d.nu; i++) op.b(i) = s.positive(0.1, 10);
            break;
        case O_TS: op.t = s.uniform(0.05, 0.3); break;
        case O_PAR:
            op.par = tightParams(s.coin() ? 150 : s.irange(1, 40));
            op.par.hard_constraints = s.coin();
            op.par.enable_warm_start = s.coin();
            break;
        case O_XB: box(op, d.nx, 4); op.i = s.irange(-1, d.ph); op.j = s.irange(-1, d.ph + 1); break;
        case O_UB: box(op, d.nu, 2); op.i = s.irange(-1, d.ch); op.j = s.irange(-1, d.ch + 1); break;
        case O_XBM: boxM(op, d.nx, d.ph, 4); break;
        case O_UBM: boxM(op, d.nu, d.ch, 2); break;
        case O_YB: op.i = s.coin(); box(op, d.ny, 2); boxM(op, d.ny, d.ph, 2); break;
        case O_OPT: op.a = genVec(s, d.nx, 3); op.b = genVec(s, d.nu, 2); break;
        default: break;
        }
        return op;
    };
    bool model = false, obj = false;
    int nopt = 0, steps = s.irange(3, 16);
    for (int k = 0; k < steps; k++) {
        int kind = k + 1 == steps || s.chance(1, 4) ? (int)O_OPT : (int)s.below(O_COUNT);
        if (kind == O_OPT) {
            if (!model) add(gen(O_MODEL));
            if (!obj) add(gen(O_OBJ));
            model = obj = true;
            nopt++;
        }
        model |= kind == O_MODEL;
        obj |= kind == O_OBJ;
        add(gen(kind));
    }
    Trace a, b;
    e.second(d, ops, a);
    mpc::NLMPC<> dyn(d.nx, d.nu, d.ny, d.ph, d.ch, d.ineq, d.eq);
    runOps(dyn, d, ops, b);
    // outcomes are compared operation by operation; numbers up to round-off, which the two modes accumulate in different orders
    PBT_CHECK(a.ends.size() == b.ends.size(), "modes-differ", "%s:%s: %zu and %zu operations completed", d.str().c_str(), hist.c_str(), a.ends.size(), b.ends.size());
    // does the compile-time-sized controller alone move a number this much when its input moves by round-off?
    auto sensitive = [&](size_t at, double diff) {
        for (int t = 0; t < 16; t++) {
            std::vector<SOp> ops2 = ops;
            for (auto &o : ops2)
                if (o.kind == O_OPT)
                    for (int i = 0; i < o.a.size(); i++) o.a(i) += 1e-13 * (1 << t % 8) * ((t * 7 + i * 5) % 11 - 5) * (1 + std::abs(o.a(i)));
            Trace p;
            e.second(d, ops2, p);
            if (at >= p.v.size() || p.ends.size() != a.ends.size() || !(std::abs(p.v[at] - a.v[at]) <= 0.02 * diff)) return true;
        }
        return false;
    };
    bool taint = false;       // the solutions kept by the two controllers differ by more than round-off
    bool lastOpen = false;    // the most recent result was not comparable
    bool statsOpen = false;   // so are the counts per status
    int maxIt = 100, open = 0, compared = 0;
    bool warm = false;
    for (size_t k = 0; k < ops.size(); k++) {
        int kind = ops[k].kind, a0 = k ? a.ends[k - 1] : 0, b0 = k ? b.ends[k - 1] : 0, n = a.ends[k] - a0;
        auto bad = [&](const std::string &what) { pbt::fail("modes-differ", fmt("%s:%s: operation %zu (%s): %s", d.str().c_str(), hist.c_str(), k, opName(kind), what.c_str())); };
        if (kind == O_PAR) maxIt = ops[k].par.maximum_iteration, warm = ops[k].par.enable_warm_start;
        if (kind == O_RESET) statsOpen = false;
        if (kind == O_STATS && statsOpen) continue;
        if (kind == O_LAST && lastOpen) continue;
        if (n != b.ends[k] - b0) bad(fmt("%d and %d values", n, b.ends[k] - b0));
        if (kind != O_OPT && kind != O_LAST) {
            for (int i = 0; i < n; i++)
                if (a.v[a0 + i] != b.v[b0 + i]) bad(fmt("value %d is %.17g with compile-time sizes and %.17g with run-time sizes", i, a.v[a0 + i], b.v[b0 + i]));
            continue;
        }
        double sa = a.v[a0], sb = b.v[b0];
        if (kind == O_OPT) {
            // the point every run starts from is the same up to the round-off of the previous solution
            bool sure = !(warm && taint);
            if (sure) {
                if (a.start[k].size() != b.start[k].size()) bad("the cost function was called in one mode only");
                for (size_t i = 0; i < a.start[k].size(); i++)
                    if (!(std::abs(a.start[k][i] - b.start[k][i]) <= (warm ? 1e-3 : 1e-12) * (1 + std::abs(a.start[k][i]))))
                        bad(fmt("first cost call, number %zu is %.17g with compile-time sizes and %.17g with run-time sizes", (int)i, a.start[k][i], b.start[k][i]));
            }
            // round-off may move the stopping point of a run that does not converge
            auto unfinished = [](double st) { return st == mpc::ERROR || st == mpc::MAX_ITERATION; };
            lastOpen = !sure || (sa == mpc::SUCCESS && sb == mpc::SUCCESS && (!a.converged[k] || !b.converged[k])) || (sa != sb && (unfinished(sa) || unfinished(sb)));
            if (sa != sb && lastOpen) statsOpen = true;
        }
        bool loose = sa == mpc::MAX_ITERATION && maxIt > 1, keptCmd = sa == mpc::ERROR && taint;
        for (int i = 0; i < n && !lastOpen; i++) {
            double x = a.v[a0 + i], y = b.v[b0 + i];
            if (sa == mpc::SUCCESS && i == 1) continue;  // which tolerance stopped the run
            if (i == 4) continue;                        // message text
            if (keptCmd && i >= 6 && i < 6 + d.nu) continue;
            if (x == y || std::abs(x - y) <= 2e-4 * (1 + std::abs(x))) continue;
            if (loose || sensitive(a0 + i, std::abs(x - y))) { lastOpen = true; break; }
            bad(fmt("value %d is %.17g with compile-time sizes and %.17g with run-time sizes", i, x, y));
        }
        if (kind == O_OPT) {
            if (lastOpen) taint = true, open++;
            else if (sa != mpc::ERROR) taint = false, compared++;
        }
    }
    if (open) c.label("has-incomparable");
    if (compared) c.label("has-compared");
    c.nontrivial = compared > 0 && ops.size() >= 5;
    c.label(fmt("size%d", (int)(&e - table)));
    if (c.wantSample) c.sample = d.str() + hist;
}

void pbt_register(pbt::Runner &r) {
    r.assumptions.push_back("six compile-time sizes, every public operation of the non-linear controller");
    r.add("both-modes", prop, 30000, 1000000, "at least five operations and one optimisation that did not fail, compared to the end", 0.4);
}
PBT_MAIN("N09")
