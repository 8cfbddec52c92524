// L07: instances are independent and sizing modes agree.
// @instantiates
// @unit L07/unit.cpp -DPAIR=0
// @unit L07/unit.cpp -DPAIR=1
// @unit L07/unit.cpp -DPAIR=2
// @unit L07/unit.cpp -DPAIR=3
// @unit L07/unit.cpp -DPAIR=4
// @unit L07/unit.cpp -DPAIR=5
#include "L07/gen.hpp"
#include "../harness/conc.hpp"
#define DECL(k, ...) void staticRun##k(const LDims &, const std::vector<LOp> &, LTrace &);
PAIRS(DECL)
using RunFn = void (*)(const LDims &, const std::vector<LOp> &, LTrace &);
#define ENTRY(k, nx, nu, ndu, ny, ph, ch) {LDims{nx, nu, ndu, ny, ph, ch}, staticRun##k},
static const std::pair<LDims, RunFn> table[] = {PAIRS(ENTRY)};

static bool close(double x, double y, double tol) { return x == y || (std::isnan(x) && std::isnan(y)) || std::fabs(x - y) <= tol * (1 + std::fabs(x)); }
static void compare(const LTrace &a, const LTrace &b, const std::vector<LOp> &ops, double tol, const char *sig, const std::string &ctx) {
    PBT_CHECK(a.ends.size() == b.ends.size(), sig, "%zu and %zu operations completed; %s", a.ends.size(), b.ends.size(), ctx.c_str());
    for (size_t k = 0; k < ops.size(); k++) {
        int a0 = k ? a.ends[k - 1] : 0, b0 = k ? b.ends[k - 1] : 0, n = a.ends[k] - a0;
        PBT_CHECK(n == b.ends[k] - b0, sig, "operation %zu (%s) gives %d and %d values; %s", k, qName(ops[k].kind), n, b.ends[k] - b0, ctx.c_str());
        for (int i = 0; i < n; i++)
            PBT_CHECK(close(a.v[a0 + i], b.v[b0 + i], tol), sig, "operation %zu (%s): value %d is %.17g and %.17g; %s", k, qName(ops[k].kind), i, a.v[a0 + i], b.v[b0 + i], ctx.c_str());
    }
}
static void modes(Src &s, Case &c) {
    quiet();
    fake::reset();
    auto &e = table[s.below(sizeof table / sizeof *table)];
    LDims d = e.first;
    std::string hist;
    int opts = 0;
    auto ops = genScript(s, d, s.irange(3, 20), hist, opts);
    uint64_t seed = s.below(1u << 20);
    LTrace a, b;
    int k = 0;
    fake::st().script = [&](const fake::Program &g) { return outcome(seed, k++, g); };
    e.second(d, ops, a);
    protocol();
    k = 0;
    fake::st().runs.clear();
    auto m = make(d);
    for (auto &o : ops) step(*m, d, o, b);
    protocol();
    compare(a, b, ops, 1e-9, "modes-differ", "compile-time and run-time sizes, " + str(d) + ":" + hist);
    c.nontrivial = opts >= 2 && ops.size() >= 6;
    c.label(fmt("sizes %d/%d/%d/%d/%d/%d", d.nx, d.nu, d.ndu, d.ny, d.ph, d.ch));
    if (c.wantSample) c.sample = str(d) + ":" + hist;
}
static void interleaved(Src &s, Case &c) {
    quiet();
    fake::reset();
    int n = s.irange(2, 3), total = 0, opts = 0;
    std::vector<LDims> ds;
    std::vector<std::vector<LOp>> ops;
    std::vector<uint64_t> seeds;
    std::vector<LTrace> alone(n), mixed(n);
    std::string hist;
    bool alike = s.coin();
    for (int i = 0; i < n; i++) {
        ds.push_back(i && alike ? ds[0] : genDims(s, 3, 4));
        hist += fmt(" ||%d %s:", i, str(ds[i]).c_str());
        ops.push_back(genScript(s, ds[i], s.irange(2, 10), hist, opts));
        seeds.push_back(s.below(1u << 20));
        total += (int)ops[i].size();
    }
    int cur = 0, k = 0;
    std::vector<int> count(n, 0);
    for (int i = 0; i < n; i++) {
        fake::reset();
        k = 0;
        fake::st().script = [&](const fake::Program &g) { return outcome(seeds[i], k++, g); };
        auto m = make(ds[i]);
        for (auto &o : ops[i]) step(*m, ds[i], o, alone[i]);
        protocol();
    }
    fake::reset();
    fake::st().script = [&](const fake::Program &g) { return outcome(seeds[cur], count[cur]++, g); };
    std::vector<std::unique_ptr<DynL>> ms(n);
    std::vector<size_t> at(n, 0);
    std::ostringstream sink;
    bool logs = s.coin();
    if (logs) mpc::Logger::instance().setStream(&sink);
    hist += " order";
    for (int done = 0; done < total;) {
        cur = (int)s.below(n);
        while (at[cur] == ops[cur].size()) cur = (cur + 1) % n;
        if (logs && s.chance(1, 3)) mpc::Logger::instance().setLevel((mpc::Logger::log_level)s.below(4));
        if (!ms[cur]) ms[cur] = make(ds[cur]);
        hist += fmt(" %d", cur);
        step(*ms[cur], ds[cur], ops[cur][at[cur]++], mixed[cur]);
        if (at[cur] == ops[cur].size() && s.coin()) ms[cur].reset();
        done++;
    }
    mpc::Logger::instance().setStream(nullptr);
    mpc::Logger::instance().reset();
    quiet();
    protocol();
    for (int i = 0; i < n; i++) compare(alone[i], mixed[i], ops[i], 0, "not-independent", fmt("controller %d alone and among others;", i) + hist);
    c.nontrivial = opts >= 2;
    c.label(logs ? "logging" : "silent");
    if (c.wantSample) c.sample = hist;
}
// one controller is operated while another one is inside the solver
static void nested(Src &s, Case &c) {
    quiet();
    LDims d[2];
    std::vector<LOp> ops[2];
    uint64_t seed[2];
    LTrace alone[2], mixed[2];
    std::string hist;
    int opts = 0, inside = 0, depth = 0;
    for (int i = 0; i < 2; i++) {
        d[i] = i && s.chance(3, 4) ? d[0] : genDims(s, 3, 4);
        hist += fmt(" ||%d %s:", i, str(d[i]).c_str());
        ops[i] = genScript(s, d[i], s.irange(2, 10), hist, opts);
        seed[i] = s.below(1u << 20);
        fake::reset();
        int k = 0;
        fake::st().script = [&](const fake::Program &g) { return outcome(seed[i], k++, g); };
        auto m = make(d[i]);
        for (auto &o : ops[i]) step(*m, d[i], o, alone[i]);
        protocol();
    }
    int count[2] = {0, 0}, burst = s.irange(1, 6);
    size_t at = 0;
    fake::reset();
    std::unique_ptr<DynL> in;
    auto go = [&](int n) {
        depth = 1;
        for (; n > 0 && at < ops[1].size(); n--) {
            if (!in) in = make(d[1]);
            step(*in, d[1], ops[1][at++], mixed[1]);
        }
        depth = 0;
    };
    bool before = s.coin(), setup = s.coin();
    auto visit = [&]() { if (!depth) { inside += at < ops[1].size(); go(burst); } };
    fake::st().script = [&](const fake::Program &g) {
        if (depth) return outcome(seed[1], count[1]++, g);
        auto o = outcome(seed[0], count[0]++, g);
        if (setup) visit();
        return o;
    };
    if (!setup) fake::st().during = visit;
    if (before) go(1);
    {
        auto m = make(d[0]);
        for (auto &o : ops[0]) step(*m, d[0], o, mixed[0]);
    }
    go(1000);
    in.reset();
    protocol();
    for (int i = 0; i < 2; i++) compare(alone[i], mixed[i], ops[i], 0, "nested", fmt("the second controller is operated while the first one solves (%d operations each time): controller %d;", burst, i) + hist);
    PBT_CHECK(fake::st().live.empty(), "nested-leak", "%zu solver objects are left;%s", fake::st().live.size(), hist.c_str());
    c.nontrivial = inside > 0;
    if (c.wantSample) c.sample = hist;
}
// controllers operated by different threads at the same time
static void threads(Src &s, Case &c) {
    quiet();
    int n = s.irange(2, 3), opts = 0;
    std::vector<LDims> d(n);
    std::vector<std::vector<LOp>> ops(n);
    std::vector<uint64_t> seed(n);
    std::vector<LTrace> alone(n);
    std::string hist;
    auto run = [&](int i, LTrace &t) {
        fake::reset();
        int k = 0;
        fake::st().script = [&](const fake::Program &g) { return outcome(seed[i], k++, g); };
        {
            auto m = make(d[i]);
            for (auto &o : ops[i]) step(*m, d[i], o, t);
        }
        std::string e = fake::st().errors.empty() ? "" : fake::st().errors[0];
        fake::reset();
        return e;
    };
    for (int i = 0; i < n; i++) {
        d[i] = i && s.chance(3, 4) ? d[0] : genDims(s, 3, 4);
        hist += fmt(" ||%d %s:", i, str(d[i]).c_str());
        ops[i] = genScript(s, d[i], s.irange(4, 16), hist, opts);
        seed[i] = s.below(1u << 20);
        std::string e = run(i, alone[i]);
        PBT_CHECK(e.empty(), "solver-protocol", "%s;%s", e.c_str(), hist.c_str());
    }
    std::string bad = conc::run(n, s.again ? 200 : 10, [&](int i, int) -> std::string {
        LTrace t;
        std::string e = run(i, t);
        if (!e.empty()) return e;
        try { compare(alone[i], t, ops[i], 0, "threads", fmt("controller %d alone and with others;", i)); }
        catch (const pbt::Fail &f) { return f.msg; }
        return "";
    });
    if (!bad.empty()) pbt::fail("threads", fmt("%d controllers in as many threads,%s: %s", n, hist.c_str(), bad.c_str()));
    c.nontrivial = true;
    if (c.wantSample) c.sample = hist;
}
// earlier optimisations do not matter without warm start
static void memoryless(Src &s, Case &c) {
    quiet();
    fake::reset();
    LDims d = genDims(s, 3, 4);
    std::string hist;
    int opts = 0;
    auto ops = genScript(s, d, s.irange(4, 14), hist, opts);
    std::vector<LOp> last;
    ops.erase(std::remove_if(ops.begin(), ops.end(), [](const LOp &o) { return o.kind == Q_LAST || o.kind == Q_STATS || o.kind == Q_WARM; }), ops.end());
    for (auto &o : ops) if (o.kind == Q_PAR) o.par.enable_warm_start = false;
    for (size_t i = 0; i < ops.size(); i++) if (ops[i].kind != Q_OPT || i + 1 == ops.size()) last.push_back(ops[i]);
    uint64_t seed = s.below(1u << 20);
    // the solver's answer depends on the program alone
    auto script = [&](const fake::Program &g) {
        uint64_t h = seed;
        auto add = [&](const MatD &m) { for (int i = 0; i < m.rows(); i++) for (int j = 0; j < m.cols(); j++) { double v = m(i, j); uint64_t b; memcpy(&b, &v, 8); h = pbt::mix(h ^ b); } };
        add(g.P); add(g.q); add(g.A); add(g.l); add(g.u);
        auto o = outcome(h, 0, g);
        o.status = OSQP_SOLVED;
        return o;
    };
    fake::st().script = script;
    LTrace a, b;
    {
        auto m = make(d);
        for (auto &o : ops) step(*m, d, o, a);
    }
    {
        auto m = make(d);
        for (auto &o : last) step(*m, d, o, b);
    }
    protocol();
    int a0 = a.ends[a.ends.size() - 2], b0 = b.ends[b.ends.size() - 2];
    if (a.ends.size() < 2) throw pbt::Discard();
    PBT_CHECK(a.v.size() - a0 == b.v.size() - b0, "remembers", "the last optimisation gives %zu values after earlier ones and %zu without; %s:%s", a.v.size() - a0, b.v.size() - b0, str(d).c_str(), hist.c_str());
    for (size_t i = 0; a0 + i < a.v.size(); i++)
        PBT_CHECK(close(a.v[a0 + i], b.v[b0 + i], 0), "remembers", "value %zu of the last optimisation is %.17g after earlier ones and %.17g without; %s:%s", i, a.v[a0 + i], b.v[b0 + i], str(d).c_str(), hist.c_str());
    c.nontrivial = opts >= 2;
    if (c.wantSample) c.sample = str(d) + ":" + hist;
}
void pbt_register(pbt::Runner &r) {
    r.add("modes", modes, 30000, 400000, "at least two optimisations and six operations", 0.4);
    r.add("interleaved", interleaved, 12000, 200000, "at least two optimisations", 0.8);
    r.add("nested", nested, 12000, 200000, "an operation of one controller ran while the other one was inside the solver", 0.4);
    r.add("threads", threads, 2500, 60000, "every case", 0.9);
    r.add("memoryless", memoryless, 12000, 200000, "at least two optimisations", 0.5);
}
PBT_MAIN("L07")
