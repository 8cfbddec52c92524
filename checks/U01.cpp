// U01: execution statistics against exact recomputation, with a virtual clock.
#include "../harness/pbt.hpp"
#include <map>
#include <sstream>
#include <mpc/NLMPC.hpp>
using namespace pbt;

// the library reads the time through std::chrono; the check owns that clock
static int64_t g_now = 1000000000;
namespace std::chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept { return time_point(duration(g_now)); }
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(g_now)); }
} }

struct Ref {
    std::vector<double> d;
    std::map<int, int> st;
};
static const char *names[] = {"SUCCESS", "MAX_ITERATION", "INFEASIBLE", "ERROR", "UNKNOWN"};

static double numberAfter(const std::string &t, const std::string &key) {
    size_t k = t.find(key);
    PBT_CHECK(k != std::string::npos, "report-missing", "the report has no '%s': %s", key.c_str(), t.c_str());
    return strtod(t.c_str() + k + key.size(), nullptr);
}

static void compare(const mpc::SolutionStats &S, const Ref &r, const std::string &hist) {
    int n = (int)r.d.size();
    PBT_CHECK(S.numberOfSolutions == n, "count", "%d optimisations recorded, expected %d (%s)", S.numberOfSolutions, n, hist.c_str());
    for (int k = 0; k < 5; k++) {
        auto a = S.solutionsStates.find((mpc::ResultStatus)k);
        auto b = r.st.find(k);
        int ga = a == S.solutionsStates.end() ? 0 : a->second, gb = b == r.st.end() ? 0 : b->second;
        PBT_CHECK(ga == gb, "status-count", "status %s counted %d times, expected %d (%s)", names[k], ga, gb, hist.c_str());
    }
    double tot = 0, mn = 1e300, mx = 0, var = 0;
    for (double v : r.d) { tot += v; mn = std::min(mn, v); mx = std::max(mx, v); }
    double mean = n ? tot / n : 0;
    for (double v : r.d) var += (v - mean) * (v - mean);
    double sd = n ? std::sqrt(var / n) : 0, tol = 1e-9 * (mx + 1e-6);
    PBT_CHECK(std::abs(S.totalSolutionTime.count() - tot) <= n * tol, "total", "total %.12g, expected %.12g (%s)", S.totalSolutionTime.count(), tot, hist.c_str());
    PBT_CHECK(std::abs(S.averageSolutionTime.count() - mean) <= tol, "mean", "mean %.12g, expected %.12g (%s)", S.averageSolutionTime.count(), mean, hist.c_str());
    if (n) {
        PBT_CHECK(std::abs(S.minSolutionTime.count() - mn) <= tol, "min", "min %.12g, expected %.12g (%s)", S.minSolutionTime.count(), mn, hist.c_str());
        PBT_CHECK(std::abs(S.maxSolutionTime.count() - mx) <= tol, "max", "max %.12g, expected %.12g (%s)", S.maxSolutionTime.count(), mx, hist.c_str());
    }
    PBT_CHECK(std::abs(S.standardDeviation - sd) <= 10 * tol, "standard-deviation", "standard deviation %.12g, expected %.12g (%s)", S.standardDeviation, sd, hist.c_str());
    if (!n) return;
    std::ostringstream os;
    os << S;
    std::string t = os.str();
    PBT_CHECK(std::abs(numberAfter(t, "min:") - mn) <= 1e-6 + tol, "report-min", "report: %s", t.c_str());
    PBT_CHECK(std::abs(numberAfter(t, "max:") - mx) <= 1e-6 + tol, "report-max", "report: %s", t.c_str());
    PBT_CHECK(std::abs(numberAfter(t, "avg:") - mean) <= 1e-6 + tol, "report-avg", "report: %s", t.c_str());
    PBT_CHECK(std::abs(numberAfter(t, "std:") - sd) <= 1e-6 + 10 * tol, "report-std", "report: %s", t.c_str());
    PBT_CHECK(std::abs(numberAfter(t, "tot:") - tot) <= 0.00501 + n * tol, "report-total", "report: %s", t.c_str());
    PBT_CHECK((int)numberAfter(t, "num:") == n, "report-count", "report: %s", t.c_str());
    for (auto &p : r.st) {
        double want = 100.0 * p.second / n, got = numberAfter(t, std::string(" ") + names[p.first] + ":");
        PBT_CHECK(std::abs(got - want) <= 0.00501, "report-percentage", "%s printed as %g%%, expected %g%%", names[p.first], got, want);
    }
}

static int64_t genDur(Src &s, int style) {
    switch (style) {
    case 0: return s.irange(0, 1000);
    case 1: return (int64_t)s.below(2000000000ull);
    case 2: return 5000000;
    default: return (int64_t)(1e9 * s.positive(1e-8, 100));
    }
}

static void prop(Src &s, Case &c) {
    mpc::Profiler p;
    Ref ref;
    std::string hist;
    int style = (int)s.below(4), steps = s.irange(1, 40), resets = 0;
    size_t most = 0;
    std::set<int> kinds;
    for (int k = 0; k < steps; k++) {
        if (s.chance(1, 12)) {
            p.reset();
            ref = Ref();
            resets++;
            hist += " reset";
        } else {
            g_now += s.below(1000000);
            p.solutionStart();
            if (s.chance(1, 10)) {  // an attempt that never ended: the last start counts
                g_now += s.below(1000000);
                p.solutionStart();
            }
            int64_t d = genDur(s, style);
            g_now += d;
            int st = (int)s.below(5);
            std::chrono::duration<double> e;
            if (s.coin()) { mpc::Result<2> r; r.status = (mpc::ResultStatus)st; e = p.solutionEnd(r); }
            else { mpc::Result<1> r; r.status = (mpc::ResultStatus)st; e = p.solutionEnd(r); }
            PBT_CHECK(std::abs(e.count() - d * 1e-9) <= 1e-12 * (1 + d), "elapsed", "elapsed %.12g, expected %.12g", e.count(), d * 1e-9);
            ref.d.push_back(d * 1e-9);
            ref.st[st]++;
            kinds.insert(st);
            hist += fmt(" %lldns/%s", (long long)d, names[st]);
        }
        most = std::max(most, ref.d.size());
        compare(p.getStats(), ref, hist);
    }
    c.nontrivial = most >= 3 && kinds.size() >= 2;
    if (resets) c.label("reset");
    if (c.wantSample) c.sample = hist;
}

// through a controller: every optimisation is recorded once, with the status it returned
static void controller(Src &s, Case &c) {
    mpc::Logger::instance().setLevel(mpc::Logger::NONE);
    mpc::NLMPC<1, 1, 1, 2, 1, 0, 0> m, other;
    double bad = 0;
    int64_t adv = 0, spent = 0;
    for (auto *q : {&m, &other}) {
        q->setStateSpaceFunction([](auto &dx, const auto &x, const auto &u, const unsigned int &) { dx(0) = 0.9 * x(0) + u(0); });
        q->setObjectiveFunction([&](const auto &x, const auto &, const auto &u, double) -> double {
            g_now += adv;
            spent += adv;
            if (bad) throw std::runtime_error("x");
            return x.squaredNorm() + u.squaredNorm();
        });
    }
    Ref ref;
    std::string hist;
    int steps = s.irange(1, 10);
    std::set<int> kinds;
    for (int k = 0; k < steps; k++) {
        g_now += 12345;
        adv = 1000 * s.irange(0, 20);
        bad = s.chance(1, 4);
        mpc::cvec<1> x, u;
        x(0) = s.real(3);
        u(0) = s.real(1);
        switch (s.below(8)) {
        case 0: m.resetStats(); ref = Ref(); hist += " reset"; break;
        case 1: other.optimize(x, u); hist += " other"; break;
        case 2: {
            mpc::NLParameters p;
            p.maximum_iteration = s.coin() ? 2 : 100;
            p.relative_ftol = s.coin() ? 1e-3 : -1;
            p.relative_xtol = 1e-3;
            m.setOptimizerParameters(p);
            hist += " params";
            break;
        }
        default: {
            spent = 0;
            auto r = m.optimize(x, u);
            ref.d.push_back(spent * 1e-9);
            ref.st[r.status]++;
            kinds.insert(r.status);
            hist += fmt(" %s", names[r.status]);
        }
        }
        compare(m.getExecutionStats(), ref, hist);
    }
    c.nontrivial = ref.d.size() >= 2;
    for (int k : kinds) c.label(names[k]);
    if (c.wantSample) c.sample = hist;
}

void pbt_register(pbt::Runner &r) {
    r.add("profiler", prop, 60000, 2500000, "at least three recorded runs between resets and two different statuses", 0.5);
    r.add("controller", controller, 6000, 300000, "at least two optimisations since the last reset", 0.4);
}
PBT_MAIN("U01")
