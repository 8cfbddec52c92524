// U03: the integrator is the classical fourth-order Runge-Kutta method, also over several steps.
#include "../harness/pbt.hpp"
#include <functional>
#include <mpc/Types.hpp>
#include <mpc/Integrator.hpp>
using namespace pbt;

struct Field {  // f_i(t,x) = c + a t + sum_j w_ij x_j + q sin(b t) x_k
    int n;
    std::vector<double> c, a, w, q, b;
    std::vector<int> k;
    template <class V>
    std::vector<double> operator()(double t, const V &x) const {
        std::vector<double> r(n);
        for (int i = 0; i < n; i++) {
            double v = c[i] + a[i] * t;
            for (int j = 0; j < n; j++) v += w[i * n + j] * x[j];
            v += q[i] * std::sin(b[i] * t) * x[k[i]] + 0.1 * q[i] * std::sin(x[k[i]]);
            r[i] = v;
        }
        return r;
    }
};

template <unsigned N>
static void prop(Src &s, Case &c) {
    Field f;
    f.n = N;
    bool timeDep = s.coin();
    for (unsigned i = 0; i < N; i++) {
        f.c.push_back(s.real(2));
        f.a.push_back(timeDep ? s.real(2) : 0);
        f.q.push_back(timeDep ? s.real(1) : 0);
        f.b.push_back(s.real(3));
        f.k.push_back((int)s.below(N));
    }
    for (unsigned i = 0; i < N * N; i++) f.w.push_back(s.real(1.0));
    double t0 = s.real(10), h = s.chance(1, 5) ? -s.uniform(0.001, 0.2) : s.uniform(0.001, 0.3);
    int n = s.irange(0, 6);
    mpc::cvec<N> x0;
    for (unsigned i = 0; i < N; i++) x0(i) = s.real(3);
    std::vector<double> times;
    mpc::RK4<N> rk([&](double t, const mpc::cvec<N> &x) {
        times.push_back(t);
        auto r = f(t, x);
        mpc::cvec<N> v;
        for (unsigned i = 0; i < N; i++) v(i) = r[i];
        return v;
    });
    mpc::cvec<N> got = n == 1 && s.coin() ? rk.run(t0, x0, h) : rk.run(t0, x0, h, n);
    auto tms = times;
    // reference
    std::vector<double> x(N);
    for (unsigned i = 0; i < N; i++) x[i] = x0(i);
    double mag = 1;
    std::vector<double> rt;
    for (int k = 0; k < n; k++) {
        double t = t0 + k * h;
        auto add = [&](const std::vector<double> &d, double m) { auto y = x; for (unsigned i = 0; i < N; i++) y[i] += m * d[i]; return y; };
        auto k1 = f(t, x), k2 = f(t + h / 2, add(k1, h / 2)), k3 = f(t + h / 2, add(k2, h / 2)), k4 = f(t + h, add(k3, h));
        for (unsigned i = 0; i < N; i++) x[i] += h / 6 * (k1[i] + 2 * k2[i] + 2 * k3[i] + k4[i]);
        for (unsigned i = 0; i < N; i++) mag = std::max(mag, std::abs(x[i]));
        for (double q : {t, t + h / 2, t + h / 2, t + h}) rt.push_back(q);
    }
    for (unsigned i = 0; i < N; i++)
        PBT_CHECK(std::abs(got(i) - x[i]) <= 1e-11 * mag, "rk4-value", "N=%u t0=%g h=%g steps=%d time-dependent=%d: component %u is %.15g, classical RK4 gives %.15g", N, t0, h, n, timeDep, i, got(i), x[i]);
    // n steps in one call are n chained single steps
    mpc::cvec<N> y = x0;
    for (int k = 0; k < n; k++) y = rk.run(t0 + k * h, y, h, 1);
    for (unsigned i = 0; i < N; i++)
        PBT_CHECK(std::abs(got(i) - y(i)) <= 1e-11 * mag, "chaining", "N=%u t0=%g h=%g: %d steps in one call give %.15g, chained single steps %.15g", N, t0, h, n, got(i), y(i));
    // cubic right-hand sides in time are integrated exactly
    double p[4];
    for (double &v : p) v = s.real(2);
    double tt = s.real(2), hh = s.uniform(0.01, 1);
    mpc::RK4<N> poly([&](double t, const mpc::cvec<N> &) { mpc::cvec<N> v; v.setConstant(p[0] + t * (p[1] + t * (p[2] + t * p[3]))); return v; });
    int m = s.irange(1, 5);
    mpc::cvec<N> r = poly.run(tt, x0, hh, m);
    auto F = [&](double t) { return t * (p[0] + t * (p[1] / 2 + t * (p[2] / 3 + t * p[3] / 4))); };
    double te = tt + m * hh, want = x0(0) + F(te) - F(tt);
    PBT_CHECK(std::abs(r(0) - want) <= 1e-10 * (1 + std::abs(F(te)) + std::abs(F(tt)) + std::abs(x0(0))), "polynomial", "cubic in time from %g over %d steps of %g: %.15g, exact %.15g", tt, m, hh, r(0), want);
    c.nontrivial = timeDep && n >= 2;
    c.label(timeDep ? "time-dependent" : "autonomous");
    if (c.wantSample) c.sample = fmt("N=%u t0=%g h=%g steps=%d time-dependent=%d", N, t0, h, n, timeDep);
}

void pbt_register(pbt::Runner &r) {
    r.add("fields", [](Src &s, Case &c) {
        switch (s.below(4)) {
        case 0: return prop<1>(s, c);
        case 1: return prop<2>(s, c);
        case 2: return prop<3>(s, c);
        default: return prop<5>(s, c);
        }
    }, 200000, 8000000, "the field depends on time and at least two steps are taken", 0.25);
}
PBT_MAIN("U03")
