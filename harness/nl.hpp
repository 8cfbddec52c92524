// Random non-linear control problems with exact derivatives, shared by the NLMPC checks.
#pragma once
#include "pbt.hpp"
#include <memory>
#include <map>
#include <mpc/NLMPC.hpp>

namespace nl {
using pbt::Case;
using pbt::Src;
using pbt::fmt;
using mpc::cvec;
using mpc::mat;
using MatD = Eigen::MatrixXd;
using VecD = Eigen::VectorXd;

struct Dual {
    double v = 0, d = 0;
    Dual() {}
    Dual(double a) : v(a) {}
    Dual(double a, double b) : v(a), d(b) {}
};
inline Dual operator+(Dual a, Dual b) { return {a.v + b.v, a.d + b.d}; }
inline Dual operator-(Dual a, Dual b) { return {a.v - b.v, a.d - b.d}; }
inline Dual operator*(Dual a, Dual b) { return {a.v * b.v, a.v * b.d + a.d * b.v}; }
inline Dual operator/(Dual a, Dual b) { return {a.v / b.v, (a.d * b.v - a.v * b.d) / (b.v * b.v)}; }
inline Dual sinS(Dual a) { return {std::sin(a.v), std::cos(a.v) * a.d}; }
inline double sinS(double a) { return std::sin(a); }

template <class S>
struct G {  // small row-major matrix
    int r = 0, c = 0;
    std::vector<S> v;
    G() {}
    G(int r_, int c_) : r(r_), c(c_), v((size_t)r_ * c_) {}
    S &operator()(int i, int j) { return v[(size_t)i * c + j]; }
    const S &operator()(int i, int j) const { return v[(size_t)i * c + j]; }
};
template <class E>
G<double> fromEigen(const E &m) {
    G<double> g((int)m.rows(), (int)m.cols());
    for (int i = 0; i < g.r; i++)
        for (int j = 0; j < g.c; j++) g(i, j) = m(i, j);
    return g;
}

enum Kind { KX, KY, KU, KE, KK };
struct Var { Kind k = KX; int r = 0, c = 0; };
struct Term {
    int shape = 0;  // 0 c*a  1 c*(a-t)^2  2 c*a*b  3 c*sin(a)  4 c*a^3
    double c = 0, t = 0;
    Var a, b;
};
template <class S>
struct Env {
    const G<S> *X = nullptr, *Y = nullptr, *U = nullptr;
    S e = S(0.0);
    double k = 0;
    S get(const Var &v) const {
        switch (v.k) {
        case KX: return (*X)(v.r, v.c);
        case KY: return (*Y)(v.r, v.c);
        case KU: return (*U)(v.r, v.c);
        case KE: return e;
        default: return S(k);
        }
    }
};
inline std::string varStr(const Var &v) {
    static const char *n[] = {"x", "y", "u", "e", "k"};
    return v.k == KE || v.k == KK ? n[v.k] : fmt("%s[%d,%d]", n[v.k], v.r, v.c);
}
struct Func {
    double c0 = 0;
    std::vector<Term> terms;
    std::string str() const {
        std::string s = fmt("%g", c0);
        for (auto &t : terms) {
            std::string a = varStr(t.a);
            s += t.shape == 0 ? fmt(" + %g*%s", t.c, a.c_str()) : t.shape == 1 ? fmt(" + %g*(%s-%g)^2", t.c, a.c_str(), t.t) : t.shape == 2 ? fmt(" + %g*%s*%s", t.c, a.c_str(), varStr(t.b).c_str()) :
                 t.shape == 3 ? fmt(" + %g*sin(%s)", t.c, a.c_str()) : fmt(" + %g*%s^3", t.c, a.c_str());
        }
        return s;
    }
    template <class S>
    S eval(const Env<S> &env) const {
        S s(c0);
        for (auto &t : terms) {
            S a = env.get(t.a);
            switch (t.shape) {
            case 0: s = s + S(t.c) * a; break;
            case 1: { S q = a - S(t.t); s = s + S(t.c) * q * q; break; }
            case 2: s = s + S(t.c) * a * env.get(t.b); break;
            case 3: s = s + S(t.c) * sinS(a); break;
            default: s = s + S(t.c) * a * a * a; break;
            }
        }
        return s;
    }
};

struct Dims {
    int nx = 1, nu = 1, ny = 1, ph = 1, ch = 1, ineq = 0, eq = 0;
    int nz() const { return ph * nx + nu * ch + 1; }
    std::string str() const { return fmt("nx=%d nu=%d ny=%d ph=%d ch=%d ineq=%d eq=%d", nx, nu, ny, ph, ch, ineq, eq); }
};

struct Spec {
    Dims d;
    bool cont = false, hasOut = true, hasIneq = false, hasEq = false;
    double ts = 0.1;
    std::vector<Func> dyn, out, ineq, eq;
    Func obj;
    VecD sx, su;  // scales (may be all ones)

    std::string str() const {
        std::string s = cont ? fmt("continuous ts=%g", ts) : "discrete";
        for (auto &f : dyn) s += " dyn: " + f.str();
        if (hasOut) for (auto &f : out) s += " out: " + f.str();
        s += " cost: " + obj.str();
        if (hasIneq) for (auto &f : ineq) s += " ineq: " + f.str();
        if (hasEq) for (auto &f : eq) s += " eq: " + f.str();
        return s;
    }
    template <class S>
    void stepF(S *dx, const G<S> &x, const G<S> &u, int k) const {  // x, u are 1-row
        Env<S> e;
        e.X = &x; e.U = &u; e.k = k;
        for (int i = 0; i < d.nx; i++) dx[i] = dyn[i].template eval<S>(e);
    }
    template <class S>
    void outF(S *y, const G<S> &x, const G<S> &u, int k) const {
        Env<S> e;
        e.X = &x; e.U = &u; e.k = k;
        for (int i = 0; i < d.ny; i++) y[i] = out[i].template eval<S>(e);
    }
    template <class S>
    static G<S> rowOf(const G<S> &m, int i) {
        G<S> g(1, m.c);
        for (int j = 0; j < m.c; j++) g(0, j) = m(i, j);
        return g;
    }
    template <class S>
    G<S> outputs(const G<S> &X, const G<S> &U) const {
        G<S> Y(d.ph + 1, d.ny);
        if (hasOut)
            for (int i = 0; i <= d.ph; i++) {
                std::vector<S> y(d.ny);
                outF(y.data(), rowOf(X, i), rowOf(U, i), i);
                for (int j = 0; j < d.ny; j++) Y(i, j) = y[j];
            }
        return Y;
    }
    // reference reading of the decision vector z: scaled states 1..ph, scaled inputs 0..ch-1, slack
    template <class S>
    void unwrap(const std::vector<S> &z, const VecD &x0, G<S> &X, G<S> &U, S &e) const {
        X = G<S>(d.ph + 1, d.nx);
        U = G<S>(d.ph + 1, d.nu);
        for (int j = 0; j < d.nx; j++) {
            X(0, j) = S(x0(j));
            for (int i = 1; i <= d.ph; i++) X(i, j) = z[(i - 1) * d.nx + j] * S(sx(j));
        }
        for (int i = 0; i <= d.ph; i++)
            for (int j = 0; j < d.nu; j++) U(i, j) = z[d.ph * d.nx + std::min(i, d.ch - 1) * d.nu + j] * S(su(j));
        e = z.back();
    }
    template <class S>
    S objF(const G<S> &X, const G<S> &Y, const G<S> &U, const S &e) const {
        Env<S> v;
        v.X = &X; v.Y = &Y; v.U = &U; v.e = e;
        return obj.template eval<S>(v);
    }
    template <class S>
    std::vector<S> conF(const std::vector<Func> &fs, const G<S> &X, const G<S> &Y, const G<S> &U, const S &e) const {
        Env<S> v;
        v.X = &X; v.Y = &Y; v.U = &U; v.e = e;
        std::vector<S> r;
        for (auto &f : fs) r.push_back(f.template eval<S>(v));
        return r;
    }
    // defect of the dynamics, per step and state, divided by the state scale
    template <class S>
    std::vector<S> dynRes(const G<S> &X, const G<S> &U) const {
        std::vector<S> r;
        for (int i = 0; i < d.ph; i++) {
            std::vector<S> f(d.nx), f1(d.nx);
            G<S> u = rowOf(U, i);
            stepF(f.data(), rowOf(X, i), u, i);
            if (cont) stepF(f1.data(), rowOf(X, i + 1), u, i);
            for (int j = 0; j < d.nx; j++) {
                S v = cont ? X(i, j) + S(ts / 2) * (f[j] + f1[j]) - X(i + 1, j) : X(i + 1, j) - f[j];
                r.push_back(v / S(sx(j)));
            }
        }
        return r;
    }
};

// ---------------------------------------------------------------- generators
// one problem in "rare" is large: long horizon, many variables
inline Dims genDims(Src &s, int maxph = 6, int maxn = 3, int rare = 0, int bigph = 30, int bign = 9) {
    Dims d;
    if (rare && s.chance(1, rare)) { maxph = bigph; maxn = s.coin() ? bign : maxn; }
    d.nx = s.irange(1, maxn);
    d.nu = s.irange(1, maxn);
    d.ny = s.irange(1, maxn);
    d.ph = s.irange(1, maxph);
    d.ch = d.ph - (int)s.below(d.ph);
    return d;
}
inline double genCoef(Src &s, double lim = 2.0) {
    double c = s.real(lim);
    return c == 0 ? 0.5 : c;
}
inline Func genLocal(Src &s, const Dims &d, double lin, bool nonlin, bool stepDep, int self) {
    Func f;
    f.c0 = s.chance(1, 3) ? s.real(0.5) : 0;
    int n = s.irange(1, 3);
    if (self >= 0) {
        Term t; t.c = s.real(1.0); t.a = {KX, 0, self};
        f.terms.push_back(t);
    }
    for (int i = 0; i < n; i++) {
        Term t;
        t.c = genCoef(s, lin);
        if (s.coin()) t.a = {KX, 0, (int)s.below(d.nx)};
        else t.a = {KU, 0, (int)s.below(d.nu)};
        f.terms.push_back(t);
    }
    if (nonlin && s.chance(2, 3)) {
        Term t;
        t.shape = 2 + (int)s.below(2);
        t.c = s.real(0.5 * lin);
        t.a = {KX, 0, (int)s.below(d.nx)};
        t.b = {KU, 0, (int)s.below(d.nu)};
        f.terms.push_back(t);
    }
    if (stepDep && s.chance(1, 2)) {
        Term t; t.c = s.real(0.3); t.a = {KK, 0, 0};
        if (s.coin()) {  // a coefficient that changes with the step
            t.shape = 2;
            if (s.coin()) t.b = {KX, 0, (int)s.below(d.nx)};
            else t.b = {KU, 0, (int)s.below(d.nu)};
        }
        f.terms.push_back(t);
    }
    return f;
}
inline Var genVar(Src &s, const Dims &d, bool y, bool e) {
    int k = (int)s.below(y ? 3 : 2);
    if (e && s.chance(1, 6)) return {KE, 0, 0};
    int r = s.chance(1, 4) ? d.ph : (int)s.below(d.ph + 1);
    if (k == 0) return {KX, r, (int)s.below(d.nx)};
    if (k == 1) return {KU, r, (int)s.below(d.nu)};
    if (d.ny == 0) return {KX, r, (int)s.below(d.nx)};
    return {KY, r, (int)s.below(d.ny)};
}
inline Func genGlobal(Src &s, const Dims &d, bool y, bool e, int maxTerms, bool nonlin) {
    Func f;
    f.c0 = s.real(2);
    int n = s.irange(1, maxTerms);
    for (int i = 0; i < n; i++) {
        Term t;
        t.shape = nonlin ? (int)s.below(5) : 0;
        t.c = genCoef(s, t.shape == 4 ? 0.3 : 1.5);
        t.t = s.real(2);
        t.a = genVar(s, d, y, e);
        t.b = genVar(s, d, y, e);
        f.terms.push_back(t);
    }
    return f;
}
inline Spec genSpec(Src &s, const Dims &d0, bool stepDep = true) {
    Spec p;
    p.d = d0;
    const Dims &d = p.d;
    p.cont = s.coin();
    p.ts = s.chance(1, 5) ? s.positive(1e-4, 50) : s.uniform(0.01, 0.3);
    p.sx = VecD::Ones(d.nx);
    p.su = VecD::Ones(d.nu);
    for (int i = 0; i < d.nx; i++) p.dyn.push_back(genLocal(s, d, 1.0, true, stepDep, i));
    p.hasOut = !s.chance(1, 5);
    for (int i = 0; i < d.ny; i++) p.out.push_back(genLocal(s, d, 1.5, true, stepDep, -1));
    p.obj = genGlobal(s, d, true, true, 6, true);
    for (int i = 0; i < d.ineq; i++) p.ineq.push_back(genGlobal(s, d, true, true, 3, true));
    for (int i = 0; i < d.eq; i++) p.eq.push_back(genGlobal(s, d, false, false, 3, true));
    p.hasIneq = d.ineq > 0;
    p.hasEq = d.eq > 0;
    return p;
}
inline void genScales(Src &s, Spec &p, bool extreme = false) {
    double lim = extreme && s.chance(1, 6) ? 1e5 : 20;
    for (int i = 0; i < p.d.nx; i++) p.sx(i) = s.positive(1 / lim, lim);
    for (int i = 0; i < p.d.nu; i++) p.su(i) = s.positive(1 / lim, lim);
}
inline VecD genVec(Src &s, int n, double lim = 3) {
    VecD v(n);
    for (int i = 0; i < n; i++) v(i) = s.real(lim);
    return v;
}

// ---------------------------------------------------------------- binding to the library
template <class Ctrl>
void bindModel(Ctrl &c, std::shared_ptr<Spec> sp) {
    if (sp->cont) c.setDiscretizationSamplingTime(sp->ts);
    c.setStateSpaceFunction([sp](auto &dx, const auto &x, const auto &u, const unsigned int &k) {
        G<double> X(1, sp->d.nx), U(1, sp->d.nu);
        for (int i = 0; i < sp->d.nx; i++) X(0, i) = x(i);
        for (int i = 0; i < sp->d.nu; i++) U(0, i) = u(i);
        std::vector<double> r(sp->d.nx);
        sp->stepF(r.data(), X, U, (int)k);
        for (int i = 0; i < sp->d.nx; i++) dx(i) = r[i];
    });
}
template <class Sp>
auto stateFn(std::shared_ptr<Sp> sp) {
    return [sp](auto &dx, const auto &x, const auto &u, const unsigned int &k) {
        G<double> X(1, sp->d.nx), U(1, sp->d.nu);
        for (int i = 0; i < sp->d.nx; i++) X(0, i) = x(i);
        for (int i = 0; i < sp->d.nu; i++) U(0, i) = u(i);
        std::vector<double> r(sp->d.nx);
        sp->stepF(r.data(), X, U, (int)k);
        for (int i = 0; i < sp->d.nx; i++) dx(i) = r[i];
    };
}
template <class Sp>
auto outFn(std::shared_ptr<Sp> sp) {
    return [sp](auto &y, const auto &x, const auto &u, const unsigned int &k) {
        G<double> X(1, sp->d.nx), U(1, sp->d.nu);
        for (int i = 0; i < sp->d.nx; i++) X(0, i) = x(i);
        for (int i = 0; i < sp->d.nu; i++) U(0, i) = u(i);
        std::vector<double> r(sp->d.ny);
        sp->outF(r.data(), X, U, (int)k);
        for (int i = 0; i < sp->d.ny; i++) y(i) = r[i];
    };
}
template <class Sp>
auto objFn(std::shared_ptr<Sp> sp) {
    return [sp](const auto &x, const auto &y, const auto &u, const double &e) -> double {
        return sp->objF(fromEigen(x), fromEigen(y), fromEigen(u), e);
    };
}
template <class Sp>
auto ineqFn(std::shared_ptr<Sp> sp) {
    return [sp](auto &c, const auto &x, const auto &y, const auto &u, const double &e) {
        auto r = sp->conF(sp->ineq, fromEigen(x), fromEigen(y), fromEigen(u), e);
        for (size_t i = 0; i < r.size(); i++) c(i) = r[i];
    };
}
template <class Sp>
auto eqFn(std::shared_ptr<Sp> sp) {
    return [sp](auto &c, const auto &x, const auto &u) {
        auto X = fromEigen(x);
        auto r = sp->conF(sp->eq, X, X, fromEigen(u), 0.0);
        for (size_t i = 0; i < r.size(); i++) c(i) = r[i];
    };
}
inline void quiet() {
    mpc::Logger::instance().reset().setStream(&std::cout).setLevel(mpc::Logger::NONE);
}
constexpr mpc::MPCSize DYN{-1, -1, 0, -1, -1, -1, -1, -1};

// the internal modules wired as a controller wires them
template <mpc::MPCSize SZ>
struct Parts {
    std::shared_ptr<mpc::Mapping<SZ>> map = std::make_shared<mpc::Mapping<SZ>>();
    std::shared_ptr<mpc::Model<SZ>> model = std::make_shared<mpc::Model<SZ>>();
    mpc::Objective<SZ> obj;
    mpc::Constraints<SZ> con;
    float itol = 1e-10f, etol = 1e-10f;  // tolerances of the user constraints
    void init(const Spec &p) {
        const Dims &d = p.d;
        map->initialize(d.nx, d.nu, 0, d.ny, d.ph, d.ch, d.ineq, d.eq);
        model->initialize(d.nx, d.nu, 0, d.ny, d.ph, d.ch, d.ineq, d.eq);
        obj.initialize(d.nx, d.nu, 0, d.ny, d.ph, d.ch, d.ineq, d.eq);
        con.initialize(d.nx, d.nu, 0, d.ny, d.ph, d.ch, d.ineq, d.eq);
    }
    void wire(std::shared_ptr<Spec> sp, const VecD &x0) {
        init(*sp);
        model->setContinuous(sp->cont, sp->ts);
        model->setStateModel(stateFn(sp));
        if (sp->hasOut) model->setOutputModel(outFn(sp));
        obj.setObjective(objFn(sp));
        if (sp->hasIneq) con.setIneqConstraints(ineqFn(sp), itol);
        if (sp->hasEq) con.setEqConstraints(eqFn(sp), etol);
        map->setInputScaling(sp->su);
        map->setStateScaling(sp->sx);
        obj.setModel(model, map);
        con.setModel(model, map);
        obj.setCurrentState(x0);
        con.setCurrentState(x0);
    }
    // as wire(), after a random history of earlier settings and evaluations; only the last settings may count.
    // Often nothing is set again but what differs, so that a result kept from before the change shows
    // (zLater: the decision vector the caller evaluates afterwards)
    void wireAfter(Src &s, std::shared_ptr<Spec> sp, const VecD &x0, const VecD &zLater) {
        const Dims &d = sp->d;
        if (!s.chance(2, 5)) return wire(sp, x0);
        auto old = std::make_shared<Spec>(*sp);
        VecD oldX = x0;
        bool differs[8] = {};  // time, state model, output model, cost, constraints, input scale, state scale, initial state
        if (s.coin()) differs[s.below(8)] = true;
        else
            for (bool &f : differs) f = s.coin();
        Spec q = genSpec(s, d);
        if (differs[0]) { old->cont = q.cont; old->ts = q.ts; }
        if (differs[1]) old->dyn = q.dyn;
        if (differs[2] && sp->hasOut) { old->out = q.out; old->hasOut = s.coin(); }
        if (differs[3]) old->obj = q.obj;
        if (differs[4]) {
            if (sp->hasIneq) { old->ineq = q.ineq; old->hasIneq = s.coin(); }
            if (sp->hasEq) { old->eq = q.eq; old->hasEq = s.coin(); }
        }
        VecD keepU = old->su, keepX = old->sx;
        if (differs[5] || differs[6]) {
            genScales(s, *old);
            if (!differs[5]) old->su = keepU;
            if (!differs[6]) old->sx = keepX;
        }
        if (differs[7]) {
            oldX = genVec(s, d.nx, 3);
            if (s.coin()) {  // one entry only
                VecD v = x0;
                int j = (int)s.below(d.nx);
                v(j) = oldX(j);
                oldX = v;
            }
        }
        wire(old, oldX);
        if (s.chance(3, 4)) {
            VecD z = s.chance(2, 3) ? zLater : genVec(s, d.nz(), 2);
            obj.evaluate(z, s.chance(3, 4));
            con.evaluateStateModelEq(z, s.chance(3, 4));
            if constexpr (SZ.ineq.value != 0)
                if (old->hasIneq) con.evaluateIneq(z, s.chance(3, 4));
            if constexpr (SZ.eq.value != 0)
                if (old->hasEq) con.evaluateEq(z, s.chance(3, 4));
            if (s.coin()) con.isFeasible(z);
        }
        // the last settings, in any order, some of them given twice
        bool all = s.chance(1, 3);
        int order[8] = {0, 1, 2, 3, 4, 5, 6, 7}, twice = s.irange(0, 7);
        for (int i = 7; i > 0; i--) std::swap(order[i], order[s.below(i + 1)]);
        for (int k = 0; k < 9; k++) {
            int what = k == 8 ? twice : order[k];
            if (!all && !differs[what]) continue;
            switch (what) {
            case 0: model->setContinuous(sp->cont, sp->ts); break;
            case 1: model->setStateModel(stateFn(sp)); break;
            case 2: if (sp->hasOut) model->setOutputModel(outFn(sp)); break;
            case 3: obj.setObjective(objFn(sp)); break;
            case 4: if (sp->hasIneq) con.setIneqConstraints(ineqFn(sp), itol); if (sp->hasEq) con.setEqConstraints(eqFn(sp), etol); break;
            case 5: map->setInputScaling(sp->su); break;
            case 6: map->setStateScaling(sp->sx); break;
            default: obj.setCurrentState(x0); con.setCurrentState(x0);
            }
        }
    }
};
inline std::string vstr(const VecD &v) {
    std::string s = "[";
    for (int i = 0; i < v.size(); i++) s += fmt("%s%.17g", i ? "," : "", v(i));
    return s + "]";
}
}  // namespace nl

namespace nl {
// magnitude type: an upper estimate of the size of the intermediate terms, for round-off bounds
struct Mag {
    double v = 0;
    Mag() {}
    Mag(double a) : v(std::abs(a)) {}
};
inline Mag operator+(Mag a, Mag b) { return Mag(a.v + b.v); }
inline Mag operator-(Mag a, Mag b) { return Mag(a.v + b.v); }
inline Mag operator*(Mag a, Mag b) { return Mag(a.v * b.v); }
inline Mag operator/(Mag a, Mag b) { return Mag(a.v / b.v); }
inline Mag sinS(Mag a) { return Mag(1 + a.v); }

template <class S>
std::vector<S> lift(const VecD &z) {
    std::vector<S> r;
    for (int i = 0; i < z.size(); i++) r.push_back(S(z(i)));
    return r;
}
// physical size of decision variable i, its scale, and how many trajectory rows it drives
struct ZInfo { double scale, phys; int rows; std::string name; };
inline ZInfo zinfo(const Spec &p, const VecD &z, int i) {
    const Dims &d = p.d;
    if (i < d.ph * d.nx) return {p.sx(i % d.nx), z(i) * p.sx(i % d.nx), 1, fmt("state %d of step %d", i % d.nx, i / d.nx + 1)};
    i -= d.ph * d.nx;
    if (i < d.ch * d.nu) return {p.su(i % d.nu), z(d.ph * d.nx + i) * p.su(i % d.nu), i / d.nu == d.ch - 1 ? d.ph - d.ch + 2 : 1, fmt("input %d of step %d", i % d.nu, i / d.nu)};
    return {1, z(z.size() - 1), 1, "slack"};
}
// tolerance of a finite-difference derivative of F (vector valued) at z along variable i:
// truncation is bounded by the change of the exact derivative over the step, round-off by the term sizes
template <class FD, class FM>
void checkGrad(const Spec &p, const VecD &z, int i, const std::vector<double> &got, FD exact, FM mags, const char *sig) {
    ZInfo zi = zinfo(p, z, i);
    double h = 2e-6 * std::max(1.0, std::abs(zi.phys)) / zi.scale;
    auto dual = [&](double off) {
        auto zz = lift<Dual>(z);
        zz[i].v += off;
        zz[i].d = 1;
        return exact(zz);
    };
    std::vector<Dual> g = dual(0), gp = dual(h), gm = dual(-h);
    std::vector<Mag> m = mags(lift<Mag>(z));
    for (size_t k = 0; k < g.size(); k++) {
        double tol = 1e-7 * (std::min(1.0, zi.scale) + std::abs(g[k].d)) + 3 * zi.rows * (std::abs(gp[k].d - g[k].d) + std::abs(gm[k].d - g[k].d)) +
                     40 * zi.rows * 2.2e-16 / 1.49e-8 / std::max(1.0, std::abs(zi.phys)) * zi.scale * (1 + m[k].v);
        PBT_CHECK(std::abs(got[k] - g[k].d) <= tol, sig, "%s: derivative of component %zu w.r.t. %s (scale %g, value %g) is %.12g, exact %.12g, tolerance %.3g", p.d.str().c_str(), k, zi.name.c_str(), zi.scale,
                  zi.phys, got[k], g[k].d, tol);
    }
}
// decision vector whose physical values have the given magnitudes
inline VecD genZ(Src &s, const Spec &p, VecD &x0, bool &wide) {
    const Dims &d = p.d;
    VecD z(d.nz());
    wide = s.chance(1, 3);
    auto val = [&]() {
        if (wide && s.chance(1, 3)) return s.sgn() * s.positive(1e-3, 1e3);
        return s.real(3);
    };
    x0 = VecD(d.nx);
    for (int i = 0; i < d.nx; i++) x0(i) = wide && s.chance(1, 2) ? s.sgn() * s.positive(1, 1e7) : s.real(3);
    for (int i = 0; i < d.ph * d.nx; i++) z(i) = val() / p.sx(i % d.nx);
    for (int i = 0; i < d.ch * d.nu; i++) z(d.ph * d.nx + i) = val() / p.su(i % d.nu);
    z(d.nz() - 1) = s.coin() ? 0.0 : s.real(2);
    return z;
}
// the origin of a system without constants: every value vanishes there, the derivatives do not
inline bool vanish(Src &s, Spec &p, VecD &z, VecD &x0) {
    if (!s.chance(1, 15)) return false;
    auto plain = [](Func &f) {
        f.c0 = 0;
        for (auto &t : f.terms) t.t = 0;
    };
    for (auto *v : {&p.dyn, &p.out, &p.ineq, &p.eq}) for (auto &f : *v) plain(f);
    plain(p.obj);
    z.setZero();
    x0.setZero();
    if (s.chance(1, 3)) z(s.below(z.size())) = s.real(2);
    return true;
}
}  // namespace nl
