// Stand-in for OSQP 0.6.3 (not installed here) with the part of its interface libmpc uses.
// It follows the real library where it matters to a caller: inputs are validated and copied by osqp_setup, a failed
// validation leaves the workspace pointer alone, solution vectors always exist and hold NaN when there is no solution,
// objective values are +-1e30 for infeasible outcomes, every object belongs to the workspace and dies with it.
// It records what it is given, takes its outcomes from a script (or solves exactly), and counts every allocation.
#pragma once
#include <deque>
#include <Eigen/Dense>
#include <cmath>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <set>
#include <string>
#include <vector>
#include "../../qp.hpp"
#if defined(__SANITIZE_ADDRESS__)
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#endif

typedef long long c_int;
typedef double c_float;
#define OSQP_DUAL_INFEASIBLE_INACCURATE (4)
#define OSQP_PRIMAL_INFEASIBLE_INACCURATE (3)
#define OSQP_SOLVED_INACCURATE (2)
#define OSQP_SOLVED (1)
#define OSQP_MAX_ITER_REACHED (-2)
#define OSQP_PRIMAL_INFEASIBLE (-3)
#define OSQP_DUAL_INFEASIBLE (-4)
#define OSQP_SIGINT (-5)
#define OSQP_TIME_LIMIT_REACHED (-6)
#define OSQP_NON_CVX (-7)
#define OSQP_UNSOLVED (-10)
#define OSQP_INFTY ((c_float)1e30)
#define OSQP_NAN ((c_float)0x7fc00000UL)
#undef OSQP_NAN
#define OSQP_NAN ((c_float)NAN)

typedef struct { c_int nzmax, m, n; c_int *p, *i; c_float *x; c_int nz; } csc;
typedef struct {
    c_float rho, sigma;
    c_int scaling, adaptive_rho, adaptive_rho_interval;
    c_float adaptive_rho_tolerance, adaptive_rho_fraction;
    c_int max_iter;
    c_float eps_abs, eps_rel, eps_prim_inf, eps_dual_inf, alpha;
    int linsys_solver;
    c_float delta;
    c_int polish, polish_refine_iter, verbose, scaled_termination, check_termination, warm_start;
    c_float time_limit;
} OSQPSettings;
typedef struct { c_int n, m; csc *P, *A; c_float *q, *l, *u; } OSQPData;
typedef struct { c_float *x, *y; } OSQPSolution;
typedef struct {
    c_int iter;
    char status[32];
    c_int status_val, status_polish;
    c_float obj_val, pri_res, dua_res, setup_time, solve_time, update_time, polish_time, run_time;
    c_int rho_updates;
    c_float rho_estimate;
} OSQPInfo;
typedef struct {
    OSQPData *data;
    OSQPSettings *settings;
    OSQPSolution *solution;
    OSQPInfo *info;
    c_int tag;
} OSQPWorkspace;

namespace fake {
using V = Eigen::VectorXd;
using M = Eigen::MatrixXd;
struct Outcome {  // what the solver answers
    c_int setupError = 0;  // nonzero: osqp_setup fails with this code
    bool setupKeepsWork = false;  // ... after allocating the workspace (non-convex problems)
    c_int solveError = 0;  // osqp_solve's return value
    c_int status = OSQP_SOLVED;
    bool noVectors = false;  // solution->x == NULL, as in solvers without a solution
    bool exact = true;       // x, y, cost from the exact solver
    std::vector<double> x, y;
    double cost = 0;
};
struct Program {  // one solver run
    M P, A;       // P symmetric
    V q, l, u;
    OSQPSettings set{};
    bool warmGiven = false, warmRefused = false, solved = false;
    std::vector<double> wx, wy;
    bool warmFlagAtSolve = false;
    Outcome out;
};
struct State {
    std::deque<Program> runs;
    std::function<Outcome(const Program &)> script;
    std::function<void()> during;  // called while the solver runs
    std::set<void *> live;
    std::vector<std::string> errors;  // broken protocol
    long allocs = 0;
    bool keep = true;
    void err(const std::string &e) { if (errors.size() < 20) errors.push_back(e); }
};
inline State &st() { static thread_local State s; return s; }
inline void reset() {
    State &s = st();
    s.runs.clear(); s.script = nullptr; s.during = nullptr; s.live.clear(); s.errors.clear(); s.allocs = 0;
}
inline void *alloc(size_t n) {
    void *p = std::malloc(n ? n : 1);
    std::memset(p, 0xAB, n);  // never rely on zeroed memory
    st().live.insert(p);
    st().allocs++;
    return p;
}
inline void release(void *p) {
    if (!p) return;
    if (!st().live.erase(p)) { st().err("a pointer that is not allocated is released"); return; }
    std::free(p);
}
// bytes in use on the heap (exact under the address sanitizer)
inline size_t heap() {
#if defined(__SANITIZE_ADDRESS__)
    return __sanitizer_get_current_allocated_bytes();
#else
    return 0;
#endif
}
inline bool alive(void *p) { return st().live.count(p) > 0; }

// the exact optimum of the program; status PRIMAL_INFEASIBLE when it cannot be reached
inline void exactSolve(const Program &pr, Outcome &o) {
    int n = (int)pr.q.size(), m = (int)pr.l.size();
    std::vector<int> eq, in;
    std::vector<double> f, d;
    std::vector<std::pair<int, int>> side;
    for (int i = 0; i < m; i++) {
        if (pr.l(i) == pr.u(i)) { eq.push_back(i); f.push_back(pr.l(i)); continue; }
        if (pr.u(i) < 1e20) { side.push_back({i, 1}); d.push_back(pr.u(i)); }
        if (pr.l(i) > -1e20) { side.push_back({i, -1}); d.push_back(-pr.l(i)); }
    }
    M E(eq.size(), n), C(side.size(), n);
    for (size_t i = 0; i < eq.size(); i++) E.row(i) = pr.A.row(eq[i]);
    for (size_t i = 0; i < side.size(); i++) C.row(i) = side[i].second * pr.A.row(side[i].first);
    double k = std::max(pr.P.size() ? pr.P.cwiseAbs().maxCoeff() : 0, pr.q.size() ? pr.q.cwiseAbs().maxCoeff() : 0);
    if (!(k > 0)) k = 1;
    auto r = qp::solve(pr.P / k, pr.q / k, E, Eigen::Map<V>(f.data(), f.size()), C, Eigen::Map<V>(d.data(), d.size()), 1e-10, 200);
    if (!r.ok) { o.status = OSQP_PRIMAL_INFEASIBLE; return; }
    o.status = OSQP_SOLVED;
    o.x.assign(r.x.data(), r.x.data() + n);
    o.y.assign(m, 0.0);
    for (size_t i = 0; i < eq.size(); i++) o.y[eq[i]] = k * r.y(i);
    for (size_t i = 0; i < side.size(); i++) o.y[side[i].first] += k * side[i].second * r.z(i);
    o.cost = k * r.obj;
}
}  // namespace fake

#define c_malloc fake::alloc
#define c_free fake::release
inline void *fake_calloc(size_t n, size_t s) { void *p = fake::alloc(n * s); std::memset(p, 0, n * s); return p; }
#define c_calloc fake_calloc

inline csc *csc_spalloc(c_int m, c_int n, c_int nzmax, c_int values, c_int triplet) {
    csc *A = (csc *)fake::alloc(sizeof(csc));
    A->m = m; A->n = n;
    A->nzmax = nzmax = nzmax > 1 ? nzmax : 1;
    A->nz = triplet ? 0 : -1;
    A->p = (c_int *)fake::alloc((triplet ? nzmax : n + 1) * sizeof(c_int));
    A->i = (c_int *)fake::alloc(nzmax * sizeof(c_int));
    A->x = values ? (c_float *)fake::alloc(nzmax * sizeof(c_float)) : nullptr;
    return A;
}
inline void csc_spfree(csc *A) {
    if (!A) return;
    if (!fake::alive(A)) { fake::st().err("a sparse matrix that is not allocated is released"); return; }
    fake::release(A->p);
    fake::release(A->i);
    fake::release(A->x);
    fake::release(A);
}
inline void osqp_set_default_settings(OSQPSettings *s) {
    s->rho = 0.1; s->sigma = 1e-6; s->scaling = 10;
    s->adaptive_rho = 1; s->adaptive_rho_interval = 0; s->adaptive_rho_tolerance = 5; s->adaptive_rho_fraction = 0.4;
    s->max_iter = 4000;
    s->eps_abs = s->eps_rel = 1e-3; s->eps_prim_inf = s->eps_dual_inf = 1e-4;
    s->alpha = 1.6; s->linsys_solver = 0; s->delta = 1e-6;
    s->polish = 0; s->polish_refine_iter = 3; s->verbose = 1; s->scaled_termination = 0; s->check_termination = 25;
    s->warm_start = 1; s->time_limit = 0;
}
namespace fake {
inline bool dense(const csc *A, M &out, const char *name, bool upper) {
    if (!A || !A->p || !A->i || !A->x) { st().err(std::string("matrix ") + name + " is missing"); return false; }
    out = M::Zero(A->m, A->n);
    if (A->p[0] != 0) { st().err(std::string("matrix ") + name + " does not start at 0"); return false; }
    for (c_int j = 0; j < A->n; j++) {
        if (A->p[j + 1] < A->p[j] || A->p[j + 1] > A->nzmax) { st().err(std::string("column pointers of ") + name + " are not valid"); return false; }
        for (c_int k = A->p[j]; k < A->p[j + 1]; k++) {
            if (A->i[k] < 0 || A->i[k] >= A->m) { st().err(std::string("row index of ") + name + " out of range"); return false; }
            if (k > A->p[j] && A->i[k] <= A->i[k - 1]) { st().err(std::string("row indices of ") + name + " are not sorted"); return false; }
            if (upper && A->i[k] > j) { st().err(std::string(name) + " is not upper triangular"); return false; }
            out(A->i[k], j) = A->x[k];
        }
    }
    return true;
}
}  // namespace fake
inline c_int osqp_setup(OSQPWorkspace **workp, const OSQPData *data, const OSQPSettings *settings) {
    using namespace fake;
    if (!data) { st().err("setup without data"); return 1; }
    if (!settings) { st().err("setup without settings"); return 2; }
    Program pr;
    M Pu;
    if (!dense(data->P, Pu, "P", true) || !dense(data->A, pr.A, "A", false)) return 1;
    if (data->n <= 0 || data->m < 0 || Pu.rows() != data->n || Pu.cols() != data->n || pr.A.rows() != data->m || pr.A.cols() != data->n) { st().err("dimensions of the data do not agree"); return 1; }
    pr.P = Pu + Pu.transpose();
    pr.P.diagonal() = Pu.diagonal();
    pr.q = Eigen::Map<V>(data->q, data->n);
    pr.l = Eigen::Map<V>(data->l, data->m);
    pr.u = Eigen::Map<V>(data->u, data->m);
    pr.set = *settings;
    st().runs.push_back(pr);
    const size_t tag = st().runs.size() - 1;
    Outcome o;
    if (st().script) o = st().script(pr);
    st().runs[tag].out = o;
    for (c_int i = 0; i < data->m; i++)
        if (data->l[i] > data->u[i]) return 1;
    const OSQPSettings &s = *settings;
    auto flag = [](c_int v) { return v == 0 || v == 1; };
    if (s.rho <= 0 || s.max_iter <= 0 || s.eps_abs < 0 || s.eps_rel < 0 || (s.eps_abs == 0 && s.eps_rel == 0) || s.eps_prim_inf <= 0 || s.eps_dual_inf <= 0 || s.alpha <= 0 || s.alpha >= 2 || s.time_limit < 0 ||
        !flag(s.adaptive_rho) || !flag(s.polish) || !flag(s.verbose) || !flag(s.warm_start))
        return 2;
    if (o.setupError && !o.setupKeepsWork) return o.setupError;
    OSQPWorkspace *w = (OSQPWorkspace *)alloc(sizeof(OSQPWorkspace));
    *workp = w;
    w->data = nullptr;
    w->settings = (OSQPSettings *)alloc(sizeof(OSQPSettings));
    *w->settings = s;
    w->info = (OSQPInfo *)alloc(sizeof(OSQPInfo));
    w->info->status_val = OSQP_UNSOLVED;
    w->info->obj_val = 0;
    w->solution = (OSQPSolution *)alloc(sizeof(OSQPSolution));
    w->solution->x = (c_float *)alloc(data->n * sizeof(c_float));
    w->solution->y = (c_float *)alloc(data->m * sizeof(c_float));
    for (c_int i = 0; i < data->n; i++) w->solution->x[i] = 0;
    for (c_int i = 0; i < data->m; i++) w->solution->y[i] = 0;
    w->tag = (c_int)tag;
    return o.setupError;
}
inline c_int osqp_warm_start(OSQPWorkspace *w, const c_float *x, const c_float *y) {
    if (!w) return 7;
    if (!fake::alive(w)) { fake::st().err("warm start of a workspace that does not exist"); return 7; }
    fake::Program &p = fake::st().runs[w->tag];
    w->settings->warm_start = 1;
    p.warmGiven = true;
    p.wx.assign(x, x + p.q.size());
    p.wy.assign(y, y + p.l.size());
    return 0;
}
inline c_int osqp_update_warm_start(OSQPWorkspace *w, c_int v) {
    if (!w) return 7;
    if (!fake::alive(w)) { fake::st().err("update of a workspace that does not exist"); return 7; }
    if (v != 0 && v != 1) return 1;
    w->settings->warm_start = v;
    return 0;
}
inline c_int osqp_solve(OSQPWorkspace *w) {
    using namespace fake;
    if (!w) return 7;
    if (!alive(w)) { st().err("solve on a workspace that does not exist"); return 7; }
    Program &p = st().runs[w->tag];
    if (p.solved) st().err("the same workspace is solved twice");
    p.solved = true;
    p.warmFlagAtSolve = w->settings->warm_start;
    if (st().during) { auto f = st().during; f(); }
    Outcome &o = p.out;
    if (o.exact) exactSolve(p, o);
    w->info->status_val = o.status;
    bool none = o.status == OSQP_PRIMAL_INFEASIBLE || o.status == OSQP_PRIMAL_INFEASIBLE_INACCURATE || o.status == OSQP_DUAL_INFEASIBLE || o.status == OSQP_DUAL_INFEASIBLE_INACCURATE || o.status == OSQP_NON_CVX;
    c_int n = (c_int)p.q.size(), m = (c_int)p.l.size();
    for (c_int i = 0; i < n; i++) w->solution->x[i] = none || i >= (c_int)o.x.size() ? OSQP_NAN : o.x[i];
    for (c_int i = 0; i < m; i++) w->solution->y[i] = none || i >= (c_int)o.y.size() ? OSQP_NAN : o.y[i];
    if (o.status == OSQP_PRIMAL_INFEASIBLE || o.status == OSQP_PRIMAL_INFEASIBLE_INACCURATE) w->info->obj_val = OSQP_INFTY;
    else if (o.status == OSQP_DUAL_INFEASIBLE || o.status == OSQP_DUAL_INFEASIBLE_INACCURATE) w->info->obj_val = -OSQP_INFTY;
    else w->info->obj_val = none ? OSQP_NAN : o.cost;
    if (o.noVectors) {
        release(w->solution->x);
        release(w->solution->y);
        w->solution->x = w->solution->y = nullptr;
    }
    return o.solveError;
}
inline c_int osqp_cleanup(OSQPWorkspace *w) {
    using namespace fake;
    if (!w) return 0;
    if (!alive(w)) { st().err("cleanup of a workspace that does not exist"); return 0; }
    release(w->solution->x);
    release(w->solution->y);
    release(w->solution);
    release(w->info);
    release(w->settings);
    release(w);
    return 0;
}
