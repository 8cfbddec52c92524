// L04: the solver outcome is translated faithfully.
// @flags -fsanitize=address
#include "../harness/lin.hpp"
using namespace lin;
using mpc::ResultStatus;

static const char *name(c_int st) {
    switch (st) {
    case OSQP_SOLVED: return "solved";
    case OSQP_SOLVED_INACCURATE: return "solved inaccurately";
    case OSQP_MAX_ITER_REACHED: return "iteration limit";
    case OSQP_TIME_LIMIT_REACHED: return "time limit";
    case OSQP_PRIMAL_INFEASIBLE: return "primal infeasible";
    case OSQP_PRIMAL_INFEASIBLE_INACCURATE: return "primal infeasible inaccurately";
    case OSQP_DUAL_INFEASIBLE: return "dual infeasible";
    case OSQP_DUAL_INFEASIBLE_INACCURATE: return "dual infeasible inaccurately";
    case OSQP_SIGINT: return "interrupted";
    case OSQP_NON_CVX: return "non convex";
    default: return "unsolved";
    }
}
static ResultStatus documented(c_int st) {
    switch (st) {
    case OSQP_SOLVED: case OSQP_SOLVED_INACCURATE: return ResultStatus::SUCCESS;
    case OSQP_MAX_ITER_REACHED: case OSQP_TIME_LIMIT_REACHED: return ResultStatus::MAX_ITERATION;
    case OSQP_PRIMAL_INFEASIBLE: case OSQP_PRIMAL_INFEASIBLE_INACCURATE: case OSQP_DUAL_INFEASIBLE: case OSQP_DUAL_INFEASIBLE_INACCURATE: return ResultStatus::INFEASIBLE;
    case OSQP_SIGINT: case OSQP_NON_CVX: return ResultStatus::ERROR;
    default: return ResultStatus::UNKNOWN;
    }
}
static bool infeasible(c_int st) { return documented(st) == ResultStatus::INFEASIBLE; }

static void prop(Src &s, Case &c) {
    quiet();
    fake::reset();
    LSpec p(genDims(s, 3, 5, 50, 6, 20));
    auto &d = p.d;
    genModel(s, p);
    genCost(s, p);
    auto m = make(d);
    apply(s, *m, p);
    mpc::LParameters par;
    par.enable_warm_start = s.coin();
    m->setOptimizerParameters(par);
    int n = d.nx + d.nu, runs = s.irange(1, 8), bad = 0, good = 0;
    VecD cmd = VecD::Zero(d.nu);
    std::string hist;
    bool crossing = false, recovered = false;
    for (int k = 0; k < runs; k++) {
        fake::Outcome o;
        o.exact = false;
        static const c_int all[] = {OSQP_SOLVED, OSQP_SOLVED, OSQP_SOLVED_INACCURATE, OSQP_MAX_ITER_REACHED, OSQP_TIME_LIMIT_REACHED, OSQP_PRIMAL_INFEASIBLE, OSQP_PRIMAL_INFEASIBLE_INACCURATE, OSQP_DUAL_INFEASIBLE, OSQP_DUAL_INFEASIBLE_INACCURATE, OSQP_SIGINT, OSQP_NON_CVX, OSQP_UNSOLVED, 7, -8};
        o.status = all[s.below(sizeof all / sizeof *all)];
        int fault = s.chance(1, 3) ? (int)s.irange(1, 6) : 0;
        std::string what = name(o.status);
        bool cross = false;
        switch (fault) {
        case 1: o.setupError = s.irange(3, 6); what = fmt("setup error %d", (int)o.setupError); break;
        case 2: o.setupError = 5; o.setupKeepsWork = true; what = "setup error with workspace"; break;
        case 3: o.solveError = 1; o.status = OSQP_SIGINT; what = "solve interrupted with an error"; break;
        case 4: o.noVectors = true; what += " without vectors"; break;
        case 5: cross = true; what = "crossing limits"; break;
        case 6: what += " with values that are not numbers"; break;  // the solver does not notice them (comparisons with NaN are false) and may even report success
        default: break;
        }
        if (cross != crossing) {
            if (cross) m->setStateBounds(VecD(VecD::Constant(d.nx, 1)), VecD(VecD::Constant(d.nx, -1)), mpc::HorizonSlice(0, 1));
            else m->setStateBounds(VecD(VecD::Constant(d.nx, -INF)), VecD(VecD::Constant(d.nx, INF)), mpc::HorizonSlice(0, 1));
            crossing = cross;
        }
        bool none = infeasible(o.status) || o.status == OSQP_NON_CVX;
        bool sol = !fault && !none;
        o.cost = s.chance(1, 5) ? s.sgn() * s.positive(1e-12, 1e29) : s.real(50);
        VecD x = genV(s, (d.ph + 1) * n + d.ph * d.nu, 5);
        if (s.chance(1, 10)) x *= std::pow(10.0, s.irange(-9, 9));
        o.x.assign(x.data(), x.data() + x.size());
        o.y.assign((size_t)(2 * (d.ph + 1) * n + (d.ph + 1) * d.ny + d.ph * d.nu + d.ph + 1), s.real());
        if (fault == 6) {
            static const double odd[] = {NAN, INF, -INF};
            double v = odd[s.below(3)];
            if (s.coin()) for (auto &e : o.x) e = v;
            else (s.chance(1, 4) ? o.y : o.x)[s.below(o.x.size())] = v;
            if (s.coin()) o.cost = NAN;
        }
        fake::st().script = [o](const fake::Program &) { return o; };
        if (d.ndu && s.coin()) { p.dist = genMat(s, d.ndu, d.ph, 3); m->setExogenousInputs(p.dist); }
        VecD x0 = genV(s, d.nx, 4), last = genV(s, d.nu, 3);
        if (fault == 6 && s.coin()) (s.coin() ? x0[s.below(d.nx)] : last[s.below(d.nu)]) = NAN;
        hist += fmt(" | %s", what.c_str());
        auto r = m->optimize(x0, last);
        auto q = m->getOptimalSequence();
        auto again = m->getLastResult();
        std::string at = fmt("outcomes%s; %s", hist.c_str(), str(d).c_str());
        c.trace = at;
        protocol();
        PBT_CHECK(q.state.rows() == d.ph + 1 && q.state.cols() == d.nx && q.input.rows() == d.ph + 1 && q.input.cols() == d.nu && q.output.rows() == d.ph + 1 && q.output.cols() == d.ny, "sizes", "the sequence has the wrong sizes after%s", at.c_str());
        PBT_CHECK(r.cmd.size() == d.nu, "sizes", "the command has %d entries after%s", (int)r.cmd.size(), at.c_str());
        if (sol) {
            good++;
            if (bad) recovered = true;
            PBT_CHECK(r.solver_status == o.status, "code", "solver code %d instead of %d after%s", r.solver_status, (int)o.status, at.c_str());
            PBT_CHECK(r.status == documented(o.status), "status", "status %d instead of %d after%s", (int)r.status, (int)documented(o.status), at.c_str());
            PBT_CHECK(r.cost == o.cost, "cost", "cost %g instead of %g after%s", r.cost, o.cost, at.c_str());
            if (r.status == ResultStatus::SUCCESS) PBT_CHECK(r.is_feasible, "feasible", "a solved problem is reported as not feasible after%s", at.c_str());
            if (r.status == ResultStatus::ERROR) PBT_CHECK(!r.is_feasible, "feasible", "a failed optimisation is reported as feasible after%s", at.c_str());
            MatD X(d.ph + 1, d.nx), U(d.ph + 1, d.nu), Y(d.ph + 1, d.ny);
            for (int i = 0; i <= d.ph; i++) {
                X.row(i) = x.segment(i * n, d.nx).transpose();
                U.row(i) = x.segment(std::min(i + 1, d.ph) * n + d.nx, d.nu).transpose();
                Y.row(i) = (p.C * X.row(i).transpose() + p.Dd * p.dist.col(std::min(i, d.ph - 1))).transpose();
            }
            PBT_CHECK(MatD(q.state) == X, "states", "the state sequence is not the solver's after%s", at.c_str());
            PBT_CHECK(MatD(q.input) == U, "inputs", "the input sequence is not the solver's after%s", at.c_str());
            PBT_CHECK((MatD(q.output) - Y).cwiseAbs().maxCoeff() <= 1e-9 * (1 + Y.cwiseAbs().maxCoeff()), "outputs", "the output sequence is not that of the states after%s", at.c_str());
            cmd = U.row(0).transpose();
            PBT_CHECK(VecD(r.cmd) == cmd, "command", "the command is not the first input after%s", at.c_str());
        } else {
            bad++;
            PBT_CHECK(!r.is_feasible, "feasible", "an optimisation without a solution is reported as feasible after%s", at.c_str());
            if (none && !fault) {
                PBT_CHECK(r.solver_status == o.status, "code", "solver code %d instead of %d after%s", r.solver_status, (int)o.status, at.c_str());
                PBT_CHECK(r.status == documented(o.status), "status", "status %d instead of %d after%s", (int)r.status, (int)documented(o.status), at.c_str());
            } else
                PBT_CHECK(r.status == ResultStatus::ERROR || ((fault == 4 || fault == 6) && none && r.status == documented(o.status)), "status", "status %d without any solution after%s", (int)r.status, at.c_str());
            PBT_CHECK(std::isinf(r.cost) && r.cost > 0, "cost", "cost %g without a solution after%s", r.cost, at.c_str());
            PBT_CHECK(VecD(r.cmd) == cmd, "command", "the previous command is not kept after%s", at.c_str());
            PBT_CHECK(q.state.isZero(0) && q.input.isZero(0) && q.output.isZero(0), "zero-sequence", "the sequences are not zero after%s", at.c_str());
        }
        PBT_CHECK(VecD(again.cmd) == VecD(r.cmd) && again.status == r.status && again.solver_status == r.solver_status && (again.cost == r.cost) && again.is_feasible == r.is_feasible, "last-result", "the last-result query differs from the result after%s", at.c_str());
        c.label(what);
    }
    if (d.ph > 5) c.label("large");
    c.nontrivial = runs >= 2 && bad && good;
    if (recovered) c.label("recovered");
    if (c.wantSample) c.sample = str(d) + hist;
}
void pbt_register(pbt::Runner &r) {
    r.add("outcomes", prop, 30000, 1000000, "at least one optimisation with and one without a solution", 0.3);
}
PBT_MAIN("L04")
