// L03: setters are last-write-wins over valid slices.
// @instantiates
#include "../harness/lin.hpp"
using namespace lin;

// a controller configured once, every part through the simplest setter
static std::unique_ptr<DynL> fresh(const LSpec &p) {
    auto &d = p.d;
    auto m = make(d);
    m->setStateSpaceModel(p.A, p.B, p.C);
    m->setDisturbances(p.Bd, p.Dd);
    m->setObjectiveWeights(p.wy, p.wu, p.wd);
    m->setReferences(p.ry, p.ru, p.rd);
    m->setExogenousInputs(p.dist);
    m->setStateBounds(p.xlo, p.xhi);
    m->setInputBounds(p.ulo, p.uhi);
    m->setOutputBounds(p.ylo, p.yhi);
    for (int k = 0; k < d.ph; k++) m->setScalarConstraint((unsigned)k, p.slo(k), p.shi(k), VecD(p.sx.col(k)), VecD(p.su.col(k)));
    return m;
}
static bool same(const MatD &a, const MatD &b) {
    if (a.rows() != b.rows() || a.cols() != b.cols()) return false;
    for (int i = 0; i < a.rows(); i++)
        for (int j = 0; j < a.cols(); j++)
            if (!(a(i, j) == b(i, j) || std::fabs(a(i, j) - b(i, j)) <= 1e-12 * (1 + std::fabs(b(i, j))))) return false;
    return true;
}
static void box(Src &s, int r, int c, MatD &lo, MatD &hi) {
    lo = genMat(s, r, c, 3); hi = lo;
    for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) {
        hi(i, j) += s.positive(0.01, 3);
        if (s.chance(1, 5)) lo(i, j) = -INF;
        if (s.chance(1, 5)) hi(i, j) = INF;
    }
}
static void prop(Src &s, Case &c) {
    quiet();
    fake::reset();
    LSpec p(genDims(s, 3, 6, 50, 6, 20));
    auto &d = p.d;
    auto m = make(d);
    std::string hist;
    bool modelled = false;
    VecD x0, last;
    int rejected = 0, ops = s.irange(2, 24), writes = 0, runs = 0;
    fake::st().script = [](const fake::Program &g) { fake::Outcome o; o.exact = false; o.x.assign(g.q.size(), 1.5); o.y.assign(g.l.size(), 0); return o; };
    for (int k = 0; k < ops; k++) {
        int kind = k + 1 == ops ? 12 : (int)s.below(15);
        if (kind == 12 && !modelled) kind = 0, ops++;  // without a model there is nothing to optimise
        modelled |= kind == 0;
        int a = s.irange(-2, d.ph + 1), b = s.irange(-2, d.ph + 2);
        if (s.coin()) { a = (int)s.below(d.ph); b = s.irange(a + 1, d.ph); }
        if (s.chance(1, 6)) a = b = -1;
        mpc::HorizonSlice sl(a, b);
        auto valid = [&](int h) { return (a == -1 && b == -1) || (a >= 0 && a < b && b <= h); };
        auto cols = [&](int h, auto &&fn) {
            if (a == -1) for (int i = 0; i < h; i++) fn(i);
            else for (int i = a; i < b; i++) fn(i);
            writes++;
        };
        auto verdict = [&](bool got, bool want, const char *what) {
            hist += fmt(" %s[%d,%d)%s", what, a, b, want ? "" : "!");
            rejected += !want;
            PBT_CHECK(got == want, "verdict", "%s over [%d,%d) returned %d; %s; history:%s", what, a, b, (int)got, str(d).c_str(), hist.c_str());
            return want;
        };
        auto full = [&](bool got, const char *what) {
            hist += fmt(" %s(all columns)", what);
            writes++;
            PBT_CHECK(got, "verdict", "%s returned false; %s; history:%s", what, str(d).c_str(), hist.c_str());
        };
        MatD lo, hi;
        switch (kind) {
        case 0: genModel(s, p); full(m->setStateSpaceModel(p.A, p.B, p.C), "model"); if (s.coin()) full(m->setDisturbances(p.Bd, p.Dd), "disturbance model"); else full(m->setDisturbances(p.Bd = MatD::Zero(d.nx, d.ndu), p.Dd = genMat(s, d.ny, d.ndu, 2)), "disturbance model"); break;
        case 1: {
            MatD wy = genPos(s, d.ny, d.ph, false), wu = genPos(s, d.nu, d.ph, false), wd = genPos(s, d.nu, d.ph, false);
            if (s.chance(1, 3)) { full(m->setObjectiveWeights(p.wy = wy, p.wu = wu, p.wd = wd), "weights"); break; }
            if (verdict(m->setObjectiveWeights(VecD(wy.col(0)), VecD(wu.col(0)), VecD(wd.col(0)), sl), valid(d.ph), "weights"))
                cols(d.ph, [&](int i) { p.wy.col(i) = wy.col(0); p.wu.col(i) = wu.col(0); p.wd.col(i) = wd.col(0); });
            break;
        }
        case 2: {
            MatD ry = genMat(s, d.ny, d.ph, 4), ru = genMat(s, d.nu, d.ph, 4), rd = genMat(s, d.nu, d.ph, 4);
            if (s.chance(1, 3)) { full(m->setReferences(p.ry = ry, p.ru = ru, p.rd = rd), "references"); break; }
            if (verdict(m->setReferences(VecD(ry.col(0)), VecD(ru.col(0)), VecD(rd.col(0)), sl), valid(d.ph), "references"))
                cols(d.ph, [&](int i) { p.ry.col(i) = ry.col(0); p.ru.col(i) = ru.col(0); p.rd.col(i) = rd.col(0); });
            break;
        }
        case 3: {
            MatD e = genMat(s, d.ndu, d.ph, 3);
            if (s.chance(1, 3)) { full(m->setExogenousInputs(p.dist = e), "disturbances"); break; }
            if (verdict(m->setExogenousInputs(VecD(e.col(0)), sl), valid(d.ph), "disturbances")) cols(d.ph, [&](int i) { p.dist.col(i) = e.col(0); });
            break;
        }
        case 4: case 5:
            box(s, d.nx, d.ph, lo, hi);
            if (s.chance(1, 3)) { full(m->setStateBounds(p.xlo = lo, p.xhi = hi), "state limits"); break; }
            if (verdict(m->setStateBounds(VecD(lo.col(0)), VecD(hi.col(0)), sl), valid(d.ph), "state limits")) cols(d.ph, [&](int i) { p.xlo.col(i) = lo.col(0); p.xhi.col(i) = hi.col(0); });
            break;
        case 6: case 7:
            box(s, d.nu, d.ch, lo, hi);
            if (s.chance(1, 3)) { full(m->setInputBounds(p.ulo = lo, p.uhi = hi), "input limits"); break; }
            if (verdict(m->setInputBounds(VecD(lo.col(0)), VecD(hi.col(0)), sl), valid(d.ch), "input limits")) cols(d.ch, [&](int i) { p.ulo.col(i) = lo.col(0); p.uhi.col(i) = hi.col(0); });
            break;
        case 8:
            box(s, d.ny, d.ph, lo, hi);
            if (s.chance(1, 3)) { full(m->setOutputBounds(p.ylo = lo, p.yhi = hi), "output limits"); break; }
            if (verdict(m->setOutputBounds(VecD(lo.col(0)), VecD(hi.col(0)), sl), valid(d.ph), "output limits")) cols(d.ph, [&](int i) { p.ylo.col(i) = lo.col(0); p.yhi.col(i) = hi.col(0); });
            break;
        case 9: {  // every limit of one step
            MatD xl, xh, ul, uh, yl, yh;
            box(s, d.nx, 1, xl, xh); box(s, d.nu, 1, ul, uh); box(s, d.ny, 1, yl, yh);
            a = s.chance(1, 4) ? d.ph + (int)s.below(3) : (int)s.below(d.ch);
            b = a + 1;
            if (verdict(m->setConstraints((unsigned)a, VecD(xl), VecD(ul), VecD(yl), VecD(xh), VecD(uh), VecD(yh)), a < d.ph, "all limits of a step")) {
                p.xlo.col(a) = xl; p.xhi.col(a) = xh; p.ulo.col(a) = ul; p.uhi.col(a) = uh; p.ylo.col(a) = yl; p.yhi.col(a) = yh;
                writes++;
            }
            break;
        }
        case 10: case 11: {
            VecD x = genV(s, d.nx, 2), u = genV(s, d.nu, 2);
            double l = s.real(), h = l + s.positive(0.1, 3);
            if (s.chance(1, 4)) l = -INF;
            if (s.chance(1, 8)) x.setZero();
            if (s.chance(1, 8)) u.setZero();
            bool ok;
            if (s.chance(1, 3)) {
                a = s.chance(1, 4) ? d.ph + (int)s.below(3) : (int)s.below(d.ph);
                b = a + 1;
                ok = verdict(m->setScalarConstraint((unsigned)a, l, h, x, u), a < d.ph, "scalar limit of a step");
            } else ok = verdict(m->setScalarConstraint(l, h, x, u, sl), valid(d.ph), "scalar limit");
            if (ok) {
                cols(d.ph, [&](int i) { p.slo(i) = l; p.shi(i) = h; p.sx.col(i) = x; p.su.col(i) = u; });
            }
            break;
        }
        case 14:  // the disturbance model alone
            if (s.coin()) p.Bd = genMat(s, d.nx, d.ndu, 2);
            if (s.coin()) p.Dd = genMat(s, d.ny, d.ndu, 2);
            full(m->setDisturbances(p.Bd, p.Dd), "disturbance model");
            break;
        case 13: {  // a linear controller has no scales and no sampling time
            bool refused = false;
            int which = (int)s.below(3);
            hist += " unsupported";
            try {
                if (which == 0) m->setInputScale(VecD::Constant(d.nu, 2.0));
                else if (which == 1) m->setStateScale(VecD::Constant(d.nx, 2.0));
                else refused = !m->setDiscretizationSamplingTime(0.1);
            } catch (const std::exception &) { refused = true; }
            PBT_CHECK(refused, "unsupported-accepted", "a setting without meaning for a linear controller was accepted;%s", hist.c_str());
            rejected++;
            break;
        }
        default: {
            // often the same measurement again, so that only the settings differ
            if (!runs || s.chance(1, 3)) x0 = genV(s, d.nx, 4), last = genV(s, d.nu, 3);
            hist += " optimize";
            size_t n = fake::st().runs.size();
            m->optimize(x0, last);
            std::unique_ptr<DynL> f;
            if (s.coin()) f = fresh(p);
            else { f = make(d); apply(s, *f, p); }  // the same data through other setters
            f->optimize(x0, last);
            protocol();
            auto &r = fake::st().runs;
            PBT_CHECK(r.size() == n + 2, "no-run", "the solver did not run;%s", hist.c_str());
            const fake::Program &g = r[n], &w = r[n + 1];
            dump(c, p);
            PBT_CHECK(same(g.P, w.P) && same(g.q, w.q), "cost-differs", "after the history%s the objective is not that of the most recent settings; %s", hist.c_str(), str(d).c_str());
            PBT_CHECK(same(g.A, w.A), "rows-differ", "after the history%s the constraint rows are not those of the most recent settings; %s", hist.c_str(), str(d).c_str());
            PBT_CHECK(same(g.l, w.l) && same(g.u, w.u), "limits-differ", "after the history%s the limits are not those of the most recent settings; %s", hist.c_str(), str(d).c_str());
            runs++;
        }
        }
    }
    if (d.ph > 6) c.label("large");
    c.nontrivial = writes >= 3 && ops >= 4;
    c.label(rejected ? "with rejected settings" : "all settings valid");
    if (runs > 1) c.label("several optimisations");
    if (d.ch < d.ph) c.label("short control horizon");
    if (c.wantSample) c.sample = str(d) + ":" + hist;
}
void pbt_register(pbt::Runner &r) {
    r.add("histories", prop, 40000, 1000000, "at least three accepted settings", 0.4);
}
PBT_MAIN("L03")
