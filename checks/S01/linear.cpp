#include "../L07/gen.hpp"
#include "heap.hpp"
template <class L, class... A>
static void session(const LDims &d, const std::vector<LOp> &ops, uint64_t seed, A... sizes) {
    fake::reset();
    int k = 0;
    fake::st().script = [&](const fake::Program &g) { return outcome(seed, k++, g); };
    {
        LTrace t;
        auto m = std::make_unique<L>(sizes...);
        for (auto &o : ops) step(*m, d, o, t);
        auto r = m->getLastResult();
        auto q = m->getOptimalSequence();
        m.reset();
        PBT_CHECK(r.cmd.size() == d.nu && q.state.rows() == d.ph + 1, "returned", "results taken before the end of the controller changed");
    }
    fake::st().script = nullptr;
    fake::reset();
}
void linear(Src &s, Case &c) {
    quiet();
    int which = (int)s.below(3);
    LDims d = genDims(s, 3, 5, 60, 5, 12);
    if (which == 1) d = {2, 1, 1, 2, 3, 2};
    if (which == 2) d = {3, 2, 0, 1, 4, 4};
    std::string hist;
    int opts = 0;
    auto ops = genScript(s, d, s.irange(1, 14), hist, opts);
    uint64_t seed = s.below(1u << 30);
    balanced("a controller", str(d) + hist, [&] {
        if (which == 0) session<DynL>(d, ops, seed, d.nx, d.nu, d.ndu, d.ny, d.ph, d.ch);
        else if (which == 1) session<mpc::LMPC<2, 1, 1, 2, 3, 2>>(d, ops, seed);
        else session<mpc::LMPC<3, 2, 0, 1, 4, 4>>(d, ops, seed);
    });
    c.nontrivial = opts > 0 && ops.size() >= 4;
    c.label(which ? "compile-time-sized" : "run-time-sized");
    if (c.wantSample) c.sample = str(d) + hist;
}
