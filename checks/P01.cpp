// P01: the Python module offers the C++ controllers unchanged.
// The module is the real python/pybind_export.cpp, compiled with the real pybind11 (third_party) into an embedded interpreter.
// @instantiates
// @flags -I/usr/include/python3.12 -fvisibility=hidden
// @libs -lpython3.12
// @unit P01/module.cpp
// @unit P01/linear.cpp
// @unit P01/nonlinear.cpp
#include "P01/py.hpp"
using pbt::Case;
using pbt::fmt;
using namespace pyt;
void nonlinear(Src &s, Case &c);
void linear(Src &s, Case &c);

// names, constants, defaults and plain data
static void data(Src &s, Case &c) {
    start();
    World &w = world();
    noProblem();
    auto &m = w.mpc;
    std::string what;
    switch (s.below(6)) {
    case 0: {
        static const std::pair<const char *, int> st[] = {{"UNKNOWN", mpc::UNKNOWN}, {"SUCCESS", mpc::SUCCESS}, {"MAX_ITERATION", mpc::MAX_ITERATION}, {"INFEASIBLE", mpc::INFEASIBLE}, {"ERROR", mpc::ERROR}};
        auto &e = st[s.below(5)];
        what = e.first;
        py::object v = m.attr("ResultStatus").attr(e.first);
        PBT_CHECK(py::int_(v).cast<int>() == e.second && v.cast<mpc::ResultStatus>() == e.second && v.equal(py::object(m.attr(e.first))), "python-names", "ResultStatus.%s is %d instead of %d", e.first, py::int_(v).cast<int>(), e.second);
        break;
    }
    case 1: {
        using L = mpc::Logger;
        static const std::pair<const char *, L::log_level> lv[] = {{"DEEP", L::DEEP}, {"NORMAL", L::NORMAL}, {"ALERT", L::ALERT}, {"NONE", L::NONE}};
        static const L::log_type ty[] = {L::log_type::DETAIL, L::log_type::INFO, L::log_type::ERROR};
        auto &e = lv[s.below(4)];
        auto type = ty[s.below(3)];
        std::string prefix = s.coin() ? "" : std::string(1 + s.below(4), (char)('a' + s.below(26)));
        what = std::string("level ") + e.first + " prefix '" + prefix + "'";
        bool nl = s.coin();
        // once through C++, once through Python
        std::string seen[2];
        for (int p = 0; p < 2; p++) {
            std::ostringstream os;
            L::instance().reset().setStream(&os).setLevel(L::NONE);
            if (p) {
                py::object o = nl ? m.attr("NLMPC")(1, 1, 1, 2, 2, 0, 0) : m.attr("LMPC")(1, 1, 0, 1, 2, 2);
                os.str("");
                PBT_CHECK(o.attr("setLoggerLevel")(m.attr("LoggerLevel").attr(e.first)).cast<bool>(), "python-logger", "the level is refused");
                o.attr("setLoggerPrefix")(prefix);
            } else if (nl) {
                mpc::NLMPC<> o(1, 1, 1, 2, 2, 0, 0);
                os.str("");
                o.setLoggerLevel(e.second);
                o.setLoggerPrefix(prefix);
            } else {
                mpc::LMPC<> o(1, 1, 0, 1, 2, 2);
                os.str("");
                o.setLoggerLevel(e.second);
                o.setLoggerPrefix(prefix);
            }
            L::instance().log(type) << "message" << std::endl;
            seen[p] = os.str();
            L::instance().reset().setStream(&std::cout).setLevel(L::NONE);
        }
        PBT_CHECK(seen[0] == seen[1], "python-logger", "after setLoggerLevel(%s) and setLoggerPrefix('%s') the log reads '%s' in C++ and '%s' in Python", e.first, prefix.c_str(), seen[0].c_str(), seen[1].c_str());
        break;
    }
    case 2: {
        int a = s.irange(-3, 30), b = s.irange(-3, 30);
        what = fmt("slice %d %d", a, b);
        auto h = m.attr("HorizonSlice")(a, b).cast<mpc::HorizonSlice>(), all = m.attr("HorizonSlice").attr("all")().cast<mpc::HorizonSlice>();
        PBT_CHECK(h.start == a && h.end == b, "python-slice", "HorizonSlice(%d, %d) is [%d, %d]", a, b, h.start, h.end);
        PBT_CHECK(all.start == mpc::HorizonSlice::all().start && all.end == mpc::HorizonSlice::all().end, "python-slice", "HorizonSlice.all() is [%d, %d]", all.start, all.end);
        break;
    }
    case 3: case 4: {
        // every field reads and writes the member of the same name and no other
        py::object q = m.attr("NLParameters")();
        mpc::NLParameters d, &n = q.cast<mpc::NLParameters &>();
        auto fields = [](mpc::NLParameters &x) { return std::vector<std::pair<const char *, double *>>{{"relative_ftol", &x.relative_ftol}, {"relative_xtol", &x.relative_xtol}, {"absolute_ftol", &x.absolute_ftol}, {"absolute_xtol", &x.absolute_xtol}, {"time_limit", &x.time_limit}}; };
        for (int k = 0; k < 6; k++) {
            for (size_t i = 0; i < 5; i++) {
                auto f = fields(d)[i];
                PBT_CHECK(*f.second == *fields(n)[i].second && q.attr(f.first).cast<double>() == *f.second, "python-parameters", "NLParameters.%s is %.12g instead of %.12g after: %s", f.first, q.attr(f.first).cast<double>(), *f.second, what.c_str());
            }
            PBT_CHECK(n.maximum_iteration == d.maximum_iteration && n.hard_constraints == d.hard_constraints && n.enable_warm_start == d.enable_warm_start, "python-parameters", "a parameter changes unasked after: %s", what.c_str());
            PBT_CHECK(q.attr("maximum_iteration").cast<int>() == d.maximum_iteration && q.attr("hard_constraints").cast<bool>() == d.hard_constraints && q.attr("enable_warm_start").cast<bool>() == d.enable_warm_start, "python-parameters", "a parameter reads differently after: %s", what.c_str());
            int i = (int)s.below(8);
            if (i < 5) { *fields(d)[i].second = s.real(); q.attr(fields(d)[i].first) = *fields(d)[i].second; what += std::string(" ") + fields(d)[i].first; }
            else if (i == 5) { d.maximum_iteration = s.irange(0, 1000); q.attr("maximum_iteration") = d.maximum_iteration; what += " maximum_iteration"; }
            else if (i == 6) { d.hard_constraints = s.coin(); q.attr("hard_constraints") = d.hard_constraints; what += " hard_constraints"; }
            else { d.enable_warm_start = s.coin(); q.attr("enable_warm_start") = d.enable_warm_start; what += " enable_warm_start"; }
        }
        break;
    }
    default: {
        py::object q = m.attr("LParameters")();
        mpc::LParameters d, &n = q.cast<mpc::LParameters &>();
        auto reals = [](mpc::LParameters &x) { return std::vector<std::pair<const char *, double *>>{{"alpha", &x.alpha}, {"rho", &x.rho}, {"eps_rel", &x.eps_rel}, {"eps_abs", &x.eps_abs}, {"eps_prim_inf", &x.eps_prim_inf}, {"eps_dual_inf", &x.eps_dual_inf}, {"time_limit", &x.time_limit}}; };
        auto flags = [](mpc::LParameters &x) { return std::vector<std::pair<const char *, bool *>>{{"verbose", &x.verbose}, {"adaptive_rho", &x.adaptive_rho}, {"polish", &x.polish}, {"enable_warm_start", &x.enable_warm_start}}; };
        for (int k = 0; k < 6; k++) {
            for (size_t i = 0; i < 7; i++) {
                auto f = reals(d)[i];
                PBT_CHECK(*f.second == *reals(n)[i].second && q.attr(f.first).cast<double>() == *f.second, "python-parameters", "LParameters.%s is %.12g instead of %.12g after: %s", f.first, q.attr(f.first).cast<double>(), *f.second, what.c_str());
            }
            for (size_t i = 0; i < 4; i++) {
                auto f = flags(d)[i];
                PBT_CHECK(*f.second == *flags(n)[i].second && q.attr(f.first).cast<bool>() == *f.second, "python-parameters", "LParameters.%s differs after: %s", f.first, what.c_str());
            }
            PBT_CHECK(n.maximum_iteration == d.maximum_iteration && q.attr("maximum_iteration").cast<int>() == d.maximum_iteration, "python-parameters", "LParameters.maximum_iteration differs after: %s", what.c_str());
            int i = (int)s.below(12);
            if (i < 7) { *reals(d)[i].second = s.real(); q.attr(reals(d)[i].first) = *reals(d)[i].second; what += std::string(" ") + reals(d)[i].first; }
            else if (i < 11) { bool v = s.coin(); *flags(d)[i - 7].second = v; q.attr(flags(d)[i - 7].first) = v; what += std::string(" ") + flags(d)[i - 7].first; }
            else { d.maximum_iteration = s.irange(0, 1000); q.attr("maximum_iteration") = d.maximum_iteration; what += " maximum_iteration"; }
        }
    }
    }
    c.nontrivial = true;
    c.label(what.substr(0, what.find(' ')));
    if (c.wantSample) c.sample = what;
}
void pbt_register(pbt::Runner &r) {
    r.add("nonlinear", nonlinear, 6000, 150000, "at least one optimisation and four operations", 0.4);
    r.add("linear", linear, 12000, 250000, "at least one optimisation and four operations", 0.4);
    r.add("data", data, 20000, 200000, "every case", 0.9);
}
PBT_MAIN("P01")
