// U02: the log stream receives exactly the messages at or above the current level, with the current prefix.
#include "../harness/pbt.hpp"
#include <iomanip>
#include <sstream>
#include <memory>
#include <mpc/Types.hpp>
#include <mpc/Logger.hpp>
using namespace pbt;
using mpc::Logger;

static std::string genText(Src &s) {
    std::string t;
    int n = s.irange(0, 6);
    for (int i = 0; i < n; i++) t += "abc XYZ0[]\n%"[s.below(12)];
    return t;
}

static void prop(Src &s, Case &c) {
    auto &L = Logger::instance();
    std::vector<std::unique_ptr<std::ostringstream>> os;
    std::vector<std::unique_ptr<std::ostringstream>> ref;
    for (int i = 0; i < 3; i++) {
        os.emplace_back(new std::ostringstream);
        ref.emplace_back(new std::ostringstream);
    }
    int cur = 0, level = Logger::NORMAL;
    std::string prefix;
    L.reset();
    L.setStream(os[0].get());
    bool open = false;  // a message is being written
    int openType = 0, nmsg = 0, shown = 0, hidden = 0, changes = 0;
    int steps = s.irange(1, 25);
    std::string hist;
    for (int k = 0; k < steps; k++) {
        int op = (int)s.below(12);
        if (op < 6) {
            openType = (int)s.below(3);
            open = true;
            nmsg++;
            L.log((Logger::log_type)openType);
            bool on = openType >= level;
            (on ? shown : hidden)++;
            if (on) {
                *ref[cur] << "[MPC++";
                if (!prefix.empty()) *ref[cur] << " " << prefix;
                *ref[cur] << "] ";
            }
            int pieces = s.irange(0, 4);
            for (int p = 0; p < pieces; p++) switch (s.below(6)) {
                case 0: { std::string t = genText(s); L << t; if (on) *ref[cur] << t; break; }
                case 1: { int v = s.irange(-1000, 1000); L << v; if (on) *ref[cur] << v; break; }
                case 2: { double v = s.real(100); L << v; if (on) *ref[cur] << v; break; }
                case 3: L << std::endl; if (on) *ref[cur] << std::endl; break;
                case 4: { int w = s.irange(1, 12); L << std::setprecision(w); if (on) *ref[cur] << std::setprecision(w); break; }
                default: L << "lit" << 'c'; if (on) *ref[cur] << "lit" << 'c';
                }
            hist += fmt(" msg%d(level %d)", openType, level);
        } else if (op < 8) {
            level = (int)s.below(4);
            L.setLevel((Logger::log_level)level);
            changes++;
            hist += fmt(" level=%d", level);
        } else if (op < 9) {
            prefix = s.chance(1, 3) ? "" : genText(s);
            L.setPrefix(prefix);
            changes++;
            hist += " prefix='" + prefix + "'";
        } else if (op < 10) {
            cur = (int)s.below(3);
            L.setStream(os[cur].get());
            changes++;
            hist += fmt(" stream=%d", cur);
        } else if (op < 11) {
            L.reset();
            level = Logger::NORMAL;
            prefix = "";
            changes++;
            hist += " reset";
        } else {
            // the setters return the logger, so calls can be chained
            level = (int)s.below(4);
            cur = (int)s.below(3);
            prefix = genText(s);
            L.setLevel((Logger::log_level)level).setStream(os[cur].get()).setPrefix(prefix);
            changes++;
            hist += " chain";
        }
        for (int i = 0; i < 3; i++)
            PBT_CHECK(os[i]->str() == ref[i]->str(), i == cur ? "current-stream" : "other-stream", "after%s: stream %d contains '%s', expected '%s'", hist.c_str(), i, os[i]->str().c_str(), ref[i]->str().c_str());
    }
    L.setStream(&std::cout);
    L.reset();
    c.nontrivial = shown > 0 && hidden > 0 && changes > 0;
    if (c.wantSample) c.sample = hist;
}

void pbt_register(pbt::Runner &r) {
    r.add("history", prop, 300000, 9000000, "at least one message shown, one suppressed and one configuration change", 0.4);
}
PBT_MAIN("U02")
