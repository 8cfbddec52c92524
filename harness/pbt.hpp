// Small property-based testing engine.
//
// A property is a function of a stream of bounded choices (Src). Random runs draw
// the choices from a seeded generator, shrinking and replay feed a recorded list of
// choices back (missing choices read as 0, which every generator maps to its simplest
// value), and a libFuzzer build (-DPBT_FUZZER) decodes the fuzzer's bytes into choices.
#pragma once
#include <algorithm>
#include <atomic>
#include <chrono>
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace pbt {
using u64 = uint64_t;

// real time, immune to the virtual clock some checks install in std::chrono
inline double nowS() {
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + 1e-9 * t.tv_nsec;
}
inline u64 mix(u64 z) {
    z += 0x9e3779b97f4a7c15ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}

struct Discard {};
struct Fail {
    std::string sig, msg;
};

constexpr size_t REC_CAP = 1u << 17;
struct Slot {  // shared between a worker and the parent
    std::atomic<double> started;
    std::atomic<int> target;
    std::atomic<u64> idx;
    std::atomic<u64> n;
    char sig[256];
    char msg[6000];
    u64 rec[REC_CAP];
};

class Src {
  public:
    bool replay = false, again = false;  // again: the case is run on its own to confirm a failure
    const u64 *in = nullptr;
    size_t inN = 0, pos = 0;
    u64 state = 0;
    Slot *slot = nullptr;
    const uint8_t *bytes = nullptr;
    size_t bytesN = 0;
    u64 h = 1469598103934665603ull;

    u64 below(u64 n) {
        if (n <= 1) return 0;
        u64 v;
        if (bytes) {
            int k = n <= 256 ? 1 : n <= 65536 ? 2 : 8;
            v = 0;
            for (int i = 0; i < k; i++)
                if (pos < bytesN) v |= (u64)bytes[pos++] << (8 * i);
            v %= n;
        } else if (replay) {
            v = pos < inN ? in[pos] % n : 0;
            pos++;
        } else {
            state += 0x9e3779b97f4a7c15ull;
            v = mix(state) % n;
        }
        h = mix(h ^ v) + n;
        u64 k = slot->n.load(std::memory_order_relaxed);
        if (k < REC_CAP) slot->rec[k] = v;
        slot->n.store(k + 1, std::memory_order_relaxed);
        return v;
    }
    // integer in [lo,hi], simplest = lo
    int irange(int lo, int hi) { return lo + (int)below((u64)(hi - lo + 1)); }
    bool chance(int num, int den) { return (int)below(den) >= den - num; }  // shrinks to false
    bool coin() { return below(2) == 1; }
    double unit() { return (double)below(1ull << 53) * 0x1p-53; }
    double uniform(double a, double b) { return a + (b - a) * unit(); }
    double sgn() { return coin() ? -1.0 : 1.0; }
    // everyday real numbers, mostly of magnitude <= s
    double real(double s = 4.0) {
        switch (below(4)) {
        case 0: { static const double v[] = {0, 1, -1, 2, -2, 0.5, -0.5, 3}; return v[below(8)] * (s / 4.0); }
        case 1: return ((double)below(65) * 0.125) * (s / 8.0) * sgn();
        default: return uniform(-s, s);
        }
    }
    // real whose value is exactly representable with few bits (sums/products stay exact)
    double dyadic(int lim = 32) { return (double)below(lim + 1) * 0.125 * sgn(); }
    double positive(double lo, double hi) {  // log-uniform, simplest = lo..1
        switch (below(3)) {
        case 0: return std::min(hi, std::max(lo, 1.0));
        default: return lo * std::exp(unit() * std::log(hi / lo));
        }
    }
};

struct Case {
    bool nontrivial = false;
    std::vector<std::string> labels;
    std::string sample;
    std::string trace;  // appended to a failure message
    bool wantSample = false;
    void label(const std::string &s) { labels.push_back(s); }
};

using PropFn = std::function<void(Src &, Case &)>;
struct Target {
    std::string name;
    PropFn fn;
    u64 quick, thorough;  // number of cases
    std::string rule;     // what makes a case non-trivial
    double minNontrivial = 0.0;  // the run is reported as vacuous below this rate
};

struct Stats {
    u64 evals = 0, nontriv = 0, discards = 0, known = 0;
    std::unordered_set<u64> distinct;
    std::map<std::string, u64> labels;
    std::vector<std::string> samples;
};

inline std::string fmt(const char *f, ...) {
    va_list ap;
    va_start(ap, f);
    char b[4000];
    vsnprintf(b, sizeof b, f, ap);
    va_end(ap);
    return b;
}
[[noreturn]] inline void fail(const std::string &sig, const std::string &msg) { throw Fail{sig, msg}; }
#define PBT_CHECK(cond, sig, ...)                                    \
    do {                                                             \
        if (!(cond)) ::pbt::fail(sig, ::pbt::fmt(__VA_ARGS__));      \
    } while (0)

struct Config {
    std::string id, tier = "quick", evidence, replayDir, replayFile, knownFile, only, dumpReplay;
    u64 seed = 1;
    int workers = 8;
    double scale = 1.0, budget = 0, caseLimit = 60;
};

inline std::string jesc(const std::string &s) {
    std::string o;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') o += "\\n";
        else if (c == '\t') o += "\\t";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o;
}

class Runner {
  public:
    Config cfg;
    std::vector<Target> targets;
    std::vector<std::pair<std::string, std::string>> known;  // sig, text
    std::set<std::string> knownSeen;
    std::string ruleText;
    std::vector<std::string> assumptions;
    Slot *slots = nullptr;

    void add(const std::string &n, PropFn f, u64 q, u64 t, const std::string &rule, double minNt = 0.0) {
        targets.push_back({n, f, q, t, rule, minNt});
    }

    u64 caseSeed(int t, u64 idx) const {
        u64 h = mix(cfg.seed * 1000003ull + 17);
        for (char c : targets[t].name) h = mix(h ^ (u64)(unsigned char)c);
        return mix(h ^ (idx * 0x2545f4914f6cdd1dull));
    }

    // run one case in this process; returns 0 ok, 1 fail, 2 discard
    int exec(int t, Src &s, Slot *sl, Case &c) {
        sl->sig[0] = sl->msg[0] = 0;
        sl->n.store(0);
        s.slot = sl;
        sl->target.store(t);
        sl->started.store(nowS());
        try {
            targets[t].fn(s, c);
            sl->started.store(0);
            return 0;
        } catch (Discard &) {
            sl->started.store(0);
            return 2;
        } catch (Fail &f) {
            snprintf(sl->sig, sizeof sl->sig, "%s", f.sig.c_str());
            snprintf(sl->msg, sizeof sl->msg, "%s%s%s", f.msg.c_str(), c.trace.empty() ? "" : " || ", c.trace.c_str());
        } catch (std::exception &e) {
            snprintf(sl->sig, sizeof sl->sig, "unexpected-exception");
            snprintf(sl->msg, sizeof sl->msg, "unexpected exception: %s || %s", e.what(), c.trace.c_str());
        } catch (...) {
            snprintf(sl->sig, sizeof sl->sig, "unexpected-exception");
            snprintf(sl->msg, sizeof sl->msg, "unexpected exception || %s", c.trace.c_str());
        }
        sl->started.store(0);
        return 1;
    }

    // run in a forked child; returns "" when the case passes, else the signature
    std::string forked(int t, const std::vector<u64> *choices, u64 seed, std::vector<u64> *recOut, std::string *msgOut) {
        Slot *sl = slots + cfg.workers;
        sl->n.store(0);
        sl->sig[0] = sl->msg[0] = 0;
        fflush(nullptr);
        pid_t p = fork();
        if (p == 0) {
            quietChild();
            Src s;
            if (choices) { s.replay = true; s.in = choices->data(); s.inN = choices->size(); }
            else s.state = seed;
            s.again = true;
            Case c;
            int r = exec(t, s, sl, c);
            _exit(r == 1 ? 77 : 0);
        }
        int st = 0;
        double t0 = nowS();
        bool hang = false;
        useconds_t nap = 50;
        while (true) {
            pid_t w = waitpid(p, &st, WNOHANG);
            if (w == p) break;
            if (nowS() - t0 > cfg.caseLimit) { kill(p, SIGKILL); waitpid(p, &st, 0); hang = true; break; }
            usleep(nap);
            if (nap < 5000) nap *= 2;
        }
        u64 n = std::min<u64>(sl->n.load(), REC_CAP);
        if (recOut) recOut->assign(sl->rec, sl->rec + n);
        std::string sig, msg;
        if (hang) { sig = "hang"; msg = fmt("the case did not finish within %.0f s", cfg.caseLimit); }
        else if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return "";
        else if (WIFEXITED(st) && WEXITSTATUS(st) == 77) { sig = sl->sig; msg = sl->msg; }
        else if (WIFSIGNALED(st)) { sig = "crash"; msg = fmt("the process was killed by signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st))); }
        else { sig = "crash"; msg = fmt("the process exited with status %d", WEXITSTATUS(st)); }
        if (msgOut) *msgOut = msg;
        return sig;
    }

    void quietChild() {
        int fd = open("/dev/null", O_WRONLY);
        if (!getenv("PBT_VERBOSE")) { dup2(fd, 1); dup2(fd, 2); }
    }

    bool isKnown(const std::string &sig) {
        for (auto &k : known)
            if (k.first == sig) return true;
        return false;
    }

    std::string statFile(int w) { return cfg.evidence + fmt(".w%d", w); }
    void saveStats(int w, const std::vector<Stats> &S) {
        std::ofstream o(statFile(w), std::ios::trunc);
        for (size_t t = 0; t < S.size(); t++) {
            o << "T " << t << " " << S[t].evals << " " << S[t].nontriv << " " << S[t].discards << " " << S[t].known << "\n";
            for (u64 h : S[t].distinct) o << "H " << h << "\n";
            for (auto &l : S[t].labels) o << "L " << l.second << " " << l.first << "\n";
            for (auto &s : S[t].samples) o << "S " << s << "\n";
        }
    }
    void loadStats(int w, std::vector<Stats> &S) {
        std::ifstream in(statFile(w));
        std::string line;
        int t = 0;
        while (std::getline(in, line)) {
            std::istringstream is(line.substr(2));
            if (line[0] == 'T') { u64 a, b, c, d; is >> t >> a >> b >> c >> d; S[t].evals += a; S[t].nontriv += b; S[t].discards += c; S[t].known += d; }
            else if (line[0] == 'H') { u64 x; is >> x; S[t].distinct.insert(x); }
            else if (line[0] == 'L') { u64 x; is >> x; std::string l; std::getline(is, l); S[t].labels[l.substr(1)] += x; }
            else if (line[0] == 'S') { if (S[t].samples.size() < 4) S[t].samples.push_back(line.substr(2)); }
        }
        in.close();
        unlink(statFile(w).c_str());
    }

    struct Cand { int t; u64 idx; std::string sig, msg; };

    std::vector<std::pair<int, u64>> plan;  // (target, index)

    void workerLoop(int w, size_t startAt, double deadline) {
        Slot *sl = slots + w;
        std::vector<Stats> S(targets.size());
        if (startAt) loadStats(w, S);
        for (size_t k = startAt; k < plan.size(); k++) {
            if ((int)(k % cfg.workers) != w) continue;
            if (nowS() > deadline) break;
            int t = plan[k].first;
            u64 idx = plan[k].second;
            sl->idx.store(k);
            Src s;
            s.state = caseSeed(t, idx);
            Case c;
            c.wantSample = S[t].samples.size() < 3;
            int r = exec(t, s, sl, c);
            S[t].evals++;
            if (r == 2) S[t].discards++;
            for (auto &l : c.labels) S[t].labels[l]++;
            if (r == 1) {
                saveStats(w, S);
                _exit(77);
            }
            if (r == 0 && c.nontrivial) {
                S[t].nontriv++;
                S[t].distinct.insert(s.h);
                if (S[t].samples.size() < 3 && !c.sample.empty()) {
                    std::string q = c.sample;
                    std::replace(q.begin(), q.end(), '\n', ' ');
                    S[t].samples.push_back(q.substr(0, 600));
                }
            }
        }
        saveStats(w, S);
        _exit(0);
    }

    std::vector<u64> shrink(int t, std::vector<u64> best, const std::string &sig, double limit, std::string &msg) {
        double t0 = nowS();
        auto tryIt = [&](const std::vector<u64> &cand) {
            std::vector<u64> rec;
            std::string m;
            std::string s = forked(t, &cand, 0, &rec, &m);
            if (s == sig) {
                // keep the normalised recording when it is not longer
                if (rec.size() <= cand.size()) best = rec; else best = cand;
                msg = m;
                return true;
            }
            return false;
        };
        bool progress = true;
        while (progress && nowS() - t0 < limit) {
            progress = false;
            for (size_t chunk : {64u, 16u, 8u, 4u, 2u, 1u}) {
                for (size_t i = best.size(); i >= chunk && i > 0 && nowS() - t0 < limit;) {
                    if (i > best.size()) { i = best.size(); continue; }
                    if (i < chunk) break;
                    std::vector<u64> c = best;
                    c.erase(c.begin() + (i - chunk), c.begin() + i);
                    size_t before = best.size();
                    if (tryIt(c) && best.size() < before) { progress = true; i = std::min(i, best.size()); }
                    else i -= 1;
                    if (chunk > 4 && i > chunk) i -= (chunk / 2);
                }
            }
            for (size_t chunk : {16u, 4u, 1u})
                for (size_t i = 0; i < best.size() && nowS() - t0 < limit; i += chunk) {
                    std::vector<u64> c = best;
                    bool any = false;
                    for (size_t j = i; j < std::min(best.size(), i + chunk); j++)
                        if (c[j]) { c[j] = 0; any = true; }
                    if (any && tryIt(c)) progress = true;
                }
            for (size_t i = 0; i < best.size() && nowS() - t0 < limit; i++) {
                while (i < best.size() && best[i] > 1 && nowS() - t0 < limit) {
                    std::vector<u64> c = best;
                    c[i] /= 2;
                    u64 was = best[i];
                    if (!tryIt(c) || i >= best.size() || best[i] >= was) break;
                    progress = true;
                }
                if (i < best.size() && best[i] > 0 && best[i] < 64) {
                    std::vector<u64> c = best;
                    c[i] -= 1;
                    if (tryIt(c)) progress = true;
                }
            }
        }
        return best;
    }

    void writeReplay(const std::string &path, int t, const std::vector<u64> &ch, const std::string &sig, const std::string &msg, u64 seed) {
        std::ofstream o(path, std::ios::trunc);
        o << "property " << cfg.id << "\n" << "target " << targets[t].name << "\n" << "seed " << seed << "\n";
        o << "signature " << sig << "\n";
        std::string m = msg;
        std::replace(m.begin(), m.end(), '\n', ' ');
        o << "message " << m << "\n" << "choices " << ch.size();
        for (u64 v : ch) o << " " << v;
        o << "\n";
    }

    int doReplay() {
        std::ifstream in(cfg.replayFile);
        std::string line, tn;
        std::vector<u64> ch;
        bool have = false;
        std::vector<std::pair<int, u64>> seq;
        while (std::getline(in, line)) {
            std::istringstream is(line);
            std::string k;
            is >> k;
            if (k == "target") is >> tn;
            if (k == "case") { std::string n; u64 sd; is >> n >> sd; for (size_t t = 0; t < targets.size(); t++) if (targets[t].name == n) seq.push_back({(int)t, sd}); }
            if (k == "choices") { size_t n; is >> n; ch.resize(n); for (auto &v : ch) is >> v; have = true; }
        }
        if (!seq.empty()) {
            std::string m, sig = forkedSeq(seq, &m);
            if (sig.empty()) { printf("REPLAY property=%s: holds\n", cfg.id.c_str()); return 0; }
            printf("REPLAY property=%s FAILS [%s] %s\n", cfg.id.c_str(), sig.c_str(), m.c_str());
            printf("VIOLATION property=%s replay=%s\n", cfg.id.c_str(), cfg.replayFile.c_str());
            return 1;
        }
        if (!have) { printf("replay file unreadable\n"); return 2; }
        for (size_t t = 0; t < targets.size(); t++)
            if (targets[t].name == tn) {
                std::string m, sig;
                sig = forked((int)t, &ch, 0, nullptr, &m);
                if (sig.empty()) { printf("REPLAY property=%s target=%s: holds\n", cfg.id.c_str(), tn.c_str()); return 0; }
                if (isKnown(sig)) { printf("KNOWN-FINDING: property=%s %s\n", cfg.id.c_str(), sig.c_str()); return 0; }
                printf("REPLAY property=%s target=%s FAILS [%s] %s\n", cfg.id.c_str(), tn.c_str(), sig.c_str(), m.c_str());
                printf("VIOLATION property=%s replay=%s\n", cfg.id.c_str(), cfg.replayFile.c_str());
                return 1;
            }
        printf("no such target %s\n", tn.c_str());
        return 2;
    }

    // confirm three times, shrink, write the replay; returns true when it is a confirmed violation
    bool confirm(int t, const std::vector<u64> *choices, u64 seed, std::string hintSig) {
        std::vector<u64> rec;
        std::string msg, sig;
        for (int i = 0; i < 3; i++) {
            std::string s = forked(t, choices, seed, &rec, &msg);
            if (s.empty()) {
                printf("note: a failure [%s] of target %s did not reproduce on re-run %d; ignored\n", hintSig.c_str(), targets[t].name.c_str(), i + 1);
                return false;
            }
            sig = s;
        }
        if (isKnown(sig)) { knownSeen.insert(sig); return false; }
        std::vector<u64> small = rec;
        if (sig != "hang") small = shrink(t, rec, sig, cfg.tier == "quick" ? 25 : 60, msg);
        std::string path = cfg.replayDir + "/" + cfg.id + "-" + targets[t].name + ".replay";
        writeReplay(path, t, small, sig, msg, seed);
        std::string s2 = forked(t, &small, 0, nullptr, &msg);
        if (s2.empty()) writeReplay(path, t, rec, sig, msg, seed);
        printf("counterexample property=%s target=%s [%s] choices=%zu (from %zu): %s\n", cfg.id.c_str(), targets[t].name.c_str(), sig.c_str(), small.size(), rec.size(), msg.c_str());
        printf("VIOLATION property=%s replay=%s\n", cfg.id.c_str(), path.c_str());
        violations.push_back(path);
        return true;
    }
    std::vector<std::string> violations;

    // run a list of earlier seeded cases and then the failing one, all in one process
    std::string forkedSeq(const std::vector<std::pair<int, u64>> &seq, std::string *msg) {
        Slot *sl = slots + cfg.workers;
        sl->sig[0] = sl->msg[0] = 0;
        fflush(nullptr);
        pid_t p = fork();
        if (p == 0) {
            quietChild();
            int r = 0;
            for (auto &q : seq) {
                Src s;
                s.state = q.second;
                Case c;
                r = exec(q.first, s, sl, c);
            }
            _exit(r == 1 ? 77 : 0);
        }
        int st = 0;
        double t0 = nowS();
        while (waitpid(p, &st, WNOHANG) != p) {
            if (nowS() - t0 > 2 * cfg.caseLimit) { kill(p, SIGKILL); waitpid(p, &st, 0); return "hang"; }
            usleep(300);
        }
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return "";
        if (WIFEXITED(st) && WEXITSTATUS(st) == 77) { if (msg) *msg = sl->msg; return sl->sig; }
        if (msg) *msg = "the process crashed";
        return "crash";
    }

    // a failure that needs the cases run before it in the same process (state kept outside the objects)
    bool confirmSeq(int w, size_t k, const std::string &hint) {
        std::vector<std::pair<int, u64>> all;
        for (size_t i = 0; i <= k; i++)
            if ((int)(i % cfg.workers) == w) all.push_back({plan[i].first, caseSeed(plan[i].first, plan[i].second)});
        for (size_t len : {2u, 3u, 5u, 9u, 17u, 65u, 257u}) {
            size_t from = all.size() > len ? all.size() - len : 0;
            std::vector<std::pair<int, u64>> seq(all.begin() + from, all.end());
            std::string msg, sig = forkedSeq(seq, &msg);
            if (sig.empty() || isKnown(sig)) { if (!from) break; continue; }
            bool stable = true;
            for (int i = 0; i < 2 && stable; i++) stable = forkedSeq(seq, &msg) == sig;
            if (!stable) continue;
            for (size_t i = 0; i + 1 < seq.size() && seq.size() > 2;) {  // drop cases that are not needed
                auto c = seq;
                c.erase(c.begin() + i);
                if (forkedSeq(c, &msg) == sig) seq = c; else i++;
            }
            std::string path = cfg.replayDir + "/" + cfg.id + "-sequence.replay";
            std::ofstream o(path, std::ios::trunc);
            std::replace(msg.begin(), msg.end(), '\n', ' ');
            o << "property " << cfg.id << "\nsignature " << sig << "\nmessage " << msg << "\n";
            for (auto &q : seq) o << "case " << targets[q.first].name << " " << q.second << "\n";
            printf("counterexample property=%s [%s] needs %zu consecutive cases in one process: %s\n", cfg.id.c_str(), sig.c_str(), seq.size(), msg.c_str());
            printf("VIOLATION property=%s replay=%s\n", cfg.id.c_str(), path.c_str());
            violations.push_back(path);
            return true;
        }
        return false;
    }

    void initSlots() {
        void *m = mmap(nullptr, sizeof(Slot) * (cfg.workers + 1), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        if (m == MAP_FAILED) { perror("mmap"); exit(3); }
        slots = (Slot *)m;
    }

    void readKnown() {
        std::ifstream in(cfg.knownFile);
        std::string line;
        while (std::getline(in, line)) {
            std::string p = "finding: property=" + cfg.id + " sig=";
            if (line.rfind(p, 0) == 0) {
                std::string r = line.substr(p.size());
                size_t k = r.find(' ');
                known.push_back({r.substr(0, k), k == std::string::npos ? "" : r.substr(k + 1)});
            }
        }
    }

    int run() {
        double t0 = nowS();
        readKnown();
        initSlots();
        if (!cfg.replayFile.empty()) return doReplay();
        bool thorough = cfg.tier != "quick";
        std::vector<u64> cnt(targets.size());
        u64 total = 0;
        for (size_t t = 0; t < targets.size(); t++) {
            cnt[t] = (u64)std::ceil((thorough ? targets[t].thorough : targets[t].quick) * cfg.scale);
            if (!cfg.only.empty() && targets[t].name != cfg.only) cnt[t] = 0;
            total += cnt[t];
        }
        // interleave the targets proportionally so a time cap cuts all of them alike
        std::vector<std::pair<double, std::pair<int, u64>>> pl;
        for (size_t t = 0; t < targets.size(); t++)
            for (u64 i = 0; i < cnt[t]; i++) pl.push_back({(i + 0.5) / cnt[t], {(int)t, i}});
        std::stable_sort(pl.begin(), pl.end(), [](auto &a, auto &b) { return a.first < b.first; });
        for (auto &p : pl) plan.push_back(p.second);
        pl.clear();
        double budget = cfg.budget > 0 ? cfg.budget : (thorough ? 780 : 240);
        double deadline = nowS() + budget;

        std::vector<pid_t> pid(cfg.workers, -1);
        auto spawn = [&](int w, size_t at) {
            fflush(nullptr);
            slots[w].started.store(0);
            pid_t p = fork();
            if (p == 0) { quietChild(); workerLoop(w, at, deadline); _exit(0); }
            pid[w] = p;
        };
        for (int w = 0; w < cfg.workers; w++) { unlink(statFile(w).c_str()); spawn(w, 0); }
        int alive = cfg.workers;
        bool bad = false;
        int flaky = 0;
        auto killAll = [&]() {
            for (int w = 0; w < cfg.workers; w++)
                if (pid[w] > 0) { kill(pid[w], SIGKILL); waitpid(pid[w], nullptr, 0); pid[w] = -1; }
        };
        while (alive > 0 && !bad) {
            int st;
            bool any = false;
            for (int w = 0; w < cfg.workers && !bad; w++) {
                if (pid[w] < 0) continue;
                pid_t r = waitpid(pid[w], &st, WNOHANG);
                bool hang = false;
                if (r == 0) {
                    double s = slots[w].started.load();
                    if (s > 0 && nowS() - s > cfg.caseLimit) { kill(pid[w], SIGKILL); waitpid(pid[w], &st, 0); hang = true; }
                    else continue;
                }
                any = true;
                pid[w] = -1;
                alive--;
                if (!hang && WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
                size_t k = slots[w].idx.load();
                int t = plan[k].first;
                u64 idx = plan[k].second;
                std::string sig = hang ? "hang" : (WIFEXITED(st) && WEXITSTATUS(st) == 77) ? slots[w].sig : "crash";
                std::string msg = slots[w].msg;
                if (isKnown(sig)) knownSeen.insert(sig);
                else {
                    if (confirm(t, nullptr, caseSeed(t, idx), sig)) bad = true;
                    else if (confirmSeq(w, k, sig)) bad = true;
                    else flaky++;
                }
                if (!bad) { spawn(w, k + 1); alive++; }
            }
            if (!any) usleep(2000);
        }
        killAll();
        std::vector<Stats> S(targets.size());
        for (int w = 0; w < cfg.workers; w++) loadStats(w, S);
        u64 ev = 0, nt = 0;
        for (size_t t = 0; t < targets.size(); t++) {
            ev += S[t].evals;
            nt += S[t].distinct.size();
            printf("  target %-28s cases=%llu nontrivial=%llu distinct=%zu discarded=%llu", targets[t].name.c_str(), (unsigned long long)S[t].evals,
                   (unsigned long long)S[t].nontriv, S[t].distinct.size(), (unsigned long long)S[t].discards);
            for (auto &l : S[t].labels) printf(" %s=%llu", l.first.c_str(), (unsigned long long)l.second);
            printf("\n");
        }
        if (!bad && cfg.only.empty())
            for (size_t t = 0; t < targets.size(); t++)
                if (S[t].evals >= 50 && S[t].nontriv < targets[t].minNontrivial * S[t].evals) {
                    std::string path = cfg.replayDir + "/" + cfg.id + "-" + targets[t].name + ".vacuous";
                    std::ofstream o(path);
                    o << "property " << cfg.id << "\ntarget " << targets[t].name << "\nonly " << S[t].nontriv << " of " << S[t].evals
                      << " generated cases reached: " << targets[t].rule << "\n";
                    printf("counterexample property=%s target=%s: only %llu of %llu generated cases reached: %s (at least %.0f%% do when the property holds)\n", cfg.id.c_str(),
                           targets[t].name.c_str(), (unsigned long long)S[t].nontriv, (unsigned long long)S[t].evals, targets[t].rule.c_str(), 100 * targets[t].minNontrivial);
                    printf("VIOLATION property=%s replay=%s\n", cfg.id.c_str(), path.c_str());
                    violations.push_back(path);
                    bad = true;
                }
        for (auto &k : known)
            if (knownSeen.count(k.first)) printf("KNOWN-FINDING: property=%s %s %s\n", cfg.id.c_str(), k.first.c_str(), k.second.c_str());
        double wall = nowS() - t0;
        std::ofstream o(cfg.evidence + ".tmp", std::ios::trunc);
        o << "{\n \"property\": \"" << cfg.id << "\",\n \"tier\": \"" << (thorough ? "thorough" : "quick") << "\",\n \"seed\": " << cfg.seed << ",\n \"level\": \"exploration\",\n";
        o << " \"coverage\": {\n  \"evaluations\": " << ev << ",\n  \"distinct_nontrivial\": " << nt << ",\n  \"rule\": \"";
        std::string rule = ruleText;
        for (auto &t : targets) rule += (rule.empty() ? "" : " ") + std::string("[") + t.name + "] " + t.rule + ".";
        o << jesc(rule) << "\",\n  \"samples\": [";
        bool first = true;
        for (size_t t = 0; t < targets.size(); t++)
            for (auto &s : S[t].samples) { o << (first ? "" : ",") << "\n   \"" << jesc("[" + targets[t].name + "] " + s) << "\""; first = false; }
        o << "\n  ],\n  \"per_target\": {";
        for (size_t t = 0; t < targets.size(); t++) {
            o << (t ? "," : "") << "\n   \"" << jesc(targets[t].name) << "\": {\"evaluations\": " << S[t].evals << ", \"nontrivial\": " << S[t].nontriv << ", \"distinct_nontrivial\": " << S[t].distinct.size()
              << ", \"discarded\": " << S[t].discards << ", \"labels\": {";
            bool f = true;
            for (auto &l : S[t].labels) { o << (f ? "" : ", ") << "\"" << jesc(l.first) << "\": " << l.second; f = false; }
            o << "}}";
        }
        o << "\n  },\n  \"unreproduced_failures\": " << flaky << "\n },\n \"assumptions\": [";
        for (size_t i = 0; i < assumptions.size(); i++) o << (i ? ", " : "") << "\"" << jesc(assumptions[i]) << "\"";
        o << "],\n \"violations\": [";
        for (size_t i = 0; i < violations.size(); i++) o << (i ? ", " : "") << "\"" << jesc(violations[i]) << "\"";
        o << "],\n \"wall_s\": " << fmt("%.3f", wall) << "\n}\n";
        o.close();
        rename((cfg.evidence + ".tmp").c_str(), cfg.evidence.c_str());
        printf("%s property=%s tier=%s seed=%llu cases=%llu distinct_nontrivial=%llu wall=%.1fs\n", bad ? "FAILED" : "OK", cfg.id.c_str(), cfg.tier.c_str(),
               (unsigned long long)cfg.seed, (unsigned long long)ev, (unsigned long long)nt, wall);
        if (!bad && (!ev || !o)) { printf("no case was recorded or the evidence could not be written\n"); return 2; }
        return bad ? 1 : 0;
    }
};

inline Config parseArgs(int argc, char **argv, const std::string &id) {
    Config c;
    c.id = id;
    if (const char *s = getenv("VERIF_SEED")) c.seed = strtoull(s, nullptr, 10);
    if (const char *s = getenv("PBT_SCALE")) c.scale = atof(s);
    if (const char *s = getenv("PBT_WORKERS")) c.workers = atoi(s);
    if (const char *s = getenv("PBT_BUDGET")) c.budget = atof(s);
    for (int i = 1; i + 1 < argc; i += 2) {
        std::string k = argv[i], v = argv[i + 1];
        if (k == "--tier") c.tier = v;
        else if (k == "--evidence") c.evidence = v;
        else if (k == "--replay-dir") c.replayDir = v;
        else if (k == "--replay") c.replayFile = v;
        else if (k == "--known") c.knownFile = v;
        else if (k == "--only") c.only = v;
    }
    if (c.evidence.empty()) c.evidence = "/dev/shm/evidence-" + id + ".json";
    if (c.replayDir.empty()) c.replayDir = ".";
    return c;
}
}  // namespace pbt

// Each check defines PBT_ID and a function registering its targets.
void pbt_register(pbt::Runner &r);

#ifndef PBT_FUZZER
#define PBT_MAIN(ID)                                                            \
    int main(int argc, char **argv) {                                           \
        setvbuf(stdout, nullptr, _IOLBF, 0);                                    \
        struct rlimit rl = {0, 0};                                              \
        setrlimit(RLIMIT_CORE, &rl);                                            \
        pbt::Runner r;                                                          \
        r.cfg = pbt::parseArgs(argc, argv, ID);                                 \
        pbt_register(r);                                                        \
        return r.run();                                                         \
    }
#else
// coverage-guided build: the first byte selects the target
#define PBT_MAIN(ID)                                                            \
    static pbt::Runner *g_runner;                                               \
    extern "C" int LLVMFuzzerInitialize(int *, char ***) {                      \
        g_runner = new pbt::Runner;                                             \
        char *av[1] = {(char *)"fuzz"};                                         \
        g_runner->cfg = pbt::parseArgs(1, av, ID);                              \
        if (const char *k = getenv("PBT_KNOWN")) g_runner->cfg.knownFile = k;   \
        if (const char *k = getenv("PBT_ONLY")) g_runner->cfg.only = k;         \
        pbt_register(*g_runner);                                                \
        g_runner->readKnown();                                                  \
        g_runner->initSlots();                                                  \
        return 0;                                                               \
    }                                                                           \
    extern "C" int LLVMFuzzerTestOneInput(const uint8_t *d, size_t n) {         \
        if (n < 2) return -1;                                                   \
        pbt::Slot *sl = g_runner->slots;                                        \
        pbt::Src s;                                                             \
        s.bytes = d + 1;                                                        \
        s.bytesN = n - 1;                                                       \
        pbt::Case c;                                                            \
        int t = d[0] % g_runner->targets.size();                                \
        int r = g_runner->exec(t, s, sl, c);                                    \
        if (r == 1 && !g_runner->isKnown(sl->sig)) {                            \
            std::vector<pbt::u64> ch(sl->rec, sl->rec + std::min<pbt::u64>(sl->n.load(), pbt::REC_CAP)); \
            if (const char *o = getenv("PBT_FUZZ_OUT"))                         \
                g_runner->writeReplay(o, t, ch, sl->sig, sl->msg, 0);           \
            abort();                                                            \
        }                                                                       \
        return 0;                                                               \
    }
#endif
