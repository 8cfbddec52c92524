// Runs a body in several threads at once, repeatedly, in a child process, so that every way of going wrong (another
// outcome, a crash, a hang) is the same failure.
#pragma once
#include <atomic>
#include <functional>
#include <string>
#include <thread>
#include <vector>
#include <signal.h>
#include <sys/wait.h>
#include <unistd.h>

namespace conc {
// body(thread, round) returns a description of what is wrong, or nothing
inline std::string run(int threads, int rounds, const std::function<std::string(int, int)> &body) {
    int fd[2];
    if (pipe(fd)) return "";
    fflush(nullptr);
    pid_t p = fork();
    if (p < 0) { close(fd[0]); close(fd[1]); return ""; }
    if (!p) {
        close(fd[0]);
        alarm(60);
        std::vector<std::string> bad(threads);
        std::atomic<int> ready{0};
        std::vector<std::thread> ts;
        for (int i = 0; i < threads; i++)
            ts.emplace_back([&, i] {
                for (int r = 0; r < rounds; r++) {
                    ready++;
                    while (ready.load() < threads * (r + 1)) std::this_thread::yield();
                    if (!bad[i].empty()) continue;
                    try { bad[i] = body(i, r); }
                    catch (const std::exception &e) { bad[i] = std::string("exception: ") + e.what(); }
                    catch (...) { bad[i] = "exception"; }
                }
            });
        for (auto &t : ts) t.join();
        for (auto &b : bad) if (!b.empty()) { (void)!write(fd[1], b.data(), b.size()); break; }
        _exit(0);
    }
    close(fd[1]);
    std::string out;
    char buf[4096];
    for (ssize_t n; (n = read(fd[0], buf, sizeof buf)) > 0;) out.append(buf, (size_t)n);
    close(fd[0]);
    int st = 0;
    waitpid(p, &st, 0);
    if (out.empty() && !(WIFEXITED(st) && WEXITSTATUS(st) == 0)) out = WIFSIGNALED(st) ? "ended by signal " + std::to_string(WTERMSIG(st)) : "ended with an error";
    return out;
}
}  // namespace conc
