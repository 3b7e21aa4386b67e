// Bounded exhaustive explorer used by every harness.
//
// A harness declares the *units* of its finite space (unit = a named, self-contained slice of the
// enumeration).  The explorer runs every unit in a fresh forked process (so a unit always starts
// from the same state), counts states / transitions / distinct outcomes, and turns a failed
// comparison, an uncaught exception, a crash, a sanitizer report or a hang into a finding.
// Every finding is replayed in another fresh process before it is reported.
#pragma once
#include <algorithm>
#include <atomic>
#include <chrono>
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <unistd.h>
#ifndef MC_THREADS
#include <oneapi/tbb/global_control.h>
#endif

namespace mc
{
    struct Unit
    {
        std::string name;
        std::function<void()> run;
    };

    constexpr int kMaxFail = 64;
    constexpr int kMsg = 1600;
    constexpr size_t kOutcomeBits = size_t(1) << 24;

    struct FailRec
    {
        char key[256];
        char msg[kMsg];
    };

    // Memory shared between the parent and one child slot
    struct Slot
    {
        uint64_t states, transitions, traces;
        int nfail;        // distinct keys recorded
        uint64_t failTotal;
        int nsample;
        char cur[kMsg];   // description of the case being executed
        char note[kMsg];
        char sample[2][kMsg];
        FailRec fail[kMaxFail];
        int done;
    };

    struct Global
    {
        std::atomic<uint64_t> outcome[kOutcomeBits / 64];
    };

    inline Slot *g_slot = nullptr;
    inline Global *g_glob = nullptr;
    inline bool g_thorough = false;
    inline bool g_verbose = false;

    inline bool thorough() { return g_thorough; }

    inline void state(uint64_t n = 1) { g_slot->states += n; }
    inline void step(uint64_t n = 1) { g_slot->transitions += n; }
    inline void trace(uint64_t n = 1) { g_slot->traces += n; }

    inline uint64_t mix(uint64_t h, uint64_t v)
    {
        h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
        h *= 0xff51afd7ed558ccdull;
        h ^= h >> 32;
        return h;
    }
    inline uint64_t mixd(uint64_t h, double d)
    {
        // rounded so that the count of outcomes is about values, not noise
        return mix(h, (uint64_t)(int64_t)std::llround(std::clamp(d, -1e9, 1e9) * 1e6));
    }
    inline void outcome(uint64_t h)
    {
        h = mix(0x1234567, h) % kOutcomeBits;
        g_glob->outcome[h / 64].fetch_or(uint64_t(1) << (h % 64), std::memory_order_relaxed);
    }

    // name the case being executed (used when the process dies, and as prefix of failures)
    inline void at(const char *fmt, ...)
    {
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(g_slot->cur, kMsg, fmt, ap);
        va_end(ap);
    }
    inline void sample()
    {
        if (g_slot->nsample < 2)
        {
            snprintf(g_slot->sample[g_slot->nsample++], kMsg, "%s", g_slot->cur);
        }
    }
    inline void sample_text(const std::string &s)
    {
        if (g_slot->nsample < 2)
            snprintf(g_slot->sample[g_slot->nsample++], kMsg, "%s", s.c_str());
    }

    // key: identity of the failure inside the unit (one report per key)
    inline void fail(const std::string &key, const char *fmt, ...)
    {
        g_slot->failTotal++;
        for (int i = 0; i < g_slot->nfail; i++)
            if (key == g_slot->fail[i].key)
                return;
        if (g_slot->nfail >= kMaxFail)
            return;
        auto &f = g_slot->fail[g_slot->nfail++];
        snprintf(f.key, sizeof f.key, "%s", key.c_str());
        int n = snprintf(f.msg, kMsg, "[%s] ", g_slot->cur);
        if (n < kMsg)
        {
            va_list ap;
            va_start(ap, fmt);
            vsnprintf(f.msg + n, kMsg - n, fmt, ap);
            va_end(ap);
        }
        if (g_verbose)
            fprintf(stderr, "FAIL %s: %s\n", f.key, f.msg);
    }

    inline std::string jesc(const std::string &s)
    {
        std::string o;
        for (unsigned char c : s)
        {
            if (c == '"' || c == '\\')
            {
                o += '\\';
                o += c;
            }
            else if (c < 0x20 || c >= 0x7f)
            {
                char b[8];
                snprintf(b, 8, "\\u%04x", c);
                o += b;
            }
            else
                o += c;
        }
        return o;
    }

    struct Finding
    {
        std::string unit, key, msg;
    };

    struct Result
    {
        bool ok = false;      // child ended normally
        std::string death;    // how it ended otherwise
    };

    inline Slot *shalloc()
    {
        void *p = mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        if (p == MAP_FAILED)
        {
            perror("mmap");
            exit(3);
        }
        return (Slot *)p;
    }

    inline pid_t start_unit(const Unit &u, Slot *slot, const std::string &logf)
    {
        memset((void *)slot, 0, sizeof(Slot));
        fflush(stdout);
        fflush(stderr);
        pid_t pid = fork();
        if (pid < 0)
        {
            perror("fork");
            exit(3);
        }
        if (pid == 0)
        {
            setpgid(0, 0);
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            if (!g_verbose)
            {
                int fd = open(logf.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644);
                if (fd >= 0)
                {
                    dup2(fd, 1);
                    dup2(fd, 2);
                }
            }
            g_slot = slot;
#ifndef MC_THREADS
            // units already run in parallel: the library's parallel algorithms stay in this thread
            tbb::global_control serial(tbb::global_control::max_allowed_parallelism, 1);
#endif
            try
            {
                u.run();
            }
            catch (const std::exception &e)
            {
                fail("uncaught-exception", "uncaught exception: %s", e.what());
            }
            catch (...)
            {
                fail("uncaught-exception", "uncaught exception of unknown type");
            }
            slot->done = 1;
            fflush(stdout);
            fflush(stderr);
            _exit(0);
        }
        return pid;
    }

    inline std::string tail(const std::string &path, size_t n = 500)
    {
        std::ifstream f(path);
        std::stringstream ss;
        ss << f.rdbuf();
        auto s = ss.str();
        // keep the sanitizer summary when there is one
        auto p = s.find("ERROR: AddressSanitizer");
        if (p == std::string::npos)
            p = s.find("runtime error:");
        if (p == std::string::npos)
            p = s.find("WARNING: ThreadSanitizer");
        if (p != std::string::npos)
            return s.substr(p, n);
        return s.size() > n ? s.substr(s.size() - n) : s;
    }

    struct Outcome
    {
        std::vector<Finding> findings;
        bool interrupted = false;
    };

    inline std::vector<Finding> collect(const Unit &u, Slot *s, int status, bool hung, const std::string &logf)
    {
        std::vector<Finding> r;
        for (int i = 0; i < s->nfail; i++)
            r.push_back({u.name, s->fail[i].key, s->fail[i].msg});
        if (hung)
            r.push_back({u.name, "hang", std::string("no termination within the unit time limit; executing: ") + s->cur});
        else if (!s->done)
        {
            std::stringstream ss;
            if (WIFSIGNALED(status))
                ss << "killed by signal " << WTERMSIG(status);
            else
                ss << "exit status " << WEXITSTATUS(status);
            ss << " while executing: " << s->cur << " | " << tail(logf);
            r.push_back({u.name, "crash", ss.str()});
        }
        return r;
    }

    inline int run_main(int argc, char **argv, std::function<std::vector<Unit>()> make_units)
    {
        std::string out, only, workdir = "/tmp";
        int jobs = 8;
        double unit_limit = 300, budget = 0;
        bool list = false;
        for (int i = 1; i < argc; i++)
        {
            std::string a = argv[i];
            auto next = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
            if (a == "--out") out = next();
            else if (a == "--tier") g_thorough = next() == "thorough";
            else if (a == "--jobs") jobs = std::stoi(next());
            else if (a == "--unit") only = next();
            else if (a == "--limit") unit_limit = std::stod(next());
            else if (a == "--budget") budget = std::stod(next());
            else if (a == "--workdir") workdir = next();
            else if (a == "--verbose") g_verbose = true;
            else if (a == "--list") list = true;
        }
        g_glob = (Global *)mmap(nullptr, sizeof(Global), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        g_slot = shalloc(); // units may be built with code calling counters
        auto units = make_units();
        {
            std::set<std::string> names;
            for (auto &u : units)
                if (!names.insert(u.name).second)
                {
                    fprintf(stderr, "duplicate unit %s\n", u.name.c_str());
                    return 3;
                }
        }
        if (list)
        {
            for (auto &u : units) printf("%s\n", u.name.c_str());
            return 0;
        }
        if (!only.empty())
        {
            std::vector<Unit> sel;
            for (auto &u : units)
                if (u.name == only) sel.push_back(u);
            if (sel.empty())
            {
                fprintf(stderr, "no unit named %s\n", only.c_str());
                return 3;
            }
            units = sel;
        }
        struct Job
        {
            pid_t pid = 0;
            size_t unit = 0;
            std::chrono::steady_clock::time_point t0;
            Slot *slot = nullptr;
            std::string log;
            bool hung = false;
        };
        std::vector<Job> js(std::max(1, jobs));
        for (size_t i = 0; i < js.size(); i++)
        {
            js[i].slot = shalloc();
            js[i].log = workdir + "/unit." + std::to_string(getpid()) + "." + std::to_string(i) + ".log";
        }
        size_t next = 0, finished = 0;
        uint64_t states = 0, transitions = 0, traces = 0, failTotal = 0;
        std::vector<std::string> samples;
        std::vector<Finding> findings;
        auto T0 = std::chrono::steady_clock::now();
        bool capped = false;
        size_t nfailing_units = 0;
        double slowest = 0;
        std::string slowest_name;
        while (true)
        {
            size_t running = 0;
            for (auto &j : js)
            {
                if (!j.pid && next < units.size())
                {
                    double el = std::chrono::duration<double>(std::chrono::steady_clock::now() - T0).count();
                    if (budget > 0 && el > budget) { capped = true; next = units.size(); continue; }
                    // enough evidence: every further unit would only repeat findings
                    if (nfailing_units >= 40) { capped = true; next = units.size(); continue; }
                    j.unit = next++;
                    j.hung = false;
                    j.t0 = std::chrono::steady_clock::now();
                    j.pid = start_unit(units[j.unit], j.slot, j.log);
                }
                if (j.pid) running++;
            }
            if (!running) break;
            bool any = false;
            for (auto &j : js)
            {
                if (!j.pid) continue;
                int st = 0;
                pid_t r = waitpid(j.pid, &st, WNOHANG);
                double el = std::chrono::duration<double>(std::chrono::steady_clock::now() - j.t0).count();
                if (r == 0)
                {
                    if (el > unit_limit)
                    {
                        kill(-j.pid, SIGKILL);
                        kill(j.pid, SIGKILL);
                        waitpid(j.pid, &st, 0);
                        j.hung = true;
                    }
                    else
                        continue;
                }
                any = true;
                if (el > slowest) { slowest = el; slowest_name = units[j.unit].name; }
                auto f = collect(units[j.unit], j.slot, st, j.hung, j.log);
                states += j.slot->states;
                transitions += j.slot->transitions;
                traces += j.slot->traces;
                failTotal += j.slot->failTotal;
                for (int k = 0; k < j.slot->nsample; k++)
                    if (samples.size() < 400) samples.push_back(units[j.unit].name + ": " + j.slot->sample[k]);
                if (!f.empty()) nfailing_units++;
                findings.insert(findings.end(), f.begin(), f.end());
                finished++;
                unlink(j.log.c_str());
                j.pid = 0;
            }
            if (!any) usleep(500);
        }
        // replay every finding in a fresh process
        std::vector<std::pair<Finding, bool>> confirmed;
        std::map<std::string, std::vector<Finding>> byUnit;
        for (auto &f : findings) byUnit[f.unit].push_back(f);
        size_t nrep = 0;
        for (auto &[un, fs] : byUnit)
        {
            if (++nrep > 12 && nfailing_units > 12)
            {
                // plenty confirmed already; leave the others out of the report
                break;
            }
            const Unit *u = nullptr;
            for (auto &x : units) if (x.name == un) u = &x;
            Slot *slot = js[0].slot;
            bool isHang = false;
            for (auto &f : fs) if (f.key == "hang") isHang = true;
            double lim = isHang ? unit_limit * 1.5 : unit_limit;
            std::set<std::string> again;
            for (int attempt = 0; attempt < 2; attempt++)
            {
                pid_t pid = start_unit(*u, slot, js[0].log);
                auto t0 = std::chrono::steady_clock::now();
                int st = 0;
                bool hung = false;
                while (waitpid(pid, &st, WNOHANG) == 0)
                {
                    if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > lim)
                    {
                        kill(-pid, SIGKILL);
                        kill(pid, SIGKILL);
                        waitpid(pid, &st, 0);
                        hung = true;
                        break;
                    }
                    usleep(500);
                }
                for (auto &f : collect(*u, slot, st, hung, js[0].log)) again.insert(f.key);
                bool all = true;
                for (auto &f : fs) if (!again.count(f.key)) all = false;
                if (all) break;
            }
            unlink(js[0].log.c_str());
            for (auto &f : fs) confirmed.push_back({f, again.count(f.key) > 0});
        }
        uint64_t distinct = 0;
        for (size_t i = 0; i < kOutcomeBits / 64; i++)
            distinct += __builtin_popcountll(g_glob->outcome[i].load());
        double wall = std::chrono::duration<double>(std::chrono::steady_clock::now() - T0).count();
        std::stringstream js_;
        js_ << "{\n\"units\":" << units.size() << ",\n\"units_finished\":" << finished << ",\n\"capped\":" << (capped ? "true" : "false")
            << ",\n\"states\":" << states << ",\n\"transitions\":" << transitions << ",\n\"traces\":" << traces << ",\n\"fail_total\":" << failTotal
            << ",\n\"distinct_outcomes\":" << distinct << ",\n\"wall_s\":" << wall
            << ",\n\"slowest_unit\":\"" << jesc(slowest_name) << "\",\n\"slowest_unit_s\":" << slowest << ",\n\"samples\":[";
        {
            size_t n = samples.size(), want = std::min<size_t>(n, 6);
            for (size_t k = 0; k < want; k++)
                js_ << (k ? "," : "") << "\n\"" << jesc(samples[k * (n - 1) / std::max<size_t>(1, want - 1 ? want - 1 : 1)]) << "\"";
        }
        js_ << "],\n\"findings\":[";
        for (size_t i = 0; i < confirmed.size(); i++)
            js_ << (i ? "," : "") << "\n{\"unit\":\"" << jesc(confirmed[i].first.unit) << "\",\"key\":\"" << jesc(confirmed[i].first.key)
                << "\",\"replayed\":" << (confirmed[i].second ? "true" : "false") << ",\"msg\":\"" << jesc(confirmed[i].first.msg) << "\"}";
        js_ << "]\n}\n";
        if (!out.empty())
        {
            std::ofstream f(out);
            f << js_.str();
        }
        else
            std::cout << js_.str();
        return findings.empty() ? 0 : 1;
    }
}

#define MC_MAIN(make_units_fn) \
    int main(int argc, char **argv) { return mc::run_main(argc, argv, make_units_fn); }
