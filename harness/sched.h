// Explores the schedules of a scenario: every execution is one forked child driven by a prescribed list of choices.
#ifndef VF_SCHED_H
#define VF_SCHED_H
#include "vf.h"
#include "rt_sched.h"
#include <sys/wait.h>
#include <time.h>
#include <sched.h>
namespace vf {
    struct Explorer {
        RtShm *shm;
        long schedules = 0;
        Explorer() {
            // the threads of an execution take turns: one core is enough and avoids migrations
            cpu_set_t all, one; CPU_ZERO(&all); CPU_ZERO(&one);
            if (sched_getaffinity(0, sizeof all, &all) == 0) { int k = S().shard % CPU_COUNT(&all); for (int i = 0; i < CPU_SETSIZE; ++i) if (CPU_ISSET(i, &all) && k-- == 0) { CPU_SET(i, &one); sched_setaffinity(0, sizeof one, &one); break; } }
            shm = (RtShm *) mmap(nullptr, sizeof(RtShm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); }
        struct Pt { uint8_t chosen, nopt, cost; };
        // one execution; returns its choice points
        std::vector<Pt> run(const std::vector<uint8_t> &prefix, const std::function<void()> &body, std::string &bad, std::string &trace) {
            shm->prefix_len = int(prefix.size()); if (!prefix.empty()) memcpy(shm->prefix, prefix.data(), prefix.size());
            shm->npts = 0; shm->status = 0; shm->msg[0] = 0; shm->steps = 0;
            fflush(stdout); fflush(stderr);
            pid_t p = fork();
            if (p == 0) {
                alarm(60);
                rt_begin(shm);
                try { body(); } catch (const std::exception &e) { rt_fail((std::string("exception: ") + e.what()).c_str()); }
                rt_end();
            }
            int st = 0; waitpid(p, &st, 0);
            ++schedules; ++S().evaluations; step(shm->steps);
            bad.clear();
            if (shm->status == 2) bad = shm->msg;
            else if (shm->status == 3) { bad = ""; S().notes["explorer"] = shm->msg; S().capped = true; }
            else if (WIFSIGNALED(st)) bad = "terminated by signal " + std::to_string(WTERMSIG(st));
            else if (shm->status != 1) bad = "the process ended by itself with code " + std::to_string(WEXITSTATUS(st));
            if (shm->overflow) { S().notes["explorer-overflow"] = "tables full"; S().capped = true; }
            trace = shm->trace;
            std::vector<Pt> v(shm->npts);
            for (int i = 0; i < shm->npts; ++i) v[i] = {shm->chosen[i], shm->nopt[i], shm->cost[i]};
            if (bad.empty()) state(hash_bytes(&shm->outcome, 8, hash_str(S().cls)));
            return v;
        }
        static int spent(const std::vector<Pt> &v, size_t n) { int c = 0; for (size_t i = 0; i < n; ++i) if (v[i].cost >> v[i].chosen & 1) ++c; return c; }
        // all schedules with at most `bound` preemptions, split into `buckets` cases by the place of the first deviation
        void explore(const std::string &name, int bound, int spurious, bool atomics, const std::function<void()> &body, int buckets = 16, long max_steps = 100000, bool races = true, bool delay = false) {
            for (int b = 0; b < buckets; ++b) {
                if (!take(name, [&] { return "schedules whose first deviation is at a choice point = " + std::to_string(b) + " mod " + std::to_string(buckets) + ", up to " + std::to_string(bound) + (delay ? " departures from the default schedule" : " preemptions"); })) continue;
                --S().evaluations;
                shm->spurious = spurious; shm->atomics = atomics; shm->max_steps = max_steps; shm->check_races = races; shm->delay = delay;
                std::string bad, trace; int nbad = 0;
                auto report = [&](const std::vector<uint8_t> &px) {
                    if (bad.empty()) return;
                    std::string s; for (auto c : px) s += char('0' + c);
                    ++nbad;
                    auto key = name + ":" + bad.substr(0, bad.find(" in ")).substr(0, 100);
                    for (auto &c : key) if (c >= '0' && c <= '9') c = '#';
                    fail(key, bad + " | choices " + (s.size() > 200 ? s.substr(s.size() - 200) : s) + " | trace " + trace.substr(trace.size() > 700 ? trace.size() - 700 : 0));
                };
                auto root = run({}, body, bad, trace);
                if (b == 0) report({});
                for (size_t p = b; p < root.size() && nbad < 3; p += buckets) {
                    for (int o = 1; o < root[p].nopt && nbad < 3; ++o) {
                        int c0 = spent(root, p) + (root[p].cost >> o & 1);
                        if (c0 > bound) continue;
                        std::vector<uint8_t> px; for (size_t i = 0; i < p; ++i) px.push_back(root[i].chosen);
                        px.push_back(uint8_t(o));
                        while (nbad < 3) {
                            beat();
                            auto v = run(px, body, bad, trace);
                            report(px);
                            // next: the deepest point after p with another affordable option
                            long i = long(v.size()) - 1; bool found = false;
                            for (; i > long(p) && !found; --i) {
                                int before = spent(v, i);
                                for (int q = v[i].chosen + 1; q < v[i].nopt; ++q) if (before + (v[i].cost >> q & 1) <= bound) {
                                    px.clear(); for (long j = 0; j < i; ++j) px.push_back(v[j].chosen);
                                    px.push_back(uint8_t(q)); found = true; break;
                                }
                            }
                            if (!found) break;
                        }
                    }
                }
            }
        }
    };
    inline Explorer &explorer() { static Explorer e; return e; }
    inline void sfail(const std::string &m) { rt_fail(m.c_str()); }
}
#endif
