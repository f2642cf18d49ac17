// Common driver for every bounded-exhaustive harness.
// A harness walks a finite, deterministic sequence of cases.  Case numbers are stable, so that a
// case can be executed by shard (index % nshards), skipped, or replayed alone (--only N).
#ifndef VF_H
#define VF_H
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <functional>
#include <sstream>
#include <fstream>
#include <iostream>
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>

namespace vf {
    struct Shm { volatile long cur; volatile long done; volatile long beat; char note[4096]; };

    struct State {
        int shard = 0, nshards = 1;
        bool thorough = false;
        long only = -1, from = 0, upto = -1;
        std::string out, shmfile;
        std::set<long> skip;
        std::string cls_only;
        long idx = -1;
        bool listing = false;
        Shm local;
        Shm *shm = &local;
        long evaluations = 0;
        long transitions = 0;
        long skipped_domain = 0;
        std::unordered_set<uint64_t> states;
        std::map<std::string, long> classes;   // evaluations per named class
        std::vector<std::string> samples;
        struct Fail { long idx; std::string key, msg, desc; };
        std::vector<Fail> fails;
        std::map<std::string, int> fail_count;
        std::string cls;
        std::function<std::string()> desc;
        bool capped = false;
        std::map<std::string, std::string> notes;
        unsigned long seed = 1;
        std::string mode;
    };
    inline State &S() { static State s; return s; }

    inline std::string esc(const std::string &s) {
        std::string o;
        for (unsigned char c : s) {
            if (c == '"' || c == '\\') { o += '\\'; o += c; }
            else if (c == '\n') o += "\\n";
            else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
            else o += c;
        }
        return o;
    }
    inline uint64_t hash_bytes(const void *p, size_t n, uint64_t h = 1469598103934665603ULL) {
        auto b = (const unsigned char *) p;
        for (size_t i = 0; i < n; ++i) { h ^= b[i]; h *= 1099511628211ULL; }
        return h;
    }
    inline uint64_t hash_str(const std::string &s, uint64_t h = 1469598103934665603ULL) { return hash_bytes(s.data(), s.size(), h); }

    // Starts the next case.  Returns false if this process does not execute it.
    inline bool take(const std::string &cls, const std::function<std::string()> &desc) {
        auto &s = S();
        if (!s.cls_only.empty() && cls.compare(0, s.cls_only.size(), s.cls_only)) return false;
        ++s.idx;
        if (s.only >= 0 && s.idx != s.only) return false;
        if (s.only < 0) {
            if (s.idx % s.nshards != s.shard) return false;
            if (s.idx < s.from) return false;
            if (s.upto >= 0 && s.idx > s.upto) return false;
            if (!s.skip.empty() && s.skip.count(s.idx)) return false;
        }
        s.cls = cls;
        s.desc = desc;
        s.shm->cur = s.idx;
        s.shm->beat = s.shm->beat + 1;
        ++s.evaluations;
        ++s.classes[cls];
        if (s.only >= 0) {
            auto d = cls + " :: " + desc();
            fprintf(stderr, "CASE %ld %s\n", s.idx, d.c_str());
            snprintf(s.shm->note, sizeof s.shm->note, "%s", d.c_str());
        }
        if (s.classes[cls] == 1 && s.samples.size() < 40) s.samples.push_back(cls + " :: " + desc());
        return true;
    }
    inline void beat() { S().shm->beat = S().shm->beat + 1; }
    // records an observed state / outcome
    inline bool state(uint64_t h) { return S().states.insert(h).second; }
    inline bool state(const std::string &str) { return state(hash_str(str)); }
    inline void step(long n = 1) { S().transitions += n; S().shm->beat = S().shm->beat + 1; }

    // key: a stable name for what failed (class of input / call site); msg: details
    inline void fail(const std::string &key, const std::string &msg) {
        auto &s = S();
        auto d = s.desc ? s.desc() : std::string();
        if (s.only >= 0) fprintf(stderr, "FAIL key=%s %s\n", key.c_str(), msg.c_str());
        if (++s.fail_count[key] <= 2 && s.fails.size() < 400) s.fails.push_back({s.idx, key, msg, s.cls + " :: " + d});
    }

    inline void finish() {
        auto &s = S();
        if (s.out.empty()) {
            for (auto &f : s.fails) printf("FAIL idx=%ld key=%s\n   case: %s\n   %s\n", f.idx, f.key.c_str(), f.desc.c_str(), f.msg.c_str());
            for (auto &c : s.classes) printf("class %-40s %ld\n", c.first.c_str(), c.second);
            printf("evaluations=%ld states=%zu transitions=%ld fails=%zu total=%ld\n", s.evaluations, s.states.size(), s.transitions, s.fails.size(), s.idx + 1);
            return;
        }
        std::ostringstream o;
        o << "{\"total\":" << s.idx + 1 << ",\"evaluations\":" << s.evaluations << ",\"transitions\":" << s.transitions
          << ",\"skipped\":" << s.skipped_domain << ",\"capped\":" << (s.capped ? "true" : "false") << ",\"classes\":{";
        bool first = true;
        for (auto &c : s.classes) { o << (first ? "" : ",") << "\"" << esc(c.first) << "\":" << c.second; first = false; }
        o << "},\"notes\":{";
        first = true;
        for (auto &c : s.notes) { o << (first ? "" : ",") << "\"" << esc(c.first) << "\":\"" << esc(c.second) << "\""; first = false; }
        o << "},\"samples\":[";
        first = true;
        for (auto &c : s.samples) { o << (first ? "" : ",") << "\"" << esc(c.substr(0, 600)) << "\""; first = false; }
        o << "],\"fails\":[";
        first = true;
        for (auto &f : s.fails) {
            o << (first ? "" : ",") << "{\"idx\":" << f.idx << ",\"key\":\"" << esc(f.key) << "\",\"msg\":\"" << esc(f.msg.substr(0, 1500))
              << "\",\"desc\":\"" << esc(f.desc.substr(0, 1500)) << "\"}";
            first = false;
        }
        o << "],\"fail_count\":{";
        first = true;
        for (auto &c : s.fail_count) { o << (first ? "" : ",") << "\"" << esc(c.first) << "\":" << c.second; first = false; }
        o << "}}\n";
        std::ofstream f(s.out + ".tmp");
        f << o.str();
        f.close();
        std::ofstream g(s.out + ".states", std::ios::binary);
        for (auto h : s.states) g.write((const char *) &h, 8);
        g.close();
        rename((s.out + ".tmp").c_str(), s.out.c_str());
    }

    inline void parse(int argc, const char **argv) {
        auto &s = S();
        for (int i = 1; i < argc; ++i) {
            std::string a = argv[i];
            auto next = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
            if (a == "--shard") s.shard = atoi(next().c_str());
            else if (a == "--nshards") s.nshards = atoi(next().c_str());
            else if (a == "--tier") s.thorough = next() == "thorough";
            else if (a == "--only") s.only = atol(next().c_str());
            else if (a == "--from") s.from = atol(next().c_str());
            else if (a == "--upto") s.upto = atol(next().c_str());
            else if (a == "--out") s.out = next();
            else if (a == "--shm") s.shmfile = next();
            else if (a == "--mode") s.mode = next();
            else if (a == "--class") s.cls_only = next();   // only classes that begin so
            else if (a == "--seed") s.seed = strtoul(next().c_str(), nullptr, 10);
            else if (a == "--skip") { std::istringstream is(next()); std::string t; while (std::getline(is, t, ',')) if (!t.empty()) s.skip.insert(atol(t.c_str())); }
        }
        memset((void *) &s.local, 0, sizeof s.local);
        s.local.cur = -1;
        if (!s.shmfile.empty()) {
            int fd = open(s.shmfile.c_str(), O_RDWR | O_CREAT, 0600);
            if (fd >= 0 && ftruncate(fd, sizeof(Shm)) == 0) {
                auto p = mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
                if (p != MAP_FAILED) { s.shm = (Shm *) p; s.shm->cur = -1; s.shm->beat = 0; }
                close(fd);
            }
        }
    }
}
#endif
