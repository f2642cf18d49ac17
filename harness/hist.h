// Walks every operation sequence of a given length over a fixed alphabet, re-executing each from a fresh system.
#ifndef VF_HIST_H
#define VF_HIST_H
#include "vf.h"
namespace vf {
    struct Hist {
        int nops = 0;
        std::function<void()> reset;
        std::function<std::string(int)> name;
        // performs the operation on the real system and on the model and compares them; "" when they agree
        std::function<std::string(int)> apply;
        // identity of the model state, for counting (0: not counted)
        std::function<uint64_t()> hash;
        // operations that may follow (by the model): false = skip this subtree
        std::function<bool(int)> enabled;
        std::function<void()> after;   // called when a sequence is finished (e.g. tear down checks)
        std::string str(const std::vector<int> &q, size_t n) const { std::string s; for (size_t i = 0; i < n; ++i) s += (i ? "; " : "") + name(q[i]); return s; }
        // executes q[0..len); returns number of operations performed before a disagreement or disabled operation
        enum Res { FINE, BAD, CUT };
        Res exec(const std::vector<int> &q, size_t len, size_t &at) {
            reset();
            for (at = 0; at < len; ++at) {
                if (S().only >= 0) snprintf(S().shm->note, sizeof S().shm->note, "%s :: %s", S().cls.c_str(), str(q, at + 1).c_str());
                if (enabled && !enabled(q[at])) { if (after) after(); return CUT; }
                auto e = apply(q[at]);
                step();
                if (hash) state(hash());
                if (!e.empty()) { fail("history:" + str(q, at + 1), e + " | after: " + str(q, at + 1)); if (after) after(); return BAD; }
            }
            if (after) after();
            return FINE;
        }
        void walk(const std::string &cls, int depth, int split = 2) {
            if (split > depth) split = depth;
            std::vector<int> p(split, 0);
            while (true) {
                if (take(cls, [&] { return str(p, split) + " and every continuation to length " + std::to_string(depth); })) {
                    std::vector<int> q(depth, 0);
                    for (int i = 0; i < split; ++i) q[i] = p[i];
                    long bad = 0;
                    --S().evaluations;
                    while (true) {
                        size_t at = 0;
                        ++S().evaluations;
                        auto r = exec(q, depth, at);
                        int i = depth - 1;
                        if (r != FINE) {
                            if (r == BAD && ++bad >= 3) break;
                            if (int(at) < i) { i = int(at); for (int j = i + 1; j < depth; ++j) q[j] = 0; }
                        }
                        for (; i >= split; --i) { if (++q[i] < nops) break; q[i] = 0; }
                        if (i < split) break;
                    }
                }
                int i = split - 1;
                for (; i >= 0; --i) { if (++p[i] < nops) break; p[i] = 0; }
                if (i < 0) break;
            }
        }
    };
}
#endif
