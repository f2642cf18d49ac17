// Bounded shapes and names against std::vector and std::string; coordinates against a row-major enumeration.
#include "hist.h"
#include "ops.h"
#include <core/tensor_iterator.h>
#include <utils/otl.h>
using namespace vf;
namespace {
    typedef ts::Shape V;
    typedef std::vector<int32_t> M;
    const size_t CAP = 7;
    struct Box { int64_t lo[8]; V v; int64_t hi[8]; };
    struct Sys {
        Box a, b; M ma, mb; int next = 1;
        void reset() {
            memset((void *) &a, 0x5a, sizeof a); memset((void *) &b, 0x5a, sizeof b);
            new(&a.v) V(); new(&b.v) V(); ma.clear(); mb.clear(); next = 1;
        }
        static std::string one(const char *n, Box &x, const M &m) {
            for (int i = 0; i < 8; ++i) if (x.lo[i] != 0x5a5a5a5a5a5a5a5aLL || x.hi[i] != 0x5a5a5a5a5a5a5a5aLL) return std::string("memory outside ") + n + " was written";
            const V &c = x.v;
            if (c.size() != m.size() || c.empty() != m.empty()) return std::string(n) + " has " + std::to_string(c.size()) + " elements instead of " + std::to_string(m.size());
            if (c.capacity() != CAP) return "capacity changed";
            for (size_t i = 0; i < m.size(); ++i) if (c[i] != m[i] || x.v[int(i)] != m[i] || c[int64_t(i)] != m[i] || c.data()[i] != m[i]) return std::string(n) + "[" + std::to_string(i) + "] is " + std::to_string(c[i]) + " instead of " + std::to_string(m[i]);
            if (c.std() != m || M(c.begin(), c.end()) != m) return std::string(n) + " iterates over other elements";
            M r; for (auto it = c.rbegin(); it != c.rend(); ++it) r.push_back(*it);
            M r2; for (auto it = x.v.rbegin(); it != x.v.rend(); ++it) r2.push_back(*it);
            M e(m.rbegin(), m.rend()); if (r != e || r2 != e) return std::string(n) + " iterates backwards over other elements";
            if (!m.empty() && (c.front() != m.front() || c.back() != m.back())) return std::string(n) + " has another first or last element";
            return "";
        }
        std::string same() {
            auto e = one("a", a, ma); if (e.empty()) e = one("b", b, mb);
            if (e.empty() && ((a.v == b.v) != (ma == mb) || (a.v != b.v) != (ma != mb))) e = "comparison of the two is wrong";
            return e;
        }
        uint64_t hash() const { std::string k; for (auto i : ma) k += std::to_string(i) + ","; k += "|"; for (auto i : mb) k += std::to_string(i) + ","; return hash_str(k); }
    } Z;
    typedef std::function<std::string()> Act;
    std::vector<std::pair<std::string, Act>> A;
    void op(const std::string &n, const Act &a) { A.push_back({n, a}); }
    // f on the real one; g on the model; if the model would pass the capacity f must refuse and change nothing
    template<typename F> std::string grow(size_t newsize, F f, const std::function<void()> &g) {
        if (newsize > CAP) {
            try { f(); } catch (const std::exception &) { return Z.same(); }
            return "more elements than the capacity were accepted";
        }
        f(); g(); return Z.same();
    }
    size_t pos(int k) { return k < 0 ? Z.ma.size() : size_t(k); }

    template<size_t N> void names(const char *cls, const std::vector<std::string> &pool) {
        typedef ts::otl::string<N> T;
        if (!take(cls, [&] { return "all pairs of " + std::to_string(pool.size()) + " names"; })) return;
        struct Boxed { char lo[16]; T s; char hi[16]; };
        std::vector<T> v; std::vector<std::string> keep;
        for (auto &p : pool) {
            for (int route = 0; route < 4; ++route) {
                Boxed *x = (Boxed *) malloc(sizeof(Boxed)); memset((void *) x, 0x5a, sizeof *x);
                bool ok = true;
                try {
                    if (route == 0) new(&x->s) T(p); else if (route == 1) new(&x->s) T(p.c_str());
                    else if (route == 2) { new(&x->s) T(); x->s = p; } else { T t(p); new(&x->s) T(t); }
                } catch (const std::exception &) { ok = false; }
                ++S().evaluations;
                for (int i = 0; i < 16; ++i) if (x->lo[i] != 0x5a || x->hi[i] != 0x5a) fail("name:stray", "memory outside the name was written by \"" + p + "\"");
                if (ok != (p.size() < N)) fail("name:capacity", "\"" + p + "\" was " + (ok ? "accepted" : "refused"));
                if (ok && p.size() < N) {
                    if (x->s.std() != p || std::string(x->s.c_str()) != p || x->s.length() != p.size() || x->s.empty() != p.empty() || std::string(x->s.begin(), x->s.end()) != p) fail("name:text", "\"" + p + "\" became \"" + x->s.std() + "\"");
                    std::ostringstream o; o << x->s; if (o.str() != p) fail("name:print", "\"" + p + "\" prints as \"" + o.str() + "\"");
                    v.push_back(x->s); keep.push_back(p);
                }
                free(x);
            }
        }
        std::hash<T> h;
        std::set<std::string> seen;
        for (size_t i = 0; i < v.size(); ++i) for (size_t j = 0; j < v.size(); ++j) {
            bool eq = keep[i] == keep[j];
            step();
            if ((v[i] == v[j]) != eq || (v[i] != v[j]) == eq) { fail("name:equal", "\"" + keep[i] + "\" and \"" + keep[j] + "\": equality is wrong"); continue; }
            if (eq && h(v[i]) != h(v[j])) fail("name:hash", "equal names \"" + keep[i] + "\" with different hashes");
            bool lt = v[i] < v[j], gt = v[i] > v[j], le = v[i] <= v[j], ge = v[i] >= v[j];
            if (eq ? (lt || gt || !le || !ge) : (lt == gt || le != lt || ge != gt)) fail("name:order", "\"" + keep[i] + "\" and \"" + keep[j] + "\": the order is not a strict one");
            if (gt != (v[j] < v[i])) fail("name:order", "\"" + keep[i] + "\" and \"" + keep[j] + "\": < and > disagree");
        }
        // transitive: sorting gives a chain in which every earlier one is less
        std::vector<T> u; for (auto &x : v) if (seen.insert(x.std()).second) u.push_back(x);
        std::sort(u.begin(), u.end(), [](const T &a, const T &b) { return a < b; });
        for (size_t i = 0; i < u.size(); ++i) for (size_t j = i + 1; j < u.size(); ++j) if (!(u[i] < u[j])) fail("name:transitive", "the order of names is not transitive");
        std::map<T, int> m; for (auto &x : u) m[x] = 1; if (m.size() != u.size()) fail("name:map", "a map over names lost entries");
        for (auto &x : u) state(std::string(cls) + x.std());
    }
}
int main(int argc, const char **argv) {
    parse(argc, argv);
    quiet();
    for (int k : {-1, 0, 1}) op(k < 0 ? "insert end" : "insert [" + std::to_string(k) + "]", [k]() -> std::string {
        if (pos(k) > Z.ma.size()) return ""; int x = Z.next++;
        return grow(Z.ma.size() + 1, [&] { auto it = Z.a.v.insert(Z.a.v.begin() + pos(k), x); if (it != Z.a.v.begin() + pos(k)) throw std::logic_error("insert returns another position"); }, [&] { Z.ma.insert(Z.ma.begin() + pos(k), x); }); });
    op("insert own last at [0]", []() -> std::string {
        if (Z.ma.empty()) return ""; int x = Z.ma.back();
        return grow(Z.ma.size() + 1, [&] { const V &c = Z.a.v; Z.a.v.insert(Z.a.v.begin(), c.back()); }, [&] { Z.ma.insert(Z.ma.begin(), x); }); });
    op("push_back own first", []() -> std::string {
        if (Z.ma.empty()) return ""; int x = Z.ma.front();
        return grow(Z.ma.size() + 1, [&] { Z.a.v.push_back(Z.a.v.front()); }, [&] { Z.ma.push_back(x); }); });
    for (int k : {-1, 0, 1}) for (int n : {2, 3}) op("insert " + std::to_string(n) + " at " + (k < 0 ? std::string("end") : std::to_string(k)), [k, n]() -> std::string {
        if (pos(k) > Z.ma.size()) return ""; M x; for (int i = 0; i < n; ++i) x.push_back(Z.next++);
        return grow(Z.ma.size() + n, [&] { Z.a.v.insert(Z.a.v.begin() + pos(k), x.begin(), x.end()); }, [&] { Z.ma.insert(Z.ma.begin() + pos(k), x.begin(), x.end()); }); });
    op("insert b at end", []() -> std::string { auto x = Z.mb; return grow(Z.ma.size() + x.size(), [&] { Z.a.v.insert(Z.a.v.end(), Z.b.v.begin(), Z.b.v.end()); }, [&] { Z.ma.insert(Z.ma.end(), x.begin(), x.end()); }); });
    op("push_back", []() -> std::string { int x = Z.next++; return grow(Z.ma.size() + 1, [&] { Z.a.v.push_back(x); }, [&] { Z.ma.push_back(x); }); });
    op("emplace_back", []() -> std::string { int x = Z.next++; return grow(Z.ma.size() + 1, [&] { Z.a.v.emplace_back(x); }, [&] { Z.ma.push_back(x); }); });
    op("pop_back", []() -> std::string { if (Z.ma.empty()) return ""; Z.a.v.pop_back(); Z.ma.pop_back(); return Z.same(); });
    for (int k : {0, 1, -1}) op(k < 0 ? "erase last" : "erase [" + std::to_string(k) + "]", [k]() -> std::string {
        size_t p = k < 0 ? Z.ma.size() - 1 : size_t(k); if (Z.ma.empty() || p >= Z.ma.size()) return "";
        auto it = Z.a.v.erase(Z.a.v.begin() + p); Z.ma.erase(Z.ma.begin() + p); if (it != Z.a.v.begin() + p) return "erase returns another position"; return Z.same(); });
    for (auto r : std::vector<std::pair<int, int>>{{0, 2}, {1, 3}, {1, -1}, {0, 0}, {0, -1}}) op("erase [" + std::to_string(r.first) + "," + std::to_string(r.second) + ")", [r]() -> std::string {
        size_t i = r.first, j = pos(r.second); if (i > j || j > Z.ma.size()) return "";
        Z.a.v.erase(Z.a.v.begin() + i, Z.a.v.begin() + j); Z.ma.erase(Z.ma.begin() + i, Z.ma.begin() + j); return Z.same(); });
    for (int n : {0, 2, 5, 7, 8}) op("resize " + std::to_string(n), [n]() -> std::string { return grow(n, [&] { Z.a.v.resize(n); }, [&] { Z.ma.resize(n); }); });
    for (int n : {3, 6}) op("resize " + std::to_string(n) + " with 9", [n]() -> std::string { return grow(n, [&] { Z.a.v.resize(n, 9); }, [&] { Z.ma.resize(n, 9); }); });
    op("clear", [] { Z.a.v.clear(); Z.ma.clear(); return Z.same(); });
    op("a[0]=new", []() -> std::string { if (Z.ma.empty()) return ""; int x = Z.next++; Z.a.v[0] = x; Z.ma[0] = x; return Z.same(); });
    op("back=new", []() -> std::string { if (Z.ma.empty()) return ""; int x = Z.next++; Z.a.v.back() = x; Z.ma.back() = x; return Z.same(); });
    op("swap", [] { std::swap(Z.a.v, Z.b.v); std::swap(Z.ma, Z.mb); return Z.same(); });
    op("b=a", [] { Z.b.v = Z.a.v; Z.mb = Z.ma; return Z.same(); });
    op("a=copy of reversed", [] { V t(M(Z.ma.rbegin(), Z.ma.rend())); std::reverse(Z.ma.begin(), Z.ma.end()); Z.a.v = t; return Z.same(); });
    op("a={1,2,3}", [] { Z.a.v = {1, 2, 3}; Z.ma = {1, 2, 3}; return Z.same(); });
    op("a={1..8}", [] { return grow(8, [&] { Z.a.v = {1, 2, 3, 4, 5, 6, 7, 8}; }, [] {}); });
    for (int n : {0, 4, 7, 8}) op("a=std::vector of " + std::to_string(n), [n]() -> std::string { M x; for (int i = 0; i < n; ++i) x.push_back(Z.next++); return grow(n, [&] { Z.a.v = V(x); }, [&] { Z.ma = x; }); });
    for (int n : {3, 7, 8}) op("a=" + std::to_string(n) + " times 4", [n]() -> std::string { return grow(n, [&] { Z.a.v = V(size_t(n), 4); }, [&] { Z.ma = M(n, 4); }); });
    op("a=-1 times 4", [] { return grow(99, [&] { Z.a.v = V(-1, 4); }, [] {}); });
    Hist h;
    h.nops = int(A.size());
    h.reset = [] { Z.reset(); };
    h.name = [](int i) { return A[i].first; };
    h.apply = [](int i) { try { return A[i].second(); } catch (const std::exception &e) { return std::string("a valid operation was refused: ") + e.what(); } };
    h.hash = [] { return Z.hash(); };
    h.walk("shape operations", S().thorough ? 5 : 4);

    // names
    std::vector<std::string> pool{""};
    for (size_t at = 0, n = 0; n < 3; ++n) { size_t e = pool.size(); for (; at < e; ++at) for (char c : {'a', 'b', '_', '\x80'}) pool.push_back(pool[at] + c); }
    for (size_t n = 4; n < 40; ++n) for (auto s : {"a", "ab", "ba"}) { std::string x; while (x.size() < n) x += s; x.resize(n); pool.push_back(x); }
    names<8>("names of 8", pool); names<4>("names of 4", pool); names<16>("names of 16", pool); names<32>("names of 32", pool);

    // coordinates
    int maxrank = S().thorough ? 7 : 6;
    for (int rank = 0; rank <= maxrank; ++rank) {
        int top = rank <= 2 ? 6 : rank <= 4 ? 4 : rank == 5 ? 3 : 2; if (S().thorough && rank >= 5) top = 3;
        M sh(rank, 1);
        while (true) {
            if (take("coordinates of rank " + std::to_string(rank), [&] { std::string s; for (auto i : sh) s += std::to_string(i) + " "; return s; })) {
                V shape(sh); ts::HypeShape hs(shape); int n = 1; for (auto i : sh) n *= i;
                auto say = [&](const std::string &w, int i) { fail("coordinate:" + w, w + " at position " + std::to_string(i)); };
                if (hs.count() != n) say("count", n);
                if (hs.shape() != shape || V(hs) != shape) say("shape", 0);
                int wt = 1; for (int i = rank - 1; i >= 0; --i) { wt *= sh[i]; if (hs.weight(i) != wt || hs.weight()[i] != wt || hs.shape(i) != sh[i]) say("weight", i); }
                M c(rank, 0); ts::ShapeIterator it(shape), post(shape), back(shape);
                std::vector<M> all;
                for (int k = 0; k < n; ++k) {
                    step(); state("r" + std::to_string(rank) + ":" + std::to_string(k) + "/" + std::to_string(n));
                    all.push_back(c);
                    auto got = hs.to_coordinate(k); M g2(3, 77); hs.to_coordinate(k, g2);
                    if (M(got.begin(), got.end()) != c || g2 != c) say("coordinate of an index", k);
                    if (hs.to_index(M(c)) != k || hs.to_index(V(c)) != k) say("index of a coordinate", k);
                    int d[7] = {}; std::copy(c.begin(), c.end(), d); int x = k;
                    switch (rank) {
                        case 1: x = hs.to_index({d[0]}); if (hs.to_index(d[0]) != k) say("index of arguments", k); break;
                        case 2: x = hs.to_index({d[0], d[1]}); if (hs.to_index(d[0], d[1]) != k) say("index of arguments", k); break;
                        case 3: x = hs.to_index({d[0], d[1], d[2]}); if (hs.to_index(d[0], d[1], d[2]) != k) say("index of arguments", k); break;
                        case 4: x = hs.to_index({d[0], d[1], d[2], d[3]}); if (hs.to_index(d[0], d[1], d[2], d[3]) != k) say("index of arguments", k); break;
                        case 5: x = hs.to_index({d[0], d[1], d[2], d[3], d[4]}); if (hs.to_index(d[0], d[1], d[2], d[3], d[4]) != k) say("index of arguments", k); break;
                        case 6: x = hs.to_index({d[0], d[1], d[2], d[3], d[4], d[5]}); if (hs.to_index(d[0], d[1], d[2], d[3], d[4], d[5]) != k) say("index of arguments", k); break;
                        case 7: x = hs.to_index({d[0], d[1], d[2], d[3], d[4], d[5], d[6]}); if (hs.to_index(d[0], d[1], d[2], d[3], d[4], d[5], d[6]) != k) say("index of arguments", k); break;
                    }
                    if (x != k) say("index of a listed coordinate", k);
                    if (it.coordinate() != V(c)) say("walk", k);
                    auto was = post++; if (was.coordinate() != V(c)) say("post-increment", k);
                    ++it;
                    for (int i = rank - 1; i >= 0; --i) { if (++c[i] < sh[i]) break; c[i] = 0; }
                    if (post.coordinate() != it.coordinate()) say("two walks", k);
                }
                // a tensor's own indexing
                ts::Tensor t(ts::INT32, shape); for (int k = 0; k < n; ++k) t.data<int>()[k] = k;
                for (int k = 0; k < n && rank > 0; ++k) if (t.data<int>(ts::HypeShape(shape).to_index(V(all[k]))) != k) say("tensor element", k);
                for (int k = n - 1; k >= 0 && rank > 0; --k) {
                    auto was = back--; if (was.coordinate() != V(all[(k + 1) % n])) say("post-decrement", k);
                    if (back.coordinate() != V(all[k])) say("backward walk", k);
                    --it; if (it.coordinate() != V(all[k])) say("backward walk", k);
                }
                ts::HypeShape moved(std::move(hs)), copied(moved); ts::ShapeIterator mv(std::move(it)); mv.rewind();
                if (copied.count() != n || copied.to_index(V(all.back())) != n - 1 || mv.coordinate() != V(M(rank, 0))) say("copies", 0);
            }
            int i = rank - 1; for (; i >= 0; --i) { if (++sh[i] <= top) break; sh[i] = 1; }
            if (i < 0) break;
        }
    }
    finish();
}
