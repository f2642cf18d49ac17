// The runtime stack against a list: every sequence of stack operations.
#include "hist.h"
#include "ops.h"
using namespace vf;
namespace {
    struct Cell { int value; int store; };
    struct Sys {
        std::unique_ptr<ts::Stack> s;
        std::vector<Cell> m; size_t base = 0; std::vector<size_t> bases;
        int next_store = 0; int nextv = 1;
        std::map<int, const void *> ptr;
        std::map<int, int> val;   // store -> value
        bool underflow = false;
        void reset() {
            s.reset(new ts::Stack(ts::MemoryDevice(ts::CPU)));
            m.clear(); base = 0; bases.clear(); ptr.clear(); val.clear(); next_store = 0; nextv = 1;
            for (int i = 0; i < 2; ++i) fresh();
        }
        void fresh() {
            int v = nextv++;
            auto t = s->push(ts::INT32, ts::Shape({1}));
            t->data<int>()[0] = v;
            add(v, next_store++, t->data());
        }
        void add(int v, int st, const void *p) { m.push_back({v, st}); val[st] = v; ptr[st] = p; }
        long abs(int i) const { return i >= 0 ? long(base) + i : long(m.size()) + i; }
        bool valid(int i) const { long a = abs(i); return a >= long(base) && a < long(m.size()); }
        std::string same() {
            std::ostringstream o;
            if (s->base() != base) { o << "base is " << s->base() << " instead of " << base; return o.str(); }
            if (s->size() != m.size() - base) { o << "size is " << s->size() << " instead of " << m.size() - base; return o.str(); }
            if (size_t(s->end() - s->begin()) != m.size() - base) return "iteration range has another length than size()";
            // look at everything, also below the base
            auto old = s->rebase(0);
            std::string e;
            if (s->size() != m.size()) e = "total size differs";
            for (size_t i = 0; e.empty() && i < m.size(); ++i) {
                auto t = s->index(int(i));
                if (t->data<int>()[0] != val[m[i].store]) { o << "element " << i << " holds " << t->data<int>()[0] << " instead of " << val[m[i].store]; e = o.str(); }
                else if (t->data() != ptr[m[i].store]) { o << "element " << i << " does not have the storage it should share"; e = o.str(); }
            }
            s->rebase(old);
            if (!e.empty()) return e;
            int n = int(m.size() - base);
            for (int i = -n; i < n; ++i) {
                auto st = m[abs(i)].store;
                if (s->index(i)->data() != ptr[st] || (*s)[i].data() != ptr[st]) { o << "index " << i << " is not the documented element"; return o.str(); }
            }
            if (n > 0 && s->top()->data() != ptr[m.back().store]) return "top is not the last element";
            for (int i : {n, n + 1, -int(m.size()) - 1}) {
                try { s->index(i); o << "position " << i << " does not exist but was returned"; return o.str(); } catch (const std::exception &) {}
            }
            return "";
        }
        uint64_t hash() const {
            std::map<int, int> canon; std::string k;
            for (auto &c : m) { auto it = canon.insert({c.store, int(canon.size())}).first; k += char('a' + it->second); }
            k += "|" + std::to_string(base); for (auto b : bases) k += "," + std::to_string(b);
            return hash_str(k);
        }
    };
    Sys Z;
    typedef std::function<std::string()> Act;
    std::vector<std::pair<std::string, Act>> A;
    void op(const std::string &n, const Act &a) { A.push_back({n, a}); }
    // expects a refusal that leaves everything as it was
    template<typename F> std::string refuse(F f) {
        try { f(); } catch (const std::exception &) { return Z.same(); }
        return "an invalid position was accepted";
    }
}
int main(int argc, const char **argv) {
    parse(argc, argv);
    quiet();
    ts_setup();
    op("push new", [] { Z.fresh(); return Z.same(); });
    for (int i : {0, 1, -1, -2, 3, -9}) op("push(" + std::to_string(i) + ")", [i]() -> std::string {
        if (!Z.valid(i)) { if (Z.abs(i) >= 0 && Z.abs(i) < long(Z.m.size())) return ""; return refuse([&] { Z.s->push(i); }); }
        auto c = Z.m[Z.abs(i)]; auto t = Z.s->push(i);
        if (t != Z.s->top()) return "push does not return the new top";
        Z.m.push_back(c); return Z.same(); });
    for (int i : {0, -1, 4}) op("clone(" + std::to_string(i) + ")", [i]() -> std::string {
        if (!Z.valid(i)) { if (Z.abs(i) >= 0 && Z.abs(i) < long(Z.m.size())) return ""; return refuse([&] { Z.s->clone(i); }); }
        auto c = Z.m[Z.abs(i)]; auto t = Z.s->clone(i);
        for (auto &x : Z.m) if (t->data() == Z.ptr[x.store]) return "a clone shares storage with an element of the stack";
        Z.add(Z.val[c.store], Z.next_store++, t->data()); return Z.same(); });
    op("clone_push(top)", []() -> std::string {
        if (!Z.valid(-1)) return ""; auto c = Z.m.back(); auto t = Z.s->clone_push(*Z.s->top());
        Z.add(Z.val[c.store], Z.next_store++, t->data()); return Z.same(); });
    op("pop()", []() -> std::string {
        if (Z.m.size() <= Z.base) return refuse([&] { Z.s->pop(); });
        Z.s->pop(); Z.m.pop_back(); return Z.same(); });
    for (int n : {0, 1, 2, 7}) op("pop(" + std::to_string(n) + ")", [n]() -> std::string {
        if (Z.m.size() - Z.base < size_t(n)) return refuse([&] { Z.s->pop(size_t(n)); });
        Z.s->pop(size_t(n)); Z.m.resize(Z.m.size() - n); return Z.same(); });
    for (int i : {0, 1, -1, -2, 5, -9}) op("erase(" + std::to_string(i) + ")", [i]() -> std::string {
        if (!Z.valid(i)) return refuse([&] { Z.s->erase(i); });
        Z.m.erase(Z.m.begin() + Z.abs(i)); Z.s->erase(i); return Z.same(); });
    for (auto r : std::vector<std::pair<int, int>>{{0, -1}, {0, 2}, {0, 0}, {1, -1}, {-2, -1}, {0, 9}, {2, 1}}) op("erase(" + std::to_string(r.first) + "," + std::to_string(r.second) + ")", [r]() -> std::string {
        long b = Z.abs(r.first), e = Z.abs(r.second);
        if (b < long(Z.base) || e > long(Z.m.size()) || b > e) return refuse([&] { Z.s->erase(r.first, r.second); });
        Z.m.erase(Z.m.begin() + b, Z.m.begin() + e); Z.s->erase(r.first, r.second); return Z.same(); });
    op("clear()", [] { Z.m.resize(Z.base); Z.s->clear(); return Z.same(); });
    for (int i : {0, 1, -1, -2, 100, 8}) op(i == 100 ? std::string("push_base(size)") : "push_base(" + std::to_string(i) + ")", [i]() -> std::string {
        int k = i == 100 ? int(Z.m.size() - Z.base) : i; long a = Z.abs(k);
        if (a < long(Z.base) || a > long(Z.m.size())) return refuse([&] { Z.s->push_base(k); });
        Z.bases.push_back(Z.base); Z.base = a; Z.s->push_base(k); return Z.same(); });
    op("pop_base()", [] { if (Z.bases.empty()) Z.base = 0; else { Z.base = Z.bases.back(); Z.bases.pop_back(); } Z.s->pop_base(); return Z.same(); });
    op("rebase(1)", []() -> std::string {
        if (Z.m.size() < 1) return ""; auto o = Z.s->rebase(1); if (o != Z.base) return "rebase does not return the former base"; Z.base = 1; return Z.same(); });
    op("write top", []() -> std::string { if (!Z.valid(-1)) return ""; int v = 100 + Z.nextv++; Z.s->top()->data<int>()[0] = v; Z.val[Z.m.back().store] = v; return Z.same(); });
    op("write [0]", []() -> std::string { if (!Z.valid(0)) return ""; int v = 100 + Z.nextv++; Z.s->index(0)->data<int>()[0] = v; Z.val[Z.m[Z.abs(0)].store] = v; return Z.same(); });
    Hist h;
    h.nops = int(A.size());
    h.reset = [] { Z.reset(); };
    h.name = [](int i) { return A[i].first; };
    h.apply = [](int i) { try { return A[i].second(); } catch (const std::exception &e) { return std::string("a valid operation was refused: ") + e.what(); } };
    h.hash = [] { return Z.hash(); };
    h.walk("stack operations", S().thorough ? 5 : 4);
    // packed tensors travel as one element
    if (take("packed element", [] { return "push, clone and index of a packed tensor"; })) {
        ts::Stack s(ts::MemoryDevice(ts::CPU));
        auto a = s.make(ts::INT32, ts::Shape({2})), b = s.make(ts::FLOAT32, ts::Shape({3}));
        a.data<int>()[0] = 3; a.data<int>()[1] = 4; for (int i = 0; i < 3; ++i) b.data<float>()[i] = i;
        s.push(ts::Tensor::Pack({a, b}));
        s.push(0); s.clone(0);
        if (s.size() != 3) fail("packed:size", "size");
        for (int i = 0; i < 3; ++i) {
            if (s[i].fields_count() != 2) { fail("packed:fields", "field count"); continue; }
            if (s[i].field(0).data<int>()[1] != 4 || s[i].field(1).data<float>()[2] != 2) fail("packed:values", "values differ");
        }
        if (s[1].field(1).data() != s[0].field(1).data()) fail("packed:push", "pushing an element copied it");
        if (s[2].field(1).data() == s[0].field(1).data() || s[2].field(0).data() == s[0].field(0).data()) fail("packed:clone", "cloning an element shares a field");
        std::vector<ts::Tensor::Prototype> fp = {ts::Tensor::Prototype(ts::INT8, ts::Shape({4})), ts::Tensor::Prototype(ts::FLOAT64, ts::Shape({2, 2}))}; ts::TensorPrototype tp(fp);
        auto t = s.push(tp);
        if (t->fields_count() != 2 || t->field(1).dtype() != ts::FLOAT64 || t->field(0).sizes() != ts::Shape({4})) fail("packed:proto", "a tensor made from a packed prototype has other fields");
    }
    finish();
}
