// Tensor handles against a model of values and sharing: every sequence of handle operations.
#include "hist.h"
#include "ops.h"
#include <core/tensor_builder.h>
using namespace vf;
namespace {
    typedef std::vector<int> Dims;
    int volume(const Dims &d, size_t from = 0) { int n = 1; for (size_t i = from; i < d.size(); ++i) n *= d[i]; return n; }
    ts::Shape sh(const Dims &d) { return ts::Shape(d.begin(), d.end()); }
    std::string ds(const Dims &d) { std::string s = "["; for (size_t i = 0; i < d.size(); ++i) s += (i ? "," : "") + std::to_string(d[i]); return s + "]"; }
    // one block of storage; a lease is one family of handles that keep it alive together
    struct Field { int store = -1; int off = 0; int lease = -1; bool owns = false; ts::DTYPE type = ts::VOID; Dims dims; };
    typedef std::vector<Field> Value;
    struct Sys {
        ts::Tensor t[3];
        Value m[3];
        bool gone[3];
        std::vector<std::vector<int>> store;      // contents, as integers
        std::vector<const char *> base;
        std::vector<int> leases;                  // lease -> store
        int nextv = 1;
        void reset() {
            for (int i = 0; i < 3; ++i) { t[i] = ts::Tensor(); m[i] = {Field()}; gone[i] = false; }
            store.clear(); base.clear(); leases.clear(); nextv = 1;
        }
        bool lease_alive(int l) const { for (auto &v : m) for (auto &f : v) if (f.owns && f.lease == l) return true; return false; }
        bool store_alive(int s) const { for (auto &v : m) for (auto &f : v) if (f.owns && f.store == s) return true; return false; }
        bool usable(const Field &f) const { return (f.store < 0 && f.lease < 0) || (f.owns || (f.lease >= 0 ? lease_alive(f.lease) : store_alive(f.store))); }
        bool usable(int h) const { if (gone[h]) return false; for (auto &f : m[h]) if (!usable(f)) return false; return true; }
        static int bytes(ts::DTYPE d) { return d == ts::INT32 || d == ts::FLOAT32 ? 4 : 1; }
        static int get(const ts::Tensor &x, int i) { return x.dtype() == ts::INT32 ? x.data<int>()[i] : x.dtype() == ts::FLOAT32 ? int(x.data<float>()[i]) : int(x.data<uint8_t>()[i]); }
        static void put(ts::Tensor &x, int i, int v) { if (x.dtype() == ts::INT32) x.data<int>()[i] = v; else if (x.dtype() == ts::FLOAT32) x.data<float>()[i] = float(v); else x.data<uint8_t>()[i] = uint8_t(v); }
        Field fresh(ts::DTYPE d, const Dims &dims, const std::vector<int> &vals, const ts::Tensor &x) {
            Field f; f.store = int(store.size()); store.push_back(vals); base.push_back(reinterpret_cast<const char *>(x.data()));
            f.lease = int(leases.size()); leases.push_back(f.store); f.owns = true; f.type = d; f.dims = dims; return f;
        }
        void make(int h, ts::DTYPE d, const Dims &dims) {
            ts::Tensor x(d, sh(dims)); std::vector<int> v(volume(dims));
            for (size_t i = 0; i < v.size(); ++i) { v[i] = nextv++ % 250; put(x, int(i), v[i]); }
            Field f = fresh(d, dims, v, x); m[h] = {f}; gone[h] = false; t[h] = x;
        }
        std::string see_field(const ts::Tensor &x, const Field &f, const std::string &who) {
            std::ostringstream o;
            if (x.dtype() != f.type) { o << who << " has type " << ts::type_str(x.dtype()) << " instead of " << ts::type_str(f.type); return o.str(); }
            if (Dims(x.sizes().begin(), x.sizes().end()) != f.dims) { o << who << " has shape " << ts::to_string(x.sizes()) << " instead of " << ds(f.dims); return o.str(); }
            if (x.dims() != f.dims.size()) return who + ": dims() differs from the length of the shape";
            if (x.count() != volume(f.dims)) { o << who << " counts " << x.count() << " elements"; return o.str(); }
            if (f.store < 0) { if (!x.empty()) return who + " should be empty"; return ""; }
            if (x.empty()) return who + " claims to be empty";
            int n = volume(f.dims);
            if (n == 0) return "";
            if (reinterpret_cast<const char *>(x.data()) != base[f.store] + f.off * bytes(f.type)) return who + " does not use the storage it should " + (f.owns ? "share" : "borrow");
            for (int i = 0; i < n; ++i) if (get(x, i) != store[f.store][f.off + i]) { o << who << " element " << i << " is " << get(x, i) << " instead of " << store[f.store][f.off + i]; return o.str(); }
            if (x.device().type() != ts::DeviceType(ts::CPU)) return who + " left the cpu";
            return "";
        }
        std::string see(const ts::Tensor &x, const Value &v, const std::string &who) {
            std::ostringstream o;
            if (x.fields_count() != v.size()) { o << who << " has " << x.fields_count() << " fields instead of " << v.size(); return o.str(); }
            if (x.packed() != (v.size() > 1)) return who + ": packed() is wrong";
            auto e = see_field(x, v[0], who); if (!e.empty()) return e;
            for (size_t i = 0; i < v.size(); ++i) { e = see_field(x.field(i), v[i], who + " field " + std::to_string(i)); if (!e.empty()) return e; }
            ts::TensorPrototype p(x);
            if (p.fields_count() != v.size()) return who + ": prototype has another number of fields";
            for (size_t i = 0; i < v.size(); ++i) if (p.field(i).dtype() != v[i].type || p.field(i).sizes() != sh(v[i].dims)) return who + ": prototype of field " + std::to_string(i) + " differs";
            return "";
        }
        std::string same() {
            for (int h = 0; h < 3; ++h) if (usable(h)) { auto e = see(t[h], m[h], std::string(1, char('a' + h))); if (!e.empty()) return e; }
            // blocks of different storage never overlap
            std::map<const char *, std::pair<const char *, int>> seen;
            for (auto &v : m) for (auto &f : v) if (f.owns && f.store >= 0 && store[f.store].size()) seen[base[f.store]] = {base[f.store] + store[f.store].size() * bytes(f.type), f.store};
            const char *end = nullptr;
            for (auto &s : seen) { if (s.first < end) return "two tensors with separate storage overlap in memory"; end = s.second.first; }
            return "";
        }
        uint64_t hash() const {
            std::map<int, int> cs, cl; std::string k;
            for (int h = 0; h < 3; ++h) { k += gone[h] ? "G" : "|"; for (auto &f : m[h]) {
                auto s = cs.insert({f.store, int(cs.size())}).first->second; auto l = cl.insert({f.lease, int(cl.size())}).first->second;
                k += std::to_string(s) + "." + std::to_string(l) + "." + std::to_string(f.off) + (f.owns ? "o" : "w") + std::to_string(int(f.type)) + ds(f.dims) + ";"; } }
            return hash_str(k);
        }
    };
    Sys Z;
    typedef std::function<std::string()> Act;
    std::vector<std::pair<std::string, Act>> A;
    void op(const std::string &n, const Act &a) { A.push_back({n, a}); }
    template<typename F> std::string refuse(const std::string &what, F f) {
        try { f(); } catch (const std::exception &) { return Z.same(); }
        return what + " was accepted";
    }
    const char *nm[3] = {"a", "b", "c"};
    void set(int h, const ts::Tensor &x, const Value &v) { Z.m[h] = v; Z.gone[h] = false; Z.t[h] = x; }
    std::string go(int src, const std::function<std::string()> &f) { if (!Z.usable(src)) return ""; return f(); }

    void assign_ops(const std::vector<std::pair<int, int>> &pairs) {
        for (auto p : pairs) { int s = p.first, d = p.second;
            op(std::string(nm[d]) + "=" + nm[s], [=] { return go(s, [=] { set(d, Z.t[s], Z.m[s]); return Z.same(); }); }); }
    }
    void clone_op(int s, int d, int how) {
        op(std::string(nm[d]) + "=" + nm[s] + ".clone" + std::to_string(how) + "()", [=] { return go(s, [=]() -> std::string {
            ts::Tensor x;
            if (how == 0) x = Z.t[s].clone();
            else if (how == 1) x = Z.t[s].clone(std::make_shared<ts::DynamicMemoryController>(ts::MemoryDevice(ts::CPU)));
            else if (how == 2) x = Z.t[s].clone(ts::DynamicSyncMemoryController::Make(ts::MemoryDevice(ts::CPU)));
            else if (how == 3) x = *Z.t[s].clone_shared();
            else x = Z.t[s].clone(ts::DynamicSyncMemoryController::Make(ts::MemoryDevice(ts::CPU)), ts::MemoryDevice(ts::CPU));
            Value v;
            if (x.fields_count() != Z.m[s].size()) return "a clone has another number of fields";
            for (size_t i = 0; i < Z.m[s].size(); ++i) { auto f = Z.m[s][i];
                if (f.store < 0) { v.push_back(Field()); continue; }
                auto q = Z.store[f.store]; std::vector<int> part(q.begin() + f.off, q.begin() + f.off + volume(f.dims));
                if (part.size() && x.field(i).data() == static_cast<const void *>(Z.base[f.store] + f.off * Sys::bytes(f.type))) return "a clone shares storage with its source";
                v.push_back(Z.fresh(f.type, f.dims, part, x.field(i))); }
            set(d, x, v); return Z.same(); }); });
    }
    // what reshape should give; empty optional = refused
    bool reshaped(const Field &f, const Dims &want, Dims &got) {
        int unknown = -1; got = want; long down = 1;
        for (size_t i = 0; i < want.size(); ++i) if (want[i] < 0) { if (unknown >= 0) return false; unknown = int(i); } else down *= want[i];
        int n = volume(f.dims);
        if (unknown >= 0) { if (down == 0 || n % down) return false; got[unknown] = int(n / down); }
        return volume(got) == n;
    }
    void reshape_op(int s, int d, const Dims &want) {
        op(std::string(nm[d]) + "=" + nm[s] + ".reshape(" + ds(want) + ")", [=] { return go(s, [=]() -> std::string {
            Dims got;
            if (Z.m[s][0].store < 0) return "";
            if (!reshaped(Z.m[s][0], want, got)) return refuse("a reshape to another number of elements", [&] { auto x = Z.t[s].reshape(sh(want)); Z.t[d] = x; });
            auto x = Z.t[s].reshape(sh(want)); auto v = Z.m[s]; v[0].dims = got; set(d, x, v); return Z.same(); }); });
    }
    void flatten_op(int s, int d, int dim) {
        op(std::string(nm[d]) + "=" + nm[s] + ".flatten(" + std::to_string(dim) + ")", [=] { return go(s, [=]() -> std::string {
            if (Z.m[s][0].store < 0) return "";
            auto x = Z.t[s].flatten(dim); auto v = Z.m[s]; int k = dim < 0 ? 0 : dim; Dims o; auto &from = Z.m[s][0].dims;
            for (int i = 0; i < k; ++i) o.push_back(i < int(from.size()) ? from[i] : 1);
            o.push_back(volume(from, std::min<size_t>(k, from.size())));
            v[0].dims = o; set(d, x, v); return Z.same(); }); });
    }
    void slice_op(int s, int d, int b, int e, bool single) {
        op(std::string(nm[d]) + "=" + nm[s] + ".slice(" + std::to_string(b) + (single ? "" : "," + std::to_string(e)) + ")", [=] { return go(s, [=]() -> std::string {
            auto f = Z.m[s][0];
            auto cut = [=] { return single ? Z.t[s].slice(b) : Z.t[s].slice(b, e); };
            if (f.store < 0 || f.dims.empty() || b < 0 || b >= e || e > f.dims[0]) return refuse("a slice outside the tensor", [&] { auto x = cut(); Z.t[d] = x; });
            auto x = cut(); int w = volume(f.dims, 1);
            Field g = f; g.owns = false; g.lease = -1; g.off += b * w; if (single) g.dims.erase(g.dims.begin()); else g.dims[0] = e - b;
            set(d, x, {g});
            return Z.same(); }); });
    }
    void write_op(int h, int i) {
        op(std::string("write ") + nm[h] + "[" + std::to_string(i) + "]", [=] { return go(h, [=]() -> std::string {
            auto &f = Z.m[h][0]; if (f.store < 0 || i >= volume(f.dims)) return "";
            int v = (100 + Z.nextv++) % 250; Sys::put(Z.t[h], i, v); Z.store[f.store][f.off + i] = v; return Z.same(); }); });
    }
    void move_op(int s, int d) { op(std::string(nm[d]) + "=move(" + nm[s] + ")", [=] { return go(s, [=]() -> std::string {
        // the value arrives; the source may only be assigned to
        auto v = Z.m[s]; Z.t[d] = std::move(Z.t[s]); Z.t[s] = ts::Tensor(); Z.m[s] = {Field()}; Z.m[d] = v; Z.gone[d] = false; return Z.same(); }); }); }
    void drop_op(int h) { op(std::string(nm[h]) + "=Tensor()", [=] { set(h, ts::Tensor(), {Field()}); return Z.same(); }); }
    void make_op(int h, ts::DTYPE t, const Dims &d) { op(std::string(nm[h]) + "=new " + ts::type_str(t) + ds(d), [=] { Z.make(h, t, d); return Z.same(); }); }
    void view_op(int s, int d, bool flow) { op(std::string(nm[d]) + "=" + nm[s] + (flow ? ".view(HOST)" : ".view(CPU)"), [=] { return go(s, [=]() -> std::string {
        auto x = flow ? Z.t[s].view(ts::Tensor::InFlow::HOST) : Z.t[s].view(ts::MemoryDevice(ts::CPU)); auto v = Z.m[s];
        std::map<int, int> nl;
        // a view keeps the memory alive on its own, unless it borrows
        for (auto &f : v) if (f.store < 0 || f.owns || f.lease >= 0) { f.owns = true; f.lease = int(Z.leases.size()); Z.leases.push_back(f.store); }
        set(d, x, v); return Z.same(); }); }); }
    void weak_op(int s, int d) { op(std::string(nm[d]) + "=" + nm[s] + ".weak()", [=] { return go(s, [=]() -> std::string {
        auto x = Z.t[s].weak(); auto v = Z.m[s]; for (auto &f : v) f.owns = false; 
        set(d, x, v); return Z.same(); }); }); }
    void strong_op(int s, int d) { op(std::string(nm[d]) + "=" + nm[s] + ".strong()", [=] { return go(s, [=]() -> std::string {
        auto x = Z.t[s].strong(); auto v = Z.m[s]; for (auto &f : v) if (f.lease >= 0) f.owns = true;
        set(d, x, v); return Z.same(); }); }); }

    void history(const std::string &cls, int depth) {
        Hist h; h.nops = int(A.size());
        h.reset = [] { Z.reset(); Z.make(0, ts::INT32, {2, 3}); };
        h.name = [](int i) { return A[i].first; };
        h.apply = [](int i) { try { return A[i].second(); } catch (const std::exception &e) { return std::string("a valid operation was refused: ") + e.what(); } };
        h.hash = [] { return Z.hash(); };
        h.walk(cls, depth);
        A.clear();
    }
}
int main(int argc, const char **argv) {
    parse(argc, argv); quiet(); ts_setup();
    bool deep = S().thorough; int depth = (deep ? 5 : 4) - (S().mode == "shallow" ? 1 : 0);
    // shapes and storage
    make_op(1, ts::UINT8, {4}); make_op(0, ts::FLOAT32, {0, 2}); make_op(1, ts::INT32, {});
    assign_ops({{0, 1}, {1, 0}, {1, 2}, {2, 0}}); clone_op(0, 1, 0); clone_op(1, 0, 1);
    for (auto &w : std::vector<Dims>{{3, 2}, {-1}, {2, -1}, {4}, {-1, -1}, {-1, 4}, {0, -1}, {1, 6, 1}, {-2, 3}, {}}) reshape_op(0, 1, w);
    for (int k : {-1, 0, 1, 3}) flatten_op(0, 1, k);
    write_op(0, 0); write_op(1, 2); drop_op(0); view_op(0, 1, false); move_op(0, 2);
    history("shapes and storage", depth);
    // slices
    make_op(0, ts::UINT8, {3, 2, 2}); make_op(0, ts::INT32, {});
    for (int i : {0, 1, 2, -1}) slice_op(0, 1, i, i + 1, true);
    for (auto p : std::vector<std::pair<int, int>>{{0, 2}, {1, 2}, {1, 3}, {0, 3}, {-1, 1}, {1, 1}, {2, 1}}) slice_op(0, 1, p.first, p.second, false);
    slice_op(1, 2, 0, 1, true); slice_op(1, 2, 1, 2, true);
    clone_op(1, 0, 0); clone_op(1, 2, 2); write_op(0, 4); write_op(1, 0); write_op(2, 1); reshape_op(1, 1, {-1}); reshape_op(0, 0, {3, 2}); drop_op(0);
    assign_ops({{1, 2}, {0, 2}}); view_op(1, 2, true);
    history("slices", depth);
    // weak and strong handles
    make_op(1, ts::UINT8, {3});
    weak_op(0, 1); weak_op(1, 2); weak_op(0, 0); strong_op(1, 2); strong_op(0, 2); strong_op(2, 0); strong_op(1, 1); assign_ops({{0, 1}, {1, 0}, {2, 1}}); drop_op(0); drop_op(1); drop_op(2);
    write_op(0, 1); write_op(1, 1); write_op(2, 2); clone_op(1, 2, 3); view_op(1, 2, true); view_op(2, 0, false); move_op(1, 2); reshape_op(1, 2, {-1});
    history("weak and strong", depth);
    // fields
    make_op(1, ts::UINT8, {2}); make_op(2, ts::FLOAT32, {});
    auto pack_op = [](int d, const std::vector<int> &from) {
        std::string n = std::string(nm[d]) + "=pack("; for (int x : from) n += nm[x]; n += ")";
        op(n, [=]() -> std::string {
            for (int x : from) { if (!Z.usable(x) || Z.m[x].size() != 1) return ""; }
            std::vector<ts::Tensor> f; Value v; for (int x : from) { f.push_back(Z.t[x]); v.push_back(Z.m[x][0]); }
            if (v.empty()) v.push_back(Field());
            if (d == 0) Z.t[d].pack(f); else Z.t[d] = ts::Tensor::Pack(f);
            Z.m[d] = v; Z.gone[d] = false; return Z.same(); });
    };
    pack_op(0, {}); pack_op(0, {1}); pack_op(0, {0, 1}); pack_op(0, {1, 2, 1}); pack_op(2, {0, 1});
    for (int i : {0, 1, 2, -1, -2, -3}) op("b=a.field(" + std::to_string(i) + ")", [=] { return go(0, [=]() -> std::string {
        int n = int(Z.m[0].size()), k = i < 0 ? n + i : i;
        if (k < 0 || k >= n) return refuse("a field that does not exist", [&] { auto x = Z.t[0].field(i); Z.t[1] = x; });
        auto x = Z.t[0].field(i); auto f = Z.m[0][k]; set(1, x, {f}); return Z.same(); }); });
    for (int i : {0, 1, 2, -1, -3}) op("a.field(" + std::to_string(i) + ")=b", [=] { return go(0, [=] { return go(1, [=]() -> std::string {
        if (Z.m[1].size() != 1) return "";
        int n = int(Z.m[0].size()), k = i < 0 ? n + i : i;
        if (k < 0 || k >= n) return refuse("setting a field that does not exist", [&] { Z.t[0].field(i, Z.t[1]); });
        Z.t[0].field(i, Z.t[1]); Z.m[0][k] = Z.m[1][0]; return Z.same(); }); }); });
    for (size_t k : {0, 1, 2, 3}) op("a.refield(" + std::to_string(k) + ")", [=] { return go(0, [=]() -> std::string {
        Z.t[0].refield(k); if (k == 0) Z.m[0] = {Field()}; else Z.m[0].resize(k); return Z.same(); }); });
    op("c=a.unpack()[last]", [] { return go(0, []() -> std::string { auto u = Z.t[0].unpack(); if (u.size() != Z.m[0].size()) return "unpack gives another number of tensors"; auto f = Z.m[0].back(); set(2, u.back(), {f}); return Z.same(); }); });
    clone_op(0, 2, 0); clone_op(0, 0, 4); view_op(0, 2, false); weak_op(0, 2); strong_op(2, 0); drop_op(0); assign_ops({{0, 2}, {2, 1}}); move_op(0, 2); reshape_op(0, 2, {-1}); write_op(2, 0);
    history("fields", depth);

    // prototypes of packed tensors
    {
        typedef ts::Tensor::Prototype P; typedef ts::TensorPrototype TP;
        static TP tp; static std::vector<std::pair<int, Dims>> mm;   // model
        auto chk = []() -> std::string {
            if (tp.fields_count() != mm.size() || tp.packed() != (mm.size() > 1)) return "number of fields differs";
            auto u = tp.unpack(); if (u.size() != mm.size()) return "unpack differs";
            for (size_t i = 0; i < mm.size(); ++i) for (auto &p : {tp.field(i), tp.field(int(i) - int(mm.size())), P(u[i])}) if (p.dtype() != ts::DTYPE(mm[i].first) || p.sizes() != sh(mm[i].second)) return "field " + std::to_string(i) + " differs";
            for (int i : {int(mm.size()), -int(mm.size()) - 1}) { try { tp.field(i); return "a field that does not exist was returned"; } catch (const std::exception &) {} }
            std::vector<P> v; for (auto &x : mm) v.push_back(P(ts::DTYPE(x.first), sh(x.second)));
            TP q(v); if (!(q == tp) || q != tp) return "equal prototypes compare different";
            v.back() = P(ts::INT64, ts::Shape({9})); q = TP(v); if (q == tp) return "different prototypes compare equal";
            return ""; };
        auto pr = [](int k) { return k == 0 ? std::make_pair(int(ts::INT32), Dims{2, 3}) : k == 1 ? std::make_pair(int(ts::FLOAT32), Dims{}) : std::make_pair(int(ts::INT8), Dims{0}); };
        auto rp = [=](int k) { auto x = pr(k); return P(ts::DTYPE(x.first), sh(x.second)); };
        for (auto &f : std::vector<std::vector<int>>{{}, {0}, {1, 2}, {2, 1, 0}}) op("pack" + ds(f), [=]() -> std::string { std::vector<P> v; mm.clear(); for (int k : f) { v.push_back(rp(k)); mm.push_back(pr(k)); } if (mm.empty()) mm.push_back({int(ts::VOID), {}}); tp.pack(v); return chk(); });
        for (size_t k : {0, 1, 2, 3}) op("refield(" + std::to_string(k) + ")", [=]() -> std::string { tp.refield(k); if (k == 0) mm = {{int(ts::VOID), {}}}; else mm.resize(k, {int(ts::VOID), {}}); return chk(); });
        for (int i : {0, 1, 2, -1, -3}) for (int k : {0, 1}) op("field(" + std::to_string(i) + ")=" + std::to_string(k), [=]() -> std::string {
            int n = int(mm.size()), j = i < 0 ? n + i : i;
            if (j < 0 || j >= n) { try { tp.field(i, rp(k)); return "setting a field that does not exist was accepted"; } catch (const std::exception &) { return chk(); } }
            tp.field(i, rp(k)); mm[j] = pr(k); return chk(); });
        op("move out and back", [=]() -> std::string { TP q(std::move(tp)); tp = std::move(q); return chk(); });
        op("=plain", [=]() -> std::string { tp = TP(rp(0)); mm = {pr(0)}; return chk(); });
        Hist h; h.nops = int(A.size());
        h.reset = [] { tp = TP(); mm = {{int(ts::VOID), {}}}; };
        h.name = [](int i) { return A[i].first; };
        h.apply = [](int i) { try { return A[i].second(); } catch (const std::exception &e) { return std::string("a valid operation was refused: ") + e.what(); } };
        h.hash = [] { std::string k; for (auto &x : mm) k += std::to_string(x.first) + ds(x.second); return hash_str(k); };
        h.walk("prototypes", depth);
        A.clear();
    }
    // coordinates and positions
    for (auto &d : shapes(0, deep ? 5 : 4, {1, 2, 3})) if (take("coordinates", [&] { return ds(d); })) {
        ts::HypeShape hs(sh(d)); ts::ShapeIterator it(sh(d)), back(sh(d)); int n = volume(d);
        Dims c(d.size(), 0);
        for (int i = 0; i < n; ++i) {
            step();
            auto co = hs.to_coordinate(i);
            if (co != c) { fail("coord:" + ds(d), "position " + std::to_string(i) + " is " + ds(co) + " instead of " + ds(c)); break; }
            if (!c.empty() && (hs.to_index(c) != i || hs.to_index(ts::Shape(c.begin(), c.end())) != i)) { fail("index:" + ds(d), ds(c) + " is given another position than " + std::to_string(i)); break; }
            int v = c.size() == 1 ? hs.to_index(c[0]) : c.size() == 2 ? hs.to_index(c[0], c[1]) : c.size() == 3 ? hs.to_index(c[0], c[1], c[2]) : c.size() == 4 ? hs.to_index(c[0], c[1], c[2], c[3]) : i;
            if (v != i) { fail("args:" + ds(d), ds(c) + " given as arguments is position " + std::to_string(v)); break; }
            if (Dims(it.coordinate().begin(), it.coordinate().end()) != c) { fail("iterator:" + ds(d), "iterator is at " + ts::to_string(it.coordinate()) + " instead of " + ds(c)); break; }
            auto before = it++; auto bc = before; if (Dims(bc.coordinate().begin(), bc.coordinate().end()) != c) { fail("postfix:" + ds(d), "the iterator returned by it++ is not where the iterator was"); break; }
            for (int k = int(d.size()) - 1; k >= 0; --k) { if (++c[k] < d[k]) break; c[k] = 0; }
        }
        // backwards from the start wraps to the end
        for (int i = n - 1; i >= 0 && !d.empty(); --i) { --back; auto want = hs.to_coordinate(i); if (Dims(back.coordinate().begin(), back.coordinate().end()) != want) { fail("backwards:" + ds(d), "stepping back gives " + ts::to_string(back.coordinate()) + " instead of " + ds(want)); break; } }
        it.rewind(); for (auto x : it.coordinate()) if (x) fail("rewind:" + ds(d), "rewind does not return to the start");
    }
    // has_shape
    for (auto &d : shapes(0, 3, {0, 1, 2, 3})) for (auto &p : shapes(0, 3, {0, 1, 2, 3})) for (int unk = 0; unk < (1 << p.size()); ++unk) {
        Dims q = p; for (size_t i = 0; i < q.size(); ++i) if (unk >> i & 1) q[i] = -1;
        if (!take("has_shape", [&] { return ds(d) + " against " + ds(q); })) continue;
        bool want = d.size() == q.size(); for (size_t i = 0; want && i < q.size(); ++i) want = q[i] < 0 || q[i] == d[i];
        ts::Tensor x(ts::UINT8, sh(d));
        bool got = x.has_shape(sh(q)); step();
        if (got != want) fail("has_shape:" + ds(d) + ds(q), "has_shape is wrong");
        bool v = q.size() == 1 ? x.has_shape(q[0]) : q.size() == 2 ? x.has_shape(q[0], q[1]) : q.size() == 3 ? x.has_shape(q[0], q[1], q[2]) : x.has_empty_shape();
        if (v != want) fail("has_shape args:" + ds(d) + ds(q), "has_shape given as arguments is wrong");
    }
    // shapes hold at most seven sizes
    for (int n = 0; n <= 10; ++n) for (int how = 0; how < 8; ++how) {
        if (!take("rank limit", [&] { return std::to_string(n) + " sizes, way " + std::to_string(how); })) continue;
        step();
        struct Guard { ts::Shape s; int after[4]; } g; for (auto &x : g.after) x = 0x5a5a5a5a;
        bool threw = false; std::vector<int> v(n); for (int i = 0; i < n; ++i) v[i] = i + 1;
        try {
            if (how == 0) g.s = ts::Shape(v.begin(), v.end());
            else if (how == 1) g.s = ts::Shape(v);
            else if (how == 2) for (int x : v) g.s.push_back(x);
            else if (how == 3) for (int x : v) g.s.emplace_back(x);
            else if (how == 4) for (int i = n - 1; i >= 0; --i) g.s.insert(g.s.begin(), v[i]);
            else if (how == 5) { g.s.insert(g.s.end(), v.begin(), v.begin() + n / 2); g.s.insert(g.s.end(), v.begin() + n / 2, v.end()); }
            else if (how == 6) { g.s = ts::Shape(size_t(n), 1); for (int i = 0; i < n; ++i) g.s[i] = v[i]; }
            else { g.s.resize(n, 4); for (int i = 0; i < n; ++i) g.s[i] = v[i]; }
        } catch (const std::exception &) { threw = true; }
        for (auto x : g.after) if (x != 0x5a5a5a5a) { fail("rank:overrun:" + std::to_string(how), "a shape of " + std::to_string(n) + " sizes writes over the memory behind it"); break; }
        if (threw != (n > 7)) fail("rank:" + std::to_string(how), std::to_string(n) + " sizes are " + (threw ? "refused" : "accepted"));
        else if (!threw && g.s.std() != v) fail("rank:values:" + std::to_string(how), "the sizes kept differ");
    }
    // erase and insert at every position
    for (int n = 0; n <= 7; ++n) for (int i = 0; i <= n; ++i) for (int j = i; j <= n; ++j) {
        if (!take("shape edit", [&] { return std::to_string(n) + " sizes, range " + std::to_string(i) + ".." + std::to_string(j); })) continue;
        step();
        std::vector<int> v(n), w; for (int k = 0; k < n; ++k) v[k] = k + 1;
        ts::Shape s(v); s.erase(s.begin() + i, s.begin() + j); w = v; w.erase(w.begin() + i, w.begin() + j);
        if (s.std() != w) fail("edit:erase", "erase of a range of a shape");
        if (i < n) { ts::Shape s1(v); s1.erase(s1.begin() + i); w = v; w.erase(w.begin() + i); if (s1.std() != w) fail("edit:erase1", "erase of one size"); }
        if (n < 7) { ts::Shape s1(v); s1.insert(s1.begin() + i, 9); w = v; w.insert(w.begin() + i, 9); if (s1.std() != w) fail("edit:insert1", "insert of one size"); }
        if (n + j - i <= 7) { ts::Shape s1(v); s1.insert(s1.begin() + i, v.begin() + i, v.begin() + j); w = v; w.insert(w.begin() + i, v.begin() + i, v.begin() + j); if (s1.std() != w) fail("edit:insert", "insert of a range"); }
        if (n) { ts::Shape s1(v); s1.pop_back(); w = v; w.pop_back(); if (s1.std() != w) fail("edit:pop", "pop_back"); }
        ts::Shape a(v), b(v); if (!(a == b) || a != b) fail("edit:equal", "equal shapes compare different"); if (n) { b[i % n]++; if (a == b) fail("edit:differ", "different shapes compare equal"); b.pop_back(); if (a == b) fail("edit:shorter", "a shorter shape compares equal"); }
    }
    // building from and reading back plain values
    for (int n = 0; n <= 9; ++n) if (take("builder", [&] { return std::to_string(n) + " values"; })) {
        step();
        std::vector<int> v(n); std::vector<float> f(n); for (int i = 0; i < n; ++i) { v[i] = i * 7 - 20; f[i] = i * 0.75f - 2; }
        auto t = ts::tensor::build(ts::INT32, v); if (t.dtype() != ts::INT32 || t.sizes() != ts::Shape({n}) || ts::tensor::array::to_int(t) != v) fail("build:int", "values built differ");
        auto g = ts::tensor::build(ts::FLOAT32, f); if (g.dtype() != ts::FLOAT32 || g.sizes() != ts::Shape({n}) || ts::tensor::array::to_float(g) != f) fail("build:float", "values built differ");
        std::string s; for (int i = 0; i < n; ++i) s += char(i % 2 ? 0 : 'a' + i);
        auto c = ts::tensor::from(s); if (c.dtype() != ts::CHAR8 || ts::tensor::to_string(c) != s) fail("build:string", "a string comes back different");
        if (n % 3 == 0 && n) { auto q = ts::tensor::build(ts::INT32, ts::Shape({n / 3, 3}), v); if (q.sizes() != ts::Shape({n / 3, 3}) || ts::tensor::array::to_int(q) != v) fail("build:shape", "values built into a shape differ"); }
        if (n) { if (ts::tensor::to_int(t) != v[0] || ts::tensor::to_float(g) != f[0] || ts::tensor::to_double(t) != v[0] || ts::tensor::to_bool(t) != (v[0] != 0)) fail("build:first", "the first value read as a number differs"); }
        else for (int k = 0; k < 4; ++k) { bool threw = false; try { if (k == 0) ts::tensor::to_int(t); if (k == 1) ts::tensor::to_float(t); if (k == 2) ts::tensor::to_uint(t); if (k == 3) ts::tensor::to_bool(t); } catch (const std::exception &) { threw = true; } if (!threw) fail("build:none", "a number was read from a tensor of no elements"); }
        auto d = ts::tensor::from(double(n) + 0.5); if (d.dtype() != ts::FLOAT64 || ts::tensor::to_double(d) != n + 0.5 || ts::tensor::to_int(d) != n) fail("build:scalar", "a scalar comes back different");
        auto num = ts::tensor::from(std::to_string(n * 3)); if (ts::tensor::to_int(num) != n * 3 || ts::tensor::to_uint(num) != unsigned(n * 3) || ts::tensor::to_float(num) != n * 3) fail("build:text", "a number written as text reads as another number");
    }
    finish();
}
