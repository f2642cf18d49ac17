// Pools, controllers and memory blocks: every sequence of operations, on a counting allocator that can be told to fail.
#include "hist.h"
#include "ops.h"
#include "memory/orz/vat.h"
#include "memory/orz/pot.h"
#include <memory/flow.h>
#include <core/hard_memory.h>
#include <core/memory.h>
#include <core/controller.h>
#include <core/sync/sync_controller.h>
#include <global/hard_allocator.h>
#include <global/hard_converter.h>
#include <malloc.h>
using namespace vf;
namespace {
    typedef unsigned char U;
    // ---- the underlying allocator: every block it has handed out and not got back
    struct Blk { size_t size; int owner; };
    std::map<U *, Blk> live;
    std::string lerr;          // first misuse of the underlying allocator
    bool fail_next = false;
    const size_t GUARD = 16;
    void *und_new(int owner, size_t n) {
        if (fail_next) { fail_next = false; throw ts::Exception("out of memory (injected)"); }
        U *p = static_cast<U *>(std::malloc(n + 2 * GUARD)); std::memset(p, 0xA5, n + 2 * GUARD); live[p + GUARD] = {n, owner}; return p + GUARD; }
    bool guards(U *p, size_t n) { for (size_t i = 0; i < GUARD; ++i) if (p[-1 - long(i)] != 0xA5 || p[n + i] != 0xA5) return false; return true; }
    void und_free(int owner, const void *q) {
        if (!q) return;
        U *p = static_cast<U *>(const_cast<void *>(q)); auto it = live.find(p);
        if (it == live.end()) { if (lerr.empty()) lerr = "memory is returned to the allocator that it had not handed out (or twice)"; return; }
        if (it->second.owner != owner && lerr.empty()) lerr = "memory is returned to another allocator than it came from";
        if (!guards(p, it->second.size) && lerr.empty()) lerr = "bytes next to a block were overwritten";
        std::memset(p, 0xDD, it->second.size); std::free(p - GUARD); live.erase(it); }
    size_t und_bytes(int owner) { size_t s = 0; for (auto &b : live) if (b.second.owner == owner) s += b.second.size; return s; }
    // the underlying block holding [p, p+n) of this owner?
    std::string inside(const void *q, size_t n, int owner) {
        auto p = static_cast<U *>(const_cast<void *>(q)); auto it = live.upper_bound(p);
        if (it == live.begin()) return "a block lies in no memory of the underlying allocator";
        --it; if (p + n > it->first + it->second.size) return "a block lies in no memory of the underlying allocator";
        if (it->second.owner != owner) return "a block lies in memory of another allocator";
        return ""; }
    void purge() { for (auto &b : live) std::free(b.first - GUARD); live.clear(); lerr.clear(); fail_next = false; }
    std::string left() { return live.empty() ? "" : std::to_string(live.size()) + " blocks of the underlying allocator are never returned"; }
    int nextv = 1;
    struct Live { U *p; size_t n; int owner; std::vector<U> c; };
    void fill(Live &b) { b.c.resize(b.n); for (size_t i = 0; i < b.n; ++i) { b.c[i] = U(nextv * 31 + int(i) * 7 + 1); b.p[i] = b.c[i]; } ++nextv; }
    std::string same(const Live &b) { for (size_t i = 0; i < b.n; ++i) if (b.p[i] != b.c[i]) return "byte " + std::to_string(i) + " of a live block of " + std::to_string(b.n) + " changed"; return ""; }
    std::string all(const std::vector<Live> &v) {
        for (auto &b : v) { auto e = inside(b.p, b.n, b.owner); if (!e.empty()) return e; }
        for (auto &b : v) { auto e = same(b); if (!e.empty()) return e; }
        for (size_t i = 0; i < v.size(); ++i) for (size_t j = 0; j < i; ++j) if (v[i].n && v[j].n && v[i].p < v[j].p + v[j].n && v[j].p < v[i].p + v[i].n) return "two live blocks overlap";
        return lerr; }

    typedef std::function<std::string()> Act;
    std::vector<std::pair<std::string, Act>> A;
    std::vector<std::function<bool()>> E;
    void op(const std::string &n, const Act &a, const std::function<bool()> &en = nullptr) { A.push_back({n, a}); E.push_back(en); }
    void run(const std::string &cls, int depth, const std::function<void()> &reset, const std::function<void()> &clear, const std::function<std::string()> &inv, const std::function<uint64_t()> &hash) {
        Hist H; H.nops = int(A.size()); int at = 0; uint64_t hv = 0;
        H.reset = [&] { clear(); purge(); nextv = 1; at = 0; reset(); };
        H.name = [](int i) { return A[i].first; };
        H.enabled = [](int i) { return !E[i] || E[i](); };
        H.apply = [&](int i) -> std::string { std::string e;
            try { e = A[i].second(); } catch (const std::exception &x) { e = std::string("a valid operation was refused: ") + x.what(); }
            fail_next = false;
            if (e.empty()) e = inv();
            if (e.empty()) hv = hash();
            if (e.empty() && ++at == depth) { clear(); e = lerr; if (e.empty()) e = left(); if (!e.empty()) e += " (after everything was released)"; }
            return e; };
        H.hash = [&] { return hv; };
        H.walk(cls, depth);
        clear(); purge();
        A.clear(); E.clear();
    }

    // ---- Vat: two pools over two allocators
    ts::Pot::allocator source(int owner) { return [owner](size_t n) { return std::shared_ptr<void>(und_new(owner, n), [owner](void *p) { und_free(owner, p); }); }; }
    struct VS { std::unique_ptr<ts::Vat> v; std::vector<Live> b; int owner; };
    void vats(int depth, bool fine) {
        static VS s[2];
        auto owner_of = [](int i) { return s[i].owner; };
        auto get = [=](int i, size_t n) -> std::string { auto p = static_cast<U *>(s[i].v->malloc(n));
            if (!p) return "no memory";
            Live b; b.p = p; b.n = n; b.owner = owner_of(i);
            std::vector<Live> t = s[0].b; t.insert(t.end(), s[1].b.begin(), s[1].b.end()); auto e = inside(p, n, b.owner); if (!e.empty()) return e;
            for (auto &x : t) if (p < x.p + x.n && x.p < p + n) return "a new block overlaps a live one";
            fill(b); s[i].b.push_back(b); return ""; };
        std::vector<size_t> sizes = fine ? std::vector<size_t>{1, 2, 3, 4} : std::vector<size_t>{1, 2, 4};
        for (size_t n : sizes) op("a=" + std::to_string(n), [=] { return get(0, n); });
        if (!fine) op("b=2", [=] { return get(1, 2); });
        for (int i = 0; i < (fine ? 1 : 2); ++i) for (size_t k = 0; k < (fine ? 4u : i ? 1u : 2u); ++k)
            op(std::string(i ? "B" : "A") + ".free(" + std::to_string(k) + ")", [=]() -> std::string { auto b = s[i].b[k]; s[i].b.erase(s[i].b.begin() + long(k)); s[i].v->free(b.p); return ""; }, [=] { return s[i].b.size() > k; });
        if (!fine) {
            op("A.free(unknown)", [=]() -> std::string { char x; try { s[0].v->free(&x); } catch (const std::exception &) { return ""; } return "freeing memory the pool does not own was accepted"; });
            op("A.malloc(0),free(null)", [=]() -> std::string { if (s[0].v->malloc(0)) return "no bytes have an address"; s[0].v->free(nullptr); return ""; });
            op("A.dispose", [=]() -> std::string { s[0].v->dispose(); s[0].b.clear(); if (und_bytes(owner_of(0))) return "memory is kept after dispose"; return ""; });
            op("swap", [=]() -> std::string { s[0].v->swap(*s[1].v); std::swap(s[0].b, s[1].b); std::swap(s[0].owner, s[1].owner); return ""; });
            op("A=move(B)", [=]() -> std::string { *s[0].v = std::move(*s[1].v); s[0].b = s[1].b; s[0].owner = s[1].owner; s[1].b.clear(); s[1].v.reset();
                static int fresh; fresh = s[0].owner == 0 ? 1 : 0; s[1].v.reset(new ts::Vat(source(fresh))); s[1].owner = fresh; return ""; }, [=] { return true; });
            op("C(move(A))", [=]() -> std::string { std::unique_ptr<ts::Vat> c(new ts::Vat(std::move(*s[0].v))); s[0].v = std::move(c); return ""; });
            op("A.deprecated", [=]() -> std::string { s[0].v->deprecated(); return ""; });
            op("a=3 but no memory", [=]() -> std::string { fail_next = true; try { auto r = get(0, 3); if (!r.empty()) return r; } catch (const ts::Exception &) { return ""; } return fail_next ? "" : "a failed allocation gives memory"; });
        }
        op("A.reset", [=]() -> std::string { s[0].v->reset(); s[0].b.clear(); return ""; });
        op("A.clean", [=]() -> std::string { s[0].v->clean(); size_t n = 0; for (auto &b : s[0].b) n += b.n; if (s[0].b.empty() && und_bytes(owner_of(0))) return "memory nobody uses is kept after clean"; return ""; });
        run(fine ? "vat sizes" : "vat", depth,
            [] { for (int i = 0; i < 2; ++i) { s[i].owner = i; s[i].v.reset(new ts::Vat(source(i))); s[i].b.clear(); } },
            [] { for (auto &x : s) { x.v.reset(); x.b.clear(); } },
            [=]() -> std::string { std::vector<Live> t = s[0].b; t.insert(t.end(), s[1].b.begin(), s[1].b.end()); auto e = all(t); if (!e.empty()) return e;
                if (s[0].owner != s[1].owner) for (int i = 0; i < 2; ++i) if (s[i].v->summary() != und_bytes(owner_of(i))) return "the pool says it holds " + std::to_string(s[i].v->summary()) + " bytes instead of " + std::to_string(und_bytes(owner_of(i)));
                return ""; },
            [] { std::string k; for (auto &x : s) { k += "|" + std::to_string(x.owner) + ":"; for (auto &b : x.b) k += std::to_string(b.n) + ","; k += "/" + std::to_string(x.v->summary()); } return hash_str(k); });
    }
    // ---- Pot: one block that grows; copies share it
    void pots(int depth) {
        static std::unique_ptr<ts::Pot> p; static std::unique_ptr<ts::Pot> q; static size_t size; static std::vector<U> c; static size_t qn; static std::vector<U> qc; static U *qd;
        auto put = [](void *d) { auto u = static_cast<U *>(d); c.resize(size); for (size_t i = 0; i < size; ++i) { c[i] = U(nextv * 31 + int(i) + 1); u[i] = c[i]; } ++nextv; };
        // a copy of the pot keeps the block of that moment; until either moves on they share it
        auto shared = [] { return q && qd == p->data(); };
        for (size_t n : {0, 1, 2, 4}) {
            op("malloc " + std::to_string(n), [=]() -> std::string { void *d = p->malloc(n); if (n && !d) return "no memory"; if (d != p->data()) return "malloc and data differ"; size = n; put(d); if (shared()) { size_t m = std::min(qc.size(), n); for (size_t i = 0; i < m; ++i) qc[i] = c[i]; } return ""; });
            op("relloc " + std::to_string(n), [=]() -> std::string { void *d = p->relloc(n); if (n && !d) return "no memory"; if (d != p->data()) return "relloc and data differ";
                auto u = static_cast<U *>(d); for (size_t i = 0; i < std::min(n, c.size()); ++i) if (u[i] != c[i]) return "byte " + std::to_string(i) + " of the common part is not kept"; size = n;
                put(d); if (shared()) for (size_t i = 0; i < std::min(qc.size(), n); ++i) qc[i] = c[i]; return ""; });
        }
        op("dispose", []() -> std::string { p->dispose(); size = 0; c.clear(); return ""; });
        op("q=p", []() -> std::string { q.reset(new ts::Pot(*p)); qn = size; qc = c; qd = static_cast<U *>(p->data()); return ""; });
        op("drop q", []() -> std::string { q.reset(); return ""; });
        for (int r = 0; r < 2; ++r) op(r ? "relloc 8 fails" : "malloc 8 fails", [=]() -> std::string { fail_next = true; try { if (r) p->relloc(8); else p->malloc(8); } catch (const ts::Exception &) { return ""; } return "a failed allocation gives memory"; }, [] { return p->capacity() < 8; });
        run("pot", depth, [] { p.reset(new ts::Pot(source(0))); size = 0; c.clear(); qc.clear(); qd = nullptr; }, [] { p.reset(); q.reset(); },
            []() -> std::string {
                if (p->size() != size) return "size() is " + std::to_string(p->size()) + " instead of " + std::to_string(size);
                if (p->capacity() < size) return "the capacity is below the size";
                if (p->capacity()) { auto e = inside(p->data(), p->capacity(), 0); if (!e.empty()) return e; }
                auto u = static_cast<U *>(p->data()); for (size_t i = 0; i < size; ++i) if (u[i] != c[i]) return "contents changed";
                if (q) { if (q->size() != qn) return "the size of a copy changed"; u = static_cast<U *>(q->data()); if (u != qd) return "the block of a copy changed"; for (size_t i = 0; i < qc.size(); ++i) if (u[i] != qc[i]) return "the contents of a copy changed"; }
                return lerr; },
            [] { return hash_str(std::to_string(size) + "/" + std::to_string(p->capacity()) + (q ? "q" + std::to_string(qn) : "")); });
    }
    // ---- devices whose allocator is the counting one, registered in the ways the library offers
    void copy_bytes(int, void *d, int, const void *s, size_t n) { std::memcpy(d, s, n); }
    const char *kinds[] = {"md", "m2", "m3"};
    const int OWN = 10;   // owner = OWN + kind * 10 + id
    void devices() {
        for (int k = 0; k < 3; ++k) for (int l = 0; l < 3; ++l) ts::HardConverter::Register(ts::DeviceType(kinds[k]), ts::DeviceType(kinds[l]), copy_bytes);
        for (int k = 0; k < 3; ++k) { ts::HardConverter::Register(ts::DeviceType(kinds[k]), ts::CPU, copy_bytes); ts::HardConverter::Register(ts::CPU, ts::DeviceType(kinds[k]), copy_bytes); }
        ts::HardAllocator::Register(ts::DeviceType("md"), [](int id, size_t n, void *mem, size_t old) -> void * { int o = OWN + id;
            if (!n) { und_free(o, mem); return nullptr; }
            if (mem && old) { void *p = und_new(o, n); std::memcpy(p, mem, std::min(n, old)); und_free(o, mem); return p; }
            und_free(o, mem); return und_new(o, n); });
        ts::HardAllocator::RegisterV2(ts::DeviceType("m2"), [](int id, size_t n) { return und_new(OWN + 10 + id, n); }, [](int id, void *p) { und_free(OWN + 10 + id, p); });
        ts::HardAllocator::RegisterV3(ts::DeviceType("m3"), [](int id, size_t n) { return und_new(OWN + 20 + id, n); }, [](int id, void *p) { und_free(OWN + 20 + id, p); },
            [](int id, size_t n, void *mem, size_t old) -> void * { int o = OWN + 20 + id; void *p = und_new(o, n); std::memcpy(p, mem, std::min(n, old)); und_free(o, mem); return p; });
    }
    // ---- HardMemory: two blocks on two devices of one kind
    struct HB { std::unique_ptr<ts::HardMemory> m; size_t n; std::vector<U> c; int id; bool valid; };
    void hards(int kind, int depth) {
        static HB s[2]; const ts::MemoryDevice other(ts::DeviceType(kinds[kind]), 1);
        auto put = [](int i) { auto u = s[i].m->data<U>(); s[i].c.resize(s[i].n); for (size_t k = 0; k < s[i].n; ++k) { s[i].c[k] = U(nextv * 31 + int(k) + 1); u[k] = s[i].c[k]; } ++nextv; };
        auto mk = [=](int i, int id, size_t n) { s[i].m.reset(new ts::HardMemory(ts::MemoryDevice(ts::DeviceType(kinds[kind]), id), n)); s[i].n = n; s[i].id = id; s[i].valid = true; put(i); };
        auto sized = [=](int i, size_t n, bool keep) -> std::string {
            if (s[i].m->capacity() != n) return "the capacity is " + std::to_string(s[i].m->capacity()) + " instead of " + std::to_string(n);
            if (n && !s[i].m->data()) return "no memory";
            if (n) { auto e = inside(s[i].m->data(), n, OWN + kind * 10 + s[i].id); if (!e.empty()) return e; }
            if (keep) for (size_t k = 0; k < std::min(n, s[i].n); ++k) if (s[i].m->data<U>()[k] != s[i].c[k]) return "byte " + std::to_string(k) + " of the common part is not kept";
            s[i].n = n; put(i); return ""; };
        auto ok = [](int i) { return [=] { return s[i].valid; }; };
        for (int i = 0; i < 2; ++i) {
            std::string x = i ? "y" : "x";
            for (size_t n : i ? std::vector<size_t>{4} : std::vector<size_t>{0, 2, 4}) op(x + ".resize " + std::to_string(n), [=] { s[i].m->resize(n); return sized(i, n, false); }, ok(i));
            for (size_t n : i ? std::vector<size_t>{6} : std::vector<size_t>{1, 3, 6}) op(x + ".expect " + std::to_string(n), [=] { s[i].m->expect(n); return sized(i, std::max(n, s[i].n), true); }, ok(i));
            for (size_t n : i ? std::vector<size_t>{} : std::vector<size_t>{0, 1, 3}) op(x + ".shrink " + std::to_string(n), [=] { s[i].m->shrink(n); return sized(i, std::min(n, s[i].n), true); }, ok(i));
            op(x + ".dispose", [=] { s[i].m->dispose(); return sized(i, 0, false); }, ok(i));
            op(x + "=move(" + (i ? "x" : "y") + ")", [=]() -> std::string { *s[i].m = std::move(*s[1 - i].m); s[i].n = s[1 - i].n; s[i].c = s[1 - i].c; s[i].id = s[1 - i].id; s[1 - i].valid = false; s[1 - i].n = 0; s[1 - i].c.clear(); return ""; }, ok(1 - i));
            for (int f = 0; f < 2; ++f) op(x + (f ? ".expect 8" : ".resize 8") + " fails", [=]() -> std::string { fail_next = true; bool threw = false; try { if (f) s[i].m->expect(8); else s[i].m->resize(8); } catch (const ts::Exception &) { threw = true; }
                if (!threw) return "a failed allocation gives memory";
                // whatever is kept is a block that exists; expect keeps what was there
                size_t n = s[i].m->capacity(); if (f && n != s[i].n) return "a failed expect changes the capacity"; if (n > s[i].n) return "a failed resize grows the block"; if (n) return sized(i, n, f); s[i].n = 0; s[i].c.clear(); return ""; }, [=] { return s[i].valid && s[i].n < 8; });
        }
        op("swap", []() -> std::string { s[0].m->swap(*s[1].m); std::swap(s[0].n, s[1].n); std::swap(s[0].c, s[1].c); std::swap(s[0].id, s[1].id); std::swap(s[0].valid, s[1].valid); return ""; });
        op("x=HardMemory(move(x))", []() -> std::string { std::unique_ptr<ts::HardMemory> t(new ts::HardMemory(std::move(*s[0].m))); s[0].m = std::move(t); return ""; }, ok(0));
        op("x=new 2 on 1", [=]() -> std::string { *s[0].m = ts::HardMemory(ts::MemoryDevice(ts::DeviceType(kinds[kind]), 1), 2); s[0].n = 2; s[0].id = 1; s[0].valid = true; return sized(0, 2, false); });
        op("x=borrowed 4", [=]() -> std::string { static U buf[4]; std::memset(buf, 3, 4); ts::HardMemory b(other, buf, 4);
            for (int f = 0; f < 3; ++f) { bool threw = false; try { if (f == 0) b.resize(2); else if (f == 1) b.expect(8); else b.shrink(1); } catch (const ts::Exception &) { threw = true; } if (!threw) return "borrowed memory was resized"; if (b.data() != buf || b.capacity() != 4) return "borrowed memory was changed"; }
            ts::HardMemory c(std::move(b)); if (c.data() != buf || c.capacity() != 4) return "moving borrowed memory changes it"; return ""; });
        run(std::string("block on ") + kinds[kind], depth, [=] { mk(0, 0, 2); mk(1, 1, 3); }, [] { for (auto &x : s) { x.m.reset(); x.c.clear(); } },
            [=]() -> std::string {
                for (int i = 0; i < 2; ++i) if (s[i].valid) { auto &x = s[i]; if (x.m->capacity() != x.n) return "the capacity of a block changed"; if (x.m->device().id() != x.id) return "the device of a block changed"; if (x.n) { auto e = inside(x.m->data(), x.n, OWN + kind * 10 + x.id); if (!e.empty()) return e; } for (size_t k = 0; k < x.n; ++k) if (x.m->data<U>()[k] != x.c[k]) return "contents of a block changed"; }
                if (s[0].valid && s[1].valid && s[0].n && s[1].n) { auto a = s[0].m->data<U>(), b = s[1].m->data<U>(); if (a < b + s[1].n && b < a + s[0].n) return "two live blocks overlap"; }
                return lerr; },
            [] { std::string k; for (auto &x : s) k += std::to_string(x.valid) + ":" + std::to_string(x.n) + "@" + std::to_string(x.id) + ";"; return hash_str(k); });
    }
    // ---- memory handles from a controller
    struct Use { int refs; int ran; bool hooked; };
    struct H { bool on; int blk; size_t n; int use; bool weak; };
    template <typename M> struct Ops;
    template <> struct Ops<ts::Memory> { static ts::Memory weak(ts::Memory &m) { return m.weak(); } static U *at(ts::Memory &m) { return m.data<U>(); } static long uses(ts::Memory &m) { return m.use_count(); } static const bool has_use = true; };
    std::vector<Use> uses; std::vector<Live> blks; std::vector<int> owners_;  // per block: number of owning handles
    int ran_now = 0;
    void handles(const std::string &cls, const std::function<std::shared_ptr<ts::MemoryController>(int)> &mk, int kind, int depth) {
        typedef ts::Memory M;
        static std::unique_ptr<M> m[3]; static H h[3]; static std::shared_ptr<ts::MemoryController> ctl[2];
        auto release = [](int i) { if (!h[i].on) return; if (!h[i].weak) { --owners_[h[i].blk]; } if (h[i].use >= 0) { auto &u = uses[h[i].use]; if (--u.refs == 0 && u.hooked) --ran_now; } h[i].on = false; };
        // copies of weak handles are usable only while some owner lives
        auto weaks = [](int b) { if (owners_[b] > 0) return; for (int i = 0; i < 3; ++i) if (h[i].on && h[i].weak && h[i].blk == b) { m[i].reset(new M()); h[i].on = false; } };
        auto hooks = []() -> std::string { if (ran_now) { std::string e = ran_now < 0 ? "the destructor hook of released memory does not run" : "a destructor hook runs too early or twice"; return e; } return ""; };
        auto alloc = [=](int i, int c, size_t n) -> std::string { int old = h[i].on ? h[i].blk : -1; std::unique_ptr<M> x(new M(ctl[c]->alloc(n))); release(i); m[i] = std::move(x); h[i] = {true, int(blks.size()), n, int(uses.size()), false}; uses.push_back({1, 0, false});
            if (m[i]->size() != n) return "the size is wrong"; if (m[i]->device().id() != c) return "the device is wrong"; Live b; b.p = m[i]->data<U>(); b.n = n; b.owner = OWN + kind * 10 + c;
            if (n) { auto e = inside(b.p, n, b.owner); if (!e.empty()) return e; for (size_t k = 0; k < blks.size(); ++k) if (owners_[k] > 0 && b.p < blks[k].p + blks[k].n && blks[k].p < b.p + n) return "a new block overlaps a live one"; fill(b); }
            blks.push_back(b); owners_.push_back(1); if (old >= 0) weaks(old); return hooks(); };
        for (size_t n : {0, 2, 3}) op("h0=alloc " + std::to_string(n), [=] { return alloc(0, 0, n); }, [] { return bool(ctl[0]); });
        op("h1=alloc 2", [=] { return alloc(1, 0, 2); }, [] { return bool(ctl[0]); });
        op("h2=alloc 3 on 1", [=] { return alloc(2, 1, 3); }, [] { return bool(ctl[1]); });
        for (auto p : std::vector<std::pair<int, int>>{{0, 1}, {1, 2}, {2, 0}}) {
            int f = p.first, t = p.second; std::string n = "h" + std::to_string(t) + "=h" + std::to_string(f), mv = "h" + std::to_string(t) + "=move(h" + std::to_string(f) + ")";
            op(n, [=]() -> std::string { int old = h[t].on ? h[t].blk : -1; *m[t] = *m[f]; release(t); h[t] = h[f]; if (!h[t].weak) ++owners_[h[t].blk]; if (h[t].use >= 0) ++uses[h[t].use].refs; if (old >= 0) weaks(old); return hooks(); }, [=] { return h[f].on && !(h[f].weak && h[t].on && h[t].blk == h[f].blk && !h[t].weak && owners_[h[f].blk] == 1); });
            op(mv, [=]() -> std::string { int old = h[t].on ? h[t].blk : -1; *m[t] = std::move(*m[f]); release(t); h[t] = h[f]; h[f].on = false; m[f].reset(new M()); if (old >= 0) weaks(old); return hooks(); }, [=] { return h[f].on && !(h[f].weak && h[t].on && h[t].blk == h[f].blk && !h[t].weak && owners_[h[f].blk] == 1); });
        }
        op("h1=h0.weak", [=]() -> std::string { int old = h[1].on ? h[1].blk : -1; auto w = m[0]->weak(); *m[1] = w; release(1); h[1] = h[0]; h[1].weak = true; h[1].use = -1; if (old >= 0) weaks(old); return hooks(); }, [] { return h[0].on && !(h[1].on && h[1].blk == h[0].blk && !h[1].weak && owners_[h[0].blk] == 1); });
        op("swap h0 h2", []() -> std::string { m[0]->swap(*m[2]); std::swap(h[0], h[2]); return ""; });
        for (int i = 0; i < 2; ++i) op("drop h" + std::to_string(i), [=]() -> std::string { int old = h[i].blk; m[i].reset(new M()); release(i); weaks(old); return hooks(); }, [=] { return h[i].on; });
        op("hook h0", [=]() -> std::string { auto &u = uses[h[0].use]; if (--u.refs == 0 && u.hooked) --ran_now; int id = int(uses.size()); uses.push_back({1, 0, true}); h[0].use = id; m[0]->destructor([id] { ++ran_now; if (++uses[id].ran > 1) ran_now += 100; }); return hooks(); }, [] { return h[0].on && !h[0].weak; });
        op("write h0", []() -> std::string { auto &b = blks[h[0].blk]; if (b.n) fill(b); return ""; }, [] { return h[0].on; });
        op("drop the controller", []() -> std::string { ctl[0].reset(); return ""; }, [] { return bool(ctl[0]); });
        op("new controller", [=]() -> std::string { ctl[0] = mk(0); return ""; }, [] { return !ctl[0]; });
        op("alloc fails", []() -> std::string { fail_next = true; try { ctl[1]->alloc(9); } catch (const ts::Exception &) { return ""; } return "a failed allocation gives memory"; });
        run(cls, depth, [=] { ran_now = 0; for (int i = 0; i < 2; ++i) ctl[i] = mk(i); for (int i = 0; i < 3; ++i) { m[i].reset(new M()); h[i].on = false; h[i].use = -1; h[i].weak = false; h[i].n = 0; h[i].blk = 0; } },
            [=] { for (auto &x : m) x.reset(); for (auto &x : ctl) x.reset(); blks.clear(); owners_.clear(); uses.clear(); for (auto &x : h) x.on = false; },
            [=]() -> std::string {
                std::vector<Live> t; for (size_t i = 0; i < blks.size(); ++i) if (owners_[i] > 0 && blks[i].n) t.push_back(blks[i]);
                auto e = all(t); if (!e.empty()) return e;
                for (int i = 0; i < 3; ++i) if (h[i].on) { auto &b = blks[h[i].blk]; if (m[i]->size() != b.n) return "the size of a handle changed"; if (b.n && m[i]->data<U>() != b.p) return "a handle no longer names its block";
                    if (h[i].use >= 0 && m[i]->use_count() != uses[h[i].use].refs) return "use_count is " + std::to_string(m[i]->use_count()) + " instead of " + std::to_string(uses[h[i].use].refs); }
                return ""; },
            [] { std::map<int, int> n; std::string k = ctl[0] ? "C" : "-"; for (auto &x : h) { if (!x.on) { k += "-"; continue; } k += std::to_string(n.insert({x.blk, int(n.size())}).first->second) + (x.weak ? "w" : "") + ":" + std::to_string(x.n) + (x.use >= 0 && uses[x.use].hooked ? "h" : "") + ";"; } return hash_str(k); });
    }
    // ---- mirrored memory from a pooling controller: the pools of all devices are given back
    void mirrored(int depth) {
        typedef ts::HypeSyncMemoryController<ts::FlowMemoryController> C;
        static std::shared_ptr<C> ctl; static std::unique_ptr<ts::SyncMemory> m[3]; static int val[3], grp[3], dev[3], ng; static bool on[3];
        auto d = [](int k) { return k == 0 ? ts::MemoryDevice(ts::DeviceType("md"), 0) : k == 1 ? ts::MemoryDevice(ts::DeviceType("md"), 1) : ts::MemoryDevice(ts::DeviceType("m2"), 0); };
        auto write = [](int i) { int v = nextv++; *m[i]->data<int>() = v; m[i]->broadcast(); for (int j = 0; j < 3; ++j) if (on[j] && grp[j] == grp[i]) val[j] = v; };
        for (int k = 0; k < 3; ++k) op("h0=new on " + std::to_string(k), [=]() -> std::string { std::unique_ptr<ts::SyncMemory> x(new ts::SyncMemory(ctl->alloc(d(k), 4))); m[0] = std::move(x); on[0] = true; grp[0] = ng++; dev[0] = k; write(0); return ""; }, [] { return bool(ctl); });
        for (int k = 0; k < 3; ++k) op("h1=h0.view " + std::to_string(k), [=]() -> std::string { m[1].reset(new ts::SyncMemory(m[0]->view(d(k)))); on[1] = true; grp[1] = grp[0]; val[1] = val[0]; dev[1] = k; return ""; }, [] { return on[0]; });
        op("h2=h1", [=]() -> std::string { m[2].reset(new ts::SyncMemory(*m[1])); on[2] = true; grp[2] = grp[1]; val[2] = val[1]; dev[2] = dev[1]; return ""; }, [] { return on[1]; });
        op("h0=h2", [=]() -> std::string { m[0].reset(new ts::SyncMemory(*m[2])); on[0] = true; grp[0] = grp[2]; val[0] = val[2]; dev[0] = dev[2]; return ""; }, [] { return on[2]; });
        for (int i = 0; i < 3; ++i) op("drop h" + std::to_string(i), [=]() -> std::string { m[i].reset(); on[i] = false; return ""; }, [=] { return on[i]; });
        for (int i = 0; i < 2; ++i) op("write h" + std::to_string(i), [=]() -> std::string { write(i); return ""; }, [=] { return on[i]; });
        op("controller=clone", []() -> std::string { ctl = std::dynamic_pointer_cast<C>(ctl->clone()); return ctl ? "" : "a clone is of another kind"; }, [] { return bool(ctl); });
        op("drop the controller", []() -> std::string { ctl.reset(); return ""; }, [] { return bool(ctl); });
        run("mirrored pools", depth, [=] { ctl = C::Make(d(0)); ng = 0; for (int i = 0; i < 3; ++i) on[i] = false; }, [] { for (auto &x : m) x.reset(); ctl.reset(); for (auto &x : on) x = false; },
            [=]() -> std::string { std::vector<Live> t; for (int i = 0; i < 3; ++i) if (on[i]) { if (*m[i]->data<int>() != val[i]) return "handle " + std::to_string(i) + " reads " + std::to_string(*m[i]->data<int>()) + " instead of " + std::to_string(val[i]); auto e = inside(m[i]->data(), 4, OWN + (dev[i] == 2 ? 10 : dev[i])); if (!e.empty()) return e;
                    for (int j = 0; j < i; ++j) if (on[j] && grp[i] != grp[j] && m[i]->data<U>() == m[j]->data<U>()) return "two values share memory"; }
                return lerr; },
            [] { std::map<int, int> n; std::string k = ctl ? "C" : "-"; for (int i = 0; i < 3; ++i) k += on[i] ? std::to_string(n.insert({grp[i], int(n.size())}).first->second) + "@" + std::to_string(dev[i]) : "-"; return hash_str(k); });
    }
    // ---- copying and filling bytes
    void bytes() {
        const int N = S().thorough ? 40 : 26;
        auto devp = [](int k) { return k == 0 ? ts::Device(ts::CPU, 0) : ts::Device(ts::DeviceType("md"), k); };
        for (int way = 0; way < 3; ++way) for (int d = 0; d <= N; ++d) {
            if (!take("fill and copy", [&] { return std::string("bytes: ") + std::to_string(d) + " bytes way " + std::to_string(way); })) continue;
            for (int s = 0; s <= N; ++s) for (int f = 0; f < 2; ++f) {
                std::vector<U> a(d + 8, 0xEE), b(s + 8, 0x77), w;
                for (int i = 0; i < s; ++i) b[4 + i] = U(i * 3 + 1);
                auto b0 = b; w = a;
                step();
                if (f == 0) { ts::memset(a.data() + 4, devp(way & 1), size_t(d), b.data() + 4, devp(way >> 1), size_t(s)); if (s) for (int i = 0; i < d; ++i) w[4 + i] = b[4 + i % s]; }
                else { size_t n = ts::memcpy(a.data() + 4, devp(way & 1), size_t(d), b.data() + 4, devp(way >> 1), size_t(s)); for (int i = 0; i < std::min(d, s); ++i) w[4 + i] = b[4 + i]; if (n != size_t(std::min(d, s))) fail("bytes:count", "memcpy reports " + std::to_string(n) + " bytes for " + std::to_string(d) + " and " + std::to_string(s)); }
                if (a != w) fail(std::string("bytes:") + (f ? "copy" : "fill"), std::string(f ? "copying " : "filling ") + std::to_string(d) + " bytes from " + std::to_string(s) + " gives other bytes");
                if (b != b0) fail("bytes:source", "the source changed");
            }
        }
        for (int d = 0; d <= 6; ++d) for (int s = 0; s <= 6; ++s) for (int n = -1; n <= 7; ++n) {
            if (!take("copy between memories", [&] { return "memories: " + std::to_string(d) + " from " + std::to_string(s) + " count " + std::to_string(n); })) continue;
            for (int way = 0; way < 4; ++way) for (int sh = 0; sh < 2; ++sh) {
                ts::MemoryDevice da = way & 1 ? ts::MemoryDevice(ts::DeviceType("md"), 1) : ts::MemoryDevice(ts::CPU), db = way & 2 ? ts::MemoryDevice(ts::DeviceType("m2"), 0) : ts::MemoryDevice(ts::CPU);
                auto ha = std::make_shared<ts::HardMemory>(da, size_t(d + 2 * sh)), hb = std::make_shared<ts::HardMemory>(db, size_t(s + 2 * sh));
                ts::Memory a(ha, size_t(d), size_t(sh)), b(hb, size_t(s), size_t(sh));
                std::vector<U> wa(d + 2 * sh, 0xEE), wb(s + 2 * sh); for (size_t i = 0; i < wb.size(); ++i) wb[i] = U(i * 3 + 1);
                if (!wa.empty()) std::memcpy(ha->data(), wa.data(), wa.size());
                if (!wb.empty()) std::memcpy(hb->data(), wb.data(), wb.size());
                int want = n < 0 ? s : n; bool ok = want <= d && want <= s, threw = false;
                step();
                try { if (n < 0) ts::memcpy(a, b); else ts::memcpy(a, b, size_t(n)); } catch (const ts::Exception &) { threw = true; }
                if (threw == ok) fail("memories:refusal", ok ? "a valid copy was refused" : "a copy of more bytes than there are was accepted");
                if (ok) for (int i = 0; i < want; ++i) wa[sh + i] = wb[sh + i];
                if (!wa.empty() && std::memcmp(ha->data(), wa.data(), wa.size())) fail("memories:bytes", "the copy moved other bytes");
                if (!wb.empty() && std::memcmp(hb->data(), wb.data(), wb.size())) fail("memories:source", "the source changed");
            }
            if (!lerr.empty() || !live.empty()) { fail("memories:left", lerr.empty() ? "memory is not returned" : lerr); purge(); }
        }
    }
    // ---- the CPU allocator itself: what the heap says
    void heap(int depth) {
        static U *p[2]; static size_t n[2]; static std::vector<U> c[2]; static ts::HardAllocator::function f; static long base;
        auto used = [] { return long(mallinfo2().uordblks); };
        f = ts::HardAllocator::Query(ts::CPU);
        for (int i = 0; i < 2; ++i) {
            for (size_t k : {2000, 6000}) {
                op("p" + std::to_string(i) + " new " + std::to_string(k), [=]() -> std::string { p[i] = static_cast<U *>(f(0, k, p[i], 0)); n[i] = k; if (!p[i]) return "no memory"; for (size_t j = 0; j < k; ++j) p[i][j] = c[i][j] = U(j * 7 + size_t(++nextv)); return ""; });
                op("p" + std::to_string(i) + " keep " + std::to_string(k), [=]() -> std::string { size_t o = n[i]; p[i] = static_cast<U *>(f(0, k, p[i], o)); n[i] = k; if (!p[i]) return "no memory"; for (size_t j = 0; j < std::min(o, k); ++j) if (p[i][j] != c[i][j]) return "the common part is not kept"; for (size_t j = 0; j < k; ++j) p[i][j] = c[i][j] = U(j * 7 + size_t(++nextv)); return ""; });
            }
            op("p" + std::to_string(i) + " free", [=]() -> std::string { if (f(0, 0, p[i], i ? n[i] : 0)) return "no bytes have an address"; p[i] = nullptr; n[i] = 0; return ""; });
        }
        Hist T; T.nops = int(A.size()); T.name = [](int i) { return A[i].first; };
        static long h0; long sanity = 0;
        auto clear = [] { for (int i = 0; i < 2; ++i) { if (p[i]) f(0, 0, p[i], 0); p[i] = nullptr; n[i] = 0; } };
        for (int i = 0; i < 2; ++i) c[i].assign(6000, 0);
        T.reset = [=] { clear(); h0 = used(); };
        T.apply = [=](int i) -> std::string { auto e = A[i].second(); if (!e.empty()) return e;
            for (int k = 0; k < 2; ++k) for (size_t j = 0; j < n[k]; ++j) if (p[k][j] != c[k][j]) return "contents of a block changed";
            long have = used() - h0, need = long(n[0] + n[1]), slack = 32 + (n[0] ? 32 : 0) + (n[1] ? 32 : 0);
            if (have < need || have > need + slack) return "the heap holds " + std::to_string(have) + " bytes for " + std::to_string(need); return ""; };
        (void) sanity; (void) base;
        T.walk("cpu heap", depth); clear(); A.clear(); E.clear();
    }
}
int main(int argc, const char **argv) {
    parse(argc, argv); quiet(); ts_setup(); devices();
    bool sh = S().mode == "shallow"; int d = (S().thorough ? 1 : 0) - (sh ? 1 : 0);
    vats(5 + d, false); vats(7 + d, true); pots(5 + d);
    for (int k = 0; k < 3; ++k) hards(k, 4 + d);
    for (int k = 0; k < 2; ++k) {
        std::string t = kinds[k];
        handles("dynamic controller " + t, [t](int i) { return std::make_shared<ts::DynamicMemoryController>(ts::MemoryDevice(ts::DeviceType(t), i)); }, k, 5 + d);
        handles("pooling controller " + t, [t](int i) { return std::make_shared<ts::VatMemoryController>(ts::MemoryDevice(ts::DeviceType(t), i)); }, k, 5 + d);
    }
    mirrored(6 + d);
    bytes();
    if (!sh) heap(5);
    finish();
}
