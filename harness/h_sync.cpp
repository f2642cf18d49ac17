// Values mirrored on several devices: every sequence of reads, writes, views and device switches, on stand-in devices.
#include "hist.h"
#include "ops.h"
#include <core/sync/sync_block.h>
#include <core/sync/sync_memory.h>
#include <core/sync/sync_controller.h>
#include <global/hard_allocator.h>
#include <global/hard_converter.h>
using namespace vf;
namespace {
    typedef ts::MemoryDevice Dev;
    const std::vector<Dev> devs = {Dev(ts::CPU), Dev("m1", 0), Dev("m1", 1), Dev("m2", 0), Dev("nocv", 0), Dev("noal", 0)};
    const char *dn[] = {"cpu", "m1:0", "m1:1", "m2", "(no converter)", "(no allocator)"};
    struct Conv { std::string dst, src; };
    std::vector<Conv> convs;     // conversions since last cleared
    std::string conv_err;
    long live_blocks = 0;
    std::map<void *, int> owner;   // block -> device index
    int dev_of(const std::string &t, int id) { for (size_t i = 0; i < devs.size(); ++i) if (devs[i].type().std() == t && devs[i].id() == id) return int(i); return -1; }
    void setup() {
        for (auto t : {"m1", "m2", "nocv"}) { std::string type = t; ts::HardAllocator::Register(ts::DeviceType(t), [type](int id, size_t n, void *mem, size_t) -> void * {
            if (mem) { --live_blocks; owner.erase(mem); std::free(mem); }
            if (!n) return nullptr;
            void *p = std::malloc(n); ++live_blocks; owner[p] = dev_of(type, id); return p; }); }
        for (auto a : {"cpu", "m1", "m2"}) for (auto b : {"cpu", "m1", "m2"}) { if (std::string(a) == "cpu" && std::string(b) == "cpu") continue; std::string A = a, B = b;
            ts::HardConverter::Register(ts::DeviceType(a), ts::DeviceType(b), [A, B](int di, void *d, int si, const void *s, size_t n) {
                convs.push_back({A + ":" + std::to_string(di), B + ":" + std::to_string(si)});
                auto o = owner.find(d); if (A != "cpu" && (o == owner.end() || o->second != dev_of(A, di))) conv_err = "a conversion writes to memory of another device than it names";
                o = owner.find(const_cast<void *>(s)); if (B != "cpu" && (o == owner.end() || o->second != dev_of(B, si))) conv_err = "a conversion reads from memory of another device than it names";
                std::memcpy(d, s, n); }); }
    }
    std::string devname(int d) { return devs[d].type().std() + ":" + std::to_string(devs[d].id()); }
    // model: groups of handles that mirror one value
    struct Group { int value[2]; std::set<int> has; };
    struct Handle { int group; int dev; Handle(int g = -1, int d = 0) : group(g), dev(d) {} };

    // an implementation of mirrored handles (memory, tensors)
    struct Impl {
        virtual ~Impl() {}
        virtual void fresh(int h, int d, int v) = 0;
        virtual void copy(int d, int s) = 0;
        virtual void view(int d, int s, int dev) = 0;
        virtual void drop(int h) = 0;
        virtual int *at(int h, int field) = 0;
        virtual Dev device(int h) = 0;
        virtual void broadcast(int h) = 0;
        virtual void clear() = 0;
        int fields = 1;
    };
    struct Mem : Impl {
        std::unique_ptr<ts::SyncMemory> m[3]; int how; std::shared_ptr<ts::SyncMemoryController> ctl;
        explicit Mem(int how) : how(how) { mk(); }
        void mk() { if (how >= 2) ctl = ts::DynamicSyncMemoryController::Make(devs[0], how == 3); }
        void fresh(int h, int d, int v) override {
            std::unique_ptr<ts::SyncMemory> n;
            if (ctl) n.reset(new ts::SyncMemory(ctl->alloc(devs[d], 4))); else n.reset(new ts::SyncMemory(devs[d], 4, how == 1));
            m[h] = std::move(n); *at(h, 0) = v; }
        void copy(int d, int s) override { m[d].reset(new ts::SyncMemory(*m[s])); }
        void view(int d, int s, int dev) override { std::unique_ptr<ts::SyncMemory> n(new ts::SyncMemory(m[s]->view(devs[dev]))); m[d] = std::move(n); }
        void drop(int h) override { m[h].reset(); }
        int *at(int h, int) override { return m[h]->data<int>(); }
        Dev device(int h) override { return m[h]->device(); }
        void broadcast(int h) override { m[h]->broadcast(); }
        void clear() override { for (auto &x : m) x.reset(); ctl.reset(); mk(); }
    };
    struct Tens : Impl {
        ts::Tensor t[3]; bool packed; std::shared_ptr<ts::SyncMemoryController> ctl;
        explicit Tens(bool packed) : packed(packed) { fields = packed ? 2 : 1; }
        void fresh(int h, int d, int v) override {
            ts::Tensor x(devs[d], ts::INT32, ts::Shape({1}));
            if (packed) x = ts::Tensor::Pack({x, ts::Tensor(devs[d], ts::INT32, ts::Shape({1}))});
            t[h] = x; for (int f = 0; f < fields; ++f) *at(h, f) = v + f * 1000; }
        void copy(int d, int s) override { t[d] = t[s]; }
        void view(int d, int s, int dev) override { auto x = t[s].view(devs[dev]); t[d] = x; }
        void drop(int h) override { t[h] = ts::Tensor(); }
        int *at(int h, int f) override { auto x = t[h].field(size_t(f)); return x.data<int>(); }
        Dev device(int h) override { return t[h].device(); }
        void broadcast(int h) override { t[h].broadcast(); }
        void clear() override { for (auto &x : t) x = ts::Tensor(); }
    };
    struct Sys {
        std::unique_ptr<Impl> I; Handle h[3]; std::vector<Group> g; int nextv = 1; bool pending = false;
        std::string counted;
        // every conversion made during the last operation must have been needed
        std::string needed(int grp, int lacking) {
            std::ostringstream o;
            if (!conv_err.empty()) return conv_err;
            // copying the data out (clone) is not among the operations, so every conversion brings a device up to date
            std::map<std::string, int> n; for (auto &c : convs) n[c.dst]++;
            for (auto &c : n) {
                int d = -1; for (size_t i = 0; i < devs.size(); ++i) if (devname(int(i)) == c.first) d = int(i);
                if (d != lacking) { o << "a conversion to " << c.first << " nobody asked for"; return o.str(); }
                if (grp < 0 || g[grp].has.count(d)) { o << "a conversion to " << c.first << " although it had the current value"; return o.str(); }
                if (c.second > I->fields) { o << c.second << " conversions to " << c.first; return o.str(); }
                g[grp].has.insert(d);
            }
            convs.clear();
            return "";
        }
        std::string read(int i) {
            std::ostringstream o;
            if (I->device(i) != devs[h[i].dev]) return "a handle names another device";
            for (int f = 0; f < I->fields; ++f) { int v = *I->at(i, f); if (v != g[h[i].group].value[f]) { o << "handle " << i << " on " << dn[h[i].dev] << " reads " << v << " instead of " << g[h[i].group].value[f]; return o.str(); } }
            for (int f = 0; f < I->fields; ++f) { auto w = owner.find(I->at(i, f)); if (h[i].dev != 0 && (w == owner.end() || w->second != h[i].dev)) return "the memory of a handle belongs to another device"; }
            auto e = needed(h[i].group, h[i].dev);
            g[h[i].group].has.insert(h[i].dev);
            return e;
        }
        uint64_t hash() const { std::map<int, int> c; std::string k; for (auto &x : h) { if (x.group < 0) { k += "-"; continue; } k += std::to_string(c.insert({x.group, int(c.size())}).first->second) + "@" + std::to_string(x.dev); for (int d : g[x.group].has) k += "," + std::to_string(d); k += ";"; } return hash_str(k); }
        // all handles, read at the end of every history
        std::string all() { for (int i = 0; i < 3; ++i) if (h[i].group >= 0) { auto e = read(i); if (!e.empty()) return e; } return ""; }
    };
    Sys Z;
    typedef std::function<std::string()> Act;
    std::vector<std::pair<std::string, Act>> A;
    void op(const std::string &n, const Act &a) { A.push_back({n, a}); }
    void history(const std::string &cls, std::function<Impl *()> mk, int depth) {
        A.clear();
        for (int d : {0, 1, 3}) op(std::string("h0=new on ") + dn[d], [=]() -> std::string { int v = Z.nextv++; Z.I->fresh(0, d, v); Z.h[0].group = int(Z.g.size()); Z.h[0].dev = d; Group q; q.value[0] = v; q.value[1] = v + 1000; q.has = {d}; Z.g.push_back(q); return Z.needed(-1, -1); });
        for (auto p : std::vector<std::pair<int, int>>{{0, 1}, {1, 2}, {2, 0}}) op("h" + std::to_string(p.second) + "=h" + std::to_string(p.first), [=]() -> std::string { if (Z.h[p.first].group < 0) return ""; Z.I->copy(p.second, p.first); Z.h[p.second] = Z.h[p.first]; return Z.needed(-1, -1); });
        for (auto p : std::vector<std::array<int, 3>>{{{0, 1, 0}}, {{0, 1, 1}}, {{0, 1, 2}}, {{0, 2, 3}}, {{1, 2, 0}}, {{1, 2, 1}}, {{0, 0, 1}}, {{2, 0, 0}}, {{0, 1, 4}}, {{0, 1, 5}}})
            op("h" + std::to_string(p[1]) + "=h" + std::to_string(p[0]) + ".view(" + dn[p[2]] + ")", [=]() -> std::string {
                int s = p[0], d = p[1], dev = p[2]; if (Z.h[s].group < 0) return "";
                if (dev >= 4) { try { Z.I->view(d, s, dev); } catch (const std::exception &) {
                        // refused; fetching the current value on the handle's own device is fine
                        return Z.needed(Z.h[s].group, Z.h[s].dev); } return std::string("a view on a device ") + dn[dev] + " was accepted"; }
                Z.I->view(d, s, dev); int grp = Z.h[s].group; Z.h[d] = {grp, dev}; return Z.needed(grp, dev); });
        for (int i = 0; i < 3; ++i) {
            op("write h" + std::to_string(i), [=]() -> std::string { if (Z.h[i].group < 0) return ""; int v = Z.nextv++; auto &q = Z.g[Z.h[i].group];
                for (int f = 0; f < Z.I->fields; ++f) *Z.I->at(i, f) = v + f * 1000;
                auto e = Z.needed(Z.h[i].group, Z.h[i].dev); if (!e.empty()) return e;
                Z.I->broadcast(i); q.value[0] = v; q.value[1] = v + 1000; q.has = {Z.h[i].dev}; return Z.needed(-1, -1); });
            op("read h" + std::to_string(i), [=]() -> std::string { if (Z.h[i].group < 0) return ""; return Z.read(i); });
            op("drop h" + std::to_string(i), [=]() -> std::string { Z.I->drop(i); Z.h[i].group = -1; return Z.needed(-1, -1); });
        }
        Hist H; H.nops = int(A.size());
        int at = 0;
        H.reset = [&] { if (!Z.I) Z.I.reset(mk()); Z.I->clear(); for (auto &x : Z.h) x = Handle(); Z.g.clear(); Z.nextv = 1; at = 0; convs.clear(); conv_err.clear();
            Z.I->fresh(0, 0, 500); Z.h[0] = {0, 0}; Group q; q.value[0] = 500; q.value[1] = 1500; q.has = {0}; Z.g.push_back(q); convs.clear(); };
        H.name = [](int i) { return A[i].first; };
        H.apply = [&](int i) -> std::string { try {
                auto e = A[i].second(); if (!e.empty()) return e;
                if (++at == depth) {
                    e = Z.all(); if (!e.empty()) return e + " (read at the end)";
                    Z.I->clear(); if (live_blocks) return std::to_string(live_blocks) + " blocks are still allocated after every handle is gone";
                }
                return "";
            } catch (const std::exception &e) { return std::string("a valid operation was refused: ") + e.what(); } };
        H.hash = [] { return Z.hash(); };
        H.walk(cls, depth);
        if (Z.I) Z.I->clear(); Z.I.reset();
    }
    // the block itself, with counted conversions that may fail
    void blocks(int depth, bool lock) {
        typedef ts::SyncBlock<int, int> B;
        static std::shared_ptr<B> b[3]; static int dev[3]; static std::set<int> has; static int cv; static bool broken; static std::string log;
        A.clear();
        auto chk = [](int want, int got, int lacks) -> std::string {
            std::ostringstream o;
            if (got != want) { o << "the value is " << got << " instead of " << want; return o.str(); }
            if (cv > lacks) { o << cv << " conversions where " << lacks << " were needed"; return o.str(); }
            cv = 0; return log; };
        for (int i = 0; i < 3; ++i) {
            for (int k : {0, 1, 2}) op("b" + std::to_string(i) + ".sync(" + std::to_string(k) + ")", [=]() -> std::string { if (!b[i]) return ""; int l = has.count(k) ? 0 : 1; 
                if (l && broken) { try { b[i]->sync(k); return "a failed conversion was not reported"; } catch (const std::exception &) { broken = false; return ""; } }
                int v = b[i]->sync(k); has.insert(k); return chk(7 + k, v, l); });
            op("b" + std::to_string(i) + ".value()", [=]() -> std::string { if (!b[i]) return ""; bool l = !has.count(dev[i]);
                if (l && broken) { try { b[i]->value(); return "a failed conversion was not reported"; } catch (const std::exception &) { broken = false; return ""; } }
                if (b[i]->key() != dev[i]) return "key() names another device"; int v = b[i]->value(); has.insert(dev[i]); return chk(7 + dev[i], v, l); });
            op("b" + std::to_string(i) + ".broadcast()", [=]() -> std::string { if (!b[i]) return ""; bool l = !has.count(dev[i]);
                if (l && broken) { try { b[i]->broadcast(); return "a failed conversion was not reported"; } catch (const std::exception &) { broken = false; return ""; } }
                b[i]->broadcast(); has = {dev[i]}; int n = 0; b[i]->foreach([&](const int &k, const int &v) { ++n; if (k != dev[i] || v != 7 + k) log = "another value is kept after broadcast"; }); if (n != 1) return "values of other devices are kept after broadcast"; 
                return chk(0, 0, l); });
            for (int j = 0; j < 3; ++j) for (int k : {0, 1}) if (i != j) op("b" + std::to_string(j) + "=b" + std::to_string(i) + ".view(" + std::to_string(k) + ")", [=]() -> std::string { if (!b[i]) return ""; int l = has.count(k) ? 0 : 1;
                if (l && broken) { try { auto x = b[i]->view(k); x->value(); return "a failed conversion was not reported"; } catch (const std::exception &) { broken = false; return ""; } }
                b[j] = b[i]->view(k); dev[j] = k; int r = cv; if (r > l) return chk(0, 0, l); if (b[j]->key() != k) return "a view names another device"; int v = b[j]->value(); has.insert(k); return chk(7 + k, v, l); });
        }
        op("next conversion fails", []() -> std::string { broken = true; return ""; });
        Hist H; H.nops = int(A.size());
        H.reset = [=] { cv = 0; broken = false; log.clear(); has = {0}; for (auto &x : b) x.reset();
            // the value of device k is 7 + k, so a conversion must add the difference of the devices it is told
            b[0] = std::make_shared<B>(0, 7, [](const int &v, const int &from, const int &to) -> int { if (broken) throw ts::Exception("broken"); ++cv; if (v != 7 + from) log = "a conversion is given a value that is not the value of the device it names"; if (!has.count(from)) log = "a conversion starts from a device without the current value"; return v + to - from; }, lock); dev[0] = 0; };
        H.name = [](int i) { return A[i].first; };
        H.apply = [](int i) -> std::string { try { return A[i].second(); } catch (const std::exception &e) { return std::string("a valid operation was refused: ") + e.what(); } };
        H.hash = [] { std::string k = broken ? "B" : "."; for (int i = 0; i < 3; ++i) k += b[i] ? std::to_string(dev[i]) : "-"; for (int x : has) k += "," + std::to_string(x); return hash_str(k); };
        H.walk(lock ? "locked block" : "block", depth);
        for (auto &x : b) x.reset();
    }
}
int main(int argc, const char **argv) {
    parse(argc, argv); quiet(); ts_setup(); setup();
    // two devices are the same when name and number are; the order is total and the six comparisons agree: maps
    // from devices to copies rely on it
    {
        std::vector<std::pair<std::string, int>> d; for (auto n : {"", "cpu", "cpv", "gpu", "portal"}) for (int i : {-233, -1, 0, 1, 2}) d.push_back({n, i});
        auto all = [&](const std::function<std::string(const std::vector<std::function<bool(int, int)>> &, int, int)> &f, int a, int b) -> std::string {
            std::vector<ts::MemoryDevice> m; std::vector<ts::ComputingDevice> c; for (auto &x : d) { m.emplace_back(ts::DeviceType(x.first), x.second); c.emplace_back(ts::DeviceType(x.first), x.second); }
            std::string e = f({[&](int p, int q) { return m[p] < m[q]; }, [&](int p, int q) { return m[p] > m[q]; }, [&](int p, int q) { return m[p] <= m[q]; }, [&](int p, int q) { return m[p] >= m[q]; }, [&](int p, int q) { return m[p] == m[q]; }, [&](int p, int q) { return m[p] != m[q]; }}, a, b);
            if (!e.empty()) return "memory devices: " + e;
            e = f({[&](int p, int q) { return c[p] < c[q]; }, [&](int p, int q) { return c[p] > c[q]; }, [&](int p, int q) { return c[p] <= c[q]; }, [&](int p, int q) { return c[p] >= c[q]; }, [&](int p, int q) { return c[p] == c[q]; }, [&](int p, int q) { return c[p] != c[q]; }}, a, b);
            return e.empty() ? "" : "computing devices: " + e; };
        for (int a = 0; a < int(d.size()); ++a) for (int b = 0; b < int(d.size()); ++b) {
            if (!take("devices", [&] { return d[a].first + ":" + std::to_string(d[a].second) + " and " + d[b].first + ":" + std::to_string(d[b].second); })) continue;
            step();
            auto e = all([&](const std::vector<std::function<bool(int, int)>> &r, int a, int b) -> std::string {
                bool eq = d[a] == d[b], lt = r[0](a, b);
                if (r[4](a, b) != eq || r[5](a, b) == eq) return "equality is wrong";
                if (int(lt) + int(r[0](b, a)) + int(eq) != 1) return "neither equal nor ordered in one direction";
                if (r[1](a, b) != r[0](b, a) || r[2](a, b) != (lt || eq) || r[3](a, b) != !lt) return "the comparisons contradict each other";
                for (int c = 0; c < int(d.size()); ++c) if (lt && r[0](b, c) && !r[0](a, c)) return "the order is not transitive with " + d[c].first + ":" + std::to_string(d[c].second);
                return ""; }, a, b);
            if (!e.empty()) fail("devices", e);
        }
    }
    int depth = (S().thorough ? 5 : 4) - (S().mode == "shallow" ? 1 : 0);
    history("plain memory", [] { return new Mem(0); }, depth);
    history("locked memory", [] { return new Mem(1); }, depth - 1);
    history("controller memory", [] { return new Mem(2); }, depth);
    history("locked controller memory", [] { return new Mem(3); }, depth - 1);
    history("tensor", [] { return new Tens(false); }, depth);
    history("packed tensor", [] { return new Tens(true); }, depth - 1);
    blocks(depth, false); blocks(depth - 1, true);
    finish();
}
