// Damaged model files: every cut, every changed byte, every overwritten structural field and pair of fields.
#include "ops.h"
#include "modfmt.h"
#include <module/menu.h>
#include <module/io/fstream.h>
#include <module/io/sstream.h>
#include <core/tensor_builder.h>
#include <api/module.h>
#include "../src/api/declare_module.h"
#include <unistd.h>
#include <malloc.h>
using namespace vf;
using namespace ts;
#ifndef __SANITIZE_ADDRESS__
namespace { size_t big_new = 0; bool watch_new = false; }
void *operator new(size_t n) { if (watch_new && n > big_new) big_new = n; if (watch_new && n > (size_t(1) << 30)) throw std::bad_alloc(); void *p = std::malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void *p) noexcept { std::free(p); }
void operator delete(void *p, size_t) noexcept { std::free(p); }
#else
namespace { size_t big_new = 0; bool watch_new = false; }
#endif
namespace {
    std::string dir;
    std::string path(const std::string &n) { return dir + "/" + n; }
    void spit(const std::string &p, const std::string &b) { std::ofstream f(p, std::ios::binary); f << b; }
    struct CIn { const std::string *b; size_t at; };
    uint64_t c_read(void *o, char *d, uint64_t n) { auto c = static_cast<CIn *>(o); n = std::min<uint64_t>(n, c->b->size() - c->at); std::memcpy(d, c->b->data() + c->at, n); c->at += n; return n; }
    void c_rewind(void *o) { static_cast<CIn *>(o)->at = 0; }
    Module::shared viac(ts_Module *m) { if (!m) { if (!*ts_last_error_message()) throw std::runtime_error("no message"); throw Exception("refused"); } auto p = m->pointer; ts_free_Module(m); return p; }
    std::vector<std::string> files;
    std::string good; std::string good_text;
    const char *WAY[] = {"Load(stream)", "Load(file)", "LoadV2(stream)", "LoadV2(file)", "ts_Module_LoadFromStream", "ts_Module_LoadFromStreamV2", "ts_Module_Load", "ts_Module_LoadV2"};
    Module::shared load(int way, const std::string &b) {
        if (way == 1 || way == 3 || way == 6 || way == 7) spit(path("d"), b);
        switch (way) {
            case 0: { StringStreamReader in(b); return Module::Load(in); }
            case 1: return Module::Load(path("d"));
            case 2: { mf::In2 in(b); return Module::LoadV2(in, "", 0); }
            case 3: return Module::LoadV2(path("d"), "", 0);
            case 4: { CIn in = {&b, 0}; return viac(ts_Module_LoadFromStream(&in, c_read, TS_BINARY)); }
            case 5: { CIn in = {&b, 0}; return viac(ts_Module_LoadFromStreamV2(&in, c_read, c_rewind, nullptr, 0, TS_BINARY)); }
            case 6: return viac(ts_Module_Load(path("d").c_str(), TS_BINARY));
            default: return viac(ts_Module_LoadV2(path("d").c_str(), "", 0, TS_BINARY));
        } }
    // the semantic part of being well formed: inputs are parameters and include every parameter in use
    std::string semantic(const Module &m) {
        for (auto &n : m.inputs()) if (n->op() != Bubble::Parameter) return "an input of the loaded module is no parameter";
        for (auto &n : m.outputs()) (void) n;
        return ""; }
    void judge(const std::string &key, const std::string &b, int way) {
        std::string why, want;
        try { mf::Parser p(b); want = mf::canon(p.module()); } catch (const mf::Bad &x) { why = x.why; }
        step();
        Module::shared m; bool threw = false; std::string what;
        big_new = 0; watch_new = true;
        try { m = load(way, b); } catch (const std::exception &e) { threw = true; what = e.what(); }
        watch_new = false;
        if (what == "no message") fail(key, std::string(WAY[way]) + " fails without a message");
        if (big_new > (size_t(1) << 28)) fail(key, std::string(WAY[way]) + " asks for " + std::to_string(big_new) + " bytes to read a file of " + std::to_string(b.size()));
        if (!threw && !m) { fail(key, std::string(WAY[way]) + " gives neither a module nor an error"); return; }
        if (!threw && !why.empty()) { fail(key, std::string(WAY[way]) + " loads a file in which " + why); }
        if (!threw && why.empty()) {
            auto t = mf::canon(*m); if (t != want) fail(key, std::string(WAY[way]) + " gives a module the file does not hold: " + t.substr(0, 400) + " instead of " + want.substr(0, 400));
            else { auto e = semantic(*m); if (!e.empty()) fail(key, std::string(WAY[way]) + ": " + e);
                try { mf::Out o; Module::Save(o, m); mf::Parser p(o.b); if (mf::canon(p.module()) != want) fail(key, "the loaded module saves as another"); } catch (const std::exception &x) { fail(key, std::string("the loaded module cannot be saved: ") + x.what()); } catch (const mf::Bad &x) { fail(key, "the loaded module saves as a broken file: " + x.why); } }
            state(hash_str(want));
        } else state(hash_str(threw ? "refused " + what.substr(what.find(']') == std::string::npos ? 0 : what.find(']')) : "?"));
        // the library still loads what is intact
        try { mf::In in(good); auto g = Module::Load(in); if (mf::canon(*g) != good_text) fail(key, "after a damaged file an intact one loads differently"); } catch (const std::exception &x) { fail(key, std::string("after a damaged file an intact one is refused: ") + x.what()); }
    }
    Tensor value(int i) { Tensor t(FLOAT32, Shape({2})); t.data<float>()[0] = float(i + 1) * 1.5f; t.data<float>()[1] = -float(i); return t; }
    void make() {
        auto mod = [&](const std::function<std::vector<Node>()> &f) { Graph g; ctx::bind<Graph> _b(g); auto o = f(); mf::Out w; Module::Save(w, Module::Load(g, o)); files.push_back(w.b); };
        mod([] { auto p = bubble::param("x", FLOAT32, Shape({-1, 2})); auto c = bubble::data("c", value(1)); auto n = bubble::op("n", "sub", {p, c}); return std::vector<Node>{n}; });
        mod([] { auto a = bubble::param("a"), b = bubble::param("b"); Tensor e(UINT8, Shape({1, 3})); std::memcpy(e.data(), "abc", 3); auto c = bubble::data("c", Tensor::Pack({value(1), e})); auto s = bubble::op("s", "sub", {a, b}); s->set("#output_count", tensor::from<int32_t>(1)); auto u = bubble::op("u", "_pack", {s, s, c}); return std::vector<Node>{u, a}; });
        mod([] { return std::vector<Node>{bubble::param("only")}; });
        good = files[0]; mf::In in(good); good_text = mf::canon(*Module::Load(in)); }
}
int main(int argc, const char **argv) {
    parse(argc, argv); quiet(); mallopt(M_PERTURB, 0);   // a damaged size may ask for gigabytes that are never filled
    ts_setup();
    char tmp[] = "./damage.XXXXXX"; dir = mkdtemp(tmp);
    make();
    bool sh = S().mode == "shallow"; int ways = 8;
    for (size_t f = 0; f < files.size(); ++f) {
        auto &b = files[f]; std::string F = std::to_string(f);
        std::vector<mf::Pos> pos; { mf::Parser p(b, &pos); p.module(); }
        for (size_t n = 0; n < b.size(); ++n) if (take("cut short", [&] { return "file " + F + " after " + std::to_string(n) + " of " + std::to_string(b.size()); })) for (int w = 0; w < ways; ++w) judge("cut:" + F + "@" + std::to_string(n), b.substr(0, n), w);
        for (size_t n = 0; n < b.size(); ++n) {
            if (n >= 12 && n < 128) continue;   // reserved bytes
            if (!take("one byte changed", [&] { return "file " + F + " at " + std::to_string(n); })) continue;
            --S().evaluations;
            for (int v = 0; v < (S().thorough ? 256 : 14); ++v) {
                static const int K[] = {0, 1, 2, 7, 8, 31, 33, 64, 127, 128, 255};
                std::string d = b; unsigned char o = (unsigned char) b[n]; d[n] = char(S().thorough ? v : v < 11 ? K[v] : v == 11 ? o + 1 : v == 12 ? o - 1 : o ^ 0x80); if (d[n] == b[n]) continue;
                ++S().evaluations; for (int w = 0; w < (sh ? 1 : S().thorough ? 2 : 1); ++w) judge("byte:" + F + "@" + std::to_string(n) + "=" + std::to_string((unsigned char) d[n]), d, w); }
        }
        static const uint32_t V[] = {0, 1, 2, 3, 7, 8, 9, 0x20, 0x7f, 0x80, 0xff, 0xffff, 0x10000, 0x10001, 0x1000000, 0x40000000, 0x7fffffff, 0x80000000u, 0xfffffffeu, 0xffffffffu};
        auto put = [&](std::string &d, const mf::Pos &p, uint32_t v) { if (p.len == 1) d[p.at] = char(v); else std::memcpy(&d[p.at], &v, 4); };
        auto get = [&](const mf::Pos &p) -> uint32_t { if (p.len == 1) return (unsigned char) b[p.at]; uint32_t v; std::memcpy(&v, &b[p.at], 4); return v; };
        for (size_t i = 0; i < pos.size(); ++i) {
            if (!take("field overwritten", [&] { return "file " + F + " " + pos[i].what + " at " + std::to_string(pos[i].at); })) continue;
            --S().evaluations;
            std::set<uint32_t> vs(V, V + 20); vs.insert(get(pos[i]) + 1); vs.insert(get(pos[i]) - 1); vs.insert(uint32_t(b.size())); vs.erase(get(pos[i]));
            for (auto v : vs) { ++S().evaluations; std::string d = b; put(d, pos[i], v); for (int w = 0; w < (sh ? 4 : ways); ++w) judge("field:" + F + ":" + pos[i].what + "@" + std::to_string(pos[i].at) + "=" + std::to_string(v), d, w); }
        }
        if (!sh || f == 0) for (size_t i = 0; i < pos.size(); ++i) for (size_t j = i + 1; j < pos.size(); ++j) {
            bool near = j - i <= 3; if (!near && f == 1 && !S().thorough) continue;
            if (!take("two fields overwritten", [&] { return "file " + F + " " + pos[i].what + " at " + std::to_string(pos[i].at) + ", " + pos[j].what + " at " + std::to_string(pos[j].at); })) continue;
            --S().evaluations;
            std::vector<uint32_t> vi = {0, 1, 2, 0x10000, 0x40000000, 0x7fffffff, 0xffffffffu, get(pos[i]) + 1, get(pos[i]) - 1}, vj = {0, 1, 2, 0x10000, 0x40000000, 0x7fffffff, 0xffffffffu, get(pos[j]) + 1, get(pos[j]) - 1};
            for (auto x : vi) for (auto y : vj) { if (x == get(pos[i]) || y == get(pos[j])) continue; ++S().evaluations; std::string d = b; put(d, pos[i], x); put(d, pos[j], y); judge("fields:" + F + ":" + pos[i].what + "@" + std::to_string(pos[i].at) + "=" + std::to_string(x) + "," + pos[j].what + "@" + std::to_string(pos[j].at) + "=" + std::to_string(y), d, 0); }
        }
        // bytes taken away or doubled in the middle
        for (size_t n = 124; n < b.size(); ++n) if (take("bytes lost or doubled", [&] { return "file " + F + " at " + std::to_string(n); })) {
            --S().evaluations;
            for (size_t k = 1; k <= 8 && n + k <= b.size(); k = k == 1 ? 4 : k + 4) { S().evaluations += 2; judge("lost:" + F + "@" + std::to_string(n) + "+" + std::to_string(k), b.substr(0, n) + b.substr(n + k), 0); judge("doubled:" + F + "@" + std::to_string(n) + "+" + std::to_string(k), b.substr(0, n + k) + b.substr(n), 0); } }
    }
    // tensors on their own
    { Tensor e(UINT8, Shape({1, 3})); std::memcpy(e.data(), "abc", 3); mf::Out o; Tensor::Pack({value(1), e}).serialize(o); std::string b = o.b;
        auto one = [&](const std::string &key, const std::string &d, int way) { std::string why, want; try { mf::Parser p(d); want = mf::show(p.tensor()); } catch (const mf::Bad &x) { why = x.why; } step(); Tensor t; bool threw = false;
            big_new = 0; watch_new = true;
            try { if (way == 0) { mf::In in(d); t.externalize(in); } else { spit(path("d"), d); t = tensor::load(path("d")); } } catch (const std::exception &) { threw = true; }
            watch_new = false; if (big_new > (size_t(1) << 28)) fail(key, "asks for " + std::to_string(big_new) + " bytes to read " + std::to_string(d.size()));
            if (!threw && !why.empty()) fail(key, "a tensor is read from bytes in which " + why); if (!threw && why.empty() && !(want.empty() && t.count() == 1) && mf::show(mf::pack_of(t)) != want) fail(key, "another tensor is read: " + mf::show(mf::pack_of(t)) + " instead of " + want); };
        for (size_t n = 0; n < b.size(); ++n) if (take("tensor cut short", [&] { return std::to_string(n); })) for (int w = 0; w < 2; ++w) one("tensor cut@" + std::to_string(n), b.substr(0, n), w);
        for (size_t n = 0; n < b.size(); ++n) if (take("tensor byte changed", [&] { return std::to_string(n); })) for (int v = 0; v < 256; ++v) { std::string d = b; d[n] = char(v); one("tensor byte@" + std::to_string(n) + "=" + std::to_string(v), d, 0); }
    }
    if (take("no such file", [] { return "missing and unreadable"; })) for (auto p : {"/no/such/file", "", "."}) for (int w = 0; w < 4; ++w) { bool threw = false; try { if (w == 0) Module::Load(std::string(p)); else if (w == 1) Module::LoadV2(std::string(p), "", 0); else if (w == 2) viac(ts_Module_Load(p, TS_BINARY)); else viac(ts_Module_LoadV2(p, "", 0, TS_BINARY)); } catch (const std::exception &e) { threw = std::string(e.what()) != "no message"; } if (!threw) fail("missing:" + std::string(p) + ":" + std::to_string(w), "a file that cannot be read is not reported"); }
    std::remove(path("d").c_str()); rmdir(dir.c_str());
    finish();
}
