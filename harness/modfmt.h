// The documented module file format (doc/zh_CN/module.md), read independently of the library,
// and a canonical text of a module that two equal modules share.
#ifndef VF_MODFMT_H
#define VF_MODFMT_H
#include "vf.h"
#include <module/module.h>
#include <module/graph.h>
#include <module/bubble.h>
#include <module/io/stream.h>
#include <core/tensor.h>
namespace mf {
    struct TField { int dtype; std::vector<int> dims; std::string bytes; };
    typedef std::vector<TField> TPack;
    struct Nd { std::map<std::string, TPack> params; std::vector<uint32_t> in; };
    struct Mod { std::vector<uint32_t> ins, outs; std::vector<Nd> nodes; };
    struct Pos { size_t at; int len; const char *what; };
    inline int width(int t) { static const int w[] = {0, 1, 1, 2, 2, 4, 4, 8, 8, 2, 4, 8, 8, 1, 2, 4, 1, 2, 4, 8, 16, 1, 4, 8, 16, 1, 1, 1, 1, 1, 1, 1, 1}; return t >= 0 && t <= 32 ? w[t] : -1; }
    inline std::string show(const TPack &p) { std::ostringstream o; for (auto &f : p) { o << "<" << f.dtype << "["; for (int d : f.dims) o << d << ","; o << "]"; static const char *x = "0123456789abcdef"; for (unsigned char c : f.bytes) o << x[c >> 4] << x[c & 15]; o << ">"; } return o.str(); }
    struct Bad { std::string why; };
    struct Parser {
        const std::string &b; size_t at = 0; std::vector<Pos> *pos; uint64_t biggest = 0;
        Parser(const std::string &b, std::vector<Pos> *pos = nullptr) : b(b), pos(pos) {}
        void need(size_t n) { if (b.size() - at < n) throw Bad{"the file ends early"}; }
        void mark(int len, const char *what) { if (pos) pos->push_back({at, len, what}); }
        uint32_t u32(const char *what) { mark(4, what); need(4); uint32_t v; std::memcpy(&v, b.data() + at, 4); at += 4; return v; }
        std::string raw(size_t n) { need(n); std::string s = b.substr(at, n); at += n; return s; }
        TPack tensor() {
            TPack p; uint32_t n = u32("field count");
            for (uint32_t i = 0; i < n; ++i) {
                TField f; mark(1, "type code"); need(1); f.dtype = (unsigned char)(b[at++]); if (width(f.dtype) < 0) throw Bad{"unknown type code"};
                uint32_t r = u32("rank"); if (r > 7) throw Bad{"more than seven sizes"};
                double count = 1; for (uint32_t k = 0; k < r; ++k) { f.dims.push_back(int(u32("size"))); if (f.dims.back() < 0) throw Bad{"a size is negative"}; count *= f.dims.back(); }
                // an element count beyond an int cannot be told from a smaller one
                bool zero = count == 0; double c = 1; for (int d : f.dims) if (!zero || d) c *= d; if (!zero && c > 2147483647.) throw Bad{"too many elements"};
                f.bytes = raw(size_t(count) * size_t(width(f.dtype))); p.push_back(f);
            }
            return p; }
        Nd node() {
            Nd d; uint32_t n = u32("parameter count");
            for (uint32_t i = 0; i < n; ++i) { uint32_t l = u32("name length"); std::string name = raw(l); auto t = tensor(); d.params.insert({name, t}); }
            uint32_t m = u32("input count"); for (uint32_t i = 0; i < m; ++i) d.in.push_back(u32("input index"));
            return d; }
        Mod module() {
            Mod m; need(128); mark(4, "reserved"); at += 4; uint32_t code = u32("code"); if (code != 0x19910929u) throw Bad{"another code"}; at += 120;
            uint32_t n = u32("module input count"); for (uint32_t i = 0; i < n; ++i) m.ins.push_back(u32("module input index"));
            n = u32("module output count"); for (uint32_t i = 0; i < n; ++i) m.outs.push_back(u32("module output index"));
            n = u32("node count"); for (uint32_t i = 0; i < n; ++i) m.nodes.push_back(node());
            for (auto i : m.ins) if (i >= m.nodes.size()) throw Bad{"a module input index outside the nodes"};
            for (auto i : m.outs) if (i >= m.nodes.size()) throw Bad{"a module output index outside the nodes"};
            for (auto &d : m.nodes) for (auto i : d.in) if (i >= m.nodes.size()) throw Bad{"an input index outside the nodes"};
            std::vector<int> color(m.nodes.size(), 0);
            std::function<void(size_t)> walk = [&](size_t i) { if (color[i] == 1) throw Bad{"nodes depend on themselves"}; if (color[i]) return; color[i] = 1; for (auto j : m.nodes[i].in) walk(j); color[i] = 2; };
            for (size_t i = 0; i < m.nodes.size(); ++i) walk(i);
            return m; }
    };
    // canonical text: nodes are numbered in the order they are met from the outputs, then the inputs
    template <typename K> struct Canon {
        std::function<std::vector<K>(const K &)> in; std::function<std::string(const K &)> text; std::map<K, int> id; std::ostringstream o;
        int visit(const K &k) { auto it = id.find(k); if (it != id.end()) return it->second; std::vector<int> a; for (auto &x : in(k)) a.push_back(visit(x)); int n = int(id.size()); id[k] = n; o << "n" << n << "=" << text(k) << "("; for (int x : a) o << x << ","; o << ")\n"; return n; }
        std::string run(const std::vector<K> &outs, const std::vector<K> &ins) { std::string t; for (auto &k : outs) t += " " + std::to_string(visit(k)); t += " in"; for (auto &k : ins) t += " " + std::to_string(visit(k)); return o.str() + "out" + t; }
    };
    inline std::string canon(const Mod &m) {
        Canon<uint32_t> c; c.in = [&](const uint32_t &i) { return m.nodes[i].in; };
        c.text = [&](const uint32_t &i) { std::string s; for (auto &p : m.nodes[i].params) s += p.first + ":" + show(p.second) + ";"; return s; };
        return c.run(m.outs, m.ins); }
    inline TPack pack_of(const ts::Tensor &t) { TPack p; for (auto &f0 : t.unpack()) { auto f = f0.view(ts::MemoryDevice(ts::CPU)); TField x; x.dtype = int(f.dtype()); for (int d : f.sizes()) x.dims.push_back(d); int n = f.count(); if (n > 0) x.bytes.assign(static_cast<const char *>(f.data()), size_t(n) * size_t(std::max(0, width(x.dtype)))); p.push_back(x); } return p; }
    inline std::string canon(const ts::Module &m) {
        Canon<uint64_t> c; std::map<uint64_t, ts::Node> by; auto key = [&](const ts::Node &n) { auto k = uint64_t(reinterpret_cast<uintptr_t>(n.ptr())); by.insert({k, n}); return k; };
        c.in = [&](const uint64_t &i) { std::vector<uint64_t> v; for (auto &n : by.at(i).inputs()) v.push_back(key(n)); return v; };
        c.text = [&](const uint64_t &i) { auto &b = by.at(i).bubble(); std::map<std::string, TPack> s; for (auto &p : b.params()) s[p.first] = pack_of(p.second); std::string r; for (auto &p : s) r += p.first + ":" + show(p.second) + ";"; return r; };
        std::vector<uint64_t> outs, ins; for (auto &n : m.outputs()) outs.push_back(key(n)); for (auto &n : m.inputs()) ins.push_back(key(n));
        return c.run(outs, ins); }
    // streams of the harness
    struct In : ts::StreamReader { const std::string &b; size_t at = 0; explicit In(const std::string &b) : b(b) {} size_t read(void *p, size_t n) override { n = std::min(n, b.size() - at); if (n) std::memcpy(p, b.data() + at, n); at += n; return n; } };
    struct In2 : ts::StreamReaderV2 { const std::string &b; size_t at = 0; explicit In2(const std::string &b) : b(b) {} size_t read(void *p, size_t n) override { n = std::min(n, b.size() - at); if (n) std::memcpy(p, b.data() + at, n); at += n; return n; } void rewind() override { at = 0; } };
    struct Out : ts::StreamWriter { std::string b; size_t limit = size_t(-1); size_t write(const void *p, size_t n) override { if (b.size() + n > limit) { size_t k = limit - b.size(); b.append(static_cast<const char *>(p), k); return k; } b.append(static_cast<const char *>(p), n); return n; } };
}
#endif
