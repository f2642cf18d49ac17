// Encrypted files and blocks against an independent AES-256.
#include "hist.h"
#include "ops.h"
#include "modfmt.h"
#include <encryption/encrypted_fstream.h>
#include "../src/encryption/aes.h"
#include <module/menu.h>
#include <core/tensor_builder.h>
#include <unistd.h>
#include <fstream>
using namespace vf;
using namespace ts;
namespace {
    typedef unsigned char B; typedef std::string Str;
    // ---- AES-256 from the standard: tables are computed, not copied
    struct Ref {
        B sb[256], inv[256];
        static B mul(B a, B b) { B r = 0; while (b) { if (b & 1) r ^= a; a = B((a << 1) ^ (a & 0x80 ? 0x1b : 0)); b >>= 1; } return r; }
        Ref() { for (int x = 0; x < 256; ++x) { B i = 0; if (x) for (int y = 1; y < 256; ++y) if (mul(B(x), B(y)) == 1) i = B(y); B s = 0; for (int k = 0; k < 8; ++k) { int bit = (i >> k) ^ (i >> ((k + 4) % 8)) ^ (i >> ((k + 5) % 8)) ^ (i >> ((k + 6) % 8)) ^ (i >> ((k + 7) % 8)) ^ (0x63 >> k); s |= B((bit & 1) << k); } sb[x] = s; inv[s] = B(x); } }
        typedef std::vector<B> Keys;
        Keys expand(const Str &key) const { Keys w(key.begin(), key.end()); B rc = 1; for (int i = 8; i < 60; ++i) { B t[4]; for (int k = 0; k < 4; ++k) t[k] = w[size_t((i - 1) * 4 + k)]; if (i % 8 == 0) { B u = t[0]; t[0] = B(sb[t[1]] ^ rc); t[1] = sb[t[2]]; t[2] = sb[t[3]]; t[3] = sb[u]; rc = mul(rc, 2); } else if (i % 8 == 4) for (auto &x : t) x = sb[x]; for (int k = 0; k < 4; ++k) w.push_back(B(w[size_t((i - 8) * 4 + k)] ^ t[k])); } return w; }
        Str enc(const Keys &w, Str s) const { auto ark = [&](int r) { for (int i = 0; i < 16; ++i) s[size_t(i)] = char(B(s[size_t(i)]) ^ w[size_t(r * 16 + i)]); }; ark(0); for (int r = 1; r <= 14; ++r) { Str t = s; for (int c = 0; c < 4; ++c) for (int q = 0; q < 4; ++q) t[size_t(c * 4 + q)] = char(sb[B(s[size_t((c + q) % 4 * 4 + q)])]); s = t; if (r < 14) for (int c = 0; c < 4; ++c) { B a[4]; for (int q = 0; q < 4; ++q) a[q] = B(s[size_t(c * 4 + q)]); for (int q = 0; q < 4; ++q) s[size_t(c * 4 + q)] = char(mul(a[q], 2) ^ mul(a[(q + 1) % 4], 3) ^ a[(q + 2) % 4] ^ a[(q + 3) % 4]); } ark(r); } return s; }
        Str dec(const Keys &w, Str s) const { auto ark = [&](int r) { for (int i = 0; i < 16; ++i) s[size_t(i)] = char(B(s[size_t(i)]) ^ w[size_t(r * 16 + i)]); }; for (int r = 14; r >= 1; --r) { ark(r); if (r < 14) for (int c = 0; c < 4; ++c) { B a[4]; for (int q = 0; q < 4; ++q) a[q] = B(s[size_t(c * 4 + q)]); for (int q = 0; q < 4; ++q) s[size_t(c * 4 + q)] = char(mul(a[q], 14) ^ mul(a[(q + 1) % 4], 11) ^ mul(a[(q + 2) % 4], 13) ^ mul(a[(q + 3) % 4], 9)); } Str t = s; for (int c = 0; c < 4; ++c) for (int q = 0; q < 4; ++q) t[size_t((c + q) % 4 * 4 + q)] = char(inv[B(s[size_t(c * 4 + q)])]); s = t; } ark(0); return s; }
    };
    const Ref ref;
    // keys shorter than 32 bytes are completed by the library; how is read off one encrypted block
    Str complete(const Str &key) { static const B d[32] = {0x60, 0x3d, 0xeb, 0x10, 0x15, 0xca, 0x71, 0xbe, 0x2b, 0x73, 0xae, 0xf0, 0x85, 0x7d, 0x77, 0x81, 0x1f, 0x35, 0x2c, 0x07, 0x3b, 0x61, 0x08, 0xd7, 0x2d, 0x98, 0x10, 0xa3, 0x09, 0x14, 0xdf, 0xf4}; Str k(reinterpret_cast<const char *>(d), 32); for (size_t i = 0; i < 32 && i < key.size(); ++i) k[i] = key[i]; return k; }
    std::map<Str, Ref::Keys> cache; const Ref::Keys &keys(const Str &k) { auto it = cache.find(k); if (it == cache.end()) it = cache.insert({k, ref.expand(complete(k))}).first; return it->second; }
    Str text(size_t n, int kind) { Str s(n, 0); for (size_t i = 0; i < n; ++i) s[i] = kind == 0 ? char(i * 7 + 3) : kind == 1 ? char(0) : kind == 2 ? char(16 - n % 16) : kind == 3 ? char(1) : char(i * i + (i >> 3)); return s; }
    Str cipher(const Str &key, Str s) { size_t p = 16 - s.size() % 16; s += Str(p, char(p)); Str r; for (size_t i = 0; i < s.size(); i += 16) r += ref.enc(keys(key), s.substr(i, 16)); return r; }
    // what a file holds: whole blocks whose last one is padded
    bool plain(const Str &key, const Str &f, Str &out) { if (f.empty() || f.size() % 16) return false; out.clear(); for (size_t i = 0; i < f.size(); i += 16) out += ref.dec(keys(key), f.substr(i, 16)); B p = B(out.back()); if (p < 1 || p > 16) return false; for (size_t i = 0; i < p; ++i) if (B(out[out.size() - 1 - i]) != p) return false; out.resize(out.size() - p); return true; }
    Str dir; Str path(const Str &n) { return dir + "/" + n; }
    void spit(const Str &p, const Str &b) { std::ofstream f(p, std::ios::binary); f << b; }
    Str slurp(const Str &p) { std::ifstream f(p, std::ios::binary); std::ostringstream o; o << f.rdbuf(); return o.str(); }
    // reads a file in the given portions (the last one is repeated) until nothing more comes; false: reported as an error
    bool drain(const Str &key, const std::vector<size_t> &por, Str &got, Str &bad, size_t stop) {
        EncryptedFileStreamReader r(path("f"), key); if (!r.is_open()) { bad = "an existing file does not open"; return false; }
        got.clear();
        for (size_t i = 0; i < 100000; ++i) {
            size_t n = por[std::min(i, por.size() - 1)]; Str buf(n + 8, '\x5a'); size_t k = 0;
            try { k = r.read(&buf[0], n); } catch (const std::exception &) { return false; }
            if (k > n) { bad = "read gives more than was asked for"; return true; }
            for (size_t j = n; j < n + 8; ++j) if (buf[j] != '\x5a') { bad = "read writes behind the buffer"; return true; }
            got += buf.substr(0, k); if (k < n) return true; if (got.size() > stop) return true; if (n == 0 && i + 1 >= por.size()) return true;
        }
        bad = "reading does not end"; return true; }
    Str write(const Str &key, const Str &s, const std::vector<size_t> &por, bool dtor) {
        { EncryptedFileStreamWriter w(path("f"), key); if (!w.is_open()) return "a new file does not open"; size_t at = 0; for (size_t i = 0; at < s.size(); ++i) { size_t n = std::min(i < por.size() ? por[i] : por.back() ? por.back() : s.size(), s.size() - at); size_t k = w.write(s.data() + at, n); if (k != n) return "write reports " + std::to_string(k) + " of " + std::to_string(n) + " bytes"; at += n; } if (!dtor) { w.close(); if (w.is_open()) return "a closed file is open"; w.close(); } }
        return ""; }
    // ---- files
}
namespace {
    void files();
    void blocks();
    void damage();
    void misc();
}
int main(int argc, const char **argv) {
    parse(argc, argv); quiet(); setenv("TENNIS_NUMBER_THREADS", "1", 1); ts_setup();
    char tmp[] = "./crypt.XXXXXX"; dir = mkdtemp(tmp);
    blocks(); files(); damage(); misc();
    for (auto f : {"f", "m"}) std::remove(path(f).c_str()); rmdir(dir.c_str());
    finish();
}
namespace {
    Str ps(const std::vector<size_t> &v) { Str s; for (auto x : v) s += std::to_string(x) + ","; return s; }
    void round2(const Str &k, const Str &key, const Str &s, const std::vector<size_t> &wp, const std::vector<std::vector<size_t>> &rps, bool dtor) {
        step(); Str e; try { e = write(key, s, wp, dtor); } catch (const std::exception &x) { e = x.what(); } if (!e.empty()) { fail(k, e); return; }
        if (slurp(path("f")) != cipher(key, s)) { fail(k, "the file is not the padded AES encryption of what was written"); return; }
        for (auto &rp : rps) { step(); ++S().evaluations; Str got, bad; bool ok = drain(key, rp, got, bad, s.size() + 64); if (!bad.empty()) { fail(k + " read " + ps(rp), bad); return; } if (got != s) { fail(k + " read " + ps(rp), ok ? "the bytes read are not the bytes written" : "an error is reported before all bytes written were read"); return; } }
        state(hash_str(k)); }
    void files() {
        bool th = S().thorough, sh = S().mode == "shallow"; size_t N = th ? 100 : sh ? 34 : 66;
        for (size_t n = 0; n <= N; ++n) for (int kind = 0; kind < 5; ++kind) if (take("files", [&] { return std::to_string(n) + " bytes, content " + std::to_string(kind); })) {
            --S().evaluations; Str s = text(n, kind), k = "file:" + std::to_string(n) + "/" + std::to_string(kind); Str key = kind == 1 ? "" : kind == 2 ? Str("a key\0 with a nul", 17) : kind == 3 ? Str(40, 'k') : "key";
            // every read size, every first read
            std::vector<std::vector<size_t>> rps; for (size_t r = 1; r <= n + 2; ++r) { rps.push_back({r}); if (kind == 0 || th) rps.push_back({r, 0, 1000}); } rps.push_back({n}); rps.push_back({0, 5}); if (kind == 0) for (size_t a = 0; a <= n; ++a) for (size_t b : {size_t(1), size_t(15), size_t(16), size_t(17), size_t(31), size_t(33)}) rps.push_back({a, b, 1000});
            for (auto &r : rps) if (r.back() == 0) r = {1};
            round2(k + " whole", key, s, {0}, rps, false);
            // every write size, every first write
            for (size_t w = 1; w <= n; ++w) { round2(k + " by " + std::to_string(w), key, s, {w}, {{n + 1}, {16}, {7}}, w % 2); if (kind == 0 || th) for (size_t v : {size_t(1), size_t(15), size_t(16), size_t(17), size_t(33)}) round2(k + " " + std::to_string(w) + " then by " + std::to_string(v), key, s, {w, v}, {{n + 1}}, v % 2); }
        }
        for (size_t n : {255u, 256u, 4095u, 4096u, 4097u, 8192u, 65536u, 70001u}) if (take("long files", [&] { return std::to_string(n) + " bytes"; })) for (size_t w : {1u, 13u, 16u, 4096u, 100000u}) round2("long:" + std::to_string(n) + " by " + std::to_string(w), "a longer key 0123", text(n, 4), {w}, {{1}, {16}, {1000}, {n}, {n + 1}, {4095}}, w == 13);
    }
    void blocks() {
        // the standard's own example
        if (take("standard example", [] { return "FIPS 197 C.3"; })) { Str k, p; for (int i = 0; i < 32; ++i) k += char(i); for (int i = 0; i < 16; ++i) p += char(i * 17); static const B want[] = {0x8e, 0xa2, 0xb7, 0xca, 0x51, 0x67, 0x45, 0xbf, 0xea, 0xfc, 0x49, 0x90, 0x4b, 0x49, 0x60, 0x89}; if (ref.enc(ref.expand(k), p) != Str(reinterpret_cast<const char *>(want), 16)) fail("fips:reference", "the reference is wrong"); }
        for (int kl = 0; kl <= 40; ++kl) for (int kk = 0; kk < 4; ++kk) if (take("blocks", [&] { return "key of " + std::to_string(kl) + " bytes, " + std::to_string(kk); })) {
            --S().evaluations; Str key; for (int i = 0; i < kl; ++i) key += kk == 0 ? char(i) : kk == 1 ? char(255 - i) : kk == 2 ? char(0) : char(i * 31 + 7);
            auto &w = keys(key); Str k = "block:" + std::to_string(kl) + "/" + std::to_string(kk); std::unique_ptr<B[]> kb(new B[size_t(kl)]); std::memcpy(kb.get(), key.data(), size_t(kl));   // exactly as long as it is: reading past it is seen
            AES_ctx c; AES_init_ctx(&c, kb.get(), uint32_t(kl));
            for (int v = 0; v < 64; ++v) { ++S().evaluations; step(); Str p; for (int i = 0; i < 16; ++i) p += v < 16 ? char(i == v ? 0x80 : 0) : v < 32 ? char(i == v - 16 ? 1 : 0xff) : char(i * v + v * v); Str e = p; AES_ECB_encrypt(&c, reinterpret_cast<B *>(&e[0])); if (e != ref.enc(w, p)) { fail(k, "a block is encrypted wrongly"); break; } AES_ECB_decrypt(&c, reinterpret_cast<B *>(&e[0])); if (e != p) { fail(k, "a block is not decrypted to what it was"); break; } }
            for (int ivl = 0; ivl <= 20; ++ivl) { Str iv, full; for (int i = 0; i < 16; ++i) full += char(0xf0 + i); for (int i = 0; i < ivl; ++i) iv += char(i * 13 + 1); for (int i = 0; i < ivl && i < 16; ++i) full[size_t(i)] = iv[size_t(i)];
                for (size_t n : {0u, 16u, 32u, 48u, 80u}) { ++S().evaluations; step(); Str p = text(n, 4), e = p, want, prev = full; for (size_t i = 0; i < n; i += 16) { Str x = p.substr(i, 16); for (size_t j = 0; j < 16; ++j) x[j] = char(x[j] ^ prev[j]); prev = ref.enc(w, x); want += prev; }
                    AES_ctx a; AES_init_ctx_iv(&a, kb.get(), uint32_t(kl), reinterpret_cast<const B *>(ivl ? iv.data() : nullptr), uint32_t(ivl)); AES_CBC_encrypt_buffer(&a, reinterpret_cast<B *>(&e[0]), uint32_t(n)); if (e != want) { fail(k + " cbc iv" + std::to_string(ivl), "chained blocks are encrypted wrongly"); break; }
                    AES_ctx b; AES_init_ctx_iv(&b, kb.get(), uint32_t(kl), reinterpret_cast<const B *>(ivl ? iv.data() : nullptr), uint32_t(ivl)); size_t half = n / 32 * 16; AES_CBC_decrypt_buffer(&b, reinterpret_cast<B *>(&e[0]), uint32_t(half)); AES_CBC_decrypt_buffer(&b, reinterpret_cast<B *>(&e[half]), uint32_t(n - half)); if (e != p) { fail(k + " cbc iv" + std::to_string(ivl), "chained blocks are not decrypted to what they were"); break; } }
                if (ivl % 4 == 0) for (size_t n = 0; n <= 50; ++n) for (int top = 0; top < 2; ++top) { ++S().evaluations; step(); Str p = text(n, 0), e = p, want = p, ctr = full; if (top) for (size_t i = 1; i < 16; ++i) ctr[i] = char(255); Str start = ctr; for (size_t i = 0; i < n; ++i) { if (i % 16 == 0 && i) for (int q = 15; q >= 0; --q) if (++ctr[size_t(q)] != 0) break; want[i] = char(want[i] ^ ref.enc(w, ctr)[i % 16]); }
                    AES_ctx a; AES_init_ctx_iv(&a, kb.get(), uint32_t(kl), reinterpret_cast<const B *>(ivl ? iv.data() : nullptr), uint32_t(ivl)); if (top) AES_ctx_set_iv(&a, reinterpret_cast<const B *>(start.data())); AES_CTR_xcrypt_buffer(&a, reinterpret_cast<B *>(&e[0]), uint32_t(n)); if (e != want) { fail(k + " ctr iv" + std::to_string(ivl), "a counted stream is encrypted wrongly"); break; } } }
            state(hash_str(k)); } }
    // a file as it is against what its bytes mean
    void judge(const Str &k, const Str &key, const Str &f, const std::vector<size_t> &sizes) {
        spit(path("f"), f); Str want; bool good = plain(key, f, want);
        for (size_t r : sizes) { step(); Str got, bad; bool ok = drain(key, {r}, got, bad, f.size() + 64); if (!bad.empty()) { fail(k + " by " + std::to_string(r), bad); return; }
            if (good ? got != want : ok) { fail(k + " by " + std::to_string(r), good ? "other bytes are read than the file holds" : "a broken file is read to its end without an error"); return; }
            if (!good) { Str all; for (size_t i = 0; i + 16 <= f.size(); i += 16) all += ref.dec(keys(key), f.substr(i, 16)); if (all.compare(0, got.size(), got)) { fail(k, "other bytes are read before the error than the file holds"); return; } } }
        state(hash_str(k)); }
    void damage() {
        bool th = S().thorough, sh = S().mode == "shallow";
        for (size_t n : {0u, 1u, 15u, 16u, 17u, 31u, 32u, 33u, 48u, 50u}) for (int kind = 0; kind < 5; ++kind) {
            Str s = text(n, kind), c = cipher("key", s), K = std::to_string(n) + "/" + std::to_string(kind);
            if (take("truncated", [&] { return K; })) { --S().evaluations; for (size_t m = 0; m < c.size(); ++m) { ++S().evaluations; judge("cut:" + K + "@" + std::to_string(m), "key", c.substr(0, m), {1, 5, 16, 17, 100}); } for (size_t m = 1; m < 34; ++m) { ++S().evaluations; judge("long:" + K + "+" + std::to_string(m), "key", c + text(m, 0), {1, 16, 100}); } }
            if (take("changed", [&] { return K; })) { --S().evaluations; for (size_t m = 0; m < c.size(); ++m) for (int v = 1; v < 256; v = th ? v + 1 : v * 2) { ++S().evaluations; Str d = c; d[m] = char(d[m] ^ v); judge("changed:" + K + "@" + std::to_string(m) + "^" + std::to_string(v), "key", d, {16, 100}); if (sh) break; } }
            if (take("another key", [&] { return K; })) { --S().evaluations; for (int q = 0; q < (th ? 4000 : sh ? 300 : 1000); ++q) { ++S().evaluations; Str key = q == 0 ? "" : q == 1 ? "kez" : q == 2 ? "Key" : q == 3 ? "key " : q == 4 ? Str("key\0", 4) : "k" + std::to_string(q); judge("key:" + K + " " + key, key, c, {16, 100}); Str p; if (n >= 16 && plain(key, c, p) && p == s) fail("key:" + K + " " + key, "another key gives the text"); } }
        } }
    void misc() {
        if (take("modules", [] { return "saved and loaded"; })) for (const char *key : {"", "key", "another rather long key of more than 32 bytes"}) { step(); try { Graph g; ctx::bind<Graph> _b(g); auto x = bubble::param("x"); auto o = bubble::op("s", "sub", {x, bubble::data("c", tensor::from<float>(5.5f))}); auto m = Module::Load(g, {o}); { EncryptedFileStreamWriter w(path("f"), key); Module::Save(w, m); } mf::Out plainfile; Module::Save(plainfile, m); if (slurp(path("f")) != cipher(key, plainfile.b)) fail(Str("module:") + key, "the encrypted file is not the encryption of the plain one"); EncryptedFileStreamReader r(path("f"), key); auto n = Module::Load(r); if (mf::canon(*n) != mf::canon(*m)) fail(Str("module:") + key, "another module is loaded");
                bool threw = false; try { EncryptedFileStreamReader q(path("f"), "wrong"); Module::Load(q); } catch (const std::exception &) { threw = true; } if (!threw) fail(Str("module:") + key, "a module is loaded with a wrong key"); } catch (const std::exception &e) { fail(Str("module:") + key, e.what()); } }
        if (take("missing file", [] { return "read"; })) { step(); for (auto p : {"no/such/file", ".", ""}) { EncryptedFileStreamReader r(p, "k"); char b[4]; bool threw = false; size_t k = 0; try { k = r.read(b, 4); } catch (const std::exception &) { threw = true; } if (!threw) fail(Str("missing:") + p, "reading from it gives " + std::to_string(k) + " bytes and no error"); if (*p != '.' && r.is_open()) fail(Str("missing:") + p, "it is open"); } }
        if (take("unwritable file", [] { return "write"; })) { step(); { EncryptedFileStreamWriter w("no/such/dir/file", "k"); if (w.is_open()) fail("unwritable", "it is open"); Str s = text(100, 0); bool told = false; try { size_t k = w.write(s.data(), s.size()); told = k != s.size(); } catch (const std::exception &) { told = true; } if (!told) fail("unwritable", "100 bytes are accepted by a file that is not open"); try { Str t = "abc"; told = w.write(t.data(), 3) != 3; } catch (const std::exception &) { told = true; } if (!told) fail("unwritable", "3 bytes are accepted by a file that is not open"); } 
            for (size_t n : {1u, 16u, 100u, 5000u, 100000u}) { step(); bool told = false; { EncryptedFileStreamWriter w("/dev/full", "k"); Str s = text(n, 0); if (!w.is_open()) continue; try { if (w.write(s.data(), n) != n) told = true; w.close(); } catch (const std::exception &) { told = true; } } if (!told) fail("full:" + std::to_string(n), "writing to a full device is not reported"); }
            for (size_t n : {1u, 100000u}) { EncryptedFileStreamWriter w("/dev/full", "k"); Str s = text(n, 0); try { w.write(s.data(), n); } catch (const std::exception &) {} } }
        if (take("closed file", [] { return "read and write"; })) { step(); { EncryptedFileStreamWriter w(path("f"), "k"); w.write("abc", 3); w.close(); bool told = false; try { told = w.write("def", 3) != 3; } catch (const std::exception &) { told = true; } if (!told) fail("closed:write", "bytes are accepted after closing"); } if (slurp(path("f")) != cipher("k", "abc")) fail("closed:content", "writing after closing changes the file"); EncryptedFileStreamReader r(path("f"), "k"); r.close(); if (r.is_open()) fail("closed:read", "a closed reader is open"); char b[8]; size_t k = 0; try { k = r.read(b, 3); } catch (const std::exception &) {} if (k) fail("closed:read", "bytes are read after closing"); }
    }
}
