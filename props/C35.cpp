//@ src: src/cdb_read.c@-Dmmap=p_mmap src/hashfunc/fasthash.c
//@ quick: 10
//@ assume: the database format is the one the reader implements (256 tables of hash, offset slots, probed linearly, an empty slot holds two zeroes); offsets fit 32 bits
#include "utils/utils.h"
#include <sys/types.h>
#include <sys/mman.h>
#include <unistd.h>
#include <fcntl.h>
#include <cstring>
#include <cstdlib>
#include <cerrno>
#include <string>
#include <vector>
#include <map>
#include <set>
#include "pbt.h"
#include "../src/cdb_reader.h"
using pbt::Src; using pbt::Ctx; using std::string; using std::vector;
// a private copy of exactly the file's size instead of the mapping, so that a read beyond the file is seen
static char* Map; static size_t Maplen; static bool Real;
extern "C" void* p_mmap(void* a, size_t n, int pr, int fl, int fd, off_t o) { if (Real) { Map = (char*)mmap(a, n, pr, fl, fd, o); Maplen = n; return Map; } Map = (char*)malloc(n); Maplen = n; if (pread(fd, Map, n, o) != (ssize_t)n) pbt::harness_error("cannot read the database"); return Map; }
static uint64_t mix(uint64_t h) { h ^= h >> 23; h *= 0x2127599bf4325c37ULL; h ^= h >> 47; return h; }
static uint64_t inv(uint64_t a) { uint64_t x = a; for (int i = 0; i < 6; i++) x *= 2 - a * x; return x; }
static uint64_t unmix(uint64_t h) { h ^= h >> 47; h *= inv(0x2127599bf4325c37ULL); h ^= (h >> 23) ^ (h >> 46); return h; }
static const uint64_t M = 0x880355f21e6d1965ULL, SEED = 0x2de9ce7b97d9569fULL;
static uint32_t khash(const string& k) { uint64_t h = SEED ^ (k.size() * M), v; size_t i = 0; for (; i + 8 <= k.size(); i += 8) { memcpy(&v, &k[i], 8); h ^= mix(v); h *= M; } if (i < k.size()) { v = 0; for (size_t j = k.size(); j-- > i;) v = v << 8 | (uint8_t)k[j]; h ^= mix(v); h *= M; } h = mix(h); return (uint32_t)(h - (h >> 32)); }
static string keyfor(Src& g, uint32_t want, bool sixteen) { uint64_t hi = g.u(32), h = hi << 32 | (uint32_t)(want + hi), s = SEED ^ ((sixteen ? 16 : 8) * M); string k; if (sixteen) { uint64_t v = g.u(64); k.append((char*)&v, 8); s ^= mix(v); s *= M; } uint64_t v = unmix((unmix(h) * inv(M)) ^ s); k.append((char*)&v, 8); if (khash(k) != want) pbt::harness_error("key construction is wrong"); return k; }
static void w32(string& s, size_t at, uint32_t v) { for (int i = 0; i < 4; i++) s[at + i] = (char)(v >> 8 * i); }
static uint32_t r32(const string& s, size_t at) { uint32_t v; memcpy(&v, &s[at], 4); return v; }
typedef std::map<string, string> DB;
// writes the database; the tables may come before or after the records, be in any order and have any load up to 1
static string mk(Src& g, const DB& db, bool& wrap) {
    string s(2048, 0); vector<std::pair<uint32_t, uint32_t>> tab[256]; if (g.chance(1, 4)) s += g.bytes(g.range(1, 9)); // any alignment
    for (auto& kv : db) { tab[khash(kv.first) & 255].push_back({khash(kv.first), (uint32_t)s.size()}); size_t a = s.size(); s.resize(a + 8); w32(s, a, (uint32_t)kv.first.size()); w32(s, a + 4, (uint32_t)kv.second.size()); s += kv.first + kv.second; }
    int load = (int)g.range(0, 2); for (int i = 0; i < 256; i++) { size_t n = tab[i].size(), len = load == 0 ? n : load == 1 ? 2 * n : n ? n + 1 : 0; size_t a = s.size(); w32(s, 8 * i, len ? (uint32_t)a : g.chance(1, 50) ? (uint32_t)g.u(32) : 0); w32(s, 8 * i + 4, (uint32_t)len); s.resize(a + 8 * len); vector<bool> used(len);
        for (auto& e : tab[i]) { size_t p = (e.first >> 8) % len, q = p; while (used[q]) q = (q + 1) % len; if (q < p) wrap = true; used[q] = true; w32(s, a + 8 * q, e.first); w32(s, a + 8 * q + 4, e.second); } }
    return s;
}
static string gkey(Src& g, const DB& db, uint32_t base) {
    switch (g.weighted({4, 3, 3, 1, 2})) { case 0: return g.bytes(g.size(g.chance(1, 10) ? 300 : 20)); case 1: return keyfor(g, base, g.flip()); /* the same hash */ case 2: return keyfor(g, base + ((uint32_t)g.u(24) << 8), false); /* the same table */
        case 3: return keyfor(g, 0, g.flip()); default: if (db.empty()) return ""; auto it = db.begin(); std::advance(it, g.range(0, db.size() - 1)); string k = it->first; if (k.empty() || g.chance(1, 3)) k += 'x'; else if (g.flip()) k.pop_back(); else k[g.range(0, k.size() - 1)] ^= 1; return k; } }
static DB gdb(Src& g, uint32_t& base, bool large = false) { DB db; base = g.chance(1, 8) ? 0 : (uint32_t)g.u(32); size_t n = g.size(g.chance(1, 10) ? 400 : 25); if (large) { size_t m = g.big(9000); string al = g.fill(20); if (g.flip()) { pbt::Rng rn(g.raw(4)); uint32_t lo = (uint32_t)g.u(8); for (size_t i = 0; i < m; i++) { uint64_t hi = rn.next() & 0xffffffffu; uint32_t w = ((uint32_t)rn.next() << 8) | lo; uint64_t v = unmix((unmix(hi << 32 | (uint32_t)(w + hi)) * inv(M)) ^ (SEED ^ (8 * M))); db[string((char*)&v, 8)] = std::to_string(i); } m = 0; } for (size_t i = 0; i < m; i++) db["k" + std::to_string(i * 7919) + al.substr(0, i % 20)] = std::to_string(i); for (int i = (int)g.range(0, 3); i > 0; i--) db[g.fill(g.big(3000))] = g.fill(g.big(100000)); } for (size_t i = 0; i < n; i++) { string k = gkey(g, db, base); db[k] = g.chance(1, 6) ? "" : g.bytes(g.size(g.chance(1, 12) ? 3000 : 30)); } return db; }
struct File { string path; CDB c; int r; File(const string& s, bool real) { path = string(pbt::scratch()) + "/c.db"; int fd = open(path.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600); if (fd < 0 || write(fd, s.data(), s.size()) != (ssize_t)s.size()) pbt::harness_error("scratch"); close(fd); Real = real; Map = nullptr; memset(&c, 0xa5, sizeof c); c.fd = -1; r = cdb_read_init(&c, path.c_str()); }
    ~File() { if (!r) { close(c.fd); } if (Map) { if (Real) munmap(Map, Maplen); else free(Map); } } };
static ssize_t find(File& f, const string& k, string& v) { Exact e(k); void* p = nullptr; ssize_t n = cdb_find(&f.c, &p, e.p, k.size()); if (n >= 0) { CHECK((char*)p >= Map && (char*)p + n <= Map + Maplen, "a value of %zd bytes at offset %ld of a file of %zu", n, (long)((char*)p - Map), Maplen); v.assign((char*)p, n); } return n; }
static int nfd() { int n = 0; for (int i = 0; i < 200; i++) if (fcntl(i, F_GETFD) >= 0) n++; return n; }
TARGET(lookup, 3, "three records or more whose hashes collide or probe around the end of a table") {
    uint32_t base; DB db = gdb(g, base, g.chance(1, 300)); bool wrap = false; string s = mk(g, db, wrap); bool real = g.chance(1, 4); TR("database of %zu records, %zu bytes%s%s", db.size(), s.size(), wrap ? ", probes wrap" : "", real ? ", mapped" : ""); std::set<uint32_t> hs; for (auto& kv : db) hs.insert(khash(kv.first)); c.nontrivial(db.size() >= 3 && (wrap || hs.size() < db.size())); if (hs.size() < db.size()) c.label("colliding"); if (wrap) c.label("wrapping"); if (hs.count(0)) c.label("hash 0");
    File f(s, real); CHECK(f.r == 0, "cdb_read_init returns %d", f.r); string v;
    for (auto& kv : db) { ssize_t r = find(f, kv.first, v); CHECK(r == (ssize_t)kv.second.size() && v == kv.second, "key %s (hash %x): %zd instead of the value of %zu bytes", pbt::show(kv.first).c_str(), khash(kv.first), r, kv.second.size()); }
    for (int i = 0; i < 30; i++) { string k = gkey(g, db, base); ssize_t r = find(f, k, v); if (db.count(k)) CHECK(r >= 0 && v == db[k], "key %s: %zd", pbt::show(k).c_str(), r); else CHECK(r == -ENOENT, "the absent key %s (hash %x) yields %zd", pbt::show(k).c_str(), khash(k), r); }
}
TARGET(damaged, 3, "a damaged database in which something is looked up") {
    uint32_t base; DB db = gdb(g, base); bool wrap = false; string s = mk(g, db, wrap), how; int nf = nfd(); int k = (int)g.range(1, 3); vector<string> keys; for (auto& kv : db) keys.push_back(kv.first);
    while (k--) { static const uint32_t V[] = {0, 1, 2047, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffff8, 0xfffffffc}; auto val = [&](uint32_t o) { switch (g.range(0, 3)) { case 0: return V[g.range(0, 7)]; case 1: return (uint32_t)((long)s.size() + g.irange(-12, 4)); case 2: return o + (uint32_t)g.irange(-9, 9); default: return (uint32_t)g.u(32); } };
        string key = keys.empty() ? "" : keys[g.range(0, keys.size() - 1)]; size_t a = 0; uint32_t h = khash(key);
        if (s.size() >= 2048) switch (g.weighted({2, 2, 2, 3, 2, 1})) { case 0: a = 8 * (h & 255); break; case 1: a = 8 * (h & 255) + 4; break; case 2: case 3: { uint32_t o = r32(s, 8 * (h & 255)), l = r32(s, 8 * (h & 255) + 4); if (!l || o >= s.size()) continue; size_t sl = o + 8 * (size_t)((h >> 8) % l) + 4; if (sl + 4 > s.size()) continue; if (g.chance(1, 3)) { a = sl; break; } size_t rec = r32(s, sl); a = rec + (g.flip() ? 4 : 0); break; }
            case 4: { size_t n = g.flip() ? g.range(0, s.size()) : s.size() - std::min<size_t>(s.size(), g.range(0, 40)); s.resize(n); how += pbt::fmt(" cut to %zu", n); continue; } default: if (!s.empty()) { size_t i = g.range(0, s.size() - 1); s[i] ^= (char)g.range(1, 255); how += pbt::fmt(" byte %zu", i); } continue; }
        if (a + 4 <= s.size()) { uint32_t v = val(r32(s, a)); how += pbt::fmt(" word %zu: %u to %u", a, r32(s, a), v); w32(s, a, v); } }
    if (g.chance(1, 12)) { s.resize(g.range(0, 2048)); how += " short"; } for (int i = 0; i < 256 && s.size() >= 2048; i++) if (r32(s, 8 * i + 4) > 0x100000 && g.chance(3, 4)) w32(s, 8 * i + 4, (uint32_t)g.range(1, 5000)); // keeps most of the probes short
    { File f(s, false); TR("database of %zu records, %zu bytes, damaged:%s: init %d", db.size(), s.size(), how.c_str(), f.r); if (s.size() < 2048) CHECK(f.r < 0, "a file of %zu bytes is accepted", s.size()); if (f.r) { CHECK(f.r < 0, "cdb_read_init returns %d", f.r); c.label("refused"); } else { c.nontrivial(!db.empty()); string v; int hit = 0, bad = 0;
        for (int i = 0; i < 40; i++) { string key = i < 30 && !keys.empty() ? keys[g.range(0, keys.size() - 1)] : gkey(g, db, base); v.clear(); ssize_t r = find(f, key, v); if (r >= 0) { hit++; size_t at = s.size(); for (size_t p = 0; p + 8 + key.size() + v.size() <= s.size(); p++) if (r32(s, p) == key.size() && r32(s, p + 4) == v.size() && !s.compare(p + 8, key.size(), key) && !s.compare(p + 8 + key.size(), v.size(), v)) { at = p; break; } CHECK(at < s.size(), "key %s yields %zd bytes that the file does not hold for it", pbt::show(key).c_str(), r); } else if (r != -ENOENT) { bad++; CHECK(r > -4096, "cdb_find returns %zd", r); } } c.label(bad ? "error" : hit ? "some found" : "none found"); } }
    CHECK(nfd() == nf, "%d descriptors instead of %d", nfd(), nf);
}
TARGET(nofile, 1, "a file that cannot be read") { c.nontrivial(true); CDB d; string p = string(pbt::scratch()) + (g.flip() ? "/none" : ""); int nf = nfd(); Map = nullptr; Real = true; int r = cdb_read_init(&d, p.c_str()); TR("%s: %d", p.c_str(), r); CHECK(r < 0, "%s: %d", p.c_str(), r); CHECK(nfd() == nf, "a descriptor is left"); }
