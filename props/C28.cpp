//@ src: src/uuid.c src/ulid.c src/uuid2str.c
//@ wrap: getentropy gettimeofday clock_gettime time
//@ quick: 12
#include "utils/utils.h"
#include "utils/uuid.h"
#include "utils/ulid.h"
#include "pbt.h"
#include <cerrno>
#include <set>
#include <vector>
#include <algorithm>
#include <sys/time.h>
using pbt::Src; using pbt::Ctx; typedef unsigned long long ull;
extern "C" ssize_t uuid2str(char* out, size_t outsz, uint8_t* uuid);
static std::string ent; static size_t entpos; static bool entfail; static struct timeval now;
extern "C" int __wrap_getentropy(void* p, size_t n) { if (entfail) { errno = EIO; return -1; } for (size_t i = 0; i < n; i++) ((uint8_t*)p)[i] = ent.empty() ? 0 : (uint8_t)ent[entpos++ % ent.size()]; return 0; }
extern "C" int __wrap_gettimeofday(struct timeval* tv, void*) { *tv = now; return 0; }
extern "C" int __real_clock_gettime(clockid_t, struct timespec*);
extern "C" int __wrap_clock_gettime(clockid_t k, struct timespec* t) { if (k != CLOCK_REALTIME && k != CLOCK_REALTIME_COARSE) return __real_clock_gettime(k, t); t->tv_sec = now.tv_sec; t->tv_nsec = now.tv_usec * 1000; return 0; }
extern "C" time_t __wrap_time(time_t* t) { if (t) *t = now.tv_sec; return now.tv_sec; }
static std::string hex(const std::string& s) { std::string r; for (unsigned char ch : s) r += pbt::fmt("%02x", ch); return r; }
static std::string gid(Src& g) { std::string s; switch (g.weighted({4, 1, 2})) { case 0: s = g.bytes(16); break; case 1: s.assign(16, (char)g.u(8)); break; default: s.assign(16, 0); s[g.range(0, 15)] = (char)(1 << g.range(0, 7)); } s.resize(16); return s; }
// reference forms
static std::string ref_uuid(const std::string& id) { std::string r; for (int i = 0; i < 16; i++) { r += pbt::fmt("%02X", (unsigned char)id[i]); if (i == 3 || i == 5 || i == 7 || i == 9) r += '-'; } return r; }
static const char* B32 = "0123456789ABCDEFGHJKMNPQRSTVWXYZ";
static std::string ref_ulid(const std::string& id) { unsigned __int128 v = 0; for (unsigned char ch : id) v = v << 8 | ch; std::string r(26, '0'); for (int i = 25; i >= 0; i--) { r[i] = B32[(int)(v & 31)]; v >>= 5; } return r; }
static int hexv(int ch) { return ch >= '0' && ch <= '9' ? ch - '0' : ch >= 'a' && ch <= 'f' ? ch - 'a' + 10 : ch >= 'A' && ch <= 'F' ? ch - 'A' + 10 : -1; }
static bool parse_uuid(const std::string& s, std::string& id) { if (s.size() != 36) return false; id.clear(); int hi = -1; for (size_t i = 0; i < 36; i++) { bool dash = i == 8 || i == 13 || i == 18 || i == 23; if (dash != (s[i] == '-')) return false; if (dash) continue; int v = hexv(s[i]); if (v < 0) return false; if (hi < 0) hi = v; else { id += (char)(hi << 4 | v); hi = -1; } } return true; }
static bool parse_ulid(const std::string& s, std::string& id) { if (s.size() != 26) return false; unsigned __int128 v = 0; for (size_t i = 0; i < 26; i++) { if (!s[i]) return false; const char* q = strchr(B32, toupper((unsigned char)s[i])); if (!q) return false; int d = (int)(q - B32); if (i == 0 && d > 7) return false; v = v << 5 | d; } id.resize(16); for (int i = 15; i >= 0; i--) { id[i] = (char)v; v >>= 8; } return true; }
struct Kind { bool ulid; int len; };
static int to_str(int k, char* o, size_t n, const uint8_t* id) { return k == 0 ? uuid_tostring(o, n, id) : k == 1 ? (int)uuid2str(o, n, (uint8_t*)id) : ulid_tostring(o, n, id); }
static int from_str(bool ulid, uint8_t* o, size_t n, const char* s) { return ulid ? ulid_fromstring(o, n, s) : uuid_fromstring(o, n, s); }
TARGET(format, 4, "identifier neither all zero nor all equal bytes") {
    int k = (int)g.range(0, 2); bool ul = k == 2; std::string id = gid(g); size_t need = ul ? 27 : 37, sz = g.chance(1, 5) ? g.range(0, need) : need + g.range(0, 20);
    static const char* nm[] = {"uuid_tostring", "uuid2str", "ulid_tostring"}; TR("%s(size %zu, %s)", nm[k], sz, hex(id).c_str()); c.label(nm[k]); c.nontrivial(id != std::string(16, id[0]));
    Exact in(id), out(sz); int r = to_str(k, out.c(), sz, in.p);
    if (sz < need) { CHECK(r == -ENOSPC, "%s into %zu bytes returned %d", nm[k], sz, r); for (size_t i = 0; i < sz; i++) CHECK(out.p[i] == 0xA5, "%s wrote into a buffer that is too small", nm[k]); return; }
    std::string want = ul ? ref_ulid(id) : ref_uuid(id);
    CHECK(r == (ul ? 26 : 37), "%s returned %d", nm[k], r); CHECK(out.p[want.size()] == 0 && want == out.c(), "%s of %s is '%s', should be '%s'", nm[k], hex(id).c_str(), std::string(out.c(), want.size()).c_str(), want.c_str());
    for (size_t i = want.size() + 1; i < sz; i++) CHECK(out.p[i] == 0xA5, "%s wrote beyond the text", nm[k]);
    std::string txt = out.c(); if (g.flip()) for (char& ch : txt) if (g.flip()) ch = (char)tolower(ch);
    size_t bs = 16 + g.range(0, 8); Exact b(bs), t(txt, true); r = from_str(ul, b.p, bs, t.c()); CHECK(r == 16, "parsing '%s' returned %d", txt.c_str(), r);
    CHECK(!memcmp(b.p, id.data(), 16), "'%s' parses to %s instead of %s", txt.c_str(), hex(std::string((char*)b.p, 16)).c_str(), hex(id).c_str()); for (size_t i = 16; i < bs; i++) CHECK(b.p[i] == 0xA5, "parsing wrote beyond the identifier");
}
TARGET(parse, 4, "text of the right length with a wrong character or a misplaced dash, or a wrong length") {
    bool ul = g.flip(); std::string s = ul ? ref_ulid(gid(g)) : ref_uuid(gid(g)); int edits = (int)g.range(0, 3);
    static const std::string al = "0123456789abcdefABCDEFGHJKMNPQRSTVWXYZilouILOU-z/:@[`{ \x7f\x80\xff\xc1";
    for (int i = 0; i < edits; i++) { size_t at = s.empty() ? 0 : g.range(0, s.size() - 1); char ch = g.chance(3, 4) ? al[g.range(0, al.size() - 1)] : (char)g.range(1, 255);
        switch (g.weighted({5, 1, 1, 1, 2})) { case 0: if (!s.empty()) s[at] = ch; break; case 1: s.insert(s.begin() + at, ch); break; case 2: if (!s.empty()) s.erase(at, 1); break; case 3: s = s.substr(0, at); break; default: if (s.size() > 1) { size_t b = g.range(0, s.size() - 1); std::swap(s[at], s[b]); } } }
    if (g.chance(1, 20)) s = g.text(al.substr(0, 23), ul ? 26 : 36);
    if (!ul && g.chance(1, 12)) { s = g.text("0123456789abcdefABCDEF", 36); s.resize(36, '7'); }
    if (ul && g.chance(1, 10) && !s.empty()) s[0] = B32[g.range(0, 31)];
    size_t bs = g.chance(1, 8) ? g.range(0, 15) : 16 + g.range(0, 3); std::string id; bool ok = ul ? parse_ulid(s, id) : parse_uuid(s, id);
    TR("%s(size %zu, '%s')", ul ? "ulid_fromstring" : "uuid_fromstring", bs, pbt::show(s).c_str()); c.nontrivial(!ok); c.label(ok ? "valid" : "invalid");
    Exact b(bs), t(s, true); int r = from_str(ul, b.p, bs, t.c());
    if (bs < 16) { CHECK(r == -ENOSPC || (!ok && r == -EINVAL), "parsing into %zu bytes returned %d", bs, r); return; }
    if (!ok) CHECK(r == -EINVAL, "'%s' is not a %s but parsing returned %d", pbt::show(s).c_str(), ul ? "ULID" : "UUID", r);
    else { CHECK(r == 16, "'%s' rejected with %d", s.c_str(), r); CHECK(!memcmp(b.p, id.data(), 16), "'%s' parses to %s instead of %s", s.c_str(), hex(std::string((char*)b.p, 16)).c_str(), hex(id).c_str()); }
    for (size_t i = 16; i < bs; i++) CHECK(b.p[i] == 0xA5, "parsing wrote beyond the identifier");
}
TARGET(generate, 3, "at least two identifiers, generated at different times") {
    entpos = 0; entfail = false; uint64_t z = g.u(32); ent.assign(4000, 0); for (size_t i = 0; i < ent.size(); i++) { z = z * 6364136223846793005ull + 1442695040888963407ull; ent[i] = (char)(z >> 56); }
    for (int i = 0; i < 16; i++) if (g.chance(1, 4)) ent[i] = g.flip() ? '\xff' : '\0';
    int n = 1 + (int)g.range(0, 4); uint64_t us = g.chance(1, 2) ? 1700000000ull * 1000000 + g.u(40) : g.u(58) % (281474976710655ull * 1000); bool ul = g.flip(); std::vector<std::pair<uint64_t, std::string>> v; bool moved = false;
    for (int i = 0; i < n; i++) {
        if (i) { uint64_t d = g.chance(1, 4) ? 0 : g.chance(1, 2) ? g.range(0, 3000) : g.u(36); us += d; moved |= d >= 1000; } now.tv_sec = us / 1000000; now.tv_usec = us % 1000000;
        size_t bs = g.chance(1, 10) ? g.range(0, 15) : 16 + g.range(0, 4), e0 = entpos; Exact b(bs); int r = ul ? ulid_generate(b.p, bs) : uuid_generate(b.p, bs); TR("%s(size %zu) at %llu us", ul ? "ulid_generate" : "uuid_generate", bs, (ull)us);
        if (bs < 16) { CHECK(r == -ENOSPC || (bs == 0 && r == -EINVAL), "generate into %zu bytes returned %d", bs, r); for (size_t j = 0; j < bs; j++) CHECK(b.p[j] == 0xA5, "generate wrote into a buffer that is too small"); continue; }
        CHECK(r == 16, "generate returned %d", r); for (size_t j = 16; j < bs; j++) CHECK(b.p[j] == 0xA5, "generate wrote beyond the identifier");
        if (ul) { uint64_t ms = 0; for (int j = 0; j < 6; j++) ms = ms << 8 | b.p[j]; uint64_t w = us / 1000 & 0xffffffffffffull; CHECK(ms == w, "ULID carries time %llu instead of %llu ms", (ull)ms, (ull)w);
            CHECK(entpos - e0 >= 10 && !memcmp(b.p + 6, ent.data() + e0, 10), "ULID's last 10 bytes are not the random ones"); char t[27]; CHECK(ulid_tostring(t, 27, b.p) == 26, "tostring"); v.push_back({us / 1000, t}); }
        else { CHECK(b.p[6] >> 4 == 4, "UUID version is %x", b.p[6] >> 4); CHECK(b.p[8] >> 6 == 2, "UUID variant bits are %x", b.p[8] >> 6); CHECK(entpos - e0 >= 16, "UUID not random");
            for (int j = 0; j < 16; j++) { uint8_t m = j == 6 ? 0x0f : j == 8 ? 0x3f : 0xff; CHECK((b.p[j] & m) == ((uint8_t)ent[e0 + j] & m), "UUID byte %d is not random", j); } v.push_back({0, ref_uuid(std::string((char*)b.p, 16))}); }
    }
    if (ul) for (size_t i = 1; i < v.size(); i++) if (v[i].first > v[i - 1].first) CHECK(v[i].second > v[i - 1].second, "ULID '%s' of a later time sorts before '%s'", v[i].second.c_str(), v[i - 1].second.c_str());
    std::set<std::string> s; for (auto& x : v) CHECK(s.insert(x.second).second, "the same identifier twice: %s", x.second.c_str());
    c.nontrivial(v.size() > 1 && moved);
}
TARGET(noentropy, 1, "always (the system has no entropy to give)") {
    bool ul = g.flip(); entfail = true; now.tv_sec = 1700000000; Exact b(16); TR("%s without entropy", ul ? "ulid_generate" : "uuid_generate"); c.nontrivial(true);
    int r = ul ? ulid_generate(b.p, 16) : uuid_generate(b.p, 16); entfail = false; CHECK(r < 0, "generate returned %d although the system gave no entropy", r);
}
