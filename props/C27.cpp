//@ src: src/prng/xorshift.c src/prng/xoroshiro.c src/prng/romu-rand.c src/prng/frand.c src/arc4random.c
//@ cflags: -Darc4random=plib_arc4random -Darc4random_buf=plib_arc4random_buf -Darc4random_uniform=plib_arc4random_uniform
//@ wrap: getentropy
//@ quick: 16
//@ assume: the kernel never returns the same entropy twice (getentropy is replaced by a generated, never repeating stream)
#define arc4random plib_arc4random
#define arc4random_buf plib_arc4random_buf
#define arc4random_uniform plib_arc4random_uniform
#include "utils/utils.h"
#include "utils/xorshift-rand.h"
#include "utils/xoroshiro.h"
#include "utils/romu-rand.h"
#include "utils/splitmix.h"
#include "utils/arc4random.h"
#include "pbt.h"
#include <atomic>
#include <cmath>
#include <functional>
#include <thread>
#include <vector>
#include <unordered_set>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
using pbt::Src; using pbt::Ctx; typedef unsigned long long ull;
extern "C" double frand(void);
// entropy: block number i of a case is a pure function of (case seed, i); the counter is shared with forked children
struct Shared { std::atomic<uint64_t> seed, ctr, bytes; };
static Shared* newshared() { void* p = mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); return new (p) Shared(); }
static Shared* sh = newshared(); static pid_t showner;
static uint64_t mix(uint64_t z) { z += 0x9e3779b97f4a7c15ull; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
static std::string entropy_block(uint64_t seed, uint64_t i, size_t n) { std::string s; uint64_t x = mix(mix(seed) ^ i * 0xd1342543de82ef95ull); while (s.size() < n) { x = mix(x); s.append((char*)&x, 8); } s.resize(n); return s; }
extern "C" int __wrap_getentropy(void* p, size_t n) { uint64_t i = sh->ctr++; sh->bytes += n; std::string s = entropy_block(sh->seed, i, n); memcpy(p, s.data(), n); return 0; }
static void newcase(Src& g) { if (showner != getpid()) { sh = newshared(); showner = getpid(); } sh->seed = g.u(48); sh->ctr = 0; sh->bytes = 0; }

// ---- references of the published algorithms
static uint64_t rl(uint64_t x, int k) { return x << k | x >> (64 - k); }
struct Gen { virtual uint64_t lib() = 0; virtual uint64_t ref() = 0; virtual const char* name() = 0; virtual ~Gen() {} };
static const uint64_t M64 = 0x2545F4914F6CDD1Dull, RC = 15241094284759029579ull;
static uint64_t rsplit(uint64_t& x) { uint64_t z = (x += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
struct RX64 { uint64_t x; void init(uint64_t s) { x = rsplit(s); } uint64_t next() { x ^= x >> 12; x ^= x << 25; x ^= x >> 27; return x * M64; } };
struct RX128 { uint64_t a, b; void init(uint64_t s) { RX64 z; z.init(s); a = z.next(); b = z.next(); } uint64_t next() { uint64_t s1 = a, s0 = b; a = s0; s1 ^= s1 << 23; b = s1 ^ s0 ^ s1 >> 18 ^ s0 >> 5; return b + s0; } };
struct RX1024 { uint64_t v[16]; unsigned p; void init(uint64_t s) { RX128 z; z.init(s); for (auto& x : v) x = z.next(); p = z.next() & 15; }
    uint64_t next() { uint64_t s0 = v[p]; p = (p + 1) & 15; uint64_t s1 = v[p]; s1 ^= s1 << 31; v[p] = s1 ^ s0 ^ s1 >> 11 ^ s0 >> 30; return v[p] * 1181783497276652981ull; } };
struct GX64 : Gen { xs64star s; RX64 r; GX64(uint64_t k) { xs64star_init(&s, k); r.init(k); } uint64_t lib() { return xs64star_u64(&s); } uint64_t ref() { return r.next(); } const char* name() { return "xorshift64*"; } };
struct GX128 : Gen { xs128plus s; RX128 r; GX128(uint64_t k) { xs128plus_init(&s, k); r.init(k); } uint64_t lib() { return xs128plus_u64(&s); } uint64_t ref() { return r.next(); } const char* name() { return "xorshift128+"; } };
struct GX1024 : Gen { xs1024star s; RX1024 r; GX1024(uint64_t k) { xs1024star_init(&s, k); r.init(k); } uint64_t lib() { return xs1024star_u64(&s); } uint64_t ref() { return r.next(); } const char* name() { return "xorshift1024*"; } };
struct GXoro : Gen { xoro128plus s; uint64_t a, b; GXoro(uint64_t k) { xoro128plus_init(&s, k); a = k; b = rsplit(k); } uint64_t lib() { return xoro128plus_u64(&s); }
    uint64_t ref() { uint64_t s0 = a, s1 = b, r = s0 + s1; s1 ^= s0; a = rl(s0, 55) ^ s1 ^ s1 << 14; b = rl(s1, 36); return r; } const char* name() { return "xoroshiro128+"; } };
struct GQuad : Gen { romu s; uint64_t w, x, y, z; GQuad(uint64_t a, uint64_t b) { romu_quad_init(&s, a, b); w = a; x = b; y = ~a; z = ~b; } uint64_t lib() { return romu_quad(&s); }
    uint64_t ref() { uint64_t W = w, X = x, Y = y, Z = z; w = RC * Z; x = Z + rl(W, 52); y = Y - X; z = rl(Y + W, 19); return X; } const char* name() { return "RomuQuad"; } };
struct GTrio : Gen { romu s; uint64_t x, y, z; GTrio(uint64_t a, uint64_t b) { romu_trio_init(&s, a, b); x = a; y = b; z = ~a; } uint64_t lib() { return romu_trio(&s); }
    uint64_t ref() { uint64_t X = x, Y = y, Z = z; x = RC * Z; y = rl(Y - X, 12); z = rl(Z - Y, 44); return X; } const char* name() { return "RomuTrio"; } };
struct GDuo : Gen { romu s; uint64_t x, y; GDuo(uint64_t a) { romu_duo_init(&s, a); x = a; y = ~a; } uint64_t lib() { return romu_duo(&s); }
    uint64_t ref() { uint64_t X = x, Y = y; x = RC * Y; y = rl(Y, 36) + rl(Y, 15) - X; return X; } const char* name() { return "RomuDuo"; } };
struct GSplit : Gen { uint64_t s, r; GSplit(uint64_t k) : s(k), r(k) {} uint64_t lib() { return splitmix64(&s); } uint64_t ref() { return rsplit(r); } const char* name() { return "splitmix64"; } };
static Gen* mk(int t, uint64_t a, uint64_t b) { switch (t) { case 0: return new GX64(a); case 1: return new GX128(a); case 2: return new GX1024(a); case 3: return new GXoro(a); case 4: return new GQuad(a, b); case 5: return new GTrio(a, b); case 6: return new GDuo(a); default: return new GSplit(a); } }
static uint64_t gseed(Src& g) { uint64_t s = g.chance(1, 3) ? g.range(1, 20) : g.chance(1, 6) ? ~g.range(0, 3) : g.u(64); return s ? s : 1; }
TARGET(seeded, 4, "at least two generators interleaved, each drawn from at least 17 times") {
    newcase(g); int n = 1 + (int)g.range(0, 3); std::vector<std::unique_ptr<Gen>> v; std::vector<int> cnt(n); 
    for (int i = 0; i < n; i++) { int t = (int)g.range(0, 7); uint64_t a = gseed(g), b = gseed(g); v.emplace_back(mk(t, a, b)); TR("g%d = %s(%llx, %llx)", i, v.back()->name(), (ull)a, (ull)b); }
    int steps = 1 + (int)g.range(0, 30);
    for (int i = 0; i < steps; i++) { int k = (int)g.range(0, n - 1), m = (int)g.range(1, 20); TR("draw %d from g%d", m, k);
        for (int j = 0; j < m; j++) { uint64_t a = v[k]->lib(), b = v[k]->ref(); CHECK(a == b, "%s: output %d is %016llx, the published algorithm gives %016llx", v[k]->name(), cnt[k], (ull)a, (ull)b); cnt[k]++; } }
    int ok = 0; for (int x : cnt) ok += x >= 17; c.nontrivial(ok >= 2); for (auto& x : v) c.label(x->name());
    CHECK(sh->ctr == 0, "a generator with a non-zero seed asked the system for entropy");
}
TARGET(selfseeded, 1, "always (two generators without a seed)") {
    newcase(g); int t = (int)g.range(0, 6); TR("type %d, no seed", t); c.nontrivial(true);
    std::unique_ptr<Gen> a(mk(t, 0, 0)), b(mk(t, 0, 0)); CHECK(sh->ctr >= 2, "%s: unseeded generators did not ask the system for entropy", a->name());
    std::unordered_set<uint64_t> seen; for (int i = 0; i < 20; i++) { uint64_t x = a->lib(), y = b->lib(); CHECK(x != y, "%s: two unseeded generators produce the same output", a->name()); CHECK(seen.insert(x).second && seen.insert(y).second, "%s: an unseeded generator repeats itself", a->name()); }
}
TARGETF(frand_interval, 1, "at least 200 draws", pbt::NONDET) {
    int n = 200 + (int)g.range(0, 3000); TR("%d draws of frand", n); c.nontrivial(true); int b[16] = {0}; double sum = 0; std::unordered_set<double> s;
    for (int i = 0; i < n; i++) { double d = frand(); CHECK(d >= 0 && d < 1, "frand returned %.20g, outside [0, 1)", d); b[(int)(d * 16)]++; sum += d; s.insert(d); }
    CHECK((int)s.size() > n - 3, "frand repeats: %zu distinct of %d", s.size(), n);
    for (int i = 0; i < 16; i++) { double e = n / 16.0, z = (b[i] - e) / sqrt(e); CHECK(fabs(z) < 9, "frand: %d of %d draws in [%d/16, %d/16)", b[i], n, i, i + 1); }
    CHECK(fabs(sum / n - .5) < 9 * sqrt(1. / 12 / n), "frand: mean %g", sum / n);
}
// ---- arc4random: each case in a thread of its own, whose state is therefore fresh
static void in_thread(const std::function<void()>& f) { std::exception_ptr e; std::thread t([&] { try { f(); } catch (...) { e = std::current_exception(); } }); t.join(); if (e) std::rethrow_exception(e); }
struct Windows { std::unordered_set<uint64_t> s; void add(const std::string& d, const char* what) { for (size_t i = 0; i + 8 <= d.size(); i++) { uint64_t w; memcpy(&w, d.data() + i, 8); CHECK(s.insert(w).second, "%s: the 8 bytes at offset %zu occurred before", what, i); } } };
static std::string draw(size_t n, uint8_t fill) { Exact e(n + 0, fill); plib_arc4random_buf(e.p, n); return std::string((char*)e.p, n); }
static std::string draw32(int k) { std::string s; for (int i = 0; i < k; i++) { uint32_t v = plib_arc4random(); s.append((char*)&v, 4); } return s; }
TARGET(stream, 3, "more than 2 KiB drawn in at least three requests") {
    newcase(g); size_t total = 0; int reqs = 0; bool bad = false; std::string all; std::vector<std::pair<int, size_t>> ops; int n = 1 + (int)g.range(0, 12);
    for (int i = 0; i < n; i++) { int k = (int)g.weighted({4, 2, 2}); ops.push_back({k, k == 0 ? g.range(0, 1200) : k == 1 ? g.range(0, g.chance(1, 20) ? 70000 : 6000) : g.range(1, 40)}); }
    in_thread([&] {
        uint64_t since = 0, last = 0;
        for (auto& o : ops) {
            uint64_t before = sh->ctr; std::string d; 
            if (o.first < 2) { uint8_t f = (uint8_t)(0x40 + reqs); TR("arc4random_buf(%zu)", o.second); Exact e(o.second + 16, f); plib_arc4random_buf(e.p + 8, o.second);
                for (int i = 0; i < 8; i++) CHECK(e.p[i] == f && e.p[8 + o.second + i] == f, "arc4random_buf(%zu) wrote outside the buffer", o.second);
                d.assign((char*)e.p + 8, o.second);
                if (o.second >= 24) { int run = 0; for (unsigned char ch : d) { run = ch == f ? run + 1 : 0; CHECK(run < 8, "arc4random_buf(%zu) left bytes unfilled", o.second); } if (d.substr(o.second - 6) == std::string(6, (char)f)) FAIL("arc4random_buf(%zu) left its tail unfilled", o.second); } }
            else { TR("arc4random() x %zu", o.second); d = draw32((int)o.second); }
            all += d; total += d.size(); reqs++;
            if (sh->ctr != before) since = 0;
            since += d.size(); last = since; (void)last;
            // reseeding: once 8 KiB have been handed out since the last entropy, the next request must fetch some
            if (o.first < 2 && since > 8192 && sh->ctr == before && since - d.size() > 4096) bad = true;
        }
        CHECK(sh->ctr > 0, "no entropy was ever asked for");
    });
    CHECK(!bad, "more than 4 KiB handed out without fresh entropy");
    if (reqs % 2) { // the same requests with the same entropy, into memory that was filled with the complement: what is not written differs
        sh->ctr = 0; std::string again; int q = 0;
        in_thread([&] { for (auto& o : ops) { if (o.first < 2) again += draw(o.second, (uint8_t)~(0x40 + q)); else again += draw32((int)o.second); q++; } });
        CHECK(again.size() == all.size(), "harness: %zu and %zu bytes", again.size(), all.size());
        for (size_t i = 0, k = 0, at = 0; i < all.size(); i++) { while (k < ops.size() && i - at >= (ops[k].first < 2 ? ops[k].second : 4 * ops[k].second)) at += ops[k].first < 2 ? ops[k].second : 4 * ops[k].second, k++; CHECK(all[i] == again[i], "request %zu (%s%zu), byte %zu: not written, or not determined by the entropy", k, ops[k].first < 2 ? "arc4random_buf, size " : "arc4random, times ", ops[k].second, i - at); }
    }
    Windows w; w.add(all, "arc4random"); std::string ent; for (uint64_t i = 0; i < sh->ctr && i < 64; i++) w.add(entropy_block(sh->seed, i, 40), "entropy block shows in the output");
    c.nontrivial(total > 2048 && reqs >= 3);
}
TARGET(reseed, 1, "always") {
    newcase(g); size_t first = g.range(0, 12000); TR("arc4random_buf(%zu), then small requests", first); c.nontrivial(first > 2048);
    in_thread([&] { draw(first, 0); uint64_t b = sh->ctr; size_t n = 0; while (sh->ctr == b && n < 65536) { size_t k = 1 + n % 61; draw(k, 0); n += k; } CHECK(n < 65536, "64 KiB handed out after a first request of %zu bytes without fresh entropy", first); });
}
TARGET(uniform, 2, "bound at least 2 and at least 200 draws") {
    newcase(g); uint32_t b; switch (g.weighted({2, 3, 2, 3})) { case 0: b = (uint32_t)g.range(0, 3); break; case 1: b = (uint32_t)g.range(2, 64); break; case 2: b = (uint32_t)g.u(32); break; default: b = (uint32_t)(0x80000000u + g.range(0, 0x7ffffff0u)); }
    int n = 400 + (int)g.range(0, 2000); TR("arc4random_uniform(%u) x %d", b, n); c.nontrivial(b >= 2);
    std::vector<uint32_t> v(n); in_thread([&] { for (auto& x : v) x = plib_arc4random_uniform(b); });
    if (b < 2) { for (auto x : v) CHECK(x == 0, "arc4random_uniform(%u) returned %u", b, x); return; }
    int k = b <= 64 ? (int)b : 16; std::vector<double> cell(k); 
    for (auto x : v) { CHECK(x < b, "arc4random_uniform(%u) returned %u", b, x); cell[b <= 64 ? x : (size_t)((uint64_t)x * 16 / b)]++; }
    if (b <= 64 || b > 1000000) for (int i = 0; i < k; i++) { double p = 1.0 / k, z = (cell[i] - n * p) / sqrt(n * p * (1 - p)); CHECK(z < 11 && z > -11, "arc4random_uniform(%u): cell %d of %d holds %g of %d draws", b, i, k, cell[i], n); }
}
TARGET(threads, 1, "at least two threads, each drawing at least 64 bytes") {
    newcase(g); int n = 2 + (int)g.range(0, 2); std::vector<std::pair<size_t, int>> plan(n); for (auto& p : plan) p = {64 + g.range(0, 1500), (int)g.range(1, 3)};
    TR("%d threads", n); c.nontrivial(true); std::vector<std::string> out(n); std::vector<std::thread> t;
    for (int i = 0; i < n; i++) t.emplace_back([&, i] { for (int j = 0; j < plan[i].second; j++) out[i] += draw(plan[i].first, 0); });
    for (auto& x : t) x.join(); Windows w; for (auto& s : out) w.add(s, "threads share a stream");
}
static void writeall(int fd, const std::string& s) { size_t o = 0; while (o < s.size()) { ssize_t r = write(fd, s.data() + o, s.size() - o); if (r <= 0) _exit(9); o += r; } }
TARGET(forked, 1, "always (parent and child both draw after the fork)") {
    newcase(g); size_t pre = g.chance(1, 5) ? 0 : g.range(1, 3000), post = 16 + g.range(0, 1500), pc = 16 + g.range(0, 1500); int kids = 1 + (int)g.range(0, 1); bool grand = g.flip();
    TR("parent draws %zu, forks %d%s; each child draws %zu, parent draws %zu", pre, kids, grand ? " with grandchildren" : "", pc, post); c.nontrivial(true);
    std::vector<std::string> parts; bool ok = true;
    in_thread([&] {
        if (pre) parts.push_back(draw(pre, 0)); 
        for (int k = 0; k < kids; k++) {
            int fd[2]; if (pipe(fd)) pbt::harness_error("pipe"); pid_t p = fork(); if (p < 0) pbt::harness_error("fork");
            if (p == 0) { close(fd[0]); writeall(fd[1], draw(pc, 0)); if (grand) { pid_t q = fork(); if (q == 0) { writeall(fd[1], draw(pc, 0)); _exit(0); } int st; waitpid(q, &st, 0); writeall(fd[1], draw(pc, 0)); } _exit(0); }
            close(fd[1]); std::string s; char b[4096]; ssize_t r; while ((r = read(fd[0], b, sizeof b)) > 0) s.append(b, r); close(fd[0]); int st; waitpid(p, &st, 0); if (st) ok = false;
            if (s.size() != (grand ? 3 : 1) * pc) ok = false; for (size_t i = 0; i < s.size(); i += pc) parts.push_back(s.substr(i, pc));
            parts.push_back(draw(post, 0));
        } });
    CHECK(ok, "a child that draws random bytes died"); Windows w; for (auto& s : parts) w.add(s, "a stream is repeated across fork");
}
