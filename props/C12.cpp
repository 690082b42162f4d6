//@ shim: c12_shim.c
//@ covmain: yes
//@ quick: 15
// C12: bit set vs std::vector<bool>, heap vs multiset, byte buffer vs std::string.
#include "pbt.h"
#include "c12_shim.h"
#include "utils/minheap.h"
typedef std::vector<bool> B;
TARGET(bitset, 2, "operation history over three bit sets of one size (set, clear, and, or, xor, andnot, not, copy, dup), every bit compared after each; non-trivial: >=6 operations and >=2 set operations on nonempty sets") {
    c.leakcheck = true; size_t n = g.chance(1, 400) ? g.big(40000) : g.flip() ? g.range(0, 200) : g.pick<size_t>({64, 63, 65, 127, 128, 129, 1, 0, 191, 192, 640, 1000}); size_t W = (n + 63) / 64 * 64;
    void* b[3]; B m[3]; for (int i = 0; i < 3; i++) { b[i] = bs_new(n); m[i] = B(W); CHECK(bs_words(b[i]) * 64 == W, "a set of %zu bits has %zu words", n, bs_words(b[i])); } TR("three sets of %zu bits", n);
    auto cmp = [&](const char* w) { for (int k = 0; k < 3; k++) for (size_t i = 0; i < W; i++) { int v = bs_isset(b[k], i); CHECK(v == (int)m[k][i] && bs_value(b[k], i) == v, "set %d of %zu bits: bit %zu is %d, expected %d after %s", k, n, i, v, (int)m[k][i], w); } };
    cmp("creation"); size_t ops = n > 2000 ? 12 : 2 + g.size(50), sops = 0;
    for (size_t s = 0; s < ops; s++) {
        int k = (int)g.range(0, 2), j = (int)g.range(0, 2); size_t i = W ? (g.chance(1, 3) && n ? g.pick<size_t>({n - 1, 0, 63 % n, 64 % n, 31 % n, 32 % n}) : g.range(0, W - 1)) : 0; const char* w = "?";
        switch (g.weighted({6, 3, 2, 2, 2, 2, 2, 1, 1, 1, 2})) {
        case 0: if (W) { w = "set"; TR("%d: set %zu", k, i); bs_set(b[k], i); m[k][i] = true; } break;
        case 1: if (W) { w = "clear"; TR("%d: clear %zu", k, i); bs_clr(b[k], i); m[k][i] = false; } break;
        case 2: w = "or"; TR("%d |= %d", k, j); bs_or(b[k], b[j]); for (size_t x = 0; x < W; x++) m[k][x] = m[k][x] || m[j][x]; sops++; break;
        case 3: w = "and"; TR("%d &= %d", k, j); bs_and(b[k], b[j]); for (size_t x = 0; x < W; x++) m[k][x] = m[k][x] && m[j][x]; sops++; break;
        case 4: w = "xor"; TR("%d ^= %d", k, j); bs_xor(b[k], b[j]); for (size_t x = 0; x < W; x++) m[k][x] = m[k][x] != m[j][x]; sops++; break;
        case 5: w = "andnot"; TR("%d &= ~%d", k, j); { B t = m[j]; bs_andnot(b[k], b[j]); for (size_t x = 0; x < W; x++) m[k][x] = m[k][x] && !t[x]; } sops++; break;
        case 6: w = "not"; TR("%d = ~%d", k, k); bs_not(b[k]); m[k].flip(); sops++; break;
        case 7: if (k != j) { w = "copy"; TR("%d = %d", k, j); bs_copy(b[k], b[j]); m[k] = m[j]; } break;
        case 8: { w = "dup"; TR("%d = dup %d", k, j); void* d = bs_dup(b[j]); B t = m[j]; CHECK(bs_words(d) * 64 == W, "a duplicate has another size"); bs_del(b[k]); b[k] = d; m[k] = t; break; }
        case 9: { w = "stack sets"; std::vector<unsigned char> o(W + 1); bs_dupalloca(b[k], o.data(), W); for (size_t x = 0; x < W; x++) CHECK(o[x] == (m[k][x] ? 1 : 0), "bit %zu of a stack duplicate is %d", x, o[x]); std::vector<size_t> st; for (size_t x = 0; W && x < 5; x++) st.push_back(g.range(0, W - 1)); size_t ww = bs_alloca(n, st.data(), st.size(), o.data(), W); CHECK(ww * 64 == W, "a stack set of %zu bits has %zu words", n, ww); B t(W); for (size_t x : st) t[x] = true; for (size_t x = 0; x < W; x++) CHECK(o[x] == (t[x] ? 1 : 0), "bit %zu of a stack set is %d", x, o[x]); break; }
        default: if (W) { w = "random fill"; TR("%d: random fill", k); pbt::Rng r(g.raw(4)); for (size_t x = 0; x < W; x++) if (r.next() & 1) { bs_set(b[k], x); m[k][x] = true; } }
        }
        cmp(w);
    }
    c.nontrivial(ops >= 6 && sops >= 2 && n); for (auto& x : b) bs_del(x);
}
struct It { int key; unsigned id; };
struct Lt { static bool lt(const It& a, const It& b) { return a.key < b.key; } static bool gt(const It& a, const It& b) { return a.key > b.key; } };
TARGET(heap, 2, "heap over an exact-size array: build from arbitrary contents, insert, remove the minimum, remove at a position, against a multiset; non-trivial: >=4 elements at some time and a removal at a position") {
    int max = g.chance(1, 2000) ? (int)g.big(6000) : (int)g.size(40); Exact mem((size_t)max * sizeof(It)); It* h = (It*)mem.p; int n = (int)g.range(0, (uint64_t)max); unsigned ser = 0; int span = g.pick<int>({1000000, 3, 10, 1}); std::map<unsigned, int> m;
    auto mk = [&] { It e{(int)g.range(0, (uint64_t)span) - span / 2, ++ser}; return e; };
    for (int i = 0; i < n; i++) { h[i] = mk(); m[h[i].id] = h[i].key; if (max < 100) TR("initial %d", h[i].key); }
    minheap<It, Lt> hp(h, n, max); bool posrem = false; int big = n;
    auto check = [&](const char* w) { CHECK(hp.heapsize() == (int)m.size(), "the heap reports %d elements instead of %zu after %s", hp.heapsize(), m.size(), w); std::set<unsigned> seen; for (int i = 0; i < hp.heapsize(); i++) { CHECK(m.count(h[i].id) && m[h[i].id] == h[i].key && seen.insert(h[i].id).second, "slot %d holds a foreign or duplicate element after %s", i, w); if (i) CHECK(h[(i - 1) / 2].key <= h[i].key, "slot %d (%d) is below its parent (%d) after %s", i, h[i].key, h[(i - 1) / 2].key, w); } };
    check("building"); size_t ops = 1 + g.size(60);
    for (size_t s = 0; s < ops; s++) { big = std::max(big, (int)m.size());
        switch (g.weighted({4, 3, 3})) {
        case 0: { It e = mk(); bool full = (int)m.size() >= max; TR("insert %d", e.key); bool r = hp.insert(e); CHECK(r == !full, "inserting into a heap of %zu/%d returned %d", m.size(), max, r); if (r) m[e.id] = e.key; check("insert"); break; }
        case 1: { It e{0, 0}; bool r = hp.removemin(e); TR("removemin: %d %d", r, e.key); CHECK(r == !m.empty(), "removemin of a heap of %zu returned %d", m.size(), r); if (r) { CHECK(m.count(e.id) && m[e.id] == e.key, "removemin gave a foreign element"); for (auto& kv : m) CHECK(kv.second >= e.key, "removemin gave %d while the heap holds %d", e.key, kv.second); m.erase(e.id); } check("removemin"); break; }
        default: { int pos = (int)g.irange(-2, (int64_t)m.size() + 2); It e{0, 0}, was{0, 0}; bool ok = pos >= 0 && pos < (int)m.size(); if (ok) was = h[pos]; bool r = hp.remove(pos, e); TR("remove at %d: %d %d", pos, r, e.key); CHECK(r == ok, "remove at %d of %zu returned %d", pos, m.size(), r); if (r) { posrem = true; CHECK(e.id == was.id && e.key == was.key, "remove at %d gave the wrong element", pos); m.erase(e.id); } check("remove"); }
        } }
    c.nontrivial(big >= 4 && posrem);
    int last = INT32_MIN; It e; while (hp.removemin(e)) { CHECK(e.key >= last, "draining yields %d after %d", e.key, last); last = e.key; CHECK(m.erase(e.id), "draining yields a foreign element"); } CHECK(m.empty(), "draining lost %zu elements", m.size());
}
TARGET(buf, 1, "append history on a byte buffer compared with a string; non-trivial: the buffer grew and >=4 operations") {
    c.leakcheck = true; size_t init = g.pick<size_t>({0, 1, 2, 3, 7, 128, 129}); void* b = fb_new(init); TR("init %zu", init); std::string m; bool grew = false; size_t ops = 1 + g.size(40); CHECK(fb_cap(b) >= init && fb_len(b) == 0, "initial capacity %zu, length %zu", fb_cap(b), fb_len(b));
    for (size_t s = 0; s < ops; s++) { size_t cap0 = fb_cap(b), room = cap0 - m.size();
        switch (g.weighted({5, 4, 1, 1, 1, 2})) {
        case 0: { size_t n = g.chance(1, 400) ? g.big(70000) : g.flip() ? g.size(300) : g.range(room > 2 ? room - 2 : 0, room + 2); std::string t = n > 300 ? g.fill(n) : g.bytes(n); TR("append %zu bytes", n); Exact e(t); fb_append(b, e.p, n); m += t; break; }
        case 1: { uint8_t ch = (uint8_t)g.raw(1); size_t k = g.chance(1, 4) ? room + 1 : 1; TR("append byte %02x x %zu", ch, k); while (k--) { fb_byte(b, ch); m += (char)ch; } break; }
        case 2: { size_t n = g.range(0, 2 * cap0 + 5); TR("reserve %zu", n); fb_reserve(b, n); CHECK(fb_cap(b) >= n, "capacity %zu after reserving %zu", fb_cap(b), n); break; }
        case 3: { size_t n = g.range(0, cap0 + 5); TR("grow %zu", n); fb_grow(b, n); CHECK(fb_cap(b) >= m.size() + n, "capacity %zu after growing by %zu from %zu", fb_cap(b), n, m.size()); break; }
        case 4: TR("reset"); fb_reset(b); m.clear(); break;
        default: { size_t n = g.range(0, 40); TR("grow and advance %zu", n); fb_grow(b, n); std::string t = g.bytes(n); memcpy(fb_ptr(b) + fb_len(b), t.data(), n); fb_advance(b, n); m += t; }
        }
        grew = grew || fb_cap(b) > cap0; CHECK(fb_len(b) == m.size(), "length %zu, expected %zu", fb_len(b), m.size()); CHECK(fb_cap(b) >= m.size(), "capacity below length"); CHECK(!memcmp(fb_ptr(b), m.data(), m.size()), "contents differ from what was appended");
    }
    c.nontrivial(grew && ops >= 4); fb_fini(b);
}
