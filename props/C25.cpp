//@ src: src/parse-ip.c
//@ quick: 12
// C25: IPv4 text vs an independent parser (and inet_pton), all masks exhaustively.
#include "pbt.h"
#include <arpa/inet.h>
#include "utils/parse-ip.h"
typedef std::string S;
// 1 an address, 0 not, -1 only questionable for leading zeros or length
static int ref(const S& s, uint32_t& a) { a = 0; int oct = 0; bool z = false; size_t i = 0; while (true) { size_t b = i; unsigned long v = 0; while (i < s.size() && isdigit((unsigned char)s[i])) { v = std::min(v * 10 + (s[i] - '0'), 100000ul); i++; } if (i == b || v > 255) return 0; if (i - b > 1 && s[b] == '0') z = true; a = a << 8 | (uint32_t)v; if (++oct == 4) break; if (i >= s.size() || s[i] != '.') return 0; i++; } if (i != s.size()) return 0; return z ? -1 : 1; }
static S quad(uint32_t a) { return pbt::fmt("%u.%u.%u.%u", a >> 24, a >> 16 & 255, a >> 8 & 255, a & 255); }
static uint32_t addr(pbt::Src& g) { switch (g.range(0, 2)) { case 0: return (uint32_t)g.u(32); case 1: { uint32_t a = 0; for (int i = 0; i < 4; i++) a = a << 8 | g.pick<uint32_t>({0, 1, 9, 10, 99, 100, 127, 128, 199, 200, 249, 250, 254, 255}); return a; } default: return g.pick<uint32_t>({0u, 0xffffffffu, 0x7f000001u, 0x0a000000u}); } }
static S mut(pbt::Src& g, S s) { int k = (int)g.weighted({3, 2, 1}); while (k--) { size_t p = g.range(0, s.size()); static const char al[] = ".0123456789/- +ax"; char x = g.chance(1, 8) ? (char)g.range(1, 255) : al[g.range(0, sizeof al - 2)]; switch (g.range(0, 3)) { case 0: s.insert(p, 1, x); break; case 1: if (p < s.size()) s.erase(p, 1); break; case 2: if (p < s.size()) s[p] = x; break; default: if (p < s.size()) s.insert(p, 1, s[p]); } } return s; }
static S octs(pbt::Src& g) { S s; int n = (int)g.pick<int>({4, 4, 4, 3, 5, 1}); for (int i = 0; i < n; i++) { if (i) s += '.'; s += g.chance(1, 3) ? S(g.pick<const char*>({"256", "255", "260", "300", "999", "1000", "00", "", "4294967296", "2555"})) : std::to_string(g.range(0, 255)); } return s; }
TARGET(address, 3, "generated addresses, out-of-range octets and mutated text vs an independent parser and inet_pton; non-trivial: at least one dot") {
    uint32_t a = addr(g), w, got = 0xdeadbeef; S s = g.chance(1, 4) ? octs(g) : quad(a); s = mut(g, s); int v = ref(s, w); TR("parse %s", pbt::show(s).c_str()); if (v == 1) { in_addr t; CHECK(inet_pton(AF_INET, s.c_str(), &t) == 1 && ntohl(t.s_addr) == w, "harness: reference disagrees with inet_pton on %s", s.c_str()); }
    Exact e(s, true); int r = parse_ipv4(&got, e.c()); if (v >= 0) CHECK(!!r == v, "parse_ipv4(%s) says %d", pbt::show(s).c_str(), r); if (r && v) CHECK(got == w, "parse_ipv4(%s) gave %08x, expected %08x", s.c_str(), got, w);
    uint32_t ga = 1, gm = 2; if (s.find('/') == S::npos) { r = parse_ipv4_and_mask(&ga, &gm, e.c()); if (v >= 0) CHECK(!!r == v, "parse_ipv4_and_mask(%s) says %d", pbt::show(s).c_str(), r); if (r && v) CHECK(ga == w && gm == 0xffffffffu, "parse_ipv4_and_mask(%s) gave %08x/%08x", s.c_str(), ga, gm); }
    size_t n = g.chance(1, 4) ? g.range(1, 16) : 16; Exact o(n); S q = quad(a); CHECK(str_ipv4(o.c(), n, a) == o.c(), "str_ipv4 does not return the buffer"); CHECK(S(o.c()) == q.substr(0, n - 1), "str_ipv4(%08x) into %zu gave %s", a, n, o.c()); if (n == 16) CHECK(parse_ipv4(&got, o.c()) && got == a, "formatting and parsing %08x gave %08x", a, got);
    c.nontrivial(s.find('.') != S::npos); c.label(v == 1 ? "valid" : v ? "leading zeros" : "invalid");
}
TARGET(masked, 3, "generated address/prefix and address/mask strings, mutated, incl. long and huge masks, vs an independent parser; non-trivial: a slash present") {
    uint32_t a = addr(g), wa, wm; S m; switch (g.range(0, 4)) { case 0: m = std::to_string(g.range(0, 33)); break; case 1: { uint32_t k = (uint32_t)g.range(0, 32); m = quad(k ? ~0u << (32 - k) : 0); break; } case 2: m = quad(addr(g)); break; case 3: m = g.pick<const char*>({"", "18446744073709551640", "4294967304", "00000000000000000000000000000000024", "0000000000000000000000000000024x", "255.255.255.0                        x", "256", "-1", "+8", " 8", "8 ", "0x8", "08"}); break; default: m = std::to_string(g.u(40)); } S s = quad(a) + "/" + m; if (g.chance(1, 2)) s = mut(g, s); size_t sl = s.find('/'); if (sl == S::npos) { c.discard = true; return; } TR("parse %s", pbt::show(s).c_str());
    S as = s.substr(0, sl), ms = s.substr(sl + 1); int v = ref(as, wa), vm; if (ms.find('.') != S::npos) vm = ref(ms, wm); else { bool dig = ms.size() > 0; for (char x : ms) dig &= isdigit((unsigned char)x) != 0; unsigned long k = 0; for (char x : ms) k = std::min(k * 10 + (x - '0'), 1000ul); vm = !dig || k > 32 ? 0 : ms.size() > 1 && ms[0] == '0' ? -1 : 1; wm = k && k <= 32 ? ~0u << (32 - k) : 0; } int both = !v || !vm ? 0 : v < 0 || vm < 0 ? -1 : 1;
    Exact e(s, true); uint32_t ga = 1, gm = 2; int r = parse_ipv4_and_mask(&ga, &gm, e.c()); if (both >= 0) CHECK(!!r == both, "parse_ipv4_and_mask(%s) says %d", pbt::show(s).c_str(), r); if (r && both) CHECK(ga == wa && gm == wm, "parse_ipv4_and_mask(%s) gave %08x/%08x, expected %08x/%08x", s.c_str(), ga, gm, wa, wm);
    c.nontrivial(true); c.label(both == 1 ? "valid" : both ? "leading zeros" : "invalid"); if (both == 1 && wm == 0) c.label("empty mask");
}
TARGET(cidr, 1, "mask_to_cidr4 of contiguous masks (all 33), their one-bit neighbours and random words vs bit counting; non-trivial: not a contiguous mask") {
    uint32_t k = (uint32_t)g.range(0, 32), m = k ? ~0u << (32 - k) : 0; switch (g.range(0, 3)) { case 0: break; case 1: m ^= 1u << g.range(0, 31); break; case 2: m = (uint32_t)g.u(32); break; default: m = ~m; } TR("mask %08x", m); uint32_t inv = ~m, n = 99; bool ok = (inv & (inv + 1)) == 0; int r = mask_to_cidr4(m, &n); CHECK(!!r == ok, "mask_to_cidr4(%08x) says %d", m, r); if (ok) CHECK(n == (uint32_t)__builtin_popcount(m), "mask_to_cidr4(%08x) is %u", m, n); c.nontrivial(!ok); c.label(ok ? "contiguous" : "not contiguous");
    if (ok) { S s = "1.2.3.4/" + std::to_string(n); uint32_t a, mm; CHECK(parse_ipv4_and_mask(&a, &mm, s.c_str()) && mm == m, "prefix %u does not convert back to %08x", n, m); }
}
