//@ src: src/zbuf_c.c src/zbuf_unc.c
//@ libs: -lz
//@ quick: 12
//@ assume: z_buf_compress/uncompress are not called again, except for the _end function, once they reported an error or the end of the stream; sizes are not negative
#include "utils/utils.h"
#include <cstring>
#include <cstdlib>
#include <string>
#include <vector>
#include "zlib/zbuf.h"
#include "pbt.h"
using pbt::Src; using pbt::Ctx; using std::string; using std::vector;
static long Live, Fuel; // allocations
static void* al(void*, uInt n, uInt s) { if (Fuel == 0) return nullptr; if (Fuel > 0) Fuel--; Live++; return calloc(n, s); }
static void fr(void*, void* p) { if (p) Live--; free(p); }
struct Sink { Src* g; string out; int mode; long fail; int failval; bool recover; unsigned char* buf; size_t size; string bad; long calls; };
// takes everything, or only whole records, or a part of it; fails from a given call on
static int sink(void* o, void* b, int len) {
    Sink& s = *(Sink*)o; s.calls++; if (!s.bad.empty()) return 0;
    if (len <= 0 || (unsigned char*)b < s.buf || (unsigned char*)b + len > s.buf + s.size) { s.bad = pbt::fmt("the callback is given %d bytes at offset %ld of a buffer of %zu", len, (long)((unsigned char*)b - s.buf), s.size); return 0; }
    if (s.fail >= 0 && s.fail-- == 0) { if (!s.recover) s.fail = 0; return s.failval; }
    int n = s.mode == 0 ? len : s.mode == 1 ? (len >= 4 ? len & ~3 : len) : (int)s.g->range(1, len);
    s.out.append((char*)b, n); return n;
}
static string gdata(Src& g) {
    string s; size_t n = g.weighted({6, 2, 1}) == 0 ? g.size(300) : g.size(g.chance(1, 4) ? 200000 : 6000); int k = (int)g.weighted({3, 3, 2, 1});
    if (k == 0) s = string(n, 'a'); else if (k == 1) { string w = g.bytes(g.range(1, 40)); while (s.size() < n) { s += w; if (g.chance(1, 6)) s += (char)g.u(8); } s.resize(n); }
    else if (k == 2) { uint32_t x = (uint32_t)g.u(32) | 1; while (s.size() < n) { x ^= x << 13; x ^= x >> 17; x ^= x << 5; s += (char)x; } } else { while (s.size() < n) s += "the quick brown fox "[g.range(0, 19)]; }
    return s;
}
static void gsink(Src& g, Sink& s, Exact& b, bool fault) { s = Sink(); s.g = &g; s.mode = (int)g.range(0, 2); s.fail = fault ? (long)g.range(0, g.chance(1, 2) ? 3 : 40) : -1; s.failval = g.chance(1, 3) ? 0 : -(int)g.range(1, 100000); s.recover = g.flip(); s.buf = (unsigned char*)b.p; s.size = b.n; }
static size_t gbuf(Src& g) { return g.chance(1, 2) ? g.range(1, 8) : g.chance(1, 2) ? g.range(1, 300) : g.range(1, 20000); }
static vector<size_t> gchunks(Src& g, size_t n) { vector<size_t> v; int m = (int)g.range(0, 3); size_t done = 0; while (done < n) { size_t k = m == 0 ? n : m == 1 ? g.range(0, 5) : m == 2 ? g.range(0, 400) : g.range(0, n); if (v.size() > 300) k = n; k = std::min(k, n - done); v.push_back(k); done += k; } return v; }
static int stock(const string& z, int wbits, string& out) { z_stream s; memset(&s, 0, sizeof s); inflateInit2(&s, wbits); s.next_in = (Bytef*)z.data(); s.avail_in = (uInt)z.size(); int r; char b[4096]; out.clear(); do { s.next_out = (Bytef*)b; s.avail_out = sizeof b; r = inflate(&s, Z_NO_FLUSH); out.append(b, sizeof b - s.avail_out); } while (r == Z_OK && (s.avail_in || !s.avail_out)); inflateEnd(&s); return r == Z_BUF_ERROR ? Z_OK : r; }
// compresses; the result and whether it succeeded
static bool compress_all(Src& g, Ctx& c, const string& d, bool fault, string& out, bool& split) {
    Exact b(gbuf(g)); Sink s; gsink(g, s, b, fault); z_buf_context z; z_buf_context_init(&z, (Byte*)b.p, (uInt)b.n, sink, &s); z_buf_context_set_allocator(&z, al, fr, nullptr);
    int lev = (int)g.irange(-1, 11), wb = g.flip() ? 15 : (int)g.irange(-2, 17); Fuel = fault && g.chance(1, 4) ? (long)g.range(0, 5) : -1; Live = 0; int r = z_buf_compress_init(&z, lev, wb);
    TR("compress %zu bytes, level %d, wbits %d, buffer %zu, sink mode %d, fails at call %ld with %d%s, allocations %ld: init %d", d.size(), lev, wb, b.n, s.mode, s.fail, s.failval, s.recover ? " once" : "", Fuel, r);
    if (r != Z_OK) { CHECK(Live == 0, "%ld allocations are left after a failed initialization", Live); CHECK(Fuel == 0 || (wb > 4 && wb < 8), "initialization fails with %d", r); c.discard = !fault; return false; } Fuel = -1;
    vector<size_t> ch = gchunks(g, d.size()); size_t at = 0; bool failed = false; long before = s.fail;
    for (size_t k : ch) { Exact e(d.substr(at, k)); r = z_buf_compress(&z, e.p, (int)k); CHECK(s.bad.empty(), "%s", s.bad.c_str()); at += k; if (r != Z_OK) { failed = true; CHECK(r < 0, "z_buf_compress returns %d", r); CHECK(before >= 0, "z_buf_compress returns %d although nothing failed", r);
        TR("  the callback fails at chunk of %zu", k); int r2 = z_buf_compress_end(&z); CHECK(s.bad.empty(), "%s", s.bad.c_str()); if (r2 == Z_OK) { CHECK(s.recover, "the end succeeds although the callback keeps failing"); string o; CHECK(stock(s.out, 15, o) == Z_STREAM_END && o == d.substr(0, at), "after a failure that passed, the completed stream does not hold what was given"); }
        CHECK(Live == 0, "%ld allocations are left after the end", Live); return false; } CHECK(z_buf_context_total_in(&z) == at, "total_in is %lu after %zu bytes", z_buf_context_total_in(&z), at); }
    bool hit = s.fail >= 0 && s.calls > before; (void)hit; long c0 = s.calls; r = z_buf_compress_end(&z); CHECK(s.bad.empty(), "%s", s.bad.c_str()); CHECK(Live == 0, "%ld allocations are left after the end (%d)", Live, r); bool faulted = before >= 0 && s.calls > before;
    if (faulted) { CHECK(r < 0, "z_buf_compress_end returns %d although the callback failed", r); return false; } CHECK(r == Z_OK, "z_buf_compress_end returns %d", r); CHECK(z_buf_context_total_out(&z) == s.out.size(), "total_out is %lu, %zu bytes came out", z_buf_context_total_out(&z), s.out.size());
    out = s.out; split = c0 > 0 || ch.size() > 1; (void)failed; return true;
}
static void uncompress_all(Src& g, Ctx& c, const string& z, bool fault, bool& split) {
    string want; int wr = stock(z, 15, want); Exact b(gbuf(g)); Sink s; gsink(g, s, b, fault); z_buf_context x; z_buf_context_init(&x, (Byte*)b.p, (uInt)b.n, sink, &s); z_buf_context_set_allocator(&x, al, fr, nullptr);
    int wb = g.flip() ? 15 : (int)g.irange(-2, 0) + (g.flip() ? 18 : 0); Fuel = fault && g.chance(1, 4) ? (long)g.range(0, 3) : -1; Live = 0; int r = z_buf_uncompress_init(&x, wb); long before = s.fail;
    TR("uncompress %zu bytes (zlib: %d, %zu bytes), wbits %d, buffer %zu, sink mode %d, fails at call %ld with %d%s, allocations %ld: init %d", z.size(), wr, want.size(), wb, b.n, s.mode, s.fail, s.failval, s.recover ? " once" : "", Fuel, r);
    if (r != Z_OK) { CHECK(Fuel == 0 && Live == 0, "initialization fails with %d, %ld allocations left", r, Live); return; }
    vector<size_t> ch = gchunks(g, z.size()); size_t at = 0; bool ended = false, memerr = false; int err = Z_OK; string piece; bool trailing = false; vector<Exact*> keep; struct Del { vector<Exact*>& v; ~Del() { for (auto p : v) delete p; } } del{keep};
    for (size_t k : ch) { Exact* e = new Exact(z.substr(at, k)); keep.push_back(e); at += k; r = z_buf_uncompress(&x, e->p, (int)k); CHECK(s.bad.empty(), "%s", s.bad.c_str()); if (r == Z_STREAM_END) { ended = true; trailing = at < z.size() || x.z.avail_in; break; } if (r != Z_OK) { err = r; break; } }
    if (Fuel == 0) memerr = true; bool cb = before >= 0 && s.calls > before; split = s.calls > 0 || ch.size() > 1; c.label(cb ? "callback failed" : wr == Z_STREAM_END ? trailing ? "trailing bytes" : "complete" : wr == Z_OK ? "truncated" : "corrupt");
    if (!cb && !memerr) { CHECK(ended == (wr == Z_STREAM_END), "zlib says %d, the library %s", wr, ended ? "reports the end of the stream" : pbt::fmt("%d", err).c_str()); CHECK(ended || err == wr, "zlib says %d, the library %d", wr, err); }
    if (cb && !ended) { CHECK(err < 0, "the callback failed and z_buf_uncompress returns %d", err); }
    Fuel = -1; int r2 = z_buf_uncompress_end(&x); CHECK(s.bad.empty(), "%s", s.bad.c_str()); CHECK(Live == 0, "%ld allocations are left after the end", Live); bool cb2 = before >= 0 && s.calls > before;
    CHECK(s.out.size() <= want.size() && !want.compare(0, s.out.size(), s.out), "what comes out is not what zlib finds (%zu bytes, zlib has %zu)", s.out.size(), want.size());
    if (!cb2 && ended) { CHECK(r2 == Z_OK, "z_buf_uncompress_end returns %d after the end of the stream", r2); CHECK(s.out == want, "only %zu of %zu bytes come out", s.out.size(), want.size()); }
    if (cb2 && !cb) CHECK(r2 < 0, "the callback failed and z_buf_uncompress_end returns %d", r2);
    if (!cb2 && !memerr && !ended && err == Z_OK) CHECK(s.out == want, "only %zu of %zu bytes that precede the cut come out", s.out.size(), want.size());
    if (cb && r2 == Z_OK) { string w; stock(z.substr(0, at), 15, w); CHECK(s.out == w, "after a failure that passed, and an end without error, %zu of %zu bytes came out", s.out.size(), w.size()); }
    if (cb && !s.recover && s.out.size() < want.size() && wr == Z_STREAM_END) CHECK(r2 < 0 || err < 0, "the callback keeps failing and nothing reports it");
}
TARGET(roundtrip, 5, "data that is split over several calls or several buffers") {
    string d = gdata(g), z; bool s1 = false, s2 = false; if (!compress_all(g, c, d, false, z, s1)) return; string o; CHECK(stock(z, 15, o) == Z_STREAM_END && o == d, "zlib does not restore the data from the stream"); uncompress_all(g, c, z, false, s2); c.nontrivial(s1 && s2); }
TARGET(damaged, 4, "a damaged stream given in pieces") {
    string d = gdata(g), z; bool s; if (g.chance(1, 10)) z = g.bytes(g.size(60)); else { uLongf n = compressBound(d.size()); z.resize(n); compress2((Bytef*)&z[0], &n, (Bytef*)d.data(), d.size(), (int)g.range(0, 9)); z.resize(n);
        switch (g.range(0, 3)) { case 0: z.resize(g.range(0, z.size())); break; case 1: z += g.bytes(g.size(40)); break; case 2: { int k = (int)g.range(1, 3); while (k--) z[g.range(0, z.size() - 1)] ^= (char)(1 << g.range(0, 7)); break; } default: z.erase(g.range(0, z.size() - 1), g.range(1, 3)); } }
    uncompress_all(g, c, z, g.chance(1, 4), s); c.nontrivial(s); }
TARGET(faults, 4, "a callback or an allocation that fails") { string d = gdata(g), z; bool s = false; if (g.flip()) { compress_all(g, c, d, true, z, s); c.nontrivial(!s); } else { uLongf n = compressBound(d.size()); z.resize(n); compress2((Bytef*)&z[0], &n, (Bytef*)d.data(), d.size(), 6); z.resize(n); if (g.chance(1, 4)) z += "junk"; uncompress_all(g, c, z, true, s); c.nontrivial(true); } }
