//@ src: src/b64_encode.c src/b64_decode.c src/str2hex.c src/hexdump.c
//@ quick: 14
// C22: base64, hex decoding and hex dumps vs reference codecs, destinations in exactly sized guarded blocks.
#include "pbt.h"
#include <errno.h>
#include <ctype.h>
#include "utils/utils.h"
#include "utils/base64.h"
#include "utils/hexdump.h"
typedef std::string S;
static const char AL[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static S enc(const S& s) { S o; size_t grp = 0; for (size_t i = 0; i < s.size(); i += 3) { uint32_t v = 0; int n = (int)std::min<size_t>(3, s.size() - i); for (int k = 0; k < 3; k++) v = v << 8 | (k < n ? (uint8_t)s[i + k] : 0); for (int k = 0; k < 4; k++) o += k <= n ? AL[v >> (18 - 6 * k) & 63] : '='; if (n == 3 && ++grp == 18) { o += '\n'; grp = 0; } } return o + "\n"; }
static S dec(const S& s) { S o; uint32_t v = 0; int nb = 0; for (char x : s) { const char* p = x ? strchr(AL, x) : 0; if (!p) continue; v = v << 6 | (uint32_t)(p - AL); nb += 6; if (nb >= 8) { nb -= 8; o += (char)(v >> nb); } } return o; }
static S data(pbt::Src& g) { size_t n = g.chance(1, 6) ? g.range(0, 300) : g.chance(1, 4) ? g.pick<size_t>({53, 54, 55, 107, 108, 109, 162}) : g.range(0, 12); S s = g.chance(1, 80) ? g.fill(g.big(70000)) : g.bytes(n); return s; }
TARGET(encode, 3, "base64_encode_buf and the block interface in generated splits vs the standard alphabet with padding (lines of 72, final newline), destination sizes around the need; then decode back; non-trivial: >=1 byte") {
    S s = data(g), w = enc(s); size_t need = w.size() + 1, dl = g.flip() ? need : g.chance(1, 2) ? g.range(0, need + 3) : need - 1; TR("encode %s into %zu (need %zu)", pbt::show(s, 40).c_str(), dl, need); Exact src(s), d(dl); if (dl) memset(d.p, 0x5a, dl); int r = base64_encode_buf(d.c(), (int)dl, src.p, (int)s.size());
    if (dl < need) CHECK(r < 0, "encoding %zu bytes into %zu returned %d", s.size(), dl, r); else if (r < 0) CHECK(dl < 2 * need, "encoding %zu bytes into %zu returned %d", s.size(), dl, r); if (r >= 0) { CHECK(r == (int)w.size(), "encoded length %d, expected %zu", r, w.size()); CHECK(S(d.c()) == w, "encoded %s, expected %s", pbt::show(S(d.c())).c_str(), pbt::show(w).c_str()); }
    { base64_encode_state st; base64_encode_init(&st); S out; size_t at = 0; while (at < s.size()) { size_t n = std::min<size_t>(s.size() - at, s.size() > 500 ? g.range(1, s.size()) : g.flip() ? g.range(0, 4) : g.range(0, 60)); Exact in(s.substr(at, n)), o(2 * n + 8); int k = base64_encode_block(&st, in.c(), (int)n, o.c()); CHECK(k >= 0 && (size_t)k <= 2 * n + 8, "block returned %d", k); out.append(o.c(), k); at += n; if (!n && g.chance(1, 2)) { n = s.size() - at; Exact in2(s.substr(at)), o2(2 * n + 8); k = base64_encode_block(&st, in2.c(), (int)n, o2.c()); out.append(o2.c(), k); at = s.size(); } } Exact f(8); int k = base64_encode_finish(&st, f.c()); CHECK(f.c()[k] == 0, "finish does not terminate"); out.append(f.c(), k); CHECK(out == w, "blockwise encoding gave %s, expected %s", pbt::show(out).c_str(), pbt::show(w).c_str()); }
    { Exact in(w), o(s.size() + 1); int k = base64_decode_buf(o.p, (int)o.n, in.c(), (int)w.size()); CHECK(k == (int)s.size() && !memcmp(o.p, s.data(), s.size()), "decoding the encoding gave %d bytes, not the original %zu", k, s.size()); }
    c.nontrivial(s.size() > 0); c.label(dl < need ? "no room" : "encoded"); if (s.size() >= 54) c.label("several lines");
}
TARGET(decode, 3, "base64_decode_buf and the block interface in generated splits on generated text (alphabet, padding, line breaks, foreign bytes, which are skipped) vs a reference decoder, destination sizes around the need; non-trivial: >=2 alphabet characters") {
    S t; size_t n = g.chance(1, 6) ? g.range(0, 200) : g.range(0, 14); bool any = g.chance(1, 3); size_t k0 = 0; for (size_t i = 0; i < n; i++) { char x = any && g.chance(1, 3) ? (char)g.range(0, 255) : g.chance(1, 10) ? g.pick<char>({'=', '\n', '{', '|', ',', '*', '-', '@', '[', '`', ':'}) : AL[g.range(0, 63)]; t += x; k0 += x && strchr(AL, x); } if (g.chance(1, 80)) { S z = g.fill(g.big(70000), S(AL) + AL + "\n=-"); for (char x : z) k0 += x && strchr(AL, x); t += z; }
    S w = dec(t); size_t dl = g.chance(1, 3) ? g.range(0, t.size() + 2) : g.flip() ? w.size() + g.range(0, 2) : t.size(); TR("decode %s into %zu (decodes to %zu)", pbt::show(t).c_str(), dl, w.size()); Exact src(t), d(dl); int r = base64_decode_buf(d.p, (int)dl, src.c(), (int)t.size());
    if (dl < w.size()) CHECK(r < 0, "decoding %zu bytes into %zu returned %d", w.size(), dl, r); else if (dl >= t.size() + 1) CHECK(r >= 0, "decoding %zu bytes into %zu returned %d", w.size(), dl, r); if (r >= 0) CHECK(r == (int)w.size() && !memcmp(d.p, w.data(), w.size()), "decoded %s (%d), expected %s", pbt::show(S((char*)d.p, std::min<size_t>(dl, r))).c_str(), r, pbt::show(w).c_str());
    { base64_decode_state st; base64_decode_init(&st); S out; size_t at = 0; while (at < t.size()) { size_t m = std::min<size_t>(t.size() - at, t.size() > 500 ? g.range(1, t.size()) : g.range(1, g.flip() ? 3 : 20)); Exact in(t.substr(at, m)), o(m + 2); int k = base64_decode_block(&st, in.c(), (int)m, o.c()); CHECK(k >= 0 && (size_t)k <= m + 1, "block returned %d", k); out.append(o.c(), k); at += m; } CHECK(out == w, "blockwise decoding gave %s, expected %s", pbt::show(out).c_str(), pbt::show(w).c_str()); }
    c.nontrivial(k0 >= 2); c.label(r < 0 ? "no room" : "decoded"); if (k0 < t.size()) c.label("foreign characters");
}
TARGET(hex, 2, "str2hex of generated hex text (either case, odd lengths, at times with a foreign character) and destination sizes around the need vs the spelled bytes (an odd last digit is a high nibble); non-trivial: >=2 digits") {
    S t; size_t n = g.chance(1, 6) ? g.range(0, 200) : g.range(0, 10); for (size_t i = 0; i < n; i++) t += "0123456789abcdefABCDEF"[g.range(0, 21)]; if (g.chance(1, 80)) { n = g.big(70000); t = g.fill(n, "0123456789abcdefABCDEF"); } bool bad = n && g.chance(1, 4); if (bad) { char x = g.flip() ? g.pick<char>({'g', 'G', '/', ':', '@', '`', ' ', 'x', '\x80', '\xff'}) : (char)g.range(1, 255); t[g.range(0, n - 1)] = x; } bad = false; for (char x : t) if (!isxdigit((unsigned char)x)) bad = true; size_t need = (n + 1) / 2, dl = g.flip() ? need : g.range(0, need + 3);
    TR("hex %s into %zu", pbt::show(t).c_str(), dl); S w; for (size_t i = 0; i < n && !bad; i += 2) { S b = t.substr(i, 2); if (b.size() < 2) b += '0'; w += (char)strtoul(b.c_str(), 0, 16); } Exact src(t, true), d(dl); ssize_t r = str2hex(d.p, dl, src.c());
    if (bad || dl < need) { CHECK(r < 0, "str2hex returned %zd for %s", r, bad ? "a foreign character" : "a small destination"); if (!bad) CHECK(r == -ENOMEM, "str2hex returned %zd, not ENOMEM", r); if (dl >= need) CHECK(r == -EINVAL, "str2hex returned %zd, not EINVAL", r); } else CHECK(r == (ssize_t)need && !memcmp(d.p, w.data(), need), "str2hex gave %s (%zd), expected %s", pbt::show(S((char*)d.p, std::min<size_t>(dl, r < 0 ? 0 : r))).c_str(), r, pbt::show(w).c_str());
    c.nontrivial(n >= 2); c.label(bad ? "foreign character" : dl < need ? "no room" : n & 1 ? "odd length" : "even length");
}
struct Out { S s; int calls, failat, err; };
static int outf(void* v, const char* b, size_t n) { Out* o = (Out*)v; if (o->calls++ == o->failat) return o->err; o->s.append(b, n); return 0; }
static ssize_t wrf(void* v, const char* b, size_t n) { Out* o = (Out*)v; if (o->s.size() + n > (size_t)o->failat) { errno = ENOSPC; return 0; } o->s.append(b, n); return (ssize_t)n; }
static void parse(pbt::Ctx& c, const S& t, const S& s, size_t base) {
    size_t at = 0, pos = 0; while (pos < t.size()) { size_t e = t.find('\n', pos); CHECK(e != S::npos, "last line not terminated"); S l = t.substr(pos, e - pos); pos = e + 1; size_t n = std::min<size_t>(16, s.size() - at); CHECK(n, "more lines than data: %s", l.c_str()); char* q; size_t off = strtoull(l.c_str(), &q, 16); CHECK(q == l.c_str() + 2 * sizeof(size_t), "offset field of %s", l.c_str()); CHECK(off == base + at, "line for offset %zu says %zx", at, off);
        size_t bar = l.size() >= n + 2 ? l.size() - n - 2 : 0; CHECK(bar && l[bar] == '|' && l.back() == '|', "text column of %s", l.c_str()); S hexs = l.substr(2 * sizeof(size_t), bar - 2 * sizeof(size_t)); S got; for (size_t i = 0; i < hexs.size();) { if (hexs[i] == ' ') { i++; continue; } CHECK(i + 1 < hexs.size() && isxdigit((unsigned char)hexs[i]) && isxdigit((unsigned char)hexs[i + 1]) && (i + 2 == hexs.size() || hexs[i + 2] == ' '), "hex column of %s", l.c_str()); got += (char)strtoul(hexs.substr(i, 2).c_str(), 0, 16); i += 2; } CHECK(got == s.substr(at, n), "hex column of line %s", l.c_str());
        for (size_t i = 0; i < n; i++) { unsigned char x = s[at + i]; CHECK((unsigned char)l[bar + 1 + i] == (x >= 32 && x < 127 ? x : '.'), "text column of line %s", l.c_str()); } at += n; } CHECK(at == s.size(), "dump shows %zu of %zu bytes", at, s.size());
}
TARGET(dump, 2, "hex_dump_write with both offset styles, several writes and failing writers, and fhexdump to a stream that can fail: the parsed dump shows every byte with offset and printable form, errors are passed on; non-trivial: more than one line") {
    S s = g.chance(1, 80) ? g.fill(g.big(40000)) : g.bytes(g.chance(1, 4) ? g.range(0, 200) : g.range(0, 40)); Exact src(s); TR("dump %s", pbt::show(s, 60).c_str()); int lines = (int)(s.size() + 15) / 16;
    { Out o{"", 0, -1, 0}; bool ptr = g.flip(); hex_dumper d; hex_dump_init(&d, outf, &o, ptr ? HEX_DUMP_PTR : HEX_DUMP_OFFSET); int r = hex_dump_write(&d, src.p, s.size()); CHECK(r == 0, "write returned %d", r); parse(c, o.s, s, ptr ? (size_t)src.p : 0); if (g.flip()) { S f = o.s; o.s.clear(); CHECK(hex_dump_write(&d, src.p, s.size()) == 0, "second write failed"); parse(c, o.s, s, ptr ? (size_t)src.p : o.s.empty() ? 0 : strtoull(o.s.c_str(), 0, 16)); } CHECK(hex_dump_close(&d) == 0, "close failed"); }
    if (lines) { Out o{"", 0, (int)g.range(0, lines - 1), -(int)g.range(1, 130)}; hex_dumper d; hex_dump_init(&d, outf, &o, 0); int r = hex_dump_write(&d, src.p, s.size()); int r2 = hex_dump_close(&d); CHECK(r == o.err || (r == 0 && r2 == o.err), "writer failed with %d, write returned %d and close %d", o.err, r, r2); }
    { bool fail = g.chance(1, 4); Out o{"", 0, fail ? (int)g.range(0, 100) : 1 << 30, 0}; cookie_io_functions_t io{}; io.write = wrf; FILE* fp = fopencookie(&o, "w", io); setvbuf(fp, 0, _IONBF, 0); int r = fhexdump(fp, src.p, s.size()); fclose(fp); if (o.failat >= 88 * lines) { CHECK(r == 0, "fhexdump returned %d", r); parse(c, o.s, s, 0); } else if (lines && o.failat < 40 * lines) CHECK(r < 0, "fhexdump returned %d although the stream failed", r); }
    c.nontrivial(lines > 1); c.label(s.size() % 16 ? "partial last line" : "full lines"); c.leakcheck = true;
}
