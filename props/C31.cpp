//@ covmain: yes
//@ quick: 10
#include "utils/utils.h"
#include <cstring>
#include "utils/strmatch.h"
#include "pbt.h"
#include <string>
#include <vector>
using pbt::Src; using pbt::Ctx; using std::string; using std::vector;
// texts in which patterns occur often, overlap and nearly occur
static string gword(Src& g, size_t max, const string& al) {
    string s; size_t n = g.size(max);
    switch (g.weighted({4, 3, 2, 2, 1})) {
        case 0: while (s.size() < n) s += al[g.range(0, al.size() - 1)]; break;
        case 1: { string u; size_t k = g.range(1, 5); for (size_t i = 0; i < k; i++) u += al[g.range(0, al.size() - 1)]; while (s.size() < n) s += u; s.resize(n); break; }
        case 2: { string a(1, al[0]), b = a + al[al.size() - 1]; while (b.size() < n + 1) { string t = b + a; a = b; b = t; } s = b.substr(0, n); break; }
        case 3: { string u; size_t k = g.range(1, 9); for (size_t i = 0; i < k; i++) u += al[g.range(0, al.size() - 1)]; while (s.size() < n) { s += u; if (g.chance(1, 4)) s += al[g.range(0, al.size() - 1)]; } s.resize(n); break; }
        default: s.assign(n, al[0]); for (size_t i = 0; i < n; i++) if (g.chance(1, 12)) s[i] = al[al.size() - 1]; }
    return s;
}
static void gcase(Src& g, string& pat, string& text) {
    string al; switch (g.weighted({5, 2, 2, 2})) { case 0: al = "ab"; break; case 1: al = "abcdefgh"; break; case 2: al = string("\x80\xff\x7f\x00\x01", 5); break; default: for (int i = 0; i < 256; i++) al += (char)i; }
    size_t pmax = g.weighted({6, 3, 1}) == 0 ? 12 : g.flip() ? 70 : 400; pat = gword(g, pmax, al); if (g.chance(1, 5)) { static const size_t N[] = {16, 30, 31, 32, 33, 63, 64, 65, 128}; size_t n = N[g.range(0, 8)]; while (pat.size() < n) pat += al[g.range(0, al.size() - 1)]; pat.resize(n); } // word sizes
    if (pat.empty()) pat = al.substr(0, 1);
    int parts = (int)g.range(0, 8);
    for (int i = 0; i < parts && text.size() < 3000; i++) switch (g.weighted({3, 3, 3, 2, 2})) {
        case 0: text += pat; break; // whole
        case 1: text += pat.substr(0, g.range(0, pat.size())); break; case 2: text += pat.substr(g.range(0, pat.size() - 1)); break; // prefixes and suffixes
        case 3: { string q = pat; q[g.range(0, q.size() - 1)] = al[g.range(0, al.size() - 1)]; text += q; break; }
        default: text += gword(g, 60, al); }
    if (g.chance(1, 600)) { if (g.flip()) pat = g.fill(1 + g.big(3000), "ab"); text = g.fill(g.big(70000), g.flip() ? "ab" : "abcdefgh"); for (int i = (int)g.range(0, 4); i >= 0; i--) text.insert(g.range(0, text.size()), pat); return; }
    if (g.chance(1, 8)) text = pat.substr(0, g.range(0, pat.size())); // shorter than, or equal to, the pattern
}
static string at(const vector<int>& v) { string s; for (size_t i = 0; i < v.size() && i < 20; i++) s += (i ? "," : "") + std::to_string(v[i]); return "[" + s + (v.size() > 20 ? ",..." : "") + "]"; }
template<typename T> static void check(Src& g, Ctx& c, const char* tn, int lift) {
    string p, t; gcase(g, p, t); vector<int> want; for (size_t i = 0; i + p.size() <= t.size(); i++) if (!t.compare(i, p.size(), p)) want.push_back((int)i);
    bool overlap = false; for (size_t i = 1; i < want.size(); i++) if ((size_t)(want[i] - want[i - 1]) < p.size()) overlap = true;
    TR("%s: pattern %s, text %s: occurs at %s", tn, pbt::show(p).c_str(), pbt::show(t).c_str(), at(want).c_str()); c.label(want.empty() ? "none" : overlap ? "overlapping" : "found"); c.nontrivial(p.size() >= 2 && want.size() >= 2);
    auto conv = [&](const string& s) { string r; for (unsigned char ch : s) { T v = (T)(lift ? (ch * 257u) ^ lift : ch); r.append((char*)&v, sizeof v); } return r; };
    Exact ep(conv(p)), et(conv(t)); const T* P = (const T*)ep.p; const T* X = (const T*)et.p; int pl = (int)p.size(), tl = (int)t.size();
    kmp_search<T> k(P, pl); boyer_moore_search<T> b(P, pl); rabin_karp_search<T> r(P, pl); CHECK(k.patlen() == pl && b.patlen() == pl && r.patlen() == pl, "patlen"); CHECK(!memcmp(k.pat(), P, pl * sizeof(T)) && !memcmp(b.pat(), P, pl * sizeof(T)) && !memcmp(r.pat(), P, pl * sizeof(T)), "pat");
    int rounds = g.chance(1, 4) ? 2 : 1; for (int i = 0; i < rounds; i++) { // a search leaves nothing behind
        vector<int> v = k.matchall(X, tl); CHECK(v == want, "Knuth-Morris-Pratt finds %s instead of %s", at(v).c_str(), at(want).c_str());
        v = b.matchall(X, tl); CHECK(v == want, "Boyer-Moore finds %s instead of %s", at(v).c_str(), at(want).c_str());
        v = b.turbo_matchall(X, tl); CHECK(v == want, "turbo Boyer-Moore finds %s instead of %s", at(v).c_str(), at(want).c_str());
        v = r.matchall(X, tl); CHECK(v == want, "Rabin-Karp finds %s instead of %s", at(v).c_str(), at(want).c_str()); }
}
TARGET(chars, 5, "a pattern of at least two characters that occurs at least twice") { check<char>(g, c, "char", 0); }
TARGET(uchars, 1, "a pattern of at least two characters that occurs at least twice") { check<unsigned char>(g, c, "unsigned char", 0); }
TARGET(wide, 1, "a pattern of at least two characters that occurs at least twice") { check<char16_t>(g, c, "char16_t", g.flip() ? 0x5a00 : 0); }
TARGET(args, 1, "a negative length") { c.nontrivial(true); bool bad; int n = -(int)g.range(1, 100); TR("negative lengths %d", n); auto thr = [&](auto f) { try { f(); return false; } catch (const std::length_error&) { return true; } };
    bad = thr([&] { kmp_search<char>("abc", 3).matchall("abc", n); }); CHECK(bad || kmp_search<char>("abc", 3).matchall("abc", n).empty(), "a match in a text of negative length"); bad = thr([&] { boyer_moore_search<char>("abc", 3).matchall("abc", n); }); CHECK(bad, "Boyer-Moore accepts a negative length"); bad = thr([&] { boyer_moore_search<char>("abc", 3).turbo_matchall("abc", n); }); CHECK(bad, "turbo Boyer-Moore accepts a negative length"); bad = thr([&] { rabin_karp_search<char>("abc", 3).matchall("abc", n); }); CHECK(bad || rabin_karp_search<char>("abc", 3).matchall("abc", n).empty(), "Rabin-Karp matches in a text of negative length"); }
