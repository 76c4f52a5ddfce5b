#include "lang.hpp"
using std::string; using std::vector;
extern "C" { int utf8_sequence_from_utf32_codepoint(char *, int, uint32_t); int utf8_sequence_to_utf32_codepoint(const char *, int, uint32_t *); int utf8_strlen(const char *, int); int utf8_prev(const char *, int, int, uint32_t *); int utf8_next(const char *, int, int, uint32_t *); int utf8_curr(const char *, int, int, uint32_t *); }
// length and code point of the well-formed sequence at the start of s, or -1 (RFC 3629 table)
static int dec(const unsigned char *s, int n, uint32_t *cp)
{
    if (n < 1) return -1; unsigned c = s[0]; int k; unsigned lo = 0x80, hi = 0xBF; uint32_t v;
    if (c <= 0x7F) { *cp = c; return 1; } if (c >= 0xC2 && c <= 0xDF) { k = 1; v = c & 0x1F; } else if (c >= 0xE0 && c <= 0xEF) { k = 2; v = c & 15; if (c == 0xE0) lo = 0xA0; if (c == 0xED) hi = 0x9F; } else if (c >= 0xF0 && c <= 0xF4) { k = 3; v = c & 7; if (c == 0xF0) lo = 0x90; if (c == 0xF4) hi = 0x8F; } else return -1;
    if (k >= n) return -1; for (int j = 1; j <= k; j++) { unsigned d = s[j]; if (d < lo || d > hi) return -1; lo = 0x80; hi = 0xBF; v = v << 6 | (d & 63); } *cp = v; return k + 1;
}
static int slen(const unsigned char *s, int n) { int i = 0, c = 0; uint32_t u; while (i < n) { int k = dec(s + i, n - i, &u); if (k < 0) return -1; i += k; c++; } return c; }
static string hex(const unsigned char *s, int n) { string o; char t[8]; for (int i = 0; i < n; i++) { snprintf(t, 8, "%02x ", s[i]); o += t; } return o; }
// exact-size copy, so that any read past the end is caught
struct Box { char *p; Box(const unsigned char *s, int n) { p = (char *)malloc(n ? n : 1); memcpy(p, s, n); } ~Box() { free(p); } };
static void one(const unsigned char *s, int n, mc::Ctx &c)
{
    Box b(s, n); uint32_t a = 7, e = 7; int k = n ? utf8_sequence_to_utf32_codepoint(b.p, n, &a) : -1, q = dec(s, n, &e);
    if (k > 0 ? (k != q || a != e) : q > 0) { c.note(hex(s, n)); c.fail("decoding [" + hex(s, n) + "]: " + std::to_string(k) + " bytes, code point " + std::to_string(a) + "; expected " + std::to_string(q) + ", " + std::to_string(e)); return; }
    int l = utf8_strlen(b.p, n), m = slen(s, n);
    if (l < 0 ? m >= 0 : l != m) { c.note(hex(s, n)); c.fail("length of [" + hex(s, n) + "] is " + std::to_string(l) + ", expected " + std::to_string(m)); return; }
    c.transitions(2);
    mc::sh->traces.fetch_add(1, std::memory_order_relaxed);
}
int main(int argc, char **argv)
{
    mc::init(argc, argv, "P13"); nj_warm(); bool T = mc::thorough();
    mc::declare_counter("outside_model");
    mc::RULE = "every code point; every byte string up to length 3 and every longer one over the boundary bytes, through decoding, counting, iteration, string literals, buffers and indexing";
    mc::run("every code point is encoded and decoded", 0x120000 / 256, [&](uint64_t i, mc::Ctx &c) {
        for (uint32_t v = i * 256; v < i * 256 + 256 && !c.failed; v++) {
            bool ok = v <= 0x10FFFF && !(v >= 0xD800 && v <= 0xDFFF); string e = ok ? ref::utf8enc(v) : "";
            for (int room = 0; room <= 5; room++) {
                char *b = (char *)malloc(room ? room : 1); int k = utf8_sequence_from_utf32_codepoint(b, room, v); bool fits = ok && (int)e.size() <= room;
                if (fits ? (k != (int)e.size() || memcmp(b, e.data(), k)) : k != -1) { c.note(std::to_string(v)); c.fail("encoding of code point " + std::to_string(v) + " into " + std::to_string(room) + " bytes returned " + std::to_string(k)); }
                free(b);
            }
            if (ok && !c.failed) { one((const unsigned char *)e.data(), e.size(), c); if (v % 16 == 0) c.state(mc::hash(e)); }
        } });
    mc::run("far code points are rejected", 64, [&](uint64_t i, mc::Ctx &c) { static const uint32_t V[] = { 0x110000, 0x1FFFFF, 0x200000, 0x7FFFFFFF, 0x80000000u, 0xFFFFFFFFu, 0x10000041u, 0x40000041u }; uint32_t v = V[i % 8] + i / 8; char b[8]; int k = utf8_sequence_from_utf32_codepoint(b, 8, v); if (V[i % 8] + (uint64_t)(i / 8) > 0xFFFFFFFFull) return; if (k != -1) { c.note(std::to_string(v)); c.fail("code point " + std::to_string(v) + " was encoded in " + std::to_string(k) + " bytes"); } });
    mc::run("every byte string up to 2 bytes", 1 + 256 + 65536, [&](uint64_t i, mc::Ctx &c) { unsigned char s[2]; int n; if (i == 0) n = 0; else if (i < 257) { n = 1; s[0] = i - 1; } else { n = 2; s[0] = (i - 257) >> 8; s[1] = i - 257; } one(s, n, c); });
    mc::run("every byte string of 3 bytes", 65536, [&](uint64_t i, mc::Ctx &c) { for (int k = 0; k < 256 && !c.failed; k++) { unsigned char s[3] = { (unsigned char)(i >> 8), (unsigned char)i, (unsigned char)k }; one(s, 3, c); } });
    if (T) mc::run("every byte string of 4 bytes starting with a lead byte", 64ull << 16, [&](uint64_t i, mc::Ctx &c) { for (int k = 0; k < 256 && !c.failed; k++) { unsigned char s[4] = { (unsigned char)(0xC0 | i >> 16), (unsigned char)(i >> 8), (unsigned char)i, (unsigned char)k }; one(s, 4, c); } });
    static const unsigned char B[] = { 0x00, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xE1, 0xED, 0xEF, 0xF0, 0xF1, 0xF4, 0xF5, 0xF7, 0xF8, 0xFF, 'a' }; const int NB = sizeof B;
    auto bs = [&](uint64_t i, int n, unsigned char *s) { for (int k = 0; k < n; k++) { s[k] = B[i % NB]; i /= NB; } };
    mc::run("every boundary byte string of 4 bytes", ipow(NB, 4), [&](uint64_t i, mc::Ctx &c) { unsigned char s[4]; bs(i, 4, s); one(s, 4, c); });
    if (T) mc::run("every boundary byte string of 5 bytes", ipow(NB, 5), [&](uint64_t i, mc::Ctx &c) { unsigned char s[5]; bs(i, 5, s); one(s, 5, c); });
    int LI = T ? 4 : 3;
    mc::run("iteration at every index of every boundary string", nseq(NB, 1, LI) , [&](uint64_t i, mc::Ctx &c) {
        auto v = seq_at(i, NB, 1, LI); int n = v.size(); unsigned char s[8]; for (int k = 0; k < n; k++) s[k] = B[v[k]];
        Box b(s, n);
        for (int x = 0; x <= n && !c.failed; x++) {
            c.note(hex(s, n) + "at index " + std::to_string(x));
            uint32_t u, w; int k, e;
            if (x < n) { u = w = 9; k = utf8_curr(b.p, n, x, &u) > 0; e = dec(s + x, n - x, &w) > 0; if (k != e || (e && u != w)) c.fail("current character: " + std::to_string(k) + "/" + std::to_string(u) + " expected " + std::to_string(e) + "/" + std::to_string(w)); }
            if (x < n) { u = w = 9; k = utf8_next(b.p, n, x, &u); int a = dec(s + x, n - x, &w); e = -1; if (a > 0 && dec(s + x + a, n - x - a, &w) > 0) e = x + a; if (k != e || (e >= 0 && u != w)) c.fail("next character: " + std::to_string(k) + "/" + std::to_string(u) + " expected " + std::to_string(e) + "/" + std::to_string(w)); }
            u = w = 9; k = utf8_prev(b.p, n, x, &u); e = 0; bool chk = false;
            if (x > 0) { int h = x - 1; while (h >= 0 && (s[h] & 0xC0) == 0x80) h--; e = h >= 0 && dec(s + h, x - h, &w) == x - h ? h : -1; chk = e >= 0; }
            if (k != e || (chk && u != w)) c.fail("previous character: " + std::to_string(k) + "/" + std::to_string(u) + " expected " + std::to_string(e) + "/" + std::to_string(w));
            c.transitions(3); c.trace(); c.state(mc::hash(hex(s, n), x));
        } });
    auto val = [&](const string &src, mc::Ctx &c) { if (c.failed) return; c.note(show(src)); string e = agree(src, c); if (!e.empty()) c.fail(e); };
    mc::run("chr and ord of every code point", 0x110000 / 512 + 8, [&](uint64_t i, mc::Ctx &c) {
        long lo = i * 512;
        if (i >= 0x110000 / 512) { static const char *X[] = { "1114112", "-1", "55296", "57343", "4294967361", "-4294967231", "9223372036854775807", "2147483648" }; val(string("emit(string.chr(") + X[i - 0x110000 / 512] + "));", c); return; }
        if (lo >= 0xD800 && lo < 0xE000) { for (int k = 0; k < 512; k += 37) val("emit(string.chr(" + std::to_string(lo + k) + "));", c); return; }
        string src = "i = " + std::to_string(lo) + "; s = ''; bad = 0; while i < " + std::to_string(lo + 512) + ": { c = string.chr(i); if string.ord(c) != i or count(c) != 1: bad = bad + 1; s = string.cat(s, c); i = i + 8; } emit(bad, count(s), s, s[5], s[63]);"; val(src, c); });
    int LB = T ? 4 : 3;
    // whatever works on several bytes at once must see a bad sequence wherever it is
    static const int LN[] = { 96, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000 }; mc::run("sequences anywhere in longer strings", (65 + 11) * 4, [&](uint64_t i, mc::Ctx &c) {
        Dig d(i); static const char *F[] = { "a", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80" }; string f = F[d(4)]; int q = d(76), n = q < 65 ? q : LN[q - 65]; int units = n / f.size(); bool small = n <= 64; if (!T && n > 300 && f.size() > 1) return;
        for (int at = 0; at <= units && !c.failed; at++) { c.beat(); for (int b = -1; b < NB && !c.failed; b++) for (int a = -1; a < (small && b >= 0 ? NB : 0); a++) { string s; for (int k = 0; k < at; k++) s += f; if (b >= 0) s += (char)B[b]; if (a >= 0) s += (char)B[a]; for (int k = at; k < units; k++) s += f; Box x((const unsigned char *)s.data(), s.size()); int l = utf8_strlen(x.p, s.size()), m = slen((const unsigned char *)s.data(), s.size()); c.transitions(1); if (l < 0 ? m >= 0 : l != m) { c.note(hex((const unsigned char *)s.data(), s.size())); c.fail("length " + std::to_string(l) + ", expected " + std::to_string(m)); break; } } }
        c.trace(); });
    mc::run("characters of longer strings", 4 * 4 * 40, [&](uint64_t i, mc::Ctx &c) { // built from three kinds of characters, read at every index
        Dig d(i); static const char *F[] = { "a", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80" }; string f = F[d(4)], g = F[d(4)]; int n = d(40), at = n * 7 % 40; string s; for (int k = 0; k < 40; k++) s += k == at ? g : k % 3 == n % 3 ? f : "b"; val("s = '" + s + "'; i = 0 - 2; while i < 42: { emit(s[i]); i = i + 1; } t = string.cat(s, s); i = 0; while i < 82: { print(t[i]); i = i + 1; } emit(count(t));", c); });
    mc::run("buffers and literals of every boundary string", nseq(NB, 0, LB), [&](uint64_t i, mc::Ctx &c) {
        auto v = seq_at(i, NB, 0, LB); string p = "b = buffer.new(" + std::to_string(v.size()) + ");", q;
        for (size_t k = 0; k < v.size(); k++) p += " b[" + std::to_string(k) + "] = " + std::to_string((int)B[v[k]]) + ";", q += (char)B[v[k]];
        val(p + " s = buffer.toString(b); emit(s, type(s)); if s != none: emit(count(s), s[0], s[1], s[2], s[3]);", c);
        if (q.find('\0') == string::npos) val("emit('before'); s = '" + q + "'; emit(s, count(s), s[0], s[count(s) - 1]);", c); });
    mc::sample("decode e2 82 ac 41"); mc::sample("emit('\xe2\x82\xac');");
    return mc::finish();
}
