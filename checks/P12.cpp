#include "lang.hpp"
using std::string; using std::vector;
// a noja expression denoting the bytes s
static string lit(const string &s)
{
    if (s.find('\0') == string::npos) return "'" + s + "'";
    string o = "string.cat("; size_t i = 0; bool f = true;
    while (i < s.size()) { if (!f) o += ", "; f = false; if (s[i] == 0) { o += "string.chr(0)"; i++; } else { size_t j = s.find('\0', i); if (j == string::npos) j = s.size(); o += "'" + s.substr(i, j - i) + "'"; i = j; } }
    return o + ")";
}
int main(int argc, char **argv)
{
    mc::init(argc, argv, "P12"); nj_warm(); bool T = mc::thorough();
    mc::declare_counter("outside_model");
    mc::RULE = "every string over the character alphabet up to the length bound through every string operation, every pair through comparison, concatenation and map lookup, every slice range, every digit string, every argument kind";
    auto val = [&](const string &src, mc::Ctx &c) { if (c.failed) return; c.note(show(src)); string e = agree(src, c); if (!e.empty()) c.fail(e); };
    auto valgc = [&](const string &src, mc::Ctx &c) { if (c.failed) return; c.note(show(src)); string e = agree_gc(src, c); if (!e.empty()) c.fail(e); };
    static const char *CH[] = { "a", " ", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "", "7", "\xdf\xbf" };
    auto mk = [](const vector<int> &v) { string s; for (int k : v) if (k == 5) s += '\0'; else s += CH[k]; return s; };
    int L = T ? 5 : 4;
    mc::run("every operation on every string", nseq(8, 0, L), [&](uint64_t i, mc::Ctx &c) {
        string s = mk(seq_at(i, 8, 0, L)); int n = 0; for (unsigned char ch : s) n += (ch & 0xC0) != 0x80;
        string p = "s = " + lit(s) + "; emit(s, count(s), keysof(s), string.trim(s), string.toInt(s)); print('[', s, ']', [s]); emit(s[-1]"; for (int k = 0; k <= n && k < 7; k++) p += ", s[" + std::to_string(k) + "]"; p += "); t = string.cat(s, string.trim(s), s); emit(t, count(t), t == s, s == " + lit(s) + ", t[count(t) - 1], t[count(t)]); b = buffer.fromString(s); emit(b, count(b), buffer.toString(b) == s); emit(string.ord(s), string.chr(string.ord(s)) == s[0]);";
        valgc(p, c); });
    int L2 = T ? 3 : 2;
    uint64_t N2 = nseq(8, 0, L2);
    mc::run("comparison, concatenation and map lookup of every pair", N2 * N2, [&](uint64_t i, mc::Ctx &c) {
        string a = lit(mk(seq_at(i % N2, 8, 0, L2))), b = lit(mk(seq_at(i / N2, 8, 0, L2)));
        val("a = " + a + "; b = " + b + "; emit(a == b, a != b, b == a, {a: 1}[b], string.cat(a, b), count(string.cat(a, b)), string.cat(a, b) == string.cat(b, a)); m = {a: 1, b: 2}; emit(m, count(m));", c); });
    static const char *EXT[] = { "-1", "none", "9223372036854775807", "4294967296", "-4294967296", "2147483648", "(-9223372036854775807 - 1)", "1.0", "'1'", "true" };
    int L3 = T ? 4 : 3;
    mc::run("every slice of every string", nseq(5, 0, L3) * 26 * 26, [&](uint64_t i, mc::Ctx &c) {
        Dig d(i); int x = d(26), y = d(26); string s = mk(seq_at(d.v, 5, 0, L3));
        auto a = [&](int k) { return k < 16 ? std::to_string(k) : string(EXT[k - 16]); };
        if ((x < 16 && x > (int)s.size() + 1) || (y < 16 && y > (int)s.size() + 1)) return;
        val("s = " + lit(s) + "; emit(string.slice(s, " + a(x) + ", " + a(y) + "), s);", c); });
    mc::run("every index of every string", nseq(5, 0, 3) * 16, [&](uint64_t i, mc::Ctx &c) {
        static const char *A[] = { "a", "b", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80" }, *IX[] = { "0", "1", "count(s) - 1", "count(s)", "-1", "4294967296", "4294967297", "4294967296 + count(s) - 1", "-4294967296", "2147483648", "9223372036854775807", "(-9223372036854775807 - 1)", "0.0", "'0'", "none", "true" };
        string s; for (int k : seq_at(i / 16, 5, 0, 3)) s += A[k]; val("s = '" + s + "'; emit(s[" + IX[i % 16] + "]); emit(s[0], s[1], s[2]); s[" + IX[i % 16] + "] = 'z'; emit('after');", c); });
    mc::run("characters of longer strings", nseq(4, 4, T ? 8 : 6), [&](uint64_t i, mc::Ctx &c) { static const char *A[] = { "a", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80" }; string s, q; auto v = seq_at(i, 4, 4, T ? 8 : 6); for (size_t k = 0; k < v.size(); k++) { s += A[v[k]]; q += (k ? ", s[" : "s[") + std::to_string(k) + "]"; } val("s = '" + s + "'; emit(" + q + ");", c); });
    mc::run("slices with missing arguments", 3, [&](uint64_t i, mc::Ctx &c) { val("emit(string.slice(" + string(i == 0 ? "" : i == 1 ? "'abc'" : "'abc', 1") + "));", c); });
    mc::run("toInt of short strings", nseq(9, 0, T ? 5 : 4), [&](uint64_t i, mc::Ctx &c) { static const char *A[] = { "0", "1", "9", "-", "+", " ", "a", "\xc3\xa9", "." }; string s; for (int k : seq_at(i, 9, 0, T ? 5 : 4)) s += A[k]; val("n, e = string.toInt(" + lit(s) + "); emit(n, type(n), type(e));", c); });
    mc::run("toInt around its limits", 4000, [&](uint64_t i, mc::Ctx &c) { Dig d(i); unsigned __int128 v; int k = d(4); long long off = (long long)d(1000) - 500; v = k == 0 ? (unsigned __int128)INT64_MAX : k == 1 ? (unsigned __int128)UINT32_MAX : k == 2 ? (unsigned __int128)UINT64_MAX : (unsigned __int128)INT64_MAX * 10; v += off; string s; while (v) { s.insert(s.begin(), '0' + (int)(v % 10)); v /= 10; } val("n, e = string.toInt('" + string(i % 3, '0') + s + "'); emit(n, type(n), type(e));", c); });
    mc::run("concatenations of every length and argument count", 420 + 20, [&](uint64_t i, mc::Ctx &c) {
        if (i < 420) { int n = i; string a(n / 3, 'x'), b(n - n / 3, 'y'); val("s = string.cat('" + a + "', '" + b + "'); emit(s, count(s)); t = string.cat(s, s, s); emit(count(t), t[count(t) - 1], t);", c); }
        else { int n = i - 420; string s; for (int k = 0; k < n; k++) s += (k ? ", '" : "'") + std::to_string(k) + "'"; if (n > 13) return; val("emit(string.cat(" + s + "));", c); } });
    mc::run("trimming", 12 * 12 * 5, [&](uint64_t i, mc::Ctx &c) { Dig d(i); static const char *M[] = { "", "x", "a b", "\xc3\xa9", "x  y z" }; int a = d(12), b = d(12); string s = string(a, ' ') + M[d(5)] + string(b, ' '); val("s = '" + s + "'; t = string.trim(s); emit(t, count(t), string.trim(t) == t, s); print(t, ';'); emit(buffer.fromString(t));", c); });
    static const char *VALS[] = { "none", "true", "1", "2.5", "'abc'", "''", "[]", "{}", "buffer.new(2)", "int", "emit", "any" }; int NV = 12;
    static const char *FN[] = { "ord", "chr", "cat", "trim", "slice", "toInt", "nope" };
    mc::run("arguments of every kind", 7ull * (1 + NV + NV * NV + NV * NV * NV), [&](uint64_t i, mc::Ctx &c) { Dig d(i); string f = FN[d(7)], s; for (int k : seq_at(d.v, NV, 0, 3)) { if (!s.empty()) s += ", "; s += VALS[k]; } val("emit(string." + f + "(" + s + ")); emit('after');", c); });
    mc::run("the string map itself", NV + 8, [&](uint64_t i, mc::Ctx &c) { static const char *K[] = { "'ord'", "'cat'", "'toInt'", "'trimx'", "'tri'", "''", "'Cat'", "'slice'" }; string k = i < (uint64_t)NV ? VALS[i] : K[i - NV]; val("emit(string[" + k + "], type(string), buffer[" + k + "], math[" + k + "]); string[" + k + "] = 1; emit('after');", c); });
    mc::run("strings built in loops", T ? 400 : 150, [&](uint64_t i, mc::Ctx &c) { static const char *U[] = { "'a'", "'\xc3\xa9'", "string.chr(0)" }; int n = i / 3; string p = "s = ''; i = 0; while i < " + std::to_string(n) + ": { s = string.cat(s, " + U[i % 3] + ", 'b'); i = i + 1; } emit(count(s), s[count(s) - 2], s[count(s) - 1], s[count(s)], s);"; valgc(p, c); });
    // lengths around every power of two
    static const int SL[] = { 127, 128, 129, 255, 256, 257, 511, 512, 1023, 1024, 1025, 4095, 4096, 4097, 8192, 16384, 32767, 32768, 32769, 65535, 65536, 65537, 131072, 1048577 }; mc::run("very long strings", 24 * 3 * 2, [&](uint64_t i, mc::Ctx &c) {
        int n = SL[i % 24], k = i / 24 % 3; long heap = i / 72 ? 200 << 20 : 16 * (long)n + 200000; string U = k == 0 ? "a" : k == 1 ? "\xc3\xa9" : "\xf0\x9f\x98\x80", N = std::to_string(n); // n characters of one kind, built by doubling
        string want = N + " "; want += U + " none true false true false true false v none 3 " + std::to_string(n * U.size()) + " true true\n";
        selfcheck("fun mk(n) { r = ''; p = '" + U + "'; while n > 0: { if n % 2 == 1: r = string.cat(r, p); n = n / 2; if n > 0: p = string.cat(p, p); } return r; } n = " + N + "; s = mk(n); t = mk(n); print(count(s), ' ', s[n - 1], ' ', s[n], ' ', s == t, ' ', s == mk(n - 1), ' '); print(string.cat(s, 'x') != t, ' ', string.cat('x', mk(n - 1)) == t, ' ', s == string.cat(mk(n - 1), '" + U + "'), ' ', string.cat(mk(n - 1), 'z') == s, ' '); m = {}; m[s] = 'v'; print(m[t], ' ', m[mk(n - 1)], ' '); b = buffer.fromString(s); b2 = buffer.new(3); L = count(b); print(count(b2), ' ', L, ' '); print(buffer.toString(b) == t, ' ', string.slice(s, L - " + std::to_string(U.size()) + ", " + std::to_string(U.size()) + ") == '" + U + "', '\\n');", want, heap, c); });
    // no string can be longer than the largest count: the sum of the sizes must neither wrap to zero nor to a negative number
    mc::run("concatenations longer than a string can be", 3, [&](uint64_t i, mc::Ctx &c) {
        static const char *P[] = { "r = string.cat(s, s, s, s); emit('after', count(r));", "r = string.cat(s, s, s, s, s, s, s, s); emit('after', count(r));", "r = string.cat(s, s, s, s, 'abc', s, s, s, s); emit('after', count(r));", "r = string.cat(s, s, s, string.slice(s, 1, 536870911)); emit('after', count(r));" }; string src = string("s = 'x'; i = 0; while i < 29: { s = string.cat(s, s); i = i + 1; } emit(count(s)); ") + P[i]; c.note(src); nj_cfg g; memset(&g, 0, sizeof g); g.builtins = NJ_B_FULL; g.heap = i == 3 ? 3l << 30 : 3l << 29;
        Impl r = impl_run(src, nullptr, 0, NJ_B_FULL, false, &g); c.trace(); c.transitions(r.steps); c.state(mc::hash(r.msg)); bool big = i == 3; if (big ? !r.ok : r.ok) c.fail(r.ok ? "succeeds" : "fails: " + r.msg); else if (r.out.find("536870912") == string::npos) c.fail("fails too early: " + r.msg); else if ((r.out.find("after") != string::npos) != big) c.fail("a string longer than the largest one: " + r.out); else if (big && r.out.find("2147483647") == string::npos) c.fail("wrong count: " + r.out); });
    mc::sample("s = 'a\xc3\xa9 '; emit(string.slice(s, 1, 2), string.trim(s), s[1], count(s));");
    return mc::finish();
}
