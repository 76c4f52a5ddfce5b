#include "lang.hpp"
using std::string; using std::vector;
int main(int argc, char **argv)
{
    mc::init(argc, argv, "P14"); nj_warm(); bool T = mc::thorough();
    mc::declare_counter("outside_model");
    mc::RULE = "every operation sequence up to the depth bound on a buffer, its slices and their slices; every slice range at every nesting; every byte value and index of interest";
    std::function<void(const string &, mc::Ctx &)> val = [&](const string &src, mc::Ctx &c) { if (c.failed) return; c.note(show(src)); string e = agree(src, c); if (!e.empty()) c.fail(e); };
    std::function<void(const string &, mc::Ctx &)> valgc = [&](const string &src, mc::Ctx &c) { if (c.failed) return; c.note(show(src)); string e = agree_gc(src, c); if (!e.empty()) c.fail(e); };
    static const char *OPS[] = { "a[0] = #;", "a[4] = #;", "b[0] = #;", "b[1] = #;", "c[0] = #;", "b = buffer.sliceUp(a, 1, 4);", "c = buffer.sliceUp(b, 1, 2);", "b = buffer.sliceUp(b, 0, count(b) - 1);", "a = buffer.new(3);", "a = b;", "c = buffer.fromString('wxyz');", "emit(a, b, c);", "emit(a[0], b[3], c[1], buffer.toString(c));", "c = buffer.sliceUp(b, count(b), 0);", "b = none;" };
    int no = 15, D = T ? 5 : 4;
    mc::run("operation sequences", nseq(no, 1, D), [&](uint64_t i, mc::Ctx &c) {
        string s = "a = buffer.new(5); a[0] = 65; a[1] = 66; a[2] = 67; a[3] = 68; a[4] = 69; b = buffer.sliceUp(a, 1, 3); c = buffer.sliceUp(b, 0, 2);"; int n = 97; auto sq = seq_at(i, no, 1, D);
        for (int k : sq) { s += ' '; for (const char *p = OPS[k]; *p; p++) if (*p == '#') s += std::to_string(n++); else s += *p; }
        s += " emit(a, b, c);"; if ((int)sq.size() < D) valgc(s, c); else val(s, c); });
    static const char *EXT[] = { "-1", "9223372036854775807", "4294967296", "-4294967295", "2147483648", "(-9223372036854775807 - 1)", "none", "1.0", "'1'", "-9223372036854775807", "4611686018427387904" }; const int NE = 11;
    auto arg = [&](int k, int n) { return k <= n + 1 ? std::to_string(k) : string(EXT[k - n - 2]); };
    int LN = T ? 7 : 5;
    mc::run("every slice of every buffer, and of every slice", (uint64_t)(LN + 1) * 20 * 20 * 20 * 20, [&](uint64_t i, mc::Ctx &c) {
        Dig d(i); int n = d(LN + 1), x = d(20), y = d(20), z = d(20), w = d(20); int lim = n + 2 + NE; if (x >= lim || y >= lim || z >= lim || w >= lim) return;
        bool ok1 = x <= n && y <= n - x; if (!ok1 && (z || w)) return;            // the second slice only matters when the first one exists
        string t = string("ABCDEFGHI").substr(0, n);
        val("a = buffer.fromString('" + t + "'); b = buffer.sliceUp(a, " + arg(x, n) + ", " + arg(y, n) + "); emit(b, count(b), keysof(b), buffer.toString(b)); c = buffer.sliceUp(b, " + arg(z, n) + ", " + arg(w, n) + "); emit(c, count(c)); if count(c) > 0: { c[0] = 1; c[count(c) - 1] = 2; } emit(a, b, c); c[count(c)] = 9;", c); });
    static const char *IX[] = { "0", "1", "@", "@ - 1", "@ + 1", "-1", "-@", "4294967296", "4294967296 + @ - 1", "-4294967296", "9223372036854775807", "(-9223372036854775807 - 1)", "2147483648", "none", "1.0", "'0'", "true", "[0]" };
    static const char *VX[] = { "0", "255", "256", "-1", "257", "511", "4294967296", "4294967297", "-256", "9223372036854775807", "none", "1.0", "'a'", "128", "true" };
    mc::run("reads and writes at every index of interest", 9ull * 2 * 18 * 15, [&](uint64_t i, mc::Ctx &c) { Dig d(i); int n = d(9), sl = d(2); string x; for (const char *p = IX[d(18)]; *p; p++) if (*p == '@') x += std::to_string(n); else x += *p; string v = VX[d(15)];
        val("o = buffer.new(" + std::to_string(n + 2 * sl) + "); b = " + (sl ? "buffer.sliceUp(o, 1, " + std::to_string(n) + ")" : "o") + "; emit(b[" + x + "]); b[" + x + "] = " + v + "; emit(b, o, b[" + x + "]);", c); });
    mc::run("every byte value", 256, [&](uint64_t i, mc::Ctx &c) { string v = std::to_string(i); val("b = buffer.new(2); b[1] = " + v + "; emit(b, b[1], b[0]); print(b, [b]); emit(buffer.toString(b)); d = buffer.fromString(string.chr(" + v + ")); emit(d, count(d)); print(d);", c); });
    mc::run("new buffers of every size are zeroed", 300 + 14, [&](uint64_t i, mc::Ctx &c) { static const char *Z[] = { "-1", "-8", "-16", "-9223372036854775807", "(-9223372036854775807 - 1)", "9223372036854775807", "9223372036854775800", "4611686018427387904", "1.0", "none", "'4'", "true", "[4]", "-4294967292" };
        if (i < 300) (i < 40 || i % 16 == 0 ? valgc : val)("b = buffer.new(" + std::to_string(i) + "); emit(count(b), b, b[0], b[" + std::to_string(i) + "]); i = 0; while i < count(b): { b[i] = i % 256; i = i + 1; } emit(b); s = buffer.sliceUp(b, count(b) / 2, count(b) - count(b) / 2); b = none; emit(s);", c); else val(string("b = buffer.new(") + Z[i - 300] + "); emit(count(b));", c); });
    mc::run("buffers of more bytes than fit in 31 bits", 6, [&](uint64_t i, mc::Ctx &c) {
        static const char *Z[] = { "2147483648", "2147483649", "3000000000", "4294967295", "4294967296", "4294967300" }; string s = string("b = buffer.new(") + Z[i] + "); print(count(b)); s = buffer.sliceUp(b, 5, count(b) - 5); print(' ', count(s));"; c.note(s); c.beat(); Impl r = impl_run(s, nullptr, 0, 0, false); c.trace(); c.state(mc::hash(r.out, r.ok)); string n = std::to_string(atoll(Z[i]) - 5);
        if (r.ok ? r.out != Z[i] + (" " + n) : !r.out.empty()) c.fail("the counts are " + r.out); });
    auto valb = [&](const string &src, mc::Ctx &c) { if (c.failed) return; c.note(show(src)); nj_cfg g; memset(&g, 0, sizeof g); g.builtins = NJ_B_NATIVE; g.heap = 40000000; string e = agree(src, c, nullptr, 0, nullptr, &g); if (!e.empty()) c.fail(e); };
    static const long BIG[] = { 0, 1, 127, 128, 255, 256, 257, 1023, 1024, 4095, 4096, 4097, 32767, 32768, 65535, 65536, 65537, 131072, 1000000, 16777217 }; const int NBG = 20;
    mc::run("large buffers and their windows", NBG * NBG * NBG, [&](uint64_t i, mc::Ctx &c) { // a byte set near each border of a window is seen through it, and nothing else is
        Dig d(i); long n = BIG[d(NBG)], o = BIG[d(NBG)], l = BIG[d(NBG)]; if (n < 127 || o > n + 1 || l > n + 1) return; string N = std::to_string(n), O = std::to_string(o), Q = std::to_string(l);
        val("b = buffer.new(" + N + "); emit(count(b), b[" + N + "], b[" + std::to_string(n - 1) + "]); s = buffer.sliceUp(b, " + O + ", " + Q + "); emit(count(s)); if " + Q + " > 0: { s[0] = 200; s[" + Q + " - 1] = 201; s[" + Q + "] = 77; } emit(b[" + O + " - 1], b[" + O + "], b[" + O + " + " + Q + " - 1], b[" + O + " + " + Q + "]);" + " emit('after');", c);
        if (o + l <= n && l > 1) valb("b = buffer.new(" + N + "); s = buffer.sliceUp(b, " + O + ", " + Q + "); s[" + Q + " - 1] = 65; s[0] = 66; emit(b[" + O + " - 1], b[" + O + "], b[" + O + " + " + Q + " - 1], b[" + O + " + " + Q + "]); t = buffer.sliceUp(s, 1, " + Q + " - 1); b = none; s = none; emit(t[" + Q + " - 2], count(t), t[" + Q + " - 1]); r = buffer.toString(t); emit(count(r), r[" + Q + " - 2]); u = buffer.fromString(r); emit(u[" + Q + " - 2], count(u));", c); });
    mc::run("string conversions of every short byte string", nseq(10, 0, T ? 4 : 3), [&](uint64_t i, mc::Ctx &c) { static const int B[] = { 0, 65, 0x80, 0xBF, 0xC3, 0xA9, 0xE2, 0x82, 0xF0, 0xFF }; auto v = seq_at(i, 10, 0, T ? 4 : 3); string p = "o = buffer.new(" + std::to_string(v.size() + 2) + "); o[0] = 195; o[count(o) - 1] = 169; b = buffer.sliceUp(o, 1, " + std::to_string(v.size()) + ");"; for (size_t k = 0; k < v.size(); k++) p += " b[" + std::to_string(k) + "] = " + std::to_string(B[v[k]]) + ";";
        val(p + " s, e = buffer.toString(b); emit(s, type(e)); if s != none: { r = buffer.fromString(s); emit(r, buffer.toString(r) == s); r[0] = 33; emit(s, b); }", c); });
    static const char *VALS[] = { "none", "true", "1", "2.5", "'abc'", "[]", "{}", "buffer.new(2)", "int", "emit" }; int NV = 10;
    static const char *FN[] = { "new", "sliceUp", "toString", "fromString", "nope" };
    mc::run("arguments of every kind", 5ull * (1 + NV + NV * NV + NV * NV * NV), [&](uint64_t i, mc::Ctx &c) { Dig d(i); string f = FN[d(5)], s; for (int k : seq_at(d.v, NV, 0, 3)) { if (!s.empty()) s += ", "; s += VALS[k]; } val("emit(buffer." + f + "(" + s + ")); emit('after');", c); });
    mc::run("buffers in collections, calls and comparisons", 8, [&](uint64_t i, mc::Ctx &c) { static const char *X[] = { "l = [buffer.new(1)]; m = {b: l[0]}; m.b[0] = 7; emit(l, m);", "fun f(b) b[0] = 9; x = buffer.new(2); f(x); emit(x);", "a = buffer.new(1); emit(a == a);", "a = buffer.new(1); emit(a != buffer.new(1));", "a = buffer.new(1); emit(a + a);", "a = buffer.new(1); emit({a: 1});", "a = buffer.new(1); a(1);", "fun f() return buffer.new(2), buffer.new(3); a, b = f(); emit(a, b, istypeof(Buffer, a), typename(b));" }; val(X[i], c); });
    mc::sample("a = buffer.fromString('ABCDE'); b = buffer.sliceUp(a, 1, 3); c = buffer.sliceUp(b, 1, 1); c[0] = 1; emit(a, b, c);");
    return mc::finish();
}
