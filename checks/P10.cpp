#include "lang.hpp"
using std::string; using std::vector;
int main(int argc, char **argv)
{
    mc::init(argc, argv, "P10"); nj_warm(); bool T = mc::thorough();
    mc::declare_counter("outside_model");
    mc::RULE = "every operation sequence up to the depth bound on two aliased lists; every growth history; every index of interest at every length";
    auto val = [&](const string &src, mc::Ctx &c) { if (c.failed) return; c.note(src); string e = agree(src, c); if (!e.empty()) c.fail(e); };
    auto valgc = [&](const string &src, mc::Ctx &c) { if (c.failed) return; c.note(src); string e = agree_gc(src, c); if (!e.empty()) c.fail(e); };
    static const char *OPS[] = { "a[count(a)] = #;", "a[0] = #;", "a[1] = #;", "a[count(a) - 1] = #;", "b[count(b)] = #;", "b = a;", "b[0] = a;", "a[count(a)] = b;", "emit(a, b, count(a), count(b));", "emit(a[0], b[1], a[-1], a[count(a)]);", "a = [#];", "b = [a, a];" };
    int no = 12, D = T ? 5 : 4;
    mc::run("operation sequences", nseq(no, 1, D) * 3, [&](uint64_t i, mc::Ctx &c) { Dig d(i); int init = d(3); static const char *I[] = { "a = []; b = [];", "a = [1, 2]; b = a;", "a = [1]; b = [a];" }; string s = I[init]; int n = 10; auto sq = seq_at(d.v, no, 1, D); for (int k : sq) { s += ' '; for (const char *p = OPS[k]; *p; p++) if (*p == '#') s += std::to_string(n++); else s += *p; } if (sq.size() <= (size_t)(T ? 4 : 3)) valgc(s + " emit(a, b);", c); else val(s + " emit(a, b);", c); });
    static const char *IX[] = { "0", "1", "-1", "@", "@ - 1", "@ + 1", "4294967296", "4294967296 + @ - 1", "-4294967296", "9223372036854775807", "(-9223372036854775807 - 1)", "2147483648", "-2147483648", "none", "1.0", "'0'", "true", "[0]", "{}", "0.0", "type(1)" };
    int ni = sizeof IX / sizeof *IX; int NL = T ? 70 : 35;
    auto lit = [](int n) { string s = "["; for (int k = 0; k < n; k++) s += (k ? ", " : "") + std::to_string(k * 3); return s + "]"; };
    mc::run("reads and writes at every index of interest", (uint64_t)(NL + 1) * ni * 2, [&](uint64_t i, mc::Ctx &c) { Dig d(i); int n = d(NL + 1); const char *t = IX[d(ni)]; int w = d(2); string x; for (const char *p = t; *p; p++) if (*p == '@') x += std::to_string(n); else x += *p;
        val("l = " + lit(n) + "; " + (w ? "l[" + x + "] = 'new'; " : "emit(l[" + x + "]); ") + "emit(count(l), l);", c); });
    mc::run("growth by appending", 4ull * (T ? 200 : 100), [&](uint64_t i, mc::Ctx &c) { Dig d(i); int k = d(4), n = d.v; 
        string s = k == 0 ? "l = [];" : k == 1 ? "l = [7];" : k == 2 ? "l = " + lit(9) + ";" : "m = {l: []}; l = m.l;"; s += " i = 0; while i < " + std::to_string(n) + ": { l[count(l)] = [i]; i = i + 1; }" + (k == 3 ? " emit(m);" : "") + " emit(count(l), l); i = 0; while i < count(l): { l[i] = i * 2; i = i + 1; } emit(l, l[count(l)], l[count(l) - 1]);"; 
        c.note(s); string e = n <= 40 ? agree_gc(s, c) : agree(s, c); if (!e.empty()) c.fail(e); });
    static const int LG[] = { 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 3000, 4095, 4096, 4097, 5000 }; mc::run("large lists", 22 * 4 * 3, [&](uint64_t i, mc::Ctx &c) { // appended to in steps, read back at the borders and whole
        Dig d(i); int n = LG[d(22)], k = d(4), h = d(3); string N = std::to_string(n), s = k == 3 ? "l = " + lit(9) + ";" : "l = [];"; s += " while count(l) < " + N + ": l[count(l)] = " + (k == 0 ? "count(l)" : k == 1 ? "[count(l)]" : k == 2 ? "2.5" : "'x'") + "; emit(count(l), l[0], l[" + N + " - 1], l[" + N + "], l[0 - 1]); l[" + std::to_string(n / 2) + "] = 'mid'; l[" + N + "] = l[0]; l[" + N + " + 2] = 1; "; if (h == 1) s += "print(l);"; 
        c.note(s); nj_cfg g; memset(&g, 0, sizeof g); g.builtins = NJ_B_NATIVE; g.heap = h == 2 ? 6000000 : k == 1 ? 1000000 : 400000; string e = agree(s, c, nullptr, 0, nullptr, &g); if (!e.empty()) c.fail(e); string t = s; size_t p = t.find("; l[" + N + " + 2] = 1"); t.replace(p, 15 + N.size() - 2, "; emit(l)"); e = agree(t, c, nullptr, 0, nullptr, &g); if (!e.empty() && !c.failed) c.fail(t + "\n" + e); });
    mc::run("very large lists", 13 * 3 * 2 * 2, [&](uint64_t i, mc::Ctx &c) {
        Dig d(i); int n = BIG[d(13)], k = d(3); long heap = d(2) ? 64 << 20 : (k == 1 ? 14 << 20 : 8 << 20); bool lit0 = d(2); string X = k == 1 ? "[0]" : "", N = std::to_string(n), K = k == 0 ? "i" : k == 1 ? "[i]" : "i * 0.5";
        selfcheck("fun f(n) { l = " + string(lit0 ? "[0, 0, 0, 0, 0, 0, 0, 0, 0]" : "[]") + "; i = 0; while i < n: { l[i] = " + K + "; i = i + 1; } good = 0; i = 0; while i < n: { if " + (k == 1 ? "l[i][0] == i" : "l[i] == " + K) + ": good = good + 1; i = i + 1; } k = keysof(l); j = 0; while j < n: { if k[j] != j: error('key'); j = j + 997; } print(count(l), ' ', good, ' ', l[n], ' ', count(k), ' ', k[n - 1], '\\n'); l[n - 1] = 'z'; l[0] = l; print(count(l), ' ', l[n - 1], ' ', l[n - 2]" + X + " == l[0][n - 2]" + X + ", ' ', l[0][0][n - 1]); } f(" + N + ");", N + " " + N + " none " + N + " " + std::to_string(n - 1) + "\n" + N + " z true z", heap, c); });
    mc::run("literals of every length", (T ? 300 : 120) * 2, [&](uint64_t i, mc::Ctx &c) { int n = i / 2; valgc(i & 1 ? "emit(" + lit(n) + ", count(" + lit(n) + "));" : "l = " + lit(n) + "; l[count(l)] = l; l[0] = 's'; emit(l); emit(keysof(l));", c); });
    static const char *NEST[] = { "[]", "[#]", "[#, #]", "{a: #}", "{#: #}", "'s'", "1" };
    mc::run("nested literals", 7 * 7 * 7 * 7, [&](uint64_t i, mc::Ctx &c) { Dig d(i); auto mk = [](const char *t, const string &a, const string &b) { string o; bool f = true; for (; *t; t++) if (*t == '#') { o += f ? a : b; f = false; } else o += *t; return o; };
        auto key = [](const string &k) { return k[0] == '[' || k[0] == '{' ? string("2") : k; };
        string z = mk(NEST[d(7)], "3", "4"), y = mk(NEST[d(7)], key(z), z), x = mk(NEST[d(7)], key(y), z), w = mk(NEST[d(7)], key(x), y); (void)w; valgc("x = [" + w + ", " + x + "]; emit(x, x[0], x[1]); y = [x, x]; y[0][0] = 9; emit(y);", c); });
    mc::run("selection with several indices and chains", 6 * 6 * 6, [&](uint64_t i, mc::Ctx &c) { static const char *J[] = { "0", "1", "2", "-1", "none", "'k'" }; Dig d(i); string a = J[d(6)], b = J[d(6)], e = J[d(6)]; val("l = [[1, [2, 3]], {k: [4]}, 'str']; emit(l[" + a + "][" + b + "][" + e + "]); emit((l[" + a + "]), l[" + b + "]); l[" + a + "][" + b + "] = 5; emit(l);", c); });
    mc::run("insertion into things that aren't collections", 12 * 4, [&](uint64_t i, mc::Ctx &c) { static const char *X[] = { "1", "2.5", "none", "true", "'abc'", "int", "emit", "f", "?int", "int | none", "any", "type(1)" }; Dig d(i); string x = X[d(12)]; int k = d.v; val("fun f() { } x = " + x + "; " + (k == 0 ? "x[0] = 1;" : k == 1 ? "x.k = 1;" : k == 2 ? "emit(x[0]);" : "emit(x.k);") + " emit('after');", c); });
    mc::sample("a = [1]; b = [a]; a[count(a)] = b; b[0] = a; emit(a, b);");
    return mc::finish();
}
