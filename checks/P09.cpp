#include "lang.hpp"
#include <set>
using std::string; using std::vector;
static const char *ATOM[] = { "int", "float", "bool", "String", "None", "List", "Map", "any", "Type", "Func", "[]", "{}", "5", "'s'", "NullableType", "NFunc" };
static const char *VAL[] = { "1", "-7", "2.5", "true", "none", "'s'", "''", "[]", "[1]", "[1, 'a']", "['a', 1]", "[1, 2, 3]", "[none]", "{}", "{a: 1}", "{a: 'x'}", "{a: none}", "{a: 1, b: [2]}", "{b: [2.5]}", "{1: 2}", "int", "f", "emit", "?int", "int | float", "any", "[[1]]", "{a: {b: 1}}" };
static const int NA = 16, NV = sizeof VAL / sizeof *VAL;
static vector<string> level1, level2;
int main(int argc, char **argv)
{
    mc::init(argc, argv, "P09"); nj_warm(); bool T = mc::thorough();
    mc::declare_counter("outside_model");
    mc::RULE = "every type expression up to the depth bound against every value, through istypeof and through an annotation";
    for (auto a : ATOM) level1.push_back(a);
    vector<string> l2; for (auto a : ATOM) { l2.push_back(string("?") + a); l2.push_back(string("[") + a + "]"); l2.push_back(string("{a: ") + a + "}"); for (auto b : ATOM) { l2.push_back(string("(") + a + " | " + b + ")"); if (a != b) { l2.push_back(string("[") + a + ", " + b + "]"); l2.push_back(string("{a: ") + a + ", b: " + b + "}"); } } }
    level2 = level1; level2.insert(level2.end(), l2.begin(), l2.end());
    vector<string> l3; for (auto &x : l2) { l3.push_back("?" + x); l3.push_back("[" + x + "]"); l3.push_back("{a: " + x + "}"); for (int k = 0; k < (T ? NA : 4); k++) { l3.push_back("(" + x + " | " + ATOM[k * (T ? 1 : 2)] + ")"); l3.push_back("(" + string(ATOM[k * (T ? 1 : 2)]) + " | " + x + ")"); } if (T) l3.push_back("{b: ?" + x + ", a: any}"); }
    level2.insert(level2.end(), l3.begin(), l3.end());
    const string P = "fun f() { } Func = type(f); NFunc = type(emit); ";
    auto val = [&](const string &src, mc::Ctx &c) { if (c.failed) return; c.note(src); string e = agree(src, c); if (!e.empty()) c.fail(e); };
    mc::run("type tests", (uint64_t)level2.size() * NV, [&](uint64_t i, mc::Ctx &c) { const string &t = level2[i / NV]; string v = VAL[i % NV]; val(P + "emit(istypeof(" + t + ", " + v + ")); emit('after');", c); });
    uint64_t n2 = T ? level2.size() : level1.size() + l2.size();
    mc::run("annotated parameters", n2 * NV, [&](uint64_t i, mc::Ctx &c) { const string &t = level2[i / NV]; string v = VAL[i % NV]; val(P + "T = " + t + "; fun g(a: T) { emit('in', a); return 1; } emit(g(" + v + ")); emit('after');", c); });
    mc::run("annotations written in place", (uint64_t)(level1.size() + l2.size()) * 8, [&](uint64_t i, mc::Ctx &c) { static const int vs[] = { 0, 2, 4, 5, 8, 9, 14, 17 }; const string &t = level2[i / 8]; val(P + "fun g(a: " + t + ", b = 1) { emit('in', a, b); } g(" + VAL[vs[i % 8]] + "); emit('after');", c); });
    mc::run("several annotated parameters", 6 * 6 * 6 * 6 * 4, [&](uint64_t i, mc::Ctx &c) { static const char *t[] = { "int", "?int", "String", "any", "int | String", "None" }, *v[] = { "1", "'s'", "none", "2.5", "[1]", "" }; Dig d(i); string t1 = t[d(6)], t2 = t[d(6)], v1 = v[d(6)], v2 = v[d(6)]; int k = d(4); if (v1.empty()) v2 = "";
        string df1 = k & 1 ? " = emit(7)" : "", df2 = k & 2 ? " = emit('d')" : ""; val("fun g(a: " + t1 + df1 + ", b: " + t2 + df2 + ") { emit('in', a, b); } g(" + v1 + (v2.empty() ? "" : ", " + v2) + "); emit('after');", c); });
    // which of the arguments is wrong is told, by name and by number
    mc::run("the wrong argument is told", 12 * 12 * 4, [&](uint64_t i, mc::Ctx &c) {
        Dig d(i); int n = 1 + d(12), bad = d(12), k = d(4); if (bad >= n) return; string par, args; for (int j = 0; j < n; j++) { string nm = string(2, "abcdefghijkl"[j]); par += (j ? ", " : "") + nm + (j == bad || k & 1 ? ": int" : "") + (j == bad || !(k & 2) ? "" : " = 3"); args += string(j ? ", " : "") + (j == bad ? "'s'" : "1"); }
        string s = "fun g(" + par + ") { emit('in'); } emit('before'); g(" + args + "); emit('after');"; c.note(s); Impl m = impl_run(s); c.trace(); c.transitions(m.steps); c.state(mc::hash(m.msg)); if (m.ok || m.out.find("after") != string::npos || m.out.find("in") != string::npos) { c.fail("the call isn't refused"); return; }
        std::set<string> words; string w; for (char x : m.msg + " ") if (isalnum((unsigned char)x) || x == '_') w += x; else if (!w.empty()) { words.insert(w); w.clear(); } string nm(2, "abcdefghijkl"[bad]);
        if (!words.count(nm) && !words.count(std::to_string(bad + 1))) c.fail("the message tells neither the name nor the number of the argument: " + m.msg);
        for (int j = 0; j < n; j++) if (j != bad && (words.count(string(2, "abcdefghijkl"[j])) || (words.count(std::to_string(j + 1)) && !words.count(std::to_string(bad + 1))))) c.fail("the message tells another argument: " + m.msg); });
    // mistyped arguments whose textual form is around the size of any message buffer
    // patterns and values of every pair of sizes, one of the elements possibly of another type or elsewhere
    mc::run("patterns and values of any size", 14ull * 14 * 15 * 4, [&](uint64_t i, mc::Ctx &c) {
        Dig d(i); int n = d(14), m = d(14), bad = (int)d(15) - 1, k = d(4); if (bad >= m) return; string t, v; bool map = k & 1; for (int j = 0; j < n; j++) t += (j ? ", " : "") + (map ? "k" + std::to_string(j) + ": " : string()) + (k & 2 ? (j % 2 ? "?int" : "int | String") : "int");
        for (int j = 0; j < m; j++) { int q = map ? m - 1 - j : j; v += (j ? ", " : "") + (map ? "k" + std::to_string(q) + ": " : string()) + (q == bad ? (k & 2 ? "none" : "'s'") : std::to_string(q)); }
        t = map ? "{" + t + "}" : "[" + t + "]"; v = map ? "{" + v + "}" : "[" + v + "]"; val("T = " + t + "; v = " + v + "; emit(istypeof(T, v), istypeof(?T, v), istypeof(int | T, v)); fun g(a: T) return count(a); emit(g(v)); emit('after');", c); });
    mc::run("long mistyped arguments", 4 * 80, [&](uint64_t i, mc::Ctx &c) { int n = 440 + (i / 4) * 2; string v; switch (i % 4) { case 0: v = "'" + string(n, 'x') + "'"; break; case 1: { v = "["; int k = 0; while ((int)v.size() < n) { v += (k++ ? ", " : ""); v += "'abcdefg'"; } v += "]"; break; } case 2: v = "{" + string(n / 2, 'k') + ": '" + string(n / 2, 'v') + "'}"; break; case 3: { string t = "int"; while ((int)t.size() < n) t += " | int"; c.note("sum of " + std::to_string(n)); string e = agree("T = " + t + "; fun g(a: T) { emit(1); } g(2); g('s'); emit('after');", c); if (!e.empty()) c.fail(e); return; } }
        val("fun g(a: int) { emit('in'); } emit(1); g(" + v + "); emit('after');", c); });
    mc::sample(P + "emit(istypeof((?int | [String]), ['a']));");
    return mc::finish();
}
