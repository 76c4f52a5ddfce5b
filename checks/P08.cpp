#include "lang.hpp"
using std::string; using std::vector;
static string sub(const char *t, const string &s) { string o; for (; *t; t++) if (*t == '@') o += s; else o += *t; return o; }
int main(int argc, char **argv)
{
    mc::init(argc, argv, "P08"); nj_warm(); bool T = mc::thorough();
    mc::declare_counter("outside_model");
    mc::RULE = "every combination of declared/provided arguments, defaults, returned values and targets; every nesting of logging operands up to the depth bound";
    auto val = [&](const string &src, mc::Ctx &c) { if (c.failed) return; c.note(src); string e = agree(src, c); if (!e.empty()) c.fail(e); };
    // arguments
    int MP = T ? 5 : 4, MA = T ? 6 : 5;
    mc::run("provided and declared arguments", (uint64_t)(MP + 1) * (MA + 1) * (1 << MP) * (1 << MA) * 3, [&](uint64_t i, mc::Ctx &c) {
        Dig d(i); int np = d(MP + 1), na = d(MA + 1), def = d(1 << MP), nn = d(1 << MA), call = d(3);
        if (def >> np || nn >> na) return;
        string s = "fun f("; for (int k = 0; k < np; k++) { if (k) s += ", "; s += char('a' + k); if (def >> k & 1) s += " = emit('default', " + std::to_string(k) + ")"; }
        s += ") { emit('args'"; for (int k = 0; k < np; k++) { s += ", "; s += char('a' + k); } s += "); return 'ret'; } ";
        string a; for (int k = 0; k < na; k++) { if (k) a += ", "; a += nn >> k & 1 ? string("none") : std::to_string(k + 1); }
        if (call == 0) s += "emit(f(" + a + "));"; else if (call == 1) s += "o = {m: f, id: 77}; o->m(" + a + ");"; else s += "f(" + a + "); f(" + a + ");";
        val(s, c); });
    mc::run("many declared and provided arguments", 14ull * 14 * 4, [&](uint64_t i, mc::Ctx &c) {
        Dig d(i); int np = d(14), na = d(14), k = d(4); string P, A, E;
        for (int j = 0; j < np; j++) { string v = "p" + std::to_string(j); if (j) P += ", "; P += v; if (k == 3 && j % 3 == 1) P += " = " + std::to_string(100 + j); E += "emit(" + v + ");"; }
        for (int j = 0; j < na; j++) { if (j) A += ", "; A += std::to_string(j); }
        string s = "fun f(" + P + ") { " + E + " return 'ret'; } "; if (k == 1) s = "o = {id: 77, fun f(" + P + ") { " + E + " return 'ret'; } };";
        if (k == 0 || k == 3) s += "emit(f(" + A + "));"; else if (k == 1) s += "emit(o.f(" + A + "));"; else s += "o = {m: f, id: 77}; emit(o->m(" + A + ")); o->m(" + A + ");";
        val(s, c); });
    mc::run("defaults see the scope of the function", 6 * 6 * 4, [&](uint64_t i, mc::Ctx &c) {
        static const char *D[] = { "x", "[]", "g()", "b", "{k: 1}", "f2(a)" }; Dig d(i); string d1 = D[d(6)], d2 = D[d(6)]; int k = d(4);
        val(string("x = 1; fun g() { x = 9; return 2; } fun f2(q) return q; fun f(a = ") + d1 + ", b = " + d2 + ") { emit(a, b); return a; } x = 3; " + (k == 0 ? "f();" : k == 1 ? "f(5);" : k == 2 ? "f(none, 6);" : "p = f(); q = f(); emit(p, q); p[0] = 1; emit(f());"), c); });
    // several values
    static const char *TG[] = { "a", "l[0]", "m.k", "b", "l[i]", "m['z']", "a", "_" };
    int RN = 8, TN = 8;
    mc::run("returned values and targets", (uint64_t)(RN + 1) * TN * 8 * 3, [&](uint64_t i, mc::Ctx &c) {
        Dig d(i); int r = d(RN + 1), t = 1 + d(TN), rot = d(8), kind = d(3);
        string s = "l = [0]; m = {}; i = 0; fun f() { return "; if (r == 0) s = "l = [0]; m = {}; i = 0; fun f() { emit('x'); } "; else { for (int k = 0; k < r; k++) s += (k ? ", " : "") + std::to_string(100 + k); s += "; } "; }
        string tg; for (int k = 0; k < t; k++) tg += (k ? ", " : "") + string(TG[(k + rot) % 8]);
        string f = kind == 0 ? "f()" : kind == 1 ? "many(" + std::to_string(r) + ")" : "({g: f}).g()";
        s += kind == 2 ? "o = {g: f}; emit((" + tg + " = o->g()));" : tg + " = " + f + ";"; s += " emit(l, m, i);"; s += " emit(a);";
        val(s, c); });
    mc::run("one value where several are returned", 9 * 12, [&](uint64_t i, mc::Ctx &c) { Dig d(i); int r = d(9); static const char *U[] = { "emit(@);", "emit(@, @);", "x = @; emit(x);", "emit([@, @]);", "emit({k: @});", "emit(@ == none);", "fun g() return @; emit(g());", "fun g() { return @, @; } p, q, z = g(); emit(p, q, z);", "@; emit(1);", "x = y = @; emit(x, y);", "emit(type(@));", "l = [@]; l[0] = @; emit(l);" };
        string f = r ? "fun f() { return 1" : "fun f() { emit('e');"; for (int k = 1; k < r; k++) f += ", " + std::to_string(k + 1); f += r ? "; } " : " } "; val(f + sub(U[d(12)], "f()"), c); });
    mc::run("top level return", 4 * 5, [&](uint64_t i, mc::Ctx &c) { Dig d(i); int n = d(4); string v = "1"; for (int k = 0; k < n; k++) v += ", [" + std::to_string(k) + "]"; static const char *W[] = { "return @;", "emit(1); if true: return @; emit(2);", "while true: { return @; }", "do { if ask(): { } return @; } while true;", "{ { return @; } }" }; all_answers(sub(W[d(5)], v), 2, c); });
    // assignment: value, order and aliasing
    static const char *L[] = { "x", "l[0]", "l[1]", "m.a", "m[k]", "l[count(l)]", "m.in.deep", "w(1)[w(2)]" };
    static const char *R[] = { "5", "x", "l", "m", "(y = 6)", "l[0]", "m.a", "w(3)", "many(2)", "(l[0] = 7)" };
    mc::run("assignment forms", 8 * 8 * 10 * 3, [&](uint64_t i, mc::Ctx &c) { Dig d(i); string a = L[d(8)], b = L[d(8)], r = R[d(10)]; int k = d(3);
        string s = "x = 1; l = [10, 20]; m = {a: 1, in: {}}; k = 'kk'; lw = [1,2,3,4]; fun w(n) { emit('w', n); if n == 1: return lw; return n; } ";
        s += k == 0 ? a + " = " + b + " = " + r + ";" : k == 1 ? "emit((" + a + " = " + r + "), (" + b + " = 8));" : a + ", " + b + " = many(2);"; val(s + " emit(x, l, m, lw);", c); });
    // evaluation order: every leaf logs
    struct Gen { static string go(Dig &d, int depth, int &id) {
        if (depth == 0) return "w(" + std::to_string(++id) + ")";
        auto s = [&] { return go(d, depth - 1, id); };
        switch (d(14)) {
        case 0: return "w(" + std::to_string(++id) + ")";
        case 1: { string a = s(), b = s(); return "(" + a + " + " + b + ")"; } case 2: { string a = s(), b = s(); return "(" + a + " == " + b + ")"; }
        case 3: { string a = s(), b = s(); return "n(" + a + ", " + b + ")"; } case 4: { string a = s(), b = s(); return "[" + a + ", " + b + "][0]"; }
        case 5: { string a = s(), b = s(); return "{(" + a + "): " + b + "}.none_"; } case 6: { string a = s(), b = s(); return "L(" + a + ")[" + b + "]"; }
        case 7: { string a = s(); return "F(" + a + ")(" + s() + ")"; } case 8: { string a = s(); return "(v = " + a + ")"; } case 9: { string a = s(), b = s(); return "(L(" + a + ")[0 * " + b + "] = " + s() + ")"; }
        case 10: { string a = s(), b = s(); return "(" + a + " < " + b + ")"; } case 11: { string a = s(); return "(- " + a + ")"; } case 12: { string a = s(), b = s(), e = s(); return "n(" + a + ", " + b + ", " + e + ")"; }
        default: { string a = s(), b = s(); return "O(" + a + ")->meth(" + b + ")"; }
        } } };
    uint64_t n2 = 14ull * 14 * 14 * 14;
    mc::run("evaluation order", T ? n2 * 14 : n2, [&](uint64_t i, mc::Ctx &c) { Dig d(i); int id = 0; string e = Gen::go(d, 2, id); if (!T && d.v) return;
        val("fun w(k) { emit(k); return k; } fun n(a, b) { emit('n', a, b); return a; } fun L(x) { emit('L', x); return [x, x]; } fun F(x) { emit('F'); return n; } fun O(x) { emit('O'); return {meth: n}; } emit('=', " + e + ");", c); });
    mc::run("order in statements", 10 * 14 * 14, [&](uint64_t i, mc::Ctx &c) { Dig d(i); int k = d(10); int id = 0; string a = Gen::go(d, 1, id), b = Gen::go(d, 1, id);
        static const char *S[] = { "return @, #;", "l, r = n(@, #);", "M[@ - @], M.q = n(#, 1);", "M.a = @; M[#] = @;", "fun h(p = @, q = #) return p; emit(h(), h(1), h(none, 2));", "[@, #];", "n({k: @}, [#]);", "x = {a: @, b: #}; emit(x);", "M[@] = #;", "emit(n(@), n(#));" };
        string s; for (const char *p = S[k]; *p; p++) if (*p == '@') s += a; else if (*p == '#') s += b; else s += *p;
        val("M = {}; fun w(k) { emit(k); return k; } fun n(a, b) { emit('n', a, b); return a, b; } fun L(x) { emit('L', x); return [x, x]; } fun F(x) { emit('F'); return n; } fun O(x) { emit('O'); return {meth: n}; } " + s, c); });
    return mc::finish();
}
