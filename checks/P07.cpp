#include "lang.hpp"
#include <functional>
using std::string; using std::vector;
int main(int argc, char **argv)
{
    mc::init(argc, argv, "P07"); nj_warm(); bool T = mc::thorough();
    mc::declare_counter("outside_model");
    mc::RULE = "every program built from the stated statements at each of three nested scopes";
    auto val = [&](const string &src, mc::Ctx &c) { if (c.failed) return; c.note(src); string e = agree(src, c); if (!e.empty()) c.fail(e); };
    static const char *G[] = { "x = 100;", "emit('g', x);", "emit('g', y);", "y = x;", "emit('q', q);" };
    static const char *F1[] = { "x = 10;", "emit('f', x);", "y = 20;", "y = x;", "p = x;" };
    static const char *F2[] = { "x = 11;", "g(3);", "emit('f2', x);", "emit('f2', y);", "g(x);", "g = 5;" };
    static const char *TP[] = { "x = 1;", "y = 2;", "h = f(7);", "h(8);", "emit(x);", "emit(y);", "f(x)(x);" };
    int tl = T ? 4 : 3;
    uint64_t ng = nseq(5, 0, 2), n1 = nseq(5, 0, T ? 2 : 1), n2 = nseq(6, 0, T ? 2 : 1), nt = nseq(7, 1, tl);
    if (T) nt = nseq(7, 1, 3);
    mc::run("three nested scopes", ng * n1 * n2 * nt, [&](uint64_t i, mc::Ctx &c) {
        Dig d(i); string g, f1, f2, tp; for (int k : seq_at(d(ng), 5, 0, 2)) g += G[k], g += ' '; for (int k : seq_at(d(n1), 5, 0, 2)) f1 += F1[k], f1 += ' '; for (int k : seq_at(d(n2), 6, 0, 2)) f2 += F2[k], f2 += ' '; for (int k : seq_at(d(nt), 7, 1, 4)) tp += TP[k], tp += ' ';
        val("fun f(p) { " + f1 + "fun g(q) { " + g + "} " + f2 + "return g; } " + tp + "emit(type(f));", c); });
    // a variable may be born before or after the function that reads it, at any level
    mc::run("births around nested functions", 625ull * 256 * 3, [&](uint64_t i, mc::Ctx &c) {
        Dig d(i); int mode = d(3); static const char *PAR[] = { "", "", "", "x" }; int b[4], a[4]; for (int k = 0; k < 4; k++) { b[k] = d(5); a[k] = d(4); }
        std::function<string(int)> body = [&](int l) -> string {
            string L = std::to_string(l), pre = b[l] == 1 ? "x = 'x" + L + "'; " : b[l] == 2 ? "y = 'y" + L + "'; " : b[l] == 4 ? "x = none; " : b[l] == 3 && l == 0 ? "x = 'p'; " : "", post = a[l] == 1 ? "x = 'X" + L + "'; " : a[l] == 2 ? "y = 'Y" + L + "'; " : a[l] == 3 ? "emit(" + L + ", x); " : "";
            if (l == 3) return pre + "emit(x); " + post + "emit(y); ";
            string f = "f" + L, call = f + "(" + (b[l + 1] == 3 ? "'p" + L + "'" : "") + "); "; return pre + "fun " + f + "(" + (b[l + 1] == 3 ? PAR[3] : "") + ") { " + body(l + 1) + "} " + (mode != 1 ? call : "") + post + (mode != 0 ? call : ""); };
        val(body(0), c); });
    // blocks, branches and loops don't open a scope
    static const char *BL[] = { "{ @ }", "if ask(): { @ }", "if ask(): { } else { @ }", "while ask(): { @ break; }", "do { @ } while false;", "fun k() { @ } k();", "(fun_ = 1); { { @ } }" };
    static const char *ST[] = { "x = 5;", "emit(x);", "x = x + 1;", "fun z() return x;", "emit(z());", "z = emit;" };
    mc::run("blocks share the scope", 7 * 7 * 6 * 6 * 6 * 2, [&](uint64_t i, mc::Ctx &c) {
        Dig d(i); const char *a = BL[d(7)], *b = BL[d(7)]; string s1 = ST[d(6)], s2 = ST[d(6)], s3 = ST[d(6)]; string pre = d(2) ? "x = 1; " : "";
        auto sub = [](const char *t, const string &s) { string o; for (; *t; t++) if (*t == '@') o += s; else o += *t; return o; };
        all_answers(pre + sub(a, s1 + " " + sub(b, s2)) + " " + s3 + " emit('end', x);", 4, c); });
    // names: which binding a reference sees
    static const char *NM[] = { "emit", "print", "count", "int", "x", "f", "type", "_" };
    mc::run("shadowing", 8 * 8 * 4 * 3, [&](uint64_t i, mc::Ctx &c) {
        Dig d(i); string n = NM[d(8)], m = NM[d(8)]; int k = d(4), w = d(3); string use = w == 0 ? "out(" + n + ", " + m + ");" : w == 1 ? "out(" + m + ");" : "out(count([1,2]), type(1));";
        string def = k == 0 ? n + " = 42;" : k == 1 ? "fun " + n + "(a) return a;" : k == 2 ? "fun w(" + n + ") { " + use + " } w(7);" : "fun w() { " + n + " = 9; " + use + " } w();";
        val("out = emit; " + def + " " + use + " " + m + " = 3; " + use, c); });
    // closures: environments are shared by reference and outlive their call
    static const char *CL[] = {
        "fun mk(n) { c = { v: n }; fun inc() { c.v = c.v + 1; return c.v; } fun get() return c.v; return inc, get; } i1, g1 = mk(@); i2, g2 = mk(10); emit(i1(), i1(), g1(), i2(), g2(), g1());",
        "fun outer(a) { fun mid(b) { fun inner(c) { return [a, b, c]; } return inner; } return mid; } m = outer(@); x = m(2); y = m(3); emit(x(4), y(5), outer(9)(8)(7));",
        "fs = []; i = 0; while i < 3: { fun f() return i; fs[i] = f; i = i + 1; } emit(fs[0](), fs[1](), fs[2](), @);",
        "fun fact(n) { if n < 2: return 1; return n * fact(n - 1); } emit(fact(@));",
        "fun even(n) { if n == 0: return true; return odd(n - 1); } fun odd(n) { if n == 0: return false; return even(n - 1); } emit(even(@), odd(@));",
        "fun f() { return later; } later = @; emit(f()); later = 2; emit(f());",
        "fun f() { return g(); } emit('x'); fun g() return @; emit(f()); fun g() return 0 - @; emit(f());",
        "fun a() { x = @; fun b() { return x; } x = x + 1; r = b(); x = x + 1; return r, b(); } p, q = a(); emit(p, q);",
        "m = { n: @, fun get(self) return self.n; fun set(self, v) { self.n = v; return self; } fun add(self, a, b) { self.n = self.n + a - b; return self.n; } }; emit(m->get()); emit(m->set(3) == none or true, m->get()); " ,
        "m = { n: @, fun add(self, a, b) { self.n = self.n + a - b; return self.n; } }; emit(m->add(5, 2), m.n, m.add(m, 1, 1), m->add(1), m.n);",
        "l = [emit]; l[0](@); m = {k: [emit]}; m.k[0](1, 2); (emit)(3); f = emit; f(f(@));",
        "fun f(x) { x = x + 1; return x; } x = @; y = f(x); emit(x, y); fun g(l) { l[0] = 9; l = [7]; return l; } l = [@]; r = g(l); emit(l, r);",
        "x = 1; fun f() { x = @; fun g() { x = x + 1; return x; } a = g(); b = g(); return [a, b, x]; } emit(f(), x);",
        "fun f(self) { return self.v; } o = { v: @, get: f }; emit(o->get()); p = { v: 5, get: o.get }; emit(p->get(), o.get(p));",
        "fun twice(f, x) return f(f(x)); fun inc(n) return n + 1; emit(twice(inc, @)); fun comp(f, g) { fun h(x) return f(g(x)); return h; } emit(comp(inc, comp(inc, inc))(@));",
        "fun f() { emit('called'); } emit(f()); emit(f() == none, [f()], {k: f()});", "emit(undefined_thing);", "fun f() { return z; } z = @; emit(f()); fun g() { z = 1; return f(); } emit(g());",
        "fun f(n) { if n > 0: { f(n - 1); } emit(n, @); } f(3);", "fun f(n) { fun rec(k) { if k == 0: return 0; return k + rec(k - 1); } return rec(n); } emit(f(@));", "x = {}; x.f = emit; x.f(1); x->f(@ + 1); x.g();", "5();", "none(@);", "'s'(@);", "[1](0);", "{k: 1}('k');", "fun f() return 1; f()();", "int(@);", "(1 == 1)(@);" };
    int ncl = sizeof CL / sizeof *CL;
    mc::run("closures, recursion and methods", ncl * 8, [&](uint64_t i, mc::Ctx &c) { string s, v = std::to_string((int)(i / ncl)); for (const char *p = CL[i % ncl]; *p; p++) if (*p == '@') s += v; else s += *p; val(s, c); });
    // function literals in maps and nested declarations in every statement position
    static const char *POS[] = { "if ask(): fun f() return 1; else fun f() return 2; emit(f());", "while ask(): { fun f() return 1; break; } emit(type(1)); emit(f());", "do fun f() return 3; while ask(); emit(f());", "fun f() fun g() return 4; emit(f()); emit(type(f));", "m = { fun a() return 1; fun b() return 2; c: 3, fun d() { return 4; } e: 5 }; emit(m.a(), m.b(), m.c, m.d(), m.e, keysof(m));", "fun f() { if ask(): return 1; emit('no'); } emit(f(), f());", "fun f() { while true: { if ask(): return 1; if ask(): break; } return 2; } emit(f());" };
    mc::run("declarations in every position", 7, [&](uint64_t i, mc::Ctx &c) { all_answers(POS[i], 6, c); });
    return mc::finish();
}
