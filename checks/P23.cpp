#include "lang.hpp"
#include "asm.hpp"
#include "corpus.hpp"
using std::string; using std::vector;
// the lines of a stack trace, innermost first; frames of native functions are left out
static string lines(const string &trace, string *kind = nullptr)
{
    string o; size_t p = 0; bool in = false; while (p < trace.size()) { size_t e = trace.find('\n', p); if (e == string::npos) e = trace.size(); string l = trace.substr(p, e - p); p = e + 1;
        if (!in) { if (l == "Stack trace:") in = true; else if (kind && kind->empty()) *kind = l; continue; }
        size_t h = l.find('#'), sp = h == string::npos ? h : l.find(' ', h); if (sp == string::npos) { o += "[" + l + "]"; continue; } string f = l.substr(sp + 1); if (f == "(no source)") continue; if (f.compare(0, 2, "t:") == 0) f = f.substr(2); o += f + " "; }
    return o;
}
struct Gen { string s; int line = 1; void add(const string &t) { for (char ch : t) if (ch == '\n') line++; s += t; } };
struct Fail { const char *src; const char *pre; int extra; };  // extra: 1 a call on the same line, 2 endless recursion
static const Fail FAILS[] = { { "undefinedname;", "", 0 }, { "y = 1 / 0;", "", 0 }, { "x = 5 % 0;", "", 0 }, { "none();", "", 0 }, { "w = [1]; w[5] = 1;", "", 0 }, { "x = 'a' + 1;", "", 0 }, { "z = not 3;", "", 0 }, { "if 3: x = 1;", "", 0 }, { "while none: x = 1;", "", 0 }, { "assert(1 == 2);", "", 0 }, { "error('boom');", "", 0 }, { "string.chr(0 - 1);", "", 0 }, { "b = (1 < 'a');", "", 0 }, { "x = [] == [];", "", 0 }, { "9223372036854775807 + 1;", "", 0 }, { "-'a';", "", 0 }, { "fun r(x: int) return x; r('s');", "", 1 }, { "fun rec() rec(); rec();", "", 2 }, { "fun r(x) return x.y(1); r({y: 3});", "", 1 }, { "count(1, [2 / 0], 3);", "", 0 }, { "x = {k: 1, l: 1 / 0};", "", 0 }, { "a1, b1 = count(nothing);", "", 0 }, { "do x = 1; while 'q';", "", 0 }, { "fun df(u = 1 / 0) return u; df();", "", 1 } };
static const int NF = sizeof FAILS / sizeof *FAILS;
static const char *BAD[] = { "x = ; y;", "1 +* 2;", "if x y;", "1 = 2;", "@; x;", "x = 99999999999999999999;", "return return;", "f(1, 2; x;", "[1, 2; x;", "x = {a: 1; y;", "else x;", "fun f(1) x;", "a.1; x;", "a->f; x;", "a->(1); x;", "fun (a) return; x;", "x = 1 2;", "while x y;", "do x; y;", "a, b + 1 = f();", "x = (1; y;", "a[1; y;", "f() = 3;", "x: int;", "fun if() x;", "not;" };
static const int NB = sizeof BAD / sizeof *BAD;
static const char *PAD[] = { "", "\n", "# a comment; with { tokens\n\n", "\r\n", "p = 'one\n two\n';\n", "p = [1,\n 2];\n\t", "# a comment \\\n\n", "p = 'it\\\\\n\\'s';\n\r\n" }; static const int NPAD = 8;
static const int NW = 10;
// fills g with the statement inside of the wrappers; returns the expected lines, innermost first
static vector<int> build(Gen &g, const vector<int> &w, size_t k, const char *pad, const string &stmt, int extra)
{
    g.add(pad); string id = std::to_string(k);
    if (k == w.size()) { int l = g.line; g.add(stmt + "\n"); vector<int> r; if (extra == 1) r.push_back(l); r.push_back(l); if (extra == 2) r = { -l, l }; return r; }
    auto nest = [&]() { return build(g, w, k + 1, pad, stmt, extra); }; vector<int> r; auto callat = [&](const string &c) { g.add(pad); r.push_back(g.line); g.add(c); };
    switch (w[k]) {
    case 0: g.add("if true: {\n"); r = nest(); g.add("}\n"); break;
    case 1: g.add("if false: {\n x = 1;\n} else {\n"); r = nest(); g.add("}\n"); break;
    case 2: g.add("while true: {\n"); r = nest(); g.add("break; }\n"); break;
    case 3: g.add("do {\n"); r = nest(); g.add("} while false;\n"); break;
    case 4: g.add("fun f" + id + "() {\n"); r = nest(); g.add("}\n"); callat("f" + id + "();\n"); break;
    case 5: g.add("fun f" + id + "(a, b) {\n"); r = nest(); g.add("return a; }\n"); callat("x" + id + " = [1, f" + id + "(2, 3), {k: 4}];\n"); break;
    case 6: g.add("o" + id + " = {};\nfun m" + id + "(self) {\n"); r = nest(); g.add("}\no" + id + ".m = m" + id + ";\n"); callat("o" + id + "->m();\n"); break;
    case 7: g.add("fun d" + id + "() {\n"); r = nest(); g.add("return 1; }\n"); callat("fun e" + id + "(a = d" + id + "()) {\n return a;\n}\n"); callat("e" + id + "();\n"); break;
    case 8: g.add("fun c" + id + "() {\n fun q() {\n"); r = nest(); g.add("}\n return q;\n}\nh" + id + " = c" + id + "();\n"); callat("if true: { h" + id + "(); }\n"); break;
    case 9: g.add("x = 1; {\n"); r = nest(); g.add("}\nx = 2;\n"); break;
    }
    return r;
}
static int ncalls(const vector<int> &w) { int n = 0; for (int k : w) n += k >= 4 && k <= 8 ? k == 7 ? 2 : 1 : 0; return n; }
static string expected(const vector<int> &r, const vector<int> &w)
{ string o; for (int l : r) if (l < 0) { for (int k = 0; k < 16 - 1 - ncalls(w); k++) o += std::to_string(-l) + " "; } else o += std::to_string(l) + " "; return o; }
static const char *ML[] = { "x = [ 1 , f ( 2 , 1 / 0 ) , 3 ] ;", "if 1 + 2 : x = 3 ; else y ;", "o . k ( 1 ) [ 2 ] ( ) ;", "a , b = g ( undefinedname ) ;", "x = { k : 1 , l : - 'a' , m : 2 } ;", "while not 'x' : { y = 1 ; }", "fun h ( a : int = 's' ) return a ; h ( ) ;" };
static const char *PRE = "o = {k: 1, n: none};\nfun bad(x) return x / 0;\nfun two() return 1, 2;\no.m = bad;\nfun q(f) f(1);\n\n";
static const char *PL[] = { "x = [ 1 , two ( 2 , ^0 1 / 0 ) , 3 ] ;", "if ^0 1 + 2 : x = 3 ; else y ;", "o . k ^0 ( 1 ) [ 2 ] ( ) ;", "a , b = two ( ^0 undefinedname ) ;", "x = { k : 1 , l : ^0 - 'a' , m : 2 } ;", "while ^0 not 'x' : { y = 1 ; }", "fun h ( a : ^0 int = 's' ) return a ; h ^1 ( ) ;", "x = 1 + bad ^1 ( 1 , 2 , 3 ) ;", "y = [ bad ^1 ( [ 1 ] ) , 2 ] ;", "^0 o . k [ 2 ] = 5 + 1 ;", "a , ^0 o . k . z = two ( ) ;", "x = 1 + ^0 2 * 'a' / 3 ;", "o -> m ^1 ( 1 , 2 ) ;", "x = { c : ^0 [ 1 ] < 2 } ;", "y = true ^0 and 3 ;", "assert ^0 ( true , 1 == 2 ) ;", "x = two ( ) ; if x == 1 : q ^2 ( bad ) ;", "fun w ( v = ^0 1 + 's' ) { return v ; } x = w ^1 ( none ) ;", "do { x = 1 ; } while ^0 x + 1 ;", "fun u ( ) { return 1 , none ^0 ( 2 ) ; } a , b = u ^1 ( ) ;", "x = none -> k ^0 ( 1 ) ;", "x = 'a' == 'b' or ^0 3 < 'c' ;" };
int main(int argc, char **argv)
{
    mc::init(argc, argv, "P23"); nj_warm(); bool T = mc::thorough(); int D = T ? 5 : 4;
    mc::RULE = "every failing statement inside every nesting of constructs up to the stated depth with every kind of text before it, and an abortion after every instruction; state = distinct expected stack trace";
    auto rt = [&](const vector<int> &w, int f, int p, mc::Ctx &c) {
        if (c.failed) return; Gen g; vector<int> r = build(g, w, 0, PAD[p], FAILS[f].src, FAILS[f].extra); g.add("x = 9;\n"); string want = expected(r, w); c.note(show(g.s)); Impl m = impl_run(g.s, nullptr, 0, NJ_B_NATIVE, true); c.trace(); c.transitions(m.steps); c.state(mc::hash(want));
        string kind, got = lines(m.trace, &kind); if (m.ok) c.fail("doesn't fail"); else if (!m.occurred || m.msg.empty()) c.fail("fails without an error"); else if (got != want) c.fail("stack trace " + got + "instead of " + want + "(" + m.msg + ")\n" + m.trace); else if (kind.find("Syntax") != string::npos || kind.find("Semantic") != string::npos) c.fail("a runtime error reported as \"" + kind + "\""); };
    mc::run("failing statements in nested constructs", nseq(NW, 0, D - 1) * NF * NPAD, [&](uint64_t i, mc::Ctx &c) { Dig d(i); int f = d(NF), p = d(NPAD); rt(seq_at(d.v, NW, 0, D - 1), f, p, c); });
    mc::run("deeper nesting", ipow(NW, D) * 4, [&](uint64_t i, mc::Ctx &c) { Dig d(i); int f = d(4); static const int S[] = { 1, 10, 16, 17 }; rt(seq_at(d.v, NW, D, D), S[f], 1 + d.v % (NPAD - 1), c); });
    mc::run("syntax errors in nested constructs", nseq(NW, 0, D - 1) * NB * NPAD, [&](uint64_t i, mc::Ctx &c) {
        Dig d(i); int f = d(NB), p = d(NPAD); vector<int> w = seq_at(d.v, NW, 0, D - 1); Gen g; vector<int> r = build(g, w, 0, PAD[p], BAD[f], 0); string want = std::to_string(r[0]) + " "; c.note(show(g.s)); Impl m = impl_run(g.s, nullptr, 0, NJ_B_NATIVE, true); c.trace(); c.transitions(1); c.state(mc::hash(want, f)); string kind, got = lines(m.trace, &kind);
        if (m.ok || m.steps) c.fail("isn't refused"); else if (got != want) c.fail("blamed on line " + got + "instead of " + want + "(" + m.msg + ")"); else if (kind.find("Runtime") != string::npos) c.fail("a compilation error reported as \"" + kind + "\""); });
    // a statement broken over lines: the reported line is one of its lines
    for (unsigned k = 0; k < sizeof ML / sizeof *ML; k++) { vector<string> t; string s = ML[k]; size_t p = 0; while (p < s.size()) { size_t e = s.find(' ', p); if (e == string::npos) e = s.size(); t.push_back(s.substr(p, e - p)); p = e + 1; } int n = t.size() - 1, cap = T ? n : std::min(n, 12);
        mc::run("statement " + std::to_string(k) + " broken over lines", 1ull << cap, [=](uint64_t i, mc::Ctx &c) { string src = "o = {k: 1};\n\nfun f(x) return x;\nfun g(x) return x;\n"; int first = 5, last = 5; for (int j = 0; j <= n; j++) { src += t[j]; if (j < n && i >> (j % cap) & 1) { src += "\n"; last++; } else src += " "; } src += "\nx = 1;\n"; c.note(show(src)); Impl m = impl_run(src, nullptr, 0, NJ_B_NATIVE, true); c.trace(); c.transitions(m.steps); string got = lines(m.trace); c.state(mc::hash(got));
            if (m.ok) { c.fail("doesn't fail"); return; } const char *q = got.c_str(); char *e; int cnt = 0; for (long l; l = strtol(q, &e, 10), e != q; q = e) { cnt++; if (l < first || l > last) c.fail("blamed on line " + got + "but the statement spans " + std::to_string(first) + "-" + std::to_string(last)); } if (!cnt) c.fail("no line reported: " + m.trace); }); }
    // and precisely the line on which the operation that fails, or the call in progress, begins (^k: the k-th line of the trace)
    for (unsigned k = 0; k < sizeof PL / sizeof *PL; k++) { vector<string> t; vector<std::pair<int, int>> mark; string s = PL[k]; size_t p = 0; while (p < s.size()) { size_t e = s.find(' ', p); if (e == string::npos) e = s.size(); string w = s.substr(p, e - p); p = e + 1; if (w[0] == '^') mark.push_back({ atoi(w.c_str() + 1), (int)t.size() }); else t.push_back(w); } int n = t.size() - 1, cap = T ? n : std::min(n, 12);
        mc::run("the line of operation " + std::to_string(k), 1ull << cap, [=](uint64_t i, mc::Ctx &c) { string src = PRE; int l = 1; for (char ch : src) l += ch == '\n'; vector<int> at; for (int j = 0; j <= n; j++) { at.push_back(l); src += t[j]; if (j < n && i >> (j % cap) & 1) { src += "\n"; l++; } else src += " "; } src += "\nx = 1;\n"; c.note(show(src)); Impl m = impl_run(src, nullptr, 0, NJ_B_NATIVE, true); c.trace(); c.transitions(m.steps); string got = lines(m.trace); c.state(mc::hash(got));
            if (m.ok) { c.fail("doesn't fail"); return; } vector<long> g; const char *q = got.c_str(); char *e; for (long v; v = strtol(q, &e, 10), e != q; q = e) g.push_back(v); for (auto &x : mark) if (x.first >= (int)g.size() || g[x.first] != at[x.second]) c.fail("stack trace " + got + ", but what #" + std::to_string(x.first) + " is doing begins at line " + std::to_string(at[x.second]) + " (" + m.msg + ")"); }); }
    // sources of any size
    mc::run("lines of long sources", 24 * 7 * 4, [&](uint64_t i, mc::Ctx &c) { static const long BIG[] = { 100, 250, 256, 1000, 4000, 4090, 4096, 16000, 32700, 32768, 65400, 65500, 65530, 65536, 65600, 70000, 100000, 131000, 131072, 200000, 262144, 500000, 1000000, 1200000 };
        Dig d(i); long n = BIG[d(24)]; int f = d(7), pad = d(4); static const char *F[] = { "1 / 0;", "nothing;", "f();", "x = 'a' + 1;", "x = 3 3;", "x = ^;", "if true: {" }; string src = "fun f() {\nreturn none();\n}\n"; int l = 4; while ((long)src.size() < n) { if (pad == 0) { src += "\n"; l++; } else if (pad == 1) { src += "# some comment of a few words that is not code\n"; l++; } else if (pad == 2) { src += "x = 'sss sss sss sss'; "; if (src.size() % 7 == 0) { src += "\n"; l++; } } else { src += "{ y = 1; }\n\n"; l += 2; } if (pad >= 2 && n > 70000) { src += string(9000, '\n'); l += 9000; } }
        src += F[f]; src += "\n"; string want = (f == 2 ? "2 " : "") + (f == 6 ? "" : std::to_string(l) + " "); c.note("a source of " + std::to_string(src.size()) + " bytes ending in " + F[f]); Impl m = impl_run(src, nullptr, 0, NJ_B_NATIVE, true); c.trace(); c.transitions(m.steps); c.state(i); string got = lines(m.trace); if (m.ok) c.fail("doesn't fail"); else if (f == 6 ? got.empty() : got != want) c.fail("stack trace " + got + "instead of " + want + "(" + m.msg + ")"); });
    // an abortion at each instruction shows the instruction each frame is executing
    mc::run("abortion after every instruction", NCORPUS * 2, [&](uint64_t i, mc::Ctx &c) {
        string src; bool nl = i % 2; for (char ch : string(CORPUS[i / 2])) { src += ch; if (nl && (ch == ';' || ch == '{' || ch == ',')) src += "\n"; } if (src.find("'") != string::npos && nl && !impl_compile(src).ok) return; nj_comp k; nj_compile(src.data(), src.size(), &k); if (!k.ok) { c.fail("rejected: " + string(k.msg)); return; } ref::Code code; code_from_exe(k.exe, code); nj_exe_free(k.exe); Impl full = impl_run(src); long cap = std::min<long>(full.steps, T ? 4000 : 400);
        for (long n = 0; n < cap && !c.failed; n++) { c.note("aborted at step " + std::to_string(n) + ": " + show(src)); c.beat(); ref::VM I; I.stop_at = n; I.code = code; bool skip = false, stopped = false; try { I.frame(0, nullptr, {}); } catch (ref::RunErr &e) { stopped = e.why == "stopped"; } catch (ref::Unsupported &) { skip = true; } if (skip || !stopped) break;
            string want; for (size_t q = I.live.size(); q-- > 0;) { int off = code[I.live[q]].off, l = 1; for (int j = 0; j < off; j++) if (src[j] == '\n') l++; want += std::to_string(l) + " "; }
            nj_cfg g; memset(&g, 0, sizeof g); g.builtins = NJ_B_NATIVE; g.want_trace = 1; g.step = [](void *u, long s) -> int { return s == *(long *)u ? NJ_ABORT : NJ_CONTINUE; }; g.step_ud = &n; Impl m = impl_run(src, nullptr, 0, NJ_B_NATIVE, true, &g); c.trace(); c.transitions(m.steps); c.state(mc::hash(want)); string got = lines(m.trace); if (m.ok) c.fail("not aborted"); else if (got != want) c.fail("stack trace " + got + "instead of " + want); } });
    mc::sample("fun f0() {\\n1 / 0;\\n}\\nf0();  ->  2 4");
    return mc::finish();
}
