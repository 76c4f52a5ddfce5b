#include "lang.hpp"
#include "corpus.hpp"
#include <dirent.h>
#include <unistd.h>
#include <sys/stat.h>
using std::string; using std::vector;
static int fds() { int n = 0; DIR *d = opendir("/proc/self/fd"); while (readdir(d)) n++; closedir(d); return n; }
static const char *TOK[] = { "a", "1", "'s'", "if", "else", "while", "do", "break", "return", "fun", "(", ")", "[", "]", "{", "}", ".", ",", ":", ";", "=", "->", "+", "?", "not" };
static const char *ASM[] = { "FUNC", "PUSHINT", "POP", "1", "'s'", ",", ";", "a:", "b:", "a", "EXIT", "JUMP", "RETURN", "PUSHSTR", "PUSHFLT", "2.5", "PUSHFUN", "ASS", "b" };
static void comp(const string &s, bool as, mc::Ctx &c)
{
    if (c.failed) return; c.note(show(s)); size_t b = nj_allocated(); nj_comp k; if (as) nj_assemble(s.data(), s.size(), &k); else nj_compile(s.data(), s.size(), &k); if (k.ok) nj_exe_free(k.exe);
    c.trace(); c.transitions(s.size()); c.state(mc::hash(string(k.msg), k.ok)); if (nj_allocated() != b) c.fail(std::to_string((long)nj_allocated() - (long)b) + " bytes leaked by " + (k.ok ? "a compilation" : "a failed compilation (" + string(k.msg) + ")"));
}
static int g_gc; static int every(void *, long) { return NJ_COLLECT; }
static Impl run(const string &s, int mode, long heap = 0) { nj_cfg k; memset(&k, 0, sizeof k); k.builtins = NJ_B_NATIVE; k.heap = heap; if (mode) k.step = every; k.want_trace = 1; return impl_run(s, nullptr, 0, NJ_B_NATIVE, true, &k); }
static void whole(const string &s, mc::Ctx &c)
{
    for (int mode = 0; mode < 2 && !c.failed; mode++) { c.note(show(s) + (mode ? "   [collection after every instruction]" : "")); Impl m = run(s, mode); c.trace(); c.transitions(m.steps); c.state(mc::hash(m.msg, mc::hash(m.out, mode))); if (m.leak) c.fail(std::to_string(m.leak) + " bytes leaked by a run which " + (m.ok ? "succeeds" : "fails: " + m.msg)); if (!m.ok && !m.occurred) c.fail("failed without reporting an error"); }
}
// failing expressions, one per way of failing; and every place an expression may stand in
static const char *BAD[] = { "(1 / 0)", "undef", "error('e')", "none.x", "[1][7]", "t('s')", "(1 + [])", "5()", "assert(false)", "(9223372036854775807 + 1)", "deep(20)", "{[]: 1, f: 2}", "many(99)", "(a < 's')", "istypeof(1, 1)", "buffer.new(-1)", "string.cat(1)", "import('/nonexistent')", "(not 1)", "str(f)", "f->x()", "(f.x)", "nest()" };
static const char *PL[] = { "#;", "x = #;", "x = [1, #, [2]];", "x = {k: [1], l: #};", "x = {#: 1};", "emit([1], #, {});", "emit(#, [1], 's');", "x, y = f(#), 2;", "a[#] = [1];", "a[0] = #;", "a[0].k = #;", "if #: emit(1);", "while #: emit(1);", "do emit(1); while #;", "return #, [1];", "return [1], #;", "fun g(p = #) return p; g();", "fun g(p: # = 1) return p; g('s');", "x: # = 1;", "x: int = #;", "f(f(f(#)));", "fun g() { l = [1]; fun h() { k = {}; return #; } return h(); } g();", "m = {o: f}; m->o(1, #);", "x = # == [1];", "x = 1 and #;", "x = ?#;", "x = (int | #);", "fun rec(n) { l = [n]; if n == 0: return #; return rec(n - 1); } rec(5);", "x = -#;", "buffer.fromString(#);", "string.slice('abc', #, 1);", "t(#, 1, 2, 3);", "u(1);  u(1, #);", "print([1], #, 's');", "x = #.k;", "x = #->k();", "x = #[0];", "#[0] = 1;", "#.k = 1;" };
// resources that live outside of the heap
static const char *RES[] = { "f = files.openFile(p, files.READ);", "g = f;", "f = none;", "g = none;", "d = files.openDir(q);", "d = none;", "b = buffer.new(1000);", "c = buffer.sliceUp(b, 1, 5);", "b = none;", "c = none;", "l[count(l)] = files.openFile(p, files.READ);", "l = [];", "error('stop');", "x = files.read(f, buffer.new(10));", "fun k() { f2 = files.openFile(p, files.READ); return f2; } k();", "x = files.openFile('/nonexistent', files.READ);" };
int main(int argc, char **argv)
{
    mc::init(argc, argv, "P17"); nj_warm(); bool T = mc::thorough(); (void)g_gc;
    mc::RULE = "every token sequence up to the length bound compiled (assembled); every failing expression in every (pair of) position(s); every sequence of resource operations; bytes and descriptors counted before and after";
    const int NT = sizeof TOK / sizeof *TOK, NA = sizeof ASM / sizeof *ASM, NB = sizeof BAD / sizeof *BAD, NP = sizeof PL / sizeof *PL, NR = sizeof RES / sizeof *RES; int L = T ? 5 : 4, LA = T ? 5 : 4;
    mc::run("compilations release everything", nseq(NT, 1, L), [&](uint64_t i, mc::Ctx &c) { string s; for (int k : seq_at(i, NT, 1, L)) s += string(TOK[k]) + " "; comp(s, false, c); });
    mc::run("compilations of valid beginnings release everything", nseq(NT, 1, 2) * 9, [&](uint64_t i, mc::Ctx &c) { static const char *B[] = { "fun f(a, b: int = [1, {k: 2}]) { return a, b; } ", "x = {k: [1, 'a' ", "if a: { b; } else while c: { ", "do { fun g() return [1", "f(a, [b], {c: d}, ", "a, b.c, d[e] = ", "fun f(a = {fun g() 1;", "x: int | ?[a] = ", "return a.b->c(1)[2] + -" }; string s = B[i % 9]; for (int k : seq_at(i / 9, NT, 1, 2)) s += string(TOK[k]) + " "; comp(s, false, c); });
    mc::run("assemblies release everything", nseq(NA, 1, LA), [&](uint64_t i, mc::Ctx &c) { string s; for (int k : seq_at(i, NA, 1, LA)) s += string(ASM[k]) + " "; comp(s, true, c); });
    const string pre = "a = [{k: 1}, 2]; fun f(x) return x; fun t(x: int, y = [1], z: ?String = none) return x; fun u(x: int = 1, y: String) return [x]; fun deep(n) { if n == 0: return 1; return deep(n - 1); } fun nest() { l = [1]; fun in() { m = {l: l}; return m.l.x; } return [in()]; } ";
    mc::run("every failure in every place", (uint64_t)NB * NP, [&](uint64_t i, mc::Ctx &c) { string s = pre; for (const char *p = PL[i / NB]; *p; p++) if (*p == '#') s += BAD[i % NB]; else s += *p; whole(s, c); });
    mc::run("every failure in every place inside of every other place", (uint64_t)NB * NP * (NP - 1), [&](uint64_t i, mc::Ctx &c) {
        Dig d(i); string e = BAD[d(NB)]; const char *in = PL[d(NP)], *out = PL[1 + d(NP - 1)]; if (!T && (i / NB) % 3) { (void)in; } string body; for (const char *p = in; *p; p++) if (*p == '#') body += e; else body += *p;
        string s = pre + "fun w() { loc = [1]; " + body + " return 1; } "; for (const char *p = out; *p; p++) if (*p == '#') s += "w()"; else s += *p; whole(s, c); });
    char dir[] = "/tmp/nj17-XXXXXX"; if (!mkdtemp(dir)) return 2; string P = string(dir) + "/file", Q = string(dir) + "/dir"; FILE *fp = fopen(P.c_str(), "w"); fputs("hello\nworld\n", fp); fclose(fp); mkdir(Q.c_str(), 0700);
    int D = T ? 4 : 3;
    mc::run("files, directories and buffers are released", nseq(NR, 1, D) * 2, [&](uint64_t i, mc::Ctx &c) {
        string s = "p = '" + P + "'; q = '" + Q + "'; f = none; g = none; d = none; b = none; c = none; l = [];"; for (int k : seq_at(i / 2, NR, 1, D)) s += string(" ") + RES[k]; c.note(show(s) + (i % 2 ? "   [collection after every instruction]" : "")); int b = fds(); Impl m = run(s, i % 2); c.trace(); c.transitions(m.steps); c.state(mc::hash(s, i % 2)); int a = fds();
        if (m.leak) c.fail(std::to_string(m.leak) + " bytes leaked"); if (a != b) c.fail(std::to_string(a - b) + " descriptors left open"); });
    // unreachable files are closed by collections, not only at the end
    static const char *HOW[] = { "f = files.openFile(p, files.READ);", "f = [files.openFile(p, files.READ)];", "fun k() { z = files.openFile(p, files.READ); return 1; } k();", "f = files.openDir(q);", "f = {a: files.openFile(p, files.READ), b: files.openDir(q)};" };
    static int maxfd; static auto watch = [](void *, long n) -> int { if (n % 8 == 0) { int k = fds(); if (k > maxfd) maxfd = k; } return NJ_CONTINUE; };
    mc::run("open descriptors stay bounded in loops", 5 * 4, [&](uint64_t i, mc::Ctx &c) {
        Dig d(i); string b = HOW[d(5)]; static const long H[] = { 2048, 4096, 8192, 16384 }; long h = H[d(4)]; string s = "p = '" + P + "'; q = '" + Q + "'; i = 0; while i < 300: { " + b + " i = i + 1; }"; c.note(show(s) + "   [heap of " + std::to_string(h) + "]"); int k0 = fds(); maxfd = 0;
        nj_cfg k; memset(&k, 0, sizeof k); k.builtins = NJ_B_NATIVE; k.heap = h; k.step = watch; Impl m = impl_run(s, nullptr, 0, NJ_B_NATIVE, false, &k); c.trace(); c.transitions(m.steps); c.state(mc::hash(s, h));
        if (!m.ok) c.fail("fails: " + m.msg); if (maxfd - k0 > h / 24) c.fail("up to " + std::to_string(maxfd - k0) + " descriptors open at once"); if (fds() != k0) c.fail("descriptors left open"); });
    unlink(P.c_str()); rmdir(Q.c_str()); rmdir(dir);
    mc::sample("fun rec(n) { l = [n]; if n == 0: return (1 / 0); return rec(n - 1); } rec(5);");
    return mc::finish();
}
