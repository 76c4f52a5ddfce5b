#include "lang.hpp"
#include "corpus.hpp"
#include <sys/stat.h>
#include <unistd.h>
#include <dirent.h>
#include <fcntl.h>
#include <netinet/in.h>
using std::string; using std::vector;
extern "C" { extern int nj_quiet, nj_fault_sticky, nj_fault_class, nj_fault_hit; extern long nj_fault_at, nj_fault_n; float __real_Heap_GetUsagePercentage(void *); }
static int g_time = 0; static string g_in; static int g_single = 0;   // every object on its own, no automatic collections
extern "C" float __wrap_Heap_GetUsagePercentage(void *h) { return g_single ? 0 : __real_Heap_GetUsagePercentage(h); }
static int fds() { int n = 0; nj_quiet++; DIR *d = opendir("/proc/self/fd"); while (readdir(d)) n++; closedir(d); nj_quiet--; return n; }
static void arm(int cls, long at, bool sticky) { nj_fault_class = cls; nj_fault_at = at; nj_fault_sticky = sticky; nj_fault_n = nj_fault_hit = 0; }
static void disarm() { nj_fault_class = 0; }
static Impl run(const string &s, int b, long heap, int gc, bool asmb = false) { nj_cfg k; memset(&k, 0, sizeof k); k.builtins = b; k.heap = heap; k.want_trace = 1; k.time = g_time; k.bytecode = asmb; if (!g_in.empty()) { k.in = g_in.data(); k.inlen = g_in.size(); } if (gc) k.step = step_collect; g_single = heap == 8; Impl m = impl_run(s, nullptr, 0, b, true, &k); g_single = 0; return m; }
// sockets are descriptors of the harness; allocations are numbered from the call that makes one to the end of the instruction
static long g_sockA, g_sockB; static vector<int> g_given;
static int give() { int f = open("/dev/null", O_RDWR); g_given.push_back(f); g_sockA = nj_fault_n; g_sockB = -1; return f; }
extern "C" int __wrap_socket(int, int, int) { return give(); }
extern "C" int __wrap_accept(int, sockaddr *a, socklen_t *l) { sockaddr_in *s = (sockaddr_in *)a; memset(s, 0, sizeof *s); s->sin_family = AF_INET; s->sin_port = htons(7); s->sin_addr.s_addr = 1; *l = sizeof *s; return give(); }
extern "C" int __wrap_setsockopt(int, int, int, const void *, socklen_t) { return 0; }
static int step_sock(void *, long) { if (g_sockA >= 0 && g_sockB < 0) g_sockB = nj_fault_n; return NJ_CONTINUE; }
// every single fault, and every point from which everything fails
static void faults(const string &s, mc::Ctx &c, int cls, int b, long heap, int gc, bool asmb = false, bool bad = false)
{
    if (c.failed) return; const string how = string(heap == 8 ? "every object on its own" : gc ? "collection after every instruction" : "ordinary heap");
    c.note(show(s) + "   [" + how + ", no fault]"); arm(cls, -1, false); Impl base = run(s, b, heap, gc, asmb); long n = nj_fault_n; disarm(); if (bad ? base.steps || base.ok || !base.occurred : !base.steps) { c.fail((bad ? "the program is accepted: " : "the program does not start: ") + base.msg); return; } int f0 = fds();
    for (long k = 0; k < n && !c.failed; k++) for (int st = 0; st < 2 && !c.failed; st++) {
        c.note(show(s) + "   [" + how + ", " + (cls == 1 ? "allocation " : "file operation ") + std::to_string(k) + (st ? " and all later ones fail]" : " fails]")); c.beat(); arm(cls, k, st); Impl m = run(s, b, heap, gc, asmb); disarm(); c.trace(); c.transitions(m.steps); c.state(mc::hash(s, mc::hash(how, k * 4 + st * 2 + (cls == 2))));
        if (m.leak) c.fail(std::to_string(m.leak) + " bytes leaked (" + (m.ok ? "success" : m.msg) + ")"); else if (fds() != f0) c.fail("descriptors left open");
        else if (cls == 2 && m.ok && s.find("files.read(") != string::npos && m.out.compare(0, 4, "@ 0 ") == 0) {} // a failed read is a short read: the count tells
        else if (m.ok) { if (m.out != base.out || m.rets != base.rets || !base.ok) c.fail("succeeds with a different outcome: " + m.rets + "\n--- expected\n" + base.out + "--- got\n" + m.out); }
        else { if (m.steps && !m.occurred) c.fail("failed without reporting an error"); else if (m.steps && m.msg.empty()) c.fail("the error has no message"); else if (base.out.compare(0, m.out.size(), m.out)) c.fail("the output before the failure isn't a prefix of the run's (" + m.msg + ")\n" + m.out); }
    }
}
int main(int argc, char **argv)
{
    mc::init(argc, argv, "P20"); nj_warm(); bool T = mc::thorough();
    mc::RULE = "every program of the family with every single allocation (file operation) failing, and with every one failing from each point on, in three heap regimes";
    mc::run("every allocation of every corpus program fails", NCORPUS * 3, [&](uint64_t i, mc::Ctx &c) { int m = i % 3; faults(CORPUS[i / 3], c, 1, NJ_B_NATIVE, m == 1 ? 8 : 0, m == 2); });
    mc::run("every allocation of profiled programs fails", NCORPUS + 12, [&](uint64_t i, mc::Ctx &c) { g_time = 1; string s; if (i < NCORPUS) s = CORPUS[i]; else for (int k = 0; k < (int)(i - NCORPUS) * 3 + 1; k++) s += "fun f" + std::to_string(k) + "(a) return a; emit(f" + std::to_string(k) + "(1)); "; faults(s, c, 1, NJ_B_NATIVE, 0, 0); g_time = 0; });
    // builtins that need memory of their own, with results of the sizes at which they need it
    static const int LN[] = { 0, 1, 126, 127, 128, 254, 255, 256, 257, 509, 510, 511, 1019, 1020, 1021, 2500 }; static const int NL = sizeof LN / sizeof *LN;
    mc::run("every allocation of builtins of every size fails", NL * 9 * 3, [&](uint64_t i, mc::Ctx &c) {
        Dig d(i); int n = LN[d(NL)], k = d(9), m = d.v; string l(n, 'l'), q = "'" + l + "'", s; g_in = "first\n" + l + "\nlast\n";
        switch (k) {
            case 0: s = "emit(input()); emit(input()); emit(input()); emit(input());"; break;
            case 1: s = "emit(string.cat(" + q + ", 'x', '')); emit(string.cat(" + q + ", " + q + "));"; break;
            case 2: s = "emit(string.trim(' " + l + " ')); emit(string.slice(" + q + ", 0, " + std::to_string(n) + ")); emit(string.toInt(" + q + "));"; break;
            case 3: s = "b = buffer.new(" + std::to_string(n) + "); emit(count(b)); emit(buffer.toString(b)); c = buffer.sliceUp(b, 0, " + std::to_string(n) + "); emit(count(c)); emit(buffer.toString(c));"; break;
            case 4: s = "m = {}; m[" + q + "] = " + q + "; emit(keysof(m)); emit(m[" + q + "]); emit(count(" + q + "));"; break;
            case 5: s = "print(" + q + ", [" + q + "], type(" + q + ")); emit(typename(" + q + "), typename(?int), istypeof(?int, 3), istypeof([int], [1, 2]), istypeof({a: int | float}, {a: 1.5}));"; break;
            case 6: s = "emit(math.floor(1.5), math.ceil(0 - 1.5), math.sqrt(4.0), math.pow(2.0, 3.0)); random.seed(3); x = random.generate(1, 1); emit(x); emit(string.chr(8364), string.ord('\xe2\x82\xac', 0));"; break;
            case 7: s = "fun f(x: ?[int] = none, y = " + q + ") { return y, x, count(y); } a, b, e = f(); emit(a); emit(b, e); a, b, e = f([1]); emit(b);"; break;
            default: s = "emit(count(getCurrentWorkingDirectory()) > 0, getCurrentScriptDirectory() == none); x = " + q + "; assert(x == " + q + "); error(x);";
        }
        Impl r = run(s, NJ_B_NATIVE, 0, 0); if (r.ok != (k < 8)) c.fail("without a fault: " + r.msg); faults(s, c, 1, NJ_B_NATIVE, m == 1 ? 8 : 0, m == 2); g_in.clear(); });
    mc::run("every allocation fails while a socket is handed over", 4 * 2, [&](uint64_t i, mc::Ctx &c) {
        Dig d(i); int k = d(4); g_single = 1; static const char *P[] = { "a = net.AF_INET; b = net.SOCK_STREAM; k = net.socket; x = k(a, b, 0);", "a = net.AF_INET; b = net.SOCK_STREAM; k = net.socket; x, y = k(a, b, 0, true);", "k = net.accept; x = k(3);", "k = net.accept; x, y, z, w = k(3);" };
        nj_cfg g; memset(&g, 0, sizeof g); g.builtins = NJ_B_NATIVE; g.heap = 8; g.step = step_sock; auto go = [&](long at, bool st) { g_sockA = g_sockB = -1; g_given.clear(); arm(1, at, st); Impl r = impl_run(P[k], nullptr, 0, NJ_B_NATIVE, false, &g); disarm(); return r; };
        auto left = [&]() { int n = 0; for (int f : g_given) if (fcntl(f, F_GETFD) >= 0) { n++; close(f); } return n; };
        bool st = d(2); c.note(P[k]); Impl r = go(-1, false); if (!r.ok || left() != 1 || g_sockB <= g_sockA) { g_single = 0; c.fail("without a fault: " + r.msg); return; }
        for (long at = g_sockA, e = g_sockB; at < e && !c.failed; at++) { c.note(string(P[k]) + "   [allocation " + std::to_string(at) + " fails]"); Impl m = go(at, st); int n = left(); c.trace(); c.transitions(m.steps); c.state(mc::hash(string(P[k]), at * 2 + st)); if (m.ok) { if (n != 1) c.fail("succeeds, but the socket is closed"); } else if (n) c.fail("fails, but leaves open the socket it could not hand over"); }
        g_single = 0; });
    mc::run("every allocation fails while the default builtins come up", T ? NCORPUS : 4, [&](uint64_t i, mc::Ctx &c) { faults(CORPUS[i], c, 1, NJ_B_FULL, 0, 0); });
    static const char *ST[] = { "a = [1, 2.5];", "m = {k: [1], 'l': a};", "s = string.cat('x', 'y', s);", "u = buffer.new(3);", "v = buffer.sliceUp(buffer.new(9), 1, 2);", "fun f(x, y = [2]) { return [x], y; }", "g, h = f(1);", "t = (?int | String);", "s = s[0];", "l = keysof(m);", "fun mk(n) { fun q() return [n, a]; return q; } q = mk(1); emit(q());", "s = string.slice('abcdef', 1, 3); u = buffer.fromString(s); s = buffer.toString(u);", "x = toFloat == none;", "emit(type(a), typename(m));", "if count(a) > 0: { a[count(a)] = {}; } else { emit('e'); }", "i = 0; while i < 12: { a[count(a)] = i; m[i] = i; i = i + 1; }", "print(a, m, s);", "e = (1 < 2.5) and ('a' == 'b');", "r = (fun_missing == none);" };
    const int NS = sizeof ST / sizeof *ST; int D = T ? 3 : 2;
    mc::run("every allocation of every statement sequence fails", nseq(NS, 1, D) * 2, [&](uint64_t i, mc::Ctx &c) { string s = "a = ['A']; m = {z: a}; s = 's\xc3\xa9'; fun f(x, y = 1) { return x, y; }"; for (int k : seq_at(i / 2, NS, 1, D)) s += string(" ") + ST[k]; faults(s + " emit(a, m, s);", c, 1, NJ_B_NATIVE, i % 2 ? 8 : 0, 0); });
    // errors whose message doesn't fit the space it has in the error itself
    mc::run("every allocation fails while a long message is composed", 6 * 4, [&](uint64_t i, mc::Ctx &c) { static const int LN[] = { 505, 511, 512, 700, 1500, 4000 }; string x(LN[i % 6], 'm'); int k = i / 6; faults(k == 0 ? "emit(1); error('" + x + "');" : k == 1 ? "emit(1); " + x + ";" : k == 2 ? "emit(1); fun " + x + "(a: int) return a; " + x + "('s');" : "fun f(" + x + ": int) return 1; f('s');", c, 1, NJ_B_NATIVE, 0, 0); });
    // compilation alone
    static const char *SRC[] = { "a = [1, 2, {k: 'x', 'l': 2.5, [1]: f}];", "fun f(a: int | ?String, b = [1], c) { fun g() return a; return g, b; } f(1, 2);", "if a: b; else if c: { d; } else while e: break;", "do { x, y.z, w[0] = f(); } while not a and b or c == -d;", "x = a.b[1].c(2)->d(3); return x, 'long string literal with escapes \\n\\t';", "a = ;", "fun f( { }", "x = {k: [1, ", "break;", "'unterminated", "f(a, b) = 1;", "x = 1 +* 2;", "return return;", "@", "" };
    mc::run("every allocation of a compilation or assembly fails", 15 * 2, [&](uint64_t i, mc::Ctx &c) {
        string s = SRC[i % 15]; bool as = i >= 15; static const char *A[] = { "PUSHINT 1; POP 1; EXIT;", "a: PUSHSTR \"x\"; JUMP b; b: PUSHFUN a, 2, \"f\"; POP 1; RETURN 0;", "NOPE;", "JUMP nowhere;", "a: a: EXIT;", "PUSHINT \"x\";", "PUSHFLT 2.5", "PUSHSTR \"x;", ":", ";;", "EXIT; EXIT; EXIT;", "l0: l1: l2: l3: l4: l5: l6: l7: l8: JUMP l3;", "POP", "PUSHINT 99999999999999999999;", "" }; if (as) s = A[i - 15];
        auto go = [&](nj_comp *k) { size_t b = nj_allocated(); if (as) nj_assemble(s.data(), s.size(), k); else nj_compile(s.data(), s.size(), k); string code; if (k->ok) { nj_quiet++; size_t b1 = nj_allocated(); code = code_of(k->exe); b += nj_allocated() - b1; nj_quiet--; nj_exe_free(k->exe); } if (nj_allocated() != b) c.fail(std::to_string((long)(nj_allocated() - b)) + " bytes leaked (" + k->msg + ")"); return code; };
        nj_comp k0, k; c.note(show(s)); arm(1, -1, false); string base = go(&k0); long n = nj_fault_n; disarm();
        for (long q = 0; q < n && !c.failed; q++) for (int st = 0; st < 2 && !c.failed; st++) { c.note(show(s) + "   [allocation " + std::to_string(q) + (st ? " and all later ones fail]" : " fails]")); c.beat(); arm(1, q, st); string r = go(&k); disarm(); c.trace(); c.transitions(1); c.state(mc::hash(s, q * 2 + st)); if (k.ok ? r != base || !k0.ok : !k.err_occurred) c.fail(k.ok ? "compiles to something else" : "rejected without reporting an error"); } });
    // the same through a runtime, in both languages, with programs that are rejected too
    mc::run("every allocation fails while source and bytecode run in a runtime", 7 + 6 + 11, [&](uint64_t i, mc::Ctx &c) {
        static const char *OK[] = { "PUSHINT 1; PUSHSTR \"a\"; PUSHFLT 2.5; POP 2; EXIT;", "PUSHVAR \"emit\"; PUSHLST 2; PUSHINT 0; PUSHSTR \"xy\"; INSERT2; POP 1; EXIT;", "PUSHINT 7; ASS \"a\"; POP 1; JUMP end; f: ASS \"x\"; POP 1; PUSHVAR \"x\"; RETURN 1; end: PUSHINT 5; PUSHFUN f, 1, \"f\"; CALL 1, 1; ASS \"r\"; EXIT;", "PUSHINT 1; PUSHSTR \"s\"; ADD; EXIT;", "PUSHMAP 1; PUSHINT 2; PUSHSTR \"k\"; INSERT; ASS \"m\"; EXIT;", "PUSHSTR \"long\"; ASS \"l\"; PUSHTYP; ASS \"t\"; PUSHNNE; EXIT;", "PUSHVAR \"nope\"; EXIT;" };
        static const char *BA[] = { "NOPEX;", "JUMP nowhere;", "a: a: EXIT;", "PUSHSTR \"x;", "POP", "PUSHINT \"x\";" };
        static const char *BS[] = { "a = ;", "fun f( { }", "x = {k: [1, ", "break;", "'unterminated", "f(a, b) = 1;", "x = 1 +* 2;", "return return;", "@", "fun f(a, a) return a; ]", "if x { }" };
        if (i < 7) { faults(OK[i], c, 1, NJ_B_NATIVE, 0, 0, true); } else if (i < 13) faults(BA[i - 7], c, 1, NJ_B_NATIVE, 0, 0, true, true); else faults(BS[i - 13], c, 1, NJ_B_NATIVE, 0, 0, false, true); });
    // the memory of nodes comes in chunks: fillers of many lengths make a chunk end at every node of every construct
    static const char *CN[] = { "1;", "2.5;", "'s';", "x;", "none;", "true;", "-a;", "not a;", "a + b;", "a = b;", "a.b = c;", "a[b] = c;", "a.b;", "a[b];", "a(b, c);", "a.b(c);", "a->b(c);", "x = [a, b];", "x = {a: b};", "x = {'a': b, [c]: d};", "if a: b;", "if a: b; else c;", "while a: b;", "do a; while b;", "{ a; }", "fun f() a;", "fun f(a) { }", "fun f(a: b, c = d) a;", "fun f() { return []; }", "fun f() return a, b;", "while a: break;", "a, b = c();", "a, b.c = d();", "a | b;", "?a;", "a and b;", "a or b;", "x = {f: f(a, b), g: -a};", "a < b == c;", "a % b;", "a / b * c - d;", "return a, b;", "a >= b;", "a != b;", "x = {};", "[];", "a();", "while a: while b: break;" };
    const int NC = sizeof CN / sizeof *CN; int FM = T ? 5 : 3; // the node sizes are multiples of 8: three kinds of fillers of different sizes
    mc::run("every node of a construct lies where a chunk of memory ends", NC * 100, [&](uint64_t i, mc::Ctx &c) {
        static const char *FL[] = { "x;", "1;", "'abcdefg';", "2.5;", "{}" }; const int k = i / NC; string s; for (int q = 0; q < k % 10; q++) s += FL[1]; for (int q = 0; q < k / 10; q++) s += FL[2]; int reps = FM * 40; string cn = CN[i % NC]; for (int q = 0; q < reps; q++) s += " " + cn;
        auto go = [&](nj_comp *k) { size_t b = nj_allocated(); nj_compile(s.data(), s.size(), k); if (k->ok) nj_exe_free(k->exe); if (nj_allocated() != b) c.fail(std::to_string((long)(nj_allocated() - b)) + " bytes leaked (" + k->msg + ")"); };
        nj_comp k0, kk; string head = std::to_string(reps) + " times " + cn + " after " + std::to_string(k) + " fillers"; c.note(head); arm(1, -1, false); go(&k0); long n = nj_fault_n; disarm(); if (!k0.ok) { c.fail(string("rejected: ") + k0.msg); return; }
        for (long q = 0; q < n && !c.failed; q++) { c.note(head + "   [allocation " + std::to_string(q) + " fails]"); c.beat(); arm(1, q, false); go(&kk); disarm(); c.trace(); c.transitions(1); c.state(mc::hash(cn, k * 1000 + q)); if (!kk.ok && !kk.err_occurred) c.fail("rejected without reporting an error"); } });
    // diagrams of the syntax tree
    mc::run("every allocation of a diagram fails", 15 + NC, [&](uint64_t i, mc::Ctx &c) {
        string s = i < 15 ? SRC[i] : string("a; b; ") + CN[i - 15] + " " + CN[(i - 15) * 7 % NC] + " 'more';"; auto go = [&](nj_comp *k) { size_t b = nj_allocated(); char *r = nj_diagram(s.c_str(), k); static char t[1 << 18]; snprintf(t, sizeof t, "%s", r ? r : ""); free(r); if (nj_allocated() != b) c.fail(std::to_string((long)(nj_allocated() - b)) + " bytes leaked"); return string(t); };
        nj_comp k0, k; c.note(show(s)); arm(1, -1, false); string base = go(&k0); long n = nj_fault_n; disarm();
        for (long q = 0; q < n && !c.failed; q++) for (int st = 0; st < 2 && !c.failed; st++) { c.note(show(s) + "   [diagram, allocation " + std::to_string(q) + (st ? " and all later ones fail]" : " fails]")); c.beat(); arm(1, q, st); string r = go(&k); disarm(); c.trace(); c.transitions(1); c.state(mc::hash(s, 7000 + q * 2 + st)); if (k.ok ? r != base || !k0.ok : !k.err_occurred) c.fail(k.ok ? "draws something else" : "rejected without reporting an error"); } });
    // files
    char dir[] = "/tmp/nj20-XXXXXX"; if (!mkdtemp(dir)) return 2; string D0 = dir; auto wr = [&](const string &n, const string &t) { FILE *f = fopen((D0 + "/" + n).c_str(), "w"); fwrite(t.data(), 1, t.size(), f); fclose(f); }; wr("data", "hello\nworld\n"); wr("mod.noja", "x = [1, 2]; fun f() return x; return {f: f, x: x};"); wr("bad.noja", "x = ;"); wr("dirs.noja", "x = import('mod.noja'); return getCurrentScriptDirectory(), getCurrentScriptLocation(), x;"); wr("mod2.noja", "m = import('" + D0 + "/mod.noja'); return m.f();"); mkdir((D0 + "/sub").c_str(), 0700);
    vector<string> FP = { "m, n, o = import('@/dirs.noja'); emit(count(m) > 3, count(n) > 3, o.f());", "m = import('@/mod.noja'); emit(m.f(), m.x);", "m = import('@/mod2.noja'); emit(m);", "f = files.openFile('@/data', files.READ); b = buffer.new(20); n = files.read(f, b); emit(n, b); f = none; emit(1);", "d = files.openDir('@'); e = files.nextDirItem(d); emit(type(e)); d = none;", "f = files.openFile('@/out', files.WRITE); n = files.write(f, buffer.fromString('abc')); emit(n); f = none;", "m = import('@/bad.noja');", "emit('x'); m = import('@/none.noja');", "a = [import('@/mod.noja'), import('@/mod.noja')]; emit(a[0].x, a[1].f());" };
    mc::run("every file operation and every allocation around files fails", FP.size() * 4, [&](uint64_t i, mc::Ctx &c) { string s2; for (char ch : FP[i / 4]) if (ch == '@') s2 += D0; else s2 += ch; int m = i % 4;
        faults(s2, c, m == 0 ? 2 : 1, NJ_B_NATIVE, m == 2 ? 8 : 0, m == 3); });
    mc::run("every allocation and file operation of the diagram of a file fails", 8 * 2, [&](uint64_t i, mc::Ctx &c) {
        static const char *SF[] = { "x = 1;", "fun f(a, b = 2) { return [a, {k: b}]; } f(1);", "x = ;", "", "s = 'text'; while s: { s = s + 1; break; }", "'unterminated", "a.b[c](d)->e();", "if a: b; else { c; d; }" }; static char big[1 << 16];
        int cls = 1 + i % 2; string p = D0 + "/dg" + std::to_string(getpid()), s = SF[i / 2]; { FILE *f = fopen(p.c_str(), "w"); fwrite(s.data(), 1, s.size(), f); fclose(f); } auto go = [&](nj_comp *k) { size_t b = nj_allocated(); char *r = nj_diagram_file(p.c_str(), k); snprintf(big, sizeof big, "%s", r ? r : ""); free(r); if (nj_allocated() != b) c.fail(std::to_string((long)(nj_allocated() - b)) + " bytes leaked"); return string(big); };
        nj_comp k0, k; c.note(show(s)); arm(cls, -1, false); string base = go(&k0); long n = nj_fault_n; disarm(); int f0 = fds();
        for (long q = 0; q < n && !c.failed; q++) for (int st = 0; st < 2 && !c.failed; st++) { c.note(show(s) + "   [diagram of a file, operation " + std::to_string(q) + (st ? " and all later ones fail]" : " fails]")); c.beat(); arm(cls, q, st); string r = go(&k); disarm(); c.trace(); c.transitions(1); c.state(mc::hash(s, 9000 + q * 4 + st * 2 + cls)); if (fds() != f0) c.fail("descriptors left open"); else if (k.ok ? r != base || !k0.ok : !k.err_occurred) c.fail(k.ok ? "draws something else" : "fails without reporting an error"); }
        unlink(p.c_str()); });
    for (const char *n : { "data", "mod.noja", "bad.noja", "dirs.noja", "mod2.noja", "out" }) unlink((D0 + "/" + n).c_str()); rmdir((D0 + "/sub").c_str()); rmdir(dir);
    mc::sample("m = import('mod.noja'); ... allocation 17 and all later ones fail");
    return mc::finish();
}
