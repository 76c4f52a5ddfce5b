#include "lang.hpp"
#include <sys/stat.h>
#include <unistd.h>
#include "embed.h"
using std::string; using std::vector;
struct R { bool ok; string out, rets, msg; bool operator==(const R &o) const { return ok == o.ok && out == o.out && rets == o.rets && msg == o.msg; } };
static string str(const R &r) { return r.ok ? "prints \"" + r.out + "\", returns \"" + r.rets + "\"" : "prints \"" + r.out + "\", fails: " + r.msg; }
static R got(em_res &r) { return R{ !!r.ok, r.out, r.ok ? r.rets : "", r.ok ? "" : r.msg }; }
// programs of a session; g: what a runtime with the table gives; h: the same after plugging PLUG
static const char *PLUG = "shared = 41; fun bump(n) return n + shared;";
struct P { const char *src; bool ok; const char *out, *rets; };
static const P PR[] = {
    { "return 1, 'two', [3];", true, "", "1;'two';[3];" },
    { "a = 1; b = none;", true, "", "{a: 1, b: none};" },
    { "v('hi'); v(1, 'x');", true, "v('hi')v(1 'x')", "{};" },
    { "i = 0; l = []; while i < 40: { l[0] = [i, 'abc', l]; l = [l[0]]; i = i + 1; if i == 2: i = 30; if i == 34: l = []; } return i;", false, "", "" },
    { "i = 0; while i < 60: { l = [i, 'abcdef', [i]]; i = i + 1; } return l;", true, "", "[59, abcdef, [59]];" },
    { "fun f(n) { if n == 0: return 0; return n + f(n - 1); } return f(5);", true, "", "15;" },
    { "yes = 3; half = 4; sub = yes + half; return sub, yes;", true, "", "7;3;" },
    { "return yes, big, half, text, nothing;", true, "", "true;-9223372036854775807;0.50;'hello';none;" },
    { "v(0); fail(1); v(2);", false, "v(0)", "" },
    { "fun f() { v('in'); x = [1]; return x + 1; } f(); v('never');", false, "v('in')", "" },
    { "a = ;", false, "", "" },
    { "v(eval('return 5, 6;'), 7); x, y = eval('q = 3; return q, eval(\"return 8;\");'); return x, y;", true, "v(5 7)", "3;8;" },
    { "eval('v(1); fail();'); v(2);", false, "v(1)", "" },
    { "r = other('v(9); return 4;'); return r;", true, "", "" },     // see below
    { "return bump(1), shared;", false, "", "" },
    { "shared = 2; fun bump(n) return n * shared; return bump(4), eval('return shared;');", false, "", "" },
};
static const int NP = sizeof PR / sizeof *PR;
static R expect(int p, bool plugged, bool other)
{
    if (p == 3) return plugged || !plugged ? R{ true, "", "40;", "" } : R{};
    if (p == 13) return other ? R{ true, "<4;|v(9)>", "true;", "" } : R{ false, "", "", "" };
    if (p == 14) return plugged ? R{ true, "", "42;41;", "" } : R{ false, "", "", "" };
    if (p == 15) return plugged ? R{ true, "", "8;41;", "" } : R{ false, "", "", "" };
    return R{ PR[p].ok, PR[p].out, PR[p].rets, "" };
}
struct M { bool live = false, plugged = false, failed = false, interrupted = false; };
static em_res *rr = new em_res;
static void fresh(int k, long heap, int full, M &m) { if (em_live(k)) em_free(k); em_new(k, heap, full); em_plug_table(k); m = M{}; m.live = true; }
int main(int argc, char **argv)
{
    mc::init(argc, argv, "P36"); nj_warm(); bool T = mc::thorough();
    mc::RULE = "every sequence of the stated session actions on one or two runtimes; every kind of slot and native function with every number of arguments; state = distinct outcome history";
    auto run = [&](int k, const string &s, int mode = 0) { em_run(k, mode, s.c_str(), rr); return got(*rr); };
    auto same = [&](const R &a, const R &w, mc::Ctx &c, const string &what) { if (a.ok != w.ok || a.out != w.out || (a.ok && a.rets != w.rets)) c.fail(what + " " + str(a) + ", expected: " + str(w)); else if (!a.ok && !rr->occurred) c.fail(what + " fails without reporting an error"); else if (a.ok && rr->occurred) c.fail(what + " succeeds but leaves an error: " + rr->msg); };
    auto finish = [&](long before, mc::Ctx &c) { for (int k = 0; k < 2; k++) if (em_live(k)) em_free(k); long l = em_bytes; if (l != before && !c.failed) c.fail(std::to_string(l - before) + " bytes are still allocated after freeing the runtimes"); };
    // actions: 0..NP-1 run, NP collect, NP+1 free and start again, NP+2 plug, NP+3 interrupt
    const int NA = NP + 4; static const char *AN[] = { "collect", "restart", "plug", "interrupt" };
    auto session = [&](const vector<int> &acts, int two, long heap, int full, mc::Ctx &c, int mode = 0) {
        if (c.failed) return; long before = em_bytes; M m[2]; string n; fresh(0, heap, full, m[0]); if (two) fresh(1, heap, full, m[1]); uint64_t st = 7;
        for (int a : acts) {
            int k = a / NA, x = a % NA; if (k >= 1 + two) k = 0; string name = std::to_string(k) + ": " + (x < NP ? PR[x].src : AN[x - NP]); n += name + " // "; c.note(n + " heap " + std::to_string(heap));
            if (x == NP + 1) { fresh(k, heap, full, m[k]); continue; }
            if (m[k].failed) continue;
            if (x == NP) { if (!em_collect(k)) c.fail(name + " fails"); }
            else if (x == NP + 2) { bool ok = em_plug(k, PLUG); if (ok == m[k].interrupted) c.fail(name + (ok ? " succeeds" : " fails")); if (!ok) m[k].failed = true; m[k].plugged = ok; }
            else if (x == NP + 3) { em_interrupt(k); m[k].interrupted = true; }
            else {
                R w = expect(x, m[k].plugged, two && m[!k].live && !m[!k].failed); bool nested = x == 13 && two;
                if (nested && m[!k].failed) continue;
                if (nested && m[!k].interrupted && !m[k].interrupted) { w = R{ true, "<failed|>", "false;", "" }; m[!k].failed = true; }
                if (m[k].interrupted) { w = R{ false, "", "", "" }; }
                R r = run(k, PR[x].src, mode); if (mode >= 3 && w.ok) w.rets = ""; same(r, w, c, name); if (!r.ok) m[k].failed = true; c.trace(); st = mc::hash(r.out + r.rets, st * 31 + r.ok);
            }
            if (c.failed) break;
            c.transitions(1);
        }
        c.state(st); finish(before, c);
    };
    mc::run("each program alone, through every entry point", NP * 5 * 2 * 2, [&](uint64_t i, mc::Ctx &c) { Dig d(i); int p = d(NP), mode = d(5), full = d(2); session(d.v ? vector<int>{ NP + 2, p } : vector<int>{ p }, 0, 1 << 20, full, c, mode); });
    mc::run("sessions of one runtime", ipow(NA, T ? 5 : 4), [&](uint64_t i, mc::Ctx &c) { Dig d(i); vector<int> a; for (int k = 0; k < (T ? 5 : 4); k++) a.push_back(d(NA)); session(a, 0, i % 3 == 0 ? 4096 : 1 << 20, 0, c); });
    mc::run("sessions of two runtimes", ipow(2 * NA, T ? 4 : 3) * 2, [&](uint64_t i, mc::Ctx &c) { Dig d(i); vector<int> a; for (int k = 0; k < (T ? 4 : 3); k++) a.push_back(d(2 * NA)); a.push_back(i % NA); session(a, 1, d.v ? 4096 : 1 << 20, 0, c); });
    // long sessions of programs that succeed, in a heap much smaller than what they allocate together
    static const int OKS[] = { 0, 1, 2, 4, 5, 6, 7, 11, NP, NP + 2, 14, 13 }; const int NO = 12;
    mc::run("long sessions in a small heap", (uint64_t)NO * NO * NO * 2, [&](uint64_t i, mc::Ctx &c) { Dig d(i); int x = OKS[d(NO)], y = OKS[d(NO)], z = OKS[d(NO)]; vector<int> a; bool two = d(2); a.push_back(NP + 2); if (two) a.push_back(NA + NP + 2); for (int k = 0; k < 8; k++) { a.push_back(x == 13 && !two ? 0 : x); a.push_back((y == 13 && !two ? 1 : y) + (two ? NA : 0)); a.push_back(z == 13 && !two ? 2 : z); } int plugs = (x == NP + 2) + (y == NP + 2) + (z == NP + 2); if (plugs > 1) return; session(a, two, 16384, 0, c); });
    // functions that outlive the run that made them, called by the host
    mc::run("calling returned functions", 6 * 7 * 7 * 2, [&](uint64_t i, mc::Ctx &c) {
        Dig d(i); int p = d(6); int n1 = d(7), n2 = d(7); long heap = d(2) ? 2048 : 1 << 20; long before = em_bytes; M m; fresh(0, heap, 0, m);
        static const char *S[] = { "fun add(a, b) return a, b; return add;", "l = [0]; fun next(d) { if d == none: d = 0; l[0] = l[0] + d; return next, l[0]; } return next;", "return n2;", "return id;", "fun o(a) { fun i(b) return a, b; return i; } return o(7);", "fun k() { i = 0; while i < 30: { x = [i, 'abcdef']; i = i + 1; } return k, i; } return k;" };
        c.note(string(S[p]) + " called with " + std::to_string(n1) + ", then " + std::to_string(n2) + " arguments, heap " + std::to_string(heap)); R r = run(0, S[p]); if (!r.ok) c.fail("fails: " + r.msg); c.trace();
        long total = 0; for (int t = 0; t < 2 && !c.failed; t++) {
            int n = t ? n2 : n1; long a[7]; string s, rev; for (int k = 0; k < n; k++) { a[k] = (k + 1) * (t ? 10 : 1); s += std::to_string(a[k]) + ";"; rev = std::to_string(a[k]) + ";" + rev; } auto arg = [&](int k) { return k < n ? std::to_string(a[k]) : string("none"); };
            em_call(0, 0, n, a, rr); R r = got(*rr), w{ true, "", "", "" }; total += n ? a[0] : 0; c.transitions(1); c.trace();
            switch (p) { case 0: w.rets = arg(0) + ";" + arg(1) + ";"; break; case 1: w.rets = "<function is unprintable>;" + std::to_string(total) + ";"; break; case 2: w.out = "n2(" + arg(0) + " " + arg(1) + ")"; break; case 3: w.rets = rev; break; case 4: w.rets = "7;" + arg(0) + ";"; break; case 5: w.rets = "<function is unprintable>;30;"; break; }
            if (p == 1 || p == 5) { size_t q = r.rets.find("unprintable>;"); if (r.ok && q != string::npos) w.rets = r.rets.substr(0, q + 13) + w.rets.substr(w.rets.find(';') + 1); }
            same(r, w, c, "call " + std::to_string(t)); c.state(mc::hash(r.rets + r.out)); if (p != 1 && p != 5) break;
        }
        finish(before, c);
    });
    // native functions: padding and dropping of arguments, directly and through another native function
    static const char *FN[] = { "v", "n0", "n1", "n2", "n5", "id", "fail" }; static const int AR[] = { -1, 0, 1, 2, 5, -1, -1 };
    static const char *VV[] = { "1", "'a'", "none", "[1, 2]", "true", "2.5" };
    auto native = [&](const string &src, int f, const vector<string> &a, const string &pre, long heap, mc::Ctx &c) {
        if (c.failed) return; c.note(src); long before = em_bytes; M m; fresh(0, heap, 0, m); R r = run(0, src), w{ true, "", "", "" }; c.trace(); c.transitions(1);
        auto sh = [&](const string &x) { return x; }; string s; int n = AR[f] < 0 ? a.size() : AR[f]; for (int k = 0; k < n; k++) s += (k ? " " : "") + (k < (int)a.size() ? sh(a[k]) : string("none"));
        if (f == 6) w = R{ false, "", "", "" };
        else if (f == 5) { int k = a.size() < 8 ? a.size() : 8; for (int j = 0; j < k; j++) w.out += (j ? " " : "") + a[a.size() - 1 - j]; w.out = "v(" + w.out + ")"; }
        else w.out = string(FN[f]) + "(" + s + ")";
        w.out = pre + w.out; if (!w.ok) w.out = pre; w.rets = "0;"; same(r, w, c, src); if (!r.ok && r.msg != "failed on purpose" && !c.failed) c.fail("wrong message " + r.msg); c.state(mc::hash(r.out)); finish(before, c); };
    static const char *SV[] = { "1", "'a'", "none", "[1, 2]", "true", "2.50" };
    mc::run("native functions with every number of arguments", 7 * 13 * 2 * 2, [&](uint64_t i, mc::Ctx &c) { Dig d(i); int f = d(7), n = d(13), via = d(2); long heap = d(2) ? 4096 : 1 << 20; vector<string> a; string s; for (int k = 0; k < n; k++) { s += (k || via ? ", " : "") + string(VV[(k * 5 + n) % 6]); a.push_back(SV[(k * 5 + n) % 6]); }
        string call = via ? string("apply(") + FN[f] + s + ")" : string(FN[f]) + "(" + s + ")", src; if (f == 5) { if (n == 0) return; int k = n < 8 ? n : 8; string names; for (int j = 0; j < k; j++) names += (j ? ", r" : "r") + std::to_string(j); src = names + " = " + call + "; v(" + names + "); return 0;"; } else src = call + "; return 0;"; native(src, f, a, "", heap, c); });
    mc::run("arguments of every kind", 7 * 6 * 6 * 6, [&](uint64_t i, mc::Ctx &c) { Dig d(i); int f = d(7); vector<string> a; string s; for (int k = 0; k < 3; k++) { int v = d(6); a.push_back(SV[v]); s += (k ? ", " : "") + string(VV[v]); } string call = string(FN[f]) + "(" + s + ")", src = f == 5 ? "x, y, z = " + call + "; v(x, y, z); return 0;" : "v('b'); " + call + "; return 0;"; native(src, f, a, f == 5 ? "" : "v('b')", 1 << 20, c); });
    // slots
    struct Sl { const char *e, *r; }; static const Sl SL[] = { { "yes", "true;" }, { "no", "false;" }, { "big", "-9223372036854775807;" }, { "half", "0.50;" }, { "nothing", "none;" }, { "text", "'hello';" }, { "part", "'hel';" }, { "empty", "'';" }, { "kind", "Type;" }, { "sub.deep", "77;" }, { "sub['deep']", "77;" }, { "sub.other", "none;" }, { "sub['dee']", "none;" }, { "sub['deepe']", "none;" }, { "sub['']", "none;" }, { "sub[nul5]", "none;" }, { "sub[nul]", "none;" }, { "sub[nul1]", "none;" }, { "sub['Deep']", "none;" }, { "sub.yes", "none;" }, { "sub[0]", "none;" }, { "sub[none]", "none;" }, { "sub[text]", "none;" }, { "sub['de' + 'ep']", nullptr }, { "part == 'hel'", "true;" }, { "type(yes) == bool", "true;" }, { "type(big) == int", "true;" }, { "type(half) == float", "true;" }, { "type(text) == String", "true;" }, { "big - 1", "-9223372036854775808;" }, { "half + half", "1.00;" }, { "not no", "true;" }, { "type(v) == type(n0)", "true;" }, { "kind == type(kind)", "true;" }, { "sub.deep = 1", nullptr }, { "sub.zz = 1", nullptr }, { "text[0]", "'h';" }, { "{k: sub}.k.deep", "77;" }, { "[sub][0].deep", "77;" }, { "{text: 1}.hello", "none;" }, { "{text: 1}.text", "1;" }, { "nul == 'deep'", "false;" }, { "nul == nul", "true;" }, { "nul5 == nul", "false;" }, { "{deep: 1}[nul]", "none;" }, { "tex", nullptr }, { "texts", nullptr }, { "Yes", nullptr }, { "deep", nullptr }, { "other.x", "none;" }, { "yes.x", nullptr } };
    const int NS = sizeof SL / sizeof *SL;
    mc::run("slots of every kind", NS * 4 * 2, [&](uint64_t i, mc::Ctx &c) { Dig d(i); int k = d(NS), w = d(4), gc = d(2); string e = SL[k].e, src = w == 0 ? "return " + e + ";" : w == 1 ? "fun f() return " + e + "; return f();" : w == 2 ? "x = " + e + "; i = 0; while i < 90: { g = [i, i, i, i]; i = i + 1; } return x;" : "x = [" + e + ", {a: " + e + "}]; return x[0];"; c.note(src); if (!strncmp(e.c_str(), "other", 5) || !strcmp(e.c_str(), "yes.x")) return; long before = em_bytes; M m; fresh(0, gc ? 16000 : 1 << 20, 1, m); R r = run(0, src); c.trace(); c.transitions(1); c.state(mc::hash(r.rets)); same(r, SL[k].r ? R{ true, "", SL[k].r, "" } : R{ false, "", "", "" }, c, src); finish(before, c); });
    // every entry point gives the same for the same program
    struct Pr { const char *t; bool ok; const char *out, *rets; }; static const Pr PS[] = { { "v(1); return 1, 'a';", true, "v(1)", "1;'a';" }, { "v(2); x = 3;", true, "v(2)", "{x: 3};" }, { "x = ;", false, "", "" }, { "v(1); fail();", false, "v(1)", "" }, { "", true, "", "{};" }, { "fun f(n) return n, [n]; a, b = f(4); return b, a;", true, "", "[4];4;" }, { "return undefined;", false, "", "" }, { "return v; # end", true, "", "<native function is unprintable>;" } },
        PA[] = { { "PUSHINT 1; PUSHVAR \"v\"; CALL 1, 1; POP 1; PUSHINT 5; RETURN 1;", true, "v(1)", "5;" }, { "PUSHINT 3; ASS \"x\"; POP 1; EXIT;", true, "", "{x: 3};" }, { "NOPEX;", false, "", "" }, { "PUSHVAR \"fail\"; CALL 0, 1; EXIT;", false, "", "" }, { "EXIT;", true, "", "{};" }, { "PUSHINT 1; PUSHSTR \"a\"; RETURN 2;", true, "", "1;'a';" }, { "PUSHVAR \"undefined\"; EXIT;", false, "", "" }, { "JUMP l; PUSHINT 1; l: PUSHINT 2; RETURN 1;", true, "", "2;" } };
    mc::run("every entry point on every program", 8 * 10 * 8 * 2, [&](uint64_t i, mc::Ctx &c) { Dig d(i); const int p = d(8), mode = d(10), q = d(8); long before = em_bytes; M m; fresh(0, d(2) ? 8192 : 1 << 20, 0, m); for (int t = 0; t < 2; t++) { const Pr &x = (mode < 5 ? PS : PA)[t ? q : p]; c.note(string(x.t) + "   [entry point " + std::to_string(mode) + "]"); R r = run(0, x.t, mode), w{ x.ok, x.out, "", "" }; if (mode % 5 < 3) w.rets = x.rets; same(r, w, c, x.t); c.trace(); c.transitions(1); c.state(mc::hash(r.out + r.rets, mode)); if (!x.ok || c.failed) break; } finish(before, c); });
    char tdir[] = "/tmp/nj36-XXXXXX"; if (!mkdtemp(tdir)) return 2; string TD = tdir; auto wr = [&](const char *n, const string &t) { FILE *f = fopen((TD + "/" + n).c_str(), "w"); fwrite(t.data(), 1, t.size(), f); fclose(f); }; wr("good", "v(7); return 8;"); wr("gooda", "PUSHINT 8; RETURN 1;"); wr("bad", "x = ;"); wr("empty", ""); wr("plug", "k = 41; fun up(n) return n + k; return {k: k, up: up};"); wr("boom", "v(1); fail();"); mkdir((TD + "/dir").c_str(), 0700);
    static const char *NM[] = { "@/missing", "@/dir", "", "@/good/x", "@/dir/../missing", "@/good", "@/dir/../good" };
    mc::run("files that are and aren't there", 7 * 7 * 4 * 2, [&](uint64_t i, mc::Ctx &c) { Dig d(i); int a = d(7), b = d(7), mode = d(4), full = d(2); auto nm = [&](int k) { string s = NM[k]; if (s[0] == '@') s = TD + s.substr(1); if (mode > 1 && k >= 5) s += "a"; return s; }; long before = em_bytes; M m; fresh(0, 1 << 20, full, m);
        for (int k : { a, b, 5 }) { string s = nm(k); c.note(s + "   [entry point " + std::to_string(10 + mode) + "]"); R r = run(0, s, 10 + mode), w{ k >= 5, k >= 5 && mode < 2 ? "v(7)" : "", "", "" }; if (w.ok && mode % 2 == 0) w.rets = "8;"; same(r, w, c, s); c.trace(); c.transitions(1); c.state(mc::hash(s + r.out + r.rets, mode)); } finish(before, c); });
    mc::run("plugging strings, files and sources", 3 * 3 * 7 * 2, [&](uint64_t i, mc::Ctx &c) { Dig d(i); int h1 = d(3), h2 = d(3), k = d(7), full = d(2); static const char *P2[] = { "plug", "bad", "missing", "empty", "boom", "dir", "plug" }; long before = em_bytes; M m; fresh(0, 1 << 20, full, m);
        auto text = [&](const char *n) { FILE *f = fopen((TD + "/" + n).c_str(), "r"); if (!f) return string("@"); char b[200]; size_t l = fread(b, 1, sizeof b, f); fclose(f); if (string(n) == "dir") return string("@"); return string(b, l); }; auto plug = [&](int how, const char *n) { c.note(string(n) + ", plugged " + (how == 0 ? "as a string" : how == 1 ? "as a file" : "as a source")); c.transitions(1); return how == 1 ? em_plug_as(0, 1, (TD + "/" + n).c_str()) : how == 0 ? em_plug(0, text(n).c_str()) : em_plug_as(0, 2, text(n).c_str()); };
        if (!plug(h1, "plug")) c.fail("fails"); bool ok = plug(h2, P2[k]), want = k == 0 || k == 3 || k == 6; if (!c.failed && ok != want) c.fail(ok ? "succeeds" : "fails"); bool failed = !want && (k == 1 || k == 4 || h2 != 1); if (!failed && !c.failed) { R r = run(0, full ? "return up(1), k, count('abc');" : "return up(1), k;"), w{ true, "", full ? "42;41;3;" : "42;41;", "" }; same(r, w, c, "after plugging"); c.trace(); c.state(mc::hash(r.rets, i)); } finish(before, c); });
    for (const char *n : { "good", "gooda", "bad", "empty", "plug", "boom" }) unlink((TD + "/" + n).c_str()); rmdir((TD + "/dir").c_str()); rmdir(tdir);
    mc::sample("0: return bump(1), shared;  after  0: plug  ->  42, 41; on the other runtime it fails"); mc::sample("apply(n5, 1, 'a')  ->  n5(1 'a' none none none)");
    return mc::finish();
}
