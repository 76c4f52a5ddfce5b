#include "lang.hpp"
#include <climits>
#include <ftw.h>
using std::string; using std::vector;
static string W; // the scratch tree
static const char *SPEC[] = { "m.noja", "./m.noja", "b/m.noja", "a/m.noja", "../m.noja", "../c/m.noja", "n.noja", "../../a//b/./m.noja", "@/c/m.noja", "@/a/../m.noja", "", ".", "missing.noja", "m.noja/", "a", "a/../m.noja", "l/m.noja", "k.noja" };
static const int NS = sizeof SPEC / sizeof *SPEC, NA = NS + 5;
static string spec(int k) { string s = SPEC[k]; if (s[0] == '@') s = W + s.substr(1); return s; }
static const char *DIRS[] = { "", "/a", "/a/b", "/c" };
static void put(const string &p, const string &t) { FILE *f = fopen(p.c_str(), "wb"); if (!f) { perror(p.c_str()); _exit(3); } fwrite(t.data(), 1, t.size(), f); fclose(f); }
static string real(const string &p) { char b[PATH_MAX]; return realpath(p.c_str(), b) ? b : "?" + p; }
static string dirname_of(const string &p) { return p.substr(0, p.rfind('/') + 1); }
static string join(const string &dir, const string &s) { return s[0] == '/' ? s : dir + s; }
static bool regular(const string &p) { struct stat st; return p.find('\0') == string::npos && !stat(p.c_str(), &st) && S_ISREG(st.st_mode); }
// the paths of lines "in <path>" resolved, so that only the file they denote matters
static string canon(const string &o, const char *mark)
{ string r; size_t p = 0; while (p < o.size()) { size_t e = o.find('\n', p); if (e == string::npos) e = o.size(); string l = o.substr(p, e - p); p = e + 1; size_t m = l.find(mark); if (m != string::npos) l = l.substr(0, m + strlen(mark)) + real(l.substr(m + strlen(mark))); r += l + "\n"; } return r; }
struct Stop { bool horizon; };
struct Sim { // what running the tree's modules must print
    const vector<int> &a; size_t n = 0; string out; long depth = 0;
    explicit Sim(const vector<int> &x) : a(x) {}
    int ask() { if (n >= a.size()) throw Stop{ true }; return a[n++]; }
    struct Val { string path; int y; };
    string resolve(const string &cur, int k) { if (k >= NS) throw Stop{ false }; string p = join(dirname_of(cur), spec(k)); if (!regular(p)) throw Stop{ false }; return p; }
    Val import(const string &cur, int k) { return module(resolve(cur, k)); }
    string later(const string &cur) { Val v = import(cur, ask()); out += "later > " + real(v.path) + "\n"; return v.path; }
    Val module(const string &path) {
        out += "in > " + real(path) + "\nof > " + real(dirname_of(path)) + "\n"; string last;
        for (;;) { int k = ask();
            if (k == 0) return { path, -1 }; if (k == 1) return { path, 2 }; if (k == 2) throw Stop{ false }; if (k == 3) return { path, -1 };
            if (k == 4) { if (last.empty()) throw Stop{ false }; out += "call\n"; last = later(last); out += "called\n"; }
            else { Val v = import(path, k - 5); out += string(v.y < 0 ? "none" : "2") + " > " + real(v.path) + "\n"; last = v.path; } }
    }
};
static string module_text()
{
    string s = "print('in > ', getCurrentScriptLocation(), '\\n');\nprint('of > ', getCurrentScriptDirectory(), '\\n');\nS = [";
    for (int k = 0; k < NS; k++) s += (k ? ", '" : "'") + spec(k) + "'";
    s += "];\nid = getCurrentScriptLocation();\nfun f() {\n k = choose(99);\n x, y = import(S[k]);\n print('later > ', x.id, '\\n');\n return x;\n}\nlast = none;\nwhile true: {\n k = choose(99);\n if k == 0: return {id: id, f: f};\n if k == 1: return {f: f, id: id}, 2;\n if k == 2: error('stop');\n if k == 3: break;\n if k == 4: { if last == none: error('nothing'); print('call\\n'); last = last.f(); print('called\\n'); }\n else { x, y = import(S[k - 5]); print(y, ' > ', x.id, '\\n'); last = x; }\n}\n";
    return s;
}
static int rmone(const char *p, const struct stat *, int, struct FTW *) { return remove(p); }
struct Cfg : nj_cfg { Cfg() { memset((nj_cfg *)this, 0, sizeof(nj_cfg)); builtins = NJ_B_NATIVE; } };
static string lit(const string &s) { string o = "'"; for (char ch : s) { if (ch == '\'' || ch == '\\') o += '\\'; o += ch; } return o + "'"; }
int main(int argc, char **argv)
{
    mc::init(argc, argv, "P24"); nj_warm(); bool T = mc::thorough();
    char dir[] = "/tmp/nj24-XXXXXX"; if (!mkdtemp(dir)) return 2; W = real(dir); string main_text;
    mkdir((W + "/a").c_str(), 0755); mkdir((W + "/a/b").c_str(), 0755); mkdir((W + "/c").c_str(), 0755); if (symlink("c", (W + "/l").c_str()) || symlink("../m.noja", (W + "/c/k.noja").c_str())) return 2;
    for (const char *d : DIRS) put(W + d + "/m.noja", module_text()); put(W + "/c/n.noja", module_text());
    mc::RULE = "every sequence of imports, calls, returns and failures a tree of modules can ask for up to the stated number of decisions, every path made of the stated segments, every length; state = distinct output";
    static const int dummy = 0;
    // schedules: the modules ask what to do next
    mc::run("schedules of nested imports", 5 * NA * NA, [&](uint64_t i, mc::Ctx &c) {
        Dig d(i); int m = d(5), D = (T ? 4 : 3) + (m == 1); string file = m < 4 ? W + DIRS[m] + "/m.noja" : W + "/c/n.noja"; int a0 = d(NA), a1 = d(NA); vector<vector<int>> work = { { a0, a1 } }; if (a1 == 0) work.push_back({ a0 });
        while (!work.empty() && !c.failed) {
            vector<int> a = work.back(); work.pop_back(); string as; for (int x : a) as += std::to_string(x) + " "; c.note(file.substr(W.size()) + " with decisions " + as + "(5+k: import SPEC[k])"); c.beat();
            Sim s(a); bool ok = false, hor = false; try { s.module(file); ok = true; } catch (Stop &e) { hor = e.horizon; }
            for (int gc = 0; gc < 2 && !c.failed; gc++) { if (gc && ((int)a.size() < D - 1 || (!T && i % 3))) continue; if (gc && !T && i % 3) continue;
                Cfg g; g.file = file.c_str(); if (gc) g.step = step_collect; Impl r = impl_run("", a.empty() ? &dummy : a.data(), a.size(), NJ_B_NATIVE, false, &g); c.trace(); c.transitions(r.steps); string out = canon(r.out, " > "), w = gc ? " (with a collection after every instruction)" : "";
                c.state(mc::hash(s.out, ok)); if (r.horizon != hor) c.fail("asks for " + string(hor ? "less" : "more") + " than it should: " + r.msg + w + "\n--- expected\n" + s.out + "--- got\n" + out); else if (!hor && r.ok != ok) c.fail(string(ok ? "fails: " : "succeeds ") + r.msg + w + "\n--- expected\n" + s.out + "--- got\n" + out); else if (out != s.out) c.fail("wrong output" + w + "\n--- expected\n" + s.out + "--- got\n" + out); else if (!hor && !ok && !r.occurred) c.fail("fails without an error"); else if (r.leak) c.fail(std::to_string(r.leak) + " bytes leaked"); }
            if (hor && a.size() > 1 && (int)a.size() < D) for (int b = 0; b < NA; b++) { auto v = a; v.push_back(b); work.push_back(v); } } });
    // every path over the segments, from each directory, to the module and back
    string q = "print('in > ', getCurrentScriptLocation(), '\\n'); return 7;\n"; mkdir((W + "/p").c_str(), 0755); mkdir((W + "/p/d").c_str(), 0755); put(W + "/p/q", q); put(W + "/p/d/q", q); put(W + "/p/d/ é;'#", q); if (symlink("d", (W + "/p/s").c_str()) || symlink("nowhere", (W + "/p/z").c_str()) || symlink("x", (W + "/p/x").c_str())) return 2; put(W + "/p/imp", "S = input(); print('got ', import(S), '\\n');\n"); put(W + "/p/d/imp", "S = input(); print('got ', import(S), '\\n');\n");
    static const char *SEG[] = { "/", "..", ".", "d", "q", "s", "z", "x", " é;'#", "imp" }; const int NSEG = 10, L = T ? 6 : 5;
    mc::run("paths", nseq(NSEG, 0, L) * 2, [&](uint64_t i, mc::Ctx &c) {
        Dig d(i); bool deep = d(2); string p; vector<int> sg = seq_at(d.v, NSEG, 0, L); for (int k : sg) p += SEG[k]; if (p[0] == '/') p = W + "/p" + p; string file = W + (deep ? "/p/d/imp" : "/p/imp"), t = join(dirname_of(file), p); bool ok = regular(t); bool self = ok && real(t).size() > 4 && real(t).substr(real(t).size() - 4) == "/imp"; c.note(file.substr(W.size()) + " imports " + show(p));
        string in = p + "\n" + "q\n" ; Cfg g; g.file = file.c_str(); g.in = in.data(); g.inlen = in.size(); Impl r = impl_run("", nullptr, 0, 0, false, &g); c.trace(); c.transitions(r.steps); string out = canon(r.out, " > "), want = ok ? self ? "in > " + dirname_of(real(t)) + "q\ngot 7\ngot " : "in > " + real(t) + "\ngot 7\n" : ""; c.state(mc::hash(want));
        if (r.ok != ok) c.fail(string(ok ? "not imported: " + r.msg : "imported something") + "\n" + out); else if (self ? out.compare(0, want.size(), want) : out != want) c.fail("expected " + want + "got " + out); else if (r.leak) c.fail("leaks"); });
    // names of every length
    mc::run("lengths", T ? 4200 : 1400, [&](uint64_t i, mc::Ctx &c) {
        Dig d(i); int form = d(2); long n = d.v * (T ? 1 : 3); string p; while ((long)p.size() + 3 <= n) p += "./"; p += (p.size() % 2 == (size_t)n % 2 ? "/q" : "q"); if (p[0] == '/') p = "q"; if (form) p = W + "/p/" + p; c.note("import of a path of length " + std::to_string(p.size()));
        string file = W + "/p/imp", in = p; Cfg g; g.file = file.c_str(); g.in = in.data(); g.inlen = in.size(); Impl r = impl_run("", nullptr, 0, 0, false, &g); c.trace(); c.transitions(r.steps); c.state(mc::hash(r.out.size() ? "yes" : "no", r.ok)); string out = canon(r.out, " > ");
        if (r.ok ? out != "in > " + W + "/p/q\ngot 7\n" : !r.occurred || !r.out.empty() || p.size() + W.size() < 950) c.fail((r.ok ? "wrong output " : "fails: ") + r.msg + out); else if (r.leak) c.fail("leaks"); });
    // programs run from every directory
    static const char *CWD[] = { "", "/a", "/a/b", "/c", "/l", "ROOT", "GONE" };
    static const char *HOW[] = { "m.noja", "../m.noja", "a/m.noja", "./a/b/../m.noja", "@/c/m.noja", "l/m.noja", "none.noja", "" }; const int NH = 8;
    mc::run("working directories", 7 * (NH + NS) * 2, [&](uint64_t i, mc::Ctx &c) {
        Dig d(i); int w = d(7), gc = d(2), h = d.v; string here; if (w == 5) here = "/"; else if (w == 6) here = W + "/gone" + std::to_string(getpid()); else here = W + CWD[w]; if (w == 6) { mkdir(here.c_str(), 0755); } if (chdir(here.c_str())) _exit(3); if (w == 6) rmdir(here.c_str()); here = w == 6 ? "" : real(here); if (!here.empty() && here.back() != '/') here += "/";
        Cfg g; string f, src; vector<int> a = { 0 }; if (gc) g.step = step_collect; string p = h < NH ? HOW[h] : SPEC[h - NH]; if (p[0] == '@') p = W + p.substr(1); string tgt = p[0] == '/' ? p : w == 6 ? "" : here + p; bool ok = regular(tgt); string want;
        if (h < NH) { f = p; g.file = f.c_str(); c.note("run file " + p + " from " + CWD[w]); if (ok) want = "in > " + real(tgt) + "\nof > " + real(dirname_of(tgt)) + "\n"; }
        else { src = "print(getCurrentScriptLocation(), getCurrentScriptDirectory(), '\\n'); x, y = import(" + lit(p) + "); print(y, ' > ', x.id, '\\n');"; c.note("run string from " + string(CWD[w]) + ": " + src); want = "nonenone\n"; if (ok) want += "in > " + real(tgt) + "\nof > " + real(dirname_of(tgt)) + "\nnone > " + real(tgt) + "\n"; }
        Impl r = impl_run(src, a.data(), 1, NJ_B_NATIVE, false, &g); Impl r2 = impl_run("print(getCurrentWorkingDirectory());"); c.trace(); c.transitions(r.steps); c.state(mc::hash(want)); string out = canon(r.out, " > "); if (chdir("/")) _exit(3);
        if (r.ok != ok) c.fail((ok ? "fails: " : "succeeds ") + r.msg + "\n" + out); else if (out != want) c.fail("expected " + want + "got " + out); else if (!ok && !r.occurred) c.fail("no error"); else if (r.leak) c.fail("leaks");
        else if (w == 6 ? r2.ok : !r2.ok || real(r2.out) + (real(r2.out) == "/" ? "" : "/") != here) c.fail("getCurrentWorkingDirectory() gives " + r2.out + r2.msg); });
    // directories with long names, as the directory of the script and as the working directory
    mc::run("long directories", 100 * 3 * 2, [&](uint64_t i, mc::Ctx &c) {
        Dig d(i); int how = d(3), gc = d(2); size_t len = 1 + d.v * 9; string base = W + "/deep" + std::to_string(getpid()), here = base; mkdir(here.c_str(), 0755); vector<string> made = { here };
        while (here.size() < W.size() + len) { size_t n = std::min<size_t>(200, W.size() + len - here.size()); if (n < 2) n = 2; here += "/" + string(n - 1, 'd'); mkdir(here.c_str(), 0755); made.push_back(here); }
        put(here + "/q.noja", "print('in > ', getCurrentScriptLocation(), '\\nof > ', getCurrentScriptDirectory(), '\\n'); return 7;"); put(here + "/r.noja", "print('in > ', getCurrentScriptLocation(), '\\n'); x = import('q.noja'); y = import('./q.noja'); print('got ', x + y, ' > ', getCurrentWorkingDirectory(), '\\n');");
        Cfg g; string f = how == 0 ? here + "/r.noja" : "r.noja", src; if (gc) g.step = step_collect; c.note((how == 0 ? "a script in" : how == 1 ? "a relative script run from" : "a string run from") + string(" a directory of length ") + std::to_string(here.size())); if (chdir(how ? here.c_str() : "/")) _exit(3);
        if (how < 2) g.file = f.c_str(); else src = "x = import('q.noja'); y = import('./q.noja'); print('got ', x + y, ' > ', getCurrentWorkingDirectory(), '\\n');"; Impl r = impl_run(src, nullptr, 0, NJ_B_NATIVE, false, &g); c.trace(); c.transitions(r.steps); c.state(mc::hash(std::to_string(how), here.size())); if (chdir("/")) _exit(3); string out = canon(r.out, " > ");
        string q = "in > " + here + "/q.noja\nof > " + here + "\n", want = (how < 2 ? "in > " + here + "/r.noja\n" : string()) + q + q + "got 14 > " + (how ? here : string("/")) + "\n"; unlink((here + "/q.noja").c_str()); unlink((here + "/r.noja").c_str()); for (size_t k = made.size(); k-- > 0;) rmdir(made[k].c_str());
        if (r.leak) c.fail("leaks"); else if (r.ok ? out != want : here.size() < 950 || !r.occurred) c.fail((r.ok ? "expected " + want + "got " + out : "fails: " + r.msg + out)); });
    // argument kinds and names with a zero byte
    static const char *ARG[] = { "1", "none", "true", "1.5", "[]", "{}", "int", "import", "buffer.new(3)", "string.cat('q', string.chr(0))", "string.cat('q', string.chr(0), '.noja')", "string.cat(string.chr(0), 'q')", "", "'q', 'q'", "string.cat('q')", "'q'" }; const int NARG = 16;
    mc::run("arguments", NARG * 2, [&](uint64_t i, mc::Ctx &c) {
        Dig d(i); int k = d(NARG); if (chdir((W + "/p").c_str())) _exit(3); string src = "print('got ', import(" + string(ARG[k]) + "));"; 
        c.note(src); Cfg g; if (d.v) g.step = step_collect; Impl r = impl_run(src, nullptr, 0, 0, false, &g); c.trace(); c.transitions(r.steps); c.state(mc::hash(r.msg)); bool ok = k >= NARG - 3; string out = canon(r.out, " > "); if (chdir("/")) _exit(3);
        if (r.ok != ok) c.fail((ok ? "fails: " : "accepted ") + r.msg + out); else if (ok && out != "in > " + W + "/p/q\ngot 7\n") c.fail("wrong output " + out); else if (r.leak) c.fail("leaks"); });
    // contents of modules
    static const string CON[] = { "", "\n", "# only a comment", "return 1;", "return 1, 2, 3;", "x = 1; y = 'two';", "fun f(", "1 / 0;", "import('no/such');", "return;", "\xef\xbb\xbfreturn 1;", string("return 1;\0 garbage(", 19), string("\0", 1), "return {a: 1}", "x = 5; return import;", "\r\nreturn 1;\r\n", "x = 'unterminated", "return x;", "fun x() return x; return x();", "break;", "assert(false);" };
    const int NC = sizeof CON / sizeof *CON;
    // modules are evaluated on their own: the same outcome as running them as a program, with none of the importer's variables
    mc::run("contents", NC * NC * 2, [&](uint64_t i, mc::Ctx &c) {
        Dig d(i); int k = d(NC), k2 = d(NC), gc = d(2); string M = W + "/w" + std::to_string(getpid()); mkdir(M.c_str(), 0755); put(M + "/one", CON[k]); put(M + "/two", CON[k2]); c.note("modules " + show(CON[k]) + " and " + show(CON[k2])); string one = M + "/one", two = M + "/two";
        Cfg g; if (gc) g.step = step_collect; g.file = one.c_str(); Impl a = impl_run("", nullptr, 0, 0, false, &g); g.file = two.c_str(); Impl b = impl_run("", nullptr, 0, 0, false, &g); string main = M + "/main"; put(main, "x = 1; import = import; a, b, c = import('one'); emit(a, b, c); a, b, c = import('two'); emit(a, b, c); emit(x);\n"); g.file = main.c_str(); Impl m = impl_run("", nullptr, 0, 0, false, &g); c.trace(3); c.transitions(m.steps); c.state(mc::hash(m.out));
        auto rets = [](const Impl &r) { string o; size_t p = 0; int n = 0; string s = r.rets; while (p < s.size()) { size_t e = s.find(';', p); if (e == string::npos) e = s.size(); o += s.substr(p, e - p) + " "; n++; p = e + 1; } return std::make_pair(o, n); };
        auto line = [&](const Impl &r) { auto v = rets(r); string o = v.first; for (int j = v.second; j < 3; j++) o += "n "; return o; };
        string want; bool ok = a.ok; if (ok) { want = line(a) + "| "; ok = b.ok; if (ok) want += line(b) + "| 1"; } string got; for (char ch : m.out) got += ch == '\n' ? '|' : ch;
        mc::count("modules"); auto squash = [](const string &s) { string o; for (char ch : s) if (ch != ' ' && ch != '|' && ch != ';' && ch != ',' && ch != '@') o += ch; return o; };
        if (m.ok != ok) c.fail(string(ok ? "fails: " : "succeeds ") + m.msg + got); else if (squash(got) != squash(want)) c.fail("expected " + want + " got " + got); else if (m.leak || a.leak || b.leak) c.fail("leaks"); });
    // chains of modules, each importing the next on some line; the trace names file and line of each
    int CH = 7; mc::run("traces and limits of chains", 3 * 6 * 24 * 2, [&](uint64_t i, mc::Ctx &c) {
        Dig d(i); int kind = d(3), pat = d(6), n = d(24), fn = d(2); string M = W + "/t" + std::to_string(getpid()); mkdir(M.c_str(), 0755); vector<int> ln; (void)CH;
        for (int k = 0; k <= n; k++) { int l = 1 + (k * (pat + 1) + pat) % 5; string t; for (int j = 1; j < l; j++) t += "y = 1;\n"; if (k == n) t += kind == 0 ? "x = 1 / 0;\n" : kind == 1 ? "x = ) 1;\n" : "import('absent');\n"; else if (fn) t += "fun g() return import('m" + std::to_string(k + 1) + "'); g();\n"; else t += "x = import('m" + std::to_string(k + 1) + "');\n"; put(M + "/m" + std::to_string(k), t); ln.push_back(l); }
        string f = M + "/m0"; Cfg g; g.file = f.c_str(); Impl r = impl_run("", nullptr, 0, 0, true, &g); c.trace(); c.transitions(r.steps); c.note("chain of " + std::to_string(n) + " modules, failure " + std::to_string(kind) + ", functions " + std::to_string(fn)); string got; size_t p = 0; bool in = false;
        while (p < r.trace.size()) { size_t e = r.trace.find('\n', p); string l = r.trace.substr(p, e - p); p = e == string::npos ? r.trace.size() : e + 1; if (!in) { in = l == "Stack trace:"; continue; } size_t b = l.find(M + "/"); if (b == string::npos) continue; got += l.substr(b + M.size() + 1) + " "; }
        string want; for (int k = n; k >= 0; k--) for (int j = 0; j < (fn && k < n ? 2 : 1); j++) want += "m" + std::to_string(k) + ":" + std::to_string(ln[k]) + " "; c.state(mc::hash(got));
        bool deep = n * (fn ? 3 : 2) >= 10; if (r.ok) c.fail("doesn't fail"); else if (!r.occurred) c.fail("no error"); else if (r.leak) c.fail("leaks"); else if (got != want && (!deep || want.size() < got.size() || want.find(got) == string::npos)) c.fail("stack trace " + got + " instead of " + want + "(" + r.msg + ")"); });
    // a module importing itself, or two importing each other
    mc::run("endless imports", 4 * 2, [&](uint64_t i, mc::Ctx &c) {
        Dig d(i); int k = d(4), gc = d(2); string M = W + "/e" + std::to_string(getpid()); mkdir(M.c_str(), 0755); put(M + "/a", k == 0 ? "import('a');" : k == 1 ? "import('b');" : k == 2 ? "fun f() return import('a'); x = f();" : "x = [import('./a')];"); put(M + "/b", "import('a');"); string f = M + "/a"; Cfg g; g.file = f.c_str(); if (gc) g.step = step_collect; c.note("endless import " + std::to_string(k)); Impl r = impl_run("", nullptr, 0, 0, false, &g); c.trace(); c.transitions(r.steps); c.state(k); if (r.ok || !r.occurred) c.fail("no error"); else if (r.leak) c.fail("leaks"); });
    mc::sample("W/a/m.noja imports '../c/m.noja', whose function then imports 'n.noja'  ->  W/c/n.noja");
    int rc = mc::finish(); nftw(W.c_str(), rmone, 16, FTW_DEPTH | FTW_PHYS); return rc;
}
