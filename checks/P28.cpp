#include <sys/resource.h>
#include "lang.hpp"
#include "asm.hpp"
#include "corpus.hpp"
#include <ftw.h>
using std::string; using std::vector;
extern "C" int nj_cli_main(int, char **);
// a signal delivered after the given number of instructions, or around the end
static long sig_at = -1, sig_seen, sig_after; static int sig_no, free_sig;
extern "C" float __real_Heap_GetUsagePercentage(void *); extern "C" float __wrap_Heap_GetUsagePercentage(void *h) { if (sig_at >= 0) { if (sig_seen == sig_at) raise(sig_no); else if (sig_seen > sig_at) sig_after++; sig_seen++; } return __real_Heap_GetUsagePercentage(h); }
extern "C" void __real_Runtime_Free(void *); extern "C" void __wrap_Runtime_Free(void *r) { if (free_sig == 1) raise(SIGINT); __real_Runtime_Free(r); if (free_sig == 2) raise(SIGTERM); }
static string W;
static void put(const string &p, const string &t) { FILE *f = fopen(p.c_str(), "wb"); if (!f) { perror(p.c_str()); _exit(3); } fwrite(t.data(), 1, t.size(), f); fclose(f); }
static string get(const string &p) { FILE *f = fopen(p.c_str(), "rb"); if (!f) return "(absent)"; string o; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) o.append(b, n); fclose(f); return o; }
static int rmone(const char *p, const struct stat *, int, struct FTW *) { return remove(p); }
static void cd() { string d = W + "/w" + std::to_string(getpid()); mkdir(d.c_str(), 0755); if (chdir(d.c_str())) _exit(3); }
struct Out { int code, sig; string out, err; long after; };
static Out cli(const vector<string> &args, const string &in = "", long at = -1, int signo = 0, int fs = 0, long limit = -1)
{
    put("in", in); vector<char *> av; static string a0 = "noja"; vector<string> copy = args; av.push_back((char *)a0.c_str()); for (string &s : copy) av.push_back((char *)s.c_str()); int argc = av.size(); av.push_back(nullptr);
    int pr[2]; if (pipe(pr)) _exit(3); fflush(nullptr); pid_t p = fork();
    if (p == 0) { close(pr[0]); int o = open("stdout", O_CREAT | O_TRUNC | O_WRONLY, 0600), e = open("stderr", O_CREAT | O_TRUNC | O_WRONLY, 0600), i = open("in", O_RDONLY); dup2(i, 0); dup2(o, 1); dup2(e, 2); signal(SIGINT, SIG_DFL); signal(SIGTERM, SIG_DFL); alarm(20); if (limit >= 0) { signal(SIGXFSZ, SIG_IGN); rlimit rl = { (rlim_t)limit, (rlim_t)limit }; setrlimit(RLIMIT_FSIZE, &rl); } sig_at = at; sig_seen = sig_after = 0; sig_no = signo; free_sig = fs; int rc = nj_cli_main(argc, av.data()); fflush(nullptr); if (write(pr[1], &sig_after, sizeof sig_after) < 0) {} _exit(rc); }
    close(pr[1]); Out r; r.after = -1; if (read(pr[0], &r.after, sizeof r.after) < 0) {} close(pr[0]); int st; waitpid(p, &st, 0); r.code = WIFEXITED(st) ? WEXITSTATUS(st) : -1; r.sig = WIFSIGNALED(st) ? WTERMSIG(st) : 0; r.out = get("stdout"); r.err = get("stderr"); return r;
}
static string crash(const Out &o) { if (o.sig) return "killed by signal " + std::to_string(o.sig) + "\n" + o.err.substr(0, 1500); if (o.code == 99 || o.code == 98 || (o.err.find("Sanitizer") != string::npos && o.err.find("WARNING: AddressSanitizer failed to allocate") == string::npos) || o.err.find("runtime error:") != string::npos) return "crashes: " + o.err.substr(0, 2500); return ""; }
struct Want { bool ok; string out; };
static std::map<string, Want> memo;
// what the library does with the same source
static Want lib(bool assembly, bool text, const string &input, long heap, const string &in = "")
{
    string key = string(assembly ? "a" : "n") + (text ? "t" : "f") + std::to_string(heap) + "|" + input + "|" + in; auto it = memo.find(key); if (it != memo.end()) return it->second;
    nj_cfg g; memset(&g, 0, sizeof g); g.builtins = NJ_B_FULL; g.no_natives = 1; g.bytecode = assembly; g.heap = heap; g.in = in.data(); g.inlen = in.size(); if (!text) g.file = input.c_str(); Impl r = impl_run(text ? input : "", nullptr, 0, 0, false, &g); Want w = { r.ok, r.out }; memo[key] = w; return w;
}
static string ev(const vector<string> &a) { string s; for (auto &x : a) s += "[" + show(x) + "] "; return s; }
int main(int argc, char **argv)
{
    mc::init(argc, argv, "P28"); nj_warm(); bool T = mc::thorough(); char dir[] = "/dev/shm/nj28-XXXXXX", dir2[] = "/tmp/nj28-XXXXXX"; if (mkdtemp(dir)) W = dir; else if (mkdtemp(dir2)) W = dir2; else return 2;
    mc::RULE = "every vector of arguments over the listed tokens up to a length, every program of the corpus in every form, a signal after every instruction; state = distinct exit status and output";
    string asmtext; { nj_comp k; const char *s = "print('asm\\n');"; nj_compile(s, strlen(s), &k); ref::Code code; code_from_exe(k.exe, code); nj_exe_free(k.exe); asmtext = ref::to_asm(code); }
    vector<string> tok = { "-h", "--inline", "-a", "--diagram-ast", "-p", "-o", "-H", "out", "70000", "good", "bad", "print('hi\\n');", "nodir/x", "-i", asmtext, "16", "asm", "--output", "--heap", "--profile", "--assembly", "--help", "-x", "", "missing" };
    auto setup = [&]() { cd(); put("good", "fun twice(v) return v + v; print('good\\n'); x = [1, twice(7)]; print(x);\n"); put("bad", "print('partial\\n');\n1 / 0;\n"); put("asm", asmtext); unlink("out"); };
    auto args = [&](const vector<string> &a, mc::Ctx &c) {
        if (c.failed) return;
        // the documented meaning of the arguments
        int mode = 0; bool text = false, prof = false, bad = false, have = false; size_t stop = a.size(); string output, input; bool hasout = false; long heap = 1 << 20;
        for (size_t k = 0; k < a.size(); k++) { const string &s = a[k]; if (s == "-h" || s == "--help") mode = 3; else if (s == "-i" || s == "--inline") text = true; else if (s == "-a" || s == "--assembly") mode = 1; else if (s == "--diagram-ast") mode = 2; else if (s == "-p" || s == "--profile") prof = true;
            else if (s == "-o" || s == "--output" || s == "-H" || s == "--heap") { if (k + 1 == a.size() || a[k + 1][0] == '-') { bad = true; stop = k; break; } const string &v = a[++k]; if (s[1] == 'o' || s == "--output") { output = v; hasout = true; } else { bool num = !v.empty(); for (char ch : v) if (ch < '0' || ch > '9') num = false; heap = num ? atol(v.c_str()) : 0; if (heap <= 0) { bad = true; stop = k; break; } } }
            else { input = s; have = true; stop = k; break; } }
        if (a.size() > stop + 2) return; // what follows has no effect: one token is enough to see it
        setup(); c.note(ev(a)); string pf;
        if (!bad && mode != 3 && !have) bad = true;
        Out o = cli(a); if (hasout && !access(output.c_str(), R_OK)) pf = get(output); c.trace(); c.transitions(1); c.state(mc::hash(o.out, o.code * 2 + (o.err.size() > 0))); string cr = crash(o); if (!cr.empty()) { c.fail(cr); return; }
        if (bad) { if (!o.code) c.fail("accepted: " + o.out); else if (o.err.empty()) c.fail("no message on stderr"); else if (!o.out.empty()) c.fail("prints " + o.out); else if (!access("out", F_OK)) c.fail("created its output file"); return; }
        if (mode == 3) { if (o.code || o.out.find("Usage") == string::npos || o.out.find("--heap") == string::npos || !o.err.empty()) c.fail("help: exit " + std::to_string(o.code) + " " + o.out + o.err); return; }
        bool outok = !hasout || output == "out" || output == "70000" || output == "16" || (output != "" && output.find('/') == string::npos); if (hasout && access(output.c_str(), F_OK) && output != "out" && outok) outok = true;
        if (mode == 2) { string src = text ? input : input.empty() ? "" : get(input); bool there = text || (!input.empty() && !access(input.c_str(), R_OK)); nj_comp k; char *dgm = there ? nj_diagram(src.c_str(), &k) : nullptr; string want = dgm ? dgm : ""; bool ok = dgm != nullptr && outok; if (dgm) free(dgm);
            if (hasout && output == input && !text) return; if ((o.code == 0) != ok) c.fail(string(ok ? "fails: " : "succeeds ") + o.err); else if (ok && (hasout ? get(output) : o.out) != want) c.fail("another diagram than the library's: " + o.out); else if (ok && hasout && !o.out.empty()) c.fail("prints " + o.out); else if (!ok && o.err.empty()) c.fail("no message on stderr"); else if (!ok && !o.out.empty()) c.fail("prints " + o.out); if (hasout && outok && output != "out") unlink(output.c_str()); return; }
        setup(); if (hasout && output != "out" && outok && output != "good" && output != "bad" && output != "asm") unlink(output.c_str()); Want w = lib(mode == 1, text, input, heap); bool ok = w.ok && (outok || !prof);
        if (hasout && !prof && !outok) { if (w.ok) return; }
        if ((o.code == 0) != ok) c.fail(string(ok ? "fails: " : "succeeds ") + o.err + o.out); else if (o.code != 0 && o.err.empty()) c.fail("no message on stderr"); else if (ok && !o.err.empty()) c.fail("succeeds but complains " + o.err);
        else if (prof && !hasout ? o.out.compare(0, w.out.size(), w.out) : o.out != w.out) c.fail("prints " + o.out + "\ninstead of " + w.out); else if (!w.ok && o.err.find("Error") == string::npos) c.fail("stderr doesn't report the error: " + o.err);
        // the profile lists the functions that ran, if it was asked for
        else if (ok && mode == 0 && !text && input == "good") { string pr = hasout ? pf : o.out.substr(w.out.size()); if (output != "good" && (pr.find("twice") != string::npos) != prof) c.fail(prof ? "no profile: " + pr : "a profile nobody asked for: " + pr); } };
    auto vec = [&](uint64_t i, int base, int lo, int hi) { vector<string> a; for (int k : seq_at(i, base, lo, hi)) a.push_back(tok[k]); return a; };
    mc::run("argument vectors", nseq(tok.size(), 0, T ? 4 : 3), [&](uint64_t i, mc::Ctx &c) { args(vec(i, tok.size(), 0, T ? 4 : 3), c); });
    int S = 13; mc::run("longer argument vectors", ipow(S, T ? 5 : 4), [&](uint64_t i, mc::Ctx &c) { int L = T ? 5 : 4; args(vec(i, S, L, L), c); });
    // what the output file held before is gone
    mc::run("output files that exist", 7 * 3 * 2, [&](uint64_t i, mc::Ctx &c) { Dig d(i); static const int LEN[] = { 0, 1, 10, 100, 1000, 10000, 100000 }; int len = LEN[d(7)], k = d(3), again = d(2); setup(); string stale(len, '#'); if (len > 20) stale.replace(len / 2, 5, "STALE"); put("out", stale); vector<string> a = k == 0 ? vector<string>{ "-p", "-o", "out", "good" } : k == 1 ? vector<string>{ "--diagram-ast", "-o", "out", "good" } : vector<string>{ "-o", "out", "--profile", "-i", "fun twice() return 1; twice();" }; c.note(ev(a) + " over " + std::to_string(len) + " bytes"); Out o = cli(a), o2; if (again) o2 = cli(a); string f = get("out"); c.trace(); c.transitions(1 + again); c.state(mc::hash(o.out, len * 4 + k)); string cr = crash(o); if (!cr.empty()) c.fail(cr); else if (o.code || (again && o2.code)) c.fail("fails: " + o.err); else if (f.find('#') != string::npos || f.find("STALE") != string::npos) c.fail("the file still has what it held before"); else if (k == 1) { nj_comp q; char *g = nj_diagram(get("good").c_str(), &q); string w = g ? g : ""; free(g); if (f != w) c.fail("not the diagram: " + f); } else { size_t n = 0; for (size_t p = 0; (p = f.find("twice", p)) != string::npos; p++) n++; if (n != 1) c.fail("the profile lists the function " + std::to_string(n) + " times: " + f); } });
    // sizes of the heap
    static const char *HS[] = { "1", "8", "15", "16", "64", "100", "1000", "5000", "9000", "20000", "065000", "100000", "1048576", "30000000", "0", "00", "abc", "12abc", "1e9", "0x10", "", " ", " 7", "7 ", "+7", "1.5", "4294967296", "4294967297", "2147483648", "3000000000", "18446744073709551616", "18446744073709551617", "99999999999999999999999", "9223372036854775808", "1000000abc", "1000000 ", "100000.0", "1000000-", "65536,000", "4294967295", "8589934592" };
    mc::run("heap sizes", sizeof HS / sizeof *HS * 3, [&](uint64_t i, mc::Ctx &c) {
        Dig d(i); string h = HS[d(sizeof HS / sizeof *HS)]; int k = d(3); setup(); static const char *P[] = { "print('ok\\n');", "l = []; i = 0; while i < 300: { l[i] = [i]; i = i + 1; } print(count(l));", "print(string.cat('a', 'b'));" }; c.note("-H " + h); bool num = !h.empty(), big = h.size() > 9; for (char ch : h) if (ch < '0' || ch > '9') num = false; Out o = cli({ "-H", h, "-i", P[k] }); c.trace(); c.transitions(1); c.state(mc::hash(o.out, o.code)); string cr = crash(o); if (!cr.empty()) { c.fail(cr); return; } long n = big ? 0 : atol(h.c_str());
        if (!num || (!big && n == 0)) { if (h.size() && (h[0] == ' ' || h[0] == '+') && !o.code) return; if (!o.code || o.err.empty() || !o.out.empty()) c.fail("accepted " + h + ": " + o.out); }
        else if (big) { Want w = lib(false, true, P[k], 1 << 20); if (o.code == 0 ? o.out != w.out : o.err.empty() || !o.out.empty()) c.fail("exit status " + std::to_string(o.code) + ": " + o.out + o.err); else if (o.code && h.size() == 10) c.fail("a valid size is refused: " + o.err); else if (!o.code && h.size() > 18) c.fail("an impossible size is accepted"); }
        else { Want w = lib(false, true, P[k], n); if ((o.code == 0) != w.ok) c.fail("exit status " + std::to_string(o.code) + " " + o.err); else if (o.out != w.out) c.fail("prints " + o.out); } });
    // every program in every form
    auto plain = [](int k) { string s = CORPUS[k], o; size_t p = 0; while (p < s.size()) { if (!s.compare(p, 5, "emit(") && (!p || !isalnum((unsigned char)s[p - 1]))) { o += "print("; p += 5; } else o += s[p++]; } return o; };
    mc::run("programs as files, arguments and bytecode", NCORPUS * 4, [&](uint64_t i, mc::Ctx &c) {
        Dig d(i); string s = plain(d(NCORPUS)); int form = d(4); setup(); c.note("form " + std::to_string(form) + ": " + show(s)); string t = s; if (form >= 2) { nj_comp k; nj_compile(s.data(), s.size(), &k); if (!k.ok) return; ref::Code code; code_from_exe(k.exe, code); nj_exe_free(k.exe); t = ref::to_asm(code); } put("prog", t); vector<string> a; if (form >= 2) a.push_back("-a"); if (form % 2) a.push_back("-i"); a.push_back(form % 2 ? t : "prog"); Want w = lib(false, true, s, 1 << 20); Out o = cli(a); c.trace(); c.transitions(1); c.state(mc::hash(o.out, o.code)); string cr = crash(o);
        if (!cr.empty()) c.fail(cr); else if ((o.code == 0) != w.ok) c.fail("exit status " + std::to_string(o.code) + ": " + o.err); else if (o.out != w.out) c.fail("prints " + o.out + "\ninstead of " + w.out); else if (!w.ok && o.err.find("Stack trace") == string::npos) c.fail("no stack trace: " + o.err); });
    mc::run("standard input", 5 * 4, [&](uint64_t i, mc::Ctx &c) { Dig d(i); static const char *IN[] = { "", "one\ntwo\n", "no newline", "\n\n", "\xc3\xa9\n" }, *P[] = { "print(input());", "print(input(), input());", "a = input(); b = input(); print(b, a); 1 / 0;", "i = 0; while i < 3: { print('[', input(), ']'); i = i + 1; }" }; string in = IN[d(5)], p = P[d(4)]; setup(); c.note(p + " fed " + show(in)); Want w = lib(false, true, p, 1 << 20, in); Out o = cli({ "-i", p }, in); c.trace(); c.transitions(1); c.state(mc::hash(o.out)); string cr = crash(o); if (!cr.empty()) c.fail(cr); else if ((o.code == 0) != w.ok || o.out != w.out) c.fail("exit status " + std::to_string(o.code) + " " + o.out + " instead of " + w.out); });
    // a signal after every instruction
    static const char *PR[] = { "while true: {}", "i = 0; while true: { i = i + 1; print(i, ' '); }", "fun f(n) return f(n + 1); print('x\\n'); while true: { l = [1, [2]]; }", "print('a'); x = toString([1, 2]); print(x); while true: x = abs(0 - 3);", "fun g() { print('.'); return g2(); } fun g2() return 1; do { x, y = g(); print(x); } while true;" };
    long NI = T ? 6000 : 300; mc::run("a signal after every instruction", 5 * NI * 2, [&](uint64_t i, mc::Ctx &c) {
        Dig d(i); int k = d(5), s = d(2) ? SIGTERM : SIGINT; long at = d.v; setup(); c.note(string(s == SIGINT ? "SIGINT" : "SIGTERM") + " after instruction " + std::to_string(at) + ": " + PR[k]); Out o = cli({ "-i", PR[k] }, "", at, s); c.trace(); c.transitions(at); c.state(mc::hash(o.out, o.code)); string cr = crash(o); static string full[5]; if (full[k].empty()) { nj_cfg g; memset(&g, 0, sizeof g); g.builtins = NJ_B_FULL; g.no_natives = 1; g.max_steps = NI + 2000; g.heap = 1 << 20; full[k] = "_" + impl_run(PR[k], nullptr, 0, 0, false, &g).out; }
        if (!cr.empty()) c.fail(cr); else if (!o.code) c.fail("exits with success"); else if (o.err.empty()) c.fail("no message"); else if (o.after > 1) c.fail(std::to_string(o.after) + " more instructions executed"); else if (full[k].compare(1, o.out.size(), o.out)) c.fail("prints " + o.out); });
    mc::run("a signal in every mode", 5 * 5 * 2 * 12, [&](uint64_t i, mc::Ctx &c) {
        Dig d(i); int k = d(5), form = d(5), s = d(2) ? SIGTERM : SIGINT; long at = 1 + 5 * d.v; setup(); string t = PR[k]; if (form >= 2 && form < 4) { nj_comp q; nj_compile(t.data(), t.size(), &q); ref::Code code; code_from_exe(q.exe, code); nj_exe_free(q.exe); t = ref::to_asm(code); }
        put("prog", t); vector<string> a; if (form >= 2 && form < 4) a.push_back("-a"); if (form == 4) { a.push_back("-p"); a.push_back("-o"); a.push_back("out"); } if (form % 2) a.push_back("-i"); a.push_back(form % 2 ? t : "prog"); c.note(string(s == SIGINT ? "SIGINT" : "SIGTERM") + " after instruction " + std::to_string(at) + " of form " + std::to_string(form) + ": " + PR[k]); Out o = cli(a, "", at, s); c.trace(); c.transitions(at); c.state(mc::hash(o.out, o.code)); string cr = crash(o);
        if (!cr.empty()) c.fail(cr); else if (!o.code) c.fail("exits with success"); else if (o.err.empty()) c.fail("no message"); else if (o.after > 1) c.fail(std::to_string(o.after) + " more instructions executed"); });
    mc::run("sizes of diagrams and outputs", 12 * 6, [&](uint64_t i, mc::Ctx &c) {
        Dig d(i); static const int N[] = { 0, 1, 10, 60, 61, 100, 300, 700, 1500, 3000, 6000, 12000 }; int n = N[d(12)], k = d(6); string src; for (int j = 0; j < n; j++) src += k < 4 ? "x = " + std::to_string(j) + ";\n" : "print('line " + std::to_string(j) + "\\n');\n"; setup(); put("prog", src); vector<string> a; if (k < 4) a.push_back("--diagram-ast"); if (k & 1) { a.push_back("-o"); a.push_back("out"); } if (k & 2) a.push_back("-i"); a.push_back(k & 2 ? src : "prog"); c.note("form " + std::to_string(k) + ", " + std::to_string(n) + " statements"); Out o = cli(a); string want; if (k < 4) { nj_comp q; char *g = nj_diagram(src.c_str(), &q); want = g ? g : ""; free(g); } else for (int j = 0; j < n; j++) want += "line " + std::to_string(j) + "\n";
        string got = (k & 1) && k < 4 ? get("out") : o.out; c.trace(); c.transitions(1); c.state(mc::hash(got)); string cr = crash(o); if (!cr.empty()) c.fail(cr); else if (o.code) c.fail("fails: " + o.err); else if (k >= 4 ? got.compare(0, want.size(), want) != 0 || (!(k & 1) && got != want) : got != want) c.fail("wrong output of " + std::to_string(got.size()) + " bytes instead of " + std::to_string(want.size())); });
    // output that can't be written in full is a failure, wherever the space ends
    mc::run("no room for the output", 4 * 700 + 4 * 40 + 16, [&](uint64_t i, mc::Ctx &c) {
        static const char *S[] = { "x = 1;", "fun f(a, b = 2) { return [a, {k: b}]; } f(1);", "while false: { s = 'text'; break; }", "" }; setup(); bool dev = i >= 4 * 740; int k = i % 4, prof = dev ? (i / 4) % 2 : i >= 4 * 700; string s = S[k]; if (prof && k != 1) return; long L = dev ? -1 : (long)(i / 4) % (prof ? 740 : 700) - (prof ? 700 : 0); vector<string> a = { "-i", prof ? "-p" : "--diagram-ast", "-o", dev ? "/dev/full" : "out", s }; if (prof) a[4] = s + "f(2);";
        c.note(ev(a) + (dev ? "" : "with room for " + std::to_string(L) + " bytes")); Out full = cli({ a[0], a[1], "-o", "out", a[4] }); string all = get("out"); unlink("out"); Out o = cli(a, "", -1, 0, 0, L); string got = dev ? "" : get("out"); unlink("out"); c.trace(); c.state(mc::hash(ev(a), L * 2 + !o.code)); string x = crash(o); bool fits = !dev && !prof && L >= (long)all.size(); if (!x.empty()) c.fail(x); else if (full.code || all.size() < 20) c.fail("fails with room: " + full.err + all); else if (fits ? o.code != 0 || got != all : o.code == 0) c.fail(fits ? "fails with room for all of the output: " + o.err : "reports success, with room for less than the output"); else if (dev && o.err.empty()) c.fail("says nothing"); });
    mc::run("no room for the standard output", 11 * 60, [&](uint64_t i, mc::Ctx &c) {
        Dig d(i); int k = d(11), at = d(60); setup(); string loop = "i = 0; while i < 900: { print('line ', i, '\\n'); i = i + 1; }"; vector<string> a = k == 0 ? vector<string>{ "-i", "print('hi\\n');" } : k == 1 ? vector<string>{ "-i", loop } : k == 2 ? vector<string>{ "-h" } : k == 3 ? vector<string>{ "--diagram-ast", "-i", "x = 1; y = [x, 2];" } : k == 4 ? vector<string>{ "-i", "print('no newline');" } : k == 5 ? vector<string>{ "-a", "-i", asmtext } : k == 6 ? vector<string>{ "good" } : k == 7 ? vector<string>{ "-p", "-i", "fun f() return 1; f();" } : k == 8 ? vector<string>{ "-p", "-o", "out", "-i", "print('hi\\n');" } : k == 9 ? vector<string>{ "-i", "x = 1;" } : vector<string>{ "-i", "print([1, {'k': 2.5}], none, true, string.cat('a', 'b'));" };
        Out full = cli(a); long n = full.out.size(), L = k == 7 ? (at < 20 ? at : 2000 + at) : k == 8 ? (at % 4 == 3 ? 4000 + at : at % 4) : n <= 58 ? at : at < 20 ? at : at < 40 ? n - 30 + at : n * (at - 39) / 22; c.note(ev(a) + "with room for " + std::to_string(L) + " of " + std::to_string(n) + " bytes"); Out o = cli(a, "", -1, 0, 0, L); c.trace(); c.transitions(1); c.state(mc::hash(ev(a), L * 2 + !o.code)); string x = crash(o); bool fits = k == 7 || k == 8 ? L > 1000 : L >= n;
        if (!x.empty()) c.fail(x); else if (full.code && k != 2) c.fail("fails with room: " + full.err); else if (fits ? o.code != full.code || (k != 7 && o.out != full.out) : o.code == 0) c.fail(fits ? "fails with room for all of the output: " + o.err : "reports success, with room for less than the output"); else if (k != 7 && o.out != full.out.substr(0, o.out.size())) c.fail("not the beginning of the output: " + o.out.substr(0, 200)); });
    mc::run("a signal around the end", 4 * 3, [&](uint64_t i, mc::Ctx &c) { Dig d(i); int fs = d(2) + 1, prof = d(2), k = d.v; setup(); c.note("signal " + string(fs == 1 ? "before" : "after") + " the runtime is freed"); vector<string> a; if (prof) { a = { "-p", "-o", "out" }; } a.push_back(k == 1 ? "bad" : k == 2 ? "missing" : "good"); Out o = cli(a, "", -1, 0, fs); c.trace(); c.transitions(1); c.state(mc::hash(o.out, o.code)); string cr = crash(o); if (!cr.empty()) c.fail(cr); else if ((o.code == 0) != (k == 0)) c.fail("exit status " + std::to_string(o.code)); });
    mc::sample("noja -p -o out -i \"print('hi\\n');\"  ->  prints hi, the profile goes to out, status 0");
    int rc = mc::finish(); nftw(W.c_str(), rmone, 16, FTW_DEPTH | FTW_PHYS); return rc;
}
