#include "lang.hpp"
#include <algorithm>
#include <map>
#include <ftw.h>
#include <climits>
#include <dirent.h>
using std::string; using std::vector;
static string W;
// the operating system fails with a chosen error number, once
static int g_fail, g_errno; static long g_at; // 1 opening, 2 listing
static bool failing(int k) { if (g_fail != k || g_at-- != 0) return false; g_fail = 0; errno = g_errno; return true; }
extern "C" { FILE *__real_fopen(const char *, const char *); DIR *__real_opendir(const char *); dirent *__real_readdir(DIR *);
FILE *__wrap_fopen(const char *p, const char *m) { return failing(1) ? nullptr : __real_fopen(p, m); }
DIR *__wrap_opendir(const char *p) { return failing(1) ? nullptr : __real_opendir(p); }
dirent *__wrap_readdir(DIR *d) { return failing(2) ? nullptr : __real_readdir(d); } }
static void put(const string &p, const string &t) { FILE *f = fopen(p.c_str(), "wb"); if (!f) { perror(p.c_str()); _exit(3); } fwrite(t.data(), 1, t.size(), f); fclose(f); }
static string get(const string &p) { FILE *f = fopen(p.c_str(), "rb"); if (!f) return "(absent)"; string o; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) o.append(b, n); fclose(f); return o; }
static string hex(const string &s) { string o = "["; char t[8]; for (size_t i = 0; i < s.size(); i++) { snprintf(t, 8, "%s%02X", i ? ", " : "", (unsigned char)s[i]); o += t; } return o + "]"; }
static int rmone(const char *p, const struct stat *, int, struct FTW *) { return remove(p); }
struct Cfg : nj_cfg { Cfg() { memset((nj_cfg *)this, 0, sizeof(nj_cfg)); builtins = NJ_B_NATIVE; } };
static void cd() { string d = W + "/w" + std::to_string(getpid()); mkdir(d.c_str(), 0755); if (chdir(d.c_str())) _exit(3); }
static const char *PATHS[] = { "P", "Q" };
static const int NOP = 11;
struct H { int path = -1, mode = 0; size_t pos = 0; };
struct Sim { // files as sequences of bytes
    string file[2]; bool there[2] = { true, false }; H h[2]; vector<H> dropped; string out; bool gc, dead = false, skip = false; explicit Sim(bool g) : gc(g) { file[0] = "hello"; }
    bool clash(int p, bool w, int self) { (void)self; for (H &x : h) if (x.path == p && (w || x.mode != 0)) return true; for (H &x : dropped) if (x.path == p && (w || x.mode != 0)) return true; return false; }
    void drop(int v) { if (!gc && h[v].path >= 0) dropped.push_back(h[v]); h[v] = H(); }
    void op(int o, string &src) {
        int v = o / NOP, k = o % NOP; string n = v ? "b" : "a"; H &x = h[v];
        if (k < 6) { int p = k / 3, m = k % 3; src += n + ", e = files.openFile('" + PATHS[p] + "', " + (m == 0 ? "files.READ" : m == 1 ? "files.WRITE" : "files.APPEND") + "); print(" + n + " == none, e == none, '\\n');\n"; // (see mode())
            if (clash(p, m != 0, v)) { skip = true; return; }
            if (m == 0 && !there[p]) { drop(v); out += "truefalse\n"; return; } drop(v); if (m == 1) file[p] = ""; there[p] = true; x.path = p; x.mode = m; x.pos = 0; out += "falsetrue\n"; return; }
        if (k == 10) { src += n + " = none;\n"; drop(v); return; }
        string call, bytes; if (k == 6) { bytes = "xy"; call = "files.write(" + n + ", buffer.fromString('xy'))"; } else if (k == 7) { bytes = "uv"; call = "files.write(" + n + ", buffer.fromString('uvw'), 2)"; }
        else { src += "r = buffer.new(6); "; call = "files.read(" + n + ", r, " + (k == 8 ? "2" : "none") + ")"; }
        src += "print(" + call + (k >= 8 ? ", r" : "") + ", '\\n');\n"; if (x.path < 0) { dead = true; return; }
        if (k < 8) { if (x.mode == 0) { out += "0\n"; return; } file[x.path] += bytes; out += std::to_string(bytes.size()) + "\n"; }
        else { string got; if (x.mode == 0) { got = file[x.path].substr(x.pos, k == 8 ? 2 : 6); x.pos += got.size(); } out += std::to_string(got.size()); got.resize(6); out += hex(got) + "\n"; }
    }
};
int main(int argc, char **argv)
{
    mc::init(argc, argv, "P27"); nj_warm(); bool T = mc::thorough(); char dir[] = "/dev/shm/nj27-XXXXXX", dir2[] = "/tmp/nj27-XXXXXX"; if (mkdtemp(dir)) W = dir; else if (mkdtemp(dir2)) W = dir2; else return 2;
    mc::RULE = "every sequence of file operations over two handles and two paths, every combination of sizes and counts, every set of directory entries and interleaving of two readers; state = distinct output and contents";
    auto run = [&](const string &src, const string &want, bool ok, mc::Ctx &c, bool gc = false, long heap = 0) { Cfg g; g.heap = heap; if (gc) g.step = step_collect; Impl r = impl_run(src, nullptr, 0, 0, false, &g); c.trace(); c.transitions(r.steps); c.state(mc::hash(want)); string w = gc ? " (collections after every instruction)" : "";
        if (r.ok != ok) c.fail((ok ? "fails: " : "succeeds ") + r.msg + w + "\n" + r.out.substr(0, 800)); else if (r.out != want) c.fail("expected" + w + "\n" + want.substr(0, 900) + "got\n" + r.out.substr(0, 900)); else if (!ok && !r.occurred) c.fail("no error"); else if (r.leak) c.fail(std::to_string(r.leak) + " bytes leaked"); };
    int D = T ? 5 : 4, N = 2 * NOP;
    mc::run("histories of two handles", ipow(N, 2) * 2, [&](uint64_t i, mc::Ctx &c) {
        Dig d(i); bool gc = d(2); int o0 = d(N), o1 = d(N); vector<vector<int>> work = { { o0, o1 } }; cd();
        while (!work.empty() && !c.failed) {
            vector<int> a = work.back(); work.pop_back(); c.beat(); Sim s(gc); string src = "a = none; b = none;\n"; bool last = true; for (size_t k = 0; k < a.size(); k++) { s.op(a[k], src); if (s.skip) break; if (s.dead) { last = k + 1 == a.size(); break; } } if (s.skip || !last) continue; c.note(src);
            put("P", "hello"); unlink("Q"); run(src, s.out, !s.dead, c, gc); if (c.failed) break; for (int p = 0; p < 2; p++) { string g = get(PATHS[p]), w = s.there[p] ? s.file[p] : "(absent)"; c.state(mc::hash(g)); if (g != w) c.fail(string(PATHS[p]) + " contains \"" + show(g) + "\" instead of \"" + show(w) + "\""); }
            if (!s.dead && (int)a.size() < D) for (int b = 0; b < N; b++) { auto v = a; v.push_back(b); work.push_back(v); } } });
    // counts, sizes and windows
    static const char *CNT[] = { "none", "0", "1", "2", "3", "4", "5", "7", "100", "9223372036854775807", "-1", "-9223372036854775807", "4294967296", "4294967297", "'1'", "1.0" }; const int NCNT = 16;
    mc::run("counts, contents and windows", NCNT * 6ull * 6 * 5 * 5 * 2, [&](uint64_t i, mc::Ctx &c) {
        Dig d(i); int k = d(NCNT), fl = d(6), bl = d(6), so = d(5), sl = d(5); bool wr = d(2); if (so + sl > bl) return; cd(); string content = string("vwxyz").substr(0, fl), o = string("ABCDE").substr(0, bl); put("P", content); long n = k == 0 ? sl : k <= 7 ? atol(CNT[k]) : k >= 10 && k != 12 && k != 13 ? -1 : 1000000; bool ok = n >= 0; if (n > sl) n = sl;
        string src = "o = buffer.fromString('" + o + "'); s = buffer.sliceUp(o, " + std::to_string(so) + ", " + std::to_string(sl) + "); f = files.openFile('P', files." + (wr ? "WRITE" : "READ") + "); print(f == none); n = files." + (wr ? "write" : "read") + "(f, s, " + CNT[k] + "); print(n, o);"; c.note(src + " with P containing " + content);
        string want = "false"; if (ok) { long m = wr ? n : std::min<long>(n, fl); string oo = o; if (!wr) oo.replace(so, m, content.substr(0, m)); want += std::to_string(m) + hex(oo); } run(src, want, ok, c, i % 2); string g = get("P"), w = wr ? ok ? o.substr(so, n) : "" : content; if (!c.failed && g != w) c.fail("P contains " + show(g) + " instead of " + show(w)); });
    // every byte, and sizes around those of stream buffers
    mc::run("contents are kept byte for byte", 256 + 120, [&](uint64_t i, mc::Ctx &c) {
        cd(); string content; long chunk = 1; if (i < 256) content = string("<") + (char)i + ">"; else { static const long SZ[] = { 0, 1, 511, 512, 513, 1023, 1024, 4095, 4096, 4097, 8191, 8192, 8193, 12288, 20000 }, CH[] = { 100, 512, 1000, 4096, 4097, 5000, 8192, 30000 }; Dig d(i - 256); long n = SZ[d(15)]; chunk = CH[d(8)]; for (long k = 0; k < n; k++) content += (char)(k * 7 + k / 251); }
        put("P", content); unlink("Q"); c.note("copies " + std::to_string(content.size()) + " bytes " + std::to_string(chunk) + " at a time (" + std::to_string(i) + ")"); string s = "f = files.openFile('P', files.READ); g = files.openFile('Q', files.WRITE); r = buffer.new(" + std::to_string(chunk) + "); t = 0; n = files.read(f, r, none); while n > 0: { w = files.write(g, r, n); if w != n: error('short'); t = t + n; n = files.read(f, r, none); } print(t);"; run(s, std::to_string(content.size()), true, c); if (!c.failed && get("Q") != content) c.fail("the copy differs"); if (!c.failed && get("P") != content) c.fail("the original changed"); });
    // modes and arguments
    static const char *MODE[] = { "0", "1", "2", "3", "4", "5", "-1", "8", "256", "4294967296", "4294967297", "-9223372036854775807", "none", "'r'", "0.0", "true" };
    static const char *PA[] = { "'P'", "'none'", "'D'", "'P/x'", "'loop'", "''", "1", "none", "string.cat('P', string.chr(0))", "'D/new'", "['P']" };
    mc::run("modes and paths", 16 * 11 * 2, [&](uint64_t i, mc::Ctx &c) {
        Dig d(i); int m = d(16), p = d(11), gc = d(2); cd(); put("P", "old"); if (symlink("loop", "loop")) {} mkdir("D", 0755); unlink("D/new"); unlink("none"); string src = string("f, e = files.openFile(") + PA[p] + ", " + MODE[m] + "); print(f == none, e == none, type(e) == type('s')); if f != none: { r = buffer.new(2); print(files.write(f, buffer.fromString('N')), files.read(f, r), r); }"; c.note(src);
        if (p == 2 && m == 0) return; // up to the C library
        bool okm = m < 4, strp = p != 6 && p != 7 && p != 10, intm = m < 12; bool ok = strp && intm && okm; if (p == 8 && intm && strp && !okm) ok = false; string want; string file = "old"; bool created = false;
        if (p == 8 && intm && !okm) { Impl r = impl_run(src); c.trace(); if (r.ok && r.out != "truefalsetrue") c.fail("opened: " + r.out); return; }
        if (ok) { bool opens = p == 0 || (m != 0 && (p == 1 || p == 9)); if (!opens) want = "truefalsetrue"; else { want = "falsetruefalse"; created = p != 0; if (m == 0) want += "02" + hex("ol"); else { want += "10" + hex(string(2, 0)); file = m == 1 ? "N" : created ? "N" : "oldN"; } } }
        run(src, want, ok, c, gc); if (c.failed) return; string g = get(p == 1 ? "none" : p == 9 ? "D/new" : "P"); if (p == 1 || p == 9) { if (g != (created ? "N" : "(absent)")) c.fail("file is " + g); } else if (g != (p == 0 && ok ? file : "old")) c.fail("P contains " + g); });
    static const char *V[] = { "f", "b", "none", "1", "'s'", "[]", "d", "files", "true", "1.5" }; const int NV = 10; static const char *FN[] = { "read", "write", "nextDirItem", "openDir" };
    mc::run("arguments of every kind", 4ull * nseq(NV, 0, 3), [&](uint64_t i, mc::Ctx &c) {
        Dig d(i); int f = d(4); vector<int> a = seq_at(d.v, NV, 0, 3); cd(); put("P", "abc"); mkdir("E", 0755); string s; for (int k : a) s += (s.empty() ? "" : ", ") + string(V[k]); auto at = [&](size_t k) { return k < a.size() ? a[k] : 2; }; c.note(string(FN[f]) + "(" + s + ")"); bool ok; string want;
        if (f < 2) { ok = at(0) == 0 && at(1) == 1 && (at(2) == 2 || at(2) == 3); if (a.size() > 3) ok = false; if (ok) want = f == 1 ? "0" : at(2) == 3 ? "1" : "2"; } else { int n = at(0); ok = f == 2 ? n == 6 : n == 4; if (a.size() > 1) ok = ok; want = ""; }
        Cfg g; string src = string("f = files.openFile('P', files.READ); b = buffer.new(2); d = files.openDir('E'); x = files.") + FN[f] + "(" + s + "); print(" + (f < 2 ? "x" : f == 3 ? "x == none" : "count(x) > 0") + ");"; if (f == 3) want = "true"; if (f == 2) want = "true"; run(src, ok ? want : "", ok, c, i % 2); });
    // directories
    static const char *NM[] = { "a", "b", "file with spaces", "\xc3\xa9\xe2\x82\xac", ".hidden", "x'y\"z", "0123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789" }; int NN = 7;
    mc::run("listings of directories", (1 << NN) * 3, [&](uint64_t i, mc::Ctx &c) {
        int set = i % (1 << NN), gc = i >> NN; cd(); string D = "L" + std::to_string(i); mkdir(D.c_str(), 0755); vector<string> names = { ".", ".." }; for (int k = 0; k < NN; k++) if (set >> k & 1) { names.push_back(NM[k]); if (k % 2) mkdir((D + "/" + NM[k]).c_str(), 0755); else put(D + "/" + NM[k], "x"); } c.note("lists a directory of " + std::to_string(names.size()) + " entries, set " + std::to_string(set));
        string src = "d = files.openDir('" + D + "'); while true: { n = files.nextDirItem(d); if n == none: break; print(n, '\\n'); } print(files.nextDirItem(d), files.nextDirItem(d));"; Cfg g; if (gc == 1) g.step = step_collect; if (gc == 2) g.heap = 2048; Impl r = impl_run(src, nullptr, 0, 0, false, &g); c.trace(); c.transitions(r.steps); vector<string> got; size_t p = 0, e; while ((e = r.out.find('\n', p)) != string::npos) { got.push_back(r.out.substr(p, e - p)); p = e + 1; } string tail = r.out.substr(p); std::sort(got.begin(), got.end()); std::sort(names.begin(), names.end()); c.state(mc::hash(r.out)); if (!r.ok) c.fail("fails: " + r.msg); else if (got != names || tail != "nonenone") c.fail("lists " + r.out); else if (r.leak) c.fail("leaks"); nftw(D.c_str(), rmone, 8, FTW_DEPTH | FTW_PHYS); });
    int LD = T ? 12 : 9;
    mc::run("interleaved listings", 3ull << LD, [&](uint64_t i, mc::Ctx &c) {
        int kind = i >> LD, gc = i % 7 == 0; cd(); for (const char *D : { "M1", "M2" }) { mkdir(D, 0755); put(string(D) + "/one", ""); put(string(D) + "/two", ""); if (D[1] == '2') put(string(D) + "/three", ""); } const char *D2 = kind == 0 ? "M1" : kind == 1 ? "M2" : "./M2/../M2"; vector<string> o[2]; for (int k = 0; k < 2; k++) { DIR *q = opendir(k ? D2 : "M1"); while (dirent *en = readdir(q)) o[k].push_back(en->d_name); closedir(q); }
        string src = string("a = files.openDir('M1'); b = files.openDir('") + D2 + "');", want; size_t at[2] = { 0, 0 }; for (int k = 0; k < LD; k++) { int w = i >> k & 1; src += string(" print(files.nextDirItem(") + (w ? "b" : "a") + "), ' ');"; want += (at[w] < o[w].size() ? o[w][at[w]++] : string("none")) + " "; } c.note(src); run(src, want, true, c, gc); });
    mc::run("directories which can't be opened", 9, [&](uint64_t i, mc::Ctx &c) { static const char *X[] = { "nothing", "P", "", "loop", "P/x", "D/../nothing", "D", ".", "/" }; cd(); put("P", ""); mkdir("D", 0755); if (symlink("loop", "loop")) {} c.note(X[i]); run(string("print(files.openDir('") + X[i] + "') == none);", i < 6 ? "true" : "false", true, c, true); });
    // the operating system fails for every reason: no handle and a description, and listings that fail don't just end
    mc::run("every reason not to open", 133 * 8, [&](uint64_t i, mc::Ctx &c) {
        Dig d(i); int e = d(133) + 1, k = d(4), gc = d.v; cd(); put("P", "abc"); mkdir("D", 0755); string s = k < 3 ? string("f, e = files.openFile('P', files.") + (k == 0 ? "READ" : k == 1 ? "WRITE" : "APPEND") + "); print(f == none, e != none and count(e) > 0); f, e = files.openFile('P', files.READ); print(f != none, e == none);" : "print(files.openDir('D') == none); d = files.openDir('D'); print(d != none);"; c.note("error " + std::to_string(e) + " in " + s); g_fail = 1; g_errno = e; g_at = 0; run(s, k < 3 ? "truetruetruetrue" : "truetrue", true, c, gc); if (g_fail && !c.failed) c.fail("nothing is opened"); g_fail = 0; if (!c.failed && get("P") != "abc") c.fail("the file is changed"); });
    mc::run("descriptions differ", 1, [&](uint64_t i, mc::Ctx &c) {
        static const int E[] = { EACCES, EISDIR, ENOTDIR, ELOOP, ENAMETOOLONG, ENFILE, ENOENT, EEXIST }; std::map<string, int> seen; for (int e : E) { g_fail = 1; g_errno = e; g_at = 0; Cfg g; string s = "f, e = files.openFile('P', files.READ); print(e);"; c.note("error " + std::to_string(e) + " in " + s); Impl r = impl_run(s, nullptr, 0, 0, false, &g); g_fail = 0; c.trace(); c.state(mc::hash(r.out)); if (!r.ok) c.fail("fails: " + r.msg); else if (seen.count(r.out)) c.fail("error numbers " + std::to_string(seen[r.out]) + " and " + std::to_string(e) + " are both described as " + r.out); seen[r.out] = e; } });
    mc::run("listings that fail", 133 * 6 * 2, [&](uint64_t i, mc::Ctx &c) {
        Dig d(i); int e = d(133) + 1, at = d(6), gc = d.v; cd(); mkdir("E", 0755); for (const char *n : { "E/a", "E/b", "E/c", "E/d" }) put(n, ""); c.note("error " + std::to_string(e) + " after " + std::to_string(at) + " entries"); string want; { DIR *q = opendir("E"); for (int k = 0; k < at; k++) want += string(readdir(q)->d_name) + "\n"; closedir(q); }
        g_fail = 2; g_errno = e; g_at = at; run("d = files.openDir('E'); while true: { n = files.nextDirItem(d); if n == none: break; print(n, '\n'); }", want, false, c, gc); g_fail = 0; });
    // handles are closed when dropped: far more of them than descriptors
    mc::run("dropped handles are closed", 6, [&](uint64_t i, mc::Ctx &c) { cd(); put("P", "abc"); mkdir("D", 0755); static const char *X[] = { "f = files.openFile('P', files.READ);", "f = files.openDir('D');", "f = [files.openFile('P', files.READ), files.openDir('.')];", "f = files.openFile('R', files.APPEND); files.write(f, buffer.fromString('+'));", "fun g() { f = files.openFile('P', files.READ); b = buffer.new(3); return files.read(f, b); } f = g();", "f = {k: files.openDir('.')}; n = files.nextDirItem(f.k);" }; unlink("R"); c.note(X[i]); string src = string("i = 0; while i < 3000: { ") + X[i] + " if " + (i == 1 || i == 4 ? "f" : i == 2 ? "f[0]" : i == 5 ? "f.k" : "f") + " == none: error('no handle'); i = i + 1; } print(i);"; run(src, "3000", true, c, false, 4000); if (!c.failed && i == 3 && get("R") != string(3000, '+')) c.fail("the file has " + std::to_string(get("R").size()) + " bytes instead of 3000"); });
    mc::sample("a = files.openFile('P', files.READ | files.WRITE); files.write(a, buffer.fromString('xy')); a = none;");
    int rc = mc::finish(); nftw(W.c_str(), rmone, 16, FTW_DEPTH | FTW_PHYS); return rc;
}
