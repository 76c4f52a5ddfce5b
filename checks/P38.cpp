#include "lang.hpp"
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
using std::string; using std::vector;
extern "C" { int nj_embedder_main(int, char **); extern const unsigned char start_noja[]; }
static string D;
static void put(const string &p, const string &s) { FILE *f = fopen((D + "/" + p).c_str(), "wb"); fwrite(s.data(), 1, s.size(), f); fclose(f); }
static bool get(const string &p, string &s) { FILE *f = fopen(p.c_str(), "rb"); if (!f) return false; s.clear(); char t[1 << 16]; size_t n; while ((n = fread(t, 1, sizeof t, f))) s.append(t, n); fclose(f); return true; }
// The text of an array definition in C, read the way a compiler reads it
struct Arr { bool ok = false; string name, bytes, why; };
static Arr parse(const string &t)
{
    Arr a; vector<string> tok; size_t i = 0;
    while (i < t.size()) {
        if (isspace((unsigned char)t[i])) { i++; continue; }
        if (t.compare(i, 2, "/*") == 0) { size_t e = t.find("*/", i + 2); if (e == string::npos) { a.why = "unterminated comment"; return a; } i = e + 2; continue; }
        if (t.compare(i, 2, "//") == 0) { while (i < t.size() && t[i] != '\n') i++; continue; }
        if (t[i] == '#') { while (i < t.size() && t[i] != '\n') i++; continue; }
        if (isalnum((unsigned char)t[i]) || t[i] == '_') { size_t e = i; while (e < t.size() && (isalnum((unsigned char)t[e]) || t[e] == '_')) e++; tok.push_back(t.substr(i, e - i)); i = e; continue; }
        if (t[i] == '\'') { size_t e = i + 1; while (e < t.size() && t[e] != '\'') e += t[e] == '\\' ? 2 : 1; tok.push_back(t.substr(i, e + 1 - i)); i = e + 1; continue; }
        tok.push_back(string(1, t[i++]));
    }
    size_t k = 0; vector<string> decl; while (k < tok.size() && tok[k] != "=") decl.push_back(tok[k++]);
    long dim = -1; size_t b = 0; while (b < decl.size() && decl[b] != "[") { if (decl[b] == "char" || decl[b] == "uint8_t") a.ok = true; b++; } if (!a.ok || b == 0 || b >= decl.size()) { a.ok = false; a.why = "not an array of bytes"; return a; } a.ok = false; a.name = decl[b - 1]; if (decl[b + 1] != "]") dim = strtol(decl[b + 1].c_str(), nullptr, 0);
    if (k + 1 >= tok.size() || tok[k + 1] != "{") { a.why = "no initializer"; return a; } k += 2;
    for (bool need = true; k < tok.size() && tok[k] != "}"; need = !need, k++) {
        if (!need) { if (tok[k] != ",") { a.why = "no comma before " + tok[k]; return a; } continue; }
        char *e; errno = 0; long v = strtol(tok[k].c_str(), &e, 0); if (*e || errno || v < 0 || v > 255) { a.why = "not a byte: " + tok[k]; return a; } a.bytes += (char)v;
    }
    if (k + 1 >= tok.size() || tok[k + 1] != ";") { a.why = "the definition isn't terminated"; return a; } if (k + 2 != tok.size()) { a.why = "more follows the definition"; return a; }
    if (dim >= 0) a.bytes.resize(dim); a.ok = true; return a;
}
static int tool(vector<string> a) { vector<char *> v; a.insert(a.begin(), "embedder"); for (auto &s : a) v.push_back((char *)s.c_str()); v.push_back(nullptr); return nj_embedder_main(a.size(), v.data()) & 255; }
// in a process of its own, which may abort
static int alone(const vector<string> &a) { fflush(nullptr); pid_t p = fork(); if (!p) { int n = open("/dev/null", O_WRONLY); dup2(n, 2); dup2(n, 1); signal(SIGABRT, SIG_DFL); int r = tool(a); fflush(nullptr); _exit(r); } int st; waitpid(p, &st, 0); return WIFEXITED(st) ? WEXITSTATUS(st) : 256 + WTERMSIG(st); }
static void embeds(const string &bytes, mc::Ctx &c, const string &name = "start_noja")
{
    if (c.failed) return; string P = std::to_string(getpid()), in = D + "/in" + P, out = D + "/out" + P + ".c"; put("in" + P, bytes); int rc = tool({ in, name, out }); string t; bool have = get(out, t); unlink(in.c_str()); unlink(out.c_str()); c.trace(); c.transitions(bytes.size() + 1); c.state(mc::hash(t));
    if (rc) { c.fail("ends with status " + std::to_string(rc)); return; } if (!have) { c.fail("writes nothing"); return; } Arr a = parse(t); if (!a.ok) { c.fail("the output isn't the definition of an array: " + a.why); return; }
    if (a.name != name) c.fail("defines " + a.name); else if (a.bytes.size() != bytes.size() + 1) c.fail("embeds " + std::to_string((long)a.bytes.size() - 1) + " bytes of " + std::to_string(bytes.size())); else if (a.bytes.back()) c.fail("no zero follows the contents"); else if (a.bytes.compare(0, bytes.size(), bytes)) { size_t k = 0; while (a.bytes[k] == bytes[k]) k++; c.fail("byte " + std::to_string(k) + " is " + std::to_string((unsigned char)a.bytes[k]) + " instead of " + std::to_string((unsigned char)bytes[k])); }
}
int main(int argc, char **argv)
{
    mc::init(argc, argv, "P38"); bool T = mc::thorough(); char d1[] = "/dev/shm/nj38-XXXXXX", d2[] = "/tmp/nj38-XXXXXX"; if (mkdtemp(d1)) D = d1; else if (mkdtemp(d2)) D = d2; else return 2;
    mc::RULE = "files of every length of a range with every content of the listed families, every pair of bytes, every kind of argument and of failing file; state = distinct output";
    mc::run("every length", T ? 9000 : 3200, [&](uint64_t i, mc::Ctx &c) { c.note(std::to_string(i) + " bytes"); static const int M[] = { 1, 7, 0, 255 }; for (int k = 0; k < 4; k++) { string s; for (uint64_t j = 0; j < i; j++) s += (char)(j * M[k] + i * 13 + k * 101 + j / 251); embeds(s, c); } });
    mc::run("every byte at every place", 256, [&](uint64_t i, mc::Ctx &c) { c.note("byte " + std::to_string(i)); for (int n = 1; n <= 34; n++) for (int at = 0; at < n; at++) { string s(n, (char)(i ^ 0x55)); s[at] = (char)i; embeds(s, c); } });
    mc::run("every pair of bytes", 256, [&](uint64_t i, mc::Ctx &c) { c.note("pairs that begin with " + std::to_string(i)); string all; for (int j = 0; j < 256; j++) { embeds(string{ (char)i, (char)j }, c); all += (char)i; all += (char)j; } embeds(all, c); });
    mc::run("every byte before and after the end of a chunk", 256 * 5, [&](uint64_t i, mc::Ctx &c) { static const int B[] = { 512, 1024, 2048, 4096, 8192 }; int n = B[i / 256]; c.note("byte " + std::to_string(i % 256) + " around " + std::to_string(n)); for (int k = -2; k <= 2; k++) for (int more = 0; more < 3; more++) { string s(n + k, 'x'); if (!s.empty()) s.back() = (char)(i % 256); if (n + k < n) s.resize(n, (char)(i % 256)); s.append(more, (char)(i % 256)); embeds(s, c); } });
    mc::run("large files", T ? 24 : 12, [&](uint64_t i, mc::Ctx &c) { static const long S[] = { 65535, 65536, 65537, 100000 }; long n = S[i % 4] * (1 + i / 4); c.note(std::to_string(n) + " bytes"); string s; for (long j = 0; j < n; j++) s += (char)(j * 31 + j / 256); embeds(s, c); });
    static const char *NM[] = { "a", "start_noja", "_", "x9", "a_name_that_is_considerably_longer_than_the_ones_that_are_commonly_used_in_programs_and_longer_than_a_line_of_80_columns", "A__b" };
    mc::run("names", 6 * 20, [&](uint64_t i, mc::Ctx &c) { c.note(NM[i % 6]); embeds(string(i / 6, 'q'), c, NM[i % 6]); });
    mc::run("arguments and files that fail", 12, [&](uint64_t i, mc::Ctx &c) {
        string P = D + "/e" + std::to_string(getpid()); mkdir(P.c_str(), 0755); string in = P + "/in", out = P + "/out.c", t; { FILE *f = fopen(in.c_str(), "wb"); for (int k = 0; k < 40000; k++) fputc('a' + k % 26, f); fclose(f); } if (chdir(P.c_str())) return; unlink("out.c"); unlink("output.c"); int rc, want = 1; vector<string> a;
        switch (i) { case 0: a = {}; break; case 1: a = { in }; break; case 2: a = { P + "/missing", "v", out }; break; case 3: a = { in, "v", P + "/no/out.c" }; break; case 4: a = { in, "v", P }; break; case 5: a = { in, "v", "/dev/full" }; break; case 6: a = { P, "v", out }; break; case 7: a = { in, "v" }; want = 0; out = P + "/output.c"; break; case 8: a = { in, "v", "out.c" }; want = 0; break; case 9: { FILE *f = fopen(in.c_str(), "wb"); fputs("tiny", f); fclose(f); a = { in, "v", "/dev/full" }; break; } case 10: { FILE *f = fopen(out.c_str(), "wb"); for (int k = 0; k < 400000; k++) fputc('#', f); fclose(f); a = { in, "v", out }; want = 0; break; } case 11: { FILE *f = fopen(in.c_str(), "wb"); fclose(f); a = { in, "v", out }; want = 0; } }
        c.note("case " + std::to_string(i)); rc = alone(a); c.trace(); c.transitions(1); bool have = get(out, t); string src; get(in, src); c.state(mc::hash(t, i * 2 + !rc)); if (!!rc != want) c.fail(want ? "reports success" : "ends with status " + std::to_string(rc)); else if (!want) { Arr r = parse(t); if (!have) c.fail("writes nothing"); else if (!r.ok || r.bytes != src + string(1, 0)) c.fail("the output doesn't hold the file's contents: " + r.why); }
        unlink(in.c_str()); unlink((P + "/out.c").c_str()); unlink((P + "/output.c").c_str()); if (chdir("/")) return; rmdir(P.c_str()); });
    mc::run("the prelude that is embedded is the one of the tree", 1, [&](uint64_t i, mc::Ctx &c) { string want; const char *R = getenv("NOJA_REPO"); c.note("start.noja"); if (!get(string(R ? R : "/repo") + "/src/lib/builtins/start.noja", want)) { c.fail("no start.noja"); return; } c.trace(); c.transitions(1); c.state(mc::hash(want)); if (strlen((const char *)start_noja) != want.find('\0') && strlen((const char *)start_noja) != want.size()) c.fail("its length is " + std::to_string(strlen((const char *)start_noja))); else if (memcmp(start_noja, want.data(), strlen((const char *)start_noja))) c.fail("its bytes differ"); });
    mc::sample("embedder in start_noja out.c with a file of 1024 bytes that ends with byte 255");
    int r = mc::finish(); rmdir(D.c_str()); return r;
}
