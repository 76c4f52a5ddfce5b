#include <unistd.h>
#include "lang.hpp"
#include "corpus.hpp"
using std::string; using std::vector; using namespace ref;
// A diagram as a tree of labels
struct T { string l; vector<T> c; };
static string text(const T &t) { string o = "<" + t.l + ">"; if (!t.c.empty()) { o += "("; for (auto &x : t.c) o += text(x); o += ")"; } return o; }
static T leaf(const string &l, vector<T> c = {}) { T t; t.l = l; t.c = c; return t; }
// ---- expected tree, from the reference parser
static T want(Node *n);
static T want_fun(Node *n, const string &nm)
{
    T a = leaf("args"); for (size_t i = n->names.size(); i-- > 0;) { T x = leaf("v:" + n->names[i]); if (n->c3[i]) x.c.push_back(want(n->c3[i])); if (n->c2[i]) x.c.push_back(want(n->c2[i])); a.c.push_back(x); }
    return leaf(nm, { a, want(n->c[0]) });
}
static T want(Node *n)
{
    T t; char b[64];
    switch (n->k) {
    case E_INT: return leaf("v:" + std::to_string(n->i));
    case E_FLOAT: snprintf(b, sizeof b, "%.4e", n->d); return leaf(string("f:") + b);
    case E_STR: case E_ID: return leaf("v:" + n->s);
    case E_NONE: return leaf("v:none"); case E_TRUE: return leaf("v:true"); case E_FALSE: return leaf("v:false");
    case E_LIST: t.l = "List"; break;
    case E_MAP: t.l = "Map"; for (size_t i = 0; i < n->c.size(); i++) t.c.push_back(leaf("Entry", { want(n->c[i]), n->c2[i]->k == E_FUN ? want_fun(n->c2[i], "???") : want(n->c2[i]) })); return t;
    case E_SEL: t.l = "Select"; break;
    case E_ARW: t.l = "->"; break;
    case E_CALL: t.l = "Call"; t.c.push_back(want(n->c[0])); for (size_t i = n->c.size(); i-- > 1;) t.c.push_back(want(n->c[i])); return t; // arguments in the order they are evaluated in
    case E_UN: t.l = n->s == "not" ? "!" : n->s == "?" ? "Nullable Type" : n->s; break;
    case E_BIN: t.l = n->s == "*" ? "&times;" : n->s == "|" ? "Sum Type" : n->s; break;
    case E_FUN: return want_fun(n, "???"); case S_FUN: return want_fun(n, "v:" + n->s);
    case S_EXPR: return want(n->c[0]);
    case S_IF: t.l = n->c.size() > 2 ? "if-else" : "if"; break;
    case S_WHILE: t.l = "while"; break;
    case S_DO: return leaf("do-while", { want(n->c[1]), want(n->c[0]) });
    case S_BLOCK: t.l = "compound"; break;
    case S_BREAK: return leaf("break");
    case S_RET: { t.l = "return"; vector<Node*> l; flatten(n->c[0], l); for (auto x : l) t.c.push_back(want(x)); return t; }
    }
    for (auto c : n->c) t.c.push_back(want(c)); return t;
}
// ---- the diagram: a well-formed DOT file whose edges make a tree rooted at its first node
struct Dot { std::map<string, string> label; std::map<string, vector<string>> kids; std::map<string, int> parents; string first; };
static bool parse_dot(const string &s, Dot &d, string &why)
{
    size_t i = 0; auto ws = [&] { while (i < s.size() && isspace((unsigned char)s[i])) i++; }; auto lit = [&](const char *w) { ws(); size_t n = strlen(w); if (s.compare(i, n, w)) return false; i += n; return true; };
    auto id = [&](string &o) { ws(); size_t b = i; while (i < s.size() && (isalnum((unsigned char)s[i]) || s[i] == '_')) i++; o = s.substr(b, i - b); return i > b; };
    string a, b; if (!lit("digraph")) { why = "no graph"; return false; } id(a); if (!lit("{")) { why = "no body"; return false; }
    for (;;) {
        if (lit("}")) break; if (!id(a)) { why = "no node at byte " + std::to_string(i); return false; }
        if (lit("->")) { if (!id(b)) { why = "edge to nothing"; return false; } d.kids[a].push_back(b); d.parents[b]++; if (!d.label.count(a)) d.label[a] = "(none)"; if (!d.label.count(b)) d.label[b] = "(none)"; }
        else {
            if (!lit("[") || !lit("label") || !lit("=") || !lit("\"")) { why = "no label at byte " + std::to_string(i); return false; }
            string l; for (;;) { if (i >= s.size()) { why = "unfinished label"; return false; } char c = s[i++]; if (c == '"') break; if (c != '\\') { if (c == '\n') { why = "line break in a label"; return false; } l += c; continue; } if (i >= s.size()) { why = "unfinished label"; return false; } c = s[i++]; l += c == 'n' ? '\n' : c == 't' ? '\t' : c == 'r' ? '\r' : c; }
            if (!lit("]")) { why = "unfinished attributes at byte " + std::to_string(i); return false; } if (d.first.empty()) d.first = a; d.label[a] = l;
        }
        if (!lit(";")) { why = "no semicolon at byte " + std::to_string(i); return false; }
    }
    ws(); if (i != s.size()) { why = "text after the graph"; return false; } return true;
}
// compares without building: literals are marked v:/f: on the expected side
static string match(const T &w, const Dot &d, const string &n, const string &path, long &seen)
{
    seen++; const string &l = d.label.at(n); string e = w.l; bool same;
    if (e.compare(0, 2, "v:") == 0 && e.size() >= 2) same = l == e.substr(2);
    else if (e.compare(0, 2, "f:") == 0) { char *x; double g = strtod(l.c_str(), &x), v = strtod(e.c_str() + 2, nullptr); same = *x == 0 && !l.empty() && (g == v || fabs(g - v) <= 2e-4 * fabs(v)); }
    else same = l == e;
    if (!same) return path + " is labelled " + l + " instead of " + e;
    auto it = d.kids.find(n); size_t k = it == d.kids.end() ? 0 : it->second.size(); if (k != w.c.size()) return path + "/" + l + " has " + std::to_string(k) + " children instead of " + std::to_string(w.c.size());
    for (size_t i = 0; i < k; i++) { auto p = d.parents.find(it->second[i]); if (p->second != 1) return "node with " + std::to_string(p->second) + " parents"; string r = match(w.c[i], d, it->second[i], path + "/" + l, seen); if (!r.empty()) return r; }
    return "";
}
static void one(const string &src, mc::Ctx &c, bool must = false)
{
    if (c.failed) return; c.note(show(src)); Pool P; Node *n = nullptr; string why; try { Parser ps(src, P); n = ps.program(); } catch (Err &e) { why = e.why; }
    nj_comp k; size_t live = nj_allocated(); char *r = nj_diagram(src.c_str(), &k); free(r); size_t after = nj_allocated(); if (after != live) { c.fail("leaks " + std::to_string(after - live) + " bytes"); return; } r = nj_diagram(src.c_str(), &k); string o = r ? r : ""; free(r);
    mc::count("diagrams", n != nullptr); if (must && !n) { c.fail("the generator's program doesn't parse: " + why); return; }
    if (!n) { if (k.ok) c.fail("a diagram of a malformed program:\n" + o); else if (!k.err_occurred) c.fail("no diagram and no error"); return; }
    c.trace(); if (!k.ok) { c.fail(string("no diagram: ") + k.msg); return; }
    T w = want(n); c.state(mc::hash(text(w))); Dot d; if (!parse_dot(o, d, why)) { c.fail("not a graph (" + why + "):\n" + o); return; }
    if (d.first.empty() || d.parents.count(d.first)) { c.fail("no root:\n" + o); return; } long seen = 0; why = match(w, d, d.first, "", seen); if (why.empty() && (size_t)seen != d.label.size()) why = std::to_string(d.label.size() - seen) + " nodes too many";
    if (!why.empty()) c.fail(why + "\n" + o.substr(0, 2000)); else c.transitions(seen);
}
static const char *AT[] = { "1", "x", "\"s\"", "2.5", "none", "true", "[]", "{}" }; static const int NA = 8; static int NR = 2;
static const char *OPS[] = { "+", "-", "*", "/", "%", "==", "!=", "<", "<=", ">", ">=", "and", "or", "|", "=" }; static const int NO = 15;
static const char *U1[] = { "(-@)", "(+@)", "(not @)", "(?@)", "[@]", "{k: @}", "{(@): 1}", "@.f", "@()", "@->m()", "@[1]", "x[@]", "f(@)", "[1, @]", "{fun g(a: ?int = @) @ ;}", "{fun g() return @; k: 1}", "-@ + @ * @" }; static const int NU = 17;
static const char *U2[] = { "@[^]", "@(^)", "@->m(^)", "[@, ^]", "{k: @, (^): @}", "@[^, ^]", "(@, ^)" }; static const int NU2 = 7;
static string put(string t, const string &a, const string &b = "") { string o; for (char ch : t) o += ch == '@' ? a : ch == '^' ? b : string(1, ch); return o; }
static uint64_t esize(int d) { if (d == 0) return NA; uint64_t p = esize(d - 1); return p + NU * p + (uint64_t)(NO + NU2) * p * NR * 2; }
static string eat_(int d, uint64_t i)
{
    if (d == 0) return AT[i]; uint64_t p = esize(d - 1); if (i < p) return eat_(d - 1, i); i -= p; if (i < NU * p) return put(U1[i % NU], eat_(d - 1, i / NU)); i -= NU * p;
    Dig g(i); int o = g(NO + NU2); uint64_t e = g(p); int a = g(NR); bool sw = g(2); string l = eat_(d - 1, e), r = AT[a]; if (sw) std::swap(l, r); if (o < NO) return (sw ? l : "(" + l + ")") + " " + OPS[o] + " " + (sw ? "(" + r + ")" : r); return put(U2[o - NO], "(" + l + ")", "(" + r + ")");
}
static const char *S0[] = { "1;", "x = 1;", "break;", "return 1;", "return 1, x, [2];", "a, b = f();", "a, b.c, d[1] = f(x);", "f();", "{}" }; static const int NS0 = 9;
static const char *SN[] = { "{ @ }", "if x: @", "if x: @ else ^", "if x: { @ } else { ^ }", "while x: @", "do @ while x;", "fun f() @", "fun f(a, b: int, c: ?int = 1, d = 2) @", "x = {fun m(self) @};", "{ fun f() @ ^ }", "{ @ ^ }", "if x: ^ else @", "[{fun m(self) @}, {fun n() ^}];" }; static const int NSN = 13;
static uint64_t ssize(int d) { if (d == 0) return NS0; uint64_t p = ssize(d - 1); return p + (uint64_t)NSN * p * 4; }
static string sat(int d, uint64_t i) { if (d == 0) return S0[i]; uint64_t p = ssize(d - 1); if (i < p) return sat(d - 1, i); i -= p; Dig g(i); int k = g(NSN); uint64_t e = g(p); static const int AL[] = { 0, 4, 6, 8 }; return put(SN[k], sat(d - 1, e), S0[AL[g(4)]]); }
static const char *TOKS[] = { "1", "x", "\"s\"", "fun", "f", "(", ")", "{", "}", "[", "]", ",", ";", ":", "=", ".", "->", "return", "if", "else", "+", "?", "|", "not" }; static const int NT = 24;
int main(int argc, char **argv)
{
    mc::init(argc, argv, "P34"); nj_warm(); bool T = mc::thorough(); if (T) NR = NA;
    mc::RULE = "every program of the listed families; state = distinct syntax tree, transition = node compared";
    mc::run("corpus", NCORPUS, [&](uint64_t i, mc::Ctx &c) { one(CORPUS[i], c, true); });
    // a file gives the diagram of its contents, whatever they are, and is released
    const int FS = 4200; static const char *BAD[] = { "", "x = ;", "(", "x = 1", "'unterminated", "fun f( { }", "\n\n  \n", "# nothing", "x = 1; }", "\xff" };
    mc::run("files", NCORPUS + 10 + FS + 4, [&](uint64_t i, mc::Ctx &c) {
        string s, p = "/dev/shm/nj34-" + std::to_string(getpid()); bool write = true; if (i < NCORPUS) s = CORPUS[i]; else if (i < NCORPUS + 10) s = BAD[i - NCORPUS]; else if (i < NCORPUS + 10 + FS) { int n = i - NCORPUS - 10; s = "x = 1;"; s += string(n, ' ') + "y = 2;"; } else write = false;
        if (!write) { int k = i - NCORPUS - 10 - FS; p = k == 0 ? "/nowhere/x.noja" : k == 1 ? "/" : k == 2 ? "" : string(3000, 'x'); } else { FILE *f = fopen(p.c_str(), "wb"); if (!f) { p = "/tmp/nj34-" + std::to_string(getpid()); f = fopen(p.c_str(), "wb"); } fwrite(s.data(), 1, s.size(), f); fclose(f); }
        c.note("file with " + (write ? show(s) : "the name " + p)); nj_comp k1, k2; size_t b = nj_allocated(); char *r1 = nj_diagram_file(p.c_str(), &k1), *r2 = write ? nj_diagram(s.c_str(), &k2) : nullptr; if (write) unlink(p.c_str()); else k2.ok = 0; size_t mid = nj_allocated(); string t1 = r1 ? r1 : "", t2 = r2 ? r2 : ""; size_t own = nj_allocated() - mid; free(r1); free(r2); size_t l = nj_allocated() - b - own; c.trace(); c.transitions(s.size() + 1); c.state(mc::hash(t1));
        if (l) c.fail(std::to_string((long)l) + " bytes leaked"); else if (k1.ok != k2.ok) c.fail(k1.ok ? "draws a file that isn't a program" : string("fails: ") + k1.msg); else if (!k1.ok && !k1.err_occurred) c.fail("fails without reporting an error"); else if (k1.ok && t1 != t2) c.fail("draws something else than for the contents: " + t1); });
    int L = T ? 6 : 4; mc::run("token sequences", nseq(NT, 0, L), [&](uint64_t i, mc::Ctx &c) { string s; for (int k : seq_at(i, NT, 0, L)) s += string(TOKS[k]) + " "; one(s, c); });
    mc::run("token sequences in a function", nseq(NT, 0, L), [&](uint64_t i, mc::Ctx &c) { string s = "x = [1, {fun f(a = "; for (int k : seq_at(i, NT, 0, L)) s += string(TOKS[k]) + " "; one(s + ") return 1, 2;}];", c); });
    static const char *W[] = { "@;", "x = @;", "return @;", "if @: 1;", "while @: @;", "do 1; while @;", "fun f(a: (@) = @) 1;", "f(@).x = 1;" };
    mc::run("expressions", esize(2) * (T ? 8 : 1), [&](uint64_t i, mc::Ctx &c) { Dig g(i); string e = eat_(2, g(esize(2))); one(put(T ? W[g(8)] : W[2], "(" + e + ")"), c, false); });
    mc::run("expressions in statements", esize(1) * 8, [&](uint64_t i, mc::Ctx &c) { Dig g(i); string e = eat_(1, g(esize(1))); one(put(W[g(8)], "(" + e + ")"), c, false); });
    int D = T ? 3 : 2; mc::run("nested statements", ssize(D), [&](uint64_t i, mc::Ctx &c) { one(sat(D, i), c, true); });
    static const char *CH[] = { "a", "\\\"", "\\\\", "\\n", "\\t", "\\r", "'", "%", "%s", "%d", "&", "<", "{", "}", "]", ";", " ", "\xc3\xa9", "N", "l", "//", "#", "\n", "\x01", "\xff", "->", "label" }; int NC = sizeof CH / sizeof *CH, LS = T ? 4 : 3;
    mc::run("strings", nseq(NC, 0, LS), [&](uint64_t i, mc::Ctx &c) { string s; for (int k : seq_at(i, NC, 0, LS)) s += CH[k]; one("x = \"" + s + "\";", c); });
    mc::run("string lengths", 4096, [&](uint64_t i, mc::Ctx &c) { one("x = \"" + string(i, 'a') + "\"; y = 1;", c, i < 4096); });
    mc::run("integers", 64 * 5, [&](uint64_t i, mc::Ctx &c) { Dig g(i); int b = g(64), o = g(5); unsigned long long v = (1ull << b) + o - 2; if (v > INT64_MAX) v = INT64_MAX; one("x = " + std::to_string(v) + "; y = -" + std::to_string(v) + ";", c, true); });
    mc::run("floats", 19 * 19 * 4, [&](uint64_t i, mc::Ctx &c) { Dig g(i); int a = g(19), b = g(19), k = g(4); one("x = " + string(k & 1 ? "9" : "1") + string(a, k & 1 ? '9' : '0') + "." + string(b, k & 2 ? '0' : '9') + "1;", c, true); });
    mc::run("numbers of items", 130 * 9, [&](uint64_t i, mc::Ctx &c) {
        Dig g(i); int n = g(130), k = g(9); auto rep = [&](const string &x, const string &sep) { string o; for (int j = 0; j < n; j++) o += (j ? sep : "") + x; return o; };
        static const char *P[] = { "x = [@];", "f(@);", "return 1, @;", "x[0, @];", "a, @ = f();", "fun f(@) 1;" }; string s = k < 6 ? put(P[k], rep(k == 4 ? "b" : k == 5 ? "a: int = 1" : "1", ", ")) : k == 6 ? rep("1;", " ") : k == 7 ? "x = {" + rep("k: 1", ", ") + "};" : "x = " + rep("1", " + ") + ";"; one(s, c); });
    mc::run("depths", 200 * 10, [&](uint64_t i, mc::Ctx &c) {
        Dig g(i); int n = g(200), k = g(10); auto rep = [&](const string &x) { string o; for (int j = 0; j < n; j++) o += x; return o; };
        static const char *P[10][3] = { { "[", "1", "]" }, { "(", "1", ")" }, { "{k: ", "1", "}" }, { "-", "1", "" }, { "f(", "1", ")" }, { "", "x", ".f" }, { "", "f", "()" }, { "", "x", "->m()" }, { "?", "int", "" }, { "", "x", "[1]" } }; one("x = " + rep(P[k][0]) + P[k][1] + rep(P[k][2]) + ";", c, true); });
    mc::run("depths of statements", 200 * 6, [&](uint64_t i, mc::Ctx &c) { Dig g(i); int n = g(200), k = g(6); static const char *P[6][2] = { { "{", "}" }, { "if x: ", "" }, { "if x: 1; else ", "" }, { "while x: ", "" }, { "do ", " while x;" }, { "fun f() ", "" } }; string a, b; for (int j = 0; j < n; j++) { a += P[k][0]; b += P[k][1]; } one(a + "1;" + b, c, true); });
    mc::sample("return 1, -x;  ->  digraph G { node_1 [label=\"compound\"]; node_2 [label=\"return\"]; node_3 [label=\"1\"]; ... }");
    return mc::finish();
}
