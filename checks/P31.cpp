#include "lang.hpp"
using std::string; using std::vector;
static Impl run(const string &s, const string &in = "", bool gc = false, bool trace = false) { nj_cfg g; memset(&g, 0, sizeof g); g.builtins = NJ_B_FULL; g.in = in.data(); g.inlen = in.size(); if (gc) g.step = step_collect; return impl_run(s, nullptr, 0, 0, trace, &g); }
// the lines a program reads: what precedes each line feed, then what is left, then nothing
static vector<string> lines(const string &in, size_t n) { vector<string> v; size_t p = 0; while (v.size() < n) { if (p >= in.size()) { v.push_back(""); continue; } size_t e = in.find('\n', p); if (e == string::npos) e = in.size(); v.push_back(in.substr(p, e - p)); p = e + 1; } return v; }
int main(int argc, char **argv)
{
    mc::init(argc, argv, "P31"); nj_warm(); bool T = mc::thorough();
    mc::RULE = "every input stream and program of the listed families; state = distinct output and outcome";
    auto ok = [&](const string &s, const string &in, const string &want, bool good, mc::Ctx &c, bool gc = false) { if (c.failed) return; c.note(show(s) + "  <-  " + show(in.substr(0, 300))); Impl r = run(s, in, gc); c.trace(); c.transitions(r.steps); c.state(mc::hash(r.out, r.ok)); if (r.ok != good) c.fail((good ? "fails: " : "succeeds ") + r.msg); else if (r.out != want) c.fail("prints " + show(r.out.substr(0, 1500)) + "\ninstead of " + show(want.substr(0, 1500))); else if (!good && (!r.occurred)) c.fail("no error"); else if (r.leak) c.fail(std::to_string(r.leak) + " bytes leaked"); };
    static const string LN[] = { "", "a", "h\xc3\xa9 \xe2\x82\xac", string(254, 'x'), string(255, 'y'), string(256, 'z'), string(510, 'w'), string(511, 'v'), string(1021, 'u') + "\xc3\xa9", "\r", " \t "  }; int NL = 11;
    auto stream = [&](const vector<int> &q, bool nl) { string in; for (size_t k = 0; k < q.size(); k++) in += LN[q[k]] + (k + 1 < q.size() || nl ? "\n" : ""); return in; };
    static const string RD[] = { "x = input(); print('<', x, '>');", "print('<', input(), '>');", "fun f() return input(); print('<', f(), '>');", "m = {l: input()}; print('<', m.l, '>');" };
    int L = T ? 5 : 3;
    mc::run("streams of lines", nseq(NL, 0, L) * 2 * 2, [&](uint64_t i, mc::Ctx &c) { Dig d(i); bool nl = d(2), gc = d(2); auto q = seq_at(d.v, NL, 0, L); string in = stream(q, nl), s, w; size_t n = q.size() + 2; auto l = lines(in, n); for (size_t k = 0; k < n; k++) { s += RD[(i + k) % 4]; w += "<" + l[k] + ">"; } ok(s, in, w, true, c, gc && i % 8 < 4); });
    mc::run("lines kept", nseq(NL, 1, 3), [&](uint64_t i, mc::Ctx &c) { auto q = seq_at(i, NL, 1, 3); string in = stream(q, i % 2), w; auto l = lines(in, q.size() + 1); for (auto &x : l) w += x + "|"; ok("a = []; i = 0; while i < " + std::to_string(l.size()) + ": { append(a, input()); i = i + 1; } i = 0; while i < count(a): { print(a[i], '|'); i = i + 1; }", in, w, true, c, true); });
    mc::run("lengths of lines", (T ? 9000 : 2200) * 3, [&](uint64_t i, mc::Ctx &c) { Dig d(i); int k = d(3), n = d.v; string x(n, 'q'); string in = k == 0 ? x : k == 1 ? x + "\nrest" : "\n" + x + "\n"; auto l = lines(in, 3); ok("print(input(), '|'); print(input(), '|'); print(input(), '|', 1);", in, l[0] + "|" + l[1] + "|" + l[2] + "|1", true, c); });
    // the bytes of a long line, each of them different from its neighbours, whatever the sizes of the buffers it goes through
    mc::run("contents of long lines", (T ? 4000 : 500) * 2, [&](uint64_t i, mc::Ctx &c) { Dig d(i); int form = d(2), n = 1 + d.v * (T ? 17 : 137); string x; for (int k = 0; k < n; k++) x += (form ? k % 3 : k % 41 == 40) ? ' ' : char('!' + (k * 7 + k / 89) % 90); for (char &ch : x) if (ch == '\\') ch = '~'; ok("x = input(); print(x, '|', count(x)); print(input());", x + "\nnext", x + "|" + std::to_string(n) + "next", true, c); });
    mc::run("bytes of lines", 256 * 256, [&](uint64_t i, mc::Ctx &c) { int a = i % 256, b = i / 256; if (a == '\n' || b == '\n') return; string x; x += (char)a; x += (char)b; bool good = ref::utf8(x); ok("x = input(); print(x, '|', input());", x + "\nnext", good ? x + "|next" : "", good, c); });
    mc::run("amounts of input", (T ? 3000 : 600), [&](uint64_t i, mc::Ctx &c) { string in, w; for (uint64_t k = 0; k < i; k++) { in += std::to_string(k * k) + "\n"; w += std::to_string(k * k) + ","; } ok("i = 0; while i < " + std::to_string(i) + ": { print(input(), ','); i = i + 1; }", in, w, true, c); });
    // assertions: the first argument that isn't true decides
    static const string AV[] = { "true", "false", "1 == 1", "1", "none", "'s'", "not true", "[]" }; static const int AK[] = { 1, 0, 1, 2, 2, 2, 0, 2 };
    int A = T ? 6 : 4;
    mc::run("assertions", nseq(8, 0, A), [&](uint64_t i, mc::Ctx &c) { auto q = seq_at(i, 8, 0, A); string a; bool good = true; int first = -1; for (size_t k = 0; k < q.size(); k++) { a += (k ? ", " : "") + AV[q[k]]; if (good && AK[q[k]] != 1) { good = false; first = AK[q[k]]; } } (void)first; ok("print('b'); assert(" + a + "); print('a');", "", good ? "ba" : "b", good, c, i % 5 == 0); });
    mc::run("assertions in context", 2 * 2 * 5 * 8, [&](uint64_t i, mc::Ctx &c) { Dig d(i); bool p = d(2), q = d(2); int k = d(5), n = d(8); string P = p ? "true" : "false", Q = q ? "true" : "false"; bool g = p && q; static const char *W[] = { "assert(@, ^);", "fun f(a, b) { assert(a); assert(b); } f(@, ^);", "i = 0; while i < 3: { assert(@ and ^); i = i + 1; }", "if not (@ and ^): assert(false);", "fun f(a) { if a: { assert(^); } else error('no'); return 1; } x = [f(@)];" }; string s; for (char ch : string(W[k])) s += ch == '@' ? P : ch == '^' ? Q : string(1, ch); ok(string(n, ' ') + "print(1);" + s + "print(2);", "", g ? "12" : "1", g, c); });
    mc::run("assertions of many values", 13 * 14 * 5, [&](uint64_t i, mc::Ctx &c) { Dig d(i); int n = d(13) + 1, at = d(14), k = d(5); static const char *B[] = { "false", "none", "1", "t == 2", "true" }; string a; for (int j = 0; j < n; j++) a += string(j ? ", " : "") + (j == at ? B[k] : j % 2 ? "true" : "t == 1"); bool good = at >= n || k == 4; ok("t = 1; print('b'); assert(" + a + "); print('a');", "", good ? "ba" : "b", good, c, k == 0); });
    // errors carry their message, whole
    static const string CH[] = { "a", " ", "%", "%s", "%n", "%d", "\\n", "\\t", "\\\\", "\\'", "\xc3\xa9", "\xf0\x9f\x98\x80", "\"", "{", "Error: " }; static const string CV[] = { "a", " ", "%", "%s", "%n", "%d", "\n", "\t", "\\", "'", "\xc3\xa9", "\xf0\x9f\x98\x80", "\"", "{", "Error: " };
    auto err = [&](const string &s, const string &want, const string &out, mc::Ctx &c) { if (c.failed) return; c.note(show(s.substr(0, 300))); Impl r = run(s); c.trace(); c.transitions(r.steps); c.state(mc::hash(r.msg)); if (r.ok) c.fail("succeeds"); else if (r.out != out) c.fail("prints " + r.out); else if (r.msg.find(want) == string::npos) c.fail("reports " + show(r.msg) + "\ninstead of " + show(want)); };
    int M = T ? 4 : 3;
    mc::run("messages", nseq(15, 0, M), [&](uint64_t i, mc::Ctx &c) { string a, w; for (int k : seq_at(i, 15, 0, M)) { a += CH[k]; w += CV[k]; } err("print('b'); error('" + a + "'); print('a');", w, "b", c); });
    mc::run("lengths of messages", 4000, [&](uint64_t i, mc::Ctx &c) { string x(i, 'm'); if (i) x[i - 1] = '!'; err("error('" + x + "');", x, "", c); });
    mc::run("long messages", 40, [&](uint64_t i, mc::Ctx &c) { static const int N[] = { 4095, 4096, 4097, 8191, 8192, 8193, 10000, 16383, 16384, 16385, 32767, 32768, 50000, 65534, 65535, 65536, 65537, 131072, 200000, 300001 }; int n = N[i % 20]; string x = "0123456789abcdefg\xc3\xa9"; while ((int)x.size() < n * 2) x += x; bool f = i >= 20; x = x.substr(0, n / 19 * 19); c.beat(); string src = "s = '0123456789abcdefg\xc3\xa9'; while count(s) < " + std::to_string(n * 2) + ": s = string.cat(s, s); " + (f ? "fun f(m) { error(m); } f(" : "error(") + "string.slice(s, 0, " + std::to_string(n / 19 * 19) + "));"; c.note(src); nj_cfg g; memset(&g, 0, sizeof g); g.builtins = NJ_B_FULL; g.heap = 1 << 24; Impl r = impl_run(src, nullptr, 0, 0, false, &g); c.trace(); c.transitions(r.steps); c.state(mc::hash(x)); unsigned long h = 5381; for (unsigned char b : x) h = h * 33 ^ b; if (r.ok) c.fail("succeeds"); else if (r.msglen != x.size() || r.msghash != h) c.fail("reports " + std::to_string(r.msglen) + " bytes, or others: " + r.msg.substr(0, 300)); });
    mc::run("errors in context", 6 * 4, [&](uint64_t i, mc::Ctx &c) { Dig d(i); int k = d(6), n = d(4); static const char *W[] = { "error(m);", "fun f() { error(m); } f();", "fun f(n) { if n == 0: error(m); f(n - 1); } f(5);", "x = [1, {k: error(m)}];", "while true: error(m);", "fun f(e) { e(m); } f(error);" }; static const char *MS[] = { "'boom'", "string.cat('bo', 'om')", "toString('boom')", "['boom'][0]" }; err(string("m = ") + MS[n] + "; print('x'); " + W[k] + " print('y');", "boom", "x", c); });
    static const char *NS[] = { "1", "none", "true", "1.5", "[]", "{}", "['s']", "error", "int", "newBuffer(2)" };
    mc::run("errors of other values", 10 * 3, [&](uint64_t i, mc::Ctx &c) { Dig d(i); string v = NS[d(10)]; int n = d(3); ok("print(1); error(" + (n == 0 ? v : n == 1 ? v + ", 'x'" : "") + "); print(2);", "", "1", false, c); });
    mc::run("arguments of input", 10 * 3, [&](uint64_t i, mc::Ctx &c) { Dig d(i); string v = NS[d(10)]; int n = d(3); string a; for (int k = 0; k < n; k++) a += (k ? ", " : "") + v; Impl r = run("print(1); x = input(" + a + "); print(x);", "hello\n"); Impl p = run("fun f() return 'hello'; print(1); x = f(" + a + "); print(x);"); c.note(a); c.trace(); c.transitions(r.steps); if (r.ok != p.ok || r.out != p.out) c.fail("input(" + a + "): " + r.out + " " + r.msg); });
    mc::sample("input streams like \"a\\n\\n<511 bytes>\" read with one input() more than there are lines; error('%s%n') reports %s%n");
    return mc::finish();
}
