// The example programs, run on every small input, against the same algorithms written in C++
#include "lang.hpp"
#include <cmath>
#include <functional>
using std::string; using std::vector;
static string EX;
struct Abort {};
static int every(void *ud, long n) { return n % (long)(intptr_t)ud == 0 ? NJ_COLLECT : NJ_CONTINUE; }
static void run(const string &src, const string &want, bool ok, mc::Ctx &c, int gc)
{
    if (c.failed) return; c.note(show(src) + (gc ? " with a collection after every " + std::to_string(gc) + " instructions" : "")); nj_cfg g; memset(&g, 0, sizeof g); g.builtins = NJ_B_FULL; g.no_natives = 1; g.heap = 1500000; g.max_steps = 30000000; if (gc) { g.step = every; g.step_ud = (void *)(intptr_t)gc; }
    Impl r = impl_run(src, nullptr, 0, NJ_B_FULL, false, &g); c.trace(); c.transitions(r.steps); c.state(mc::hash(want)); c.beat();
    if (ok != r.ok) c.fail(string(ok ? "fails: " + r.msg : "succeeds") + " having printed " + show(r.out)); else if (r.out != want) c.fail("prints " + show(r.out) + "\ninstead of " + show(want)); else if (r.leak) c.fail("leaks " + std::to_string(r.leak) + " bytes");
}
static string q(const string &s) { string o = "\""; for (char ch : s) if (ch == '"' || ch == '\\') { o += '\\'; o += ch; } else if (ch == '\n') o += "\\n"; else if (ch == '\r') o += "\\r"; else if (ch == '\t') o += "\\t"; else o += ch; return o + "\""; }
static string flt(double d) { char b[400]; snprintf(b, sizeof b, "%2.2f", d); return b; }
// a value as the examples build them, printed
typedef vector<std::pair<string, string>> Map;
static void put(Map &m, const string &k, const string &v) { for (auto &e : m) if (e.first == k) { e.second = v; return; } m.push_back({ k, v }); }
static string str(const Map &m) { string o = "{"; for (size_t i = 0; i < m.size(); i++) o += (i ? ", " : "") + m[i].first + ": " + m[i].second; return o + "}"; }
static string str(const vector<string> &l) { string o = "["; for (size_t i = 0; i < l.size(); i++) o += (i ? ", " : "") + l[i]; return o + "]"; }
// examples/scan.noja
struct Scan {
    string s; int i = 0;
    int hint(int k) { return i + k < (int)s.size() ? (unsigned char)s[i + k] : -1; } int cur() { return hint(0); } int consume(int n = 1) { i = std::min<int>(i + n, s.size()); return cur(); }
    int spaces() { for (;;) { int c = cur(); if (c < 0) throw Abort(); if (c != ' ' && c != '\t' && c != '\n') return c; consume(); } }
};
static bool dig(int c) { return c >= '0' && c <= '9'; } static bool alpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
struct Err { string m; };
// examples/json.noja
struct Json : Scan {
    int seen = 0; struct V { string t; bool none = false, isstr = false; };
    V value(int d)
    {
        if (d > 4) throw Abort(); // the limit on nested calls
        int c = spaces(); V v; if (c == '"') { v.isstr = true; c = consume(); while (c != '"' && c >= 0) { v.t += (char)c; c = consume(); } if (c < 0) throw Err{ "Source ended inside a string literal" }; consume(); return v; }
        if (c == '{') { consume(); Map m; vector<bool> nul; c = spaces(); if (c != '}') for (;;) { V k = value(d + 1); if (!k.isstr) throw Err{ "Object key isn't a string" }; c = spaces(); if (c != ':') throw Err{ "Missing ':' separator after key" }; consume(); V x = value(d + 1); size_t j = 0; while (j < m.size() && m[j].first != k.t) j++; if (j < m.size() && !nul[j]) throw Err{ "Duplicate key in object" }; if (j == m.size()) { m.push_back({ k.t, x.t }); nul.push_back(x.none); } else { m[j].second = x.t; nul[j] = x.none; } c = spaces(); if (c == '}') break; if (c != ',') throw Err{ "Invalid character where either ',' or '}' were expected" }; consume(); } consume(); v.t = str(m); return v; }
        if (c == '[') { consume(); vector<string> l; c = spaces(); if (c != ']') for (;;) { l.push_back(value(d + 1).t); c = spaces(); if (c == ']') break; if (c != ',') throw Err{ "Invalid character where either ',' or ']' were expected" }; consume(); } consume(); v.t = str(l); return v; }
        const char *w = c == 'f' ? "false" : c == 't' ? "true" : c == 'n' ? "null" : nullptr;
        if (w) { c = consume(); for (int k = 1; w[k]; k++) { if (c != w[k]) throw Err{ "Invalid character after '" + string(w, k) + "'" }; c = consume(); } v.none = *w == 'n'; v.t = v.none ? "none" : w; return v; }
        if (c == '+' || c == '-' || dig(c)) { int sign = 1; if (!dig(c)) { sign = c == '-' ? -1 : 1; c = consume(); if (!dig(c)) throw Err{ "Invalid character after +/-" }; } double t = 0; do { t = t * 10 + (c - '0'); c = consume(); } while (dig(c)); if (c == '.' && dig(hint(1))) { c = consume(); double p = 1; do { p = p / 10; t = t + p * (c - '0'); c = consume(); } while (dig(c)); } v.t = flt(sign * t); return v; }
        throw Err{ "Invalid character where a value was expected" };
    }
};
// examples/http_server/parse.noja
static bool unres(int c) { return alpha(c) || dig(c) || c == '-' || c == '.' || c == '_' || c == '~'; } static bool sub(int c) { return c > 0 && strchr("!$&'()*+,;=", c); } static bool pchar(int c) { return unres(c) || sub(c) || c == ':' || c == '@'; }
struct Http : Scan {
    string path() { string p; int c = cur(); if (c == '/') { p = "/"; c = consume(); } else if (c < 0 || !pchar(c)) throw Err{ "Invalid character in place of path" }; while (c >= 0 && pchar(c)) { do { p += (char)c; c = consume(); } while (c >= 0 && pchar(c)); if (c != '/') break; p += '/'; c = consume(); } return p; }
    string head()
    {
        string method, schema = "none", host = "none", pa = "none", query = "none", frag = "none"; int c = cur(); if (!(c >= 'A' && c <= 'Z')) throw Err{ "Missing method" }; do { method += (char)c; c = consume(); } while (c >= 'A' && c <= 'Z'); if (c != ' ') throw Err{ "Missing space after method" }; consume();
        if (alpha(cur())) { int st = i; schema = ""; c = cur(); do { schema += (char)c; c = consume(); } while (alpha(c) || dig(c) || c == '+' || c == '-' || c == '.'); if (c == ':') consume(); else { schema = "none"; i = st; } }
        if (cur() == '/' && hint(1) == '/') { consume(2); c = cur(); if (c < 0) throw Err{ "Missing host" }; if (!unres(c) && !sub(c)) throw Err{ "Invalid character in place of host" }; string name, port = "none"; do { name += (char)c; c = consume(); } while (unres(c) || sub(c)); if (c == ':' && dig(hint(1))) { c = consume(); long n = 0; do { n = n * 10 + c - '0'; c = consume(); } while (dig(c)); port = std::to_string(n); } host = "{name: " + name + ", port: " + port + "}"; if (cur() == '/') pa = path(); }
        else { c = cur(); if (c < 0 || c == '?' || c == '#') throw Err{ "Missing path" }; pa = path(); }
        if (cur() == '?') { query = ""; while (pchar(c = consume()) || c == '/' || c == '?') query += (char)c; } if (cur() == '#') { frag = ""; while (pchar(c = consume()) || c == '/') frag += (char)c; }
        if (cur() != ' ') throw Err{ "Missing space after URL" }; consume();
        if (hint(0) != 'H' || hint(1) != 'T' || hint(2) != 'T' || hint(3) != 'P' || hint(4) != '/' || !dig(hint(5))) throw Err{ "Invalid version token" }; int major = consume(5) - '0', minor = 0; if (hint(1) == '.' && dig(hint(2))) minor = consume(2) - '0'; consume();
        Map hd; if (hint(0) == '\r' && hint(1) == '\n') { consume(2); while ((c = cur()) >= 0 && (c != '\r' || hint(1) != '\n')) { string n, b; do { n += (char)c; c = consume(); } while (c != ':' && c >= 0); if (c < 0) throw Err{ "Invalid header (missing \":\" after name)" }; consume(); c = spaces(); do { b += (char)c; c = consume(); } while (c != '\r' && c >= 0); ::put(hd, n, b); if (c == '\r') { if (hint(1) != '\n') throw Err{ "Missing \\n after \\r in header body" }; consume(2); } } if (c >= 0) consume(2); }
        return "{method: " + method + ", url: {host: " + host + ", path: " + pa + ", query: " + query + ", schema: " + schema + ", fragment: " + frag + "}, version: {major: " + std::to_string(major) + ", minor: " + std::to_string(minor) + "}, headers: " + str(hd) + ", body: none}|none|" + std::to_string(i);
    }
};
// examples/http_server/urlencoded.noja, without escapes
static string urlenc(const string &s) { size_t i = 0, n = s.size(); Map m; auto tok = [&] { string t; while (i < n && s[i] != '=' && s[i] != '&') { t += s[i] == '+' ? ' ' : s[i]; i++; } return t; }; while (i < n) { string k = tok(), v = "none"; if (i < n && s[i] == '=') { i++; v = tok(); } put(m, k, v); if (i < n && s[i] == '&') i++; } return str(m); }
// examples/http_server/cookie.noja
static string cookies(const string &s)
{
    size_t i = 0, n = s.size(); Map m; auto token = [&](char ch) { return (signed char)ch >= 32 && ch != 127 && !strchr("()<>@,;:\\\"/?[]= {}\t", ch); }; auto octet = [](unsigned char c) { return c == 33 || (c >= 35 && c <= 43) || (c >= 45 && c <= 58) || (c >= 60 && c <= 91) || (c >= 93 && c <= 126); };
    while (i < n) { while (i < n && s[i] == ' ') i++; string k, v; while (i < n && token(s[i])) k += s[i++]; if (i == n || s[i] != '=') throw Err{ "Missing \"=\" after name" }; i++; bool dq = i < n && s[i] == '"'; if (dq) i++; if (i == n || !octet(s[i])) throw Err{ "Missing value" }; while (i < n && octet(s[i])) v += s[i++]; if (dq) { if (i == n || s[i] != '"') throw Err{ "Missing closing double quote" }; i++; } while (i < n && s[i] == ' ') i++; if (i < n && s[i] == ';') i++; put(m, k, v); }
    return str(m);
}
int main(int argc, char **argv)
{
    mc::init(argc, argv, "P37"); nj_warm(); bool T = mc::thorough(); const char *R = getenv("NOJA_REPO"); EX = string(R ? R : "/repo") + "/examples/";
    mc::RULE = "every small input of the example programs: lists of few items, token sequences, operation sequences, ranges of numbers, each also with periodic collections, against the same algorithms in C++";
    static const int GC[] = { 0, 1, 7, 61 };
    // runs f over many inputs in one program; those that end the program are run on their own
    struct In { string text, want; bool dies; };
    auto batch = [&](const string &pre, const string &call, const vector<In> &ins, mc::Ctx &c, int gc, size_t per = 40) {
        for (size_t a = 0; a < ins.size();) { string l, want; size_t n = 0; for (; a < ins.size() && n < per; a++) { if (ins[a].dies) { run(pre + "x = " + ins[a].text + "; " + call + " print('after');", "", false, c, gc); continue; } l += (n ? ", " : "") + ins[a].text; want += ins[a].want + "\n"; n++; } if (n) run(pre + "l = [" + l + "]; k = 0; while k < count(l): { x = l[k]; " + call + " print('\\n'); k = k + 1; }", want, true, c, gc); if (c.failed) return; } };
    auto guarded = [](const string &text, const std::function<string()> &f) { In i; i.text = text; i.dies = false; try { i.want = f(); } catch (Err &e) { i.want = "none|" + e.m; } catch (Abort &) { i.dies = true; } return i; };
    // bubble sort
    int SL = T ? 6 : 5; static const char *IT[] = { "0", "1", "1.0", "-3", "2.5" }; static const double IV[] = { 0, 1, 1, -3, 2.5 }; static const char *IP[] = { "0", "1", "1.00", "-3", "2.50" };
    mc::run("sorting lists", (nseq(5, 0, SL) + 99) / 100 * 4, [&](uint64_t i, mc::Ctx &c) {
        uint64_t g = i % 4, from = i / 4 * 100; bool desc = g & 1; vector<In> ins; for (uint64_t k = from; k < from + 100 && k < nseq(5, 0, SL); k++) { auto v = seq_at(k, 5, 0, SL); string t; for (int x : v) t += string(t.empty() ? "" : ", ") + IT[x]; vector<int> w = v; bool sw; do { sw = false; for (size_t j = 0; j + 1 < w.size() && !sw; j++) if (desc ? IV[w[j + 1]] > IV[w[j]] : IV[w[j + 1]] < IV[w[j]]) { std::swap(w[j], w[j + 1]); sw = true; } } while (sw); vector<string> o; for (int x : w) o.push_back(IP[x]); ins.push_back({ "[" + t + "]", str(o), false }); }
        string pre = "m = import(" + q(EX + "algorithms/bubble_sort.noja") + "); print('\\n'); fun more(a, b) return a > b;\n"; string want; for (auto &x : ins) want += x.want + "\n";
        string src = pre + "l = [];\n"; for (auto &x : ins) src += "l[count(l)] = " + x.text + ";\n"; src += "k = 0; while k < count(l): { s = count(l[k]); print(m.bubbleSort(l[k]" + string(desc ? ", more" : "") + "), '\\n'); if count(l[k]) != s: error('changed'); k = k + 1; }"; run(src, "[-2, 1, 2, 3, 6]\n\n" + want, true, c, g & 2 ? 61 : 0); });
    // JSON
    static const char *JT[] = { "{", "}", "[", "]", ":", ",", "\"a\"", "1", "-2.5", "null", "true", " ", "\"", "f" }; const int NJ = 14; int JL = T ? 6 : 5; const uint64_t CH = 500;
    mc::run("JSON texts", (nseq(NJ, 0, JL) + CH - 1) / CH, [&](uint64_t i, mc::Ctx &c) {
        vector<In> ins; uint64_t dying = 0; for (uint64_t k = i * CH; k < (i + 1) * CH && k < nseq(NJ, 0, JL); k++) { auto v = seq_at(k, NJ, 0, JL); string t; for (int x : v) t += JT[x]; Json j; j.s = t; In in = guarded(q(t), [&] { auto r = j.value(0); return r.t + "|none"; }); size_t last = t.size() - (v.empty() ? 0 : strlen(JT[v.back()])); if (!in.dies && !v.empty() && j.i + 1 < (int)last) continue; if (in.dies && v.size() > 3 && dying++ % 64) continue; ins.push_back(in); }
        batch("j = import(" + q(EX + "json.noja") + ");\n", "v, e = j.parse(x); print(v, '|', e);", ins, c, GC[i % 7 == 0 ? 3 : 0], 14); });
    static const char *JV[] = { "1", "\"x\"", "[]", "{}", "{\"k\":null}", "{\"k\":[],\"k\":2}", "{\"a\":{\"b\":[true]}}", "12.25", "1e", "null", "[1,2]", "{\"k\":null,\"k\":2}", "false", "+7", "-0" }; const int NV = T ? 15 : 9;
    mc::run("nested JSON texts", NV * NV * NV * 2, [&](uint64_t i, mc::Ctx &c) {
        Dig d(i); string a = JV[d(NV)], b = JV[d(NV)], e = JV[d(NV)]; int gc = d(2) ? 61 : 0; vector<In> ins; for (string t : { "[" + a + ", " + b + " ,\n" + e + "]", "{\"p\": " + a + ",\t\"q\":" + b + ", \"r\" : " + e + "}", "[[" + a + "], {\"z\": " + b + "}, [[" + e + "]]]", "{\"p\":" + a + ",\"p\":" + b + "," + e + ":" + a + "}" }) { Json j; j.s = t; ins.push_back(guarded(q(t), [&] { auto r = j.value(0); return r.t + "|none"; })); } batch("j = import(" + q(EX + "json.noja") + ");\n", "v, e = j.parse(x); print(v, '|', e);", ins, c, gc, 14); });
    // HTTP
    static const char *HT[] = { "GET", " ", "/", "a", "?", "#", ":", "//", "8", " HTTP/1.1", " HTTP/2", "\r\n", "X:y", "%" }; const int NH = 14; int HL = T ? 5 : 4;
    mc::run("request heads", (nseq(NH, 0, HL) + CH - 1) / CH * 2, [&](uint64_t i, mc::Ctx &c) {
        bool full = i & 1; uint64_t b = i / 2 * CH; vector<In> ins; for (uint64_t k = b; k < b + CH && k < nseq(NH, 0, HL); k++) { auto v = seq_at(k, NH, 0, HL); string t = full ? "GET /" : ""; for (int x : v) t += HT[x]; if (full) t += " HTTP/1.0\r\nA: b\r\n\r\nbody"; Http h; h.s = t; In in = guarded(q(t), [&] { return h.head(); }); if (in.want.compare(0, 5, "none|") == 0) { if (!full && h.i + 3 < (int)t.size()) continue; in.want += "|none"; } if (full && k % 3 && in.want.compare(0, 5, "none|") == 0) continue; ins.push_back(in); }
        batch("p = import(" + q(EX + "http_server/parse.noja") + ");\n", "r, e, n = p.parseHead(x); print(r, '|', e, '|', n);", ins, c, i % 14 == 0 ? 61 : 0, 14); });
    static const char *HD[] = { "X", ":", " ", "y", "\r\n", "\r", "z: 1", "\t", "\n" }; const int ND = 9; int HDL = T ? 6 : 4; const uint64_t CD = 150;
    mc::run("request headers", (nseq(ND, 0, HDL) + CD - 1) / CD, [&](uint64_t i, mc::Ctx &c) {
        vector<In> ins; uint64_t n = 0; for (uint64_t k = i * CD; k < (i + 1) * CD && k < nseq(ND, 0, HDL); k++) { auto v = seq_at(k, ND, 0, HDL); string t = "GET x://h:80/p?q#f HTTP/1.1\r\n"; for (int x : v) t += HD[x]; Http h; h.s = t; In in = guarded(q(t), [&] { return h.head(); }); if (in.want.compare(0, 5, "none|") == 0) in.want += "|none"; if (in.dies && v.size() > 3 && n++ % 16) continue; ins.push_back(in); } batch("p = import(" + q(EX + "http_server/parse.noja") + ");\n", "r, e, n = p.parseHead(x); print(r, '|', e, '|', n);", ins, c, i % 7 == 0 ? 61 : 0, 14); });
    static const char *UT[] = { "a", "=", "&", "+", "\xc3\xa9", "b c" }; int UL = T ? 7 : 5; mc::run("URL encoded forms", (nseq(6, 0, UL) + 499) / 500, [&](uint64_t i, mc::Ctx &c) { vector<In> ins; for (uint64_t k = i * 500; k < (i + 1) * 500 && k < nseq(6, 0, UL); k++) { string t; for (int x : seq_at(k, 6, 0, UL)) t += UT[x]; ins.push_back({ q(t), urlenc(t), false }); } batch("u = import(" + q(EX + "http_server/urlencoded.noja") + ");\n", "v, e = u.parse(x); if e != none: error(e); print(v);", ins, c, i % 7 == 0 ? 61 : 0, 14); });
    static const char *CT[] = { "a", "=", ";", " ", "\"", ",", "\\", "{", "~" }; int CL = T ? 6 : 4; mc::run("cookies", (nseq(9, 0, CL) + 499) / 500, [&](uint64_t i, mc::Ctx &c) { vector<In> ins; for (uint64_t k = i * 500; k < (i + 1) * 500 && k < nseq(9, 0, CL); k++) { string t; for (int x : seq_at(k, 9, 0, CL)) t += CT[x]; ins.push_back(guarded(q(t), [&] { return cookies(t) + "|none"; })); ins.push_back(guarded(q("k=v; " + t), [&] { return cookies("k=v; " + t) + "|none"; })); } batch("u = import(" + q(EX + "http_server/cookie.noja") + ");\n", "v, e = u.parseCookieHeader(x); print(v, '|', e);", ins, c, i % 7 == 0 ? 61 : 0, 14); });
    // a stack, typed
    int KL = T ? 6 : 4; mc::run("stacks", nseq(7, 1, KL) * 2, [&](uint64_t i, mc::Ctx &c) {
        auto v = seq_at(i / 2, 7, 1, KL); int gc = i & 1 ? 13 : 0; if (gc && v.size() > 3 && i % 5) return; string src = "m = import(" + q(EX + "data_structures/stack.noja") + "); s = m.makeStack(int);\n", want; vector<string> st; bool dead = false; auto text = [&] { vector<string> r(st.rbegin(), st.rend()); return str(r); };
        for (int o : v) { if (o == 0 || o == 1) { string x = o ? "22" : "1"; src += "s->push(" + x + ");\n"; st.push_back(x); } else if (o == 2) { src += "print(s->pop(), ';');\n"; want += st.empty() ? "none;" : st.back() + ";"; if (!st.empty()) st.pop_back(); } else if (o == 3) { src += "print(s->isEmpty(), s.size, ';');\n"; want += string(st.empty() ? "true" : "false") + std::to_string(st.size()) + ";"; } else if (o == 4) { src += "print(toString(s), ';');\n"; want += text() + ";"; } else if (o == 5) { src += "it = makeIterator(s); while (w, k = it->next()) != none: print(k, '=', w, ' ');\n"; for (size_t k = 0; k < st.size(); k++) want += std::to_string(k) + "=" + st[st.size() - 1 - k] + " "; } else { src += "s->push('x');\n"; dead = true; } if (dead) break; }
        run(src, want, !dead, c, gc); });
    // numbers
    mc::run("prime numbers", 60 * 2, [&](uint64_t i, mc::Ctx &c) {
        static const char *DEF = "fun isPrime(n: int) { prime = true; if n < 3: { if n == 2: prime = true; else prime = false; } else { i = 2; sqrt = math.sqrt(n/1.0); do { if n % i == 0: { prime = false; break; } i = i+1; } while i <= sqrt; } return prime; }\n"; int from = (int)(i / 2) * 50 - 50; string want; for (int n = from; n < from + 50; n++) { bool p = n >= 2; for (int k = 2; k * k <= n; k++) if (n % k == 0) p = false; want += p ? "1" : "0"; } run(string(DEF) + "n = 0 - " + std::to_string(-from) + "; k = 0; while k < 50: { if isPrime(n): print('1'); else print('0'); n = n + 1; k = k + 1; }", want, true, c, i & 1 ? 61 : 0); });
    mc::run("fibonacci, means and products", 14 + 20 * 20 + nseq(3, 0, 3) * nseq(3, 0, 3), [&](uint64_t i, mc::Ctx &c) {
        if (i < 14) { static const char *DEF = "fun fibonacci(n: int) { if n < 0: error('Only non-negative integers allowed'); if n == 0 or n == 1: return 1; if n == 2: return 2; return fibonacci(n-1) + fibonacci(n-2); }\n"; long a = 1, b = 1; for (uint64_t k = 1; k < i; k++) { long t = a + b; a = b; b = t; } run(string(DEF) + "print(fibonacci(" + std::to_string(i) + "));", std::to_string(b), true, c, i < 10 ? 13 : 0); run(string(DEF) + "print(fibonacci(0 - " + std::to_string(i + 1) + "));", "", false, c, 0); return; }
        i -= 14; if (i < 400) { double x = i % 20 * 1.5 + 1, y = i / 20 * 3 + 1; double a = x, g = y; while (fabs(a - g) > 0.00001) { double a2 = (a + g) / 2, g2 = sqrt(a * g); a = a2; g = g2; } char b[32]; snprintf(b, sizeof b, "%.1f", x); run("m = import(" + q(EX + "rosetta_code/arithmetic_and_geometric_mean.noja") + "); print('\\n'); a, g = m.agm(" + string(b) + ", " + std::to_string((int)y) + "); print(a, '|', g);", "13.46\n" + flt(a) + "|" + flt(g), true, c, i % 3 ? 0 : 13); return; }
        i -= 400; vector<string> A, B, P; static const char *X[] = { "1", "a", "2.50" }; static const char *XL[] = { "1", "'a'", "2.5" }; string la, lb; for (int k : seq_at(i % nseq(3, 0, 3), 3, 0, 3)) { la += string(la.empty() ? "" : ", ") + XL[k]; A.push_back(X[k]); } for (int k : seq_at(i / nseq(3, 0, 3), 3, 0, 3)) { lb += string(lb.empty() ? "" : ", ") + XL[k]; B.push_back(X[k]); } for (auto &a : A) for (auto &b : B) P.push_back("[" + a + ", " + b + "]"); run("m = import(" + q(EX + "rosetta_code/cartesian_product_of_two_or_more_lists.noja") + "); print(m.cartesianProduct([" + la + "], [" + lb + "]));", "[[1, 3], [1, 4], [2, 3], [2, 4]]\n[[3, 1], [3, 2], [4, 1], [4, 2]]\n" + str(P), true, c, i % 2 ? 13 : 0); });
    // responses and paths
    static const char *HN[] = { "A", "Content-Length", "x y" }; static const struct { int n; const char *t; } ST[] = { { 200, "OK" }, { 404, "Not Found" }, { 418, "I'm a teapot" }, { 100, "Continue" }, { 509, "Bandwidth Limit Exceeded" }, { 0, "???" }, { 600, "???" }, { -1, "???" } };
    mc::run("responses", 8 * 4 * nseq(3, 0, 2) * 2, [&](uint64_t i, mc::Ctx &c) {
        Dig d(i); auto st = ST[d(8)]; static const char *BO[] = { "", "hello", "h\xc3\xa9\r\n", "\xf0\x9f\x98\x80" }; string b = BO[d(4)]; auto v = seq_at(d(nseq(3, 0, 2)), 3, 0, 2); bool buf = d(2); Map m; string h; for (size_t k = 0; k < v.size(); k++) { h += string(h.empty() ? "" : ", ") + q(HN[v[k]]) + ": " + (k ? "2.5" : "'v'"); } for (size_t k = 0; k < v.size(); k++) { bool dup = false; for (auto &e : m) if (e.first == HN[v[k]]) dup = true; if (dup) return; put(m, HN[v[k]], k ? "2.5" : "v"); } put(m, "Content-Length", std::to_string(b.size())); string want = "HTTP/1.0 " + std::to_string(st.n) + " " + st.t + "\r\n"; for (auto &e : m) want += e.first + ": " + e.second + "\r\n"; want += "\r\n" + b;
        run("r = import(" + q(EX + "http_server/response.noja") + "); x = r.new(" + std::to_string(st.n) + ", " + (buf ? "buffer.fromString(" + q(b) + ")" : q(b)) + ", {" + h + "}); print(buffer.toString(r.toBuffer(x)));", want, true, c, i % 5 ? 0 : 13); });
    mc::run("joined paths", nseq(3, 1, 4) * nseq(3, 1, 4), [&](uint64_t i, mc::Ctx &c) { static const char *X[] = { "/", "a", "." }; string a, b; for (int k : seq_at(i % nseq(3, 1, 4), 3, 1, 4)) a += X[k]; for (int k : seq_at(i / nseq(3, 1, 4), 3, 1, 4)) b += X[k]; bool u = a.back() == '/', v = b.back() == '/'; string w = u && v ? a.substr(0, a.size() - 1) + b : u || v ? a + b : a + "/" + b; run("m = import(" + q(EX + "http_server/path.noja") + "); print(m.join(" + q(a) + ", " + q(b) + "));", w, true, c, i % 16 ? 0 : 7); });
    mc::sample("j = import('examples/json.noja'); v, e = j.parse('{\"a\": [1, null]}'); print(v, '|', e);  ->  {a: [1.00, none]}|none");
    return mc::finish();
}
