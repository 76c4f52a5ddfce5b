#include "lang.hpp"
#include "corpus.hpp"
using std::string; using std::vector;
// Every kind of value: an expression and its definitions
static const char *DEF = "fun fn(x) return x; T = int | String; ";
static const char *V[] = { "0", "-1", "true", "false", "none", "1.0", "-0.5", "''", "'s'", "'h\xc3\xa9'", "[]", "[1, 's', none]", "{}", "{a: 1, 'b': [2], 3: none}", "fn", "print", "emit", "int", "float", "bool", "String", "List", "Map", "None", "any", "Type", "?int", "?(int | float)", "T", "int | float | String", "int | ?String", "?T", "[[], {}]", "{k: {k: {}}}", "newBuffer(3)", "string", "9223372036854775807", "123456789.125", "[int, ?any]", "{k: T}", "type(fn)", "type(print)", "type(int)", "type(T)", "type(?int)", "type(any)", "{1.5: 'f', true: 'b', none: 'n', [1]: 'l'}", "['a', ['b', ['c', {d: ['e']}]]]" };
static const int NV = sizeof V / sizeof *V;
// Small heaps: what a program can build out of three collections
static const char *OP[] = { "a = [];", "b = {};", "c = [a];", "a[0] = b;", "a[1] = 1;", "b.x = a;", "b.y = b;", "a[0] = a;", "c[0] = c;", "b.c = c;", "c[1] = b;", "c[0] = none;", "a = b;", "b = c;", "c = {a: a, b: b};", "b.x = none;", "a[0] = 's';", "c = [c, a, a];", "b['k\xc3\xa9'] = 2.5;" };
static const int NOP = sizeof OP / sizeof *OP;
int main(int argc, char **argv)
{
    mc::init(argc, argv, "P26"); nj_warm(); bool T = mc::thorough();
    mc::RULE = "every program of the listed families against the reference interpreter; state = distinct output and outcome";
    auto one = [&](const string &s, mc::Ctx &c, bool gc = false) { if (c.failed) return; c.note(show(s)); string e = gc ? agree_gc(s, c) : agree(s, c); if (!e.empty()) c.fail(e); };
    int D = T ? 5 : 4;
    mc::run("graphs of collections", nseq(NOP, 1, D), [&](uint64_t i, mc::Ctx &c) { string s = "a = [7]; b = {n: 1}; c = []; "; for (int k : seq_at(i, NOP, 1, D)) s += string(OP[k]) + " "; one(s + "print(a, '/', b, '/', c, '\\n'); emit(count(a), count(b), count(c), keysof(a), keysof(b), keysof(c)); print([a, a, b], c, a);", c, i % 7 == 0); });
    mc::run("printing between changes", nseq(NOP, 1, T ? 4 : 2) * 4, [&](uint64_t i, mc::Ctx &c) { static const char *Q[] = { "print(a, b, c, '\\n');", "print(c); print(c);", "k = keysof(b); k[0] = 'changed'; print(k, b);", "k = keysof(a); b.x = a; print(k, keysof(b), a);" }; Dig d(i); int q = d(4); string s = "a = [7]; b = {n: 1}; c = []; "; for (int k : seq_at(d.v, NOP, 1, T ? 4 : 2)) s += string(OP[k]) + " " + Q[q]; one(s, c, i % 7 == 0); });
    static const char *Q1[] = { "print(@);", "print(type(@));", "emit(typename(@)); print(typename(@));", "emit(count(@));", "emit(keysof(@));", "print(keysof(@), count(keysof(@)));", "k = keysof(@); k[0] = 5; print(k, keysof(@));", "print([@], {k: @}, {(@): 1});", "x = @; print(x, x, [x, x], '|', [[x], x]);", "emit(istypeof(type(@), @), type(@) == type(@), type(type(@)) == Type);", "error(@);", "assert(@);", "print(?@);", "print(@ | int, int | @);" };
    static const int NQ1 = sizeof Q1 / sizeof *Q1; auto put = [](string t, const string &a, const string &b = "") { string o; for (char ch : t) o += ch == '@' ? a : ch == '^' ? b : string(1, ch); return o; };
    mc::run("values of every kind", NV * NQ1 * 2, [&](uint64_t i, mc::Ctx &c) { Dig d(i); string v = V[d(NV)]; int q = d(NQ1), gc = d(2); one(string(DEF) + put(Q1[q], "(" + v + ")"), c, gc); });
    static const char *Q2[] = { "print(@, ^);", "emit(type(@) == type(^), type(@) != type(^), typename(@) == typename(^));", "emit(istypeof(type(@), ^), istypeof(type(@) | type(^), ^));", "x = [@, {k: ^}]; print(x, type(x[0]), x[1].k);", "print({(@): ^, l: [^, @]});", "x = {}; x[@] = ^; x[^] = @; print(x); emit(count(x), count(keysof(x)));", "print(@ | ^, ?(@ | ^));", "emit(@); assert(@ == ^);" };
    static const int NQ2 = 8;
    mc::run("pairs of values", (uint64_t)NV * NV * NQ2, [&](uint64_t i, mc::Ctx &c) { Dig d(i); string a = V[d(NV)], b = V[d(NV)]; one(string(DEF) + put(Q2[d(NQ2)], "(" + a + ")", "(" + b + ")"), c, false); });
    // types: identity is by kind, not by value or history
    mc::run("types of types", NV * 5, [&](uint64_t i, mc::Ctx &c) { Dig d(i); string v = V[d(NV)]; int n = d(5); string s = v; for (int k = 0; k < n; k++) s = "type(" + s + ")"; one(string(DEF) + "print(" + s + "); emit(typename(" + s + "), " + s + " == Type);", c, true); });
    static const char *B[] = { "int", "float", "bool", "String", "List", "None", "any", "T", "[int]", "{k: int}", "Type", "5" }; static const int NB = 12;
    mc::run("sums and nullables", nseq(NB, 1, 3) * 8, [&](uint64_t i, mc::Ctx &c) { Dig d(i); int m = d(8); auto q = seq_at(d.v, NB, 1, 3); string s; for (size_t k = 0; k < q.size(); k++) s += (k ? " | " : "") + string(m >> k & 1 ? "?" : "") + B[q[k]]; one(string(DEF) + "print(" + s + "); print([" + s + "], type(" + s + ")); emit(typename(" + s + "));", c); if (q.size() == 3) one(string(DEF) + "print(" + B[q[0]] + " | (" + B[q[1]] + " | " + B[q[2]] + "), ?(" + s + "));", c); });
    // numbers, digit by digit
    mc::run("integers", 63 * 40, [&](uint64_t i, mc::Ctx &c) { Dig d(i); int e = d(63), k = d(40); unsigned long long v = (1ull << e) + (k / 2) * (k % 4 < 2 ? 1 : 37); if (v > INT64_MAX) v = INT64_MAX; string t = std::to_string(v); one("print(" + t + ", ' ', -" + t + ", ' ', -" + t + " - 1, [" + t + "]); emit(" + t + ");", c); });
    mc::run("floats", 30 * 100 * 4, [&](uint64_t i, mc::Ctx &c) { Dig d(i); int e = d(30), f = d(100), k = d(4); char t[128]; snprintf(t, sizeof t, "%s%s.%02d%s", k & 1 ? "9" : "1", string(e, k & 1 ? '9' : '0').c_str(), f, k & 2 ? "4999" : "5"); one(string("print(") + t + ", ' ', -" + t + ", [" + t + "], {k: " + t + "});", c); });
    // strings are printed as they are
    mc::run("strings", 256 * 12, [&](uint64_t i, mc::Ctx &c) { Dig d(i); int ch = d(256), k = d(12); if (ch == 0 || ch == '\'' || ch == '\\' || ch >= 0x80) { static const char *X[] = { "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\\\\", "\\'", "\\n", "%", "%s%n" }; string x = X[ch % 8]; one("print('" + x + "', ['" + x + string(k, 'z') + "'], {k: '" + x + "'}); emit(count('" + x + "'), keysof('" + x + string(k, 'z') + "'));", c); return; } string x(1, ch); one("print('" + x + string(k, 'y') + "', ['" + x + "'], {'" + x + "': '" + string(k, ch) + "'}); emit(count('" + x + "'), keysof('" + string(k, ch) + "'));", c); });
    mc::run("numbers of arguments", 15 * 6, [&](uint64_t i, mc::Ctx &c) { Dig d(i); int n = d(15), k = d(6); static const char *A[] = { "1", "'s', ", "[]", "none", "true", "x" }; string s = "x = [1]; "; string a; for (int j = 0; j < n; j++) a += (j ? ", " : "") + string(k == 1 ? "'" + std::to_string(j) + "'" : A[k]); static const char *F[] = { "print", "emit", "assert" }; for (auto f : F) one(s + f + "(" + a + ");", c); });
    mc::run("wrong numbers of arguments", 6 * NV * 4, [&](uint64_t i, mc::Ctx &c) { Dig d(i); static const char *F[] = { "type", "typename", "count", "keysof", "error", "istypeof" }; string f = F[d(6)], v = V[d(NV)]; int n = d(4); string a; for (int j = 0; j < n; j++) a += (j ? ", (" : "(") + v + ")"; one(string(DEF) + "x = " + f + "(" + a + "); print(x);", c); });
    mc::run("sizes of collections", 200 * 3, [&](uint64_t i, mc::Ctx &c) { Dig d(i); int n = d(200), k = d(3); string N = std::to_string(n); one(k == 0 ? "a = []; i = 0; while i < " + N + ": { a[i] = i; i = i + 1; } print(a); emit(count(a), keysof(a));" : k == 1 ? "a = {}; i = 0; while i < " + N + ": { a[i * 7 % 101] = i; i = i + 1; } print(a); emit(count(a), keysof(a));" : "a = []; i = 0; while i < " + N + ": { a = [a]; i = i + 1; } print(a); emit(count(a));", c, n < 40); });
    mc::run("large counts", 13 * 5, [&](uint64_t i, mc::Ctx &c) { Dig d(i); static const int N[] = { 127, 128, 129, 255, 256, 257, 32767, 32768, 32769, 65535, 65536, 65537, 70001 }; int n = N[d(13)], k = d(5); string s; switch (k) {
        case 0: s = "a = ["; for (int j = 0; j < n; j++) s += j ? ",1" : "1"; s += "];"; break;
        case 1: s = "a = {"; for (int j = 0; j < n; j++) s += (j ? ",(" : "(") + std::to_string(j) + "):1"; s += "};"; break;
        case 2: s = "a = newBuffer(" + std::to_string(n) + ");"; break;
        case 3: s = "b = 'ab'; a = ''; "; for (int b = 0; b < 17; b++) { if (n >> b & 1) s += "a = string.cat(a, c); "; if (!b) { size_t q = s.find("a = string.cat(a, c)"); string f = "c = 'x'; "; if (q == string::npos) s += f; else s.insert(q, f); } s += "c = string.cat(c, c); "; } break;
        case 4: s = "b = 'ab'; a = ''; "; for (int b = 0; b < 17; b++) { if (n >> b & 1) s += "a = string.cat(a, c); "; if (!b) { size_t q = s.find("a = string.cat(a, c)"); string f = "c = '\xc3\xa9'; "; if (q == string::npos) s += f; else s.insert(q, f); } s += "c = string.cat(c, c); "; } break; }
        s += " emit(count(a)); emit(a[" + std::to_string(n - 1) + "]); emit(count([a]));" + string(k < 2 ? " b = keysof(a); emit(count(b), b[" + std::to_string(n - 1) + "], count(keysof(b)));" : ""); c.note(std::to_string(n) + " items of kind " + std::to_string(k)); nj_cfg g; memset(&g, 0, sizeof g); g.builtins = NJ_B_NATIVE; g.heap = 32 << 20; if (k == 1 && n > 300) { Impl r = impl_run(s.substr(0, s.find("};") + 2) + " print(count(a), ' ', count(keysof(a)), ' ', a[0], a[" + std::to_string(n - 1) + "]);", nullptr, 0, NJ_B_NATIVE, false, &g); c.trace(); c.transitions(r.steps); c.state(mc::hash(r.out)); string w = std::to_string(n); w += " " + w + " 11"; if (!r.ok || r.out != w) c.fail("prints " + r.out + " instead of " + w + ": " + r.msg); return; } string e = agree(s, c, nullptr, 0, nullptr, &g); if (!e.empty()) c.fail(e.substr(0, 400)); });
    mc::sample("a = []; a[0] = a; print(a, [a, a])  ->  [...][[...], [...]]");
    return mc::finish();
}
