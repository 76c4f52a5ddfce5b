#include "lang.hpp"
#include <cmath>
using std::string; using std::vector;
static Impl run(const string &s, bool gc = false, long heap = 0) { nj_cfg g; memset(&g, 0, sizeof g); g.builtins = NJ_B_FULL; g.heap = heap; if (gc) g.step = step_collect; return impl_run(s, nullptr, 0, 0, false, &g); }
static string num(long long v) { return v == INT64_MIN ? "(-9223372036854775807 - 1)" : std::to_string(v); }
static string fnum(double v) { char t[400]; snprintf(t, sizeof t, "%.30f", std::fabs(v)); string s = t; if (s.size() > 60) s.resize(60); return v < 0 ? "(-" + s + ")" : s; }
// values: the source of an expression, and how toString renders it
struct Val { string src, str; bool ok; };
static vector<Val> atoms() { return { { "0", "0", true }, { "-17", "-17", true }, { "9223372036854775807", "9223372036854775807", true }, { "1.5", "1.5", true }, { "-0.25", "-0.25", true }, { "none", "none", true }, { "'s'", "s", true }, { "''", "", true }, { "'\xc3\xa9, ]'", "\xc3\xa9, ]", true }, { "print", "NFunc", true }, { "math.floor", "NFunc", true }, { "fn", "Func", true }, { "toString", "Func", true }, { "true", "", false }, { "buffer.new(1)", "", false } }; }
static Val make(int kind, const Val &a, const Val &b)
{
    auto two = [&](const char *o, const char *m, const char *e, const char *so, const char *sm, const char *se) { return Val{ string(o) + a.src + m + b.src + e, string(so) + a.str + sm + b.str + se, a.ok && b.ok }; };
    switch (kind) {
    case 0: return { "[]", "[]", true }; case 1: return { "{}", "{}", true }; case 2: return { "[" + a.src + "]", "[" + a.str + "]", a.ok }; case 3: return two("[", ", ", "]", "[", ", ", "]");
    case 4: return { "{k: " + a.src + "}", "{k: " + a.str + "}", a.ok }; case 5: return two("{a: ", ", 'b c': ", "}", "{a: ", ", b c: ", "}"); case 6: return two("{7: ", ", 'tostring': ", "}", "{7: ", ", tostring: ", "}"); default: return { "{x: " + a.src + ", toString: tsm, y: " + b.src + "}", "<" + a.str + ">", a.ok };
    }
}
static Val value1(uint64_t i, const vector<Val> &A) { if (i < A.size()) return A[i]; Dig d(i - A.size()); int k = d(8); Val a = A[d(A.size())]; return make(k, a, A[d(A.size())]); }
int main(int argc, char **argv)
{
    mc::init(argc, argv, "P30"); nj_warm(); bool T = mc::thorough(); vector<Val> A = atoms();
    mc::RULE = "every integer and float of the listed grids, every value of the stated depth, every schedule of calls on two iterators, every argument tuple; state = distinct output";
    auto val = [&](const string &s, const string &want, bool ok, mc::Ctx &c, bool gc = false) { if (c.failed) return; c.note(s); Impl r = run(s, gc); c.trace(); c.transitions(r.steps); c.state(mc::hash(want)); if (r.ok != ok) c.fail((ok ? "fails: " : "succeeds, ") + r.msg + " " + r.out); else if (r.out != want) c.fail("prints " + r.out + "\ninstead of " + want); else if (!ok && !r.occurred) c.fail("no error"); else if (r.leak) c.fail("leaks"); };
    // integers
    vector<long long> G; for (int e = 0; e < 63; e++) for (long long d : { -1, 0, 1 }) { G.push_back((1LL << e) + d); G.push_back(-(1LL << e) + d); } { long long p = 1; for (int e = 0; e < 19; e++) { for (long long m = 1; m < 10; m++) { if (e == 18 && m > 9) break; for (long long d : { -1, 0, 1 }) { G.push_back(p * m + d); G.push_back(-(p * m) + d); } } if (e < 18) p *= 10; } } G.push_back(INT64_MAX); G.push_back(INT64_MIN); G.push_back(INT64_MIN + 1); G.push_back(INT64_MAX - 1); G.push_back(1234567890123456789LL); G.push_back(-1020304050607080900LL);
    int RNG = T ? 20000 : 3000, PER = 40; uint64_t NI = (2 * RNG + 1 + G.size() + PER - 1) / PER;
    mc::run("every integer of a range and around powers", NI, [&](uint64_t i, mc::Ctx &c) { string s, want; for (int k = 0; k < PER; k++) { uint64_t j = i * PER + k; if (j >= 2 * RNG + 1 + G.size()) break; long long v = j < 2 * RNG + 1 ? (long long)j - RNG : G[j - 2 * RNG - 1]; s += "print(toString(" + num(v) + "), ' ');"; want += std::to_string(v) + " "; } val(s, want, true, c); });
    // floats: at least one and at most two decimals, the closest ones
    vector<double> F; for (int k = -(T ? 60000 : 6000); k <= (T ? 60000 : 6000); k++) F.push_back(k / 1000.0); for (double b : { 0.1, 0.3, 0.7, 0.29, 9.99, 9.994, 9.996, 99.999, 0.004, 0.006, 123456.789, 999999999.99, 4503599627370495.5, 4503599627370496.0, 9007199254740993.0, 1e15, 1e17, 9e18, 1e-9, 1e-20, 123456789012345.67, 0.999, 0.9999999999, 0.125000001, 0.124999999, 0.375000001, 0.374999999, 7.005000001, 7.004999999, 0.9950000001, 0.9949999999, 0.00500001, 0.00499999, 2.50500000001, 2.50499999999, 19.99500000001, 1.0000001 }) for (double sg : { 1, -1 }) F.push_back(b * sg); for (int e = -60; e < 63; e++) for (double m : { 1.0, 1.3, -1.7 }) F.push_back(std::ldexp(m, e > 61 ? 61 : e));
    uint64_t NF = (F.size() + PER - 1) / PER;
    mc::run("every float of a grid", NF, [&](uint64_t i, mc::Ctx &c) { string s; vector<double> vs; for (int k = 0; k < PER && i * PER + k < F.size(); k++) { string l = fnum(F[i * PER + k]); double v = strtod(l[0] == '(' ? l.c_str() + 2 : l.c_str(), nullptr); vs.push_back(l[0] == '(' ? -v : v); s += "print(toString(" + l + "), '\\n');"; } c.note(s); Impl r = run(s); c.trace(); c.transitions(r.steps); if (!r.ok) { c.fail("fails: " + r.msg + " after " + r.out); return; } size_t p = 0;
        for (double v : vs) { size_t e = r.out.find('\n', p); if (e == string::npos) { c.fail("short output"); return; } string t = r.out.substr(p, e - p); p = e + 1; c.state(mc::hash(t)); size_t dot = t.find('.'), b = t[0] == '-'; bool form = dot != string::npos && dot > b && t.size() > dot + 1 && t.size() <= dot + 3; for (size_t k = b; form && k < t.size(); k++) if (k != dot && !isdigit((unsigned char)t[k])) form = false; if (form && t[b] == '0' && dot > b + 1) form = false; if (!form) { c.fail("toString(" + fnum(v) + ") is " + t); return; } long double g = strtold(t.c_str(), nullptr), diff = g > v ? g - v : v - g; if (diff > 0.00500000000001L + std::fabs(v) * 2.3e-16L) { c.fail("toString(" + fnum(v) + ") is " + t); return; } } });
    // values of every shape
    uint64_t NV1 = A.size() + 8 * A.size() * A.size(), NV2 = NV1 * 8 * (T ? A.size() * 2 : 2);
    mc::run("nested values", NV1 + NV2, [&](uint64_t i, mc::Ctx &c) { Val v; if (i < NV1) v = value1(i, A); else { Dig d(i - NV1); int k = d(8); uint64_t x = d(NV1), y = d(2), z = d.v; Val a = value1(x, A), b = A[T ? z : x % A.size()]; v = y ? make(k, a, b) : make(k, b, a); }
        val("fun fn() {} fun tsm(self) return string.cat('<', toString(self.x), '>'); print(toString(" + v.src + "));", v.ok ? v.str : "", v.ok, c, i % 16 == 0); });
    static const string MT[] = { "f0", "print", "1", "none", "'x'", "f1", "f2" }; static const string MW[] = { "m", "", "", "", "", "5", "none" };
    mc::run("maps with a toString entry", 7 * 3, [&](uint64_t i, mc::Ctx &c) { Dig d(i); int m = d(7), u = d(3); string arg = u == 0 ? "" : u == 1 ? ", true" : ", false"; bool meth = m == 0 || m == 1 || m >= 5; string plain = "{k: 5, toString: " + string(m == 0 || m >= 5 ? "Func" : m == 1 ? "NFunc" : m == 2 ? "1" : m == 3 ? "none" : "x") + "}"; if (m == 1 && u < 2) return; val("fun f0(s) return 'm'; fun f1(s) return s.k; fun f2(s) return none; print(toString({k: '5', toString: " + MT[m] + "}" + arg + "));", u < 2 && meth ? MW[m] : plain, true, c, i % 2); });
    // iterators
    static const char *SET[] = { "[]", "['a']", "['a', 'b', 'c']", "{}", "{x: 1}", "{x: 1, 'y': 'two', 3: none}", "[none, [1]]" }; static const vector<string> K[] = { {}, { "0" }, { "0", "1", "2" }, {}, { "x" }, { "x", "y", "3" }, { "0", "1" } }, VV[] = { {}, { "a" }, { "a", "b", "c" }, {}, { "1" }, { "1", "two", "none" }, { "none", "[1]" } };
    int LI = T ? 10 : 7; mc::run("interleaved iterators", 7 * 7 * (1ull << LI), [&](uint64_t i, mc::Ctx &c) { Dig d(i); int a = d(7), b = d(7); string s = string("a = ") + SET[a] + "; b = " + SET[b] + "; p = makeIterator(a); q = makeIterator(b" + (i % 3 ? "" : ", false") + ");", want; size_t at[2] = { 0, 0 }; for (int k = 0; k < LI; k++) { int w = d.v >> k & 1, t = w ? b : a; s += string(" x, y, z = ") + (w ? "q" : "p") + "->next(); print(x, '/', y, '/', z, ' ');"; if (at[w] < K[t].size()) { want += VV[t][at[w]] + "/" + K[t][at[w]] + "/" + std::to_string(at[w]) + " "; at[w]++; } else want += "none/none/none "; } val(s, want, true, c, i % 97 == 0); });
    static const char *IT[] = { "i0", "5", "none", "i3" };
    mc::run("collections with an iter entry", 4 * 3, [&](uint64_t i, mc::Ctx &c) { Dig d(i); int m = d(4), u = d(3); string want = u < 2 && m == 0 ? "42" : u < 2 && m == 3 ? "7" : "7"; val(string("fun n0(i) return 42; fun i0(s) return {next: n0}; fun i3(s) return s.x; c = {x: 7, iter: ") + IT[m] + "}; p = makeIterator(c" + (u == 0 ? "" : u == 1 ? ", true" : ", false") + "); " + (u < 2 && m == 3 ? "print(p);" : "v = p->next(); print(v);"), want, true, c, true); });
    // an iterator visits the keys there were when it was made, with their values of now
    mc::run("collections changed while iterated", 4 * 8, [&](uint64_t i, mc::Ctx &c) { Dig d(i); bool map = d(2), add = d(2); int at = d.v; string s = map ? "c = {a: 1, b: 2, d: 3};" : "c = [1, 2, 3];", want; s += " p = makeIterator(c); k = 0; while k < 6: { if k == " + std::to_string(at) + ": { " + (map ? add ? "c.z = 9;" : "c.d = 8;" : add ? "append(c, 9);" : "c[2] = 8;") + " } v = p->next(); print(v, ' '); k = k + 1; }"; for (int k = 0; k < 6; k++) want += k > 2 ? "none " : k == 2 && !add && at <= 2 ? "8 " : std::to_string(k + 1) + " "; val(s, want, true, c, true); });
    // digits
    mc::run("every character as a digit", 0x300, [&](uint64_t i, mc::Ctx &c) { bool dg = i >= '0' && i <= '9'; val("print(integerFromDigit(string.chr(" + std::to_string(i) + ")));", dg ? string(1, (char)i) : "", dg, c); });
    // append
    mc::run("append", 40 * 4, [&](uint64_t i, mc::Ctx &c) { Dig d(i); int n = d(40), k = d(4); static const char *X[] = { "i", "[i]", "{k: i}", "toString(i)" }; string w = "["; for (int j = 0; j < n; j++) w += string(j ? ", " : "") + (k == 0 ? "" : k == 1 ? "[" : k == 2 ? "{k: " : "") + std::to_string(j) + (k == 1 ? "]" : k == 2 ? "}" : ""); w += "]"; val("l = []; i = 0; while i < " + std::to_string(n) + ": { r = append(l, " + X[k] + "); i = i + 1; } print(l, count(l));", w + std::to_string(n), true, c, n < 12); });
    // abs, min, max
    static const char *NS[] = { "0", "1", "-1", "2", "9223372036854775807", "-9223372036854775807", "(-9223372036854775807 - 1)", "0.0", "0.5", "-0.5", "-1.0", "1.0", "1000000000000.25", "-4611686018427387904" }; static const long double NX[] = { 0, 1, -1, 2, 9223372036854775807.0L, -9223372036854775807.0L, -9223372036854775808.0L, 0, 0.5, -0.5, -1, 1, 1000000000000.25L, -4611686018427387904.0L }; const int NN = 14; auto isf = [](int k) { return k >= 7 && k <= 12; };
    auto txt = [&](int k) -> string { if (isf(k)) { char t[60]; snprintf(t, 60, "%2.2Lf", NX[k]); return t; } return k == 6 ? "-9223372036854775808" : NS[k]; };
    mc::run("abs, min and max of numbers", NN * NN * 2 + NN, [&](uint64_t i, mc::Ctx &c) { if (i >= NN * NN * 2) { int k = i - NN * NN * 2; bool ok = k != 6; string w; if (isf(k)) { char t[60]; snprintf(t, 60, "%2.2Lf", NX[k] < 0 ? -NX[k] : NX[k]); w = t; } else w = std::to_string(k == 6 ? 0 : llabs((long long)NX[k])); val(string("print(abs(") + NS[k] + "));", ok ? w : "", ok, c); return; }
        Dig d(i); int f = d(2), a = d(NN), b = d(NN); int r = f == 0 ? (NX[a] < NX[b] ? a : b) : (NX[a] > NX[b] ? a : b); string alt = NX[a] == NX[b] ? txt(a == r ? b : a) : ""; string s = string("print(") + (f ? "max(" : "min(") + NS[a] + ", " + NS[b] + "));"; c.note(s); Impl m = run(s); c.trace(); c.transitions(m.steps); c.state(mc::hash(m.out)); bool big = NX[a] > 9e18L || NX[b] > 9e18L || NX[a] < -9e18L || NX[b] < -9e18L; if (!m.ok) c.fail("fails: " + m.msg); else if (m.out != txt(r) && m.out != alt && !(big && isf(a) != isf(b) && (m.out == txt(a) || m.out == txt(b)) && std::fabs((double)NX[a] - (double)NX[b]) < 1)) c.fail("gives " + m.out + " instead of " + txt(r)); });
    // kinds of values and types
    static const char *KV[] = { "none", "true", "1", "2.5", "'abc'", "[1]", "{k: 1}", "buffer.new(2)", "int", "print", "fn", "makeIterator", "files.openDir('/')", "{call: fn}", "{toString: fn, iter: print, next: fn}", "[fn, print]", "Callable", "?Func" }; const int NK = 13, NKT = 18; static const char *TY[] = { "None", "bool", "int", "float", "String", "List", "Map", "Buffer", "Type", "NFunc", "Func", "Func", "Directory", "Map", "Map", "List", "Sum", "Nullable" };
    mc::run("types of values", NKT * 8, [&](uint64_t i, mc::Ctx &c) { Dig d(i); int v = d(NKT), q = d(8); static const char *Q[] = { "isCallable(@)", "istypeof(Callable, @)", "istypeof(Numeric, @)", "istypeof(Collection, @)", "istypeof(Func, @)", "istypeof(NFunc, @)", "type(@) == Func", "type(@) == NFunc" }; bool fn = v == 10 || v == 11, nf = v == 9, w = q < 2 ? fn || nf : q == 2 ? v == 2 || v == 3 : q == 3 ? v == 5 || v == 6 || (v >= 13 && v < 16) : q == 4 || q == 6 ? fn : nf; string s; for (const char *p = Q[q]; *p; p++) if (*p == '@') s += KV[v]; else s += *p; val("fun fn() {} print(" + s + ");", w ? "true" : "false", true, c, true); });
    static const char *FN[] = { "abs", "append", "min", "max", "toString", "integerFromDigit", "makeIterator", "isCallable" };
    mc::run("arguments of every kind", 8 * nseq(NK, 0, 2), [&](uint64_t i, mc::Ctx &c) {
        Dig d(i); int f = d(8); vector<int> a = seq_at(d.v, NK, 0, 2); string s = "fun fn() {} d = "; s += FN[f]; s += "("; for (size_t k = 0; k < a.size(); k++) s += string(k ? ", " : "") + KV[a[k]]; s += "); print('ok');"; int x = a.size() > 0 ? a[0] : 0, y = a.size() > 1 ? a[1] : 0; bool ok, any = false; auto num = [](int k) { return k == 2 || k == 3; };
        switch (f) { case 0: ok = num(x); any = a.size() > 1; break; case 1: ok = x == 5; break; case 2: case 3: ok = num(x) && num(y); break; case 4: ok = !(x == 1 || x == 7 || x == 12); any = ok && a.size() > 1 && y != 1; break; case 5: ok = false; any = a.size() > 1; break; case 6: ok = x == 5 || x == 6; any = ok && a.size() > 1 && y != 1; break; default: ok = true; any = a.size() > 1; }
        c.note(s); Impl r = run(s); c.trace(); c.transitions(r.steps); c.state(mc::hash(r.msg)); if (r.leak) c.fail("leaks"); else if (!r.ok && !r.occurred) c.fail("no error"); else if (any) return; else if (r.ok != ok) c.fail((ok ? "fails: " : "accepted") + r.msg); });
    // shadowing a builtin or changing a collection doesn't break the functions of the prelude that don't depend on it
    static const char *SH[] = { "x", "cat = none;", "chr = 1;", "count = none;", "abs = none;", "toString2 = 3;", "type = none;", "keysof = 3;", "none2 = 1; text = 5; power = 6; temp = 7;", "math = none;", "string = none;", "error = none;" }; static const char *US[] = { "toString(-12)", "toString(1.25)", "toString([1, {k: 2}])", "makeIterator([4])->next()", "append([], 1)", "abs(-4)", "min(2, 1)" }; static const char *UW[] = { "-12", "1.25", "[1, {k: 2}]", "4", "none", "4", "1" };
    mc::run("variables of the program don't reach the prelude", 12 * 7, [&](uint64_t i, mc::Ctx &c) { Dig d(i); int k = d(12), u = d(7); if (k == 4 && u == 5) return; val(string(k ? SH[k] : "") + " print(" + US[u] + ");", UW[u], true, c, true); });
    mc::sample("toString([1, {k: -2.5}]) -> [1, {k: -2.5}]; p = makeIterator({x: 1}); p->next() -> 1, x, 0");
    return mc::finish();
}
