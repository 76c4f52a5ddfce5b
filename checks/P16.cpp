#include "lang.hpp"
#include "corpus.hpp"
#include <algorithm>
using std::string; using std::vector;
static nj_cfg cfg(long heap) { nj_cfg k; memset(&k, 0, sizeof k); k.builtins = NJ_B_NATIVE; k.heap = heap; return k; }
static Impl at(const string &s, long heap, bool all = false) { nj_cfg k = cfg(heap); if (all) k.step = step_collect; return impl_run(s, nullptr, 0, NJ_B_NATIVE, false, &k); }
static bool same(const Impl &a, const Impl &b) { return a.ok == b.ok && a.out == b.out && a.rets == b.rets && a.msg == b.msg; }
// the smallest heap in which the program survives a collection after every instruction:
// what is reachable at any instant fits in it (plus what a collection needs to align)
static long need(const string &s, const Impl &base) { long lo = 8, hi = 1 << 17; while (lo < hi) { long m = (lo + hi) / 2; if (same(base, at(s, m, true))) hi = m; else lo = m + 1; } return lo; }
// a run with a heap that is too small either is the same run or fails cleanly
static string clean(const Impl &base, const Impl &m)
{
    string d; if (m.leak) d += std::to_string(m.leak) + " bytes leaked\n";
    if (same(base, m)) return d;
    if (m.ok) d += "the run succeeds with another outcome: " + m.rets + "\n" + m.out; else { if (!m.occurred) d += "failed without reporting an error\n"; if (base.out.compare(0, m.out.size(), m.out)) d += "the output before the failure isn't a prefix of the run's\n" + m.out; }
    return d;
}
static void heaps(const string &s, mc::Ctx &c, int below, int above)
{
    c.note(show(s)); Impl base = at(s, 1 << 20); if (!base.steps) { c.fail("the program does not start: " + base.msg); return; } c.beat(); long n = need(s, base); if (n >= (1 << 17)) { c.fail("128 KB aren't enough to run it"); return; }
    auto one = [&](long h, bool all) { if (c.failed || h < 8) return; c.note(show(s) + "   [heap of " + std::to_string(h) + " bytes, " + std::to_string(n) + " needed" + (all ? ", collections after every instruction]" : "]")); c.beat(); Impl m = at(s, h, all); c.trace(); c.transitions(m.steps); c.state(mc::hash(s, h * 2 + all));
        string e = clean(base, m); if (e.empty() && h >= n + 64 && !same(base, m)) e = "fails (" + m.msg + ") although everything reachable fits in the heap\n"; if (!e.empty()) c.fail(e); };
    // every multiple of 8 up to what is needed and beyond
    for (long h = 8, st = std::max(8L, n / below / 8 * 8); h <= n + 64; h += st) { one(h, false); one(h, true); } for (int k = 0; k < above; k++) { one(n + 64 + 8 * k, false); one(n + 64 + 8 * k, true); } for (long h = n + 64; h < 4 * n; h += std::max(8L, n / 16)) one(h, false);
}
static const char *G[] = { "x = [i, [i]];", "x = {k: i, 'l': [i]};", "x = 1.5 * i;", "x = string.cat('abc', string.chr(65 + i % 26));", "x = buffer.new(40);", "x = buffer.sliceUp(buffer.fromString('abcdef'), 1, 3);", "fun f(a) { fun g() return a; return g; } x = f(i);", "fun f(a, b = [1]) return a, b; x, y = f([i]);", "x = (?int | String);", "x = [print, string.cat];", "x = keysof([1, 2, i]);", "x = [x];x = none;", "c = {}; c.c = c; c.l = [c]; x = c;", "l = []; j = 0; while j < 5: { l[j] = [j]; j = j + 1; } x = l;", "m = {}; j = 0; while j < 7: { m[j] = {v: j}; j = j + 1; } x = m;", "x = type(i);", "fun r(n) { if n == 0: return []; return [r(n - 1)]; } x = r(3);", "x = w; w = [i];", "x = buffer.toString(buffer.fromString('hello'));", "x, y = many(2); x = [x, y];", "x = string.slice('hello world', 1, 6);", "x = i == 3 or [i] == none;", "x = error;", "w[0] = [i]; x = w[0];" };
// expressions whose value is dropped: nothing of it may stay
static const char *E[] = { "1", "1.5", "'s'", "[]", "[1, 2, 3]", "[[[]]]", "{}", "{k: 1}", "{a: {b: {c: []}}}", "string.cat('a', 'b')", "buffer.new(5)", "buffer.sliceUp(buffer.new(9), 1, 2)", "f", "f([1])", "h(3)", "(?int)", "(int | float)", "print", "type(1)", "cyc()", "big()", "bigm()", "keysof({a: 1, b: 2})", "h(5)", "string.slice('abc', 0, 2)", "string" };
static long g_live; static int live_step(void *, long) { g_live = nj_live(); return NJ_CONTINUE; }
static long live_end(const string &s, Impl *m) { nj_cfg k = cfg(0); k.step = live_step; g_live = -2; *m = impl_run(s, nullptr, 0, NJ_B_NATIVE, false, &k); return g_live; }
static size_t g_peak; static int peak_step(void *, long) { size_t a = nj_allocated(); if (a > g_peak) g_peak = a; return NJ_CONTINUE; }
static size_t peak(const string &s, long heap, Impl *m) { nj_cfg k = cfg(heap); k.step = peak_step; g_peak = 0; size_t b = nj_allocated(); *m = impl_run(s, nullptr, 0, NJ_B_NATIVE, false, &k); return g_peak - b; }
static const int NG = sizeof G / sizeof *G, NE = sizeof E / sizeof *E;
static string loop(const string &body, long n) { return "x = none; y = none; w = ['w']; i = 0; while i < " + std::to_string(n) + ": { " + body + " i = i + 1; } emit(i);"; }
int main(int argc, char **argv)
{
    mc::init(argc, argv, "P16"); nj_warm(); bool T = mc::thorough();
    mc::RULE = "every program of the family with every heap size of the ladder from 8 bytes to four times what its reachable objects need, with automatic and with forced collections; every loop body (pair of bodies) at every heap and length of the ladders; every dropped value";
    mc::run("every corpus program at every heap size", NCORPUS, [&](uint64_t i, mc::Ctx &c) { heaps(CORPUS[i], c, T ? 100000 : 60, T ? 512 : 32); });
    int D = T ? 3 : 2;
    mc::run("garbage makers at every heap size", nseq(NG, 1, D), [&](uint64_t i, mc::Ctx &c) { string b; for (int k : seq_at(i, NG, 1, D)) b += string(G[k]) + " "; heaps(loop(b + "emit(x == none);", 4), c, T && i < 700 ? 60 : 6, 4); });
    mc::run("garbage loops run in bounded memory", (uint64_t)NG * NG * 3, [&](uint64_t i, mc::Ctx &c) {
        Dig d(i); int h = d(3), a = d(NG), b = d(NG); if (!T && h == 2 && a != b) return; long heap = h == 0 ? 8192 : h == 1 ? 16384 : 65536; string body = string(G[a]) + " " + (a == b ? "" : G[b]);
        c.note(show(loop(body, 999)) + "   [heap of " + std::to_string(heap) + " bytes]"); Impl m1, m2; long n1 = h == 0 ? 250 : h == 1 ? 400 : 1200, n2 = 5 * n1; if (T) n2 = 12 * n1;
        size_t p1 = peak(loop(body, n1), heap, &m1); c.beat(); size_t p2 = peak(loop(body, n2), heap, &m2); c.trace(2); c.transitions(m1.steps + m2.steps); c.state(mc::hash(body, heap));
        if (!m1.ok || !m2.ok) { c.fail("a loop which only makes garbage fails: " + m1.msg + m2.msg); return; } if (m1.leak || m2.leak) { c.fail("memory leaked"); return; }
        if (p2 > p1 + p1 / 8 + 2048) c.fail("memory grows with the iterations: " + std::to_string(p1) + " bytes at most in " + std::to_string(n1) + " of them, " + std::to_string(p2) + " in " + std::to_string(n2)); });
    mc::run("dropped values are reclaimed entirely", (uint64_t)NE * NE * 4, [&](uint64_t i, mc::Ctx &c) {
        Dig d(i); int how = d(4), a = d(NE), b = d(NE); const string pre = "fun f(a) return [a, a]; fun h(n) { fun g() return n; return g; } fun cyc() { c = {}; c.c = [c]; return c; } fun big() { l = []; i = 0; while i < 20: { l[i] = [i]; i = i + 1; } return l; } fun bigm() { m = {}; i = 0; while i < 20: { m[i] = {v: i}; i = i + 1; } return m; } v = none; w = none; l = [none, none]; z = {k: none, 'j': none}; ";
        auto mk = [&](const string &x, const string &y) { switch (how) { case 0: return pre + "v = " + x + "; w = " + y + "; v = none; w = none; 0;"; case 1: return pre + "l[0] = " + x + "; l[1] = " + y + "; l[0] = none; l[1] = none; 0;"; case 2: return pre + "z.k = " + x + "; z['j'] = [" + y + "]; z.k = none; z.j = none; 0;"; default: return pre + "v = [" + x + "]; v[1] = v; w = {p: " + y + ", q: v}; v[2] = w; v = none; w = none; 0;"; } };
        string s = mk(E[a], E[b]); c.note(show(s)); Impl m, n; long x = live_end(s, &m), y = live_end(mk("none", "none"), &n); c.trace(2); c.transitions(m.steps + n.steps); c.state(mc::hash(s));
        if (!m.ok || !n.ok) { c.fail("fails: " + m.msg + n.msg); return; } if (x != y) c.fail("after a collection " + std::to_string(x) + " bytes are in use, " + std::to_string(y) + " if the dropped values never existed"); });
    mc::sample("x = none; ... while i < 4: { x = [i, [i]]; i = i + 1; } with every heap from 8 bytes up");
    return mc::finish();
}
