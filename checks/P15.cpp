#include "lang.hpp"
#include "corpus.hpp"
#include <algorithm>
using std::string; using std::vector;
// "red zone" mode: with a heap of no size every object is allocated on its own,
// so that any access outside of an object is caught; collections are then off
static int g_redzone = 0;
extern "C" float __real_Heap_GetUsagePercentage(void *);
extern "C" float __wrap_Heap_GetUsagePercentage(void *h) { return g_redzone ? 0 : __real_Heap_GetUsagePercentage(h); }

struct Sched { const long *at; int n; int mode; long k; };
static int at_points(void *ud, long n)
{
    Sched *s = (Sched *)ud;
    if (s->mode == 1) return NJ_COLLECT; if (s->mode == 2) return n % s->k == 0 ? NJ_COLLECT : NJ_CONTINUE;
    for (int i = 0; i < s->n; i++) if (s->at[i] == n) return NJ_COLLECT; return NJ_CONTINUE;
}
static Impl gcrun(const string &src, Sched &s, long heap = 0) { nj_cfg k; memset(&k, 0, sizeof k); k.builtins = NJ_B_NATIVE; k.step = at_points; k.step_ud = &s; k.heap = heap; return impl_run(src, nullptr, 0, NJ_B_NATIVE, false, &k); }
static string same(const Impl &a, const Impl &b)
{
    string d; if (a.ok != b.ok) d += string("it ") + (b.ok ? "succeeds" : "fails (" + b.msg + ")") + " instead of " + (a.ok ? "succeeding" : "failing (" + a.msg + ")") + "\n";
    if (a.out != b.out) d += "output differs\n--- without collections\n" + a.out + "--- with\n" + b.out; if (a.rets != b.rets) d += "returned values differ: " + a.rets + " and " + b.rets + "\n";
    if (a.msg != b.msg) d += "error differs: '" + a.msg + "' and '" + b.msg + "'\n"; if (a.steps != b.steps) d += "executed instructions differ: " + std::to_string(a.steps) + " and " + std::to_string(b.steps) + "\n";
    return d;
}
static size_t g_outlen; static int at_output(void *, long) { size_t n = nj_outlen(); if (n == g_outlen) return NJ_CONTINUE; g_outlen = n; return NJ_COLLECT; }
// the model, then: no collection, each single collection point, every k-th, every pair when affordable
static void explore(const string &src, mc::Ctx &c, long maxpairs)
{
    if (c.failed) return; c.note(show(src));
    RefOut r = ref_run(src); Impl base = impl_run(src); if (!r.skip) { string e = diff(r, base); if (!e.empty()) { c.fail(e); return; } } else mc::count("outside_model");
    long n = base.steps; auto go = [&](Sched s, const string &what, long heap = 0) { if (c.failed) return; c.note(show(src) + "   [" + what + "]"); c.beat(); Impl m = gcrun(src, s, heap); c.transitions(m.steps); c.trace(); c.state(mc::hash(src, mc::hash(what))); string d = same(base, m); if (!d.empty()) c.fail(d); };
    for (long k = 0; k < n; k++) { long p[1] = { k }; go(Sched{ p, 1, 0, 0 }, "collection after instruction " + std::to_string(k)); }
    go(Sched{ 0, 0, 1, 0 }, "collection after every instruction"); for (long k = 2; k <= 5; k++) go(Sched{ 0, 0, 2, k }, "collection after every " + std::to_string(k) + " instructions");
    if (n * (n - 1) / 2 <= maxpairs) for (long a = 0; a < n; a++) for (long b = a + 1; b < n; b++) { long p[2] = { a, b }; go(Sched{ p, 2, 0, 0 }, "collections after instructions " + std::to_string(a) + " and " + std::to_string(b)); }
    if (c.failed) return; g_redzone = 1; c.note(show(src) + "   [every object on its own]"); nj_cfg k; memset(&k, 0, sizeof k); k.builtins = NJ_B_NATIVE; k.heap = 8; Impl m = impl_run(src, nullptr, 0, NJ_B_NATIVE, false, &k); g_redzone = 0; c.trace(); c.transitions(m.steps); string d = same(base, m); if (!d.empty()) c.fail(d);
}
static const char *ST[] = { "a = [1, 2.5];", "b = [a, a];", "a[0] = b;", "a[count(a)] = 'end';", "m = {k: a, 'l': [b]};", "m.self = m;", "s = string.cat('x', '\xc3\xa9', s);", "u = buffer.new(3);", "v = buffer.sliceUp(u, 1, 2); v[0] = 200;", "fun f(x) return [x, a];", "g = f(b);", "a, b = b, m;", "t = (?int | String);", "t = (t | t);", "t = ?t;", "b = none;", "u = f;", "m[[1, 2.5]] = a;", "l = keysof(m);" };
int main(int argc, char **argv)
{
    mc::init(argc, argv, "P15"); nj_warm(); bool T = mc::thorough();
    mc::declare_counter("outside_model");
    mc::RULE = "every program of the family, collected at every single instruction boundary, at every k-th (k = 1..5) and at every pair of boundaries where affordable, compared with the run without collections; every heap size";
    const int NS = sizeof ST / sizeof *ST; int D = T ? 3 : 2;
    mc::run("every corpus program at every collection point", NCORPUS, [&](uint64_t i, mc::Ctx &c) { explore(CORPUS[i], c, T ? 60000 : 6000); });
    mc::run("every object graph program at every collection point", nseq(NS, 1, D), [&](uint64_t i, mc::Ctx &c) {
        string s = "a = ['A']; b = {z: a}; m = {}; s = 's'; u = buffer.fromString('UVW'); l = none; fun f(x) return x; g = a; t = int; v = u;"; for (int k : seq_at(i, NS, 1, D)) s += string(" ") + ST[k]; explore(s + " emit(a, b, m, s, u, v, l, g, t, f(g), m.k == none);", c, 0); });
    if (!T) mc::run("every longer object graph program under the periodic schedules", ipow(NS, 3), [&](uint64_t i, mc::Ctx &c) {
        Dig d(i); string s = "a = ['A']; b = {z: a}; m = {}; s = 's'; u = buffer.fromString('UVW'); l = none; fun f(x) return x; g = a; t = int; v = u;"; for (int k = 0; k < 3; k++) s += string(" ") + ST[d(NS)]; s += " emit(a, b, m, s, u, v, l, g, t, f(g), m.k == none);";
        c.note(show(s)); Impl base = impl_run(s); for (int k = 1; k <= 3 && !c.failed; k += 2) { Sched q{ 0, 0, 2, k }; c.note(show(s) + "   [collection after every " + std::to_string(k) + " instructions]"); Impl m = gcrun(s, q); c.transitions(m.steps); c.trace(); c.state(mc::hash(s, k)); string e = same(base, m); if (!e.empty()) c.fail(e); } });
    // temporaries in flight: every operand position of every consumer holds a fresh object while the next one is built
    static const char *MK[] = { "[#]", "{k: #}", "string.cat('s', 't')", "buffer.fromString('bb')", "1.5 + 1", "f(#)", "f4(7)", "g()", "(?int)", "many(2)", "w.k", "h->get()" };
    static const char *USE[] = { "emit(@, @, @);", "x = [@, @, @]; emit(x);", "x = {1: @, 2: @, 3: @}; emit(x);", "x = f2(@, @, @); emit(x);", "x = [[@], {k: @}, @]; y = x; emit(y[0], y);", "emit(f(@) == none, type(@), count([@, @]));", "x, y = f3(@, @, @); emit(x, y);", "w[count(w.l)] = @; w.l[0] = @; w.l[count(w.l)] = @; emit(w);", "if istypeof(any, @): emit(@); emit(f([@]));" };
    int NM = 12, NU = 9;
    mc::run("temporaries alive across collections", (uint64_t)NU * NM * NM * NM, [&](uint64_t i, mc::Ctx &c) {
        Dig d(i); const char *u = USE[d(NU)]; int m[3] = { (int)d(NM), (int)d(NM), (int)d(NM) }; if (!T && m[0] != m[1] && m[1] != m[2] && m[0] != m[2]) return;
        string s = "fun f4(z) { fun q() return [z, 4]; return q(); } fun hget(o) return [o.n]; w = {k: ['wk'], l: []}; h = {n: 'hn', get: hget}; fun f(a) return [a]; fun f2(a, b, c) return {r: [a, b, c]}; fun f3(a, b, c) return [a], {k: [b, c]}; fun g() return 'str', [1]; "; int p = 0, q = 10;
        for (; *u; u++) if (*u == '@') { for (const char *t = MK[m[p++ % 3]]; *t; t++) if (*t == '#') s += std::to_string(q++); else s += *t; } else s += *u;
        c.note(show(s)); Impl base = impl_run(s); RefOut r = ref_run(s); if (!base.steps) { c.fail("the program does not start: " + base.msg); return; } if (!r.skip) { string e = diff(r, base); if (!e.empty()) { c.fail(e); return; } } else mc::count("outside_model");
        long from = T ? 0 : base.steps;  // thorough: also every single point
        for (long k = from; k <= base.steps && !c.failed; k++) { long pt[1] = { k }; Sched q2{ pt, 1, k == base.steps ? 1 : 0, 0 }; c.note(show(s) + (k == base.steps ? "   [collection after every instruction]" : "   [collection after instruction " + std::to_string(k) + "]")); Impl x = gcrun(s, q2); c.transitions(x.steps); c.trace(); c.state(mc::hash(s, k)); string e = same(base, x); if (!e.empty()) c.fail(e); } });
    // deep recursions with temporaries in every frame: all the frames' operands are alive at once
    const int TMAX = 11; mc::run("temporaries of many frames", 14ull * (TMAX + 1) * 5 * 3, [&](uint64_t i, mc::Ctx &c) {
        Dig d(i); int depth = d(14) + 1, t = d(TMAX + 1), kind = d(5), pos = d(3); if (pos == 2 && t > 8) return; static const char *A[] = { "[n, #]", "{k: n}", "string.cat('s', S[n], '#')", "buffer.fromString('b#')", "n + 0.5" };
        string args, par, sum; for (int k = 0; k < t; k++) { string a = A[kind]; size_t p; while ((p = a.find('#')) != string::npos) a.replace(p, 1, std::to_string(k)); args += a + ", "; par += string(1, 'a' + k) + ", "; }
        string s = "S = ['a', 'b', 'c', 'd', 'e', 'f', 'g', 'h', 'i', 'j', 'k', 'l', 'm', 'n', 'o', 'p']; fun last(x) return x; fun r(n) { if n == 0: { emit('bottom'); return [[0]]; } x = " + (!t ? string("[r(n - 1), n]") : pos == 0 ? "pick(" + args + "r(n - 1))" : pos == 1 ? "pick(r(n - 1), " + args.substr(0, args.size() - 2) + ")" : "[" + args + "pick(r(n - 1), " + args.substr(0, args.size() - 2) + ")]") + "; return x; } fun pick(" + par + "z) return [" + par + "z]; emit(r(" + std::to_string(depth) + "));"; 
        c.note(show(s)); Impl base = impl_run(s); RefOut rr = ref_run(s); if (!rr.skip) { string e = diff(rr, base); if (!e.empty()) { c.fail(e); return; } } else mc::count("outside_model");
        for (int m = 0; m < 3 && !c.failed; m++) { nj_cfg k; memset(&k, 0, sizeof k); k.builtins = NJ_B_NATIVE; Sched q{ 0, 0, m == 1 ? 1 : 2, 7 }; if (m == 0) { k.step = at_output; g_outlen = 0; } else { k.step = at_points; k.step_ud = &q; } c.note(show(s) + (m == 0 ? "   [collection after every emit]" : m == 1 ? "   [collection after every instruction]" : "   [collection after every 7 instructions]")); Impl x = impl_run(s, nullptr, 0, NJ_B_NATIVE, true, &k); c.transitions(x.steps); c.trace(); c.state(mc::hash(s, m)); string e = same(base, x); if (!e.empty()) c.fail(e); else if (x.leak) c.fail(std::to_string(x.leak) + " bytes leaked"); } });
    // objects with a destructor: any of them may be dropped at once, and again after that
    const int DN = T ? 12 : 10; mc::run("every subset of destructible objects dropped by a collection", 4ull * 4 << DN, [&](uint64_t i, mc::Ctx &c) {
        Dig d(i); string s = destructibles(d(4), DN, d(4), d.v); c.note(show(s)); Impl base = impl_run(s); RefOut r = ref_run(s); if (!r.skip) { string e = diff(r, base); if (!e.empty()) { c.fail(e); return; } } else mc::count("outside_model");
        nj_cfg k; memset(&k, 0, sizeof k); k.builtins = NJ_B_NATIVE; k.step = at_output; g_outlen = 0; c.note(show(s) + "   [collection after every emit]"); Impl x = impl_run(s, nullptr, 0, NJ_B_NATIVE, true, &k); c.transitions(x.steps); c.trace(); c.state(mc::hash(s)); string e = same(base, x); if (!e.empty()) c.fail(e); else if (x.leak) c.fail(std::to_string(x.leak) + " bytes leaked: some destructor didn't run"); });
    // automatic collections: whatever the size of the heap, the run that survives is the same run
    mc::run("every heap size", NCORPUS * (uint64_t)(T ? 1024 : 320), [&](uint64_t i, mc::Ctx &c) {
        int p = i % NCORPUS; long heap = (long)(i / NCORPUS) * (T ? 4 : 8) + 16; string src = CORPUS[p]; c.note(show(src) + "   [heap of " + std::to_string(heap) + " bytes]");
        static std::map<int, Impl> B; if (!B.count(p)) B[p] = impl_run(src); const Impl &base = B[p];
        nj_cfg k; memset(&k, 0, sizeof k); k.builtins = NJ_B_NATIVE; k.heap = heap; Impl m = impl_run(src, nullptr, 0, NJ_B_NATIVE, false, &k); c.transitions(m.steps); c.trace(); c.state(mc::hash(src, heap));
        if (m.out == base.out && m.ok == base.ok && m.rets == base.rets) return;
        if (m.ok) { c.fail("the run succeeds with a different outcome\n" + same(base, m)); return; }
        if (base.out.compare(0, m.out.size(), m.out)) { c.fail("output before the failure differs\n" + same(base, m)); return; }
        if (!m.occurred) c.fail("failed without an error"); });
    mc::sample("a = []; a[0] = a; m = {self: a}; ... collected after instruction 17"); 
    return mc::finish();
}
