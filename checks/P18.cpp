#include "lang.hpp"
#include "corpus.hpp"
using std::string; using std::vector;
struct Plan { long at; int what; int gc; long calls, after; };
static int go(void *ud, long n) { Plan *p = (Plan *)ud; p->calls++; if (n > p->at) p->after++; if (n == p->at) return p->what; return p->gc ? NJ_COLLECT : NJ_CONTINUE; }
static Impl run(const string &s, Plan &p) { nj_cfg k; memset(&k, 0, sizeof k); k.builtins = NJ_B_NATIVE; k.step = go; k.step_ud = &p; k.max_steps = 40000; k.want_trace = 1; return impl_run(s, nullptr, 0, NJ_B_NATIVE, true, &k); }
static vector<size_t> g_len; static int lens(void *, long) { g_len.push_back(nj_outlen()); return NJ_CONTINUE; }
static Impl base_run(const string &s, long max = 40000) { nj_cfg k; memset(&k, 0, sizeof k); k.builtins = NJ_B_NATIVE; k.step = lens; k.max_steps = max; g_len.clear(); return impl_run(s, nullptr, 0, NJ_B_NATIVE, false, &k); }
static void stops(const string &s, mc::Ctx &c, long max = 40000)
{
    if (c.failed) return; c.note(show(s)); Impl b = base_run(s, max); vector<size_t> len = g_len; if (len.empty()) { c.fail("the program does not start: " + b.msg); return; }
    long n = len.size(); len.push_back(b.out.size()); len.push_back(b.out.size());
    for (long k = 0; k < n && !c.failed; k++) for (int w = 0; w < 3 && !c.failed; w++) {
        Plan p = { k, w == 1 ? NJ_INTERRUPT : NJ_ABORT, w == 2, 0, 0 }; c.note(show(s) + (w == 1 ? "   [interrupted" : "   [aborted") + " after instruction " + std::to_string(k) + (w == 2 ? ", collections before]" : "]")); c.beat(); Impl m = run(s, p); c.trace(); c.transitions(m.steps); c.state(mc::hash(s, k * 3 + w));
        if (m.leak) { c.fail(std::to_string(m.leak) + " bytes leaked"); return; }
        if (w != 1) {
            if (m.ok) c.fail("the run goes on to succeed"); else if (!m.occurred) c.fail("stopped without reporting an error"); else if (p.after) c.fail(std::to_string(p.after) + " more instructions executed after the abort");
            else if (m.out != b.out.substr(0, len[k])) c.fail("the output isn't what had been printed by then\n--- expected\n" + b.out.substr(0, len[k]) + "--- got\n" + m.out);
        } else {
            // an interruption is served at the latest after the instruction being executed
            if (m.ok) { if (k != n - 1 || m.out != b.out || m.rets != b.rets) c.fail("the interrupted run goes on to succeed"); continue; }
            if (!m.occurred) c.fail("stopped without reporting an error"); else if (p.after > 1) c.fail(std::to_string(p.after) + " more instructions executed after the interruption");
            else if (m.out.size() < len[k] || m.out.size() > len[k + 1] || b.out.compare(0, m.out.size(), m.out)) c.fail("the output isn't what had been printed by then\n" + m.out);
        }
        if (!m.ok && m.trace.empty()) c.fail("no report can be printed");
    }
}
static const char *ST[] = { "a = [i];", "emit(i);", "i = i + 1;", "if i < 2: emit('t'); else emit('e');", "while i < 2: { i = i + 1; emit('w'); }", "do { i = i + 1; } while i < 3;", "f();", "x = g([i], 's');", "return 1;", "return f(), a;", "fun f() { emit('f2'); return [1]; }", "while true: { if i > 1: break; i = i + 1; }", "nop(f(), g(1));", "print('p', i);", "error('e');", "m = {k: a, a: f()};", "h(2);", "a = string.cat('x', 'y');" };
// programs that would run forever: any instruction of their first thousands
static const char *INF[] = { "while true: { }", "do { } while true;", "i = 0; while true: { i = i + 1; }", "while true: { x = [[], {}]; }", "fun f() return 1; while true: f();", "do { fun g() { do { break; } while true; } g(); } while true;", "while true: while true: { emit(1); }", "while true: if true: { } else { }", "i = 0; while i == i: { i = 1 - i; if i == 0: { } }", "fun f() { while true: { } } f();", "x = {}; x.f = none; fun f() { while true: nop(x); } nop(f());", "while not false: { s = string.cat('a', 'b'); }" };
int main(int argc, char **argv)
{
    mc::init(argc, argv, "P18"); nj_warm(); bool T = mc::thorough();
    mc::RULE = "every program of the family, aborted and interrupted at every single instruction boundary, with and without collections at every boundary before";
    mc::run("every corpus program stopped everywhere", NCORPUS, [&](uint64_t i, mc::Ctx &c) { stops(CORPUS[i], c); });
    const int NS = sizeof ST / sizeof *ST; int D = T ? 4 : 3;
    mc::run("every statement sequence stopped everywhere", nseq(NS, 1, D), [&](uint64_t i, mc::Ctx &c) { string s = "i = 0; a = none; fun f() { emit('f'); return 2; } fun g(x, y) { emit(x); return y; } fun h(n) { if n > 0: h(n - 1); emit(n); }"; for (int k : seq_at(i, NS, 1, D)) s += string(" ") + ST[k]; stops(s + " emit(a);", c); });
    const int NI = sizeof INF / sizeof *INF;
    mc::run("endless programs stopped everywhere", NI, [&](uint64_t i, mc::Ctx &c) { stops(INF[i], c, T ? 5000 : 600); });
    mc::run("stopped before the first instruction", NCORPUS, [&](uint64_t i, mc::Ctx &c) { Plan p = { 0, NJ_ABORT, 0, 0, 0 }; c.note(show(CORPUS[i])); Impl m = run(CORPUS[i], p); c.trace(); if (m.ok || !m.out.empty() || m.leak || p.after) c.fail("the program ran"); });
    mc::sample("while true: { x = [[], {}]; } interrupted after instruction 77");
    return mc::finish();
}
