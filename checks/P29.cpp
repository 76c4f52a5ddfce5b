#include "lang.hpp"
#include "asm.hpp"
#include "corpus.hpp"
#include <ftw.h>
#include <time.h>
using std::string; using std::vector;
// the processor time is the number of instructions executed so far
static long g_now, g_clocks; static int on_tick(void *ud, long) { g_now++; return ud ? NJ_COLLECT : NJ_CONTINUE; }
extern "C" clock_t __wrap_clock(void) { g_clocks++; return g_now; }
struct Row { long calls; double time; };
typedef std::map<string, Row> Prof; // by "name - source"
static bool parse(const string &t, Prof &p, string &why)
{
    size_t q = 0; while (q < t.size()) { size_t e = t.find('\n', q); if (e == string::npos) { why = "unfinished line"; return false; } string l = t.substr(q, e - q); q = e + 1; size_t b = l.rfind(" - "); if (b == string::npos) { why = l; return false; } size_t a = l.rfind(" - ", b - 1); if (a == string::npos) { why = l; return false; }
        string nm = l.substr(0, a); while (!nm.empty() && nm[0] == ' ') nm.erase(0, 1); char *x; long n = strtol(l.c_str() + a + 3, &x, 10); if (strncmp(x, " calls", 6) || n <= 0) { why = l; return false; } double us = strtod(l.c_str() + b + 3, &x); if (strcmp(x, "us") || us < 0) { why = l; return false; } p[nm].calls += n; p[nm].time += us; }
    return true;
}
static Impl run(const string &s, bool time, bool gc = false, int b = NJ_B_NATIVE, const char *file = nullptr, nj_cfg *base = nullptr) { nj_cfg g; if (base) g = *base; else memset(&g, 0, sizeof g); g.builtins = b; g.time = time; g.file = file; g.step = on_tick; g.step_ud = gc ? (void *)1 : nullptr; g.heap = gc ? 0 : 1 << 19; g_now = g_clocks = 0; return impl_run(s, nullptr, 0, b, true, &g); }
// Counting by instrumentation: every function announces itself on entry and exit
static string cmp(const Prof &got, const Prof &want)
{
    for (auto &w : want) { auto it = got.find(w.first); if (it == got.end()) return w.first + " isn't listed"; if (it->second.calls != w.second.calls) return w.first + " is listed with " + std::to_string(it->second.calls) + " calls instead of " + std::to_string(w.second.calls); if (w.second.time >= 0 && g_clocks && it->second.time != w.second.time) return w.first + " took " + std::to_string(w.second.time) + " ticks, " + std::to_string(it->second.time) + " reported"; }
    for (auto &g : got) if (!want.count(g.first)) return g.first + " is listed but was never called"; return "";
}
static bool model(const string &src, Prof &want, bool &ok, bool &skip)
{
    nj_comp k; nj_compile(src.data(), src.size(), &k); if (!k.ok) return false; ref::Code code; code_from_exe(k.exe, code); nj_exe_free(k.exe); std::map<long, string> nm; for (auto &x : code) if (!strcmp(ref::OPS[x.op].name, "PUSHFUN")) nm[x.a[0].i] = x.a[2].s;
    ref::VM I; I.fuel = 200000; I.code = code; std::map<string, int> act; std::set<string> rec; vector<std::pair<string, long>> st;
    I.on_frame = [&](long pc, bool enter) { if (pc == 0 && st.empty() && enter) { st.push_back({ "", 0 }); return; } if (enter) { string n = nm.count(pc) ? nm[pc] : "?"; n += " - t"; if (act[n]++) rec.insert(n); st.push_back({ n, I.ticks }); } else { auto x = st.back(); st.pop_back(); if (x.first.empty()) return; act[x.first]--; want[x.first].calls++; want[x.first].time += I.ticks - x.second; } };
    skip = false; ok = false; try { I.frame(0, nullptr, {}); ok = true; } catch (ref::RunErr &) {} catch (ref::Unsupported &) { skip = true; } catch (ref::Horizon &) { skip = true; }
    for (auto &n : rec) want[n].time = -1; return true;
}
static const char *ST[] = { "f();", "x = g(1, 2);", "fun f() return 1;", "fun g(a, b) { return f(); }", "f = g;", "m->k();", "m = {fun k(self) return g(1);};", "i = 0; while i < 3: { i = i + 1; f(i); }", "do { fun h(n) { if n > 0: return h(n - 1); } h(3); } while false;", "fun f(n: int = g(1)) return n;", "fun mk() { fun in() return 7; return in; } mk()(); y = mk(); y(); y();", "count([f()]);", "fun g(a) { emit(a); }", "p = f; p(); p = none;" }; static const int NS = sizeof ST / sizeof *ST;
static int rmone(const char *p, const struct stat *, int, struct FTW *) { return remove(p); }
int main(int argc, char **argv)
{
    mc::init(argc, argv, "P29"); nj_warm(); bool T = mc::thorough(); int D = T ? 5 : 4;
    mc::RULE = "every statement sequence up to the stated length and every corpus program, profiled with a clock that counts instructions, against the calls and instructions of the reference machine; state = distinct profile";
    auto one = [&](const string &s, mc::Ctx &c, bool gc) {
        if (c.failed) return; c.note(show(s)); Prof want; bool ok, skip; if (!model(s, want, ok, skip)) return; if (skip) { mc::count("outside_model"); return; } Impl plain = run(s, false, gc), m = run(s, true, gc); long clocks = g_clocks; c.trace(2); c.transitions(m.steps + plain.steps); string w = gc ? " (collections after every instruction)" : "";
        if (plain.ok != m.ok || plain.out != m.out || plain.rets != m.rets || plain.steps != m.steps) { c.fail("profiling changes the run" + w + ": " + m.msg + "\n" + plain.out + "--- profiled\n" + m.out); return; } if (m.leak) { c.fail("leaks"); return; } if (m.ok != ok) { mc::count("other_outcome"); return; } if (!ok) return; if (!plain.trace.empty()) { c.fail("a profile without profiling: " + plain.trace); return; }
        Prof got; string why; if (!parse(m.trace, got, why)) { c.fail("unexpected line: " + why); return; } c.state(mc::hash(m.trace)); g_clocks = clocks; string e = cmp(got, want); if (!e.empty()) c.fail(e + w + "\n" + m.trace); };
    mc::run("corpus", NCORPUS * 2, [&](uint64_t i, mc::Ctx &c) { one(CORPUS[i / 2], c, i % 2); });
    mc::run("statement sequences", nseq(NS, 1, D), [&](uint64_t i, mc::Ctx &c) { string s = "fun f() return 0; fun g() return 2; m = {k: f}; "; for (int k : seq_at(i, NS, 1, D)) s += string(ST[k]) + " "; one(s, c, i % 16 == 0); });
    mc::run("numbers of calls", 60 * 5, [&](uint64_t i, mc::Ctx &c) { Dig d(i); string n = std::to_string(d(60)); static const char *P[] = { "fun f() return 1; i = 0; while i < @: { f(); i = i + 1; }", "fun r(n) { if n < 1: return 0; return r(n - 1); } i = 0; while i < @: { r(i % 5); i = i + 1; }", "i = 0; while i < @: { fun q() return i; q(); q(); i = i + 1; }", "fun u() return v(); fun v() return 1; i = 0; while i < @: { if i % 3 == 0: u(); else v(); i = i + 1; }", "l = []; i = 0; while i < @: { fun z(x) return x; l[i] = z; i = i + 1; } i = 0; while i < count(l): { j = 0; while j < i: { l[i](j); j = j + 1; } i = i + 1; }" }; string s; for (const char *p = P[d.v]; *p; p++) if (*p == '@') s += n; else s += *p; one(s, c, i % 7 == 0); });
    static const long MC[] = { 127, 128, 200, 255, 256, 257, 511, 512, 1000, 1023, 1024, 1025, 5000, 20000 }; mc::run("many calls", 14 * 3, [&](uint64_t i, mc::Ctx &c) { Dig d(i); long n = MC[d(14)]; int k = d(3); string N = std::to_string(n), s = k == 0 ? "fun f() return 1; i = 0; while i < " + N + ": { f(); i = i + 1; }" : k == 1 ? "fun f() return g(); fun g() { if i % 2 == 0: return 1; return 2; } i = 0; while i < " + N + ": { f(); i = i + 1; }" : "fun f(n) { if n == 0: return 0; return f(n - 1); } i = 0; while i < " + N + ": { f(2); i = i + 1; }"; c.note(s); Impl m = run(s, true); c.trace(); c.transitions(m.steps); c.state(mc::hash(s)); Prof got; string why; if (!m.ok || !parse(m.trace, got, why)) c.fail("fails: " + m.msg + why); else { long w = k == 2 ? 3 * n : n; if (got.size() != (k == 1 ? 2 : 1)) c.fail("profile: " + m.trace); for (auto &g : got) if (g.second.calls != w) c.fail(g.first + " is listed with " + std::to_string(g.second.calls) + " calls instead of " + std::to_string(w)); } });
    mc::run("numbers of functions", 80, [&](uint64_t i, mc::Ctx &c) { string s; for (uint64_t k = 0; k <= i; k++) { string n = "f" + std::to_string(k); s += "fun " + n + "() { x = " + (k % 3 ? "f" + std::to_string(k - 1) + "()" : "0") + "; return 1; } "; } for (uint64_t k = 0; k <= i; k += 2) s += "f" + std::to_string(k) + "(); "; one(s, c, i < 20); });
    // names, whatever they are made of
    static const char *NM[] = { "f", "_", "a_very_long_function_name_of_more_than_twenty_characters", "F2", "calls", "us" };
    mc::run("names", 6 * 4, [&](uint64_t i, mc::Ctx &c) { Dig d(i); string n = NM[d(6)]; int k = d.v; string s = "fun " + n + "() return 1; "; for (int j = 0; j < k; j++) s += n + "(); "; c.note(s); Impl m = run(s, true); c.trace(); c.transitions(m.steps); Prof got; string why; if (!m.ok || !parse(m.trace, got, why)) c.fail("fails: " + m.msg + why); else if (got.size() != (k ? 1 : 0) || (k && (got.begin()->first != n + " - t" || got.begin()->second.calls != k))) c.fail("profile: " + m.trace); });
    // functions of the prelude and of modules, by their own source
    static const char *PU[] = { "abs(1);", "min(1, 2);", "max(1, 2);", "isCallable(1);" }; mc::run("functions of the prelude", nseq(4, 0, 4), [&](uint64_t i, mc::Ctx &c) { string s; vector<int> a = seq_at(i, 4, 0, 4); for (int k : a) s += PU[k]; c.note(s); Impl m = run(s, true, false, NJ_B_FULL); c.trace(); c.transitions(m.steps); Prof got; string why; if (!m.ok || !parse(m.trace, got, why)) { c.fail("fails: " + m.msg + why); return; } long n = 0; for (auto &g : got) if (g.first.find("<prelude>") != string::npos) n += g.second.calls; else c.fail(g.first + " is listed"); if (n != (long)a.size()) c.fail(std::to_string(n) + " calls listed instead of " + std::to_string(a.size()) + "\n" + m.trace); });
    char dir[] = "/tmp/nj29-XXXXXX"; if (!mkdtemp(dir)) return 2; string W = dir;
    mc::run("functions of modules", 5 * 5 * 2, [&](uint64_t i, mc::Ctx &c) { Dig d(i); int a = d(5), b = d(5), gc = d(2); string M = W + "/w" + std::to_string(getpid()); mkdir(M.c_str(), 0755); string s = "fun one() return 1; i = 0; while i < " + std::to_string(a) + ": { one(); i = i + 1; } return {fun2: one};", t = "m = import('mod'); fun one() return m.fun2(); i = 0; while i < " + std::to_string(b) + ": { one(); i = i + 1; }"; FILE *f = fopen((M + "/mod").c_str(), "w"); fputs(s.c_str(), f); fclose(f); f = fopen((M + "/main").c_str(), "w"); fputs(t.c_str(), f); fclose(f); string mf = M + "/main"; c.note(std::to_string(a) + " calls in a module, " + std::to_string(b) + " in the program"); Impl m = run("", true, gc, NJ_B_NATIVE, mf.c_str()); c.trace(); c.transitions(m.steps); Prof got, want; string why; if (!m.ok || !parse(m.trace, got, why)) { c.fail("fails: " + m.msg + why); return; } if (a + b) want["one - " + M + "/mod"] = { a + b, -1 }; if (b) want["one - " + M + "/main"] = { b, -1 }; string e = cmp(got, want); if (!e.empty()) c.fail(e + "\n" + m.trace); });
    nftw(W.c_str(), rmone, 8, FTW_DEPTH | FTW_PHYS);
    mc::sample("fun f() return 1; f(); f();  ->  f - t - 2 calls - 2.00us, with a clock that counts instructions");
    return mc::finish();
}
