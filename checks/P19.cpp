#include "lang.hpp"
#include <functional>
using std::string; using std::vector;
static string S(long n) { return std::to_string(n); }
static string rep(const string &s, long n, const string &sep = "") { string o; for (long i = 0; i < n; i++) { if (i) o += sep; for (char ch : s) if (ch == '#') o += S(i); else o += ch; } return o; }
struct Fam { const char *name; std::function<string(long)> gen; long cap; long max; };   // cap: sizes up to it must work; -1: all of them
static const Fam F[] = {
    { "recursion", [](long n) { return "fun f(n) { if n == 0: return 'bottom'; return f(n - 1); } emit(f(" + S(n) + "));"; }, 14, 40 },
    { "recursion with a local per level", [](long n) { return "fun f(n) { l = [n]; if n == 0: return l; r = f(n - 1); r[count(r)] = l; return r; } emit(f(" + S(n) + "));"; }, 14, 40 },
    { "mutual recursion", [](long n) { return "fun f(n) { if n == 0: return 'f'; return g(n - 1); } fun g(n) { if n == 0: return 'g'; return f(n - 1); } emit(f(" + S(n) + "));"; }, 14, 40 },
    { "unbounded recursion", [](long n) { return "fun f(n" + rep(", a#", n % 8) + ") { emit(n); return f(n + 1" + rep(", n", n % 8) + "); } f(0);"; }, -2, 8 },
    { "nested calls", [](long n) { return "fun f(x) return [x]; emit(" + rep("f(", n) + "1" + rep(")", n) + ");"; }, -1, 13 },
    { "operands waiting on the left", [](long n) { return "fun f(x) return x; emit(" + rep("1 + (", n) + "1" + rep(")", n) + ");"; }, 15, 60 },
    { "operands on the right", [](long n) { return "emit(" + rep("(", n) + "1" + rep(" + 1)", n) + ");"; }, -1, 300 },
    { "long sums", [](long n) { return "emit(1" + rep(" + 1", n) + ");"; }, -1, 3000 },
    { "long disjunctions", [](long n) { return "emit(false" + rep(" or false", n) + " or true);"; }, -1, 1000 },
    { "nested lists", [](long n) { return "emit(" + rep("[", n) + rep("]", n) + ");"; }, 8, 34 },
    { "lists of n items", [](long n) { return "l = [" + rep("#", n, ", ") + "]; emit(count(l), l);"; }, -1, 300 },
    { "maps of n items", [](long n) { return "l = {" + rep("k#: #", n, ", ") + "}; emit(count(l), l);"; }, -1, 300 },
    { "native calls of n arguments", [](long n) { return "emit(" + rep("#", n, ", ") + ");"; }, 15, 60 },
    { "calls of n arguments", [](long n) { return "fun f(" + rep("p#", n, ", ") + ") { emit(p0); return p" + S(n ? n - 1 : 0) + "; } p0 = 'none'; emit(f(" + rep("#", n, ", ") + "));"; }, 15, 60 },
    { "calls of n arguments too many", [](long n) { return "fun f() return 1; emit(f(" + rep("#", n, ", ") + "));"; }, 15, 60 },
    { "calls missing n arguments", [](long n) { return "fun f(" + rep("p#", n, ", ") + ") { return p" + S(n ? n - 1 : 0) + "; } p0 = 'none'; emit(f());"; }, 16, 60 },
    { "calls missing n defaulted arguments", [](long n) { return "fun f(" + rep("p# = [#]", n, ", ") + ") { return p" + S(n ? n - 1 : 0) + "; } p0 = 'none'; emit(f());"; }, 14, 60 },
    { "n results", [](long n) { return "fun f() { return " + rep("#", n, ", ") + "; } r = f(); emit(r);"; }, 8, 40 },
    { "n results and n targets", [](long n) { return "fun f() { return " + rep("#", n, ", ") + "; } " + rep("r#", n, ", ") + " = f(); emit(r0, r" + S(n ? n - 1 : 0) + ");"; }, 8, 40 },
    { "n targets of fewer results", [](long n) { return "fun f() { return 7; } " + rep("r#", n, ", ") + " = f(); emit(r0, r" + S(n ? n - 1 : 0) + ");"; }, 16, 40 },
    { "n results of a native", [](long n) { return "r, s = many(" + S(n) + "); emit(r, s);"; }, 8, 8 },
    { "program results", [](long n) { return "return " + rep("#", n, ", ") + ";"; }, 8, 40 },
    { "strings of n characters", [](long n) { return "s = '" + rep("x", n * 64 + (n % 3)) + "'; emit(count(s), s[" + S(n * 64 ? n * 64 - 1 : 0) + "]);"; }, 63, 80 },
    { "strings of about 4096 characters", [](long n) { return "s = '" + rep("x", 4060 + n) + "'; emit(count(s));"; }, 35, 70 },
    { "strings of about 4096 escapes", [](long n) { return "s = '" + rep("\\n", 4060 + n) + "'; emit(count(s));"; }, 35, 70 },
    { "integers of n digits", [](long n) { return "emit(" + rep("0", n) + "17);"; }, 61, 90 },
    { "floats of n digits", [](long n) { return "emit(1." + rep("0", n) + "5);"; }, 60, 90 },
    { "floats of n integer digits", [](long n) { return "emit(1" + rep("0", n) + ".5);"; }, 60, 90 },
    { "identifiers of n characters", [](long n) { return "v" + rep("x", n * 37) + " = 5; emit(v" + rep("x", n * 37) + "); emit({k" + rep("y", n * 37) + ": 1});"; }, -1, 130 },
    { "n variables", [](long n) { return rep("v# = #; ", n) + "emit(v0, v" + S(n ? n - 1 : 0) + ");"; }, -1, 400 },
    { "n functions", [](long n) { return rep("fun f#() return #; ", n) + "emit(f" + S(n ? n - 1 : 0) + "());"; }, -1, 400 },
    { "n statements", [](long n) { return "i = 0; " + rep("i = i + 1; ", n * 16) + "emit(i);"; }, -1, 120 },
    { "loops over n statements", [](long n) { return "i = 0; j = 0; while j < 2: { " + rep("i = i + 1; ", n * 16) + "j = j + 1; } emit(i);"; }, -1, 120 },
    { "nested blocks", [](long n) { return rep("{ ", n) + "emit(1);" + rep(" }", n); }, -1, 300 },
    { "nested ifs", [](long n) { return "i = 0; " + rep("if true: { i = i + 1; ", n) + rep("}", n) + " emit(i);"; }, -1, 300 },
    { "chained elses", [](long n) { return "i = " + S(n) + "; " + rep("if i == #: emit(#); else ", n) + "emit('last');"; }, -1, 300 },
    { "nested loops", [](long n) { return "i = 0; " + rep("while true: { i = i + 1; ", n) + rep("break; }", n) + " emit(i);"; }, -1, 200 },
    { "n breaks of one loop", [](long n) { return "i = 0; while true: { " + rep("if i == 1000 + #: break; ", n) + "break; } emit(i);"; }, -1, 400 },
    { "nested functions", [](long n) { return "x = 'outer'; " + rep("fun f#() { ", n) + "return x; " + rep("} ", 0) + [n]() { string o; for (long i = n - 1; i >= 0; i--) o += "} return f" + S(i) + "(); "; return o; }(); }, 15, 40 },
    { "chains of selections", [](long n) { return "m = {}; m.a = m; m.l = [m]; m.v = 9; emit(m" + rep(".a.l[0]", n) + ".v);"; }, -1, 300 },
    { "chains of method calls", [](long n) { return "fun g(o, x) { o.n = o.n + x; return o; } m = {n: 0, g: g}; emit(m" + rep("->g(1)", n) + ".n);"; }, 14, 300 },
    { "runs of prefix operators", [](long n) { return "emit(" + rep("- ", n) + "1, " + rep("not ", n) + "true);"; }, -1, 300 },
    { "nested types", [](long n) { return "t = int; i = 0; while i < " + S(n) + ": { t = ?[t]; i = i + 1; } emit(istypeof(t, none));"; }, -1, 30 },
    { "sums of n types", [](long n) { return "t = int" + rep(" | String", n) + "; emit(istypeof(t, 's'), istypeof(t, 1.0));"; }, -1, 300 },
    { "literal and pending operands", [](long n) { return "emit(" + rep("[#, ", n) + "1" + rep("]", n) + ");"; }, 7, 40 },
};
// what a run out of a capacity is allowed to be
static string allowed(const RefOut &r, const Impl &m)
{
    string d; if (m.leak) d += S(m.leak) + " bytes leaked\n"; if (r.skip) return d;
    if (m.ok) return d + diff(r, m); if (!m.occurred) d += "failed without reporting an error\n"; if (r.out.compare(0, m.out.size(), m.out)) d += "the output isn't a prefix of the model's\n"; return d;
}
int main(int argc, char **argv)
{
    mc::init(argc, argv, "P19"); nj_warm(); bool T = mc::thorough();
    mc::declare_counter("outside_model"); mc::declare_counter("refused");
    mc::RULE = "every family of programs at every size up to beyond its capacity; recursion depth times pending operands times evaluation stack size, all combinations";
    const int NF = sizeof F / sizeof *F;
    if (getenv("P19_MEASURE")) { for (auto &f : F) { printf("%-40s", f.name); int last = -1; for (long n = 0; n <= f.max; n++) { Impl m = impl_run(f.gen(n)); if (m.ok != last) printf(" %ld:%s", n, m.ok ? "ok" : ("[" + m.msg + "]").c_str()); last = m.ok; } puts(""); } return 0; }
    uint64_t total = 0; for (auto &f : F) total += f.max + 1;
    mc::run("every family at every size", total, [&](uint64_t i, mc::Ctx &c) {
        int k = 0; while (i >= (uint64_t)F[k].max + 1) { i -= F[k].max + 1; k++; } long n = i; string s = F[k].gen(n); c.note(string(F[k].name) + ", n = " + S(n) + ": " + (s.size() < 300 ? show(s) : show(s.substr(0, 300)) + "..."));
        RefOut r; if (F[k].cap != -2) r = ref_run(s); else r.skip = true; if (r.skip) mc::count("outside_model"); Impl m = impl_run(s); c.trace(); c.transitions(m.steps); c.state(mc::hash(string(F[k].name), n)); string e = allowed(r, m);
        if (!m.ok) mc::count("refused"); if (e.empty() && !r.skip && r.ok && !m.ok && (F[k].cap == -1 || n <= F[k].cap)) e = "refused: " + m.msg; if (e.empty() && F[k].cap == -2 && m.ok) e = "unbounded recursion succeeds"; if (!e.empty()) c.fail(e); });
    (void)NF;
    int MD = T ? 20 : 18, MK = T ? 20 : 18;
    mc::run("recursion depth, pending operands and stack sizes", (uint64_t)MD * MK * 24, [&](uint64_t i, mc::Ctx &c) {
        Dig q(i); int d = q(MD), k = q(MK); long st = q.v < 20 ? 8 + 8 * (long)q.v : q.v < 23 ? 1L << (q.v - 20 + 8) : 0; string s = "fun f(n" + rep(", p#", k % 5) + ") { if n == 0: return [n]; x = " + rep("1 + (", k) + "count(f(n - 1" + rep(", #", k % 5) + "))" + rep(")", k) + "; emit(n, x); return [x, n]; } emit(f(" + S(d) + "));";
        c.note(show(s) + "   [stack of " + S(st) + "]"); RefOut r = ref_run(s); nj_cfg g; memset(&g, 0, sizeof g); g.builtins = NJ_B_NATIVE; g.stack = st; Impl m = impl_run(s, nullptr, 0, NJ_B_NATIVE, false, &g); c.trace(); c.transitions(m.steps); c.state(mc::hash(s, st)); if (!m.ok) mc::count("refused");
        string e = allowed(r, m); if (e.empty() && !m.ok && d <= 12 && k <= 10 && !st) e = "refused: " + m.msg; if (!e.empty()) c.fail(e); });
    mc::sample("fun f(n) { if n == 0: return 'bottom'; return f(n - 1); } emit(f(15));");
    return mc::finish();
}
