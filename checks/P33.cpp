#include "lang.hpp"
using std::string; using std::vector;
// the environment's rand(): answers are chosen by the explorer
static int g_rand = 0; static unsigned g_seed = 0; static long g_seeds = 0, g_rands = 0;
extern "C" int __wrap_rand(void) { g_rands++; return g_rand; }
extern "C" void __wrap_srand(unsigned s) { g_seed = s; g_seeds++; }
int main(int argc, char **argv)
{
    mc::init(argc, argv, "P33"); nj_warm(); bool T = mc::thorough(); (void)T;
    mc::declare_counter("outside_model");
    mc::RULE = "every mathematical function on every operand (pair) of the grid; random.generate on every pair of bounds under every extreme and intermediate answer of the generator";
    auto val = [&](const string &src, mc::Ctx &c) { if (c.failed) return; c.note(show(src)); string e = agree(src, c); if (!e.empty()) c.fail(e); };
    static const char *F1[] = { "floor", "ceil", "cos", "sin", "tan", "acos", "asin", "atan", "exp", "log", "log10", "sqrt", "atan2", "pow" };
    static const char *V[] = { "0.0", "(-0.0)", "0.5", "-0.5", "1.0", "-1.0", "1.5", "-1.5", "2.0", "-2.0", "2.5", "-2.5", "0.9999999999999999", "-0.9999999999999999", "3.141592653589793", "1.5707963267948966", "100.25", "-100.75", "4503599627370496.5", "4503599627370497.5", "-4503599627370496.5", "9007199254740993.0", "9223372036854774784.0", "9223372036854775807.0", "9223372036854775808.0", "-9223372036854775808.0", "-9223372036854777856.0", "18446744073709551616.0", "(1.0 * 100000000000000000000.0 * 100000000000000000000.0)", "math.log(0.0)", "(-math.log(0.0))", "math.sqrt(-1.0)", "math.PI", "math.E", "-math.E", "0.000001", "2147483647.5", "-2147483648.5", "4294967295.5", "4294967296.0",
        "none", "true", "1", "-1", "'1.0'", "[1.0]", "{}", "int", "emit", "9223372036854775807" };
    const int NV = sizeof V / sizeof *V;
    mc::run("every function on every operand pair", 14ull * NV * NV, [&](uint64_t i, mc::Ctx &c) { Dig d(i); string f = F1[d(14)], a = V[d(NV)], b = V[d(NV)]; val("r = math." + f + "(" + a + ", " + b + "); emit(r, type(r)); print(r);", c); });
    mc::run("missing and surplus arguments", 14 * 4, [&](uint64_t i, mc::Ctx &c) { Dig d(i); string f = F1[d(14)]; static const char *A[] = { "", "1.0", "1.0, 2.0, 3.0", "1.0, 0.5, none, none" }; val("r = math." + f + "(" + A[d.v] + "); emit(r, type(r));", c); });
    mc::run("constants and absent names", 12, [&](uint64_t i, mc::Ctx &c) { static const char *K[] = { "PI", "E", "pi", "e", "P", "PII", "floor2", "sqr", "sqrtt", "log1", "log2", "max" }; val(string("emit(math.") + K[i] + ", type(math), math['" + K[i] + "']);", c); });
    static const long long BD[] = { 0, 1, -1, 2, 9, 10, -10, 100, 1000000007, 2147483647, -2147483648LL, 2147483648LL, 4294967296LL, -4294967296LL, (1LL << 53) - 1, 1LL << 53, (1LL << 53) + 1, -(1LL << 53) - 1, 9223372036854775806LL, INT64_MAX, -9223372036854775807LL, INT64_MIN, INT64_MAX - 1024, INT64_MIN + 1024 };
    const int NB = sizeof BD / sizeof *BD;
    auto num = [](long long v) { return v == INT64_MIN ? string("(-9223372036854775807 - 1)") : std::to_string(v); };
    static const int RV[] = { 0, 1, RAND_MAX, RAND_MAX - 1, RAND_MAX / 2, RAND_MAX / 2 + 1, RAND_MAX / 3, 12345, RAND_MAX - 1000, 7 }; const int NR = 10;
    mc::run("random.generate stays inside of every range", (uint64_t)NB * NB * NR, [&](uint64_t i, mc::Ctx &c) { Dig d(i); long long a = BD[d(NB)], b = BD[d(NB)]; g_rand = RV[d(NR)];
        string src = "r = random.generate(" + num(a) + ", " + num(b) + "); emit(r);"; c.note(src + " with rand() = " + std::to_string(g_rand));
        Impl m = impl_run(src); c.transitions(m.steps); c.trace(); c.state(mc::hash(m.out));
        long long lo = a < b ? a : b, hi = a < b ? b : a; char *e; if (!m.ok || m.out.compare(0, 2, "@ ")) { c.fail("it failed: " + m.msg); return; } errno = 0; long long r = strtoll(m.out.c_str() + 2, &e, 10);
        if (errno || *e != '\n') c.fail("not an integer: " + m.out); else if (r < lo || r > hi) c.fail(m.out + "is outside of the range"); });
    mc::run("random.generate covers small ranges", 40, [&](uint64_t i, mc::Ctx &c) { int n = i + 1; bool hit[64] = { false };
        for (int k = 0; k <= n * 16 && !c.failed; k++) { g_rand = k < n * 8 ? k : (int)((double)RAND_MAX * (k - n * 8) / (n * 8)); Impl m = impl_run("emit(random.generate(0, " + std::to_string(n) + "));"); c.trace(); c.transitions(m.steps); c.note("range 0.." + std::to_string(n) + " rand() = " + std::to_string(g_rand)); long long r = m.ok ? atoll(m.out.c_str() + 2) : -1; if (r < 0 || r > n) { c.fail("gave " + m.out); break; } hit[r] = true; }
        for (int k = 0; k <= n && !c.failed; k++) if (!hit[k]) c.fail(std::to_string(k) + " is never generated"); });
    mc::run("defaults of random.generate", 3 * 5, [&](uint64_t i, mc::Ctx &c) { Dig d(i); int k = d(3); g_rand = RV[d.v]; string s = k == 0 ? "r = random.generate();" : k == 1 ? "r = random.generate(none, 10);" : "r = random.generate(9223372036854775797);"; s += " emit(r);"; c.note(s); Impl m = impl_run(s); c.trace(); c.transitions(m.steps); unsigned long long r = m.ok ? strtoull(m.out.c_str() + 2, 0, 10) : ~0ull; long long lo = k == 2 ? 9223372036854775797LL : 0, hi = k == 1 ? 10 : INT64_MAX; if (!m.ok || m.out[2] == '-' || r < (unsigned long long)lo || r > (unsigned long long)hi) c.fail("gave " + m.out + m.msg); });
    static const char *SV[] = { "0", "1", "-1", "123456", "4294967297", "none", "'1'", "1.0", "" };
    mc::run("seeding", 9 * 2, [&](uint64_t i, mc::Ctx &c) { int k = i % 9; g_seeds = g_rands = 0; g_rand = 0; string s = string("emit(random.seed(") + SV[k] + "));"; c.note(s); Impl m = impl_run(s); c.trace(); c.transitions(m.steps); if (k < 5 ? !m.ok || m.out != "@ n\n" || g_seeds != 1 : m.ok || g_seeds) c.fail("seed: " + m.out + m.msg + ", " + std::to_string(g_seeds) + " seedings"); if (!c.failed && k < 4 && g_seed != (unsigned)atoi(SV[k])) c.fail("seeded with " + std::to_string(g_seed)); });
    mc::run("arguments of every kind to random", 8 * 8, [&](uint64_t i, mc::Ctx &c) { static const char *X[] = { "1", "none", "1.0", "'1'", "true", "[]", "int", "emit" }; g_rand = 5; int a = i % 8, b = i / 8; string s = string("emit(random.generate(") + X[a] + ", " + X[b] + "));"; c.note(s); Impl m = impl_run(s); c.trace(); bool ok = a < 2 && b < 2; if (m.ok != ok) c.fail(m.ok ? "it succeeded: " + m.out : "it failed: " + m.msg); });
    mc::sample("math.pow(2.0, -1.5)"); mc::sample("random.generate(-9223372036854775807, 9223372036854775807) with rand() = RAND_MAX");
    return mc::finish();
}
