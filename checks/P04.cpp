#include "lang.hpp"
using std::string; using std::vector;
static const char *IN[] = { "0", "1", "-1", "2", "-2", "3", "-3", "7", "-7", "10", "63", "-64", "2147483647", "-2147483647", "2147483648", "-2147483648", "4294967295", "4294967296", "-4294967297", "3037000499", "3037000500", "-3037000500", "4611686018427387903", "4611686018427387904", "-4611686018427387904", "-4611686018427387905", "9223372036854775806", "9223372036854775807", "-9223372036854775807", "(-9223372036854775807 - 1)" };
static const char *FL[] = { "0.0", "(-0.0)", "1.0", "-1.0", "0.5", "-2.5", "3.0", "0.1", "1000000000000000000000.0", "9007199254740993.0", "9223372036854775807.0", "0.000000000000000000001", "(1.0 / 3.0)" };
static const char *OT[] = { "none", "true", "false", "'1'", "''", "[1]", "{}", "int", "f", "emit", "?int", "int | float" };
static const char *OP[] = { "+", "-", "*", "/", "%" };
int main(int argc, char **argv)
{
    mc::init(argc, argv, "P04"); nj_warm(); bool T = mc::thorough();
    mc::declare_counter("outside_model");
    mc::RULE = "every operator over every pair/triple of the boundary values; state = distinct observable result";
    mc::assumptions = { "double arithmetic of the host is IEEE-754 round-to-nearest" };
    vector<string> all; for (auto x : IN) all.push_back(x); for (auto x : FL) all.push_back(x); int nn = all.size(); for (auto x : OT) all.push_back(x); int n = all.size();
    auto val = [&](const string &src, mc::Ctx &c) { if (c.failed) return; c.note(src); string e = agree(src, c); if (!e.empty()) c.fail(e); };
    mc::run("binary operators", (uint64_t)n * n * 5, [&](uint64_t i, mc::Ctx &c) { Dig d(i); int o = d(5); string a = all[d(n)], b = all[d(n)]; val("fun f() { return 1; } emit(" + a + " " + OP[o] + " " + b + "); emit('after');", c); });
    mc::run("operators on variables and elements", (uint64_t)nn * nn * 5, [&](uint64_t i, mc::Ctx &c) { Dig d(i); int o = d(5); string a = all[d(nn)], b = all[d(nn)]; val(string("x = ") + a + "; l = [" + b + "]; m = {k: x " + OP[o] + " l[0]}; emit(m.k, x, l);", c); });
    mc::run("unary operators", n * 12, [&](uint64_t i, mc::Ctx &c) { static const char *U[] = { "-", "+", "- -", "-+", "+-", "+ +", "- - -", "not -", "-not ", "not ", "not not ", "-(1)*" }; Dig d(i); string a = all[d(n)]; val(string("fun f() { return 1; } emit(") + U[d.v] + a + "); emit('after');", c); });
    uint64_t S = T ? 41 : 21; long long h = S / 2;
    mc::run("small integers", S * S * 5, [&](uint64_t i, mc::Ctx &c) { Dig d(i); int o = d(5); string a = std::to_string((long long)d(S) - h), b = std::to_string((long long)d(S) - h); val("emit((" + a + ") " + OP[o] + " (" + b + "));", c); });
    mc::run("chains over boundary integers", T ? (uint64_t)nn * nn * nn * 25 : 14ull * 14 * 14 * 25, [&](uint64_t i, mc::Ctx &c) { Dig d(i); int o = d(5), p = d(5); uint64_t k = T ? nn : 14; auto pick = [&](uint64_t j) { static const int sel[] = { 0, 1, 2, 4, 7, 14, 17, 19, 22, 24, 27, 28, 29, 31 }; return all[T ? j : sel[j]]; };
        string a = pick(d(k)), b = pick(d(k)), e = pick(d(k)); val("emit(" + a + " " + OP[o] + " " + b + " " + OP[p] + " " + e + ");", c); });
    mc::run("accumulating until the limit", 5 * 12, [&](uint64_t i, mc::Ctx &c) { Dig d(i); int o = d(4), b = d(3), s = d(4); static const char *A[] = { "1", "-1", "3" }, *B[] = { "2", "3", "-2", "-7" };
        val(string("x = ") + A[b] + "; i = 0; while i < 80: { x = x " + OP[o] + " " + B[s] + "; emit(x); i = i + 1; }", c); });
    mc::run("powers of two around the limits", 64 * 3 * 5, [&](uint64_t i, mc::Ctx &c) { Dig d(i); int k = d(64), dl = (int)d(3) - 1, o = d(5); unsigned long long v = 1ull << k; string s = k == 63 ? "(-9223372036854775807 - 1)" : std::to_string(v); val("x = " + s + " + " + std::to_string(dl) + "; emit(x " + OP[o] + " x); emit(x " + OP[o] + " -1); emit(-1 " + OP[o] + " x);", c); });
    mc::sample("emit((-9223372036854775807 - 1) / -1);"); mc::sample("emit(2 % 0.0);"); mc::sample("emit(9223372036854775807 * -1 - 2);");
    return mc::finish();
}
