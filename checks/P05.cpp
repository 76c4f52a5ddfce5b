#include "lang.hpp"
using std::string; using std::vector;
static const char *V[] = { "0", "1", "-1", "2", "9223372036854775807", "(-9223372036854775807 - 1)", "9007199254740993", "4294967296", "4294967297", "0.0", "(-0.0)", "1.0", "1.5", "-1.5", "9007199254740992.0", "9223372036854775807.0", "true", "false", "none", "''", "'a'", "'b'", "'ab'", "'A'", "'a '", "'abc'", "'abcdefgh'", "'abcdefgi'", "'\xc3\xa9'", "'\xc3\xa8'", "'\xc3\xa9\xc3\xa8'", "'\xc3\xa9\xc3\xa9'", "'\xf0\x9f\x98\x80'", "'\xf0\x9f\x98\x81'", "9223372036854775806", "9007199254740992", "int", "float", "String", "None", "type(1)", "type(none)", "Type", "bool", "List", "[]", "[1]", "{}", "{a: 1}", "f", "emit", "?int", "int|float", "any" };
static const int N = sizeof V / sizeof *V;
static const char *CMP[] = { "==", "!=", "<", "<=", ">", ">=" };
// boolean expression trees over a fixed shape grammar
static string tree(Dig &d, int depth, int &id, bool T)
{
    int k = depth == 0 ? (int)d(2) : (int)d(5);
    switch (k) {
    case 0: return "w(" + std::to_string(++id) + ")";
    case 1: return "a(" + std::to_string(++id) + ")";
    case 2: return "not " + tree(d, depth - 1, id, T);
    case 3: { string l = tree(d, depth - 1, id, T); return "(" + l + " and " + tree(d, depth - 1, id, T) + ")"; }
    default: { string l = tree(d, depth - 1, id, T); return "(" + l + " or " + tree(d, depth - 1, id, T) + ")"; }
    }
}
int main(int argc, char **argv)
{
    mc::init(argc, argv, "P05"); nj_warm(); bool T = mc::thorough();
    mc::declare_counter("outside_model");
    mc::RULE = "every operator over every pair of values; every boolean tree and answer string up to the stated depth";
    auto val = [&](const string &src, mc::Ctx &c) { if (c.failed) return; c.note(src); string e = agree(src, c); if (!e.empty()) c.fail(e); };
    const string P = "fun f() { return 1; } ";
    mc::run("comparisons of pairs", (uint64_t)N * N * 6, [&](uint64_t i, mc::Ctx &c) { Dig d(i); int o = d(6); string a = V[d(N)], b = V[d(N)]; val(P + "emit(" + a + " " + CMP[o] + " " + b + "); emit('after');", c); });
    mc::run("comparisons of variables with themselves", (uint64_t)N * 6, [&](uint64_t i, mc::Ctx &c) { Dig d(i); int o = d(6); val(P + "x = " + V[d(N)] + "; y = x; emit(x " + CMP[o] + " y); emit('after');", c); });
    mc::run("logic over pairs", (uint64_t)N * N * 2, [&](uint64_t i, mc::Ctx &c) { Dig d(i); int o = d(2); string a = V[d(N)], b = V[d(N)]; val(P + "emit(" + a + (o ? " and " : " or ") + b + "); emit('after');", c); });
    mc::run("conditions", (uint64_t)N * 5, [&](uint64_t i, mc::Ctx &c) { Dig d(i); int k = d(5); string a = V[d(N)]; static const char *F[] = { "if @: emit('t'); else emit('e'); emit('after');", "if @: emit('t'); emit('after');", "while @: { emit('b'); break; } emit('after');", "i = 0; do { emit('b'); i = i + 1; if i > 2: break; } while @; emit('after');", "emit(not @); emit('after');" }; string o = P; for (const char *p = F[k]; *p; p++) if (*p == '@') o += a; else o += *p; val(o, c); });
    // integers too close to be told apart by less precise types
    mc::run("comparisons of neighbours", 64ull * 2 * 5 * 5 * 6 * 3, [&](uint64_t i, mc::Ctx &c) {
        Dig d(i); int k = d(64), sg = d(2), da = (int)d(5) - 2, db = (int)d(5) - 2, o = d(6), f = d(3); unsigned long long v = 1ull << k; bool mn = k == 63; if (mn && !sg && f != 1) { da = -1 - abs(da); db = -1 - abs(db); }
        auto n = [&](int dl, bool fl) { string b = mn ? "9223372036854775807" : std::to_string(v); if (fl) return (sg ? "(-" : "(") + b + ".0)"; if (mn) return sg ? "(-9223372036854775807 - 1 + " + std::to_string(abs(dl)) + ")" : "(9223372036854775807 - " + std::to_string(abs(dl)) + ")"; return "(" + string(sg ? "-" : "") + b + " + " + (dl < 0 ? "(" : "") + std::to_string(dl) + (dl < 0 ? ")" : "") + ")"; };
        val("emit(" + n(da, f == 1) + " " + CMP[o] + " " + n(db, f == 2) + "); x = [" + n(da, false) + "]; y = {}; y[" + n(db, false) + "] = 1; emit(y[x[0]] == none, x[0] == " + n(db, false) + ");", c); });
    // total order / equivalence laws observed on the implementation alone
    mc::run("equality is an equivalence on scalars", 45ull * 45, [&](uint64_t i, mc::Ctx &c) { Dig d(i); string a = V[d(45)], b = V[d(45)]; string s = "emit(" + a + " == " + b + ", " + b + " == " + a + ", " + a + " != " + b + ");"; c.note(s); Impl m = impl_run(s); c.trace(); if (!m.ok) { c.fail("comparison failed: " + m.msg); return; } if (m.out != "@ T T F\n" && m.out != "@ F F T\n") c.fail("inconsistent: " + m.out); });
    // short circuit: operands log themselves; w answers by ask(), a by ask() too but may return a non boolean
    auto logic = [&](const string &expr, int nops, mc::Ctx &c) {
        string src = "fun w(n) { r = ask(); emit('w', n, r); return r; } fun a(n) { if ask(): r = ask(); else r = n; emit('a', n, r); return r; } emit(" + expr + ");";
        // all answer strings, extended on demand
        vector<vector<int>> work = { {} }; 
        while (!work.empty() && !c.failed) {
            vector<int> ans = work.back(); work.pop_back();
            RefOut r; c.note(src + " answers=" + [&] { string o; for (int x : ans) o += char('0' + x); return o; }());
            string e = agree(src, c, ans.empty() ? (const int *)"" : ans.data(), ans.size(), &r);
            if (!e.empty()) { c.fail(e); return; }
            if (r.horizon && (int)ans.size() < 2 * nops) { for (int b = 0; b < 2; b++) { auto v = ans; v.push_back(b); work.push_back(v); } }
        }
    };
    uint64_t count = T ? 5ull * 5 * 5 * 5 * 5 * 2 * 2 * 2 * 2 : 5 * 5 * 5 * 2 * 2 * 2;   // mixed-radix supply
    mc::run("short circuit trees", count, [&](uint64_t i, mc::Ctx &c) { Dig d(i); int id = 0; string t = tree(d, T ? 3 : 2, id, T); if (d.v) return; logic(t, id, c); });
    static const char *CH[] = { "w(1)", "a(2)", "w(3)", "not w(4)" };
    mc::run("unparenthesized chains", 2 * 2 * 2 * (T ? 24 : 8), [&](uint64_t i, mc::Ctx &c) { Dig d(i); const char *o1 = d(2) ? " and " : " or ", *o2 = d(2) ? " and " : " or ", *o3 = d(2) ? " and " : " or "; int p = d.v; string s[4]; for (int k = 0; k < 4; k++) s[k] = CH[(k + p) % 4]; logic(s[0] + o1 + s[1] + o2 + s[2] + (T ? o3 + s[3] : ""), 4, c); });
    mc::sample("emit([1] == [1]);"); mc::sample("emit((w(1) and not a(2)));"); mc::sample("emit('a' == 'abc');");
    return mc::finish();
}
