#include "lang.hpp"
using std::string; using std::vector;
static const char *OPS[] = { "=", "|", "or", "and", "<", ">", "<=", ">=", "==", "!=", "+", "-", "*", "/", "%", "," };
static const int NO = 16;
static const char *PRE[] = { "", "-", "not ", "?", "+", "- -", "not -", "-not " };
static const char *FORM[] = { "%", "%.k", "%[q]", "%(q)", "%->m(q)", "(%)", "%[q, r]", "%.k.j", "%(q, r)", "[%, q]", "{k: %}", "{%: q}", "%()", "{% + q: r}", "%.k(q)[r]", "5", "2.5", "'s'", "none", "true" };
static string form(const char *f, char id) { string o; for (; *f; f++) if (*f == '%') o += id; else o += *f; return o; }
static const char *CTX[] = { "@;", "x = @;", "f(@);", "f(@, y);", "f(y, @);", "[@];", "[y, @];", "x = {k: @};", "x = {(@): y};", "x = {y + @: z};", "x = {@: y};", "a[@];", "a[y, @];", "if @: z;", "while @: z;", "do z; while @;", "return @;", "(@);",
    "fun f(p = @) z;", "fun f(p: @) z;", "fun f(p: T = @, q) z;", "fun f(p: @ = z) z;", "(@).k;", "(@)(y);", "a->m(@);", "f((@));", "[(@)];", "not (@);", "x = y = @;", "a.k = @;", "a[@] = y;", "p, q = @;" };
static const int NC = sizeof CTX / sizeof *CTX;
static string sub(const char *t, const string &e) { string o; for (; *t; t++) if (*t == '@') o += e; else o += *t; return o; }
int main(int argc, char **argv)
{
    mc::init(argc, argv, "P01"); nj_warm(); bool T = mc::thorough();
    mc::declare_counter("outside_model"); mc::declare_counter("accepted");
    mc::RULE = "every expression up to the stated number of operators; state = distinct compiled code or diagnostic";
    mc::assumptions = { "the reference grammar in harness/ref.hpp states the language", "expressions are bounded in operators, not in depth of nesting contexts" };
    auto chk = [&](const string &src, mc::Ctx &c) { c.note(src); bool acc; string e = grammar(src, c, &acc); if (acc) mc::count("accepted"); if (!e.empty()) c.fail(e); };
    int L = T ? 6 : 5;
    mc::run("binary chains", nseq(NO, 1, L), [&](uint64_t i, mc::Ctx &c) {
        auto v = seq_at(i, NO, 1, L); string s = "a"; for (size_t k = 0; k < v.size(); k++) { s += " "; s += OPS[v[k]]; s += " "; s += char('b' + k); }
        chk(s + ";", c); });
    int B = T ? 3 : 2;
    mc::run("prefix operators in chains", nseq(NO * 8, 1, B - 1) * 8 + (T ? 0 : 0) + (B == 2 ? 8 * ipow(NO * 8, 2) / 1 : 0), [&](uint64_t i, mc::Ctx &c) {
        Dig d(i); string s = string(PRE[d(8)]) + "a"; auto v = seq_at(d.v, NO * 8, 1, 2);
        for (size_t k = 0; k < v.size(); k++) { s += string(" ") + OPS[v[k] / 8] + " " + PRE[v[k] % 8] + char('b' + k); }
        chk(s + ";", c); });
    mc::run("operand forms around one operator", 20ull * 20 * NO * 8 * (T ? 8 : 1), [&](uint64_t i, mc::Ctx &c) {
        Dig d(i); string l = form(FORM[d(20)], 'a'), r = form(FORM[d(20)], 'b'); int o = d(NO), p = d(8), q = T ? d(8) : 0;
        chk("x = " + string(PRE[p]) + l + " " + OPS[o] + " " + PRE[q] + r + ";", c);
        if (!c.failed) chk(string(PRE[p]) + l + " " + OPS[o] + " " + PRE[q] + r + ";", c); });
    int X = T ? 3 : 2;
    mc::run("contexts", nseq(NO, 0, X) * NC * 3, [&](uint64_t i, mc::Ctx &c) {
        Dig d(i); int ctx = d(NC), p = d(3); auto v = seq_at(d.v, NO, 0, X); string s = string(p == 0 ? "" : p == 1 ? "not " : "-") + "a";
        for (size_t k = 0; k < v.size(); k++) { s += string(" ") + OPS[v[k]] + " " + char('b' + k); }
        chk(sub(CTX[ctx], s), c); });
    // the values such expressions compute
    static const char *VO[] = { "+", "-", "*", "/", "%", "<", ">", "<=", ">=", "==", "!=", "and", "or" };
    static const char *VAL[] = { "7", "3", "2", "5", "9", "4" };
    int V = T ? 5 : 4;
    mc::run("values of chains", nseq(13, 1, V) * 4, [&](uint64_t i, mc::Ctx &c) {
        Dig d(i); int m = d(4); auto v = seq_at(d.v, 13, 1, V); string s = m == 1 ? "-7" : m == 2 ? "true" : m == 3 ? "not true" : "7";
        for (size_t k = 0; k < v.size(); k++) { s += string(" ") + VO[v[k]] + " " + ((m == 2 && v[k] >= 11) ? "false" : VAL[k + 1]); }
        string src = "emit(" + s + ");"; c.note(src); string e = agree(src, c); if (!e.empty()) c.fail(e); });
    mc::run("booleans and comparisons mixed", ipow(13, 3) * 8, [&](uint64_t i, mc::Ctx &c) {
        Dig d(i); int a = d(13), b = d(13), e = d(13), m = d(8);
        string s = string(m & 1 ? "true " : "1 ") + VO[a] + (m & 2 ? " 2 " : " false ") + VO[b] + (m & 4 ? " true " : " 2 ") + VO[e] + " 2";
        string src = "emit(" + s + ");"; c.note(src); string x = agree(src, c); if (!x.empty()) c.fail(x); });
    // the two groupings of a chain are different programs, so the comparison above can tell them apart
    mc::run("groupings are distinguishable", NO * NO, [&](uint64_t i, mc::Ctx &c) {
        Dig d(i); int a = d(NO), b = d(NO); string l = string("x = (a ") + OPS[a] + " b) " + OPS[b] + " c;", r = string("x = a ") + OPS[a] + " (b " + OPS[b] + " c);";
        c.note(l + "  /  " + r); Comp p = impl_compile(l), q = impl_compile(r); c.trace(2);
        if (p.ok && q.ok && p.code == q.code) c.fail("parentheses have no effect:\n" + p.code); });
    mc::sample("a = b or c < d;"); mc::sample("x = {k: -a and b + c};"); mc::sample("fun f(p: T | U = a, q) z;");
    return mc::finish();
}
