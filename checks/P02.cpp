#include "lang.hpp"
using std::string; using std::vector;
static const char *ALL[] = { "a", "1", "2.5", "'s'", "none", "true", "false", "if", "else", "while", "do", "break", "return", "fun", "not", "and", "or", "(", ")", "[", "]", "{", "}", ".", ",", ":", ";", "=", "->", "+", "-", "*", "|", "?", "<", "==", "%", "!", "@" };
static const int NA = sizeof ALL / sizeof *ALL;
static const char *STM[] = { "a", "if", "else", "while", "do", "break", "return", "fun", "{", "}", "(", ")", ":", ";", ",", "=" };
static const int NS = sizeof STM / sizeof *STM;
static const char *EXP[] = { "a", "1", "(", ")", "[", "]", "{", "}", ":", ",", ".", "->", "=", "-", "fun a() a;", "fun b(c) { }" };
static const int NE = sizeof EXP / sizeof *EXP;
static const char *ARGS[] = { "a", "b", ":", "=", ",", ")", "(", "|", "?", "1", "fun" };
static const int NAR = sizeof ARGS / sizeof *ARGS;
static const char *CORPUS[] = {
    "fun f(a, b: int = 3, c = [1, 2]) { if a == b: return a, b; else return c[0]; } x, y = f(1, 2);",
    "m = {a: 1, 'b': 2, 3: {x: none}, fun g(s) return s.a; fun h() { } }; m->g(); m.a.b = m['b'][1, 2];",
    "i = 0; while i < 10: { i = i + 1; if i % 2 == 0: { } else if i > 7: break; do { k = -i * 2.5 / 3; } while not true and false or k >= 1; }",
    "x = ((1)); y = [[], [1], [[2]]]; z = {}; fun e() ; " , "T = int | ?float | none; fun q(v: T = none, w: List | Map) { return v; } return q(none, {k: 'it\\'s'});",
    "# comment\nprint(\"a\\n\\t\\\\\", 'b'); # tail\nfor_ = _x1; fun a() fun b() fun c() return a()()(b->c(d).e[f]);" };
static const int NCORP = sizeof CORPUS / sizeof *CORPUS;
int main(int argc, char **argv)
{
    mc::init(argc, argv, "P02"); nj_warm(); bool T = mc::thorough();
    mc::declare_counter("outside_model"); mc::declare_counter("accepted");
    mc::RULE = "every token sequence / byte string up to the stated length; state = distinct compiled code or diagnostic";
    mc::assumptions = { "the reference grammar in harness/ref.hpp states the language", "AddressSanitizer detects the out-of-bounds accesses" };
    auto chk = [&](const string &src, mc::Ctx &c) { c.note(show(src)); bool acc; size_t m0 = nj_allocated(); string e = grammar(src, c, &acc); (void)m0; if (acc) mc::count("accepted"); if (!e.empty()) c.fail(e); };
    auto seqs = [&](const char *name, const char **tok, int n, int hi, const char *pre, const char *post) {
        mc::run(name, nseq(n, 0, hi), [=](uint64_t i, mc::Ctx &c) { auto v = seq_at(i, n, 0, hi); string s = pre; for (int t : v) { s += tok[t]; s += ' '; } s += post; chk(s, c); });
    };
    seqs("token sequences", ALL, NA, T ? 5 : 4, "", "");
    seqs("statement skeletons", STM, NS, T ? 6 : 5, "", "");
    seqs("statement skeletons, closed", STM, NS, T ? 6 : 5, "", "; }");
    seqs("expression skeletons", EXP, NE, T ? 6 : 5, "x = ", ";");
    seqs("inside a map literal", EXP, NE, T ? 6 : 5, "x = {", "};");
    seqs("argument lists", ARGS, NAR, T ? 7 : 5, "fun f(", ") a;");
    seqs("unclosed argument lists", ARGS, NAR, T ? 6 : 4, "fun f(", "");
    // nesting: break / return / tuples inside every pair of constructs
    static const char *WRAP[] = { "@", "{ @ }", "if a: @", "if a: @ else b;", "if a: b; else @", "while a: @", "do @ while a;", "fun f() @", "do { @ } while a;", "fun f() { @ }", "x = { fun g() @ };", "fun f(p = { fun g() @ }) a;" };
    static const char *LEAF[] = { "break;", "return a;", "return a, b;", "a, b = f();", "a, b = c;", "a, b;", "a;", "(a, b) = f();", "x = a, b;", "a->m;", "1 = a;", "a.b = c;", "a, b.c, d[e] = f();", "return (a, b), c;", "f(a, b) = c;", "a -> b() = c;" };
    mc::run("placement of break, return, tuples and targets", 12ull * 12 * 12 * 16, [&](uint64_t i, mc::Ctx &c) {
        Dig d(i); string s = LEAF[d(16)]; for (int k = 0; k < 3; k++) { const char *w = WRAP[d(12)]; string o; for (const char *p = w; *p; p++) if (*p == '@') o += s; else o += *p; s = o; } chk(s, c); });
    // bytes
    mc::run("byte strings", 1 + 256 + 65536 + (T ? 16777216ull : 0), [&](uint64_t i, mc::Ctx &c) { string s; for (int b : seq_at(i, 256, 0, 3)) s += (char)b; chk(s, c); });
    static const char BY[] = "a1.\"'\\n#\n ;=-+!<{\0\xe9"; int nb = sizeof BY - 1;
    mc::run("byte strings over a small alphabet", nseq(nb, 3, T ? 6 : 4), [&](uint64_t i, mc::Ctx &c) { string s; for (int b : seq_at(i, nb, 3, T ? 6 : 4)) s += BY[b]; chk(s, c); });
    // truncations and single edits of whole programs
    for (int k = 0; k < NCORP; k++) {
        string p = CORPUS[k];
        mc::run("truncations of program " + std::to_string(k), p.size() + 1, [=](uint64_t i, mc::Ctx &c) { chk(p.substr(0, i), c); });
        mc::run("deletions from program " + std::to_string(k), p.size() * 3, [=](uint64_t i, mc::Ctx &c) { string q = p; q.erase(i / 3, 1 + i % 3); chk(q, c); });
        mc::run("insertions into program " + std::to_string(k), (p.size() + 1) * NA, [=](uint64_t i, mc::Ctx &c) { string q = p; q.insert(i / NA, string(" ") + ALL[i % NA] + " "); chk(q, c); });
        if (T) mc::run("replacements in program " + std::to_string(k), p.size() * 128, [=](uint64_t i, mc::Ctx &c) { string q = p; q[i / 128] = (char)(i % 128); chk(q, c); });
    }
    // how many parts a construct may have
    mc::run("wide constructs", 70 * 22, [&](uint64_t i, mc::Ctx &c) {
        int n = i % 70, k = i / 70; string s;
        auto rep = [&](const string &x, const string &sep) { string o; for (int j = 0; j < n; j++) { if (j) o += sep; for (char ch : x) if (ch == '@') o += std::to_string(j); else o += ch; } return o; };
        switch (k) {
        case 0: s = "fun f() return " + rep("v@", ", ") + ";"; break;
        case 1: s = "return " + rep("@", ", ") + ";"; break;
        case 2: s = rep("v@", ", ") + " = f();"; break;
        case 3: s = rep("v[@]", ", ") + " = f();"; break;
        case 4: s = "f(" + rep("v@", ", ") + ");"; break;
        case 5: s = "m->f(" + rep("v@", ", ") + ");"; break;
        case 6: s = "fun f(" + rep("v@", ", ") + ") a;"; break;
        case 7: s = "fun f(" + rep("v@ : int = @", ", ") + ") a;"; break;
        case 8: s = "x = [" + rep("v@", ", ") + "];"; break;
        case 9: s = "x = {" + rep("v@ : @", ", ") + "};"; break;
        case 10: s = "x = {" + rep("fun v@() a;", " ") + "};"; break;
        case 11: s = rep("a@;", " "); break;
        case 12: s = "x = " + rep("a@", " + ") + ";"; break;
        case 13: s = "x = " + rep("a@", " and ") + ";"; break;
        case 14: s = "x = " + rep("a@", " | ") + ";"; break;
        case 15: s = rep("a@", " = ") + ";"; break;
        case 16: s = "x" + rep("[@]", "") + ";"; break;
        case 17: s = "x" + rep("(@)", "") + ";"; break;
        case 18: s = "x = " + string(n, '(') + "a" + string(n, ')') + ";"; break;
        case 19: s = "x = " + string(n, '[') + "a" + string(n, ']') + ";"; break;
        case 20: s = rep("if a@: { }", " else ") + ";"; break;
        case 21: s = rep("while a: ", "") + "break;"; break; }
        chk(s, c); });
    mc::sample("fun f(a : ) a;"); mc::sample("x = {a : fun a() a; };"); mc::sample("while a : break ;");
    return mc::finish();
}
