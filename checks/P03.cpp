#include "lang.hpp"
using std::string; using std::vector;
static const char *TOK[] = { "a", "b1", "_", "if", "iff", "else", "while", "do", "break", "return", "fun", "not", "and", "or", "none", "true", "false", "0", "12", "3.25", "'s'", "\"t\"", "(", ")", "[", "]", "{", "}", ".", ",", ":", ";", "=", "==", "!=", "<", "<=", ">", ">=", "+", "-", "*", "/", "%", "|", "->", "?" };
static const int NT = sizeof TOK / sizeof *TOK;
static const char *SEP[] = { "", " ", "\n", "\t\r\n ", "#\n", " # x = 'y;\n\t" };
static const char OPC[] = "+-*/<>!=,|%";
static const char *PROG[] = {
    "fun f(a,b:int=3){if a==b:return a,b;else return a-1;}x,y=f(-1,2);z=x<=-y;",
    "m={a:1,'b':2.5,fun g(s)return s.a;};q=m->g();while not true and x>=1:{do k=k*2%3;while none==m[1,2];break;}",
    "T=?int|float;s='it\\'s'+\"q\";i=not i or a/b!=c;" };
int main(int argc, char **argv)
{
    mc::init(argc, argv, "P03"); nj_warm(); bool T = mc::thorough();
    mc::declare_counter("outside_model"); mc::declare_counter("accepted");
    mc::RULE = "every adjacency of tokens, operator run, literal and separator up to the stated length; state = distinct compiled code, diagnostic or value";
    mc::assumptions = { "the reference lexer in harness/ref.hpp states the lexical rules" };
    auto chk = [&](const string &src, mc::Ctx &c) { if (c.failed) return; c.note(show(src)); bool acc; string e = grammar(src, c, &acc); if (acc) mc::count("accepted"); if (!e.empty()) c.fail(e); };
    auto val = [&](const string &src, mc::Ctx &c) { if (c.failed) return; c.note(show(src)); string e = agree(src, c); if (!e.empty()) c.fail(e); };
    mc::run("adjacent tokens", ipow(NT, 3) * 6, [&](uint64_t i, mc::Ctx &c) {
        Dig d(i); string sp = SEP[d(6)], a = TOK[d(NT)], b = TOK[d(NT)], e = TOK[d(NT)];
        chk("x = " + a + sp + b + sp + e + ";", c); chk(a + sp + b + sp + e + sp + ";", c); });
    int R = T ? 6 : 4;
    mc::run("operator runs", nseq(11, 1, R) * 6, [&](uint64_t i, mc::Ctx &c) {
        Dig d(i); int m = d(6); string r; for (int k : seq_at(d.v, 11, 1, R)) r += OPC[k];
        static const char *L[] = { "a", "a ", "(a)", "f()", "1", "'s'" }, *Q[] = { "b", "-b", "(b)", " b", "?b", "'s'" };
        chk(string(L[m]) + r + Q[m] + ";", c); chk(string("x = ") + L[m] + r + Q[m] + ";", c); });
    mc::run("operator runs evaluate", nseq(11, 1, T ? 4 : 3), [&](uint64_t i, mc::Ctx &c) {
        string r; for (int k : seq_at(i, 11, 1, T ? 4 : 3)) r += OPC[k]; val("emit(7" + r + "3);", c); val("x = 5; emit(x" + r + "x);", c); });
    // a separator between two tokens never matters
    for (int p = 0; p < 3; p++) {
        string src = PROG[p]; vector<ref::Token> t = ref::lex(src); string base = impl_compile(src).code; int n = t.size();
        if (base.empty()) { printf("P03: program %d is rejected: %s\n", p, impl_compile(src).msg.c_str()); }
        mc::run("separators in program " + std::to_string(p), (uint64_t)n * n * 6, [=](uint64_t i, mc::Ctx &c) {
            Dig d(i); int a = d(n), b = d(n), s = 1 + d(5); int s2 = 1 + d(1); (void)s2; string q;
            for (int k = 0; k < n; k++) { if (k == a || k == b) q += SEP[s]; else if (k && (isalnum(t[k].text[0]) || t[k].text[0] == '_') && t[k - 1].text.size() && (isalnum(t[k - 1].text.back()) || t[k - 1].text.back() == '_')) q += " "; q += t[k].text; }
            c.note(show(q)); Comp r = impl_compile(q); c.trace(); if (!r.ok) c.fail("rejected: " + r.msg); else if (r.code != base || base.empty()) c.fail("whitespace or a comment changed the meaning"); c.state(mc::hash(r.code)); });
    }
    // literals
    static const char *NUM[] = { "0", "00", "007", "1", "9", "10", "255", "65536", "2147483647", "2147483648", "4294967295", "4294967296", "999999999999999999", "1000000000000000000", "9223372036854775806", "9223372036854775807", "9223372036854775808", "9223372036854775809", "9223372036854775817", "9300000000000000000", "18446744073709551615", "18446744073709551616", "99999999999999999999", "0.0", "0.5", "00.5", "1.0", "1.", ".5", "1..2", "1.5.5", "3.14159", "0.1", "123456789.123456789", "9007199254740993.0", "1e5", "1.5e3", "0x10", "1_000", "1a", "1.a", "179769313486231570000000000000000000000000000000000000.5" };
    mc::run("number literals", sizeof NUM / sizeof *NUM, [&](uint64_t i, mc::Ctx &c) { val(string("emit(") + NUM[i] + ");", c); val(string("emit(-") + NUM[i] + ");", c); chk(string("x = ") + NUM[i] + ";", c); chk(string("x = ") + NUM[i] + ".k;", c); });
    mc::run("digit strings", T ? 40000 : 12000, [&](uint64_t i, mc::Ctx &c) { val("emit(" + std::to_string(i * 7919) + ", " + std::to_string(i) + "." + std::to_string(i * 31 % 1000) + ");", c); });
    mc::run("long literals", 160, [&](uint64_t i, mc::Ctx &c) { int n = 55 + i % 20; int k = i / 20; string s; switch (k) { case 0: s = string(n, '0'); break; case 1: s = string(n, '0') + "7"; break; case 2: s = string(n, '1'); break; case 3: s = string(n, '1') + ".5"; break; case 4: s = "0." + string(n - 2, '3'); break; case 5: s = string(n - 2, '0') + ".5"; break; case 6: s = "'" + string(n, 'x') + "'"; break; case 7: s = string(n, 'x'); break; }
        val(k == 7 ? s + " = 1; emit(" + s + ");" : "emit(" + s + ");", c); });
    static const char SC[] = { 'a', '\\', 'n', '\'', '"', '\n', 't', 'r', '#' }; int ns = sizeof SC, SL = T ? 6 : 5;
    mc::run("string literals", nseq(ns, 0, SL) * 2, [&](uint64_t i, mc::Ctx &c) { char q = i & 1 ? '"' : '\''; string s; for (int k : seq_at(i >> 1, ns, 0, SL)) s += SC[k]; val(string("emit(") + q + s + q + ");", c); });
    mc::run("every escape and byte in a string", 256 * 4, [&](uint64_t i, mc::Ctx &c) { char b = i / 4; char q = i & 1 ? '"' : '\''; if ((unsigned char)b >= 0x80) return; val(string("emit(") + q + (i & 2 ? "\\" : "") + b + "z" + q + ");", c); });
    mc::run("string length limit", 64, [&](uint64_t i, mc::Ctx &c) { int n = 4080 + i % 32; string s(n, 'x'); if (i >= 32) for (int k = 0; k < 8; k++) s += "\\n"; string src = "emit('" + s + "');"; c.note("string literal of " + std::to_string(n) + (i >= 32 ? "+8 escapes" : "")); string e = agree(src, c); if (!e.empty()) c.fail(e); });
    // identifiers and keywords
    static const char IC[] = { 'a', 'Z', '_', '0', '9', 'i', 'f' }; int ni = sizeof IC;
    mc::run("identifiers", nseq(ni, 1, T ? 5 : 4), [&](uint64_t i, mc::Ctx &c) { string s; for (int k : seq_at(i, ni, 1, T ? 5 : 4)) s += IC[k]; val(s + " = 3; emit(" + s + ");", c); });
    static const char *KW[] = { "if", "fun", "not", "and", "or", "else", "none", "true", "false", "return", "while", "break", "do" };
    mc::run("near keywords", 13 * 10, [&](uint64_t i, mc::Ctx &c) { string k = KW[i % 13], s; switch (i / 13) { case 0: s = k; break; case 1: s = k + "x"; break; case 2: s = "x" + k; break; case 3: s = k + "_"; break; case 4: s = "_" + k; break; case 5: s = k + "1"; break; case 6: s = k; s[0] -= 32; break; case 7: s = k.substr(0, k.size() - 1) + "z"; break; case 8: s = k + k; break; case 9: s = k.substr(1); break; }
        val(s + " = 3; emit(" + s + ");", c); val("m = {" + s + ": 1}; emit(m." + s + ");", c); });
    mc::run("comments", 6 * 6 * 6, [&](uint64_t i, mc::Ctx &c) { static const char *C[] = { "#", "#\n", "# a\n", "##\n#\n", " #'\n", "\n" }; Dig d(i); string a = C[d(6)], b = C[d(6)], e = C[d(6)]; val(a + "x = 1;" + b + "emit(x);" + e, c); val("emit('#');" + a + b + "emit(2)" + e + ";", c); });
    // a comment runs to the end of its line and no further, whatever it holds
    mc::run("every byte in a comment", 256 * 4, [&](uint64_t i, mc::Ctx &c) { char b = i / 4; if (b == '\n') return; static const char *F[] = { "x = 1; #@ x = 2;\nemit(x);", "x = 1; # a@x = 2;\nemit(x);", "#@@\nx = 1; emit(x);#@x = 2; emit(x);", "emit(1, #@2,\n3#@\n);" };
        string q; for (const char *f = F[i % 4]; *f; f++) q += *f == '@' ? b : *f; val(q, c); });
    mc::run("comment bodies", nseq(8, 0, T ? 6 : 5), [&](uint64_t i, mc::Ctx &c) { static const char B[] = { '\r', '\t', ' ', '#', '\'', 'a', ';', '\\' }; string q = "x = 1; #"; for (int k : seq_at(i, 8, 0, T ? 6 : 5)) q += B[k]; val(q + "x = 2;\nemit(x);", c); });
    // digits are decimal, however many zeros lead them
    mc::run("leading zeros", nseq(5, 1, T ? 6 : 5), [&](uint64_t i, mc::Ctx &c) { string s; for (int k : seq_at(i, 5, 1, T ? 6 : 5)) s += "01789"[k]; val("emit(" + s + ", -" + s + ", " + s + ".0" + s + ");", c); });
    mc::sample("a==-1;"); mc::sample("emit('\\\\\\'');"); mc::sample("emit(9223372036854775808);");
    return mc::finish();
}
