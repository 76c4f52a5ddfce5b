#include "lang.hpp"
#include "asm.hpp"
#include "corpus.hpp"
using std::string; using std::vector;
static Comp impl_assemble(const string &s, ref::Code *code = nullptr)
{
    nj_comp c; char *p = (char *)malloc(s.size() + 1); memcpy(p, s.data(), s.size()); p[s.size()] = 0; nj_assemble(p, s.size(), &c); free(p);
    Comp r{ (bool)c.ok, "", c.msg, c.err_type, c.offset, c.err_occurred };
    if (c.ok) { r.code = code_of(c.exe); if (code) code_from_exe(c.exe, *code); nj_exe_free(c.exe); } return r;
}
static void chk(const string &s, mc::Ctx &c)
{
    if (c.failed) return; c.note(show(s)); ref::Code code; string why; bool ok = true; try { code = ref::assemble(s); } catch (ref::Err &e) { ok = false; why = e.why; } catch (ref::Unsupported &) { mc::count("outside_model"); return; }
    Comp m = impl_assemble(s); c.trace(); c.transitions(1); c.state(mc::hash(ok ? m.code : m.msg));
    if (m.ok != ok) c.fail(ok ? "valid, but refused: " + m.msg : "accepted, but " + why);
    else if (!ok) { if (!m.occurred) c.fail("refused without an error"); else if (m.off < -1 || m.off > (int)s.size()) c.fail("error outside of the text: " + std::to_string(m.off)); }
    else { if (m.occurred) c.fail("assembled with an error set"); else if (m.code != ref::listing(code)) c.fail("assembled to\n" + m.code + "instead of\n" + ref::listing(code)); else mc::count("accepted"); }
}
static const char *TOK[] = { "JUMP", "PUSHINT", "EXIT", "PUSHFUN", "a", "_b", "NOSUCH", "1", "-2", "2.5", "\"s\"", ":", ";", ",", "jump", "'" };
static const int NT = sizeof TOK / sizeof *TOK;
int main(int argc, char **argv)
{
    mc::init(argc, argv, "P21"); nj_warm(); bool T = mc::thorough(); mc::declare_counter("outside_model"); mc::declare_counter("accepted");
    mc::RULE = "every token sequence, operand list, literal spelling, label arrangement and single-point mutation up to the stated sizes; state = distinct assembled code or diagnostic";
    int N = T ? 5 : 4;
    mc::run("token sequences", nseq(NT, 0, N) * 2, [&](uint64_t i, mc::Ctx &c) { string s; bool sp = i % 2; for (int k : seq_at(i / 2, NT, 0, N)) { if (sp && !s.empty()) s += " "; s += TOK[k]; } chk(s, c); });
    static const char *AR[] = { "1", "-7", "2.5", "\"s\"", "a", "nowhere" };
    mc::run("opcodes and operands", (ref::OPS.size() + 3) * nseq(6, 0, T ? 5 : 4), [&](uint64_t i, mc::Ctx &c) { uint64_t o = i % (ref::OPS.size() + 3); string n = o < ref::OPS.size() ? ref::OPS[o].name : o == ref::OPS.size() ? "NOP" : o == ref::OPS.size() + 1 ? "PUSHINTX" : "Pop"; string s = n; bool f = true; for (int k : seq_at(i / (ref::OPS.size() + 3), 6, 0, T ? 5 : 4)) { s += f ? " " : ", "; f = false; s += AR[k]; } chk("NOPE; a: " + s + ";", c); chk(s + "; a: EXIT", c); });
    for (int p = 0; p < 3; p++) { static const char *PRE[] = { "", "PUSHINT ", "a: POP 1; JUMP a" }, *B = "aP_019:;,\"\\'+-. \t\n\v#\x80\xff()n"; int nb = strlen(B) + 1, L = T ? 5 : 4; // the last is NUL
        mc::run(string("byte strings after \"") + PRE[p] + "\"", nseq(nb, 0, L), [=](uint64_t i, mc::Ctx &c) { string s = PRE[p]; for (int k : seq_at(i, nb, 0, L)) s += B[k]; chk(s, c); }); }
    int Z = T ? 7 : 6;
    mc::run("number spellings", nseq(7, 0, Z) * 2, [&](uint64_t i, mc::Ctx &c) { string s = i % 2 ? "PUSHFLT " : "PUSHINT "; for (int k : seq_at(i / 2, 7, 0, Z)) s += "01389.-"[k]; chk(s, c); chk(s + ";EXIT;", c); });
    mc::run("decimal fractions", 10000, [&](uint64_t i, mc::Ctx &c) { char t[64]; snprintf(t, 64, "PUSHFLT %d.%02d;", (int)i / 100, (int)i % 100); chk(t, c); snprintf(t, 64, "PUSHFLT -0.%05d;", (int)i * 7); chk(t, c); });
    vector<string> BIG = { "9223372036854775806", "9223372036854775807", "9223372036854775808", "9223372036854775817", "9999999999999999999", "18446744073709551615", "18446744073709551616", "00000000000000000000000000000001", "92233720368547758070", "2147483648", "4294967296" }; for (int k = 1; k < 60; k++) BIG.push_back(string(k, '9'));
    mc::run("big numbers", BIG.size() * 3 * 2, [&](uint64_t i, mc::Ctx &c) { string b = BIG[i / 6]; static const char *S[] = { "", "-", "+" }; chk("PUSHINT " + string(S[i % 3]) + b + (i / 3 % 2 ? ";" : ""), c); chk("PUSHFLT " + string(S[i % 3]) + b + ".5;", c); chk("PUSHFLT " + string(S[i % 3]) + b + ".0000000000000000000001;", c); });
    int Q = T ? 7 : 6;
    mc::run("string spellings", nseq(6, 0, Q), [&](uint64_t i, mc::Ctx &c) { string s = "PUSHSTR \""; for (int k : seq_at(i, 6, 0, Q)) s += "a\\\"n;\n"[k]; chk(s, c); chk(s + "\"; EXIT;", c); });
    mc::run("string lengths", 1040 * 4, [&](uint64_t i, mc::Ctx &c) { int n = i / 4; string s = "PUSHSTR \""; for (int k = 0; k < n; k++) s += i % 4 == 1 ? "\\n" : i % 4 == 2 && k % 2 ? "\\\\" : "x"; if (i % 4 != 3) s += "\"; POP 1;"; chk(s, c); });
    mc::run("escapes", 256, [&](uint64_t i, mc::Ctx &c) { chk(string("PUSHSTR \"a\\") + (char)i + "b\";", c); chk(string("PUSHSTR \"") + (char)i + "\";", c); chk(string("PUSHSTR \"a\\") + (char)i, c); });
    // labels
    int SL = T ? 4 : 3; static const char *LB[] = { "", "a: ", "b : ", "ab:" }, *ST[] = { "NOPE", "JUMP a", "JUMPIFANDPOP b", "PUSHFUN ab, 2, \"a\"", "PUSHINT a" };
    mc::run("labels", nseq(20, 1, SL), [&](uint64_t i, mc::Ctx &c) { string s; for (int k : seq_at(i, 20, 1, SL)) s += string(LB[k % 4]) + ST[k / 4] + "; "; chk(s, c); });
    mc::run("long programs", 200 * 3, [&](uint64_t i, mc::Ctx &c) { int n = 1 + i / 3 * (T ? 20 : 7); string s; for (int k = 0; k < n; k++) s += "L" + std::to_string(k) + (i % 3 == 0 ? ": JUMP L" + std::to_string(n - 1 - k) : i % 3 == 1 ? ": PUSHSTR \"" + string(k % 90, 'y') + "\"" : k % 2 ? ": JUMP L0" : ": PUSHFUN L" + std::to_string((k * 7) % n) + ", " + std::to_string(k) + ", \"f\"") + ";\n"; chk(s, c); });
    mc::run("identifier lengths", 300, [&](uint64_t i, mc::Ctx &c) { string l(i + 1, 'q'); chk("JUMP " + l + "; " + l + ": EXIT;", c); chk(l + ": JUMP " + l + "q", c); chk(l, c); chk("EXIT" + l + ";", c); chk(string("x: ") + "NOPE" + string(i, 'E'), c); });
    mc::run("labels that almost coincide", 140 * 140 * 3, [&](uint64_t i, mc::Ctx &c) { Dig d(i); int k = d(3), at = d(140), n = d(140) + 1; if (at >= n) return; string a(n, 'q'), b = a; if (k == 0) b[at] = 'Q'; else if (k == 1) b[at] = '9'; else b.insert(at, 1, '_'); if (b[0] == '9') return; chk("JUMP " + a + "; JUMP " + b + "; " + a + ": NOPE; NOPE; " + b + ": JUMP " + a + "; JUMP " + b + "; EXIT;", c); });
    // compiled programs, disassembled: assemble to the same code; each mutation is judged like by the model
    for (int p = 0; p < NCORPUS; p++) {
        nj_comp k; string src = CORPUS[p]; nj_compile(src.data(), src.size(), &k); if (!k.ok) continue; ref::Code code; string want = code_of(k.exe); bool got = code_from_exe(k.exe, code); nj_exe_free(k.exe); string text = ref::to_asm(code); int n = text.size();
        static const char RP[] = "a1:;,\" \\";
        mc::run("program " + std::to_string(p) + " disassembled, assembled and mutated", 1 + (T ? n * 10 : n * 3), [=](uint64_t i, mc::Ctx &c) {
            if (!i) { c.note(show(text)); if (!got || ref::listing(code) != want) c.fail("the listing isn't readable\n" + want + ref::listing(code)); Comp m = impl_assemble(text); if (!m.ok) c.fail("refused: " + m.msg); else if (m.code != want) c.fail("assembles to different code\n" + m.code + "---\n" + want); chk(text, c); return; }
            i--; int at = i % n, m = i / n; if (!T && m == 2) m = 2 + at % 8; string s = text; if (m == 0) s.resize(at); else if (m == 1) s.erase(at, 1); else s[at] = RP[m - 2]; chk(s, c); });
    }
    // the comparison of executables agrees with the one of their listings
    vector<string> EQ; for (auto n : { "0", "1", "-1", "2147483648", "4294967295", "4294967296", "4294967297", "9223372036854775807" }) { EQ.push_back(string("PUSHINT ") + n + ";"); EQ.push_back(string("POP ") + n + "; EXIT;"); EQ.push_back(string("a: CALL ") + n + ", 2;"); EQ.push_back(string("a: CALL 2, ") + n + ";"); } for (auto n : { "PUSHSTR \"a\";", "PUSHSTR \"ab\";", "PUSHSTR \"\";", "PUSHVAR \"a\";", "PUSHFLT 1.5;", "PUSHFLT 1.25;", "NOPE;", "NOPE; NOPE;", "", "NOPE; a: JUMP a;", "a: NOPE; JUMP a;", "a: PUSHFUN a, 1, \"f\"; NOPE;", "a: PUSHFUN b, 1, \"f\"; b: NOPE;", "a: PUSHFUN a, 1, \"g\"; NOPE;", "a: PUSHFUN a, 2, \"f\"; NOPE;", "a: CHECKTYPE 1, \"x\";", "a: CHECKTYPE 1, \"y\";", "EXIT; PUSHSTR \"b\"; PUSHSTR \"a\";", "EXIT; PUSHSTR \"a\"; PUSHSTR \"b\";", "PUSHFLT 1.5000000001;", "PUSHFLT 1.5000001;", "PUSHFLT 100000000000000000000.0;", "PUSHFLT 100000000000000016384.0;", "PUSHFLT 0.0;", "PUSHFLT 0.0000000000000000000000000000000000000000000001;" }) EQ.push_back(n);
    for (int n : { 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 511, 512, 1000 }) for (int k = 0; k < 3; k++) EQ.push_back("PUSHSTR \"" + string(n, 'x') + (k == 1 ? "y" : k == 2 ? "z" : "") + "\";");
    mc::run("comparison of executables", EQ.size() * EQ.size(), [&](uint64_t i, mc::Ctx &c) { string a = EQ[i % EQ.size()], b = EQ[i / EQ.size()]; c.note(show(a) + "   versus   " + show(b)); nj_comp x, y; nj_assemble(a.data(), a.size(), &x); nj_assemble(b.data(), b.size(), &y); if (!x.ok || !y.ok) { c.fail("refused"); return; } bool e = nj_equiv(x.exe, y.exe), w = code_of(x.exe) == code_of(y.exe); c.trace(); c.transitions(1); c.state(mc::hash(code_of(x.exe) + "|" + code_of(y.exe))); if (e != w) c.fail(e ? "considered equal" : "considered different"); nj_exe_free(x.exe); nj_exe_free(y.exe); });
    mc::sample("a: PUSHFUN b, 2, \"f\"; b: JUMP a;"); mc::sample("PUSHFLT -0.00007;");
    return mc::finish();
}
