#include "lang.hpp"
#include "asm.hpp"
#include "corpus.hpp"
using std::string; using std::vector;
static void chk(const string &s, mc::Ctx &c, long limit = 400)
{
    if (c.failed) return; c.note(show(s)); RefOut r = vm_run(s, nullptr, 0, limit); nj_cfg k; memset(&k, 0, sizeof k); k.builtins = NJ_B_NATIVE; k.bytecode = 1; k.max_steps = limit;
    Impl m = impl_run(s, nullptr, 0, NJ_B_NATIVE, false, &k); c.trace(); c.transitions(m.steps); c.state(mc::hash(r.out, mc::hash(r.rets, mc::hash(r.why))));
    if (r.skip) mc::count("outside_model"); else if (r.horizon && m.horizon) mc::count("diverging"); else { string e = diff(r, m); if (!e.empty()) c.fail(e); else if (r.ok) mc::count("succeeded"); }
    if (m.leak) c.fail(std::to_string(m.leak) + " bytes leaked");
}
static const char *INS[] = { "NOPE", "POS", "NEG", "NOT", "ADD", "SUB", "MUL", "DIV", "MOD", "EQL", "NQL", "LSS", "GRT", "LEQ", "GEQ", "NLB", "STP", "ASS \"x\"", "ASS \"y\"", "POP 1", "POP 2", "POP 0", "CHECKTYPE 0, \"x\"", "CALL 0, 1", "CALL 1, 1", "CALL 2, 3", "SELECT", "SELECT2", "INSERT", "INSERT2", "PUSHINT 0", "PUSHINT 7", "PUSHFLT 2.5", "PUSHSTR \"k\"", "PUSHVAR \"x\"", "PUSHVAR \"emit\"", "PUSHTRU", "PUSHFLS", "PUSHNNE", "PUSHFUN top, 1, \"f\"", "PUSHLST 0", "PUSHMAP 2", "PUSHTYP", "PUSHNNETYP", "RETURN 0", "RETURN 1", "RETURN 2", "EXIT", "JUMP top", "JUMP end", "JUMPIFNOTANDPOP end", "JUMPIFANDPOP end", "PUSHVAR \"many\"" };
static const int NI = sizeof INS / sizeof *INS;
static const char *PRE[] = { "", "PUSHINT 3; PUSHINT 4;", "PUSHLST 0; PUSHINT 0; PUSHSTR \"v\";", "PUSHMAP 0; PUSHSTR \"k\"; PUSHINT 1; INSERT; PUSHSTR \"k\";", "PUSHVAR \"int\"; PUSHINT 3; PUSHVAR \"int\";", "PUSHTRU; PUSHFLS;", "PUSHINT 5; PUSHVAR \"emit\";", "PUSHSTR \"h\xc3\xa9\"; PUSHINT 1;", "PUSHNNE; PUSHTYP; PUSHFLT 0.5;", "PUSHINT 3; PUSHINT 3; PUSHVAR \"many\"; CALL 1, 3;", "PUSHINT 1; ASS \"x\"; POP 1; PUSHFUN fn, 2, \"f\";", "PUSHINT 9; PUSHFUN fn, 1, \"f\"; PUSHTYP;" };
static const int NP = sizeof PRE / sizeof *PRE;
static string wrap(int pre, const vector<int> &q) { string s = "top: NOPE; "; s += PRE[pre]; for (int k : q) s += string(" ") + INS[k] + ";"; return s + " end: EXIT; fn: ASS \"p\"; POP 1; PUSHVAR \"x\"; RETURN 1;"; }
// the sequence as the body of a function, called by frames that hold values of their own
static string inner(int pre, int params, const vector<int> &q) { string s = "NOPE; "; s += PRE[pre]; s += " PUSHSTR \"mine\"; PUSHINT 8; PUSHFUN body, " + std::to_string(params) + ", \"b\"; CALL 1, 1; PUSHVAR \"emit\"; CALL 2, 1; EXIT; body: NOPE; top: NOPE;"; for (int k : q) s += string(" ") + INS[k] + ";"; return s + " end: RETURN 1; fn: ASS \"p\"; POP 1; PUSHVAR \"x\"; RETURN 1;"; }
static const char *VALS[] = { "PUSHINT 0;", "PUSHINT -7;", "PUSHINT 9223372036854775807;", "PUSHINT -9223372036854775807; PUSHINT 1; SUB;", "PUSHINT -1;", "PUSHFLT 0.0;", "PUSHFLT -2.75;", "PUSHSTR \"\";", "PUSHSTR \"k\";", "PUSHTRU;", "PUSHNNE;", "PUSHLST 0;", "PUSHLST 2; PUSHINT 0; PUSHSTR \"e\"; INSERT;", "PUSHMAP 0; PUSHSTR \"k\"; PUSHINT 5; INSERT;", "PUSHVAR \"int\";", "PUSHNNETYP;", "PUSHVAR \"int\"; NLB;", "PUSHVAR \"int\"; PUSHVAR \"String\"; STP;", "PUSHVAR \"any\";", "PUSHVAR \"emit\";", "PUSHFUN fn, 1, \"f\";", "PUSHINT 2; PUSHVAR \"buffer\"; PUSHSTR \"new\"; SELECT; CALL 1, 1;" };
static const int NV = sizeof VALS / sizeof *VALS;
int main(int argc, char **argv)
{
    mc::init(argc, argv, "P22"); nj_warm(); bool T = mc::thorough(); mc::declare_counter("outside_model"); mc::declare_counter("diverging"); mc::declare_counter("succeeded");
    mc::RULE = "every instruction sequence up to the stated length from each of several stack states, every operand value of a palette, every placement of jumps; state = distinct outcome of the reference stack machine";
    int N = T ? 4 : 3;
    mc::run("instruction sequences", nseq(NI, 0, N), [&](uint64_t i, mc::Ctx &c) { chk(wrap(0, seq_at(i, NI, 0, N)), c); });
    int M = T ? 3 : 2;
    mc::run("instruction sequences from populated stacks", nseq(NI, 1, M) * (NP - 1), [&](uint64_t i, mc::Ctx &c) { chk(wrap(1 + i % (NP - 1), seq_at(i / (NP - 1), NI, 1, M)), c); });
    mc::run("instruction sequences in a called function", nseq(NI, 1, 2) * 3 + (T ? nseq(NI, 3, 3) : 0), [&](uint64_t i, mc::Ctx &c) { uint64_t n = nseq(NI, 1, 2); if (i >= 3 * n) chk(inner(2, 0, seq_at(i - 3 * n, NI, 3, 3)), c); else { int p = i / n; chk(inner(p == 0 ? 2 : p == 1 ? 3 : 10, p, seq_at(i % n, NI, 1, 2)), c); } });
    mc::run("instructions past the end", nseq(NI, 1, 2) * NP, [&](uint64_t i, mc::Ctx &c) { string s = string("top: NOPE; fn: end: ") + "NOPE; "; s = "top: NOPE; end: NOPE; fn: NOPE; " + string(PRE[i % NP]); for (int k : seq_at(i / NP, NI, 1, 2)) s += string(" ") + INS[k] + ";"; chk(s, c); });
    // operands of each instruction over every pair (triple) of kinds of values
    static const char *OP2[] = { "ADD", "SUB", "MUL", "DIV", "MOD", "EQL", "NQL", "LSS", "GRT", "LEQ", "GEQ", "STP", "SELECT", "SELECT2", "CHECKTYPE 3, \"q\"", "NEG", "NOT", "POS", "NLB", "PUSHTYP", "CALL 1, 2", "JUMPIFANDPOP end", "JUMPIFNOTANDPOP end", "INSERT", "INSERT2", "ASS \"v\"" }; const int NO = sizeof OP2 / sizeof *OP2;
    mc::run("instructions over pairs of values", NO * NV * NV, [&](uint64_t i, mc::Ctx &c) { Dig d(i); int o = d(NO), a = d(NV), b = d(NV); chk(string(VALS[a]) + " " + VALS[b] + " " + OP2[o] + "; end: EXIT; fn: RETURN 1;", c); });
    mc::run("insertions over triples of values", 2 * NV * NV * NV, [&](uint64_t i, mc::Ctx &c) { Dig d(i); int o = d(2), a = d(NV), b = d(NV), e = d(NV); chk(string(VALS[a]) + " " + VALS[b] + " " + VALS[e] + (o ? " INSERT2" : " INSERT") + "; EXIT; fn: RETURN 1;", c); });
    // integer operands
    static const char *NUM[] = { "-9223372036854775807", "-4294967297", "-4294967296", "-4294967295", "-2147483649", "-2147483648", "-2147483647", "-33", "-1", "0", "1", "2", "3", "7", "8", "9", "15", "16", "17", "31", "32", "33", "255", "65536", "2147483646", "2147483647", "2147483648", "4294967295", "4294967296", "4294967297", "4294967298", "9223372036854775806", "9223372036854775807", "fn", "end" };
    const int NN = sizeof NUM / sizeof *NUM;
    static const char *NI1[] = { "POP #", "CALL #, 1", "CALL 1, #", "CALL 0, #", "RETURN #", "PUSHFUN fn, #, \"f\"", "PUSHFUN fn, #, \"f\"; CALL 0, 1", "PUSHFUN fn, #, \"f\"; CALL 2, 2", "PUSHLST #", "PUSHMAP #", "CHECKTYPE #, \"a\"", "PUSHINT #", "PUSHLST #; PUSHINT 0; PUSHINT 5; INSERT", "PUSHMAP #; PUSHINT 0; PUSHINT 5; INSERT" }; const int N1 = sizeof NI1 / sizeof *NI1;
    mc::run("integer operands", NN * N1 * NP, [&](uint64_t i, mc::Ctx &c) { Dig d(i); string n = NUM[d(NN)], t = NI1[d(N1)]; t.replace(t.find('#'), 1, n); int p = d(NP); if (p == 11 && t.find("fn") != string::npos) p = 0; chk("top: NOPE; " + string(PRE[p]) + " " + t + "; end: EXIT; fn: ASS \"p\"; POP 1; EXIT;", c); });
    // control flow: jumps to every instruction
    int K = T ? 5 : 4; int A = 4 + 3 * K;
    mc::run("jumps", ipow(A, K), [&](uint64_t i, mc::Ctx &c) { Dig d(i); string s; for (int k = 0; k < K; k++) { int x = d(A); s += "L" + std::to_string(k) + ": "; if (x == 0) s += "PUSHTRU; "; else if (x == 1) s += "PUSHFLS; "; else if (x == 2) s += "PUSHINT " + std::to_string(k) + "; PUSHVAR \"emit\"; CALL 1, 1; POP 1; "; else if (x == 3) s += "RETURN 0; "; else { x -= 4; static const char *J[] = { "JUMP", "JUMPIFANDPOP", "JUMPIFNOTANDPOP" }; s += string(J[x % 3]) + " L" + std::to_string(x / 3) + "; "; } } chk(s + "EXIT;", c, 200); });
    // calls: parameters, arguments, results wanted and returned
    mc::run("calls", 6 * 6 * 11 * 11, [&](uint64_t i, mc::Ctx &c) { Dig d(i); int np = d(6), na = d(6), want = d(11), ret = d(11); string s; for (int k = 0; k < na; k++) s += "PUSHINT " + std::to_string(k + 1) + "; "; s += "PUSHFUN f, " + std::to_string(np) + ", \"f\"; CALL " + std::to_string(na) + ", " + std::to_string(want) + "; "; s += want > 7 ? "ASS \"r\"; POP " + std::to_string(want) + "; EXIT; f: " : "EXIT; f: "; for (int k = np; k-- > 0;) s += "ASS \"p" + std::to_string(k) + "\"; POP 1; "; for (int k = 0; k < ret; k++) s += k < np ? "PUSHVAR \"p" + std::to_string(k) + "\"; " : "PUSHINT " + std::to_string(100 + k) + "; "; chk(s + "RETURN " + std::to_string(ret) + ";", c); });
    mc::run("closures", 6 * 6 * 6 * 6, [&](uint64_t i, mc::Ctx &c) { Dig d(i); static const char *B[] = { "PUSHVAR \"x\"; PUSHVAR \"emit\"; CALL 1, 1; POP 1;", "PUSHINT 1; ASS \"x\"; POP 1;", "PUSHSTR \"s\"; ASS \"x\"; POP 1;", "PUSHFUN g, 0, \"g\"; CALL 0, 1; POP 1;", "PUSHFUN g, 0, \"g\"; ASS \"x\"; POP 1;", "PUSHVAR \"x\"; CALL 0, 1; POP 1;" }; string s = B[d(6)]; s += B[d(6)]; s += " PUSHFUN f, 0, \"f\"; CALL 0, 1; EXIT; f: "; s += B[d(6)]; s += " PUSHVAR \"x\"; RETURN 1; g: "; s += B[d(6)]; chk(s + " PUSHVAR \"x\"; RETURN 1;", c, 800); });
    mc::run("nesting of calls and operands", 20 * 20, [&](uint64_t i, mc::Ctx &c) { int dep = i / 20, ops = i % 20; string s = "PUSHINT " + std::to_string(dep) + "; PUSHFUN f, 1, \"f\"; ASS \"f\"; CALL 1, 1; EXIT; f: ASS \"n\"; PUSHINT 0; EQL; JUMPIFANDPOP base; "; for (int k = 0; k < ops; k++) s += "PUSHINT " + std::to_string(k) + "; "; s += "PUSHVAR \"n\"; PUSHINT 1; SUB; PUSHVAR \"f\"; CALL 1, 1; "; for (int k = 0; k < ops; k++) s += "ADD; "; chk(s + "RETURN 1; base: PUSHINT 5; RETURN 1;", c, 3000); });
    // compiled programs run like their disassembly, in the machine and in the model
    mc::run("corpus programs disassembled", NCORPUS, [&](uint64_t i, mc::Ctx &c) {
        nj_comp k; string src = CORPUS[i]; c.note(show(src)); nj_compile(src.data(), src.size(), &k); if (!k.ok) { c.fail("rejected: " + string(k.msg)); return; } ref::Code code; code_from_exe(k.exe, code); nj_exe_free(k.exe); string text = ref::to_asm(code);
        Impl a = impl_run(src); nj_cfg g; memset(&g, 0, sizeof g); g.builtins = NJ_B_NATIVE; g.bytecode = 1; Impl b = impl_run(text, nullptr, 0, NJ_B_NATIVE, false, &g); if (a.ok != b.ok || a.out != b.out || a.rets != b.rets) c.fail("disassembled:\n" + text + "\n" + a.out + a.rets + a.msg + "\n---\n" + b.out + b.rets + b.msg); chk(text, c, 200000); });
    mc::sample("PUSHTRU; JUMPIFANDPOP L3; JUMP L0; EXIT;");
    return mc::finish();
}
