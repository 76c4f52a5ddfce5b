// Reference model of the assembly language and of the stack machine that runs
// the bytecode, written from the documentation of the instruction set.
#ifndef ASM_HPP
#define ASM_HPP
#include "lang.hpp"
namespace ref {
enum OT { O_IDX, O_INT, O_FLT, O_STR };
struct OpInfo { const char *name; std::vector<OT> ops; };
static const std::vector<OpInfo> OPS = {
    {"NOPE",{}},{"POS",{}},{"NEG",{}},{"NOT",{}},{"ADD",{}},{"SUB",{}},{"MUL",{}},{"DIV",{}},{"MOD",{}},{"EQL",{}},{"NQL",{}},{"LSS",{}},{"GRT",{}},{"LEQ",{}},{"GEQ",{}},{"NLB",{}},{"STP",{}},
    {"ASS",{O_STR}},{"POP",{O_INT}},{"CHECKTYPE",{O_INT,O_STR}},{"CALL",{O_INT,O_INT}},{"SELECT",{}},{"SELECT2",{}},{"INSERT",{}},{"INSERT2",{}},{"PUSHINT",{O_INT}},{"PUSHFLT",{O_FLT}},{"PUSHSTR",{O_STR}},{"PUSHVAR",{O_STR}},
    {"PUSHTRU",{}},{"PUSHFLS",{}},{"PUSHNNE",{}},{"PUSHFUN",{O_IDX,O_INT,O_STR}},{"PUSHLST",{O_INT}},{"PUSHMAP",{O_INT}},{"PUSHTYP",{}},{"PUSHNNETYP",{}},{"RETURN",{O_INT}},{"EXIT",{}},{"JUMPIFNOTANDPOP",{O_IDX}},{"JUMPIFANDPOP",{O_IDX}},{"JUMP",{O_IDX}} };
struct Operand { OT t; long long i = 0; double d = 0; string s; };
struct Ins { int op; vector<Operand> a; int off = 0; };
typedef vector<Ins> Code;
static int op_of(const string &n) { for (size_t i = 0; i < OPS.size(); i++) if (n == OPS[i].name) return i; return -1; }
static string listing(const Code &c)        // the format of nj_fetch
{
    string o; char t[64];
    for (auto &x : c) { o += OPS[x.op].name; for (auto &a : x.a) switch (a.t) { case O_IDX: snprintf(t, 64, " @%lld", a.i); o += t; break; case O_INT: snprintf(t, 64, " %lld", a.i); o += t; break; case O_FLT: snprintf(t, 64, " f%.17g", a.d); o += t; break; case O_STR: o += " \"" + a.s + "\""; break; } o += "\n"; }
    return o;
}
// throws Err; throws Unsupported for the corners that nothing specifies
static Code assemble(const string &s)
{
    Code code; std::map<string, long long> labels; struct Fix { size_t ins; int arg; string l; int off; }; vector<Fix> fix;
    size_t p = 0, n = s.size(); auto ws = [&]() { while (p < n && is_ws(s[p])) p++; };
    auto idstart = [&]() { return p < n && (is_al(s[p]) || s[p] == '_'); };
    auto ident = [&]() { size_t q = p; while (p < n && (is_al(s[p]) || is_dg(s[p]) || s[p] == '_')) p++; return s.substr(q, p - q); };
    while (ws(), p < n) {
        if (!idstart()) throw Err{ "opcode expected", (int)p };
        size_t off = p; string id = ident(); ws();
        if (p < n && s[p] == ':') {
            p++; ws(); if (!idstart()) throw Err{ "opcode expected after label", (int)p };
            if (!labels.emplace(id, code.size()).second) throw Err{ "label defined twice", (int)p };
            off = p; id = ident(); ws();
        }
        Ins in; in.off = off; in.op = op_of(id); if (in.op < 0) throw Err{ "unknown opcode", (int)p };
        struct Arg { int k; Operand o; string l; }; vector<Arg> args;   // k: 0 int, 1 float, 2 string, 3 label
        if (p < n && s[p] != ';') for (;;) {
            Arg a; char c = p < n ? s[p] : 0;
            if (p >= n) throw Err{ "operand expected", (int)p };
            if (c == '"') {
                a.k = 2; p++;
                for (;;) { if (p >= n) throw Err{ "unterminated string", (int)p }; char d = s[p++]; if (d == '"') break; if (d == 0) throw Err{ "null byte", (int)p };
                    if (d == '\\') { if (p >= n) throw Err{ "unterminated string", (int)p }; char e = s[p++]; switch (e) { case 'n': d = '\n'; break; case 't': d = '\t'; break; case 'r': d = '\r'; break; case '"': case '\\': d = e; break; default: throw Err{ "bad escape", (int)p }; } }
                    a.o.s += d; }
                if (a.o.s.size() > 1024) throw Err{ "string too long", (int)p };
            } else if (is_dg(c) || c == '-' || c == '+') {
                size_t q = p; if (!is_dg(c)) p++;
                if (p >= n || !is_dg(s[p])) throw Err{ "digit expected", (int)p };
                while (p < n && is_dg(s[p])) p++;
                if (p + 1 < n && s[p] == '.' && is_dg(s[p + 1])) { p++; while (p < n && is_dg(s[p])) p++; a.k = 1; a.o.d = strtod(s.substr(q, p - q).c_str(), nullptr); }
                else { a.k = 0; __int128 v = 0; bool neg = c == '-'; for (size_t k = q + (is_dg(c) ? 0 : 1); k < p; k++) { v = v * 10 + (s[k] - '0'); if (v > (__int128)INT64_MAX + 1) v = (__int128)INT64_MAX + 2; } if (v == (__int128)INT64_MAX + 1 && neg) throw Unsupported{ "least integer" }; if (v > INT64_MAX) throw Err{ "integer too big", (int)p }; a.o.i = neg ? -(long long)v : (long long)v; }
            } else if (idstart()) { a.k = 3; a.l = ident(); }
            else throw Err{ "operand expected", (int)p };
            args.push_back(a); ws(); if (p >= n || s[p] == ';') break; if (s[p] != ',') throw Err{ "',' or ';' expected", (int)p }; p++; ws();
        }
        if (p < n) p++;
        auto &sig = OPS[in.op].ops; if (args.size() != sig.size()) throw Err{ "operand count", (int)p };
        for (size_t k = 0; k < sig.size(); k++) {
            Arg &a = args[k]; a.o.t = sig[k];
            if (a.k == 3 ? sig[k] != O_IDX && sig[k] != O_INT : a.k == 0 ? sig[k] != O_INT : a.k == 1 ? sig[k] != O_FLT : sig[k] != O_STR) throw Err{ "operand type", (int)p };
            if (a.k == 3) fix.push_back({ code.size(), (int)k, a.l, (int)p });
            in.a.push_back(a.o);
        }
        code.push_back(in);
    }
    for (auto &f : fix) { auto it = labels.find(f.l); if (it == labels.end()) throw Err{ "undefined label", -1 }; code[f.ins].a[f.arg].i = it->second; }
    return code;
}
static string asm_quote(const string &s) { return quote(s); }
// assembly text of a listing produced by nj_fetch, one label per jump target
static string to_asm(const Code &c)
{
    std::set<long long> L; for (auto &x : c) for (auto &a : x.a) if (a.t == O_IDX) L.insert(a.i);
    string o; char t[512];
    for (size_t i = 0; i < c.size(); i++) { if (L.count(i)) { snprintf(t, 512, "L%zu: ", i); o += t; } o += OPS[c[i].op].name; bool first = true;
        for (auto &a : c[i].a) { o += first ? " " : ", "; first = false; switch (a.t) { case O_IDX: snprintf(t, 512, "L%lld", a.i); o += t; break; case O_INT: snprintf(t, 512, "%lld", a.i); o += t; break; case O_FLT: snprintf(t, 512, "%.340f", a.d); o += t; break; case O_STR: o += asm_quote(a.s); break; } }
        o += ";\n"; }
    return o;
}
// ---- the stack machine
struct VM : Interp {
    Code code; int frames = 0; std::map<Env*, vector<string>> ord;   // order of definition of the locals
    std::function<void(long, bool)> on_frame; long ticks = 0, stop_at = -1; vector<long> live;      // instruction being executed in each frame
    void tick() { if (ticks++ == stop_at) fail("stopped"); }
    struct Frm { vector<Val*> st; Env *env; long pc; };
    void push(Frm &f, Val *v) { if (f.st.size() >= 16) fail("frame stack limit"); f.st.push_back(v); }
    Val *pop(Frm &f) { if (f.st.empty()) fail("stack underflow"); Val *v = f.st.back(); f.st.pop_back(); return v; }
    vector<Val*> vcall(Val *f, const vector<Val*> &args) {
        if (f->t == V_NAT) { if (frames >= 16) fail("too many frames"); return native(f->s, args); }
        if (f->t != V_FUN) fail("not callable");
        vector<Val*> a(args.begin(), args.begin() + std::min<size_t>(args.size(), f->len)); while (a.size() < f->len && a.size() < 20) a.push_back(none());
        return frame((long)f->i, f->env, a);
    }
    vector<Val*> frame(long pc, Env *up, const vector<Val*> &args) {
        if (frames >= 16) fail("too many frames"); frames++;
        envs.push_back(Env{ up, {} }); Frm f{ {}, &envs.back(), pc }; for (auto v : args) push(f, v);
        live.push_back(pc); if (on_frame) on_frame(pc, true); tick();
        for (;;) {
            live.back() = f.pc; fuelcheck(); if (f.pc >= (long)code.size()) fail("past the end"); Ins &x = code[f.pc++]; const string n = OPS[x.op].name; auto &A = x.a;
            if (n == "NOPE") ; else if (n == "POS") { if (f.st.empty()) fail("underflow"); }
            else if (n == "NEG") { Val *v = pop(f); if (v->t == V_INT) { if (v->i == INT64_MIN) fail("overflow"); push(f, integer(-v->i)); } else if (v->t == V_FLT) push(f, flt(-v->d)); else fail("not a number"); }
            else if (n == "NOT") { Val *v = pop(f); push(f, boolean(!truth(v))); }
            else if (n == "NLB") { Val *r = mk(V_NULLABLE); r->a = pop(f); push(f, r); }
            else if (n == "STP") { Val *r = mk(V_SUM); r->b = pop(f); r->a = pop(f); push(f, r); }
            else if (n == "ADD" || n == "SUB" || n == "MUL" || n == "DIV" || n == "MOD") { Val *b = pop(f), *a = pop(f); push(f, arith(n == "ADD" ? "+" : n == "SUB" ? "-" : n == "MUL" ? "*" : n == "DIV" ? "/" : "%", a, b)); }
            else if (n == "LSS" || n == "GRT" || n == "LEQ" || n == "GEQ") { Val *b = pop(f), *a = pop(f); push(f, relop(n == "LSS" ? "<" : n == "GRT" ? ">" : n == "LEQ" ? "<=" : ">=", a, b)); }
            else if (n == "EQL" || n == "NQL") { Val *b = pop(f), *a = pop(f); push(f, boolean(eq(a, b) == (n == "EQL"))); }
            else if (n == "ASS") { if (f.st.empty()) fail("underflow"); if (!f.env->v.count(A[0].s)) ord[f.env].push_back(A[0].s); f.env->v[A[0].s] = f.st.back(); }
            else if (n == "POP") { if (A[0].i < 0 || A[0].i > (long long)f.st.size()) fail("underflow"); f.st.resize(f.st.size() - A[0].i); }
            else if (n == "CHECKTYPE") { if (f.st.size() < 2) fail("underflow"); Val *t = pop(f); if (!istype(t, f.st.back())) fail("argument type"); }
            else if (n == "CALL") { Val *fn = pop(f); long long ac = A[0].i, rc = A[1].i; if (ac < 0 || ac > 32 || rc < 1) fail("bad call"); vector<Val*> a; for (long long k = 0; k < ac; k++) a.push_back(pop(f)); auto r = vcall(fn, a); if (rc > 40) rc = 40; for (long long k = 0; k < rc; k++) push(f, k < (long long)r.size() ? r[k] : none()); }
            else if (n == "SELECT") { if (f.st.size() < 2) fail("underflow"); Val *k = pop(f), *c = pop(f); push(f, select(c, k)); }
            else if (n == "SELECT2") { if (f.st.size() < 2) fail("underflow"); Val *k = pop(f); push(f, select(f.st.back(), k)); }
            else if (n == "INSERT") { if (f.st.size() < 3) fail("underflow"); Val *v = pop(f), *k = pop(f); insert(f.st.back(), k, v); }
            else if (n == "INSERT2") { if (f.st.size() < 3) fail("underflow"); Val *k = pop(f), *c = pop(f); insert(c, k, f.st.back()); }
            else if (n == "PUSHINT") push(f, integer(A[0].i)); else if (n == "PUSHFLT") push(f, flt(A[0].d));
            else if (n == "PUSHSTR") { if (!utf8(A[0].s)) fail("invalid UTF-8"); push(f, str(A[0].s)); }
            else if (n == "PUSHVAR") push(f, lookup(f.env, A[0].s));
            else if (n == "PUSHTRU") push(f, boolean(true)); else if (n == "PUSHFLS") push(f, boolean(false)); else if (n == "PUSHNNE") push(f, none());
            else if (n == "PUSHFUN") { if (A[1].i < 0 || A[1].i > INT32_MAX) fail("bad argument count"); Val *v = mk(V_FUN); v->i = A[0].i; v->len = A[1].i; v->env = f.env; push(f, v); }
            else if (n == "PUSHLST" || n == "PUSHMAP") { if (A[0].i > 4096 || A[0].i < INT32_MIN) throw Unsupported{ "capacity hint" }; push(f, mk(n == "PUSHLST" ? V_LIST : V_MAP)); }
            else if (n == "PUSHTYP") { if (f.st.empty()) fail("underflow"); push(f, typeof_(f.st.back())); }
            else if (n == "PUSHNNETYP") push(f, type("None"));
            else if (n == "RETURN") { if (A[0].i != (long long)f.st.size() || A[0].i > 8) fail("bad return count"); frames--; live.pop_back(); if (on_frame) on_frame(pc, false); return f.st; }
            else if (n == "EXIT") { Val *m = mk(V_MAP); for (auto &k : ord[f.env]) { m->mk.push_back(str(k)); m->mv.push_back(f.env->v[k]); } push(f, m); if (f.st.size() > 8) fail("too many values"); frames--; live.pop_back(); if (on_frame) on_frame(pc, false); return f.st; }
            else if (n == "JUMP") f.pc = A[0].i;
            else if (n == "JUMPIFANDPOP") { if (truth(pop(f))) f.pc = A[0].i; } else if (n == "JUMPIFNOTANDPOP") { if (!truth(pop(f))) f.pc = A[0].i; }
            tick();
        }
    }
    bool run(const string &src) {
        try { code = assemble(src); } catch (Err &x) { err = true; why = "assemble: " + x.why; return false; }
        try { rets = frame(0, nullptr, {}); returned = true; } catch (RunErr &x) { err = true; why = x.why; } catch (Horizon &) { horizon = true; }
        return !err && !horizon;
    }
};
} // namespace ref
static RefOut vm_run(const std::string &src, const int *ans = nullptr, int nans = 0, long fuel = 3000)
{
    ref::VM I; I.fuel = fuel; I.ask = [=](int k) { return k < nans ? ans[k] : -1; }; RefOut o; o.skip = false;
    try { o.ok = I.run(src); if (o.ok) o.rets = I.rets_text(); } catch (ref::Unsupported &u) { o.skip = true; o.why = u.why; o.ok = false; }
    o.horizon = I.horizon; o.returned = I.returned; o.out = I.out; o.why = I.why; o.asked = I.nask; return o;
}
// parses the listing of nj_fetch back into instructions
static bool code_from_exe(void *exe, ref::Code &c)
{
    char b[8192]; int off, len; for (int i = 0; nj_fetch(exe, i, b, sizeof b, &off, &len); i++) {
        ref::Ins x; std::string s = b; size_t p = s.find(' '); x.op = ref::op_of(s.substr(0, p)); x.off = off; if (x.op < 0) return false;
        while (p != std::string::npos && p < s.size()) { p++; ref::Operand a; size_t e;
            if (s[p] == '"') { e = x.a.size() + 1 == ref::OPS[x.op].ops.size() ? s.rfind('"') : s.find('"', p + 1); a.t = ref::O_STR; a.s = s.substr(p + 1, e - p - 1); e++; }
            else { e = s.find(' ', p); std::string t = s.substr(p, e - p); if (t[0] == '@') { a.t = ref::O_IDX; a.i = atoll(t.c_str() + 1); } else if (t[0] == 'f') { a.t = ref::O_FLT; a.d = strtod(t.c_str() + 1, nullptr); } else { a.t = ref::O_INT; a.i = atoll(t.c_str()); } }
            x.a.push_back(a); p = e; }
        c.push_back(x); }
    return true;
}
#endif
