// Runs one program in the reference model and in the implementation and
// compares what is observable: success or failure, everything emitted and
// printed (in order), and the returned values.
#ifndef LANG_HPP
#define LANG_HPP
#include "mc.hpp"
#include "ref.hpp"
#include "shim.h"

struct Impl { bool ok, horizon; std::string out, rets, msg, trace, err; int type; long steps, leak; int occurred; long collections; size_t msglen; unsigned long msghash; };
struct AskState { const int *ans; int n; int used; };
static int ask_cb(void *ud, int) { AskState *a = (AskState *)ud; int k = a->used++; return k < a->n ? a->ans[k] : -1; }

static Impl impl_run(const std::string &src, const int *ans = nullptr, int nans = 0, int builtins = NJ_B_NATIVE, bool trace = false, nj_cfg *base = nullptr)
{
    nj_cfg c; if (base) c = *base; else memset(&c, 0, sizeof c);
    if (!base) c.builtins = builtins; 
    c.srclen = src.size(); if (trace) c.want_trace = 1;
    AskState as = { ans, nans, 0 };
    if (ans) { c.ask = ask_cb; c.ask_ud = &as; }
    static nj_res r; nj_run(&c, src.c_str(), &r);
    Impl o; o.ok = r.ready && r.retc >= 0; o.horizon = r.horizon; o.out.assign(r.out, r.outlen); o.rets = r.rets; o.msg = r.msg; o.type = r.err_type;
    o.steps = r.steps; o.leak = r.leak; o.occurred = r.err_occurred; o.collections = r.collections; o.msglen = r.msglen; o.msghash = r.msghash;
    if (r.err) o.err.assign(r.err, r.errlen);
    if (trace && r.trace) o.trace.assign(r.trace, r.tracelen);
    return o;
}

struct RefOut { bool ok, horizon, returned; std::string out, rets, why; int asked; bool skip = false; };
static RefOut ref_run(const std::string &src, const int *ans = nullptr, int nans = 0, long fuel = 200000)
{
    ref::Interp I; I.fuel = fuel; I.ask = [=](int k) { return k < nans ? ans[k] : -1; };
    RefOut o; o.skip = false;
    try { o.ok = I.run(src); if (o.ok && I.returned) o.rets = I.rets_text(); } catch (ref::Unsupported &u) { o.skip = true; o.why = u.why; o.ok = false; }
    o.horizon = I.horizon; o.returned = I.returned; o.out = I.out; o.why = I.why; o.asked = I.nask;
    return o;
}
static std::string diff(const RefOut &r, const Impl &m)
{
    std::string d;
    if (r.horizon != m.horizon) d += std::string("horizon: model ") + (r.horizon ? "yes" : "no") + ", implementation " + (m.horizon ? "yes" : "no") + " (" + m.msg + ")\n";
    else if (!r.horizon && r.ok != m.ok) d += "model: " + std::string(r.ok ? "succeeds" : "fails (" + r.why + ")") + "; implementation: " + (m.ok ? "succeeds" : "fails (" + m.msg + ")") + "\n";
    if (r.out != m.out) d += "output differs\n--- model\n" + r.out + "--- implementation\n" + m.out;
    if (r.ok && m.ok && r.returned && r.rets != m.rets) d += "returned values differ: model " + r.rets + " implementation " + m.rets + "\n";
    if (m.ok && m.occurred) d += "succeeded with an error set: " + m.msg + "\n";
    if (!m.ok && !m.occurred) d += "failed without reporting an error\n";
    return d;
}
// returns "" when they agree; counts the trace
static std::string agree(const std::string &src, mc::Ctx &c, const int *ans = nullptr, int nans = 0, RefOut *ro = nullptr, nj_cfg *base = nullptr)
{
    RefOut r = ref_run(src, ans, nans); if (ro) *ro = r;
    if (r.skip) { mc::count("outside_model"); return ""; }
    Impl m = base ? impl_run(src, ans, nans, NJ_B_NATIVE, false, base) : impl_run(src, ans, nans);
    c.state(mc::hash(r.out, mc::hash(r.rets, r.ok ? 7 : 9))); c.transitions(m.steps); c.trace();
    return diff(r, m);
}
// mixed-radix decoding of case numbers
struct Dig { uint64_t v; explicit Dig(uint64_t x) : v(x) {} uint64_t operator()(uint64_t n) { uint64_t r = v % n; v /= n; return r; } };
static uint64_t ipow(uint64_t b, int e) { uint64_t r = 1; while (e--) r *= b; return r; }
// number of sequences over b symbols of length lo..hi; decode index into one
static uint64_t nseq(uint64_t b, int lo, int hi) { uint64_t s = 0; for (int k = lo; k <= hi; k++) s += ipow(b, k); return s; }
static std::vector<int> seq_at(uint64_t i, uint64_t b, int lo, int hi)
{ for (int k = lo; k <= hi; k++) { uint64_t n = ipow(b, k); if (i < n) { std::vector<int> v(k); for (int j = k - 1; j >= 0; j--) { v[j] = i % b; i /= b; } return v; } i -= n; } return {}; }
static std::string show(const std::string &s) { std::string o; for (unsigned char ch : s) { char t[8]; if (ch == '\n') o += "\\n"; else if (ch < 32 || ch >= 127) { snprintf(t, 8, "\\x%02x", ch); o += t; } else o += ch; } return o; }
#endif
#ifndef LANG_CODE
#define LANG_CODE
// the instruction listing of a compiled program, without source locations
static std::string code_of(void *exe)
{ std::string o; char b[8192]; int off, len; for (int i = 0; nj_fetch(exe, i, b, sizeof b, &off, &len); i++) { o += b; o += "\n"; } return o; }
struct Comp { bool ok; std::string code, msg; int type, off, occurred; };
static Comp impl_compile(const std::string &s)
{
    nj_comp c; nj_compile(s.data(), s.size(), &c); Comp r{ (bool)c.ok, "", c.msg, c.err_type, c.offset, c.err_occurred };
    if (c.ok) { r.code = code_of(c.exe); nj_exe_free(c.exe); } return r;
}
// grammar agreement: accepted exactly when the model accepts, and then compiled
// to the same code as the fully parenthesized/braced rendering of the model's tree
static std::string grammar(const std::string &src, mc::Ctx &c, bool *acc = nullptr)
{
    ref::Pool P; std::string why; ref::Node *n = nullptr; int off = -1;
    try { n = ref::compile(src, P); } catch (ref::Err &e) { why = e.why; off = e.off; }
    if (acc) *acc = n != nullptr;
    Comp a = impl_compile(src);
    c.trace(); c.transitions(src.size());
    if (!n) {
        if (a.ok) return "accepted, but it is not a valid program (" + why + " at " + std::to_string(off) + ")";
        if (!a.occurred) return "rejected without reporting an error";
        if (a.off < 0 || a.off > (int)src.size()) return "rejected with a location outside of the source: " + std::to_string(a.off) + " (" + a.msg + ")";
        c.state(mc::hash(a.msg)); return "";
    }
    std::string can = ref::canon_program(n);
    if (!a.ok) return "rejected (" + a.msg + "), but it is valid: " + can;
    c.state(mc::hash(a.code));
    Comp b = impl_compile(can);
    if (!b.ok) return "its explicit form is rejected: " + can + " (" + b.msg + ")";
    if (a.code != b.code) return "doesn't group like its explicit form: " + can + "--- compiled from the source\n" + a.code + "--- compiled from the explicit form\n" + b.code;
    return "";
}
#endif
#ifndef LANG_ASK
#define LANG_ASK
// runs src under every string of ask() answers of at most maxlen, extending a
// prefix only where the program asks for more; both sides must agree on each
static int all_answers(const std::string &src, int maxlen, mc::Ctx &c, std::function<std::string(const std::vector<int>&, const RefOut&)> extra = nullptr)
{
    std::vector<std::vector<int>> work = { {} }; int n = 0; static const int dummy = 0;
    while (!work.empty() && !c.failed) {
        std::vector<int> ans = work.back(); work.pop_back(); n++;
        RefOut r; std::string as; for (int x : ans) as += char('0' + x);
        c.note(src + "   with ask() answers [" + as + "]"); c.beat();
        std::string e = agree(src, c, ans.empty() ? &dummy : ans.data(), ans.size(), &r);
        if (e.empty() && extra) e = extra(ans, r);
        if (!e.empty()) { c.fail(e); break; }
        if (r.horizon && (int)ans.size() < maxlen) for (int b = 1; b >= 0; b--) { auto v = ans; v.push_back(b); work.push_back(v); }
    }
    return n;
}
#endif
#ifndef LANG_GC
#define LANG_GC
static int step_collect(void *, long) { return NJ_COLLECT; }
// like agree(), and also with a collection after every instruction
static std::string agree_gc(const std::string &src, mc::Ctx &c)
{
    RefOut r; std::string e = agree(src, c, nullptr, 0, &r); if (!e.empty() || r.skip) return e;
    nj_cfg k; memset(&k, 0, sizeof k); k.builtins = NJ_B_NATIVE; k.step = step_collect;
    Impl m = impl_run(src, nullptr, 0, NJ_B_NATIVE, false, &k); c.trace(); c.transitions(m.steps);
    e = diff(r, m); return e.empty() ? e : "with a collection after every instruction: " + e;
}
// a program that checks itself, for sizes the reference interpreter is too slow for
static inline void selfcheck(const std::string &src, const std::string &want, long heap, mc::Ctx &c) { if (c.failed) return; c.note(src.substr(0, 400) + "   [heap " + std::to_string(heap) + "]"); nj_cfg g; memset(&g, 0, sizeof g); g.builtins = NJ_B_NATIVE; g.heap = heap; g.max_steps = 200000000; Impl r = impl_run(src, nullptr, 0, NJ_B_NATIVE, false, &g); c.trace(); c.transitions(r.steps); c.state(mc::hash(src)); if (!r.ok) c.fail("fails: " + r.msg); else if (r.out != want) c.fail("prints " + r.out.substr(0, 300) + "\ninstead of " + want.substr(0, 300)); else if (r.leak) c.fail("leaks"); }
static const int BIG[] = { 8191, 8192, 8193, 16383, 16384, 16385, 32767, 32768, 32769, 65535, 65536, 65537, 70000 };
#endif
