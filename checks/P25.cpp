#include "lang.hpp"
using std::string; using std::vector; using std::map;
// A model of plugging: sources run one after another, each one's result being looked up after those before it
struct Env; struct V { int k; long i; int body; Env *env; };       // k: 0 integer, 1 function, 2 native
struct Env { map<string, V> v; };
struct Fail {}; struct Res { bool ret; Env *m; bool isint; };
struct World {
    std::deque<Env> pool; vector<Env*> chain; string out; int depth = 0; static constexpr int LIM = 16;
    Env *mk() { pool.emplace_back(); return &pool.back(); }
    V get(const string &n, Env *e) { auto it = e->v.find(n); if (it != e->v.end()) return it->second; for (auto b : chain) { auto j = b->v.find(n); if (j != b->v.end()) return j->second; } throw Fail{}; }
    V call(const V &f) { if (f.k != 1) throw Fail{}; if (++depth > 14) throw Fail{}; V r; if (f.body == 0) r = get("v", f.env); else if (f.body == 1) r = call(get("f", f.env)); else { r = V{ 0, 7, 0, nullptr }; } depth--; return r; }
    void emit(const V &v) { out += v.k == 0 ? "@ " + std::to_string(v.i) + "\n" : "@ <a function>\n"; }
    Env *run(const vector<int> &q, int tag, bool prog) {
        Env *e = mk(); for (int s : q) switch (s) {
            case 0: e->v["v"] = V{ 0, tag, 0, nullptr }; break;
            case 1: { V x = get("v", e); e->v["w"] = x; break; }
            case 2: e->v["f"] = V{ 1, 0, 0, e }; break;
            case 3: e->v["g"] = V{ 1, 0, 1, e }; break;
            case 4: { V x = get("v", e); e->v["v"] = x; break; }
            case 5: { Env *m = mk(); m->v["v"] = V{ 0, tag + 50, 0, nullptr }; return m; }
            case 6: { V x = call(get("g", e)); emit(x); break; }
            case 7: { V x = get("w", e); emit(x); break; }
            case 8: { V x = call(get("f", e)); emit(x); break; }
            case 9: { V x = get("v", e); emit(x); break; }
            case 10: { V x = get("f", e); e->v["g"] = x; break; }
            case 11: throw Fail{};
        }
        return e;
    }
};
static const char *ST[] = { "v = #;", "w = v;", "fun f() return v;", "fun g() return f();", "v = v;", "return {v: $};", "emit(g());", "emit(w);", "emit(f());", "emit(v);", "g = f;", "error('e');" };
static string text(const vector<int> &q, int tag) { string o; for (int s : q) for (const char *p = ST[s]; *p; p++) o += *p == '#' ? std::to_string(tag) : *p == '$' ? std::to_string(tag + 50) : string(1, *p); return o; }
static void one(const vector<vector<int>> &plugs, const vector<int> &prog, mc::Ctx &c, bool gc = false)
{
    if (c.failed) return; World w; bool ready = true, ok = true; vector<string> src; vector<const char*> ex;
    for (size_t k = 0; k < plugs.size(); k++) src.push_back(text(plugs[k], k + 1)); for (auto &s : src) ex.push_back(s.c_str()); ex.push_back(nullptr);
    try { for (size_t k = 0; k < plugs.size(); k++) w.chain.push_back(w.run(plugs[k], k + 1, false)); } catch (Fail &) { ready = false; }
    if (ready) try { w.run(prog, 9, true); } catch (Fail &) { ok = false; }
    string p = text(prog, 9); string n; for (auto &s : src) n += s + "  ||  "; c.note(n + p);
    nj_cfg g; memset(&g, 0, sizeof g); g.builtins = NJ_B_NATIVE; g.extra = ex.data(); if (gc) g.step = step_collect; Impl r = impl_run(p, nullptr, 0, 0, false, &g);
    c.trace(); c.transitions(r.steps); uint64_t h = mc::hash(w.out, ready * 2 + ok); for (auto &e : w.pool) for (auto &v : e.v) h = mc::hash(v.first, h * 31 + v.second.k * 7 + v.second.i + v.second.body); c.state(h); if (r.ok != (ready && ok)) c.fail(string(r.ok ? "succeeds" : "fails: " + r.msg) + ", expected " + (ready ? ok ? "success" : "failure" : "failure of a plugged source")); else if (r.out != w.out) c.fail("output " + r.out + "--- expected\n" + w.out); else if (!r.ok && !r.occurred) c.fail("no error"); else if (r.leak) c.fail(std::to_string(r.leak) + " bytes leaked");
}
int main(int argc, char **argv)
{
    mc::init(argc, argv, "P25"); nj_warm(); bool T = mc::thorough(); const int B = 12;
    mc::RULE = "every history of plugged sources and every program after it, up to the stated lengths; state = distinct output and outcome";
    mc::run("programs after one source", nseq(B, 0, 3) * nseq(B, 1, T ? 3 : 2), [&](uint64_t i, mc::Ctx &c) { Dig d(i); auto a = seq_at(d(nseq(B, 0, 3)), B, 0, 3); one({ a }, seq_at(d.v, B, 1, T ? 3 : 2), c, i % 9 == 0); });
    mc::run("programs after two sources", nseq(B, 0, 2) * nseq(B, 0, 2) * nseq(B, 1, T ? 3 : 1), [&](uint64_t i, mc::Ctx &c) { Dig d(i); uint64_t n = nseq(B, 0, 2); auto a = seq_at(d(n), B, 0, 2), b = seq_at(d(n), B, 0, 2); one({ a, b }, seq_at(d.v, B, 1, T ? 3 : 1), c, i % 9 == 0); });
    mc::run("programs after three sources", (uint64_t)13 * 13 * 13 * nseq(B, 1, T ? 3 : 2), [&](uint64_t i, mc::Ctx &c) { Dig d(i); auto o = [&](int k) { return k == B ? vector<int>{} : vector<int>{ k }; }; auto x = o(d(13)), y = o(d(13)), z = o(d(13)); one({ x, y, z }, seq_at(d.v, B, 1, T ? 3 : 2), c, i % 9 == 0); });
    mc::run("many sources", 40 * 12, [&](uint64_t i, mc::Ctx &c) { Dig d(i); int n = d(40), k = d(12); vector<vector<int>> p; for (int j = 0; j < n; j++) p.push_back({ j % 12 == k ? 0 : j % 3 == 0 ? 2 : j % 3 == 1 ? 3 : 5 }); one(p, { 9 }, c, true); one(p, { 8, 9 }, c); one(p, { 6, 3, 2, 0, 6 }, c); });
    // a source that returns several values is known by the first
    mc::run("sources of several values", 5 * 5 * 6 * 2, [&](uint64_t i, mc::Ctx &c) {
        static const char *R[] = { "return {v: 1, w: 2};", "return {v: 1, w: 2}, {v: 3, w: 4};", "return {v: 1}, {w: 4}, {v: 5};", "fun f() return {v: 1, w: 2}, 5; return f(), {v: 7};", "m = {v: 1, w: 2}; return m, m, m, m, m, m, m;" };
        Dig d(i); int a = d(5), b = d(5), k = d(6), gc = d(2); const char *ex[] = { R[a], k >= 3 ? R[b] : nullptr, nullptr }; bool w = a != 2 || (k >= 3 && b != 2); int t = k % 3; string p = t == 0 ? "emit(v);" : t == 1 ? "emit(v, w);" : "v = 9; emit(v); fun g() return v; emit(g());", want = t == 0 ? "@ 1\n" : t == 1 ? (w ? "@ 1 2\n" : "") : "@ 9\n@ 9\n";
        c.note(string(R[a]) + "  ||  " + (k >= 3 ? R[b] : "") + "  ||  " + p); nj_cfg g; memset(&g, 0, sizeof g); g.builtins = NJ_B_NATIVE; g.extra = ex; if (gc) g.step = step_collect; Impl r = impl_run(p, nullptr, 0, 0, false, &g); c.trace(); c.transitions(r.steps); c.state(mc::hash(r.out, i)); bool good = t != 1 || w; if (r.ok != good) c.fail(good ? "fails: " + r.msg : "succeeds"); else if (r.out != want) c.fail("prints " + r.out + " instead of " + want); else if (r.leak) c.fail(std::to_string(r.leak) + " bytes leaked"); });
    // the standard builtins: a program may hide every one of them, which nothing but its own scope sees
    static const char *BN[] = { "print", "type", "count", "keysof", "assert", "error", "istypeof", "typename", "input", "import", "int", "String", "None", "math", "string", "buffer", "files", "random", "net", "toString", "append", "abs", "min", "max", "Func", "Callable", "makeIterator", "Collection", "any" }; const int NB = sizeof BN / sizeof *BN;
    auto full = [&](const string &s, const string &want, bool good, mc::Ctx &c, bool gc) { if (c.failed) return; c.note(s); nj_cfg g; memset(&g, 0, sizeof g); g.builtins = NJ_B_FULL; if (gc) g.step = step_collect; Impl r = impl_run(s, nullptr, 0, 0, false, &g); c.trace(); c.transitions(r.steps); c.state(mc::hash(r.out)); if (r.ok != good) c.fail((good ? "fails: " : "succeeds ") + r.msg); else if (r.out != want) c.fail("prints " + r.out + " instead of " + want); };
    static const char *SH[] = { "fun f(@) emit(@); b = @; f(1); emit(1 == 1);", "fun g() { @ = 1; emit(@); } a = @; g(); emit(type(a) == type(@));", "@ = 1; fun g() { @ = 2; return @; } emit(g(), @);", "@ = 1; fun g() return @; emit(@); @ = 5; emit(g());", "b = @; m = {@: 1}; emit(m.@); emit(type(@) == type(b));", "fun h() { fun @() return 3; return @(); } b = @; emit(h()); emit(type(@) == type(b));" };
    static const char *SW[] = { "@ 1\n@ T\n", "@ 1\n@ T\n", "@ 2 1\n", "@ 1\n@ 5\n", "@ 1\n@ T\n", "@ 3\n@ T\n" };
    mc::run("hiding builtins", NB * 6 * 2, [&](uint64_t i, mc::Ctx &c) { Dig d(i); string n = BN[d(NB)]; int k = d(6), gc = d(2); bool nat = k != 0 && k != 2 && k != 3; bool fresh = n == "print" || n == "type" || n == "count" || n == "keysof" || n == "assert" || n == "error" || n == "istypeof" || n == "typename" || n == "input" || n == "import"; if (nat && fresh) return; string s; for (const char *p = SH[k]; *p; p++) s += *p == '@' ? n : string(1, *p); string w = SW[k]; if (k == 0 && (n == "print" || n == "type")) {} full(s, w, true, c, gc); });
    static const char *UN[] = { "@;", "x = @;", "@();", "emit(@);", "fun f() return @; f();", "@.x = 1;", "@[0];", "x = {k: @};", "fun f(a = @) return a; f();", "fun f(a: @) return a; f(1);", "if false: @;", "fun f() return @;", "true or @;", "fun f(a = @) return a; f(1);" };
    static const char *NM[] = { "undefined", "Print", "prin", "printt", "_", "toStrin", "mathh", "INT", "start", "emi" };
    mc::run("names nobody defined", 14 * 10, [&](uint64_t i, mc::Ctx &c) { Dig d(i); int k = d(14); string n = NM[d(10)], s; for (const char *p = UN[k]; *p; p++) s += *p == '@' ? n : string(1, *p); bool good = k == 10 || k == 11 || k == 12 || k == 13; if (k == 12) return; full("print('b'); " + s + " print('a');", good ? "ba" : "b", good, c, i % 2); });
    mc::sample("fun f() return v;  ||  v = 2;  ||  v = 9; emit(f());  ->  @ 2, the function being another scope's");
    return mc::finish();
}
