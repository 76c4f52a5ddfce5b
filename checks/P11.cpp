#include <algorithm>
#include "lang.hpp"
using std::string; using std::vector;
// key families: k-th key as source text
static string key(int fam, int k)
{
    char b[64];
    switch (fam) {
    case 0: snprintf(b, 64, "%d", k); break;                     case 1: snprintf(b, 64, "%d", -k); break;
    case 2: snprintf(b, 64, "%d", k * 8); break;                 case 3: snprintf(b, 64, "%d", k * 64 - 1024); break;
    case 4: snprintf(b, 64, "%lld", (long long)k << 32); break;  case 5: snprintf(b, 64, "%lld", -((long long)k << 40) - 1); break;
    case 6: snprintf(b, 64, "'k%d'", k); break;                  case 7: snprintf(b, 64, "'%c%c'", 'a' + k % 26, 'a' + k / 26 % 26); break;
    case 8: snprintf(b, 64, "%d.5", k); break;                   case 9: snprintf(b, 64, "(-%d.25)", k); break;
    case 10: if (k == 0) return "none"; if (k == 1) return "true"; if (k == 2) return "false"; if (k % 3 == 0) snprintf(b, 64, "%d", k); else if (k % 3 == 1) snprintf(b, 64, "'%d'", k); else snprintf(b, 64, "%d.0", k); break;
    case 11: snprintf(b, 64, "'%s%d'", k % 2 ? "some longer common prefix " : "", k); break;
    case 12: snprintf(b, 64, "%d", (k * 2654435761u) & 0x7fffffff); break;
    default: snprintf(b, 64, "%lld", 9223372036854775807ll - k);
    }
    return b;
}
static const int NF = 14;
int main(int argc, char **argv)
{
    mc::init(argc, argv, "P11"); nj_warm(); bool T = mc::thorough();
    mc::declare_counter("outside_model");
    mc::RULE = "every operation sequence up to the depth bound; every insertion history of the key families up to the size bound";
    auto val = [&](const string &src, mc::Ctx &c) { if (c.failed) return; c.note(src); string e = agree(src, c); if (!e.empty()) c.fail(e); };
    auto valgc = [&](const string &src, mc::Ctx &c) { if (c.failed) return; c.note(src); string e = agree_gc(src, c); if (!e.empty()) c.fail(e); };
    int N = T ? 150 : 70;
    mc::run("growth of maps", (uint64_t)NF * N * 4, [&](uint64_t i, mc::Ctx &c) {
        Dig d(i); int f = d(NF), ord = d(4), n = d.v; vector<string> ks; for (int k = 0; k < n; k++) ks.push_back(key(f, k));
        if (ord == 1) std::reverse(ks.begin(), ks.end()); if (ord == 2) { vector<string> q; for (int k = 0; k < n; k++) q.push_back(ks[(k * 7 + 3) % (n ? n : 1)]); std::set<string> u(q.begin(), q.end()); if ((int)u.size() == n) ks = q; }
        string s = "m = {}; "; if (ord == 3) { s = "m = {"; for (int k = 0; k < n; k++) s += (k ? ", (" : "(") + ks[k] + "): " + std::to_string(k); s += "}; "; } else for (int k = 0; k < n; k++) s += "m[" + ks[k] + "] = " + std::to_string(k) + "; ";
        s += "emit(count(m), keysof(m), m); "; for (int k = 0; k < n; k++) s += "emit(m[" + ks[k] + "]); "; s += "emit(m[" + key(f, n) + "], m[" + key(f, n + 5) + "]); ";
        for (int k = 0; k < n; k += 3) s += "m[" + ks[k] + "] = 'again'; "; s += "emit(count(m), m);";
        c.note("family " + std::to_string(f) + " n=" + std::to_string(n) + " order " + std::to_string(ord) + ": " + s.substr(0, 3500)); string e = n <= 24 ? agree_gc(s, c) : agree(s, c); if (!e.empty()) c.fail(e); });
    // around every growth of the index, up to thousands of entries
    static const int CAP[] = { 5, 10, 21, 42, 85, 170, 341, 682, 1365, 2730 }; int nc = 10;
    static const int VB[] = { 8193, 65537, 32767, 16385, 70000, 131073 }; const int NVB = T ? 6 : 2; mc::run("very large maps", NVB * 5 * 2 * 2, [&](uint64_t i, mc::Ctx &c) {
        Dig d(i); int n = VB[d(NVB)]; static const char *ST[] = { "1", "8", "65536", "-3", "0.5" }; string S = ST[d(5)], N = std::to_string(n); bool desc = d(2); long heap = d(2) ? 64 << 20 : 12 << 20; string key = desc ? "((n - 1 - i) * " + S + ")" : "(i * " + S + ")";
        selfcheck("fun f(n) { m = {}; i = 0; while i < n: { m[" + key + "] = i; i = i + 1; } good = 0; i = 0; while i < n: { if m[" + key + "] == i: good = good + 1; i = i + 1; } k = keysof(m); i = 0; while i < n: { if k[i] != " + key + ": error('order'); i = i + 1; } i = 0; while i < n: { m[" + key + "] = 'x'; i = i + 7; } i = 1; while i < n: { if i % 7 != 0 and m[" + key + "] != i: error('lost'); i = i + 1; } print(count(m), ' ', good, ' ', m[n * " + S + "], ' ', m['k'], ' ', count(k)); } f(" + N + ");", N + " " + N + " none none " + N, heap, c); });
    static const int KL[] = { 9, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 513, 1000, 1023, 1025, 4095, 4097, 8193, 32769, 65536, 65537 };
    mc::run("large keys", 24 * 2 * 2, [&](uint64_t i, mc::Ctx &c) { // a key is copied whole, compared whole and told apart by any element
        Dig d(i); int n = KL[d(24)]; bool map = d(2); long heap = d(2) ? 64 << 20 : 20 << 20; string N = std::to_string(n), mk = map ? "fun mk(n) { l = {}; i = 0; while i < n: { l[i] = i * 2; i = i + 1; } return l; } " : "fun mk(n) { l = []; i = 0; while i < n: { l[i] = i * 2; i = i + 1; } return l; } "; if (map && n > 5000) return;
        selfcheck(mk + "fun f(n) { a = mk(n); m = {}; m[a] = 'v'; a[n - 1] = 'x'; a[0] = 'y'; a[n / 2] = 'z'; k = keysof(m)[0]; good = 0; i = 0; while i < n: { if k[i] == i * 2: good = good + 1; i = i + 1; } print(count(m), ' ', count(k), ' ', good, ' ', a[n - 1], ' ', k[n]); k[n - 1] = 'w'; print(' ', keysof(m)[0][n - 1] == k[n - 1]); } f(" + N + ");", "1 " + N + " " + N + " x none true", heap, c); });
    mc::run("growth of large maps", nc * 5ull * NF * 4, [&](uint64_t i, mc::Ctx &c) {
        Dig d(i); int n = CAP[d(nc)], f = d(NF), ord = d(4); n += (int)d(5) - 2; vector<string> ks; for (int k = 0; k < n; k++) ks.push_back(key(f, k));
        if (ord == 1) std::reverse(ks.begin(), ks.end()); if (ord == 2) std::rotate(ks.begin(), ks.begin() + n / 3, ks.end());
        string s = "m = {}; "; if (ord == 3) { s = "m = {"; for (int k = 0; k < n; k++) s += (k ? ", (" : "(") + ks[k] + "): " + std::to_string(k); s += "}; "; } else for (int k = 0; k < n; k++) s += "m[" + ks[k] + "] = " + std::to_string(k) + "; ";
        s += "emit(count(m), keysof(m), m); "; for (int k = 0; k < n; k += 1 + n / 60) s += "emit(m[" + ks[k] + "]); "; s += "emit(m[" + key(f, n) + "]); ";
        for (int k = n - 1; k >= 0; k -= 1 + n / 50) s += "m[" + ks[k] + "] = 'again'; "; s += "emit(count(m), m); k = keysof(m); i = 0; while i < count(k): { if m[k[i]] == none: emit('lost', k[i]); i = i + 1; }";
        c.note("family " + std::to_string(f) + " n=" + std::to_string(n) + " order " + std::to_string(ord) + ": " + s.substr(0, 500)); nj_cfg g; memset(&g, 0, sizeof g); g.builtins = NJ_B_NATIVE; g.heap = 2 << 20; string e = agree(s, c, nullptr, 0, nullptr, &g); if (!e.empty()) c.fail(e.substr(0, 600)); });
    static const char *K[] = { "0", "8", "-8", "'a'", "0.0", "(-0.0)", "true", "none", "'0'", "1", "1.0", "''" };
    int nk = 12, D = T ? 4 : 3;
    mc::run("operation sequences", nseq(nk * 2, 1, D) * 2, [&](uint64_t i, mc::Ctx &c) { Dig d(i); string s = d(2) ? "m = {a: 1, 8: 2}; " : "m = {}; "; int n = 10; for (int k : seq_at(d.v, nk * 2, 1, D)) { s += k & 1 ? "emit(m[" + string(K[k / 2]) + "], count(m)); " : "m[" + string(K[k / 2]) + "] = " + std::to_string(n++) + "; "; } val(s + "emit(m, keysof(m));", c); });
    mc::run("pairs of keys", (uint64_t)nk * nk * 3, [&](uint64_t i, mc::Ctx &c) { Dig d(i); string a = K[d(nk)], b = K[d(nk)]; int k = d(3); valgc("m = {}; m[" + a + "] = 'x'; " + (k == 0 ? "m[" + b + "] = 'y'; " : k == 1 ? "emit(m[" + b + "]); " : "m = {(" + a + "): 1, (" + b + "): 2}; ") + "emit(m, count(m), keysof(m), " + a + " == " + b + ");", c); });
    mc::run("insertions of all key orders", T ? 40320 : 5040, [&](uint64_t i, mc::Ctx &c) { int n = T ? 8 : 7; vector<int> p, r; for (int k = 0; k < n; k++) r.push_back(k); uint64_t x = i; for (int k = n; k > 0; k--) { int j = x % k; x /= k; p.push_back(r[j]); r.erase(r.begin() + j); }
        static const char *KK[] = { "0", "8", "16", "24", "'a'", "-8", "1", "32" }; string s = "m = {}; "; for (int k : p) s += string("m[") + KK[k] + "] = " + std::to_string(k) + "; "; s += "m[40] = 'x'; m[48] = 'y'; m[56] = 'z'; emit(m); "; for (int k = 0; k < n; k++) s += string("emit(m[") + KK[k] + "]); "; val(s, c); });
    mc::run("text keys", (uint64_t)ipow(14, 3), [&](uint64_t i, mc::Ctx &c) {
        static const char *TK[] = { "a", "b", "ab", "ba", "aa", "\xc3\xa9", "\xc3\xa8", "\xc3\xa9\xc3\xa8", "\xc3\xa8\xc3\xa9", "a\xc3\xa9", "\xf0\x9f\x98\x80", "\xf0\x9f\x98\x81", "abcdefgh\xc3\xa9", "abcdefgh\xc3\xa8" };
        Dig d(i); string k[3]; for (auto &x : k) x = string("'") + TK[d(14)] + "'"; val("m = {" + k[0] + ": 1}; m[" + k[1] + "] = 2; emit(m[" + k[2] + "]); m[" + k[2] + "] = 3; m[string.cat(" + k[0] + ", '')] = 4; emit(m, count(m), keysof(m), m[" + k[1] + "]);", c); });
    mc::run("records and aliasing", 5 * 5 * 5, [&](uint64_t i, mc::Ctx &c) { static const char *S[] = { "m.a = n;", "n.b = [m];", "m.a.b = 5;", "n = m;", "m['a'] = m.a;" }; Dig d(i); string a = S[d(5)], b = S[d(5)], e = S[d(5)]; valgc("n = {b: 1}; m = {a: {b: 2}, 'c d': 3}; " + a + " " + b + " " + e + " emit(m, n, m['c d'], m.zz);", c); });
    mc::run("keys are copied", 8, [&](uint64_t i, mc::Ctx &c) { static const char *S[] = { "k = 'a'; m = {}; m[k] = 1; k = 'b'; emit(m, m.a, m.b);", "k = keysof({a: 1}); k[0] = 'z'; emit(k);", "m = {a: 1}; k = keysof(m); k[0] = 'z'; k[1] = 'y'; emit(m, keysof(m), m.a);", "m = {a: 1}; k = keysof(m); m.b = 2; emit(k, keysof(m));", "m = {a: 1, b: 2, c: 3}; i = 0; k = keysof(m); while i < count(k): { m[k[i]] = m[k[i]] * 10; i = i + 1; } emit(m);", "m = {}; m.m = m; emit(m, m.m.m.m == none or true, count(m.m.m));", "emit({a: 1, a: 2}, count({a: 1, a: 2, b: 3}));", "emit({1: 'i', 1.0: 'f', '1': 's', true: 'b'});" }; valgc(S[i], c); });
    // a list or a map used as a key is copied, at any depth: changing it afterwards doesn't change the key, nor does changing what keysof gives
    mc::run("aggregate keys are copied", 8 * 10 * 10 * 4, [&](uint64_t i, mc::Ctx &c) {
        static const char *KB[] = { "[i]", "{a: i}", "[[i], 2]", "{a: [i]}", "[{a: i}]", "{a: {a: i}}", "[i, i]", "[]" }, *MU[] = { "", "k[0] = 9;", "k.a = 9;", "k[1] = 9;", "k[count(k)] = 8;", "i[0] = 7;", "i[1] = 7;", "if istypeof(List, k): k[0][0] = 6;", "if istypeof(Map, k): k.a[0] = 6;", "if istypeof(List, k): k[0].a = 6; else k.a.a = 6;" };
        Dig d(i); string b = KB[d(8)], m1 = MU[d(10)], m2 = MU[d(10)]; int via = d(4); string L = "fun t() { i = [1]; k = " + b + "; ";
        string s = L + (via == 0 ? "m = {}; m[k] = 'v'; " : via == 1 ? "m = {(k): 'v'}; " : via == 2 ? "m = {x: 1}; m[k] = 'v'; m[1] = 2; " : "n = {}; n[k] = 'v'; m = {}; q = keysof(n); m[q[0]] = n; k = q[0]; ") + m1 + " emit(keysof(m)); " + m2 + " emit(count(m), k, i, keysof(m), m.x, m[1] == 2); } t();"; valgc(s, c); });
    // values whose type offers neither hashing nor equality are refused as keys, they don't bring the process down
    static const char *BK[] = { "f", "emit", "int", "type(1)", "any", "?int", "int | float", "buf" };
    mc::run("keys of every type", 8 * 5, [&](uint64_t i, mc::Ctx &c) { string b = BK[i % 8]; int k = i / 8; string s = "fun f() { } buf = buffer.new(3); m = {a: 1}; "; s += k == 0 ? "m[" + b + "] = 5; emit(count(m));" : k == 1 ? "emit(m[" + b + "]);" : k == 2 ? "x = {(" + b + "): 1}; emit(count(x));" : k == 3 ? "m[" + b + "] = 5; m[" + b + "] = 6; emit(m[" + b + "]);" : "l = [m]; l[0][" + b + "] = m; emit(count(l[0]));"; c.note(s); Impl m = impl_run(s); c.trace(); if (m.ok ? m.occurred : !m.occurred) c.fail("inconsistent outcome " + m.msg); c.state(mc::hash(m.out)); });
    mc::run("list and map keys", 30 * 3, [&](uint64_t i, mc::Ctx &c) { static const char *LK[] = { "[]", "[1]", "[1, 2]", "{}", "{a: 1}", "[[1]]", "{a: [1]}", "['x', {}]", "[none]", "[f]" }; string b = LK[i % 10], b2 = LK[(i / 10) % 3 * 3]; int k = i / 30; string s = "fun f() { } m = {}; k = " + b + "; "; s += k == 0 ? "m[k] = 5; emit(count(m));" : k == 1 ? "m[k] = 1; m[" + b2 + "] = 2; emit(count(m)); m[1] = 3; emit(m[1]);" : "m[1] = 3; emit(m[k]); m[k] = 4; emit(m[1]);"; c.note(s); Impl m = impl_run(s); c.trace(); if (m.ok ? m.occurred : !m.occurred) c.fail("inconsistent outcome " + m.msg); c.state(mc::hash(m.out)); });
    return mc::finish();
}
