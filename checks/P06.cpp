#include "lang.hpp"
using std::string; using std::vector;
// every statement tree with exactly n nodes; '#' is replaced by a running label
static vector<vector<string>> trees(int maxn)
{
    vector<vector<string>> t(maxn + 1);
    if (maxn >= 1) t[1] = { "emit(#);", "break;", "return #;" };
    for (int n = 2; n <= maxn; n++) {
        for (auto &s : t[n - 1]) { t[n].push_back("if ask(): " + s); t[n].push_back("while ask(): " + s); t[n].push_back("do " + s + " while ask();"); }
        for (int a = 1; a < n - 1; a++) for (auto &x : t[a]) for (auto &y : t[n - 1 - a]) {
            // a dangling else binds to the innermost if: write both readings
            t[n].push_back("if ask(): " + x + " else " + y); t[n].push_back("{ " + x + " " + y + " }"); }
    }
    return t;
}
static string label(const string &s) { string o; int k = 0; for (char ch : s) if (ch == '#') o += std::to_string(++k); else o += ch; return o; }
static const char *MODE[] = { "@ emit('end');", "fun f() { @ emit('tail'); } emit('r', f()); emit('end');", "i = 0; while i < 2: { i = i + 1; @ emit('b', i); } emit('end', i);", "fun f() @ i = 0; do { i = i + 1; emit(i, f()); } while i < 2; emit('end');", "m = { fun f(s) { while true: { @ emit('in'); break; } emit('out'); } }; emit(m->f()); emit('end');", "if true: @ emit('end');", "if false: emit('no'); else @ emit('end');" };
int main(int argc, char **argv)
{
    mc::init(argc, argv, "P06"); nj_warm(); bool T = mc::thorough();
    mc::declare_counter("outside_model"); mc::declare_counter("executions_of_trees"); mc::declare_counter("rejected_by_both");
    mc::RULE = "every statement tree up to the node bound, under every string of condition outcomes up to the length bound";
    int N = T ? 7 : 6, L = T ? 8 : 6; auto t = trees(N);
    vector<string> all; for (auto &v : t) for (auto &s : v) all.push_back(s);
    vector<string> small; for (int n = 1; n <= (T ? 5 : 4); n++) for (auto &s : t[n]) small.push_back(s);
    auto go = [&](const string &src, int len, mc::Ctx &c) { if (!ref::accepts(src)) { c.note(src); Comp k = impl_compile(src); mc::count("rejected_by_both"); if (k.ok) c.fail("accepted, but it is not a valid program"); return; } mc::count("executions_of_trees", all_answers(src, len, c)); };
    mc::run("statement trees at the top level", all.size(), [&](uint64_t i, mc::Ctx &c) { string s = label(all[i]), m = MODE[0], o; for (char ch : m) if (ch == '@') o += s; else o += ch; go(o, L, c); });
    for (int k = 1; k < 7; k++)
        mc::run("statement trees, embedding " + std::to_string(k), small.size(), [&, k](uint64_t i, mc::Ctx &c) { string s = label(small[i]), m = MODE[k], o; for (char ch : m) if (ch == '@') o += s; else o += ch; go(o, k == 2 || k == 3 ? 8 : 6, c); });
    // nested counted loops with break at every position
    mc::run("counted loops with breaks", 4 * 4 * 3 * 3 * 4 * 2 * 2, [&](uint64_t i, mc::Ctx &c) {
        Dig d(i); int n = d(4), m = d(4), bi = d(3), bj = d(3), pos = d(4), k1 = d(2), k2 = d(2); char b[700];
        string brk = "if i == " + std::to_string(bi) + " and j == " + std::to_string(bj) + ": break;";
        string inner = string(pos == 0 ? brk : "") + " emit(i, j); " + (pos == 1 ? brk : "") + " j = j + 1; " + (pos == 2 ? brk : "");
        string in = k2 ? "do { " + inner + " } while j < " + std::to_string(m) + ";" : "while j < " + std::to_string(m) + ": { " + inner + " }";
        string outer = "j = 0; " + in + " i = i + 1; " + (pos == 3 ? "if i == 2: break;" : "") + " emit('o', i, j);";
        snprintf(b, sizeof b, k1 ? "i = 0; do { %s } while i < %d; emit(i);" : "i = 0; while i < %2$d: { %1$s } emit(i);", outer.c_str(), n);
        c.note(b); string e = agree(b, c); if (!e.empty()) c.fail(e); });
    mc::sample(all[all.size() / 2]); mc::sample(all.back());
    return mc::finish();
}
