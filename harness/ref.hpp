// Reference semantics of the Noja language, written from docs/Language.md and
// the observable behaviour: lexer, parser, static checks, canonical printer and
// evaluator.  It shares no code with /repo.  The explorers run every enumerated
// program through this model and through the implementation.
#ifndef REF_HPP
#define REF_HPP
#include <cctype>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

namespace ref {
using std::string; using std::vector;

// ---------------------------------------------------------------- lexer
enum TK { T_END = 256, T_INT, T_FLOAT, T_STR, T_ID, T_KW, T_OP2 };  // T_OP2: == != <= >= ->
struct Token { int kind; string text; int off; };
struct Err { string why; int off; };

static bool is_ws(unsigned char c) { return c == ' ' || (c >= 9 && c <= 13); }
static bool is_al(unsigned char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
static bool is_dg(unsigned char c) { return c >= '0' && c <= '9'; }
static bool is_kw(const string &s) { static const std::set<string> k = {"if","fun","not","and","or","else","none","true","false","return","while","break","do"}; return k.count(s); }

static vector<Token> lex(const string &s)
{
    vector<Token> v; size_t i = 0, n = s.size();
    for (;;) {
        while (i < n && (is_ws(s[i]) || s[i] == '#')) { if (s[i] == '#') while (i < n && s[i] != '\n') i++; else i++; }
        if (i >= n) break;
        size_t b = i; int off = i; unsigned char c = s[i];
        if (is_al(c) || c == '_') {
            while (i < n && (is_al(s[i]) || is_dg(s[i]) || s[i] == '_')) i++;
            string t = s.substr(b, i - b); v.push_back({ is_kw(t) ? T_KW : T_ID, t, off });
        } else if (is_dg(c)) {
            int k = T_INT; while (i < n && is_dg(s[i])) i++;
            if (i + 1 < n && s[i] == '.' && is_dg(s[i + 1])) { k = T_FLOAT; i++; while (i < n && is_dg(s[i])) i++; }
            v.push_back({ k, s.substr(b, i - b), off });
        } else if (c == '"' || c == '\'') {
            i++;
            for (;;) {
                if (i >= n) throw Err{ "unterminated string", (int)n };
                if ((unsigned char)s[i] == c) break;
                if (s[i] == '\\') { i++; if (i < n && (s[i] == '\'' || s[i] == '"' || s[i] == '\\')) i++; } else i++;
            }
            i++;
            v.push_back({ T_STR, s.substr(b, i - b), off });
        } else if (strchr("+-*/<>!=,|%", c) && c) {
            static const char *two[] = { "==", "!=", "<=", ">=", "->" };
            bool f = false;
            for (auto t : two) if (s.compare(i, 2, t) == 0) { v.push_back({ T_OP2, t, off }); i += 2; f = true; break; }
            if (!f) { v.push_back({ c, string(1, c), off }); i++; }
        } else { v.push_back({ c, string(1, c), off }); i++; }
    }
    v.push_back({ T_END, "", (int)n });
    return v;
}

// ---------------------------------------------------------------- syntax tree
enum NK { E_INT, E_FLOAT, E_STR, E_ID, E_NONE, E_TRUE, E_FALSE, E_LIST, E_MAP, E_SEL, E_ARW, E_CALL, E_UN, E_BIN, E_FUN,
          S_EXPR, S_IF, S_WHILE, S_DO, S_BLOCK, S_BREAK, S_RET, S_FUN };
struct Node {
    NK k; string s; long long i = 0; double d = 0; int off = 0; bool big = false;
    vector<Node*> c;          // children
    vector<Node*> c2;         // map values / arg types ; arg defaults in c3
    vector<Node*> c3; vector<string> names;
};
struct Pool { std::deque<Node> d; Node *mk(NK k, int off) { d.emplace_back(); Node *n = &d.back(); n->k = k; n->off = off; return n; } };

struct Parser {
    vector<Token> t; size_t p = 0; Pool &P;
    Parser(const string &src, Pool &P) : t(lex(src)), P(P) {}
    bool kw(const char *s) const { return t[p].kind == T_KW && t[p].text == s; }
    bool is(int k) const { return t[p].kind == k; }
    bool op(const char *s) const { return (t[p].kind == T_OP2 || t[p].kind < 256) && t[p].text == s; }
    [[noreturn]] void bad(const char *w) { throw Err{ w, t[p].off }; }
    void eat(int k, const char *w) { if (!is(k)) bad(w); p++; }
    string unescape(const string &raw) {
        string o; for (size_t i = 1; i + 1 < raw.size(); i++) {
            if (!raw[i]) bad("null byte");
            if (raw[i] != '\\') { o += raw[i]; continue; }
            i++; if (i + 1 >= raw.size()) bad("escape");
            switch (raw[i]) { case 'n': o += '\n'; break; case 't': o += '\t'; break; case 'r': o += '\r'; break; case '\\': o += '\\'; break; case '\'': o += '\''; break; case '"': o += '"'; break; default: bad("escape"); }
        }
        if (o.size() >= 4096) bad("string too long");
        return o;
    }
    Node *primary() {
        Token &k = t[p]; Node *n;
        if (is('(')) { p++; n = expr(true, true); eat(')', ")"); return n; }
        if (is('[')) return list();
        if (is('{')) return mapl();
        if (is(T_INT)) { n = P.mk(E_INT, k.off); n->s = k.text; if (k.text.size() >= 64) bad("int too long"); __int128 v = 0; for (char c : k.text) { v = v * 10 + (c - '0'); if (v > (__int128)INT64_MAX) { n->big = true; bad("int overflow"); } } n->i = (long long)v; p++; return n; }
        if (is(T_FLOAT)) { n = P.mk(E_FLOAT, k.off); n->s = k.text; if (k.text.size() >= 64) bad("float too long"); n->d = strtod(k.text.c_str(), 0); p++; return n; }
        if (is(T_STR)) { n = P.mk(E_STR, k.off); n->s = unescape(k.text); p++; return n; }
        if (is(T_ID)) { n = P.mk(E_ID, k.off); n->s = k.text; p++; return n; }
        if (kw("none")) { p++; return P.mk(E_NONE, k.off); }
        if (kw("true")) { p++; return P.mk(E_TRUE, k.off); }
        if (kw("false")) { p++; return P.mk(E_FALSE, k.off); }
        bad("primary");
    }
    Node *list() {
        Node *n = P.mk(E_LIST, t[p].off); p++;
        if (!is(']')) for (;;) { n->c.push_back(expr(false, true)); if (is(']')) break; eat(',', ", or ]"); }
        p++; return n;
    }
    Node *mapl() {
        Node *n = P.mk(E_MAP, t[p].off); p++;
        if (!is('}')) for (;;) {
            bool f = false;
            if (kw("fun")) {
                f = true; Node *fn = fundef(); Node *key = P.mk(E_STR, fn->off); key->s = fn->s; n->c.push_back(key); fn->k = E_FUN; n->c2.push_back(fn);
            } else {
                Node *key;
                if (is(T_ID) && t[p + 1].kind == ':') { key = P.mk(E_STR, t[p].off); key->s = t[p].text; p++; }
                else key = expr(false, true);
                eat(':', ":"); n->c.push_back(key); n->c2.push_back(expr(false, true));
            }
            if (is('}')) break;
            if (!f) eat(',', ", or }");
        }
        p++; return n;
    }
    Node *postfix() {
        Node *n = primary();
        for (;;) {
            int off = t[p].off;
            if (is('.') || op("->")) {
                bool a = op("->"); p++; if (!is(T_ID)) bad("ident after dot");
                Node *s = P.mk(a ? E_ARW : E_SEL, off), *id = P.mk(E_STR, off); id->s = t[p].text; p++; s->c = { n, id }; n = s;
            } else if (is('[')) {
                Node *l = list(); if (l->c.empty()) bad("missing index");
                Node *s = P.mk(E_SEL, off); s->c = { n, l->c.size() == 1 ? l->c[0] : l }; n = s;
            } else if (is('(')) {
                p++; Node *c = P.mk(E_CALL, off); c->c.push_back(n);
                if (!is(')')) for (;;) { c->c.push_back(expr(false, true)); if (is(')')) break; eat(',', ", or )"); }
                p++; n = c;
            } else return n;
        }
    }
    Node *prefix() {
        if (is('+') || is('-') || is('?') || kw("not")) { Node *n = P.mk(E_UN, t[p].off); n->s = t[p].text; p++; n->c = { prefix() }; return n; }
        return postfix();
    }
    int prec() const {
        if (is(T_KW)) return kw("or") ? 2 : kw("and") ? 3 : -1;
        if (is(T_OP2)) return op("->") ? -1 : 4;
        switch (t[p].kind) { case '=': return 0; case '|': return 1; case '<': case '>': return 4; case '+': case '-': return 5; case '*': case '/': case '%': return 6; case ',': return 7; }
        return -1;
    }
    // precedence levels, lowest first; `,` binds tightest of the binary operators
    Node *level(int l, bool tup, bool as) {
        if (l > 7) return prefix();
        Node *n = level(l + 1, tup, as);
        while (prec() == l && !(l == 7 && !tup) && !(l == 0 && !as)) {
            Node *b = P.mk(E_BIN, t[p].off); b->s = t[p].text; p++;
            Node *r = l == 0 ? level(0, tup, as) : level(l + 1, tup, as);
            b->c = { n, r }; n = b; if (l == 0) break;
        }
        return n;
    }
    Node *expr(bool tup, bool as) { return level(0, tup, as); }
    Node *fundef() {
        Node *n = P.mk(S_FUN, t[p].off); p++; if (!is(T_ID)) bad("function name"); n->s = t[p].text; p++;
        eat('(', "(");
        if (!is(')')) for (;;) {
            if (!is(T_ID)) bad("arg name"); n->names.push_back(t[p].text); p++;
            Node *ty = nullptr, *df = nullptr;
            if (is(':')) { p++; ty = expr(false, false); }
            if (is('=')) { p++; df = expr(false, true); }
            n->c2.push_back(ty); n->c3.push_back(df);
            if (is(')')) break; eat(',', ", or )");
        }
        p++; n->c = { stmt() }; return n;
    }
    Node *stmt() {
        int off = t[p].off; Node *n;
        if (is('{')) { p++; n = P.mk(S_BLOCK, off); while (!is('}')) n->c.push_back(stmt()); p++; return n; }
        if (kw("if")) { p++; n = P.mk(S_IF, off); n->c.push_back(expr(true, true)); eat(':', ":"); n->c.push_back(stmt()); if (kw("else")) { p++; n->c.push_back(stmt()); } return n; }
        if (kw("while")) { p++; n = P.mk(S_WHILE, off); n->c.push_back(expr(true, true)); eat(':', ":"); n->c.push_back(stmt()); return n; }
        if (kw("do")) { p++; n = P.mk(S_DO, off); n->c.push_back(stmt()); if (!kw("while")) bad("while"); p++; n->c.push_back(expr(true, true)); eat(';', ";"); return n; }
        if (kw("break")) { p++; eat(';', ";"); return P.mk(S_BREAK, off); }
        if (kw("return")) { p++; n = P.mk(S_RET, off); n->c.push_back(expr(true, true)); eat(';', ";"); return n; }
        if (kw("fun")) return fundef();
        if (is('(') || is('[') || is('+') || is('-') || is('?') || is(T_INT) || is(T_FLOAT) || is(T_STR) || is(T_ID) || kw("not") || kw("none") || kw("true") || kw("false"))
        { n = P.mk(S_EXPR, off); n->c.push_back(expr(true, true)); eat(';', ";"); return n; }
        bad("statement");
    }
    Node *program() { Node *n = P.mk(S_BLOCK, 0); while (!is(T_END)) n->c.push_back(stmt()); return n; }
};

// ---------------------------------------------------------------- static checks
static bool is_pair(Node *n) { return n->k == E_BIN && n->s == ","; }
static void flatten(Node *n, vector<Node*> &o) { if (is_pair(n)) { flatten(n->c[0], o); flatten(n->c[1], o); } else o.push_back(n); }
static void check(Node *n, bool loop);
static void check_fun(Node *n) { for (auto a : n->c2) if (a) check(a, false); for (auto a : n->c3) if (a) check(a, false); check(n->c[0], false); }
static void check(Node *n, bool loop)
{
    switch (n->k) {
    case E_MAP: for (auto c : n->c) check(c, loop); for (auto c : n->c2) check(c, loop); return;
    case E_CALL: if (n->c[0]->k == E_ARW) { for (auto c : n->c[0]->c) check(c, loop); for (size_t i = 1; i < n->c.size(); i++) check(n->c[i], loop); return; } break;
    case E_ARW: throw Err{ "-> outside call", n->off };
    case E_BIN:
        if (n->s == ",") throw Err{ "tuple", n->off };
        if (n->s == "=") {
            vector<Node*> l; flatten(n->c[0], l); if (l.size() > 32) throw Err{ "tuple too long", n->off };
            if (l.size() > 1 && n->c[1]->k != E_CALL) throw Err{ "multi-assign needs a call", n->off };
            check(n->c[1], loop);
            for (auto x : l) { if (x->k == E_ID) continue; if (x->k == E_SEL) { check(x->c[0], loop); check(x->c[1], loop); continue; } throw Err{ "not assignable", x->off }; }
            return;
        }
        break;
    case E_FUN: case S_FUN: check_fun(n); return;
    case S_WHILE: check(n->c[0], loop); check(n->c[1], true); return;
    case S_DO: check(n->c[0], true); check(n->c[1], loop); return;
    case S_BREAK: if (!loop) throw Err{ "break", n->off }; return;
    case S_RET: { vector<Node*> l; flatten(n->c[0], l); if (l.size() > 32) throw Err{ "tuple too long", n->off }; for (auto x : l) check(x, loop); return; }
    default: break;
    }
    for (auto c : n->c) check(c, loop);
}
static Node *compile(const string &src, Pool &P) { Parser ps(src, P); Node *n = ps.program(); check(n, false); return n; }
static bool accepts(const string &src, string *why = nullptr, int *off = nullptr)
{ Pool P; try { compile(src, P); return true; } catch (Err &e) { if (why) *why = e.why; if (off) *off = e.off; return false; } }

// ---------------------------------------------------------------- canonical text: everything parenthesized / braced
static string quote(const string &s) { string o = "\""; for (char c : s) switch (c) { case '\n': o += "\\n"; break; case '\t': o += "\\t"; break; case '\r': o += "\\r"; break; case '\\': o += "\\\\"; break; case '"': o += "\\\""; break; default: o += c; } return o + "\""; }
static string canon(Node *n);
static string canon_fun(Node *n) {
    string o = "fun " + n->s + "(";
    for (size_t i = 0; i < n->names.size(); i++) { if (i) o += ", "; o += n->names[i]; if (n->c2[i]) o += ": " + canon(n->c2[i]); if (n->c3[i]) o += " = " + canon(n->c3[i]); }
    return o + ") " + canon(n->c[0]);
}
static string canon(Node *n)
{
    string o;
    switch (n->k) {
    case E_INT: case E_FLOAT: case E_ID: return n->s;
    case E_STR: return quote(n->s);
    case E_NONE: return "none"; case E_TRUE: return "true"; case E_FALSE: return "false";
    case E_LIST: o = "["; for (size_t i = 0; i < n->c.size(); i++) o += (i ? ", " : "") + canon(n->c[i]); return o + "]";
    case E_MAP: o = "{"; for (size_t i = 0; i < n->c.size(); i++) {
            if (n->c2[i]->k == E_FUN) { o += canon_fun(n->c2[i]); o += " "; continue; }
            o += (n->c[i]->k == E_ID ? "(" + canon(n->c[i]) + ")" : canon(n->c[i])) + ": " + canon(n->c2[i]); if (i + 1 < n->c.size()) o += ", "; } return o + "}";
    case E_SEL: return canon(n->c[0]) + "[" + canon(n->c[1]) + "]";
    case E_ARW: return canon(n->c[0]) + "->" + n->c[1]->s;
    case E_CALL: o = canon(n->c[0]) + "("; for (size_t i = 1; i < n->c.size(); i++) o += (i > 1 ? ", " : "") + canon(n->c[i]); return o + ")";
    case E_UN: return "(" + n->s + (n->s == "not" ? " " : "") + canon(n->c[0]) + ")";
    case E_BIN: return "(" + canon(n->c[0]) + " " + n->s + " " + canon(n->c[1]) + ")";
    case E_FUN: case S_FUN: return canon_fun(n);
    case S_EXPR: { string e = canon(n->c[0]); return (e[0] == '{' ? "(" + e + ")" : e) + ";"; }
    case S_IF: o = "if " + canon(n->c[0]) + ": "; if (n->c[1]->k == S_IF && n->c.size() > 2) o += "{ " + canon(n->c[1]) + " }"; else o += "{ " + canon(n->c[1]) + " }"; if (n->c.size() > 2) o += " else { " + canon(n->c[2]) + " }"; return o;
    case S_WHILE: return "while " + canon(n->c[0]) + ": { " + canon(n->c[1]) + " }";
    case S_DO: return "do { " + canon(n->c[0]) + " } while " + canon(n->c[1]) + ";";
    case S_BLOCK: for (size_t i = 0; i < n->c.size(); i++) o += (i ? " " : "") + canon(n->c[i]); return "{ " + o + " }";
    case S_BREAK: return "break;";
    case S_RET: return "return " + canon(n->c[0]) + ";";
    }
    return "?";
}
static string canon_program(Node *n) { string o; for (auto c : n->c) o += canon(c) + "\n"; return o; }

// ---------------------------------------------------------------- values
struct Env;
enum VT { V_NONE, V_BOOL, V_INT, V_FLT, V_STR, V_LIST, V_MAP, V_FUN, V_NAT, V_TYPE, V_NULLABLE, V_SUM, V_ANY, V_BUF, V_SMAP };
struct Val {
    VT t; long long i = 0; double d = 0; string s;          // s: string / type name / native name
    vector<Val*> l, mk, mv; Node *fn = nullptr; Env *env = nullptr; Val *a = nullptr, *b = nullptr;
    std::shared_ptr<vector<unsigned char>> pay; size_t off = 0, len = 0;    // buffers
};
// well-formed UTF-8 (RFC 3629); appends the code points
static bool utf8(const string &s, vector<uint32_t> *cps = nullptr, vector<string> *parts = nullptr) {
    size_t i = 0, n = s.size();
    while (i < n) {
        unsigned char c = s[i]; int k; unsigned lo = 0x80, hi = 0xBF; uint32_t cp;
        if (c <= 0x7F) { k = 0; cp = c; } else if (c >= 0xC2 && c <= 0xDF) { k = 1; cp = c & 0x1F; }
        else if (c >= 0xE0 && c <= 0xEF) { k = 2; cp = c & 0xF; if (c == 0xE0) lo = 0xA0; if (c == 0xED) hi = 0x9F; }
        else if (c >= 0xF0 && c <= 0xF4) { k = 3; cp = c & 7; if (c == 0xF0) lo = 0x90; if (c == 0xF4) hi = 0x8F; } else return false;
        if (i + k >= n) return false;
        for (int j = 1; j <= k; j++) { unsigned char d = s[i + j]; if (d < lo || d > hi) return false; lo = 0x80; hi = 0xBF; cp = cp << 6 | (d & 0x3F); }
        if (cps) cps->push_back(cp);
        if (parts) parts->push_back(s.substr(i, k + 1));
        i += k + 1;
    }
    return true;
}
static string utf8enc(uint32_t c) {
    string o; if (c < 0x80) o += (char)c; else if (c < 0x800) { o += (char)(0xC0 | c >> 6); o += (char)(0x80 | (c & 63)); }
    else if (c < 0x10000) { o += (char)(0xE0 | c >> 12); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); }
    else { o += (char)(0xF0 | c >> 18); o += (char)(0x80 | (c >> 12 & 63)); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); } return o;
}
struct Env { Env *up; std::map<string, Val*> v; };
struct RunErr { string why; };          // runtime error: execution is aborted
struct Unsupported { string why; };     // outside the model: the caller must skip
struct Horizon {};

static string bytes(const string &s) { string o; char t[8]; for (unsigned char c : s) { if (c == '\\' || c == '"') { o += '\\'; o += c; } else if (c < 32 || c == 127) { snprintf(t, 8, "\\x%02x", c); o += t; } else o += c; } return o; }

struct Interp {
    std::deque<Val> vals; std::deque<Env> envs; Pool P;
    string out; vector<Val*> rets; bool returned = false;
    std::function<int(int)> ask; int nask = 0; long fuel = 200000; int depth = 0, maxdepth = 12;
    std::map<string, Val*> builtins; Env *globals = nullptr;
    bool err = false, horizon = false; string why;
    struct Brk {}; struct Ret { vector<Val*> v; };

    Val *mk(VT t) { vals.emplace_back(); vals.back().t = t; return &vals.back(); }
    Val *none() { static Val n{ V_NONE }; return &n; }
    Val *boolean(bool b) { Val *v = mk(V_BOOL); v->i = b; return v; }
    Val *integer(long long i) { Val *v = mk(V_INT); v->i = i; return v; }
    Val *flt(double d) { Val *v = mk(V_FLT); v->d = d; return v; }
    Val *str(const string &s) { Val *v = mk(V_STR); v->s = s; return v; }
    std::map<string, Val*> types;
    Val *type(const string &n) { Val *&t = types[n]; if (!t) { t = mk(V_TYPE); t->s = n; } return t; }
    Val *typeof_(Val *v) {
        switch (v->t) { case V_NONE: return type("None"); case V_BOOL: return type("bool"); case V_INT: return type("int"); case V_FLT: return type("float"); case V_STR: return type("String"); case V_LIST: return type("List"); case V_MAP: return type("Map");
            case V_FUN: return type("function"); case V_NAT: return type("native function"); case V_TYPE: return type("Type"); case V_NULLABLE: return type("NullableType"); case V_SUM: return type("SumType"); case V_ANY: return type("AnyType"); case V_BUF: return type("Buffer"); case V_SMAP: return type("static map"); }
        return nullptr;
    }
    void fuelcheck() { if (--fuel < 0) { horizon = true; throw Horizon{}; } }
    [[noreturn]] void fail(const string &w) { throw RunErr{ w }; }

    // -------- serialization (same format as the harness natives)
    void ser(Val *v, string &o, vector<Val*> &seen, int dep = 0) {
        char t[64];
        switch (v->t) {
        case V_NONE: o += "n"; return; case V_BOOL: o += v->i ? "T" : "F"; return;
        case V_INT: snprintf(t, 64, "%lld", v->i); o += t; return;
        case V_FLT: if (v->d != v->d) o += "fnan"; else { snprintf(t, 64, "f%.17g", v->d); o += t; } return;
        case V_STR: o += "\"" + bytes(v->s) + "\""; return;
        case V_TYPE: o += "<" + v->s + ">"; return;
        default: break;
        }
        if (v->t == V_LIST || v->t == V_MAP || v->t == V_BUF) for (size_t i = 0; i < seen.size(); i++) if (seen[i] == v) { snprintf(t, 64, "^%zu", i); o += t; return; }
        if (v->t == V_LIST || v->t == V_MAP || v->t == V_BUF) seen.push_back(v);
        if (v->t == V_BUF) { o += "b"; for (size_t i = 0; i < v->len; i++) { snprintf(t, 64, "%02x", (*v->pay)[v->off + i]); o += t; } return; }
        if (v->t == V_SMAP) { o += "<a static map>"; return; }
        if (v->t == V_LIST) { o += "["; for (size_t i = 0; i < v->l.size(); i++) { if (i) o += ","; ser(v->l[i], o, seen, dep + 1); } o += "]"; }
        else if (v->t == V_MAP) { o += "{"; for (size_t i = 0; i < v->mk.size(); i++) { if (i) o += ","; size_t was = seen.size(); if (v->mk[i]->t == V_LIST || v->mk[i]->t == V_MAP) throw Unsupported{ "aggregate key shown" }; ser(v->mk[i], o, seen, dep + 1); seen.resize(was); o += ":"; ser(v->mv[i], o, seen, dep + 1); } o += "}"; }
        else if (v->t == V_FUN) o += "<a function>"; else if (v->t == V_NAT) o += "<a native function>";
        else if (v->t == V_NULLABLE) o += "<a NullableType>"; else if (v->t == V_SUM) o += "<a SumType>"; else o += "<a AnyType>";
    }
    void emit(const vector<Val*> &a) { vector<Val*> seen; out += "@"; for (auto v : a) { out += " "; ser(v, out, seen); } out += "\n"; }
    string rets_text() { string o; vector<Val*> seen; for (auto v : rets) { ser(v, o, seen); o += ";"; } return o; }

    // -------- print format
    void pr(Val *v, string &o, vector<Val*> &path) {
        char t[512];
        switch (v->t) {
        case V_NONE: o += "none"; return; case V_BOOL: o += v->i ? "true" : "false"; return;
        case V_INT: snprintf(t, 512, "%lld", v->i); o += t; return; case V_FLT: snprintf(t, 512, "%2.2f", v->d); o += t; return;
        case V_STR: o += v->s; return; case V_TYPE: o += v->s; return;
        case V_LIST: case V_MAP: {
            for (auto p : path) if (p == v) { o += "..."; return; }
            path.push_back(v); bool l = v->t == V_LIST; o += l ? "[" : "{";
            size_t n = l ? v->l.size() : v->mk.size();
            for (size_t i = 0; i < n; i++) { if (i) o += ", "; if (!l) { pr(v->mk[i], o, path); o += ": "; } pr(l ? v->l[i] : v->mv[i], o, path); }
            o += l ? "]" : "}"; path.pop_back(); return; }
        case V_NULLABLE: o += "?"; pr(v->a, o, path); return;
        case V_SUM: pr(v->a, o, path); o += " | "; pr(v->b, o, path); return;
        case V_ANY: o += "<AnyType is unprintable>"; return;
        case V_BUF: o += "["; for (size_t i = 0; i < v->len; i++) { snprintf(t, 512, "%s%02X", i ? ", " : "", (*v->pay)[v->off + i]); o += t; } o += "]"; return;
        case V_FUN: case V_NAT: case V_SMAP: o += "<" + typeof_(v)->s + " is unprintable>"; return;
        default: throw Unsupported{ "print" };
        }
    }

    // -------- equality
    static bool hasEq(VT t) { return t != V_LIST && t != V_MAP && t != V_FUN && t != V_NAT && t != V_NULLABLE && t != V_SUM && t != V_ANY && t != V_BUF && t != V_SMAP; }
    bool eq(Val *a, Val *b) {
        if (a->t != b->t) return false;
        switch (a->t) { case V_NONE: return true; case V_BOOL: case V_INT: return a->i == b->i; case V_FLT: return a->d == b->d; case V_STR: return a->s == b->s; case V_TYPE: return a == b; default: fail("values of this type can't be compared"); }
    }
    // keys are copied, at any depth
    Val *copykey(Val *k, int lev = 0) {
        switch (k->t) { case V_NONE: case V_BOOL: case V_INT: case V_FLT: case V_STR: return k;
        case V_LIST: { if (lev > 40) throw Unsupported{ "cyclic key" }; Val *r = mk(V_LIST); for (Val *x : k->l) r->l.push_back(copykey(x, lev + 1)); return r; }
        case V_MAP: { if (lev > 40) throw Unsupported{ "cyclic key" }; Val *r = mk(V_MAP); for (size_t i = 0; i < k->mk.size(); i++) { r->mk.push_back(copykey(k->mk[i], lev + 1)); r->mv.push_back(copykey(k->mv[i], lev + 1)); } return r; }
        default: throw Unsupported{ "key" }; }
    }
    // whether two lists (or maps) meet during a lookup, which is an error, is a matter of hashing
    int find(Val *m, Val *k) { for (size_t i = 0; i < m->mk.size(); i++) { if ((k->t == V_LIST || k->t == V_MAP) && m->mk[i]->t == k->t) throw Unsupported{ "aggregate keys meet" }; if (eq(m->mk[i], k)) return i; } return -1; }
    vector<string> chars(const string &s) { vector<string> v; utf8(s, nullptr, &v); return v; }
    // selection used as an expression: absent -> none
    Val *select(Val *c, Val *k) {
        if (c->t == V_LIST) { if (k->t != V_INT || k->i < 0 || k->i >= (long long)c->l.size()) return none(); return c->l[k->i]; }
        if (c->t == V_MAP) { copykey(k); int i = find(c, k); return i < 0 ? none() : c->mv[i]; }
        if (c->t == V_STR) { auto v = chars(c->s); if (k->t != V_INT || k->i < 0 || k->i >= (long long)v.size()) return none(); return str(v[k->i]); }
        if (c->t == V_BUF) { if (k->t != V_INT || k->i < 0 || k->i >= (long long)c->len) return none(); return integer((*c->pay)[c->off + k->i]); }
        if (c->t == V_SMAP) { if (k->t != V_STR) return none(); string q = c->s + "." + k->s; if (q == "math.PI") return flt(M_PI); if (q == "math.E") return flt(M_E);
            for (auto n : { "string.ord", "string.chr", "string.cat", "string.trim", "string.slice", "string.toInt", "buffer.new", "buffer.sliceUp", "buffer.toString", "buffer.fromString", "math.floor", "math.ceil", "math.sin", "math.cos", "math.tan", "math.asin", "math.acos", "math.atan", "math.atan2", "math.exp", "math.log", "math.log10", "math.pow", "math.sqrt" }) if (q == n) { Val *v = mk(V_NAT); v->s = q; return v; }
            return none(); }
        return none();
    }
    void insert(Val *c, Val *k, Val *v) {
        if (c->t == V_LIST) { if (k->t != V_INT) fail("list index isn't an integer"); if (k->i < 0 || k->i > (long long)c->l.size()) fail("out of bounds"); if (k->i == (long long)c->l.size()) c->l.push_back(v); else c->l[k->i] = v; return; }
        if (c->t == V_MAP) { copykey(k); int i = find(c, k); if (i >= 0) c->mv[i] = v; else { c->mk.push_back(copykey(k)); c->mv.push_back(v); } return; }
        if (c->t == V_BUF) { if (k->t != V_INT || v->t != V_INT) fail("buffer write of a non-integer"); if (k->i < 0 || k->i >= (long long)c->len) fail("out of bounds"); if (v->i < 0 || v->i > 255) fail("not a byte"); (*c->pay)[c->off + k->i] = v->i; return; }
        fail("insert into a non-collection");
    }
    bool istype(Val *t, Val *v) {
        switch (t->t) {
        case V_TYPE: return typeof_(v) == t;
        case V_ANY: return true;
        case V_NULLABLE: return v->t == V_NONE || istype(t->a, v);
        case V_SUM: return istype(t->a, v) || istype(t->b, v);
        case V_LIST: if (v->t != V_LIST) return false; for (size_t i = 0; i < t->l.size(); i++) { if (i >= v->l.size()) return false; if (!istype(t->l[i], v->l[i])) return false; } return true;
        case V_MAP: if (v->t != V_MAP) return false; for (size_t i = 0; i < t->mk.size(); i++) { int k = find(v, t->mk[i]); if (k < 0) return false; if (!istype(t->mv[i], v->mv[k])) return false; } return true;
        default: return false;
        }
    }
    // -------- arithmetic
    Val *arith(const string &o, Val *a, Val *b) {
        bool ai = a->t == V_INT, bi = b->t == V_INT, af = a->t == V_FLT, bf = b->t == V_FLT;
        if (!(ai || af) || !(bi || bf)) fail("operand isn't a number");
        if (o == "%") { if (!ai || !bi) fail("% on a float"); if (b->i == 0) fail("modulo by zero"); if (b->i == -1) return integer(0); return integer(a->i % b->i); }
        if (ai && bi) {
            long long r;
            if (o == "+") { if (__builtin_add_overflow(a->i, b->i, &r)) fail("overflow"); return integer(r); }
            if (o == "-") { if (__builtin_sub_overflow(a->i, b->i, &r)) fail("overflow"); return integer(r); }
            if (o == "*") { if (__builtin_mul_overflow(a->i, b->i, &r)) fail("overflow"); return integer(r); }
            if (b->i == 0) fail("division by zero"); if (a->i == INT64_MIN && b->i == -1) fail("overflow"); return integer(a->i / b->i);
        }
        double x = ai ? (double)a->i : a->d, y = bi ? (double)b->i : b->d;
        if (o == "+") return flt(x + y); if (o == "-") return flt(x - y); if (o == "*") return flt(x * y);
        if (y == 0) fail("division by zero"); return flt(x / y);
    }
    Val *relop(const string &o, Val *a, Val *b) {
        bool ai = a->t == V_INT, bi = b->t == V_INT, af = a->t == V_FLT, bf = b->t == V_FLT;
        if (!(ai || af) || !(bi || bf)) fail("operand isn't a number");
        if (ai && bi) return boolean(o == "<" ? a->i < b->i : o == ">" ? a->i > b->i : o == "<=" ? a->i <= b->i : a->i >= b->i);
        double x = ai ? (double)a->i : a->d, y = bi ? (double)b->i : b->d;
        return boolean(o == "<" ? x < y : o == ">" ? x > y : o == "<=" ? x <= y : x >= y);
    }
    Val *lookup(Env *e, const string &n) {
        for (Env *x = e; x; x = x->up) { auto it = x->v.find(n); if (it != x->v.end()) return it->second; }
        auto it = builtins.find(n); if (it != builtins.end()) return it->second;
        fail("undefined variable " + n);
    }
    bool truth(Val *v) { if (v->t != V_BOOL) fail("not a boolean"); return v->i; }
    vector<Val*> call(Val *f, const vector<Val*> &args) {
        if (f->t == V_NAT) return native(f->s, args);
        if (f->t != V_FUN) fail("not callable");
        if (++depth > maxdepth) throw Unsupported{ "recursion depth" };
        envs.push_back(Env{ f->env, {} }); Env *e = &envs.back();
        Node *n = f->fn; size_t na = n->names.size();
        vector<Val*> a(args.begin(), args.begin() + (args.size() < na ? args.size() : na)); while (a.size() < na) a.push_back(none());
        for (size_t k = na; k-- > 0;) {
            Val *v = a[k];
            if (n->c3[k] && v->t == V_NONE) v = eval(n->c3[k], e);
            if (n->c2[k]) { Val *ty = eval(n->c2[k], e); if (!istype(ty, v)) fail("argument type"); }
            e->v[n->names[k]] = v;
        }
        vector<Val*> r;
        try { exec(n->c[0], e); } catch (Ret &x) { r = x.v; }
        depth--;
        if (r.size() > 8) fail("too many return values");
        return r;
    }
    vector<Val*> native(const string &n, vector<Val*> a) {
        auto at = [&](size_t i) { return i < a.size() ? a[i] : none(); };
        if (n == "emit") { emit(a); return { a.empty() ? none() : a[0] }; }
        if (n == "ask") { int r = ask ? ask(nask++) : 0; if (r < 0) { horizon = true; fail("HORIZON"); } return { boolean(r != 0) }; }
        if (n == "nop") return { };
        if (n == "many") { Val *k = at(0); vector<Val*> r; if (k->t != V_INT) throw Unsupported{ "many" }; for (long long i = 1; i <= k->i && i <= 8; i++) r.push_back(integer(i)); return r; }
        if (n == "type") return { typeof_(at(0)) };
        if (n == "typename") return { str(typeof_(at(0))->s) };
        if (n == "istypeof") return { boolean(istype(at(0), at(1))) };
        if (n == "count") { Val *c = at(0); if (c->t == V_LIST) return { integer(c->l.size()) }; if (c->t == V_MAP) return { integer(c->mk.size()) }; if (c->t == V_STR) return { integer(chars(c->s).size()) }; if (c->t == V_BUF) return { integer(c->len) }; fail("count"); }
        if (n == "keysof") { Val *c = at(0), *r = mk(V_LIST); size_t cn = c->t == V_LIST ? c->l.size() : c->t == V_STR ? chars(c->s).size() : c->len; if (c->t == V_LIST || c->t == V_STR || c->t == V_BUF) for (size_t i = 0; i < cn; i++) r->l.push_back(integer(i)); else if (c->t == V_MAP) r->l = c->mk; else throw Unsupported{ "keysof" }; return { r }; }
        if (n == "print") { for (auto v : a) { vector<Val*> p; pr(v, out, p); } return { }; }
        if (n == "error") { fail("error()"); }
        if (n == "assert") { for (auto v : a) { if (v->t != V_BOOL) fail("assert: not a bool"); if (!v->i) fail("assert"); } return { }; }
        auto S = [&](size_t i) -> string { if (at(i)->t != V_STR) fail("expected a string"); return at(i)->s; };
        auto F = [&](size_t i) { if (at(i)->t != V_FLT) fail("expected a float"); return at(i)->d; };
        auto I = [&](size_t i) { if (at(i)->t != V_INT) fail("expected an integer"); return at(i)->i; };
        auto mkstr = [&](const string &s) { if (!utf8(s)) fail("invalid UTF-8"); return str(s); };
        auto buf = [&](size_t len) { Val *v = mk(V_BUF); v->pay = std::make_shared<vector<unsigned char>>(len); v->len = len; return v; };
        if (n == "string.ord") { vector<uint32_t> c; utf8(S(0), &c); if (c.empty()) fail("empty string"); return { integer(c[0]) }; }
        if (n == "string.chr") { long long c = I(0); if (c < 0 || c > 0x10FFFF || (c >= 0xD800 && c <= 0xDFFF)) fail("not a code point"); return { str(utf8enc(c)) }; }
        if (n == "string.cat") { string o; for (size_t i = 0; i < a.size(); i++) o += S(i); return { str(o) }; }
        if (n == "string.trim") { string o = S(0); size_t b = o.find_first_not_of(' '); if (b == string::npos) return { str("") }; return { str(o.substr(b, o.find_last_not_of(' ') - b + 1)) }; }
        if (n == "string.slice") { string o = S(0); long long off = 0, len; if (at(1)->t != V_NONE) { off = I(1); if (off < 0) fail("negative"); } if (at(2)->t != V_NONE) { len = I(2); if (len < 0) fail("negative"); } else len = -1; if (off > (long long)o.size()) fail("out of bounds"); if (len < 0) len = o.size() - off; if (len > (long long)o.size() - off) fail("out of bounds"); return { mkstr(o.substr(off, len)) }; }
        if (n == "string.toInt") { string o = S(0); bool ok = !o.empty(); for (char ch : o) if (ch < '0' || ch > '9') ok = false; if (!ok) return { none(), str("*") }; __int128 r = 0; for (char ch : o) { r = r * 10 + (ch - '0'); if (r > INT64_MAX) return { none(), str("*") }; } return { integer((long long)r) }; }
        if (n == "buffer.new") { long long z = I(0); if (z < 0 || z > (1ll << 33)) fail("buffer size"); if (z > 1 << 22) throw Unsupported{ "buffer size" }; return { buf(z) }; }
        if (n == "buffer.fromString") { string o = S(0); Val *v = buf(o.size()); std::copy(o.begin(), o.end(), v->pay->begin()); return { v }; }
        if (n == "buffer.sliceUp" || n == "buffer.toString") {
            Val *b = at(0); if (b->t != V_BUF) fail("expected a buffer");
            if (n == "buffer.toString") { string o((const char *)b->pay->data() + b->off, b->len); if (!utf8(o)) return { none(), str("*") }; return { str(o) }; }
            long long off = I(1), len = I(2); if (off < 0 || len < 0 || off > (long long)b->len || len > (long long)b->len - off) fail("slice out of range");
            Val *v = mk(V_BUF); v->pay = b->pay; v->off = b->off + off; v->len = len; return { v };
        }
        if (n == "math.floor" || n == "math.ceil") { double v = F(0), q = n == "math.floor" ? floor(v) : ceil(v); if (!(q >= -0x1p63 && q < 0x1p63)) fail("not representable"); return { integer((long long)q) }; }
        if (n == "math.atan2") { double x = F(0), y = F(1); return { flt(atan2(x, y)) }; } if (n == "math.pow") { double x = F(0), y = F(1); return { flt(pow(x, y)) }; }
        static const std::map<string, double (*)(double)> M1 = { { "sin", sin }, { "cos", cos }, { "tan", tan }, { "asin", asin }, { "acos", acos }, { "atan", atan }, { "exp", exp }, { "log", log }, { "log10", log10 }, { "sqrt", sqrt } };
        if (n.compare(0, 5, "math.") == 0) { auto it = M1.find(n.substr(5)); if (it != M1.end()) return { flt(it->second(F(0))) }; }
        throw Unsupported{ "native " + n };
    }
    vector<Val*> callnode(Node *n, Env *e) {
        vector<Val*> args(n->c.size() - 1);
        for (size_t i = n->c.size() - 1; i >= 1; i--) args[i - 1] = eval(n->c[i], e);
        Val *f; Node *c = n->c[0];
        if (c->k == E_ARW) { Val *x = eval(c->c[0], e); f = select(x, eval(c->c[1], e)); args.insert(args.begin(), x); }
        else f = eval(c, e);
        return call(f, args);
    }
    Val *closure(Node *n, Env *e) { Val *f = mk(V_FUN); f->fn = n; f->env = e; return f; }
    Val *eval(Node *n, Env *e) {
        fuelcheck();
        switch (n->k) {
        case E_INT: return integer(n->i); case E_FLOAT: return flt(n->d); case E_STR: if (!utf8(n->s)) fail("invalid UTF-8"); return str(n->s);
        case E_NONE: return none(); case E_TRUE: return boolean(true); case E_FALSE: return boolean(false);
        case E_ID: return lookup(e, n->s);
        case E_LIST: { Val *v = mk(V_LIST); for (auto c : n->c) v->l.push_back(eval(c, e)); return v; }
        case E_MAP: { Val *v = mk(V_MAP); for (size_t i = 0; i < n->c.size(); i++) { Val *k = eval(n->c[i], e); Val *x = eval(n->c2[i], e); insert(v, k, x); } return v; }
        case E_SEL: { Val *c = eval(n->c[0], e); Val *k = eval(n->c[1], e); return select(c, k); }
        case E_CALL: { auto r = callnode(n, e); return r.empty() ? none() : r[0]; }
        case E_FUN: return closure(n, e);
        case E_UN: {
            Val *v = eval(n->c[0], e);
            if (n->s == "not") return boolean(!truth(v));
            if (n->s == "?") { Val *r = mk(V_NULLABLE); r->a = v; return r; }
            if (n->s == "+" && v->t != V_INT && v->t != V_FLT) throw Unsupported{ "unary plus" };   // not specified
            if (v->t != V_INT && v->t != V_FLT) fail("not a number");
            if (n->s == "+") return v;
            if (v->t == V_INT) { if (v->i == INT64_MIN) fail("overflow"); return integer(-v->i); }
            return flt(-v->d);
        }
        case E_BIN: {
            const string &o = n->s;
            if (o == "=") {
                vector<Node*> l; flatten(n->c[0], l); vector<Val*> v;
                if (l.size() == 1) v = { eval(n->c[1], e) };
                else { fuelcheck(); v = callnode(n->c[1], e); while (v.size() < l.size()) v.push_back(none()); v.resize(l.size()); }
                for (size_t k = l.size(); k-- > 0;) {
                    if (l[k]->k == E_ID) e->v[l[k]->s] = v[k];
                    else { Val *c = eval(l[k]->c[0], e); Val *i = eval(l[k]->c[1], e); insert(c, i, v[k]); }
                }
                return v[0];
            }
            if (o == "and") { if (!truth(eval(n->c[0], e))) return boolean(false); return boolean(truth(eval(n->c[1], e))); }
            if (o == "or") { if (truth(eval(n->c[0], e))) return boolean(true); return boolean(truth(eval(n->c[1], e))); }
            Val *a = eval(n->c[0], e), *b = eval(n->c[1], e);
            if (o == "==") return boolean(eq(a, b)); if (o == "!=") return boolean(!eq(a, b));
            if (o == "|") { Val *r = mk(V_SUM); r->a = a; r->b = b; return r; }
            if (o == "<" || o == ">" || o == "<=" || o == ">=") return relop(o, a, b);
            return arith(o, a, b);
        }
        default: throw Unsupported{ "node" };
        }
    }
    void exec(Node *n, Env *e) {
        fuelcheck();
        switch (n->k) {
        case S_EXPR: eval(n->c[0], e); return;
        case S_BLOCK: for (auto c : n->c) exec(c, e); return;
        case S_IF: if (truth(eval(n->c[0], e))) exec(n->c[1], e); else if (n->c.size() > 2) exec(n->c[2], e); return;
        case S_WHILE: try { while (truth(eval(n->c[0], e))) exec(n->c[1], e); } catch (Brk &) {} return;
        case S_DO: try { do exec(n->c[0], e); while (truth(eval(n->c[1], e))); } catch (Brk &) {} return;
        case S_BREAK: throw Brk{};
        case S_RET: { vector<Node*> l; flatten(n->c[0], l); Ret r; for (auto x : l) r.v.push_back(eval(x, e)); throw r; }
        case S_FUN: { Val *f = closure(n, e); e->v[n->s] = f; return; }
        default: throw Unsupported{ "stmt" };
        }
    }
    Interp() {
        for (auto n : { "emit", "ask", "nop", "many", "type", "typename", "istypeof", "count", "keysof", "print", "error", "assert" }) { Val *v = mk(V_NAT); v->s = n; builtins[n] = v; }
        for (auto n : { "Type", "int", "bool", "float", "String", "List", "Map", "Buffer", "NullableType", "SumType", "File", "Directory" }) builtins[n] = type(n);
        for (auto n : { "string", "buffer", "math" }) { Val *v = mk(V_SMAP); v->s = n; builtins[n] = v; }
        builtins["None"] = type("None"); builtins["any"] = mk(V_ANY);
    }
    // runs a program; ok() tells whether it finished without an error
    bool run(Node *prog) {
        envs.push_back(Env{ nullptr, {} }); globals = &envs.back();
        try { exec(prog, globals); }
        catch (Ret &r) { rets = r.v; returned = true; if (rets.size() > 8) { err = true; why = "too many return values"; } }
        catch (RunErr &x) { err = true; why = x.why; }
        catch (Horizon &) { horizon = true; }
        if (!err && !horizon && !returned) { Val *m = mk(V_MAP); std::map<string, Val*> &g = globals->v; (void)g; for (auto &kv : g) { m->mk.push_back(str(kv.first)); m->mv.push_back(kv.second); } rets = { m }; }
        return !err && !horizon;
    }
    bool run(const string &src) { Node *n; try { n = compile(src, P); } catch (Err &x) { err = true; why = "compile: " + x.why; return false; } return run(n); }
};
} // namespace ref
#endif
