#include "lang.hpp"
#include <sys/socket.h>
#include <arpa/inet.h>
#include <netinet/in.h>
#include <errno.h>
#include <poll.h>
#include <limits.h>
#include <signal.h>
#include <sys/wait.h>
using std::string; using std::vector;
// A small operating system with a network in it. One instance stands behind the implementation, whose system calls are
// diverted to it; another is driven by the expected calls.
struct Sock { int type; bool reuse = false, bound = false, listening = false, conn = false; int port = -1; uint32_t addr = 0; int backlog = 0; string in, sent; bool gone = false; bool operator==(const Sock &o) const { return type == o.type && reuse == o.reuse && bound == o.bound && listening == o.listening && conn == o.conn && port == o.port && addr == o.addr && backlog == o.backlog && in == o.in && sent == o.sent; } };
struct OS {
    std::map<int, Sock> fd; int ncalls = 0, failat = -1, failerr = 0; size_t chunk = 1000; int accepted = 0, npending = 3; bool goneall = false; bool killed = false; string closed; bool anyfault = false;
    bool fault() { if (ncalls++ == failat) { errno = failerr; anyfault = true; return true; } return false; }
    int fresh() { int k = 3; while (fd.count(k)) k++; return k; }
    int socket(int d, int t, int p) { if (fault()) return -1; if (d != AF_INET) { errno = EAFNOSUPPORT; return -1; } if (t != SOCK_STREAM && t != SOCK_DGRAM) { errno = EINVAL; return -1; } if (p != 0 && p != 6 && p != 17) { errno = EPROTONOSUPPORT; return -1; } int k = fresh(); fd[k] = Sock{ t }; return k; }
    Sock *get(int k) { auto it = fd.find(k); if (it == fd.end()) { errno = EBADF; return nullptr; } return &it->second; }
    int setreuse(int k, bool on) { if (fault()) return -1; Sock *s = get(k); if (!s) return -1; s->reuse = on; return 0; }
    int bind(int k, uint32_t a, int port) { if (fault()) return -1; Sock *s = get(k); if (!s) return -1; if (s->bound) { errno = EINVAL; return -1; } for (auto &x : fd) if (x.second.bound && x.second.port == port && x.second.type == s->type && !(s->reuse && x.second.reuse)) { errno = EADDRINUSE; return -1; } s->bound = true; s->addr = a; s->port = port; return 0; }
    int listen(int k, int b) { if (fault()) return -1; Sock *s = get(k); if (!s) return -1; if (s->type != SOCK_STREAM) { errno = EOPNOTSUPP; return -1; } s->listening = true; s->backlog = b; return 0; }
    int accept(int k) { if (fault()) return -1; Sock *s = get(k); if (!s) return -1; if (!s->listening) { errno = EINVAL; return -1; } if (accepted >= npending) { errno = EAGAIN; return -1; } Sock c{ SOCK_STREAM }; c.conn = true; c.port = 40000 + accepted * 77; static const uint32_t AD[] = { 0x7f000001, 0xcb0071c8, 0xffffffff }; c.addr = htonl(AD[accepted % 3]); static const char *D[] = { "hello world", "", "xyz" }; c.in = D[accepted % 3]; c.gone = goneall; accepted++; int f = fresh(); fd[f] = c; return f; }
    long recv(int k, char *p, size_t n, int f = 0) { if (fault()) return -1; Sock *s = get(k); if (!s) return -1; if (!s->conn) { errno = ENOTCONN; return -1; } if (f & MSG_OOB) { errno = EINVAL; return -1; } if ((f & MSG_DONTWAIT) && s->in.empty()) { errno = EAGAIN; return -1; } size_t m = std::min(std::min(n, f & MSG_WAITALL ? n : chunk), s->in.size()); if (!(f & MSG_TRUNC)) memcpy(p, s->in.data(), m); if (!(f & MSG_PEEK)) s->in.erase(0, m); return m; }
    long send(int k, const char *p, size_t n, bool nosig) { if (fault()) { if (failerr == EPIPE && !nosig) killed = true; return -1; } Sock *s = get(k); if (!s) return -1; if (!s->conn) { errno = ENOTCONN; return -1; } if (s->gone) { if (!nosig) killed = true; errno = EPIPE; return -1; } size_t m = std::min(n, chunk); s->sent.append(p, m); return m; }
    int close(int k) { if (fault()) return -1; auto it = fd.find(k); if (it == fd.end()) { errno = EBADF; return -1; } closed += std::to_string(it->second.port) + ":" + it->second.sent + ";"; fd.erase(it); return 0; }
};
static OS *g_os = nullptr; static bool g_odd = false;
extern "C" {
int __real_close(int); int __real_socket(int, int, int); int __real_setsockopt(int, int, int, const void *, socklen_t); int __real_bind(int, const struct sockaddr *, socklen_t); int __real_listen(int, int); int __real_accept(int, struct sockaddr *, socklen_t *); int __real_accept4(int, struct sockaddr *, socklen_t *, int); ssize_t __real_recv(int, void *, size_t, int); ssize_t __real_recvfrom(int, void *, size_t, int, struct sockaddr *, socklen_t *); ssize_t __real_send(int, const void *, size_t, int); ssize_t __real_sendto(int, const void *, size_t, int, const struct sockaddr *, socklen_t); int __real_shutdown(int, int);
int __wrap_close(int k) { return g_os ? g_os->close(k) : __real_close(k); }
int __wrap_shutdown(int k, int h) { return g_os ? 0 : __real_shutdown(k, h); }
int __wrap_socket(int d, int t, int p) { return g_os ? g_os->socket(d, t & ~(SOCK_CLOEXEC), p) : __real_socket(d, t, p); }
int __wrap_setsockopt(int k, int l, int o, const void *v, socklen_t n) { if (!g_os) return __real_setsockopt(k, l, o, v, n); if (l == SOL_SOCKET && o == SO_REUSEADDR && n == sizeof(int)) return g_os->setreuse(k, *(int *)v); return 0; }
int __wrap_bind(int k, const struct sockaddr *a, socklen_t n) { if (!g_os) return __real_bind(k, a, n); const sockaddr_in *i = (const sockaddr_in *)a; if (n != sizeof *i || i->sin_family != AF_INET) { g_odd = true; errno = EINVAL; return -1; } return g_os->bind(k, i->sin_addr.s_addr, ntohs(i->sin_port)); }
int __wrap_listen(int k, int b) { return g_os ? g_os->listen(k, b) : __real_listen(k, b); }
static int acc(int k, struct sockaddr *a, socklen_t *n) { int f = g_os->accept(k); if (f >= 0 && a && n) { sockaddr_in i; memset(&i, 0, sizeof i); i.sin_family = AF_INET; i.sin_port = htons(g_os->fd[f].port); i.sin_addr.s_addr = g_os->fd[f].addr; memcpy(a, &i, std::min((size_t)*n, sizeof i)); *n = sizeof i; } return f; }
int __wrap_accept(int k, struct sockaddr *a, socklen_t *n) { return g_os ? acc(k, a, n) : __real_accept(k, a, n); }
int __wrap_accept4(int k, struct sockaddr *a, socklen_t *n, int f) { return g_os ? acc(k, a, n) : __real_accept4(k, a, n, f); }
ssize_t __wrap_recv(int k, void *p, size_t n, int f) { return g_os ? g_os->recv(k, (char *)p, n, f) : __real_recv(k, p, n, f); }
ssize_t __wrap_recvfrom(int k, void *p, size_t n, int f, struct sockaddr *a, socklen_t *m) { return g_os ? g_os->recv(k, (char *)p, n, f) : __real_recvfrom(k, p, n, f, a, m); }
ssize_t __wrap_send(int k, const void *p, size_t n, int f) { return g_os ? g_os->send(k, (const char *)p, n, f & MSG_NOSIGNAL) : __real_send(k, p, n, f); }
ssize_t __wrap_sendto(int k, const void *p, size_t n, int f, const struct sockaddr *a, socklen_t m) { return g_os ? g_os->send(k, (const char *)p, n, f & MSG_NOSIGNAL) : __real_sendto(k, p, n, f, a, m); }
}
// ---- programs: every operation stores what it returns and prints it; r and e are the first two results
static const char *OPS[] = {
    "s, e = net.socket(net.AF_INET, net.SOCK_STREAM, 0, true);", "s, e = net.socket(net.AF_INET, net.SOCK_STREAM, 0);", "t, e = net.socket(net.AF_INET, net.SOCK_DGRAM, 0, false);", "t, e = net.socket(77, net.SOCK_STREAM, 0);", "t, e = net.socket(4294967296 + net.AF_INET, net.SOCK_STREAM, 0);",
    "r, e = net.bind(s, net.AF_INET, 80, '127.0.0.1');", "r, e = net.bind(s, net.AF_INET, 80);", "r, e = net.bind(t, net.AF_INET, 80, none);", "r, e = net.bind(s, net.AF_INET, 65616, none);", "r, e = net.bind(s, 10, 80);", "r, e = net.bind(s, net.AF_INET, 81, 'nonsense');",
    "r, e = net.listen(s, 5);", "r, e = net.listen(t, 4294967297);", "c, a, p = net.accept(s); r = a; e = p;", "c, a, p = net.accept(t); r = a; e = p;",
    "r, e = net.recv(c, b);", "r, e = net.recv(c, d, 2);", "r, e = net.recv(c, b, 100);", "r, e = net.recv(c, b, -1);", "r, e = net.recv(c, d, 0);",
    "r, e = net.send(c, b);", "r, e = net.send(c, d, 2);", "r, e = net.send(c, b, -5);", "r, e = net.send(c, b, 100);", "r, e = net.close(c);", "r, e = net.close(s);", "r, e = net.close(4294967299);", "r, e = net.bind(s, net.AF_INET, -1);", "r, e = net.recv(4294967300, b);" };
enum { NOPS = 29 };
struct R { int k; long long i; };      // 0 none, 1 integer, 2 message
struct M { OS os; string out; string b = string(8, '\0'); R s{ 1, -7 }, t{ 1, -7 }, c{ 1, -7 }, r{ 0 }, e{ 0 }; bool dead = false; };
static string num(const R &x) { return x.k == 0 ? "n" : x.k == 2 ? "M" : std::to_string(x.i); }
static void emitm(M &m) { string o = "@ " + num(m.s) + " " + num(m.t) + " " + num(m.c) + " " + num(m.r) + " " + num(m.e) + " b"; char t[4]; for (unsigned char x : m.b) { snprintf(t, 4, "%02x", x); o += t; } m.out += o + "\n"; }
static void op(M &m, int k)
{
    OS &o = m.os; const R none{ 0, 0 }, msg{ 2, 0 }; auto I = [](long long v) { return R{ 1, v }; };
    auto sock = [&](R &x, int d, int ty, bool re) { int f = o.socket(d, ty, 0); if (f < 0) { x = none; m.e = msg; return; } if (re && o.setreuse(f, true) < 0) { o.close(f); x = none; m.e = msg; return; } x = I(f); m.e = none; };
    auto need = [&](const R &x) { if (x.k != 1) { m.dead = true; return false; } return true; }; auto st = [&](int r) { m.e = none; m.r = r < 0 ? msg : none; };
    auto bnd = [&](const R &x, bool fam, int port, bool good, uint32_t a) { if (!need(x)) return; if (!fam || port < 0 || port > 65535 || !good) { st(-1); return; } st(o.bind(x.i, a, port)); };
    auto acc = [&](const R &x) { if (!need(x)) return; int f = o.accept(x.i); if (f < 0) { m.c = none; m.r = msg; m.e = none; return; } m.c = I(f); m.r = I(o.fd[f].addr); m.e = I(o.fd[f].port); };
    auto rcv = [&](const R &x, bool sl, long long n) { if (!need(x)) return; if (n == -1) { m.r = none; m.e = msg; return; } size_t off = sl ? 2 : 0, len = sl ? 4 : 8; if (n == -2) n = len; char t[16]; long got = o.recv(x.i, t, std::min<size_t>(n, len)); if (got < 0) { m.r = none; m.e = msg; return; } memcpy(&m.b[off], t, got); m.r = I(got); m.e = none; };
    auto snd = [&](const R &x, bool sl, long long n) { if (!need(x)) return; if (n < 0 && n != -2) { m.r = none; m.e = msg; return; } size_t off = sl ? 2 : 0, len = sl ? 4 : 8; if (n == -2) n = len; long got = o.send(x.i, m.b.data() + off, std::min<size_t>(n, len), true); if (got < 0) { m.r = none; m.e = msg; return; } m.r = I(got); m.e = none; };
    auto cl = [&](const R &x) { if (!need(x)) return; m.r = I(o.close(x.i)); m.e = none; };
    switch (k) {
    case 0: sock(m.s, AF_INET, SOCK_STREAM, true); break; case 1: sock(m.s, AF_INET, SOCK_STREAM, false); break; case 2: sock(m.t, AF_INET, SOCK_DGRAM, false); break; case 3: sock(m.t, 77, SOCK_STREAM, false); break; case 4: sock(m.t, INT_MAX, SOCK_STREAM, false); break;
    case 5: bnd(m.s, true, 80, true, htonl(0x7f000001)); break; case 6: bnd(m.s, true, 80, true, 0); break; case 7: bnd(m.t, true, 80, true, 0); break; case 8: bnd(m.s, true, 65616, true, 0); break; case 9: bnd(m.s, false, 80, true, 0); break; case 10: bnd(m.s, true, 81, false, 0); break; case 27: bnd(m.s, true, -1, true, 0); break;
    case 11: if (need(m.s)) st(o.listen(m.s.i, 5)); break; case 12: if (need(m.t)) st(o.listen(m.t.i, INT_MAX)); break; case 13: acc(m.s); break; case 14: acc(m.t); break;
    case 15: rcv(m.c, false, -2); break; case 16: rcv(m.c, true, 2); break; case 17: rcv(m.c, false, 100); break; case 18: rcv(m.c, false, -1); break; case 19: rcv(m.c, true, 0); break; case 28: rcv(I(INT_MAX), false, -2); break;
    case 20: snd(m.c, false, -2); break; case 21: snd(m.c, true, 2); break; case 22: snd(m.c, false, -5); break; case 23: snd(m.c, false, 100); break;
    case 24: cl(m.c); break; case 25: cl(m.s); break; case 26: m.r = I(o.close(INT_MAX)); m.e = none; break;
    }
}
static void one(const vector<int> &q, mc::Ctx &c, int failat = -1, int err = 0, size_t chunk = 1000, bool gone = false, bool gc = false)
{
    if (c.failed) return; M m; OS os; for (OS *o : { &m.os, &os }) { o->failat = failat; o->failerr = err; o->chunk = chunk; o->goneall = gone; }
    string s = "s = -7; t = -7; c = -7; r = none; e = none; b = buffer.new(8); d = buffer.sliceUp(b, 2, 4); fun w(x) { if istypeof(String, x): return 'M'; return x; } ";
    for (int k : q) s += string(OPS[k]) + " emit(w(s), w(t), w(c), w(r), w(e), b); "; for (int k : q) { if (m.dead) break; op(m, k); if (!m.dead) emitm(m); }
    c.note(show(s.substr(s.find("} ") + 2)) + (failat >= 0 ? " (call " + std::to_string(failat) + " fails)" : "")); nj_cfg g; memset(&g, 0, sizeof g); g.builtins = NJ_B_FULL; if (gc) g.step = step_collect; g_odd = false; g_os = &os; Impl r = impl_run(s, nullptr, 0, 0, false, &g); g_os = nullptr;
    string out = r.out; for (size_t p = 0; (p = out.find("\"M\"", p)) != string::npos;) out.replace(p, 3, "M");
    c.trace(); c.transitions(r.steps); c.state(mc::hash(m.out, m.dead)); if (r.ok == m.dead) { c.fail(string(r.ok ? "succeeds" : "fails: " + r.msg) + "\n" + out); return; } if (out != m.out) { c.fail("output\n" + out + "--- expected\n" + m.out); return; }
    if (os.killed) { c.fail("the process is killed by SIGPIPE"); return; } if (g_odd) { c.fail("malformed address"); return; }
    bool same = os.fd.size() == m.os.fd.size() && os.closed == m.os.closed; for (auto &x : m.os.fd) { auto it = os.fd.find(x.first); if (it == os.fd.end() || !(it->second == x.second)) same = false; } if (!same) c.fail("the sockets end up in another state (" + std::to_string(os.fd.size()) + " open, " + std::to_string(m.os.fd.size()) + " expected; closed " + os.closed + ", expected " + m.os.closed + ")");
}
int main(int argc, char **argv)
{
    mc::init(argc, argv, "P32"); nj_warm(); bool T = mc::thorough(); int D = 3;
    mc::RULE = "every sequence of network operations against a simulated operating system, every failing system call, every split of the transfers; then real connections over the loopback interface; state = distinct history of results";
    static const vector<vector<int>> PRE = { {}, { 0, 5, 11 }, { 1, 6, 11, 13 }, { 0, 5, 11, 13, 15 } };
    mc::run("operation sequences", 4 * nseq(NOPS, 1, D), [&](uint64_t i, mc::Ctx &c) { Dig d(i); auto q = PRE[d(4)]; for (int k : seq_at(d.v, NOPS, 1, D)) q.push_back(k); one(q, c, -1, 0, 1000, false, i % 11 == 0); });
    if (T) mc::run("longer operation sequences on a connection", ipow(NOPS, 4), [&](uint64_t i, mc::Ctx &c) { auto q = PRE[3]; Dig d(i); for (int k = 0; k < 4; k++) q.push_back(d(NOPS)); one(q, c, -1, 0, 1000, false, i % 11 == 0); });
    static const int E[] = { EACCES, EMFILE, EINTR, EPIPE, ECONNRESET, ENOBUFS, EAGAIN };
    mc::run("failing calls", 4 * nseq(NOPS, 0, T ? 2 : 1) * 9 * 7, [&](uint64_t i, mc::Ctx &c) { Dig d(i); auto q = PRE[d(4)]; int at = d(9), e = E[d(7)]; for (int k : seq_at(d.v, NOPS, 0, T ? 2 : 1)) q.push_back(k); q.push_back(20); q.push_back(25); one(q, c, at, e); });
    static const int X[] = { 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 13 }; int LX = T ? 5 : 3;
    mc::run("transfers in pieces", nseq(11, 1, LX) * 4 * 2, [&](uint64_t i, mc::Ctx &c) { Dig d(i); static const size_t CH[] = { 1, 2, 3, 5 }; size_t ch = CH[d(4)]; bool gone = d(2); vector<int> q = { 0, 5, 11, 13 }; for (int k : seq_at(d.v, 11, 1, LX)) q.push_back(X[k]); one(q, c, -1, 0, ch, gone); });
    static const char *AD[] = { "'127.0.0.1'", "'0.0.0.0'", "'255.255.255.255'", "'1.2.3.4'", "''", "'1.2.3'", "'256.1.1.1'", "'1.2.3.4 '", "'::1'", "'localhost'", "'1.2.3.04x'", "none" }; static const long AV[] = { 0x7f000001, 0, 0xffffffff, 0x01020304, -1, -1, -1, -1, -1, -1, -1, 0 };
    static const char *PT[] = { "0", "1", "80", "255", "256", "32768", "65535", "65536", "-1", "65616", "4294967376", "-9223372036854775807", "9223372036854775807" }; static const int PV[] = { 0, 1, 80, 255, 256, 32768, 65535, -1, -1, -1, -1, -1, -1 };
    mc::run("addresses and ports", 12 * 13, [&](uint64_t i, mc::Ctx &c) { Dig d(i); int a = d(12), p = d(13); bool good = AV[a] >= 0 && PV[p] >= 0; string s = string("s = net.socket(net.AF_INET, net.SOCK_STREAM, 0); r = net.bind(s, net.AF_INET, ") + PT[p] + ", " + AD[a] + "); emit(r == none, istypeof(String, r));"; c.note(s); OS os; nj_cfg g; memset(&g, 0, sizeof g); g.builtins = NJ_B_FULL; g_os = &os; Impl r = impl_run(s, nullptr, 0, 0, false, &g); g_os = nullptr; c.trace(); c.transitions(r.steps); c.state(i); string w = good ? "@ T F\n" : "@ F T\n"; Sock &k = os.fd[3]; if (!r.ok || r.out != w) c.fail(r.msg + r.out); else if (k.bound != good) c.fail("bound: " + std::to_string(k.bound)); else if (good && (k.port != PV[p] || k.addr != htonl((uint32_t)AV[a]))) c.fail("bound to " + std::to_string(ntohl(k.addr)) + ":" + std::to_string(k.port)); });
    static const char *FN[] = { "socket", "bind", "listen", "accept", "recv", "send", "close" }; static const char *GOODA[] = { "net.AF_INET, net.SOCK_STREAM, 0, true", "3, net.AF_INET, 80, '1.2.3.4'", "3, 5", "3", "3, b, 2", "3, b, 2", "3" };
    static const char *KINDS[] = { "0", "none", "true", "1.5", "'s'", "[]", "b", "{}", "print" }; static const char *SIG[] = { "iii?b", "iii?s", "ii", "i", "iB?i", "iB?i", "i" };
    mc::run("arguments of every kind", 7 * nseq(9, 0, 4), [&](uint64_t i, mc::Ctx &c) { Dig d(i); int f = d(7); auto q = seq_at(d.v, 9, 0, 4); string sg = SIG[f]; vector<string> want; for (size_t k = 0; k < sg.size(); k++) if (sg[k] == '?') { want.push_back(string("?") + sg[k + 1]); k++; } else want.push_back(string(1, sg[k])); string a; size_t n = want.size(); vector<string> args; { string cur; for (const char *p = GOODA[f]; *p; p++) { if (*p == ',') { args.push_back(cur); cur.clear(); p++; continue; } cur += *p; } args.push_back(cur); }
        static const string TY[] = { "i", "n", "b", "f", "s", "l", "B", "m", "x" }; bool ok = true; for (size_t k = 0; k < n; k++) { string t; if (k < q.size()) { args[k] = KINDS[q[k]]; t = TY[q[k]]; ok = ok && (want[k].back() == t[0] || (want[k][0] == '?' && t == "n")); } } for (size_t k = 0; k < args.size(); k++) a += (k ? ", " : "") + args[k];
        string s = string("b = buffer.new(4); net.") + FN[f] + "(" + a + "); emit(1);"; c.note(s); OS os; nj_cfg g; memset(&g, 0, sizeof g); g.builtins = NJ_B_FULL; g_os = &os; Impl r = impl_run(s, nullptr, 0, 0, false, &g); g_os = nullptr; c.trace(); c.transitions(r.steps); c.state(mc::hash(s)); if (r.ok != ok) c.fail((ok ? "fails: " : "succeeds") + r.msg); else if (!ok && os.ncalls) c.fail("refused after a system call"); });
    // sockets that can't be handed to the program are closed
    mc::run("out of memory", 200 * 2, [&](uint64_t i, mc::Ctx &c) { Dig d(i); bool acc = d(2); int fill = d.v; string s = string("s = net.socket(net.AF_INET, net.SOCK_STREAM, 0, true); net.bind(s, net.AF_INET, 80); net.listen(s, 1); a = []; i = 0; while i < ") + std::to_string(fill) + ": { a = [a]; i = i + 1; } while true: { a = [a]; " + (acc ? "x = net.accept(s);" : "x = net.socket(net.AF_INET, net.SOCK_STREAM, 0);") + " emit(x); }"; c.note(s); OS os; os.npending = 1 << 30; nj_cfg g; memset(&g, 0, sizeof g); g.builtins = NJ_B_FULL; g.heap = 60000 + fill % 50 * 16; g_os = &os; Impl r = impl_run(s, nullptr, 0, 0, false, &g); g_os = nullptr; c.trace(); c.transitions(r.steps); c.state(mc::hash(r.out)); long given = std::count(r.out.begin(), r.out.end(), '@'); long open = os.fd.size(); if (r.ok) c.fail("succeeds"); else if (open < given + 1 || open > given + 2) c.fail(std::to_string(open) + " sockets open, " + std::to_string(given + 1) + " given"); });
    // transfers of any size: exactly the bytes asked for go through, in both directions
    static const long SZ[] = { 0, 1, 127, 128, 255, 256, 257, 1023, 1024, 4095, 4096, 4097, 32767, 32768, 65535, 65536, 65537, 131072, 200000 };
    mc::run("sizes of transfers", 19 * 21 * 2 * 3, [&](uint64_t i, mc::Ctx &c) {
        Dig d(i); long n = SZ[d(19)]; int q = d(21); long cnt = q == 19 ? -1 : q == 20 ? 1l << 40 : SZ[q]; bool sl = d(2); int k = d(3); string pay; for (long j = 0; j < n; j++) pay += 'a' + (j * 7 + j / 26) % 26; OS os; os.chunk = 1 << 30; Sock x{ SOCK_STREAM }; x.conn = true; x.port = 9; x.in = pay; os.fd[3] = x; long m = cnt < 0 ? n : std::min(n, cnt);
        string B = sl ? "p = buffer.new(" + std::to_string(n + 6) + "); b = buffer.sliceUp(p, 3, " + std::to_string(n) + "); " : "b = buffer.new(" + std::to_string(n) + "); ", C = cnt < 0 ? "" : ", " + std::to_string(cnt);
        string s = B + (k == 0 ? "r = net.recv(3, b" + C + "); emit(r); emit(net.send(3, b, r)); " : k == 1 ? "net.recv(3, b); r = net.send(3, b" + C + "); emit(r); " : "net.recv(3, b); r = 0; while r < 3: { r = r + 1; emit(net.send(3, b" + C + ")); } "); c.note(s + " <- " + std::to_string(n) + " bytes");
        nj_cfg g; memset(&g, 0, sizeof g); g.builtins = NJ_B_FULL; g.heap = 1 << 20; g_os = &os; Impl r = impl_run(s, nullptr, 0, 0, false, &g); g_os = nullptr; c.trace(); c.transitions(r.steps); c.state(mc::hash(s, n)); string M = std::to_string(m), w = k == 0 ? "@ " + M + "\n@ " + M + "\n" : k == 1 ? "@ " + M + "\n" : "@ " + M + "\n@ " + M + "\n@ " + M + "\n", sent = pay.substr(0, m); if (k == 2) sent += sent + sent;
        if (!r.ok) c.fail("fails: " + r.msg); else if (r.out != w) c.fail("prints " + r.out); else if (os.fd[3].sent != sent) c.fail("sends " + std::to_string(os.fd[3].sent.size()) + " bytes, or others than it had received"); else if (os.fd[3].in != (k == 0 ? pay.substr(m) : "")) c.fail("receives other bytes than asked for"); });
    // the real thing, over the loopback interface
    mc::run("loopback connections", 8 * 5 * 3, [&](uint64_t i, mc::Ctx &c) {
        Dig d(i); static const int SZ[] = { 0, 1, 2, 7, 8, 9, 100, 20000 }; int n = SZ[d(8)], bl = (int[]){ 1, 3, 8, 64, 4096 }[d(5)], mode = d(3); string pay; for (int k = 0; k < n; k++) pay += (char)(k * 131 + k / 251); c.note(std::to_string(n) + " bytes through buffers of " + std::to_string(bl)); if (n > 5000 && bl < 64) return;
        int probe = socket(AF_INET, SOCK_STREAM, 0); sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(0x7f000001); socklen_t al = sizeof a; if (probe < 0 || bind(probe, (sockaddr *)&a, sizeof a) < 0 || getsockname(probe, (sockaddr *)&a, &al) < 0) { if (probe >= 0) close(probe); mc::count("no_loopback"); return; } int port = ntohs(a.sin_port);
        // the listening socket is made by the harness, which knows the port then; the program accepts on it
        if (listen(probe, 1) < 0) { close(probe); mc::count("no_loopback"); return; }
        int po[2]; if (pipe(po)) { close(probe); return; } pid_t pid = fork(); if (pid == 0) { close(po[0]); int k = socket(AF_INET, SOCK_STREAM, 0); string got; if (connect(k, (sockaddr *)&a, sizeof a) == 0) { sockaddr_in me; socklen_t ml = sizeof me; getsockname(k, (sockaddr *)&me, &ml); got = std::to_string(ntohs(me.sin_port)) + "|"; size_t o = 0; while (o < pay.size()) { ssize_t w = send(k, pay.data() + o, pay.size() - o, MSG_NOSIGNAL); if (w <= 0) break; o += w; if (mode == 2) { char t[4096]; ssize_t x; while ((x = recv(k, t, sizeof t, MSG_DONTWAIT)) > 0) got.append(t, x); } } shutdown(k, SHUT_WR); char t[65536]; ssize_t x; while ((x = recv(k, t, sizeof t, 0)) > 0) got.append(t, x); } size_t o = 0; while (o < got.size()) { ssize_t w = write(po[1], got.data() + o, got.size() - o); if (w <= 0) break; o += w; } _exit(0); }
        close(po[1]); string s = "s = " + std::to_string(probe) + "; b = buffer.new(" + std::to_string(bl) + "); c, a, p = net.accept(s); emit(a, p); while true: { n, e = net.recv(c, b); if n == none or n == 0: break; m = 0; while m < n: { k = net.send(c, buffer.sliceUp(b, m, n - m)); if k == none: error('send'); m = m + k; } } emit(n); emit(net.close(c)); emit(net.close(c) < 0);";
        nj_cfg g; memset(&g, 0, sizeof g); g.builtins = NJ_B_FULL; if (mode == 1) g.heap = 30000; Impl r = impl_run(s, nullptr, 0, 0, false, &g); string got; char t[65536]; struct pollfd pf = { po[0], POLLIN, 0 }; for (;;) { if (poll(&pf, 1, 10000) <= 0) { kill(pid, 9); c.fail("the connection isn't closed"); break; } ssize_t x = read(po[0], t, sizeof t); if (x <= 0) break; got.append(t, x); } int st; waitpid(pid, &st, 0); close(po[0]); close(probe); c.trace(); c.transitions(r.steps); c.state(mc::hash(pay, bl)); if (c.failed) return; size_t bar = got.find('|'); if (bar == string::npos) { mc::count("no_loopback"); return; } string w = "@ 16777343 " + got.substr(0, bar) + "\n@ 0\n@ 0\n@ T\n"; (void)port;
        if (!r.ok) c.fail("fails: " + r.msg); else if (r.out != w) c.fail("prints " + r.out + "instead of " + w); else if (got.substr(bar + 1) != pay) c.fail("echoes " + std::to_string(got.size() - bar - 1) + " bytes of " + std::to_string(pay.size())); });
    mc::sample("s, e = net.socket(AF_INET, SOCK_STREAM, 0, true); net.bind(s, AF_INET, 80, '127.0.0.1'); net.listen(s, 5); c, a, p = net.accept(s); net.recv(c, d, 2); with the 4th system call failing with EINTR");
    return mc::finish();
}
