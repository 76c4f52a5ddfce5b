// Bounded exhaustive exploration engine.
//
// A check is a list of sections; a section is a finite, indexed family of
// cases (case i is a pure function of i).  Every case of every section is
// executed in a pool of forked workers; a case that crashes, trips a sanitizer,
// hangs or calls fail() is re-run alone in a fresh process before it is
// reported, and is written to a replay file.
#ifndef MC_HPP
#define MC_HPP
#include <atomic>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <map>
#include <set>
#include <signal.h>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <vector>

extern "C" { void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak)); }

namespace mc {

typedef uint64_t u64;
static const int MAXW = 16, NOTE = 4096, FAILS = 48, TEXT = 6000;
static const u64 HSET = 1u << 25;

static inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static inline u64 hash(const void *p, size_t n, u64 h = 1469598103934665603ull)
{ const unsigned char *s = (const unsigned char *)p; for (size_t i = 0; i < n; i++) { h ^= s[i]; h *= 1099511628211ull; } h ^= h >> 29; h *= 0xbf58476d1ce4e5b9ull; h ^= h >> 32; return h; }
static inline u64 hash(const std::string &s, u64 h = 1469598103934665603ull) { return hash(s.data(), s.size(), h); }

struct FailRec { u64 idx; char key[512]; char msg[TEXT]; char note[NOTE]; };
struct Worker { std::atomic<u64> cur, lo, hi; std::atomic<double> since; std::atomic<int> busy; char note[NOTE]; };
struct Shared {
    std::atomic<u64> next, evals, transitions, traces, states, nfails, skipped;
    std::atomic<int> stop;
    Worker w[MAXW];
    FailRec fails[FAILS];
    std::atomic<u64> hset[HSET];
    std::atomic<u64> counters[64];
};
static Shared *sh;
static std::map<std::string, int> counter_ids;

struct Ctx {
    int w = 0; u64 idx = 0; bool verbose = false; bool failed = false;
    void note(const std::string &s) { size_t n = s.size() < NOTE - 1 ? s.size() : NOTE - 1; memcpy(sh->w[w].note, s.data(), n); sh->w[w].note[n] = 0; }
    std::string noted() const { return sh->w[w].note; }
    // a distinct reachable state / outcome
    bool state(u64 h) {
        if (h == 0) h = 1;
        u64 i = h & (HSET - 1);
        for (int k = 0; k < 64; k++, i = (i + 1) & (HSET - 1)) {
            u64 v = sh->hset[i].load(std::memory_order_relaxed);
            if (v == h) return false;
            if (v == 0) { u64 z = 0; if (sh->hset[i].compare_exchange_strong(z, h)) { sh->states++; return true; } if (z == h) return false; }
        }
        return false;   // table region full: undercount
    }
    bool state(const std::string &s) { return state(hash(s)); }
    void transitions(u64 n) { sh->transitions += n; }
    void trace(u64 n = 1) { sh->traces += n; }
    void beat() { sh->w[w].since = now(); }
    void fail(const std::string &msg, std::string key = "") {
        if (failed) return; failed = true;
        if (key.empty()) key = noted();
        u64 k = sh->nfails++;
        if (k < FAILS) {
            FailRec &r = sh->fails[k]; r.idx = idx;
            snprintf(r.key, sizeof r.key, "%s", key.c_str()); snprintf(r.msg, sizeof r.msg, "%s", msg.c_str());
            memcpy(r.note, sh->w[w].note, NOTE);
        }
    }
    void failf(const char *fmt, ...) __attribute__((format(printf, 2, 3))) {
        char b[TEXT]; va_list v; va_start(v, fmt); vsnprintf(b, sizeof b, fmt, v); va_end(v); fail(b);
    }
};
static inline void count(const char *name, u64 n = 1) // must be declared by declare_counter before run()
{ auto it = counter_ids.find(name); if (it != counter_ids.end()) sh->counters[it->second] += n; }
static inline void declare_counter(const char *name) { int k = counter_ids.size(); counter_ids[name] = k; }

struct Section { std::string name; u64 n; std::function<void(u64, Ctx &)> f; double timeout = 20; };

struct Violation { std::string section; u64 lo, idx; std::string key, msg, note, replay; };

static std::string ID, TIER = "quick", LEVEL = "model_checking", VERIF = "/verif", RULE;
static int JOBS = 8, SEED = 1;
static bool g_enough = false;        // a hang was confirmed: the other sections are left out
static double T0, BUDGET = 0;       // BUDGET: soft wall limit, cut is reported
static std::vector<Violation> viols, knowns;
static std::vector<std::string> samples, assumptions;
static std::vector<std::string> known_keys;
struct SecStat { std::string name; u64 cases, done; double wall; bool complete; u64 states, transitions; };
static std::vector<SecStat> stats;
static std::string replay_section; static u64 replay_lo = 0, replay_idx = 0; static bool replaying = false;
static bool thorough() { return TIER == "thorough"; }

static inline std::string jesc(const std::string &s)
{
    std::string o; char t[8];
    for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c < 32 || c >= 127) { snprintf(t, 8, "\\u%04x", c); o += t; } else o += c; }
    return o;
}

static inline void init(int argc, char **argv, const char *id)
{
    T0 = now(); ID = id;
    if (argc > 1) TIER = argv[1];
    if (getenv("VERIF_DIR")) VERIF = getenv("VERIF_DIR");
    if (getenv("VERIF_SEED")) SEED = atoi(getenv("VERIF_SEED"));
    if (getenv("MC_JOBS")) JOBS = atoi(getenv("MC_JOBS"));
    if (TIER == "replay" && argc > 2) {
        FILE *f = fopen(argv[2], "r"); char b[4096];
        if (!f) { perror(argv[2]); exit(2); }
        while (fgets(b, sizeof b, f)) {
            b[strcspn(b, "\n")] = 0;
            if (!strncmp(b, "section: ", 9)) replay_section = b + 9;
            if (!strncmp(b, "case: ", 6)) replay_idx = strtoull(b + 6, 0, 10);
            if (!strncmp(b, "from: ", 6)) replay_lo = strtoull(b + 6, 0, 10);
            if (!strncmp(b, "tier: ", 6)) TIER = b + 6;
        }
        fclose(f); replaying = true;
    }
    sh = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    std::string kf = VERIF + "/known_findings.txt";
    if (FILE *f = fopen(kf.c_str(), "r")) {
        char b[4096]; std::string pre = "known: property=" + ID + " key=";
        while (fgets(b, sizeof b, f)) { b[strcspn(b, "\n")] = 0; if (!strncmp(b, pre.c_str(), pre.size())) known_keys.push_back(b + pre.size()); }
        fclose(f);
    }
}
static inline void sample(const std::string &s) { if (samples.size() < 24) samples.push_back(s); }

static std::string onekey(std::string k) { for (char &c : k) if (c == '\n') c = ' '; return k.substr(0, 500); }

// ---- child: runs the cases [lo,hi) then keeps stealing
static inline void child(const Section &s, int w, u64 lo, u64 hi, int errfd, bool steal, u64 chunk)
{
    dup2(errfd, 2); 
    struct rlimit rl = { 0, 0 }; setrlimit(RLIMIT_CORE, &rl);
    Ctx c; c.w = w; Worker &W = sh->w[w];
    for (;;) {
        W.hi = hi; 
        for (u64 i = lo; i < hi; i++) {
            W.cur = i; W.since = now(); W.note[0] = 0; W.busy = 1;
            c.idx = i; c.failed = false;
            s.f(i, c);
            W.busy = 0; sh->evals++;
            if (sh->stop) _exit(0);
        }
        if (!steal) break;
        lo = sh->next.fetch_add(chunk); if (lo >= s.n) break;
        hi = lo + chunk < s.n ? lo + chunk : s.n;
        W.lo = lo;
    }
    _exit(0);
}
static inline std::string slurp_fd(int fd, size_t cap)
{
    off_t n = lseek(fd, 0, SEEK_END); std::string s; if (n <= 0) return s;
    std::string all(n, 0); lseek(fd, 0, SEEK_SET); ssize_t k = read(fd, &all[0], n); all.resize(k > 0 ? k : 0);
    // keep the informative head (sanitizer header + first frames)
    size_t p = all.find("ERROR: "); if (p == std::string::npos) p = all.find("runtime error"); if (p == std::string::npos) p = 0;
    size_t b = p > 200 ? p - 200 : 0; return all.substr(b, cap);
}
struct Confirm { bool bad; std::string msg, note, key; };
// re-runs [lo..idx] alone
static inline Confirm confirm(const Section &s, u64 lo, u64 idx, double timeout)
{
    Confirm r = { false, "", "", "" };
    u64 nf = sh->nfails; sh->nfails = 0; 
    std::vector<FailRec> saved(sh->fails, sh->fails + (nf < FAILS ? nf : FAILS));
    int fd = memfd_create("err", 0); sh->stop = 0;
    u64 ev = sh->evals;
    pid_t p = fork(); if (p == 0) child(s, MAXW - 1, lo, idx + 1, fd, false, 1);
    double t = now(); int st = 0; bool hang = false;
    sh->w[MAXW - 1].since = t;
    while (waitpid(p, &st, WNOHANG) == 0) { if (now() - sh->w[MAXW - 1].since > timeout) { kill(p, SIGKILL); waitpid(p, &st, 0); hang = true; break; } usleep(1000); }
    sh->evals = ev;
    r.note = sh->w[MAXW - 1].note;
    if (hang) { r.bad = true; r.msg = "does not terminate (no answer within the time limit, twice)"; r.key = "hang " + r.note; }
    else if (WIFSIGNALED(st)) { r.bad = true; char b[64]; snprintf(b, 64, "crashed: signal %d", WTERMSIG(st)); r.msg = std::string(b) + "\n" + slurp_fd(fd, 3000); r.key = "crash " + r.note; }
    else if (WEXITSTATUS(st) != 0) { r.bad = true; char b[64]; snprintf(b, 64, "crashed: exit %d", WEXITSTATUS(st)); r.msg = std::string(b) + "\n" + slurp_fd(fd, 3000); r.key = "crash " + r.note; }
    else for (u64 k = 0; k < sh->nfails && k < FAILS; k++) if (sh->fails[k].idx == idx || lo != idx) { r.bad = true; r.msg = sh->fails[k].msg; r.key = sh->fails[k].key; r.note = sh->fails[k].note; break; }
    close(fd);
    sh->nfails = nf; for (size_t i = 0; i < saved.size(); i++) memcpy((void *)&sh->fails[i], &saved[i], sizeof(FailRec));
    return r;
}
static inline void record(const Section &s, u64 lo, u64 idx, const Confirm &c)
{
    Violation v; v.section = s.name; v.lo = lo; v.idx = idx; v.key = onekey(c.key); v.msg = c.msg; v.note = c.note;
    for (auto &k : known_keys) if (k == v.key) {
        for (auto &o : knowns) if (o.key == v.key) return;
        knowns.push_back(v); printf("KNOWN-FINDING: property=%s %s\n", ID.c_str(), v.key.c_str()); fflush(stdout); return;
    }
    char path[512]; std::string dir = VERIF + "/replays"; mkdir(dir.c_str(), 0755);
    snprintf(path, sizeof path, "%s/%s-%zu.txt", dir.c_str(), ID.c_str(), viols.size());
    v.replay = path;
    if (FILE *f = fopen(path, "w")) {
        fprintf(f, "property: %s\ntier: %s\nsection: %s\nfrom: %llu\ncase: %llu\nrerun: python3 run.py %s replay %s\n\n== case ==\n%s\n\n== what failed ==\n%s\n\n== key ==\n%s\n",
            ID.c_str(), TIER.c_str(), s.name.c_str(), (unsigned long long)lo, (unsigned long long)idx, ID.c_str(), path, v.note.c_str(), v.msg.c_str(), v.key.c_str());
        fclose(f);
    }
    viols.push_back(v);
    printf("VIOLATION property=%s replay=%s\n", ID.c_str(), path);
    printf("  section %s case %llu: %s\n  %s\n", s.name.c_str(), (unsigned long long)idx, onekey(v.note).c_str(), onekey(v.msg).c_str());
    fflush(stdout);
}

static inline void run(const Section &s)
{
    if (s.n == 0) return;
    if (replaying) {
        if (s.name != replay_section) return;
        Confirm c = confirm(s, replay_lo, replay_idx, s.timeout * 4);
        printf("replay %s[%llu]: %s\n%s\n%s\n", s.name.c_str(), (unsigned long long)replay_idx, c.bad ? "FAILS" : "passes", c.note.c_str(), c.msg.c_str());
        if (c.bad) record(s, replay_lo, replay_idx, c);
        return;
    }
    double t0 = now();
    if (g_enough || viols.size() >= 5) { stats.push_back({ s.name, s.n, 0, 0, false, 0, 0 }); return; }   // enough counterexamples
    u64 st0 = sh->states, tr0 = sh->transitions, ev0 = sh->evals;
    u64 chunk = s.n / (JOBS * 64); if (chunk < 1) chunk = 1; if (chunk > 256) chunk = 256;
    sh->next = 0; sh->stop = 0; sh->nfails = 0;
    pid_t pid[MAXW] = { 0 }; int fd[MAXW];
    int jobs = JOBS; if ((u64)jobs > s.n) jobs = s.n;
    std::vector<std::pair<u64, u64>> suspects;  // (lo, idx)
    auto spawn = [&](int w, u64 lo, u64 hi) {
        sh->w[w].lo = lo; sh->w[w].hi = hi; sh->w[w].busy = 0; sh->w[w].since = now();
        fd[w] = memfd_create("err", 0);
        fflush(stdout);
        pid_t p = fork(); if (p == 0) child(s, w, lo, hi, fd[w], true, chunk); pid[w] = p;
    };
    int live = 0; bool cut = false;
    for (int w = 0; w < jobs; w++) spawn(w, 0, 0), live++;
    u64 died = 0;
    while (live > 0) {
        usleep(2000);
        if (BUDGET > 0 && now() - T0 > BUDGET && !sh->stop) { sh->stop = 1; cut = true; }
        if ((sh->nfails >= 8 || died >= 8) && !sh->stop) { sh->stop = 1; cut = true; }
        for (int w = 0; w < jobs; w++) if (pid[w] > 0) {
            int st; pid_t r = waitpid(pid[w], &st, WNOHANG);
            bool dead = false, bad = false;
            if (r == pid[w]) { dead = true; bad = WIFSIGNALED(st) || WEXITSTATUS(st) != 0; }
            else if (sh->w[w].busy && now() - sh->w[w].since > s.timeout) { kill(pid[w], SIGKILL); waitpid(pid[w], &st, 0); dead = bad = true; }
            if (!dead) continue;
            close(fd[w]); pid[w] = 0; live--;
            if (bad) {
                died++;
                suspects.push_back({ sh->w[w].lo, sh->w[w].cur });
                if (!sh->stop) { u64 c = sh->w[w].cur, hi = sh->w[w].hi; spawn(w, c + 1, hi); live++; }
            }
        }
    }
    for (u64 k = 0; k < sh->nfails && k < FAILS; k++) { u64 i = sh->fails[k].idx; suspects.push_back({ i / chunk * chunk, i }); }
    u64 done = sh->evals - ev0;
    std::set<u64> seen; int shown = 0;
    for (auto &p : suspects) {
        if (!seen.insert(p.second).second || shown >= 3) continue;
        Confirm c = confirm(s, p.second, p.second, s.timeout * 2);
        u64 lo = p.second;
        if (!c.bad && p.first < p.second) { c = confirm(s, p.first, p.second, s.timeout * 2); lo = p.first; }
        if (!c.bad) { printf("NOTE: %s[%llu] did not reproduce alone; not reported\n", s.name.c_str(), (unsigned long long)p.second); continue; }
        size_t before = viols.size(); record(s, lo, p.second, c); if (viols.size() > before) shown++;
        if (!c.key.compare(0, 5, "hang ")) { g_enough = true; break; }
    }
    stats.push_back({ s.name, s.n, done, now() - t0, !cut, sh->states - st0, sh->transitions - tr0 });
    printf("  [%s] %s: %llu/%llu cases, %llu new states, %llu transitions, %.1fs%s\n", ID.c_str(), s.name.c_str(), (unsigned long long)done, (unsigned long long)s.n,
        (unsigned long long)(sh->states - st0), (unsigned long long)(sh->transitions - tr0), now() - t0, cut ? " (cut)" : "");
    fflush(stdout);
}
static inline void run(const std::string &name, u64 n, std::function<void(u64, Ctx &)> f, double timeout = 20) { Section s; s.name = name; s.n = n; s.f = f; s.timeout = timeout; run(s); }

static inline int finish()
{
    if (replaying) return viols.empty() ? 0 : 1;
    std::string path = VERIF + "/evidence/" + ID + ".json"; mkdir((VERIF + "/evidence").c_str(), 0755);
    bool complete = true; for (auto &s : stats) complete = complete && s.complete;
    if (FILE *f = fopen(path.c_str(), "w")) {
        fprintf(f, "{\n \"property\": \"%s\", \"tier\": \"%s\", \"seed\": %d, \"level\": \"%s\",\n \"coverage\": {\n", ID.c_str(), TIER.c_str(), SEED, LEVEL.c_str());
        unsigned long long ev = sh->evals, st = sh->states, tr = sh->transitions, tv = sh->traces;
        if (LEVEL == "model_checking") fprintf(f, "  \"states\": %llu, \"transitions\": %llu, \"traces_validated_against_impl\": %llu, \"executions\": %llu,\n", st, tr, tv, ev);
        else fprintf(f, "  \"evaluations\": %llu, \"distinct_nontrivial\": %llu, \"steps\": %llu,\n", ev, st, tr);
        fprintf(f, "  \"rule\": \"%s\",\n  \"exhaustive\": %s,\n", jesc(RULE).c_str(), complete ? "true" : "false");
        for (auto &kv : counter_ids) fprintf(f, "  \"%s\": %llu,\n", kv.first.c_str(), (unsigned long long)sh->counters[kv.second].load());
        fprintf(f, "  \"sections\": [");
        for (size_t i = 0; i < stats.size(); i++) fprintf(f, "%s\n   {\"name\": \"%s\", \"cases\": %llu, \"executed\": %llu, \"complete\": %s, \"new_states\": %llu, \"transitions\": %llu, \"wall_s\": %.2f}", i ? "," : "", jesc(stats[i].name).c_str(),
            (unsigned long long)stats[i].cases, (unsigned long long)stats[i].done, stats[i].complete ? "true" : "false", (unsigned long long)stats[i].states, (unsigned long long)stats[i].transitions, stats[i].wall);
        fprintf(f, "],\n  \"samples\": [");
        for (size_t i = 0; i < samples.size(); i++) fprintf(f, "%s\"%s\"", i ? ",\n   " : "", jesc(samples[i]).c_str());
        fprintf(f, "],\n  \"known_findings\": %zu\n },\n \"assumptions\": [", knowns.size());
        for (size_t i = 0; i < assumptions.size(); i++) fprintf(f, "%s\"%s\"", i ? ", " : "", jesc(assumptions[i]).c_str());
        fprintf(f, "],\n \"violations\": %zu,\n \"wall_s\": %.2f\n}\n", viols.size(), now() - T0);
        fclose(f);
    }
    printf("%s %s: %s, %llu executions, %llu states, %.1fs\n", ID.c_str(), TIER.c_str(), viols.empty() ? "held" : "VIOLATED", (unsigned long long)sh->evals.load(), (unsigned long long)sh->states.load(), now() - T0);
    return viols.empty() ? 0 : 1;
}
} // namespace mc
#endif
