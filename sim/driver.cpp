// Search / replay / minimise driver. One forked child per simulated run.
#include "scen.h"
#include <algorithm>
#include <chrono>
#include <cinttypes>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <errno.h>
#include <cstddef>
#include <fcntl.h>
#include <map>
#include <sched.h>
#include <set>
#include <signal.h>
#include <string>
#include <sys/mman.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <vector>
using namespace simrt;

static Scenario g_scen[128]; static int g_nscen;
void add_scenario(const Scenario &s) { if (g_nscen < 128) g_scen[g_nscen++] = s; }
static const char *g_prop = "";
const char *current_prop() { return g_prop; }

static RunConfig *C; static RunResult *R;
static volatile sig_atomic_t g_stop;
static void on_term(int) { g_stop = 1; }
static double mono() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double)t.tv_sec + 1e-9 * (double)t.tv_nsec; }
static uint64_t mix(uint64_t z) { z += 0x9e3779b97f4a7c15ull; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
static uint64_t hstr(const char *s) { uint64_t h = 1469598103934665603ull; while (*s) h = (h ^ (unsigned char)*s++) * 1099511628211ull; return h; }

static void reset_result() { memset(R, 0, offsetof(RunResult, trace)); }
static int g_status;   // how the last child ended
// returns false when the child vanished without a verdict
static bool run_once(const Scenario &s) {
    reset_result();
    C->race_detect = s.race; C->step_cap = s.step_cap;
    pid_t p = fork();
    if (p < 0) { g_status = -errno; fprintf(stderr, "sim: fork failed\n"); return false; }
    if (p == 0) { int n = open("/dev/null", O_RDWR); if (n >= 0 && !getenv("SIM_SHOW")) { dup2(n, 1); dup2(n, 2); dup2(n, 0); } alarm(100); rt_child_run(C, R, s.fn); }
    int st = 0;
    while (waitpid(p, &st, 0) != p) if (errno != EINTR) return false;
    g_status = st;
    return R->finished;
}
static bool cpu_hang() { return R->violated && !strcmp(R->kind, "hang") && strstr(R->detail, "processor time"); }

// the kernel frees the threads of finished runs late: let it catch up when memory runs low
static void breathe() {
    for (int i = 0; i < 100 && !g_stop; ++i) {
        FILE *f = fopen("/proc/meminfo", "r"); if (!f) return;
        char b[128]; long kb = -1, tot = -1; while (fgets(b, sizeof b, f)) { sscanf(b, "MemTotal: %ld", &tot); if (sscanf(b, "MemAvailable: %ld", &kb) == 1) break; }
        fclose(f);
        if (kb < 0 || kb > tot / 2) return;
        struct timespec t = {0, 50000000}; nanosleep(&t, nullptr);
    }
}

struct Verdict { std::string kind, detail; uint64_t hash, steps; bool cpu; };
static Verdict verdict() { return Verdict{R->violated ? R->kind : "", R->detail, R->hash, R->steps, cpu_hang()}; }
// what a minimised run must still show: the violation class
static bool same_kind(const Verdict &v) { return R->finished && R->violated && v.kind == R->kind; }

static int usage() { fprintf(stderr, "usage: sim search|replay|list ...\n"); return 3; }
static const Scenario *find(const std::string &prop, const std::string &name) {
    for (int i = 0; i < g_nscen; ++i) if (g_scen[i].prop == prop && g_scen[i].name == name) return &g_scen[i];
    return nullptr;
}
static std::string jesc(const std::string &s) {
    std::string o; char b[8];
    for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += (char)c; } else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += (char)c; }
    return o;
}
static void save_trace_from_result(std::vector<TraceEntry> &t, std::vector<uint32_t> &c) {
    t.assign(R->trace, R->trace + R->ntrace); c.assign(R->choices, R->choices + R->nchoices);
}
static void load(const std::vector<TraceEntry> *t, const std::vector<uint32_t> *c, uint64_t seed, uint64_t sched) {
    C->seed = seed; C->seed_sched = sched; C->replay = t != nullptr; C->fixed_choices = c != nullptr; C->ntrace = 0; C->nchoices = 0;
    if (t) { C->ntrace = (uint32_t)t->size(); if (!t->empty()) memcpy(C->trace, t->data(), t->size() * sizeof(TraceEntry)); }
    if (c) { C->nchoices = (uint32_t)c->size(); if (!c->empty()) memcpy(C->choices, c->data(), c->size() * 4); }
}
static std::string oneline(std::string s) { for (char &c : s) if (c == '\n' || c == '\r') c = ' '; return s; }
static const char *kname[] = {"", "switch", "wake", "spurious", "timeout", "allocfail", "threadfail"};

static void write_replay(const std::string &path, const Scenario &s, const std::string &flavour, uint64_t seed, const std::vector<TraceEntry> &t, const std::vector<uint32_t> &c, const char *note) {
    FILE *f = fopen(path.c_str(), "w"); if (!f) { perror(path.c_str()); return; }
    const char *np = getenv("SIM_NPROCS0");
    fprintf(f, "# replay file of the deterministic simulator (%s)\n# workload: %s\n", note, oneline(R->sample).c_str());
    fprintf(f, "property %s\nscenario %s\nflavour %s\nnprocs0 %s\nseed %" PRIu64 "\nkind %s\nhash %016" PRIx64 "\nsteps %" PRIu64 "\ncpuhang %d\ndetail %s\n", s.prop, s.name, flavour.c_str(), np ? np : "4", seed, R->kind, R->hash, R->steps, (int)cpu_hang(), oneline(R->detail).c_str());
    fprintf(f, "stack %u", R->nstack); for (uint32_t i = 0; i < R->nstack; ++i) fprintf(f, " %" PRIx64, R->stack[i]);
    fprintf(f, "\nother %u", R->nstack2); for (uint32_t i = 0; i < R->nstack2; ++i) fprintf(f, " %" PRIx64, R->stack2[i]);
    fprintf(f, "\nchoices %zu", c.size()); for (uint32_t x : c) fprintf(f, " %u", x);
    fprintf(f, "\ntrace %zu\n", t.size());
    for (auto &e : t) fprintf(f, "%" PRIu64 " %s %u\n", e.step, kname[e.kind < 7 ? e.kind : 0], e.val);
    fclose(f);
}

// ---- minimisation
static bool minimise(const Scenario &s, uint64_t seed, const Verdict &v0, std::vector<TraceEntry> &t, std::vector<uint32_t> &c, double budget) {
    double end = mono() + budget, endw = mono() + budget * 0.6;
    auto research = [&](const std::vector<uint32_t> &cc, int tries, std::vector<TraceEntry> &to, std::vector<uint32_t> &co) {
        for (int k = 0; k < tries && mono() < endw; ++k) {
            load(nullptr, &cc, seed, mix(seed + 1000003u * (unsigned)(k + 1)));
            if (run_once(s) && same_kind(v0)) { save_trace_from_result(to, co); return true; }
        }
        return false;
    };
    bool progress = true;
    int tries = v0.kind == "hang" ? 12 : 30;
    std::set<std::vector<uint32_t>> tried;
    while (progress && mono() < endw) {
        progress = false;
        for (size_t i = 0; i < c.size() && mono() < endw; ++i) {
            uint32_t cand[3] = {0, c[i] / 2, c[i] ? c[i] - 1 : 0}; 
            for (uint32_t x : cand) {
                if (i >= c.size() || x >= c[i]) continue;
                std::vector<uint32_t> cc = c; cc[i] = x;
                if (!tried.insert(cc).second) continue;
                std::vector<TraceEntry> to; std::vector<uint32_t> co;
                if (research(cc, tries, to, co) && (co.size() < c.size() || (co.size() == c.size() && co <= c))) { t = to; c = co; progress = true; break; }
            }
        }
    }
    // ddmin over the schedule and fault decisions
    auto ok = [&](const std::vector<TraceEntry> &tt) { load(&tt, &c, seed, 0); return run_once(s) && same_kind(v0); };
    if (!ok(t)) return false;
    size_t n = 2;
    while (!t.empty() && mono() < end) {
        size_t len = (t.size() + n - 1) / n; bool red = false;
        for (size_t i = 0; i < t.size() && mono() < end; i += len) {
            std::vector<TraceEntry> tt(t.begin(), t.begin() + (long)i); tt.insert(tt.end(), t.begin() + (long)std::min(t.size(), i + len), t.end());
            if (ok(tt)) { t = tt; n = std::max<size_t>(n - 1, 2); red = true; break; }
        }
        if (!red) { if (len <= 1) break; n = std::min(t.size(), n * 2); }
    }
    return ok(t);
}

static int do_search(std::map<std::string, std::string> &o) {
    std::string prop = o["prop"], flavour = o["flavour"], out = o["out"];
    uint64_t base = strtoull(o["seed"].c_str(), nullptr, 10); double budget = atof(o["time"].c_str());
    uint64_t idx = strtoull(o["worker"].c_str(), nullptr, 10), nw = strtoull(o["workers"].c_str(), nullptr, 10);
    uint64_t maxruns = o.count("runs") ? strtoull(o["runs"].c_str(), nullptr, 10) : ~0ull;
    double minbudget = o.count("min") ? atof(o["min"].c_str()) : 40;
    uint64_t selfcheck = o.count("selfcheck") ? strtoull(o["selfcheck"].c_str(), nullptr, 10) : 64;
    std::vector<const Scenario *> sc; unsigned tot = 0;
    for (int i = 0; i < g_nscen; ++i) if (prop == g_scen[i].prop && (!o.count("scen") || o["scen"] == g_scen[i].name)) { sc.push_back(&g_scen[i]); tot += g_scen[i].weight; }
    if (sc.empty()) { fprintf(stderr, "sim: no scenario for %s\n", prop.c_str()); return 3; }
    std::vector<std::string> known;   // signatures "scenario|kind|substring of the detail"
    if (o.count("known")) { FILE *f = fopen(o["known"].c_str(), "r"); char b[2000]; if (f) { while (fgets(b, sizeof b, f)) { b[strcspn(b, "\n")] = 0; if (*b) known.push_back(b); } fclose(f); } }
    std::map<std::string, uint64_t> knownhit;
    double t0 = mono();
    uint64_t runs = 0, steps = 0, sw = 0, sy = 0, nondet = 0, checked = 0, incon = 0, lost = 0, simns = 0, nontriv = 0, faultfree = 0, faulted = 0, threads = 0, maxthreads = 0;
    uint64_t faults[FS_COUNT] = {}, probes[MAX_PROBES] = {}, strat[8] = {};
    std::map<std::string, uint64_t> perscen; std::set<uint64_t> inter, work; std::vector<std::string> samples; std::string note;
    int rc = 0; std::string vjson;
    signal(SIGTERM, on_term);
    for (uint64_t k = idx; runs < maxruns && mono() - t0 < budget && !g_stop; k += nw) {
        uint64_t seed = mix(mix(base ^ hstr(prop.c_str())) + k);
        unsigned w = (unsigned)(mix(seed) % tot); const Scenario *s = sc[0];
        for (auto *q : sc) { if (w < q->weight) { s = q; break; } w -= q->weight; }
        if (runs % 64 == 63) breathe();
        load(nullptr, nullptr, seed, 0);
        bool fin = run_once(*s);
        ++runs; ++perscen[s->name];
        if (!fin) { ++lost; note = "the run of seed " + std::to_string(seed) + " of " + s->name + " was lost, wait status " + std::to_string(g_status); continue; }
        steps += R->steps; sw += R->switches; sy += R->syncops; simns += R->simtime_ns - 1700000000ull * 1000000000ull; threads += R->threads; if (R->threads > maxthreads) maxthreads = R->threads;
        bool ff = false; for (int i = 0; i < FS_COUNT; ++i) { faults[i] += R->faults[i]; if (R->faults[i] && i != FS_PREEMPT && i != FS_WAKE_CHOICE && i != FS_FAIR) ff = true; }
        (ff ? faulted : faultfree)++;
        for (int i = 0; i < MAX_PROBES; ++i) probes[i] += R->probes[i];
        strat[R->strategy & 7]++;
        if (R->inconclusive) { ++incon; if (note.empty()) note = R->detail; continue; }
        bool nt = (R->threads > 1 && R->switches > 1) || ff || R->nchoices > 2;
        if (nt) { ++nontriv; if (inter.size() < 400000) inter.insert(mix(R->ihash) ^ R->whash ^ hstr(s->name)); }
        if (work.size() < 400000) work.insert(R->whash ^ hstr(s->name));
        if (samples.size() < 3 && (nt || samples.empty()) && R->sample[0] && runs % 7 == 1) samples.push_back(std::string(s->name) + ": seed " + std::to_string(seed) + ", " + std::to_string(R->threads) + " threads, " + std::to_string(R->switches) + " switches, " + std::to_string(R->steps) + " steps; " + R->sample);
        if (!R->violated && selfcheck && runs % selfcheck == 1) {
            Verdict a = verdict(); ++checked;
            load(nullptr, nullptr, seed, 0); bool f2 = run_once(*s);
            if (!f2 || R->violated || R->hash != a.hash || R->steps != a.steps) { ++nondet; if (note.empty()) note = "seed " + std::to_string(seed) + " of " + s->name + " did not repeat exactly"; }
        }
        if (!R->violated) continue;
        // ---- a violation
        Verdict v = verdict(); std::vector<TraceEntry> t; std::vector<uint32_t> c; save_trace_from_result(t, c);
        bool isknown = false;
        for (auto &sig : known) {
            size_t a = sig.find('|'), b = a == std::string::npos ? a : sig.find('|', a + 1); if (b == std::string::npos) continue;
            if ((sig.substr(0, a) == "*" || sig.substr(0, a) == s->name) && sig.substr(a + 1, b - a - 1) == v.kind && v.detail.find(sig.substr(b + 1)) != std::string::npos) { knownhit[sig]++; isknown = true; break; }
        }
        if (isknown) continue;
        load(nullptr, nullptr, seed, 0); bool f2 = run_once(*s);
        if (!f2 || !R->violated || v.kind != R->kind || (!v.cpu && R->hash != v.hash)) { ++nondet; note = "violation (" + v.kind + ": " + v.detail + ") of seed " + std::to_string(seed) + " did not repeat exactly"; continue; }
        fprintf(stderr, "worker %" PRIu64 ": %s in %s, seed %" PRIu64 ": %s\n", idx, v.kind.c_str(), s->name, seed, oneline(v.detail).c_str());
        std::string path = o["replay"];
        size_t t_before = t.size(), c_before = c.size();
        load(&t, &c, seed, 0); bool rep = run_once(*s) && same_kind(v);
        if (!rep) { ++nondet; note = "trace replay of a violation (" + v.kind + ") of seed " + std::to_string(seed) + " did not show it"; load(nullptr, nullptr, seed, 0); continue; }
        write_replay(path + ".full", *s, flavour, seed, t, c, "as found");
        if (minbudget > 0) { std::vector<TraceEntry> tm = t; std::vector<uint32_t> cm = c; if (minimise(*s, seed, v, tm, cm, v.kind == "hang" && v.cpu ? 1 : minbudget)) { t = tm; c = cm; } }
        load(&t, &c, seed, 0); run_once(*s);
        if (!same_kind(v)) { note = "minimised trace lost the violation"; ++nondet; continue; }
        write_replay(path, *s, flavour, seed, t, c, "minimised");
        vjson = "{\"scenario\":\"" + jesc(s->name) + "\",\"kind\":\"" + jesc(R->kind) + "\",\"detail\":\"" + jesc(R->detail) + "\",\"seed\":" + std::to_string(seed) + ",\"trace_found\":" + std::to_string(t_before) + ",\"trace_min\":" + std::to_string(t.size()) + ",\"choices_found\":" + std::to_string(c_before) + ",\"choices_min\":" + std::to_string(c.size()) + ",\"workload\":\"" + jesc(R->sample) + "\"}";
        rc = 1; break;
    }
    double wall = mono() - t0;
    FILE *f = fopen(out.c_str(), "w"); if (!f) return 3;
    fprintf(f, "{\"runs\":%" PRIu64 ",\"steps\":%" PRIu64 ",\"switches\":%" PRIu64 ",\"syncops\":%" PRIu64 ",\"wall\":%.3f,\"nondet\":%" PRIu64 ",\"selfchecked\":%" PRIu64 ",\"inconclusive\":%" PRIu64 ",\"lost\":%" PRIu64 ",\"simtime_s\":%.6f,\"nontrivial\":%" PRIu64 ",\"faulted\":%" PRIu64 ",\"faultfree\":%" PRIu64 ",\"threads\":%" PRIu64 ",\"maxthreads\":%" PRIu64 ",\"note\":\"%s\"", runs, steps, sw, sy, wall, nondet, checked, incon, lost, (double)simns * 1e-9, nontriv, faulted, faultfree, threads, maxthreads, jesc(note).c_str());
    fprintf(f, ",\"faults\":["); for (int i = 0; i < FS_COUNT; ++i) fprintf(f, "%s%" PRIu64, i ? "," : "", faults[i]);
    fprintf(f, "],\"probes\":["); for (int i = 0; i < MAX_PROBES; ++i) fprintf(f, "%s%" PRIu64, i ? "," : "", probes[i]);
    fprintf(f, "],\"strategies\":["); for (int i = 0; i < 8; ++i) fprintf(f, "%s%" PRIu64, i ? "," : "", strat[i]);
    fprintf(f, "],\"scenarios\":{"); bool first = true; for (auto &p : perscen) { fprintf(f, "%s\"%s\":%" PRIu64, first ? "" : ",", p.first.c_str(), p.second); first = false; }
    fprintf(f, "},\"samples\":["); for (size_t i = 0; i < samples.size(); ++i) fprintf(f, "%s\"%s\"", i ? "," : "", jesc(samples[i]).c_str());
    fprintf(f, "],\"known\":{"); first = true; for (auto &p : knownhit) { fprintf(f, "%s\"%s\":%" PRIu64, first ? "" : ",", jesc(p.first).c_str(), p.second); first = false; }
    fprintf(f, "},\"violation\":%s}\n", vjson.empty() ? "null" : vjson.c_str());
    fclose(f);
    f = fopen((out + ".bin").c_str(), "wb"); if (f) { uint64_t n = inter.size(); fwrite(&n, 8, 1, f); for (uint64_t x : inter) fwrite(&x, 8, 1, f); n = work.size(); fwrite(&n, 8, 1, f); for (uint64_t x : work) fwrite(&x, 8, 1, f); fclose(f); }
    return rc;
}

static int do_replay(const std::string &path, bool verbose) {
    FILE *f = fopen(path.c_str(), "r"); if (!f) { perror(path.c_str()); return 3; }
    static char b[1 << 16]; std::string prop, scen, kind; uint64_t seed = 0, hash = 0; int cpu = 0; std::vector<TraceEntry> t; std::vector<uint32_t> c;
    while (fscanf(f, " %65000s", b) == 1) {
        std::string k = b;
        if (k[0] == '#') { if (!fgets(b, sizeof b, f)) break; }
        else if (k == "choices") { size_t n = 0; if (fscanf(f, "%zu", &n) != 1) break; for (size_t i = 0; i < n; ++i) { unsigned x; if (fscanf(f, "%u", &x) != 1) break; c.push_back(x); } }
        else if (k == "trace") { size_t n = 0; if (fscanf(f, "%zu", &n) != 1) break; for (size_t i = 0; i < n; ++i) { uint64_t st; unsigned v; char kb[32]; if (fscanf(f, "%" SCNu64 " %31s %u", &st, kb, &v) != 3) break; uint32_t kk = 0; for (uint32_t q = 1; q < 7; ++q) if (!strcmp(kb, kname[q])) kk = q; t.push_back(TraceEntry{st, kk, v}); } }
        else { if (!fgets(b, sizeof b, f)) break; b[strcspn(b, "\n")] = 0; const char *v = b[0] == ' ' ? b + 1 : b;
            if (k == "property") prop = v; else if (k == "scenario") scen = v; else if (k == "kind") kind = v; else if (k == "seed") seed = strtoull(v, nullptr, 10); else if (k == "hash") hash = strtoull(v, nullptr, 16); else if (k == "cpuhang") cpu = atoi(v); }
    }
    fclose(f);
    const Scenario *s = find(prop, scen); if (!s) { fprintf(stderr, "sim: unknown scenario %s/%s\n", prop.c_str(), scen.c_str()); return 3; }
    g_prop = s->prop;
    load(&t, &c, seed, 0);
    if (!run_once(*s)) { printf("replay: the run was lost\n"); return 3; }
    bool same = R->violated && kind == R->kind && (cpu || hash == R->hash);
    if (verbose) {
        printf("replay: property=%s scenario=%s: %s\n", s->prop, s->name, R->violated ? R->kind : "no violation");
        if (R->violated) printf("  %s\n", R->detail);
        printf("  workload: %s\n", R->sample);
        printf("  steps %" PRIu64 ", hash %016" PRIx64 " (%s)\n", R->steps, R->hash, same ? "identical to the recorded execution" : "DIFFERENT from the recorded execution");
        printf("  stack:"); for (uint32_t i = 0; i < R->nstack; ++i) printf(" %" PRIx64, R->stack[i]); printf("\n");
        if (R->nstack2) printf("  other access: %" PRIx64 "\n", R->stack2[0]);
    }
    return same ? 1 : R->violated ? 2 : 0;
}

static int do_hashes(std::map<std::string, std::string> &o) {   // determinism proof: print the hash of every run
    std::string prop = o["prop"]; uint64_t base = strtoull(o["seed"].c_str(), nullptr, 10), n = strtoull(o["runs"].c_str(), nullptr, 10);
    std::vector<const Scenario *> sc; unsigned tot = 0;
    for (int i = 0; i < g_nscen; ++i) if (prop == g_scen[i].prop) { sc.push_back(&g_scen[i]); tot += g_scen[i].weight; }
    if (sc.empty()) return 3;
    for (uint64_t k = 0; k < n; ++k) {
        uint64_t seed = mix(mix(base ^ hstr(prop.c_str())) + k); unsigned w = (unsigned)(mix(seed) % tot); const Scenario *s = sc[0];
        for (auto *q : sc) { if (w < q->weight) { s = q; break; } w -= q->weight; }
        load(nullptr, nullptr, seed, 0); run_once(*s);
        printf("%" PRIu64 " %s %016" PRIx64 " %" PRIu64 " %s\n", seed, s->name, R->hash, R->steps, R->violated ? R->kind : R->inconclusive ? "inconclusive" : "ok");
    }
    return 0;
}
static int do_one(std::map<std::string, std::string> &o) {
    const Scenario *s = find(o["prop"], o["scen"]); if (!s) return 3;
    load(nullptr, nullptr, strtoull(o["seed"].c_str(), nullptr, 10), 0);
    bool fin = run_once(*s);
    printf("finished %d violated %d inconclusive %d kind %s\n detail %s\n steps %" PRIu64 " switches %" PRIu64 " threads %u strategy %u hash %016" PRIx64 "\n sample %s\n stack", fin, R->violated, R->inconclusive, R->kind, R->detail, R->steps, R->switches, R->threads, R->strategy, R->hash, R->sample);
    for (uint32_t i = 0; i < R->nstack; ++i) printf(" %" PRIx64, R->stack[i]);
    if (R->nstack2) printf(" other %" PRIx64, R->stack2[0]);
    printf("\n"); return 0;
}

__attribute__((weak)) void rt_cov_init(); __attribute__((weak)) void rt_cov_flush();     // coverage build only
int main(int argc, char **argv) {
    rt_process_init();   // first: nothing that depends on the command line may touch the simulated heap
    if (argc < 2) return usage();
    std::string mode = argv[1]; std::map<std::string, std::string> o;
    for (int i = 2; i < argc; ++i) { std::string a = argv[i]; size_t e = a.find('='); if (e != std::string::npos) o[a.substr(0, e)] = a.substr(e + 1); }
    if (mode == "list") { for (int i = 0; i < g_nscen; ++i) printf("%s %s %u %" PRIu64 " %d\n", g_scen[i].prop, g_scen[i].name, g_scen[i].weight, g_scen[i].step_cap, (int)g_scen[i].race); return 0; }
    C = (RunConfig *)mmap(nullptr, sizeof(RunConfig), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    R = (RunResult *)mmap(nullptr, sizeof(RunResult), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (C == MAP_FAILED || R == MAP_FAILED) { perror("mmap"); return 3; }
    cpu_set_t have; CPU_ZERO(&have);
    if (!sched_getaffinity(0, sizeof have, &have)) {   // one core per worker: hand-overs between its threads stay cheap
        int want = o.count("worker") ? atoi(o["worker"].c_str()) : 0, n = CPU_COUNT(&have), k = 0;
        if (n > 0) { want %= n; for (int i = 0; i < CPU_SETSIZE; ++i) if (CPU_ISSET(i, &have) && k++ == want) { cpu_set_t s; CPU_ZERO(&s); CPU_SET(i, &s); sched_setaffinity(0, sizeof s, &s); break; } }
    }
    static std::string keep; keep = o["prop"]; g_prop = keep.c_str();
    if (rt_cov_init) rt_cov_init();
    if (mode == "search") { int rc = do_search(o); if (rt_cov_flush) rt_cov_flush(); return rc; }
    if (mode == "replay") return do_replay(o["file"], true);
    if (mode == "hashes") return do_hashes(o);
    if (mode == "one") return do_one(o);
    return usage();
}
