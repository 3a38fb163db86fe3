#include "sim.h"
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdlib>
#include <fcntl.h>
#include <map>
#include <set>
#include <string>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <vector>

namespace sim {

namespace {

const size_t TAPE_MAX = 1 << 17, SPAN_MAX = 1 << 13, LOG_MAX = 1 << 20, STATES_MAX = 1024, CNT_MAX = 256;

struct SpanRec { uint32_t b[NSTREAMS], e[NSTREAMS]; };
struct Counter { char name[48]; uint64_t n; };

struct Shared {
    int status;                  // 0 unfinished, 1 ok, 2 violation
    char cls[128]; char msg[2048];
    uint64_t hash, steps, simtime;
    uint32_t ncnt; Counter cnt[CNT_MAX];
    uint32_t nstates; uint64_t states[STATES_MAX];
    uint32_t ntape[NSTREAMS];
    uint32_t nspans; SpanRec spans[SPAN_MAX];
    uint64_t loglen;
    uint32_t tape[NSTREAMS][TAPE_MAX];
    char log[LOG_MAX];
};

Shared* S;
std::vector<uint32_t> replay_tape[NSTREAMS];
bool use_replay = false, verbose = false;
uint64_t rng_state[NSTREAMS];
uint32_t recorded[NSTREAMS];      // choices up to here are on the tape already (after a rewind)
World* worlds = nullptr;
Warmup* warmups = nullptr;
World* current = nullptr;
int cpu_limit_s = 10;

uint64_t rnd(Stream s) {
    uint64_t z = (rng_state[s] += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}

double now() { timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

} // namespace

World::World(char const* n, void (*f)()) : name(n), fn(f), next(worlds) { worlds = this; }
Warmup::Warmup(void (*f)()) : fn(f), next(warmups) { warmups = this; }

bool replaying() { return verbose; }
char const* config_name() { return current ? current->name : ""; }

uint32_t draw(Stream s, uint32_t n)
{
    uint32_t& pos = S->ntape[s];
    uint32_t v;
    if (pos < recorded[s]) return S->tape[s][pos++];
    if (use_replay) v = pos < replay_tape[s].size() ? replay_tape[s][pos] % (n ? n : 1) : 0;
    else v = n > 1 ? uint32_t((rnd(s) >> 11) % n) : 0;
    if (pos >= TAPE_MAX) fail_now("harness:tape-overflow", "stream %d", int(s));
    S->tape[s][pos++] = v;
    return v;
}

uint32_t mark(Stream s) { return S->ntape[s]; }
void rewind(Stream s, uint32_t to) { if (S->ntape[s] > recorded[s]) recorded[s] = S->ntape[s]; S->ntape[s] = to; }

Span::Span() : id(S->nspans)
{
    if (S->nspans >= SPAN_MAX) { id = SPAN_MAX; return; }
    S->nspans++;
    for (int s = 0; s < NSTREAMS; ++s) S->spans[id].b[s] = S->spans[id].e[s] = S->ntape[s];
}
Span::~Span()
{
    if (id >= SPAN_MAX) return;
    for (int s = 0; s < NSTREAMS; ++s) S->spans[id].e[s] = S->ntape[s];
}

void evhash(uint64_t v) { S->hash = hash_bytes(&v, sizeof v, S->hash); }

void ev(char const* fmt, ...)
{
    char buf[512];
    va_list ap; va_start(ap, fmt); int n = vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    if (n < 0) return;
    if (n >= int(sizeof buf)) n = sizeof buf - 1;
    S->hash = hash_bytes(buf, n, S->hash);
    if (S->loglen + n + 1 < LOG_MAX) {
        memcpy(S->log + S->loglen, buf, n); S->loglen += n; S->log[S->loglen++] = '\n';
    }
}

void count(char const* name, uint64_t n)
{
    for (uint32_t i = 0; i < S->ncnt; ++i)
        if (!strcmp(S->cnt[i].name, name)) { S->cnt[i].n += n; return; }
    if (S->ncnt >= CNT_MAX) return;
    strncpy(S->cnt[S->ncnt].name, name, sizeof(Counter::name) - 1);
    S->cnt[S->ncnt].name[sizeof(Counter::name) - 1] = 0;
    S->cnt[S->ncnt++].n = n;
}

void state(uint64_t h)
{
    if (S->nstates < STATES_MAX) S->states[S->nstates++] = h;
}
void simtime(uint64_t ns) { S->simtime += ns; }
void steps(uint64_t n) { S->steps += n; }

static void set_violation(char const* cls, char const* fmt, va_list ap)
{
    if (S->status == 2) return;
    strncpy(S->cls, cls, sizeof S->cls - 1);
    vsnprintf(S->msg, sizeof S->msg, fmt, ap);
    S->status = 2;
}

bool in_thread = false;
void fail(char const* cls, char const* fmt, ...)
{
    va_list ap; va_start(ap, fmt); set_violation(cls, fmt, ap); va_end(ap);
    if (in_thread) _exit(3);
    throw Violation();
}
void fail_now(char const* cls, char const* fmt, ...)
{
    va_list ap; va_start(ap, fmt); set_violation(cls, fmt, ap); va_end(ap);
    _exit(3);
}

} // namespace sim

// ASan: copy the report's kind into the shared result
extern "C" __attribute__((weak)) void __asan_set_error_report_callback(void (*)(char const*));
extern "C" char const* __asan_default_options() { return "detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:exitcode=4:detect_odr_violation=0:quarantine_size_mb=8:malloc_context_size=6:handle_segv=1:symbolize=1:max_malloc_fill_size=0"; }
extern "C" char const* __ubsan_default_options() { return "halt_on_error=1:print_stacktrace=0"; }

namespace sim { namespace {

void asan_report(char const* r)
{
    if (S->status == 2) return;
    std::string text(r), kind = "error";
    size_t p = text.find("AddressSanitizer: ");
    if (p != std::string::npos) {
        p += 18; size_t e = text.find_first_of(" \n:", p);
        kind = text.substr(p, e - p);
        if (kind == "attempting") kind = text.find("double-free") != std::string::npos ? "double-free" : "bad-free";
    }
    snprintf(S->cls, sizeof S->cls, "memory-error:%s", kind.c_str());
    strncpy(S->msg, text.substr(0, 1500).c_str(), sizeof S->msg - 1);
    S->status = 2;
}

struct Outcome {
    int status = 0; std::string cls, msg; uint64_t hash = 0;
};

void seed_rng(uint64_t seed) { for (int s = 0; s < NSTREAMS; ++s) rng_state[s] = mix(seed, s + 1); }

void clear_shared()
{
    for (auto& r : recorded) r = 0;
    S->status = 0; S->cls[0] = S->msg[0] = 0; S->hash = 1469598103934665603ull; S->steps = S->simtime = 0;
    memset(S->cls, 0, sizeof S->cls); memset(S->msg, 0, sizeof S->msg);
    S->ncnt = S->nstates = S->nspans = 0; S->loglen = 0;
    for (int s = 0; s < NSTREAMS; ++s) S->ntape[s] = 0;
}

[[noreturn]] void child_main(World* w)
{
    rlimit rl{0, 0}; setrlimit(RLIMIT_CORE, &rl);
    itimerval it{{0, 0}, {cpu_limit_s, 0}}; setitimer(ITIMER_VIRTUAL, &it, nullptr);
    if (!verbose) {
        int fd = open("/dev/null", O_WRONLY); if (fd >= 0) { dup2(fd, 1); dup2(fd, 2); }
    }
    current = w;
    try {
        w->fn();
        if (S->status == 0) S->status = 1;
    } catch (Violation const&) {
    } catch (std::exception const& e) {
        if (S->status == 0) { snprintf(S->cls, sizeof S->cls, "unexpected-exception"); snprintf(S->msg, sizeof S->msg, "%s", e.what()); S->status = 2; }
    } catch (...) {
        if (S->status == 0) { snprintf(S->cls, sizeof S->cls, "unexpected-exception"); S->status = 2; }
    }
    _exit(0);
}

Outcome execute(World* w)
{
    clear_shared();
    fflush(nullptr);
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); exit(2); }
    if (pid == 0) child_main(w);
    int st = 0; rusage ru{};
    double t0 = now(); bool killed = false;
    for (;;) {
        pid_t r = wait4(pid, &st, WNOHANG, &ru);
        if (r == pid) break;
        if (r < 0 && errno != EINTR) { perror("wait"); exit(2); }
        if (now() - t0 > 12.0 * cpu_limit_s && !killed) { kill(pid, SIGKILL); killed = true; }
        if (now() - t0 < 0.02) { timespec ts{0, 100000}; nanosleep(&ts, nullptr); }
        else { timespec ts{0, 2000000}; nanosleep(&ts, nullptr); }
    }
    Outcome o;
    if (S->status == 2) { o.status = 2; o.cls = S->cls; o.msg = S->msg; }
    else if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && S->status == 1) o.status = 1;
    else {
        o.status = 2;
        char b[128];
        if (killed || (WIFSIGNALED(st) && WTERMSIG(st) == SIGVTALRM)) {
            o.cls = "hang"; snprintf(b, sizeof b, "run did not end within %d s of CPU time", cpu_limit_s);
        }
        else if (WIFSIGNALED(st)) { snprintf(b, sizeof b, "crash:signal-%d", WTERMSIG(st)); o.cls = b; snprintf(b, sizeof b, "process died from signal %d", WTERMSIG(st)); }
        else { snprintf(b, sizeof b, "crash:exit-%d", WEXITSTATUS(st)); o.cls = b; snprintf(b, sizeof b, "process exited with %d", WEXITSTATUS(st)); }
        o.msg = b;
    }
    o.hash = S->hash;
    return o;
}

typedef std::vector<uint32_t> Vec;
struct Tape { Vec s[NSTREAMS]; };

Tape grab() { Tape t; for (int i = 0; i < NSTREAMS; ++i) t.s[i].assign(S->tape[i], S->tape[i] + S->ntape[i]); return t; }
std::vector<SpanRec> grab_spans() { return std::vector<SpanRec>(S->spans, S->spans + S->nspans); }

Outcome run_tape(World* w, Tape const& t)
{
    use_replay = true;
    for (int i = 0; i < NSTREAMS; ++i) replay_tape[i] = t.s[i];
    Outcome o = execute(w);
    use_replay = false;
    return o;
}

size_t weight(Tape const& t) { size_t n = 0; for (auto& s : t.s) { n += s.size(); for (auto v : s) n += v ? 1 : 0; } return n; }

/// Shrink the tape while the same violation class persists.
Tape minimise(World* w, Tape best, std::string const& cls, double budget_s, int max_cand, int& tried)
{
    double t0 = now(); tried = 0;
    auto ok = [&]() { return now() - t0 < budget_s && tried < max_cand; };
    std::vector<SpanRec> spans;
    auto attempt = [&](Tape const& c) {
        ++tried;
        Outcome o = run_tape(w, c);
        if (o.status == 2 && o.cls == cls) { Tape g = grab(); best = weight(g) <= weight(c) ? g : c; spans = grab_spans(); return true; }
        return false;
    };
    attempt(best);
    for (int s : {int(SCHED), int(FAULTS)}) { Tape c = best; c.s[s].clear(); if (!best.s[s].empty()) attempt(c); }
    bool progress = true;
    while (progress && ok()) {
        progress = false;
        // drop whole operations
        for (size_t len = spans.size() / 2; len >= 1 && ok(); len /= 2) {
            for (size_t i = 0; i + len <= spans.size() && ok();) {
                Tape c = best;
                for (int s = 0; s < NSTREAMS; ++s) {
                    uint32_t b = spans[i].b[s], e = spans[i + len - 1].e[s];
                    if (e > c.s[s].size()) e = c.s[s].size();
                    if (b < e) c.s[s].erase(c.s[s].begin() + b, c.s[s].begin() + e);
                }
                if (weight(c) < weight(best) && attempt(c)) progress = true; else i += len;
            }
        }
        // zero chunks, then lower single values
        for (int s = NSTREAMS - 1; s >= 0 && ok(); --s) {
            for (size_t len = best.s[s].size() / 2; len >= 1 && ok(); len /= 2) {
                for (size_t i = 0; i + len <= best.s[s].size() && ok(); i += len) {
                    bool any = false; for (size_t k = i; k < i + len; ++k) any |= best.s[s][k] != 0;
                    if (!any) continue;
                    Tape c = best; for (size_t k = i; k < i + len; ++k) c.s[s][k] = 0;
                    if (attempt(c)) progress = true;
                }
            }
        }
        if (!progress) {
            for (int s = 0; s < NSTREAMS && ok(); ++s)
                for (size_t i = 0; i < best.s[s].size() && ok(); ++i)
                    while (i < best.s[s].size() && best.s[s][i] > 1 && ok()) {
                        Tape c = best; uint32_t v = c.s[s][i]; c.s[s][i] = v / 2;
                        if (attempt(c)) { progress = true; continue; }
                        c = best; if (i >= c.s[s].size()) break; c.s[s][i] = v - 1;
                        if (v > 64 || !attempt(c)) break;
                    }
        }
    }
    return best;
}

std::string esc(std::string const& s)
{
    std::string r;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c == '\n') r += "\\n";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r;
}

void write_replay(std::string const& path, World* w, uint64_t seed, uint64_t index, Outcome const& o, Tape const& t, int tried)
{
    FILE* f = fopen(path.c_str(), "w");
    if (!f) { perror(path.c_str()); exit(2); }
    fprintf(f, "simreplay 1\nworld %s\nseed %llu\nrun %llu\nclass %s\nhash %016llx\nminimise_candidates %d\n", w->name,
        (unsigned long long)seed, (unsigned long long)index, o.cls.c_str(), (unsigned long long)o.hash, tried);
    static char const* nm[] = {"ops", "faults", "schedule"};
    for (int s = 0; s < NSTREAMS; ++s) {
        fprintf(f, "%s %zu", nm[s], t.s[s].size());
        for (auto v : t.s[s]) fprintf(f, " %u", v);
        fprintf(f, "\n");
    }
    fprintf(f, "message %s\n", esc(o.msg).c_str());
    fprintf(f, "trace\n%.*s", int(std::min<uint64_t>(S->loglen, 200000)), S->log);
    fclose(f);
}

World* find_world(std::string const& n)
{
    for (World* w = worlds; w; w = w->next) if (n == w->name) return w;
    fprintf(stderr, "unknown world %s\n", n.c_str()); exit(2);
}

int batch(int argc, char** argv)
{
    std::string world, out, replay_path; uint64_t seed = 1, start = 0, stride = 1, n = 100, gate = 20; double limit = 60, min_budget = 40;
    for (int i = 2; i + 1 < argc; i += 2) {
        std::string k = argv[i], v = argv[i + 1];
        if (k == "--world") world = v; else if (k == "--seed") seed = strtoull(v.c_str(), 0, 10);
        else if (k == "--start") start = strtoull(v.c_str(), 0, 10); else if (k == "--stride") stride = strtoull(v.c_str(), 0, 10);
        else if (k == "--count") n = strtoull(v.c_str(), 0, 10); else if (k == "--time") limit = atof(v.c_str());
        else if (k == "--out") out = v; else if (k == "--replay-out") replay_path = v; else if (k == "--gate") gate = strtoull(v.c_str(), 0, 10);
        else if (k == "--cpu") cpu_limit_s = atoi(v.c_str()); else if (k == "--minimise") min_budget = atof(v.c_str());
    }
    World* w = find_world(world);
    uint64_t wh = hash_bytes(w->name, strlen(w->name));
    std::map<std::string, uint64_t> cnt; std::set<uint64_t> states, hashes;
    uint64_t runs = 0, nsteps = 0, simns = 0, gated = 0, tapeops = 0, faulted_runs = 0;
    std::vector<std::string> samples;
    double t0 = now();
    int violation = 0, gate_fail = 0; Outcome vo; Tape vt; uint64_t vindex = 0; int tried = 0; bool flaky = false;
    for (uint64_t k = 0; k < n && now() - t0 < limit; ++k) {
        uint64_t idx = start + k * stride;
        uint64_t rs = mix(mix(seed, wh), idx);
        seed_rng(rs);
        Outcome o = execute(w);
        ++runs; nsteps += S->steps; simns += S->simtime; tapeops += S->nspans;
        bool faulted = false;
        for (uint32_t i = 0; i < S->ncnt; ++i) {
            cnt[S->cnt[i].name] += S->cnt[i].n;
            if (!strncmp(S->cnt[i].name, "fault:", 6) && S->cnt[i].n) faulted = true;
        }
        faulted_runs += faulted;
        for (uint32_t i = 0; i < S->nstates; ++i) if (states.size() < 2000000) states.insert(S->states[i]);
        if (S->nspans > 0 || S->ntape[OPS] > 0) hashes.insert(o.hash);
        if (k < 2 && start < 2) samples.push_back(std::string(S->log, std::min<uint64_t>(S->loglen, 600)));
        if (o.status == 1 && k < gate) {
            ++gated;
            seed_rng(rs);
            Outcome o2 = execute(w);
            if (o2.status != 1 || o2.hash != o.hash) {
                gate_fail++; fprintf(stderr, "gate: run %llu of %s differs between two executions (%016llx %016llx %s)\n",
                    (unsigned long long)idx, w->name, (unsigned long long)o.hash, (unsigned long long)o2.hash, o2.cls.c_str());
                if (o2.status == 2) o = o2;
            }
        }
        if (o.status == 2) {
            Tape t = grab(); std::string cls = o.cls;
            if (cls == "hang") cpu_limit_s *= 2; // confirm with a doubled budget
            Outcome a = run_tape(w, t);
            if (a.status != 2 || a.cls != cls) { flaky = true; vo = o; vindex = idx; vt = t; violation = 1; break; }
            double mb = min_budget; int mc = 1500;
            if (cls == "hang") { cpu_limit_s = 3; mb = std::max(min_budget, 40.0); mc = 40; }
            vt = minimise(w, t, cls, mb, mc, tried);
            vo = run_tape(w, vt);
            if (vo.status != 2 || vo.cls != cls) { vt = t; vo = run_tape(w, vt); }
            Outcome again = run_tape(w, vt);
            if (again.status != 2 || again.cls != vo.cls || (vo.cls != "hang" && again.hash != vo.hash)) flaky = true;
            vindex = idx; violation = 1;
            write_replay(replay_path, w, seed, idx, vo, vt, tried);
            break;
        }
    }
    double el = now() - t0;
    FILE* f = fopen(out.c_str(), "w");
    if (!f) { perror(out.c_str()); return 2; }
    fprintf(f, "{\"world\":\"%s\",\"runs\":%llu,\"steps\":%llu,\"simtime_ns\":%llu,\"gated\":%llu,\"gate_fail\":%d,\"ops\":%llu,\"faulted_runs\":%llu,\"elapsed\":%.3f,\"violation\":%d,\"flaky\":%d,",
        w->name, (unsigned long long)runs, (unsigned long long)nsteps, (unsigned long long)simns, (unsigned long long)gated, gate_fail,
        (unsigned long long)tapeops, (unsigned long long)faulted_runs, el, violation, int(flaky));
    fprintf(f, "\"cls\":\"%s\",\"msg\":\"%s\",\"run\":%llu,\"candidates\":%d,", esc(vo.cls).c_str(), esc(vo.msg).c_str(), (unsigned long long)vindex, tried);
    fprintf(f, "\"counters\":{"); bool first = true;
    for (auto& c : cnt) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", c.first.c_str(), (unsigned long long)c.second); first = false; }
    fprintf(f, "},\"samples\":["); first = true;
    for (auto& s : samples) { fprintf(f, "%s\"%s\"", first ? "" : ",", esc(s).c_str()); first = false; }
    fprintf(f, "]}\n"); fclose(f);
    // distinct sets are merged by the driver
    f = fopen((out + ".sets").c_str(), "wb");
    uint64_t a = hashes.size(), b = states.size();
    fwrite(&a, 8, 1, f); fwrite(&b, 8, 1, f);
    for (auto h : hashes) fwrite(&h, 8, 1, f);
    for (auto h : states) fwrite(&h, 8, 1, f);
    fclose(f);
    return 0;
}

int replay(char const* path)
{
    FILE* f = fopen(path, "r"); if (!f) { perror(path); return 2; }
    std::string world, cls; Tape t; char word[128]; unsigned long long hash = 0;
    while (fscanf(f, "%127s", word) == 1) {
        std::string k = word;
        if (k == "trace" || k == "message") break;
        if (k == "world" || k == "class") { char b[256]; if (fscanf(f, " %255[^\n]", b) != 1) return 2; (k == "world" ? world : cls) = b; }
        else if (k == "hash") { if (fscanf(f, "%llx", &hash) != 1) return 2; }
        else if (k == "ops" || k == "faults" || k == "schedule") {
            int s = k == "ops" ? 0 : k == "faults" ? 1 : 2; size_t n; if (fscanf(f, "%zu", &n) != 1) return 2;
            t.s[s].resize(n); for (auto& v : t.s[s]) if (fscanf(f, "%u", &v) != 1) return 2;
        } else { char b[256]; if (fscanf(f, " %255[^\n]", b) != 1) return 2; }
    }
    fclose(f);
    World* w = find_world(world);
    if (cls == "hang") cpu_limit_s = 3;
    Outcome o = run_tape(w, t);
    printf("%.*s", int(S->loglen), S->log);
    printf("REPLAY status=%d class=%s hash=%016llx expected_class=%s expected_hash=%016llx\n%s\n", o.status, o.cls.c_str(),
        (unsigned long long)o.hash, cls.c_str(), hash, o.msg.c_str());
    if (o.status != 2) return 0;
    return o.cls == cls && (cls == "hang" || cls.compare(0, 6, "crash:") == 0 || o.hash == hash) ? 1 : 5;
}

}} // namespace sim::

int main(int argc, char** argv)
{
    using namespace sim;
    if (!getenv("SIM_NOASLR_TRIED")) {
        setenv("SIM_NOASLR_TRIED", "1", 1); setenv("OPENBLAS_NUM_THREADS", "1", 1);
        int p = personality(0xffffffff);
        if (p != -1 && !(p & ADDR_NO_RANDOMIZE)) personality(p | ADDR_NO_RANDOMIZE);
        execv("/proc/self/exe", argv);
    }
    S = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    if (S == MAP_FAILED) { perror("mmap"); return 2; }
    clear_shared();
    if (__asan_set_error_report_callback) __asan_set_error_report_callback(asan_report);
    // the warm-up executes code under test: one that does not survive it is left to the runs to report
    for (Warmup* w = warmups; w; w = w->next) {
        fflush(nullptr); pid_t p = fork();
        if (p == 0) { int n = ::open("/dev/null", O_WRONLY); if (n >= 0) dup2(n, 2); alarm(20); try { w->fn(); } catch (...) { _exit(1); } _exit(0); }
        int st = 1; while (p > 0 && waitpid(p, &st, 0) < 0 && errno == EINTR) {}
        if (p > 0 && st == 0) w->fn();
    }
    clear_shared();
    if (argc >= 2 && !strcmp(argv[1], "batch")) return batch(argc, argv);
    if (argc >= 3 && !strcmp(argv[1], "replay")) { verbose = getenv("SIM_VERBOSE") != nullptr; return replay(argv[2]); }
    if (argc >= 2 && !strcmp(argv[1], "list")) { for (World* w = worlds; w; w = w->next) puts(w->name); return 0; }
    if (argc >= 4 && !strcmp(argv[1], "one")) { // one WORLD INDEX [SEED]: print the trace
        World* w = find_world(argv[2]); uint64_t seed = argc > 4 ? strtoull(argv[4], 0, 10) : 1;
        verbose = true;
        seed_rng(mix(mix(seed, hash_bytes(w->name, strlen(w->name))), strtoull(argv[3], 0, 10)));
        Outcome o = execute(w);
        printf("%.*s", int(S->loglen), S->log);
        printf("status=%d class=%s hash=%016llx ops=%u\n%s\n", o.status, o.cls.c_str(), (unsigned long long)o.hash, S->nspans, o.msg.c_str());
        return 0;
    }
    fprintf(stderr, "usage: batch|replay|list|one\n");
    return 2;
}
