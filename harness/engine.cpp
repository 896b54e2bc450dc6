// The engine behind pbt.hpp: generation, process isolation, confirmation, shrinking, replay and measurement.
#include "pbt.hpp"
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <cinttypes>
#include <cstdarg>
#include <csignal>
#include <fcntl.h>
#include <map>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define PBT_ASAN 1
#endif
#endif
#ifdef PBT_ASAN
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
#endif

extern "C" const char* __asan_default_options() {
    return "detect_leaks=0:exitcode=78:quarantine_size_mb=16:malloc_context_size=8:detect_stack_use_after_return=0:"
           "max_allocation_size_mb=1500:allocator_may_return_null=0:abort_on_error=0:handle_abort=1:symbolize=0";
}
extern "C" const char* __tsan_default_options() {
    return "exitcode=78:halt_on_error=1:history_size=4:report_signal_unsafe=0:detect_deadlocks=0:symbolize=0";
}

__attribute__((weak)) void property_setup() {}

namespace pbt {

static uint64_t splitmix(uint64_t& x) {
    uint64_t z = (x += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}

uint64_t Src::next() { return splitmix(st); }

uint32_t Src::below(uint32_t n) {
    if (n == 0) n = 1;
    uint32_t v;
    switch (mode) {
        case RANDOM: v = (uint32_t)(((next() >> 32) * (uint64_t)n) >> 32); break;
        case REPLAY:
            v = inpos < inlen ? in[inpos] : 0;
            inpos++;
            if (v >= n) v %= n;
            break;
        default: {
            uint64_t x = 0;
            int need = n <= 0x100 ? 1 : n <= 0x10000 ? 2 : 4;
            for (int i = 0; i < need; i++) x = (x << 8) | (bpos < nbytes ? bytes[bpos++] : 0);
            v = (uint32_t)(x % n);
        }
    }
    if (out && ndraws < outcap) {
        out[ndraws] = v;
        if (outlen) *outlen = ndraws + 1;
    }
    ndraws++;
    hash = (hash ^ v) * 1099511628211ull;
    return v;
}

uint64_t Src::wide(uint64_t n) {
    if (n == 0) return raw64();
    if (n <= 0xffffffffull) return below((uint32_t)n);
    return raw64() % n;
}

// ---------------------------------------------------------------- allocation accounting
static std::atomic<int64_t> g_live{0}, g_live_bytes{0};
#ifdef PBT_ASAN
static void on_malloc(const volatile void* p, size_t) {
    if (p) g_live.fetch_add(1, std::memory_order_relaxed);
}
static void on_free(const volatile void* p) {
    if (p) g_live.fetch_sub(1, std::memory_order_relaxed);
}
void install_alloc_hooks() {
    static bool done = false;
    if (!done) {
        done = true;
        __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
    }
}
bool alloc_accounting() { return true; }
#else
void install_alloc_hooks() {}
bool alloc_accounting() { return false; }
#endif
int64_t live_allocs() { return g_live.load(); }

// ---------------------------------------------------------------- shared memory
constexpr size_t kMaxDraws = 1u << 19, kMaxHashes = 1u << 21, kMaxLabels = 160, kNotes = 1u << 16;
struct Label {
    char name[56];
    uint64_t n;
};
struct Slot {
    volatile uint64_t heartbeat;
    volatile uint64_t cur;          // index of the case being run
    volatile uint64_t drawlen;
    volatile uint64_t evaluations, discarded, nontrivial, nhashes, nlabels, draws;
    volatile uint64_t first_nt[4];
    volatile uint64_t nfirst;
    volatile int failed;
    volatile int done_case;         // no case is running
    char msg[8192];
    char notes[kNotes];
    Label labels[kMaxLabels];
    uint32_t drawbuf[kMaxDraws];
    uint64_t hashes[kMaxHashes];
};
static Slot* g_slot = nullptr;  // in a child: where to report

void Case::label(const char* name) {
    if (!g_slot) return;
    for (uint64_t i = 0; i < g_slot->nlabels; i++)
        if (!strcmp(g_slot->labels[i].name, name)) {
            __atomic_add_fetch(&g_slot->labels[i].n, 1, __ATOMIC_RELAXED);
            return;
        }
    if (g_slot->nlabels < kMaxLabels) {
        Label& l = g_slot->labels[g_slot->nlabels];
        snprintf(l.name, sizeof l.name, "%s", name);
        l.n = 1;
        g_slot->nlabels = g_slot->nlabels + 1;
    }
}
void Case::note(const char* fmt, ...) {
    if (!trace) return;
    char b[2048];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    if (notes.size() + strlen(b) + 2 < kNotes) {
        notes += b;
        notes += '\n';
        if (g_slot) memcpy(g_slot->notes, notes.c_str(), notes.size() + 1);
    }
}
static void record(Case& c, const char* fmt, va_list ap) {
    char b[4096];
    vsnprintf(b, sizeof b, fmt, ap);
    if (!c.failed) {
        c.msg = b;
        if (g_slot) {
            snprintf(g_slot->msg, sizeof g_slot->msg, "%s", b);
            g_slot->failed = 1;
        }
    }
    c.failed = true;
}
void Case::fail(const char* fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    record(*this, fmt, ap);
    va_end(ap);
    throw Fail{};
}
void Case::flag(const char* fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    record(*this, fmt, ap);
    va_end(ap);
}

std::string printable(const std::string& s) {
    std::string r = "\"";
    char b[8];
    for (unsigned char ch : s) {
        if (r.size() > 400) {
            r += "...";
            break;
        }
        if (ch >= 0x20 && ch < 0x7f && ch != '"' && ch != '\\') r += (char)ch;
        else {
            snprintf(b, sizeof b, "\\x%02x", ch);
            r += b;
        }
    }
    return r + "\"";
}

// Runs one case; the outcome is in c.
static bool run_case(Case& c) {
    bool discarded = false;
    try {
        property_case(c);
    } catch (Fail&) {
    } catch (Discard&) {
        discarded = true;
    } catch (std::exception& e) {
        c.flag("unexpected exception escaped: %s", e.what());
    } catch (...) {
        c.flag("unexpected exception (unknown type) escaped");
    }
    return !discarded;
}

static uint64_t case_seed(uint64_t seed, uint64_t worker, uint64_t k) {
    uint64_t x = seed * 0x9e3779b97f4a7c15ull + 0x1234567;
    splitmix(x);
    x ^= worker * 0xd1342543de82ef95ull;
    splitmix(x);
    x ^= k * 0xaf251af3b0f025b5ull;
    splitmix(x);
    return x;
}

static double now() {
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}

struct Options {
    uint64_t seed = 1;
    int workers = 8;
    uint64_t cases = 10000;
    double time = 20, shrink_time = 20;
    uint64_t batch = 400;
    std::string out, tmp = "/tmp", replay, variant = "A", replay_out;
    double hang = 25;
    bool concurrent = false;
} opt;

static void child_io(const std::string& errfile) {
    int n = open("/dev/null", O_RDWR);
    dup2(n, 0);
    dup2(n, 1);
    if (!getenv("PBT_STDERR")) {
        int e = open(errfile.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0600);
        dup2(e >= 0 ? e : n, 2);
    }
    rlimit core{0, 0};
    setrlimit(RLIMIT_CORE, &core);
}

enum Outcome { OK, FAILED, CRASHED, HUNG };
struct Result {
    Outcome o = OK;
    std::string msg, notes, err;
    std::vector<uint32_t> draws;
};

static std::string slurp(const std::string& f, size_t max) {
    std::string r;
    if (FILE* fp = fopen(f.c_str(), "r")) {
        char b[4096];
        size_t n;
        while (r.size() < max && (n = fread(b, 1, sizeof b, fp)) > 0) r.append(b, n);
        fclose(fp);
    }
    if (r.size() > max) r.resize(max);
    return r;
}

static std::string describe_status(int st) {
    char b[64];
    if (WIFSIGNALED(st)) snprintf(b, sizeof b, "killed by signal %d", WTERMSIG(st));
    else snprintf(b, sizeof b, "exit status %d", WEXITSTATUS(st));
    return b;
}

static void run_child(Slot* s, Src& src, bool trace) {
    g_slot = s;
    property_setup();
    Case c(src);
    c.trace = trace;
    run_case(c);
    _exit(c.failed ? 77 : 0);
}

static Slot* new_slot() {
    void* p = mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) {
        perror("mmap");
        exit(3);
    }
    return (Slot*)p;
}
static Slot* g_scratch = nullptr;

static Result wait_child(pid_t pid, Slot* s, const std::string& errfile, double limit) {
    Result r;
    int st = 0;
    double t0 = now();
    useconds_t nap = 100;
    for (;;) {
        pid_t w = waitpid(pid, &st, WNOHANG);
        if (w == pid) break;
        if (now() - t0 > limit) {
            kill(pid, SIGKILL);
            waitpid(pid, &st, 0);
            r.o = HUNG;
            r.msg = "the case does not terminate";
            break;
        }
        usleep(nap);
        if (nap < 2000) nap += 50;
    }
    r.draws.assign(s->drawbuf, s->drawbuf + std::min<uint64_t>((uint64_t)s->drawlen, kMaxDraws));
    r.notes = s->notes;
    if (r.o == HUNG) return r;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return r;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 77) {
        r.o = FAILED;
        r.msg = s->msg;
        return r;
    }
    r.o = CRASHED;
    r.err = slurp(errfile, 6000);
    r.msg = "the process died (" + describe_status(st) + ")";
    if (s->failed) r.msg += std::string(" after: ") + s->msg;
    return r;
}

static Result run_choices(const std::vector<uint32_t>& ch, bool trace, double limit) {
    if (!g_scratch) g_scratch = new_slot();
    Slot* s = g_scratch;
    s->drawlen = 0;
    s->failed = 0;
    s->msg[0] = s->notes[0] = 0;
    s->nlabels = 0;
    std::string ef = opt.tmp + "/replay." + std::to_string(getpid()) + ".err";
    pid_t pid = fork();
    if (pid == 0) {
        child_io(ef);
        Src src;
        src.mode = Src::REPLAY;
        src.in = ch.data();
        src.inlen = ch.size();
        src.out = s->drawbuf;
        src.outcap = kMaxDraws;
        src.outlen = &s->drawlen;
        run_child(s, src, trace);
    }
    Result r = wait_child(pid, s, ef, limit);
    unlink(ef.c_str());
    return r;
}

static void init_src(Src& src, Slot* s, uint64_t worker, uint64_t k) {
    src.mode = Src::RANDOM;
    src.st = case_seed(opt.seed, worker, k);
    s->drawlen = 0;
    src.out = s->drawbuf;
    src.outcap = kMaxDraws;
    src.outlen = &s->drawlen;
}

// The cases [from, to) of a worker, in this process
static void batch_body(Slot* s, uint64_t worker, uint64_t from, uint64_t to, double deadline, bool count) {
    g_slot = s;
    property_setup();
    for (uint64_t k = from; k < to; k++) {
        if (deadline > 0 && now() > deadline) break;
        Src src;
        s->cur = k;
        s->done_case = 0;
        init_src(src, s, worker, k);
        s->heartbeat = s->heartbeat + 1;
        Case c(src);
        bool valid = run_case(c);
        if (c.failed) _exit(77);
        s->done_case = 1;
        s->cur = k + 1;
        if (!count) continue;
        s->evaluations = s->evaluations + 1;
        s->draws = s->draws + src.ndraws;
        if (!valid) s->discarded = s->discarded + 1;
        else if (c.nontrivial) {
            s->nontrivial = s->nontrivial + 1;
            if (s->nfirst < 4) {
                s->first_nt[s->nfirst] = k;
                s->nfirst = s->nfirst + 1;
            }
            if (s->nhashes < kMaxHashes) {
                s->hashes[s->nhashes] = c.haskey ? c.khash : src.hash;
                s->nhashes = s->nhashes + 1;
            }
        }
    }
    _exit(0);
}

static Result run_batch(uint64_t worker, uint64_t from, uint64_t to, double limit) {
    if (!g_scratch) g_scratch = new_slot();
    Slot* s = g_scratch;
    s->drawlen = 0;
    s->failed = 0;
    s->msg[0] = s->notes[0] = 0;
    s->nlabels = 0;
    std::string ef = opt.tmp + "/batch." + std::to_string(getpid()) + ".err";
    pid_t pid = fork();
    if (pid == 0) {
        child_io(ef);
        batch_body(s, worker, from, to, 0, false);
    }
    Result r = wait_child(pid, s, ef, limit);
    unlink(ef.c_str());
    return r;
}

static std::vector<uint32_t> shrink(std::vector<uint32_t> best, Outcome want, double until, uint64_t& attempts) {
    auto ok = [&](const std::vector<uint32_t>& c) -> bool {
        attempts++;
        Result r = run_choices(c, false, 10);
        bool hit = r.o == want;
        if (hit && opt.concurrent) hit = run_choices(c, false, 10).o == want;  // only steps which fail readily
        return hit;
    };
    auto shortlex = [](const std::vector<uint32_t>& a, const std::vector<uint32_t>& b) { return a.size() != b.size() ? a.size() < b.size() : a < b; };
    bool progress = true;
    while (progress && now() < until) {
        progress = false;
        // drop blocks
        for (size_t len : {256, 64, 16, 8, 4, 2, 1}) {
            if (len > best.size()) continue;
            for (size_t i = best.size() - len + 1; i-- > 0 && now() < until;) {
                if (i + len > best.size()) continue;
                auto c = best;
                c.erase(c.begin() + i, c.begin() + i + len);
                if (ok(c)) {
                    best = c;
                    progress = true;
                } else if (len > 4) i -= std::min(i, len / 2 - 1);
            }
        }
        // zero blocks, then minimise single draws
        for (size_t len : {16, 4, 1})
            for (size_t i = 0; i + len <= best.size() && now() < until; i += len) {
                auto c = best;
                std::fill(c.begin() + i, c.begin() + i + len, 0);
                if (c == best) continue;
                if (ok(c)) {
                    best = c;
                    progress = true;
                }
            }
        for (size_t i = 0; i < best.size() && now() < until; i++) {
            uint32_t lo = 0;
            while (best[i] > lo && now() < until) {
                auto c = best;
                c[i] = lo + (best[i] - lo) / 2;
                if (c[i] == best[i]) break;
                if (shortlex(c, best) && ok(c)) {
                    best = c;
                    progress = true;
                } else lo = c[i] + 1;
            }
        }
        // a count drawn in front of what it counts: lower it and drop elements together
        for (size_t i = 0; i < best.size() && now() < until; i++)
            if (best[i] > 0 && best[i] < 64)
                for (size_t len : {1, 2, 3, 4, 6}) {
                    if (i + 1 + len > best.size() || best[i] == 0) continue;
                    auto c = best;
                    c[i]--;
                    c.erase(c.begin() + i + 1, c.begin() + i + 1 + len);
                    if (ok(c)) {
                        best = c;
                        progress = true;
                    }
                }
        // trailing zeros are implied
        while (!best.empty() && best.back() == 0) best.pop_back();
    }
    return best;
}

static std::string json(const std::string& s) {
    std::string r = "\"";
    char b[8];
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') {
            r += '\\';
            r += (char)ch;
        } else if (ch == '\n') r += "\\n";
        else if (ch < 0x20 || ch >= 0x7f) {
            snprintf(b, sizeof b, "\\u%04x", ch);
            r += b;
        } else r += (char)ch;
    }
    return r + "\"";
}

static void write_replay(const std::string& path, const std::string& kind, const std::vector<uint32_t>& ch, uint64_t worker, uint64_t from, uint64_t to,
                         const Result& r) {
    FILE* f = fopen(path.c_str(), "w");
    if (!f) {
        perror(path.c_str());
        exit(3);
    }
    fprintf(f, "property %s\nvariant %s\nkind %s\nseed %" PRIu64 "\n", kProperty, opt.variant.c_str(), kind.c_str(), opt.seed);
    if (kind == "batch") fprintf(f, "worker %" PRIu64 "\nfrom %" PRIu64 "\nto %" PRIu64 "\n", worker, from, to);
    fprintf(f, "choices %zu\n", ch.size());
    for (size_t i = 0; i < ch.size(); i++) fprintf(f, "%u%c", ch[i], i % 24 == 23 ? '\n' : ' ');
    fprintf(f, "\n--\nfailure: %s\n\ncase:\n%s\n%s\n", r.msg.c_str(), r.notes.c_str(), r.err.c_str());
    fclose(f);
}

struct Replay {
    std::string kind = "choices";
    uint64_t seed = 1, worker = 0, from = 0, to = 0;
    std::vector<uint32_t> ch;
};
static bool read_replay(const std::string& path, Replay& r) {
    FILE* f = fopen(path.c_str(), "r");
    if (!f) return false;
    char k[64];
    while (fscanf(f, "%63s", k) == 1) {
        std::string key = k;
        if (key == "--") break;
        char v[256];
        unsigned long long n = 0;
        if (key == "choices") {
            if (fscanf(f, "%llu", &n) != 1) break;
            for (unsigned long long i = 0; i < n; i++) {
                unsigned x;
                if (fscanf(f, "%u", &x) != 1) break;
                r.ch.push_back(x);
            }
            continue;
        }
        if (fscanf(f, "%255s", v) != 1) break;
        if (key == "kind") r.kind = v;
        if (key == "seed") r.seed = strtoull(v, nullptr, 10);
        if (key == "worker") r.worker = strtoull(v, nullptr, 10);
        if (key == "from") r.from = strtoull(v, nullptr, 10);
        if (key == "to") r.to = strtoull(v, nullptr, 10);
    }
    fclose(f);
    return true;
}

static int do_replay() {
    Replay r;
    if (!read_replay(opt.replay, r)) {
        fprintf(stderr, "cannot read %s\n", opt.replay.c_str());
        return 3;
    }
    opt.seed = r.seed;
    for (int i = 0; i < (opt.concurrent ? 60 : 3); i++) {
        Result x = r.kind == "batch" ? run_batch(r.worker, r.from, r.to, 120) : run_choices(r.ch, true, opt.hang);
        if (x.o != OK) {
            printf("reproduced: %s\n\ncase:\n%s\n%s\n", x.msg.c_str(), x.notes.c_str(), x.err.c_str());
            return 1;
        }
        if (i == 0) printf("case:\n%s\n", x.notes.c_str());
    }
    printf("not reproduced: the property holds on this case\n");
    return 0;
}

static int campaign() {
    double t0 = now(), deadline = t0 + opt.time;
    int W = opt.workers;
    std::vector<Slot*> slots;
    std::vector<pid_t> pids(W, 0);
    std::vector<uint64_t> next(W, 0), from(W, 0), lasthb(W, 0);
    std::vector<double> hbtime(W, 0);
    uint64_t per = (opt.cases + W - 1) / W;
    for (int i = 0; i < W; i++) slots.push_back(new_slot());
    auto errf = [&](int w) { return opt.tmp + "/w" + std::to_string(w) + "." + std::to_string(getpid()) + ".err"; };
    auto spawn = [&](int w) {
        Slot* s = slots[w];
        from[w] = next[w];
        uint64_t to = std::min(per, next[w] + opt.batch);
        s->cur = next[w];
        s->done_case = 1;
        s->failed = 0;
        s->msg[0] = s->notes[0] = 0;
        pid_t pid = fork();
        if (pid == 0) {
            child_io(errf(w));
            batch_body(s, w, from[w], to, deadline, true);
        }
        if (pid < 0) {
            perror("fork");
            exit(3);
        }
        pids[w] = pid;
        lasthb[w] = s->heartbeat;
        hbtime[w] = now();
    };
    auto kill_all = [&]() {
        for (int w = 0; w < W; w++)
            if (pids[w]) {
                kill(pids[w], SIGKILL);
                waitpid(pids[w], nullptr, 0);
                pids[w] = 0;
            }
    };
    bool violation = false;
    uint64_t unconfirmed = 0, shrink_attempts = 0;
    std::vector<std::string> unconf;
    Result fin;
    auto handle = [&](int w, Result r) {
        // r: outcome of the case slots[w]->cur of worker w, whose draws are in the slot
        Slot* s = slots[w];
        uint64_t k = s->cur;
        std::vector<uint32_t> ch(s->drawbuf, s->drawbuf + std::min<uint64_t>((uint64_t)s->drawlen, kMaxDraws));
        kill_all();
        int tries = opt.concurrent ? 40 : 3, need = opt.concurrent ? 1 : 3, hit = 0;
        double lim = r.o == HUNG ? opt.hang * 2 : opt.hang;
        if (r.o == HUNG) tries = need = 2;
        Result last = r;
        for (int i = 0; i < tries && hit < need; i++) {
            Result x = run_choices(ch, false, lim);
            if (x.o != OK) {
                hit++;
                last = x;
            } else if (!opt.concurrent) break;
        }
        if (hit >= need) {
            auto best = ch;
            if (last.o != HUNG) best = shrink(ch, last.o, now() + opt.shrink_time, shrink_attempts);
            Result x;
            for (int i = 0; i < (opt.concurrent ? 60 : 1); i++) {
                x = run_choices(best, true, lim);
                if (x.o != OK) break;
            }
            if (x.o == OK) {
                best = ch;
                x = last;
            }
            write_replay(opt.replay_out, "choices", best, 0, 0, 0, x);
            fin = x;
            violation = true;
            return;
        }
        if (r.o != HUNG) {
            // does the history of the process matter?
            int bh = 0;
            Result bx;
            for (int i = 0; i < (opt.concurrent ? 10 : 3); i++) {
                Result x = run_batch(w, from[w], k + 1, 180);
                if (x.o != OK) {
                    bh++;
                    bx = x;
                    if (opt.concurrent) break;
                } else if (!opt.concurrent) break;
            }
            if (bh >= (opt.concurrent ? 1 : 3)) {
                write_replay(opt.replay_out, "batch", ch, w, from[w], k + 1, bx);
                fin = bx;
                violation = true;
                return;
            }
        }
        unconfirmed++;
        unconf.push_back(r.msg + " " + r.err.substr(0, 1500));
        // the workers were stopped: each goes on after the case it was running
        for (int i = 0; i < W; i++) next[i] = slots[i]->cur + (i == w ? 1 : 0);
    };
    bool over = false;
    while (!over && !violation) {
        bool any = false;
        for (int w = 0; w < W && !violation; w++) {
            if (!pids[w]) {
                if (next[w] < per && now() < deadline && unconfirmed < 5) {
                    spawn(w);
                    any = true;
                }
                continue;
            }
            any = true;
            int st;
            pid_t p = waitpid(pids[w], &st, WNOHANG);
            Slot* s = slots[w];
            if (p == pids[w]) {
                pids[w] = 0;
                if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
                    next[w] = s->cur;
                    continue;
                }
                Result r;
                r.o = WIFEXITED(st) && WEXITSTATUS(st) == 77 ? FAILED : CRASHED;
                r.msg = r.o == FAILED ? s->msg : "the process died (" + describe_status(st) + ")";
                r.err = r.o == CRASHED ? slurp(errf(w), 6000) : "";
                handle(w, r);
                continue;
            }
            if (s->heartbeat != lasthb[w]) {
                lasthb[w] = s->heartbeat;
                hbtime[w] = now();
            } else if (now() - hbtime[w] > opt.hang) {
                kill(pids[w], SIGKILL);
                waitpid(pids[w], nullptr, 0);
                pids[w] = 0;
                Result r;
                r.o = HUNG;
                r.msg = "the case does not terminate";
                handle(w, r);
            }
        }
        if (!any) over = true;
        else usleep(1000);
    }
    kill_all();
    for (int w = 0; w < W; w++) unlink(errf(w).c_str());
    uint64_t ev = 0, disc = 0, nt = 0, draws = 0;
    std::vector<uint64_t> hs;
    std::map<std::string, uint64_t> labels;
    for (auto s : slots) {
        ev += s->evaluations;
        disc += s->discarded;
        nt += s->nontrivial;
        draws += s->draws;
        hs.insert(hs.end(), s->hashes, s->hashes + s->nhashes);
        for (uint64_t i = 0; i < s->nlabels; i++) labels[s->labels[i].name] += s->labels[i].n;
    }
    std::sort(hs.begin(), hs.end());
    hs.erase(std::unique(hs.begin(), hs.end()), hs.end());
    // samples: the first non-trivial cases, run again with a trace
    std::vector<std::string> samples;
    if (!violation)
        for (int w = 0; w < W && samples.size() < 3; w++)
            for (uint64_t i = 0; i < slots[w]->nfirst && i < 1 && samples.size() < 3; i++) {
                Slot* s = g_scratch ? g_scratch : (g_scratch = new_slot());
                s->notes[0] = s->msg[0] = 0;
                s->failed = 0;
                s->drawlen = 0;
                std::string ef = opt.tmp + "/s." + std::to_string(getpid()) + ".err";
                uint64_t k = slots[w]->first_nt[i];
                pid_t pid = fork();
                if (pid == 0) {
                    child_io(ef);
                    Src src;
                    init_src(src, s, w, k);
                    run_child(s, src, true);
                }
                Result r = wait_child(pid, s, ef, opt.hang);
                unlink(ef.c_str());
                std::string n = r.notes;
                if (n.size() > 1500) n = n.substr(0, 1500) + "...";
                samples.push_back("worker " + std::to_string(w) + " case " + std::to_string(k) + ": " + n);
            }
    FILE* f = fopen(opt.out.c_str(), "w");
    if (!f) {
        perror(opt.out.c_str());
        return 3;
    }
    fprintf(f, "{\"variant\":%s,\"evaluations\":%" PRIu64 ",\"discarded\":%" PRIu64 ",\"nontrivial\":%" PRIu64 ",\"draws\":%" PRIu64
               ",\"distinct_nontrivial\":%zu,\"shrink_attempts\":%" PRIu64 ",\"wall_s\":%.2f,\"rule\":%s,",
            json(opt.variant).c_str(), ev, disc, nt, draws, hs.size(), shrink_attempts, now() - t0, json(kRule).c_str());
    fprintf(f, "\"labels\":{");
    bool first = true;
    for (auto& l : labels) {
        fprintf(f, "%s%s:%" PRIu64, first ? "" : ",", json(l.first).c_str(), l.second);
        first = false;
    }
    fprintf(f, "},\"samples\":[");
    for (size_t i = 0; i < samples.size(); i++) fprintf(f, "%s%s", i ? "," : "", json(samples[i]).c_str());
    fprintf(f, "],\"unconfirmed\":[");
    for (size_t i = 0; i < unconf.size(); i++) fprintf(f, "%s%s", i ? "," : "", json(unconf[i]).c_str());
    fprintf(f, "],\"violation\":%s,\"failure\":%s,\"hashfile\":%s}\n", violation ? "true" : "false", json(fin.msg).c_str(), json(opt.out + ".hashes").c_str());
    fclose(f);
    if (FILE* h = fopen((opt.out + ".hashes").c_str(), "wb")) {
        fwrite(hs.data(), 8, hs.size(), h);
        fclose(h);
    }
    if (violation) {
        printf("failure: %s\n\ncase:\n%s\n%s\n", fin.msg.c_str(), fin.notes.substr(0, 6000).c_str(), fin.err.substr(0, 4000).c_str());
        return 1;
    }
    return 0;
}

}  // namespace pbt

#ifdef PBT_FUZZ
// Coverage-guided search over the same cases: the bytes are the draws.
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size) {
    using namespace pbt;
    static bool once = false;
    if (!once) {
        once = true;
        freopen("/dev/null", "w", stdout);
        property_setup();
    }
    Src src;
    src.mode = Src::BYTES;
    src.bytes = data;
    src.nbytes = size;
    Case c(src);
    run_case(c);
    if (c.failed) {
        fprintf(stderr, "PBT-FAIL: %s\n", c.msg.c_str());
        _exit(77);
    }
    return 0;
}
#else
int main(int argc, char** argv) {
    using namespace pbt;
    std::string bytesfile;
    for (int i = 1; i + 1 < argc; i += 2) {
        std::string a = argv[i], v = argv[i + 1];
        if (a == "--seed") opt.seed = strtoull(v.c_str(), nullptr, 10);
        else if (a == "--workers") opt.workers = atoi(v.c_str());
        else if (a == "--cases") opt.cases = strtoull(v.c_str(), nullptr, 10);
        else if (a == "--time") opt.time = atof(v.c_str());
        else if (a == "--shrink-time") opt.shrink_time = atof(v.c_str());
        else if (a == "--batch") opt.batch = strtoull(v.c_str(), nullptr, 10);
        else if (a == "--out") opt.out = v;
        else if (a == "--tmp") opt.tmp = v;
        else if (a == "--variant") opt.variant = v;
        else if (a == "--replay") opt.replay = v;
        else if (a == "--replay-out") opt.replay_out = v;
        else if (a == "--hang") opt.hang = atof(v.c_str());
        else if (a == "--concurrent") opt.concurrent = v == "1";
        else if (a == "--bytes") bytesfile = v;
        else {
            fprintf(stderr, "unknown option %s\n", a.c_str());
            return 3;
        }
    }
    signal(SIGPIPE, SIG_IGN);
    if (!bytesfile.empty()) {
        // turn a fuzzer input into a replay (the same draws, recorded)
        std::string b = slurp(bytesfile, 1 << 20);
        Slot* s = new_slot();
        std::string ef = opt.tmp + "/bytes.err";
        pid_t pid = fork();
        if (pid == 0) {
            child_io(ef);
            Src src;
            src.mode = Src::BYTES;
            src.bytes = (const uint8_t*)b.data();
            src.nbytes = b.size();
            src.out = s->drawbuf;
            src.outcap = kMaxDraws;
            src.outlen = &s->drawlen;
            run_child(s, src, true);
        }
        Result r = wait_child(pid, s, ef, opt.hang);
        unlink(ef.c_str());
        if (r.o == OK) return 0;
        uint64_t n = 0;
        int hit = 0;
        for (int i = 0; i < 3; i++) hit += run_choices(r.draws, false, opt.hang).o != OK;
        if (hit < 3) return 0;
        auto best = r.o == HUNG ? r.draws : shrink(r.draws, r.o, now() + opt.shrink_time, n);
        Result x = run_choices(best, true, opt.hang);
        write_replay(opt.replay_out, "choices", best, 0, 0, 0, x);
        printf("failure: %s\n\ncase:\n%s\n%s\n", x.msg.c_str(), x.notes.c_str(), x.err.c_str());
        return 1;
    }
    if (!opt.replay.empty()) return do_replay();
    return campaign();
}
#endif
