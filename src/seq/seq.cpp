// See seq.h. Modes: list [PROP] | run SUITE DEADLINE_S WORKERS OUT TIER | replay SUITE CHOICES TIER
#include "seq.h"
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
extern "C" {
int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*)) __attribute__((weak));
size_t __sanitizer_get_allocated_size(const volatile void*) __attribute__((weak));
const char* __asan_default_options()
{
    return "detect_leaks=0:allocator_may_return_null=0:max_allocation_size_mb=1200:detect_stack_use_after_return=0:abort_on_error=0:exitcode=86:quarantine_size_mb=8:malloc_context_size=3:symbolize=0:handle_abort=1:print_summary=1";
}
}

namespace seq {
std::vector<Suite>& suites()
{
    static std::vector<Suite> s;
    return s;
}

enum { MAXC = 8192,
    MAXW = 16,
    CLAIMS = 1 << 20,
    OUTB = 1 << 22 };
struct Slot {
    uint32_t n; // choices made so far in the running case
    uint16_t c[MAXC], r[MAXC];
    uint64_t cases, nodes, maxDepth;
    int state; // 0 running, 1 finished, 2 timed out, 3 failed
    char msg[4096];
    int nsamples;
    char samples[3][600];
};
struct Shm {
    std::atomic<uint8_t> claim[CLAIMS];
    std::atomic<uint8_t> out[OUTB / 8];
    std::atomic<int> stop;
    Slot w[MAXW];
};
static Shm* shm = 0;
static Slot* me = 0;
static int workers = 1;
static bool tierThorough = false, verb = false, partition = false;
static uint64_t obs = 0;
static std::string obsText;
static uint64_t subtree = 0;
static double product = 1;
static bool claimedHere = false, mine = false;
static std::vector<uint16_t> prefix; // choices to repeat
static uint64_t lastSubtreeIndex = 0;

static uint64_t grain = 400;
void split(uint64_t n) { grain = n; }
bool thorough() { return tierThorough; }
extern int hangTicks;
void mayTake(int seconds) { hangTicks = seconds; }
bool verbose() { return verb; }
struct Failure {
    std::string m;
};
void fail(const std::string& m) { throw Failure { m }; }
void note(const std::string& w)
{
    if (verb) {
        printf("  %s\n", w.c_str());
        fflush(stdout);
    }
}
void observe(const std::string& o)
{
    for (unsigned char c : o)
        obs = (obs ^ c) * 1099511628211ull;
    obs = (obs ^ 1) * 1099511628211ull;
    if (me && me->nsamples < 3 && obsText.size() < 500)
        obsText += o + "; ";
    if (verb)
        printf("  observed: %s\n", o.substr(0, 2000).c_str());
}

int pick(int n)
{
    if (n <= 0)
        fail("harness: empty choice");
    uint32_t i = me->n;
    if (i >= MAXC)
        fail("harness: too many choices");
    uint16_t c = i < prefix.size() ? prefix[i] : 0;
    if (c >= n)
        fail("harness: choice out of range");
    if (n == 1) {
        // no branching: still recorded so that replays line up
    }
    me->c[i] = c;
    me->r[i] = n;
    me->n = i + 1;
    if (partition && !claimedHere) {
        product *= n;
        if (product >= grain) {
            claimedHere = true;
            uint64_t k = subtree++;
            uint8_t z = 0;
            mine = shm->claim[k & (CLAIMS - 1)].compare_exchange_strong(z, 1) || k >= CLAIMS;
            lastSubtreeIndex = i;
            if (!mine)
                throw Skip();
        }
    }
    return c;
}

// ---- memory watch
static bool watching = false;
static size_t live = 0, peak = 0, base0 = 0, perByte = 0, inBytes = 0;
static bool hooksInstalled = false;
static void onMalloc(const volatile void*, size_t n)
{
    if (watching) {
        live += n;
        if (live > peak && (ptrdiff_t)live > 0)
            peak = live;
    }
}
static void onFree(const volatile void* p)
{
    if (watching && p && __sanitizer_get_allocated_size)
        live -= __sanitizer_get_allocated_size(p);
}
void input(size_t n) { inBytes += n; }
void watchMemory(size_t b, size_t per)
{
    if (!hooksInstalled && __sanitizer_install_malloc_and_free_hooks) {
        __sanitizer_install_malloc_and_free_hooks(onMalloc, onFree);
        hooksInstalled = true;
    }
    base0 = b;
    perByte = per;
    live = peak = 0;
    watching = true;
}

static double now()
{
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}

static uint64_t tickCase = 0, runs = 0;
static int ticks = 0;
int hangTicks = 10;
static void onTick(int)
{
    if (tickCase == runs)
        ++ticks;
    else {
        ticks = 0;
        tickCase = runs;
    }
    if (ticks >= hangTicks) {
        snprintf(me->msg, sizeof me->msg, "does not finish: the case ran for more than %d s of processor time", hangTicks);
        me->state = 3;
        shm->stop = 1;
        if (verb) {
            printf("REPLAY-RESULT violated: %s\n", me->msg);
            fflush(stdout);
        }
        _exit(3);
    }
}
static void timers()
{
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_handler = onTick;
    sigaction(SIGPROF, &sa, 0);
    itimerval it = { { 1, 0 }, { 1, 0 } };
    setitimer(ITIMER_PROF, &it, 0);
}

// runs one case; returns false when it violated
static bool runCase(const Suite& s, std::string& msg, bool& skipped)
{
    me->n = 0;
    ++runs;
    grain = 400;
    obs = 1469598103934665603ull;
    obsText.clear();
    product = 1;
    claimedHere = false;
    inBytes = 0;
    skipped = false;
    watching = false;
    bool ok = true;
    try {
        s.fn();
    } catch (const Skip&) {
        skipped = true;
    } catch (const Failure& f) {
        msg = f.m;
        ok = false;
    } catch (const std::exception& e) {
        msg = std::string("unexpected exception: ") + e.what();
        ok = false;
    } catch (...) {
        msg = "unexpected exception";
        ok = false;
    }
    watching = false;
    if (ok && !skipped && base0 && peak > base0 + perByte * inBytes) {
        msg = "used " + std::to_string(peak) + " bytes of memory for " + std::to_string(inBytes) + " bytes of input";
        ok = false;
    }
    if (ok && !skipped) {
        shm->out[(obs % OUTB) / 8] |= 1 << (obs % 8);
    }
    base0 = 0;
    return ok;
}

// next choice sequence in depth-first order; false at the end
static bool advance()
{
    prefix.assign(me->c, me->c + me->n);
    while (!prefix.empty()) {
        size_t i = prefix.size() - 1;
        if (prefix[i] + 1 < me->r[i]) {
            ++prefix[i];
            return true;
        }
        prefix.pop_back();
    }
    return false;
}

static void worker(const Suite& s, double deadline)
{
    timers();
    std::string msg;
    prefix.clear();
    partition = workers > 1;
    bool owned = false; // the running subtree belongs to us
    size_t ownedLen = 0;
    (void)ownedLen;
    for (;;) {
        bool skipped;
        // inside an owned subtree the claim is not repeated
        bool inSub = owned;
        if (inSub)
            partition = false;
        else
            partition = workers > 1;
        bool ok = runCase(s, msg, skipped);
        if (!inSub && workers > 1) {
            if (claimedHere && mine) {
                owned = true;
                ownedLen = lastSubtreeIndex + 1;
            } else if (!claimedHere) {
                // a case that ends before any subtree begins: worker by index
                uint64_t k = subtree++;
                uint8_t z = 0;
                if (!(k < CLAIMS && shm->claim[k].compare_exchange_strong(z, 1)))
                    skipped = true, ok = true;
            }
        }
        if (!ok) {
            snprintf(me->msg, sizeof me->msg, "%s", msg.c_str());
            me->state = 3;
            shm->stop = 1;
            _exit(3);
        }
        if (!skipped) {
            ++me->cases;
            if (me->n > me->maxDepth)
                me->maxDepth = me->n;
            if (me->nsamples < 3 && (me->nsamples == 0 || (me->cases & 255) == 0))
                snprintf(me->samples[me->nsamples++], 600, "%s", obsText.c_str());
        }
        size_t before = me->n;
        bool more = advance();
        me->nodes += before >= prefix.size() ? before - prefix.size() + 1 : 1;
        if (!more) {
            me->state = 1;
            _exit(0);
        }
        if (owned && prefix.size() <= ownedLen)
            owned = false; // left the subtree
        if (shm->stop) {
            me->state = 2;
            _exit(0);
        }
        if ((me->cases & 63) == 0 || skipped)
            if (deadline > 0 && now() > deadline) {
                me->state = 2;
                _exit(0);
            }
    }
}

static std::string esc(const std::string& s)
{
    std::string r;
    for (char c : s) {
        if (c == '\n')
            r += "\\n";
        else if (c == '"' || c == '\\') {
            r += '\\';
            r += c;
        } else if ((unsigned char)c < 32 || (unsigned char)c > 126)
            r += '.';
        else
            r += c;
    }
    return r;
}
}
using namespace seq;

int main(int argc, char** argv)
{
    std::string mode = argc > 1 ? argv[1] : "";
    if (mode == "list") {
        for (auto& s : suites())
            if (argc < 3 || std::string(argv[2]) == s.prop)
                printf("%s %s\n", s.prop, s.name);
        return 0;
    }
    const Suite* s = 0;
    for (auto& x : suites())
        if (argc > 2 && std::string(argv[2]) == x.name)
            s = &x;
    if (!s) {
        fprintf(stderr, "no such suite\n");
        return 2;
    }
    shm = (Shm*)mmap(0, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (mode == "replay" && argc >= 4) {
        tierThorough = argc > 4 && std::string(argv[4]) == "thorough";
        me = &shm->w[0];
        verb = true;
        hangTicks = 20;
        timers();
        const char* p = argv[3];
        while (*p && *p != '-') {
            prefix.push_back(strtoul(p, (char**)&p, 10));
            if (*p == ',')
                ++p;
        }
        std::string msg;
        bool sk;
        if (!runCase(*s, msg, sk)) {
            printf("REPLAY-RESULT violated: %s\n", msg.c_str());
            return 3;
        }
        printf("REPLAY-RESULT passed\n");
        return 0;
    }
    if (mode != "run" || argc < 6)
        return 2;
    double budget = atof(argv[3]);
    workers = atoi(argv[4]);
    std::string out = argv[5];
    tierThorough = argc > 6 && std::string(argv[6]) == "thorough";
    double t0 = now();
    pid_t pids[MAXW];
    for (int w = 0; w < workers; ++w) {
        pids[w] = fork();
        if (!pids[w]) {
            me = &shm->w[w];
            worker(*s, budget > 0 ? t0 + budget : 0);
        }
    }
    std::string msg, choices;
    bool violated = false, timedOut = false, internal = false;
    for (int k = 0; k < workers; ++k) {
        int st = 0;
        pid_t p = wait(&st);
        int w = 0;
        for (int i = 0; i < workers; ++i)
            if (pids[i] == p)
                w = i;
        Slot& sl = shm->w[w];
        bool bad = sl.state == 3 || sl.state == 0;
        if (bad && !violated) {
            violated = true;
            shm->stop = 1;
            msg = sl.state == 3 ? sl.msg : "the process crashed (" + std::string(WIFSIGNALED(st) ? strsignal(WTERMSIG(st)) : "sanitizer report") + ")";
            for (uint32_t i = 0; i < sl.n; ++i)
                choices += (i ? "," : "") + std::to_string(sl.c[i]);
            if (choices.empty())
                choices = "-";
            if (msg.compare(0, 8, "harness:") == 0)
                internal = true;
        }
        if (sl.state == 2)
            timedOut = true;
    }
    uint64_t cases = 0, nodes = 0, depth = 0, outc = 0;
    for (int w = 0; w < workers; ++w) {
        cases += shm->w[w].cases;
        nodes += shm->w[w].nodes;
        depth = std::max(depth, shm->w[w].maxDepth);
    }
    for (auto& b : shm->out)
        outc += __builtin_popcount(b.load());
    FILE* f = fopen(out.c_str(), "w");
    fprintf(f, "{\"result\":\"%s\",\"executions\":%lu,\"tree_nodes\":%lu,\"max_choice_points\":%lu,\"completed\":%s,\"outcomes\":%lu,\"message\":\"%s\",\"devs\":\"%s\",\"wall\":%.2f,\"samples\":[", internal ? "internal" : violated ? "violated" : "ok", cases, nodes, depth, timedOut && !violated ? "false" : "true", outc, esc(msg).c_str(), choices.c_str(), now() - t0);
    int n = 0;
    for (int w = 0; w < workers && n < 3; ++w)
        for (int i = 0; i < shm->w[w].nsamples && n < 3; ++i)
            if (shm->w[w].samples[i][0])
                fprintf(f, "%s\"%s\"", n++ ? "," : "", esc(shm->w[w].samples[i]).c_str());
    fprintf(f, "]}\n");
    fclose(f);
    return internal ? 4 : violated ? 3 : 0;
}
