// Controlled cooperative scheduler + fake kernel + stateless explorer.
// Runs the real code (repo sources, Boost.Asio, Boost.Thread) as fibers in one OS thread: every pthread_* call and
// every system call the code makes on its connection arrives here by link-time interposition.
#include "engine.h"
#include "vt.h"
#include <algorithm>
#include <cerrno>
#include <elf.h>
#include <link.h>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <deque>
#include <dlfcn.h>
#include <fcntl.h>
#include <map>
#include <memory>
#include <new>
#include <poll.h>
#include <pthread.h>
#include <set>
#include <stdexcept>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <linux/futex.h>
#include <mutex>
#include <semaphore.h>
#include <cstdarg>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/timerfd.h>
#include <sys/uio.h>
#include <sys/un.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>

extern "C" char __libc_single_threaded;

namespace eng {

// ------------------------------------------------------------------ globals
Fiber* cur = 0;
// system calls of the engine itself (syscall() is interposed below)
static long rawCall(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0)
{
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    long r;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    if (r < 0 && r > -4096) {
        errno = -r;
        return -1;
    }
    return r;
}
template <class... A>
static long rawSyscall(long n, A... a) { return rawCall(n, (long)a...); }
int engDepth = 0;
bool running = false;

static Fiber fibers[MAXF];
static int nf = 0;
static void* explorerSp = 0;
static const size_t STACK = 1 << 20;
static bool verboseOn = false;
static std::vector<std::string>* traceLog = 0;
static vt::KernelCfg cfg_;
static long stepCount = 0;
static long lastStep = -1; // stepCount when the CPU time was last looked at

struct Choice {
    uint16_t n, chosen;
    uint8_t cost;
    uint32_t tag;
};
struct Dev {
    uint32_t pos;
    uint16_t alt;
    uint16_t n;
    uint8_t cost;
    uint32_t tag;
};
// choice log of the current execution, in memory shared with the child of an isolated execution
struct Log {
    enum { CAP = 1 << 21 };
    volatile uint64_t obsHash;
    volatile long steps;
    size_t n;
    char text[700];
    Choice c[CAP];
    size_t size() const { return n; }
    void clear() { n = 0; }
    Choice& operator[](size_t i) { return c[i]; }
    void push_back(const Choice& x);
};
static Log* clog_ = 0;
static std::vector<Dev>* replay = 0;
static size_t replayAt = 0;
static uint64_t obsHash;
static std::string* obsText = 0;
static vt::Driver* curDriver = 0;

// shared with the parent process
struct Shm {
    volatile long execs, nodes, steps, maxPoints, maxSteps, progress;
    volatile int boundDone, violated, internal, timedOut, curBound;
    char msg[16384];
    char devs[8192];
};
static Shm* shm = 0;
// race build: program points of racing accesses, shared by all workers
struct RaceShm {
    volatile int n, lock, truncated;
    uintptr_t pc[256];
    char what[256][400];
};
static RaceShm* raceShm = 0;
static std::vector<uintptr_t>* frozen = 0; // the ones that are scheduling points now
static bool replayMode = false;
static int workerId = 0, workers = 1;

static uint32_t tagOf(const char* s)
{
    uint32_t h = 2166136261u;
    while (*s)
        h = (h ^ (uint8_t)*s++) * 16777619u;
    return h;
}

// "pc;pc;...;position:alternative,position:alternative,..."
static std::string devString()
{
    std::string s, c;
    if (frozen)
        for (uintptr_t p : *frozen) {
            char b[32];
            snprintf(b, sizeof b, "%lx;", (unsigned long)p);
            s += b;
        }
    for (size_t i = 0; i < clog_->size(); ++i)
        if ((*clog_)[i].chosen) {
            if (!c.empty())
                c += ",";
            c += std::to_string(i) + ":" + std::to_string((*clog_)[i].chosen);
        }
    return s + (c.empty() ? "-" : c);
}

static void rawWrite(int fd, const std::string& s)
{
    size_t o = 0;
    while (o < s.size()) {
        long n = rawSyscall(SYS_write, fd, s.data() + o, s.size() - o);
        if (n <= 0)
            break;
        o += n;
    }
}

static void dumpTrace()
{
    if (!traceLog)
        return;
    for (auto& t : *traceLog)
        rawWrite(1, t + "\n");
}

std::string fiberName(int id) { return fibers[id].name.empty() ? std::to_string(id) : fibers[id].name; }

static std::string where()
{
    std::string s;
    for (int i = 0; i < nf; ++i) {
        Fiber& f = fibers[i];
        if (!f.used || f.finished)
            continue;
        s += "\n    thread " + fiberName(i) + (cur == &f ? " (running)" : f.waiting ? std::string(" waits in ") + f.what : std::string(" ready at ") + f.what);
        std::string st = raceStack(&f);
        if (!st.empty())
            s += st;
    }
    return s;
}

[[noreturn]] void failImpl(const std::string& m)
{
    ++engDepth;
    running = false;
    std::string text = m + where();
    if (shm) {
        snprintf(shm->msg, sizeof shm->msg, "%s", text.c_str());
        snprintf(shm->devs, sizeof shm->devs, "%s", devString().c_str());
        shm->violated = 1;
    }
    if (replayMode) {
        dumpTrace();
        rawWrite(1, "REPLAY-RESULT violated\n" + text + "\n");
    }
    _exit(3);
}

void Log::push_back(const Choice& x)
{
    if (n >= CAP)
        failImpl("livelock: more than " + std::to_string(n) + " choice points in one execution");
    c[n++] = x;
}

[[noreturn]] static void internalError(const std::string& m)
{
    running = false;
    if (shm) {
        snprintf(shm->msg, sizeof shm->msg, "internal error: %s", m.c_str());
        snprintf(shm->devs, sizeof shm->devs, "%s", clog_ ? devString().c_str() : "");
        shm->internal = 1;
    }
    dumpTrace();
    rawWrite(2, "internal error: " + m + "\n");
    _exit(4);
}

bool racePointPc(void* pc)
{
    if (frozen)
        for (uintptr_t p : *frozen)
            if (p == (uintptr_t)pc)
                return true;
    return false;
}
static void notePc(void* p, const char* msg)
{
    if (!raceShm || racePointPc(p))
        return;
    Guard g;
    while (__atomic_exchange_n(&raceShm->lock, 1, __ATOMIC_ACQUIRE))
        rawSyscall(SYS_sched_yield);
    bool known = false;
    for (int i = 0; i < raceShm->n; ++i)
        known |= raceShm->pc[i] == (uintptr_t)p;
    if (!known) {
        if (raceShm->n < 256) {
            raceShm->pc[raceShm->n] = (uintptr_t)p;
            snprintf(raceShm->what[raceShm->n], 400, "%s", msg);
            raceShm->n = raceShm->n + 1;
        } else
            raceShm->truncated = 1;
    }
    __atomic_store_n(&raceShm->lock, 0, __ATOMIC_RELEASE);
}
void raceNote(void* pc) { notePc(pc, "atomic"); }
void raceFound(uintptr_t, void* a, void* b, const std::string& msg)
{
    if (curDriver->flags & vt::F_RACEFAIL)
        failImpl(msg);
    notePc(a, msg.c_str());
    notePc(b, msg.c_str());
}

static int chooseImpl(int n, int cost, const char* what)
{
    if (n <= 1)
        return 0;
    uint32_t tag = tagOf(what);
    size_t pos = clog_->size();
    int c = 0;
    if (replayAt < replay->size() && (*replay)[replayAt].pos == pos) {
        const Dev& d = (*replay)[replayAt++];
        if (d.alt >= n || (d.n && (d.n != n || d.tag != tag)))
            internalError(std::string("divergence while replaying at ") + what + " pos " + std::to_string(pos) + " n " + std::to_string(n) + " recorded n " + std::to_string(d.n));
        c = d.alt;
    }
    clog_->push_back({ (uint16_t)n, (uint16_t)c, (uint8_t)cost, tag });
    if (verboseOn && (c || cost == 0))
        vt::trace("choice #" + std::to_string(pos) + " " + what + " -> " + std::to_string(c) + "/" + std::to_string(n));
    return c;
}

// ------------------------------------------------------------------ fibers
extern "C" void vt_switch(void** save, void* load);
asm(R"(
.text
.globl vt_switch
.type vt_switch,@function
vt_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp,(%rdi)
    movq %rsi,%rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size vt_switch,.-vt_switch
)");

struct Kill { };

// thread_local variables of the program under test belong to fibers, although these share one kernel thread
static char *tlsBase = 0, *tlsInit = 0, *tlsExplorer = 0;
static size_t tlsSize = 0;
static int findTls(struct dl_phdr_info* i, size_t, void*)
{
    for (int k = 0; k < i->dlpi_phnum; ++k)
        if (i->dlpi_phdr[k].p_type == PT_TLS && i->dlpi_tls_data && i->dlpi_phdr[k].p_memsz) {
            tlsSize = i->dlpi_phdr[k].p_memsz;
            tlsBase = (char*)i->dlpi_tls_data;
            tlsInit = (char*)calloc(1, tlsSize);
            tlsExplorer = (char*)calloc(1, tlsSize);
            memcpy(tlsInit, (char*)i->dlpi_addr + i->dlpi_phdr[k].p_vaddr, i->dlpi_phdr[k].p_filesz);
        }
    return 1; // the first entry is the program
}
void tlsRange(char*& base, size_t& size)
{
    base = tlsBase;
    size = tlsSize;
}
static void switchTls(Fiber* from, Fiber* to)
{
    memcpy(from ? from->native : tlsExplorer, tlsBase, tlsSize);
    memcpy(tlsBase, to ? to->native : tlsExplorer, tlsSize);
}

static void switchTo(Fiber* f)
{
    Fiber* me = cur;
    void** save = me ? &me->sp : &explorerSp;
    void** g = (void**)abi::__cxa_get_globals();
    if (me) {
        me->eh[0] = g[0];
        me->eh[1] = g[1];
        me->err = errno;
        me->once = std::__once_callable;
        me->onceCall = std::__once_call;
        me->engDepth = engDepth;
    }
    if (tlsSize)
        switchTls(me, f);
    cur = f;
    if (f) {
        g[0] = f->eh[0];
        g[1] = f->eh[1];
        errno = f->err;
        std::__once_callable = f->once;
        std::__once_call = f->onceCall;
        engDepth = f->engDepth;
    } else {
        g[0] = g[1] = 0;
        engDepth = 1;
    }
    vt_switch(save, f ? f->sp : explorerSp);
    // back again (cur was set by whoever switched to us)
}

static bool isReady(Fiber& f)
{
    if (!f.used || f.finished)
        return false;
    if (!f.waiting)
        return true;
    if (f.idleWait)
        return false;
    return f.pred && f.pred();
}

static void finishExecution() { switchTo(0); }

struct TimerFd;
static bool fireTimer(double before);
struct Futex {
    const int* a;
    int fiber;
    bool woken;
};
static std::vector<Futex*>* futexes = 0;

// virtual time, in seconds since the start of the execution: it passes only when nothing else can happen
static double vclock;
static const long MONO = 1000000, REAL = 1800000000;
// deadlines of the code under test, given on either clock
static double toVirtual(const struct timespec* ts)
{
    return (double)(ts->tv_sec - (ts->tv_sec > REAL / 2 ? REAL : MONO)) + ts->tv_nsec * 1e-9;
}

// picks the next fiber. selfReady: the caller could go on itself
static void schedule(bool selfReady, const char* what)
{
    if (++stepCount > cfg_.horizon)
        failImpl("livelock: no progress after " + std::to_string(cfg_.horizon) + " scheduling steps");
    Fiber* cand[MAXF];
    int n = 0;
    int me = cur ? cur->id : -1;
    for (;;) {
        n = 0;
        bool selfLast = selfReady && cur->yielded;
        if (selfReady && !selfLast && !cur->env)
            cand[n++] = cur;
        for (int pass = 0; pass < 2; ++pass) {
            if (pass == 1 && selfReady && !selfLast && cur->env)
                cand[n++] = cur;
            for (int k = 1; k <= nf; ++k) {
                Fiber& f = fibers[(me + k + nf) % nf];
                if ((&f == cur && selfReady) || (int)f.env != pass)
                    continue;
                if (isReady(f))
                    cand[n++] = &f;
            }
        }
        if (selfReady && selfLast)
            cand[n++] = cur;
        if (n)
            break;
        // quiescent: idle waiters first, then time passes
        for (int i = 0; i < nf && !n; ++i)
            if (fibers[i].used && !fibers[i].finished && fibers[i].waiting && fibers[i].idleWait) {
                fibers[i].idleWait = false;
                fibers[i].pred = [] { return true; };
                cand[n++] = &fibers[i];
            }
        if (n)
            break;
        Fiber* t = 0;
        for (int i = 0; i < nf; ++i)
            if (fibers[i].used && !fibers[i].finished && fibers[i].waiting && fibers[i].timed && (!t || fibers[i].deadline < t->deadline))
                t = &fibers[i];
        // timers fire in order with the timeouts
        if (fireTimer(t ? t->deadline : 1e30))
            continue;
        if (t) {
            vclock = std::max(vclock, t->deadline);
            t->timedOut = true;
            t->timed = false;
            t->pred = [] { return true; };
            if (verboseOn)
                vt::trace("time passes: timeout in thread " + fiberName(t->id));
            continue;
        }
        // nothing can ever run again
        bool normalLeft = false;
        for (int i = 0; i < nf; ++i)
            if (fibers[i].used && !fibers[i].finished && !fibers[i].env)
                normalLeft = true;
        if (normalLeft)
            failImpl("deadlock: no thread can run");
        return; // only environment actors left
    }
    if (selfReady)
        cur->yielded = false;
    int c = n > 1 ? chooseImpl(n, 1, selfReady ? what : "blocked") : 0;
    if (cand[c] != cur) {
        if (verboseOn)
            vt::trace("  -> thread " + fiberName(cand[c]->id));
        switchTo(cand[c]);
    }
}

void pointImpl(const char* what)
{
    if (!running || !cur)
        return;
    Guard g;
    if (cur->killed)
        return;
    cur->what = what;
    if (verboseOn)
        vt::trace("[" + fiberName(cur->id) + "] " + what);
    schedule(true, what);
}

static void block(const std::function<bool()>& pred, const char* what, bool timed = false, double deadline = 0, bool idleWait = false)
{
    Guard g;
    Fiber* me = cur;
    if (me->killed)
        throw Kill();
    if (!idleWait && pred && pred())
        return;
    me->waiting = true;
    me->pred = pred;
    me->what = what;
    me->timed = timed;
    me->timedOut = false;
    me->deadline = deadline;
    me->idleWait = idleWait;
    if (verboseOn)
        vt::trace("[" + fiberName(me->id) + "] blocks in " + what);
    for (;;) {
        schedule(false, what);
        // the only way schedule() can return to a blocked fiber without switching is when its own predicate became
        // true (idle/timeouts) or at the end of the execution
        if (me->killed) {
            me->waiting = false;
            throw Kill();
        }
        if (me->pred && me->pred())
            break;
        if (cur != me)
            internalError("scheduler confusion");
        // execution over while an environment actor waits
        finishExecution();
    }
    me->waiting = false;
    me->timed = false;
    me->pred = nullptr;
}

static void runTlsDtors(Fiber* f);

static void fiberMain()
{
    Fiber* f = cur;
    engDepth = 0;
    try {
        if (f->proc)
            f->ret = f->proc(f->arg);
        else
            f->body();
        runTlsDtors(f);
    } catch (Kill&) {
    } catch (abi::__forced_unwind&) {
        throw;
    } catch (const std::exception& e) {
        failImpl(std::string("uncaught exception left thread ") + fiberName(f->id) + ": " + e.what());
    } catch (...) {
        failImpl("uncaught exception left thread " + fiberName(f->id));
    }
    ++engDepth;
    f->finished = true;
    if (f->killed)
        finishExecution();
    if (verboseOn)
        vt::trace("[" + fiberName(f->id) + "] finishes");
    if (f->id == 0) {
        // main returned: all application/library threads must be gone or able to finish by themselves
    }
    schedule(false, "exit");
    finishExecution();
    abort();
}

static Fiber* newFiber(const std::string& name, bool env)
{
    if (nf >= MAXF)
        internalError("too many threads");
    int id = nf;
    Fiber& f = fibers[id];
    char *st = f.stack, *native = f.native;
    f = Fiber();
    f.stack = st;
    f.native = native;
    if (tlsSize) {
        if (!native)
            f.native = (char*)malloc(tlsSize);
        memcpy(f.native, tlsInit, tlsSize);
    }
    f.id = id;
    f.used = true;
    f.env = env;
    f.name = name;
    memset(f.tls, 0, sizeof f.tls);
    if (!f.stack) {
        f.stack = (char*)mmap(0, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        mprotect(f.stack, 4096, PROT_NONE);
    }
    uintptr_t top = (uintptr_t)(f.stack + STACK);
    top &= ~15ul;
    void** s = (void**)top;
    *--s = 0; // fake return address; keeps rsp%16==8 at entry
    *--s = (void*)&fiberMain;
    for (int i = 0; i < 6; ++i)
        *--s = 0;
    f.sp = s;
    ++nf;
    raceFork(cur ? cur->id : -1, id);
    return &f;
}

// ------------------------------------------------------------------ memory
struct Hdr {
    void* base;
    uint64_t size;
    uint64_t magic;
    uint64_t kind; // 1 = allocated by code under exploration
};
static const uint64_t LIVE = 0x4c49564556544d31ull, DEAD = 0x4445414456544d31ull;
static void** quar = 0;
static size_t quarN = 0, quarCap = 0, quarHead = 0, quarBytes = 0;
static const size_t QUARLIMIT = 256ull << 20; // bytes kept in quarantine; beyond that the oldest blocks leave
static long liveBlocks = 0;
static size_t allocated = 0; // bytes allocated and not freed in this execution
static size_t MEMLIMIT = 1ull << 30;

// blocks of more than 1 MiB are poisoned at their ends only
static const size_t HUGE_BLOCK = 1 << 20, ENDS = 65536;
static void poison(void* p, int c, size_t n)
{
    if (n <= HUGE_BLOCK)
        memset(p, c, n);
    else {
        memset(p, c, ENDS);
        memset((char*)p + n - ENDS, c, ENDS);
    }
}
static void* vtAlloc(size_t n, size_t align)
{
    if (running && cur && engDepth == 0) {
        allocated += n;
        if (allocated > MEMLIMIT && allocated - n <= MEMLIMIT)
            failImpl("memory: more than " + std::to_string(MEMLIMIT >> 20) + " MiB in use (the last request was for " + std::to_string(n) + " bytes)");
    }
    char* base = (char*)malloc(n + sizeof(Hdr) + align);
    if (!base)
        throw std::bad_alloc();
    uintptr_t p = (uintptr_t)base + sizeof(Hdr);
    p = (p + align - 1) / align * align;
    Hdr* h = (Hdr*)p - 1;
    h->base = base;
    h->size = n;
    h->magic = LIVE;
    h->kind = (running && cur && engDepth == 0) ? 1 : 0;
    if (h->kind) {
        Guard g;
        poison((void*)p, 0xCD, n);
        ++liveBlocks;
        raceAlloc((void*)p, n);
    }
    return (void*)p;
}
// the end of a block's quarantine
static void releaseBlock(void* q)
{
    uint8_t* p = (uint8_t*)q;
    Hdr* h = (Hdr*)p - 1;
    for (size_t k = 0; k < h->size; k = h->size > HUGE_BLOCK && k == ENDS - 1 ? h->size - ENDS : k + 1)
        if (p[k] != 0xDB) {
            cur = 0;
            failImpl("write to freed memory (block of " + std::to_string(h->size) + " bytes, offset " + std::to_string(k) + ")");
        }
    free(h->base);
}
static void vtFree(void* p)
{
    if (!p)
        return;
    Hdr* h = (Hdr*)p - 1;
    if (h->magic == DEAD)
        failImpl("double free of a block of " + std::to_string(h->size) + " bytes");
    if (h->magic != LIVE) {
        if (running && cur)
            failImpl("free of a pointer that was not allocated (or heap corruption)");
        return;
    }
    if (h->kind == 0) {
        h->magic = 0;
        free(h->base);
        return;
    }
    Guard g;
    --liveBlocks;
    h->magic = DEAD;
    raceFree(p, h->size);
    poison(p, 0xDB, h->size);
    if (!running) { // outside executions: nothing can hold on to it any more
        free(h->base);
        return;
    }
    if (quarN == quarCap) {
        quarCap = quarCap ? quarCap * 2 : 4096;
        quar = (void**)realloc(quar, quarCap * sizeof(void*));
    }
    quar[quarN++] = p;
    allocated -= std::min(allocated, (size_t)h->size);
    quarBytes += h->size + 64;
    while (quarBytes > QUARLIMIT && quarHead < quarN) {
        quarBytes -= ((Hdr*)quar[quarHead] - 1)->size + 64;
        releaseBlock(quar[quarHead++]);
    }
}
static void drainQuarantine()
{
    for (; quarHead < quarN; ++quarHead)
        releaseBlock(quar[quarHead]);
    quarN = quarHead = quarBytes = 0;
}

// ------------------------------------------------------------------ fake kernel
static const int BASE = 10000;

struct Obj {
    int type = 0; // 1 socket 2 epoll 3 eventfd 4 timerfd
    bool open = true;
    bool nonblock = false;
    // socket
    size_t txGone = 0; // bytes written that are not kept
    bool connected = false, rxEof = false, rxReset = false, rxShut = false, txShut = false, txBlocked = false, peerClosed = false;
    std::string rx, tx;
    size_t rxPos = 0;
    std::string addr;
    // eventfd / timerfd
    uint64_t counter = 0;
    bool armed = false;
    double due = 0; // timerfd: when it expires, in virtual time
    // epoll
    struct Item {
        int fd;
        uint32_t events;
        epoll_data_t data;
        bool ready;
    };
    std::vector<Item> items;
};
static std::vector<Obj>* objs = 0;
static std::vector<int>* conns = 0;

static Obj* obj(int fd)
{
    if (fd < BASE || !objs)
        return 0;
    size_t i = fd - BASE;
    if (i >= objs->size())
        return 0;
    return &(*objs)[i];
}
static int newObj(int type)
{
    Guard g;
    // descriptors are reused lowest-first, as the kernel does
    for (size_t i = 0; i < objs->size(); ++i)
        if (!(*objs)[i].open) {
            bool isConn = false;
            for (int c : *conns)
                isConn |= c == (int)i;
            if (isConn)
                continue; // keep for inspection
            (*objs)[i] = Obj();
            (*objs)[i].type = type;
            return BASE + i;
        }
    objs->push_back(Obj());
    objs->back().type = type;
    return BASE + objs->size() - 1;
}
static uint32_t level(Obj& o)
{
    uint32_t e = 0;
    switch (o.type) {
    case 1:
        if (!o.connected)
            return EPOLLOUT | EPOLLHUP;
        if (o.rxPos < o.rx.size() || o.rxEof || o.rxShut || o.rxReset || o.peerClosed)
            e |= EPOLLIN | EPOLLRDNORM;
        if (o.rxEof || o.rxShut || o.peerClosed)
            e |= EPOLLRDHUP;
        if (!o.txBlocked || o.txShut || o.peerClosed)
            e |= EPOLLOUT | EPOLLWRNORM;
        if (((o.rxShut || o.rxEof) && o.txShut) || o.peerClosed)
            e |= EPOLLHUP;
        if (o.rxReset)
            e |= EPOLLERR;
        return e;
    case 3:
        return (o.counter ? (uint32_t)EPOLLIN : 0u) | EPOLLOUT;
    case 4:
        return o.counter ? (uint32_t)EPOLLIN : 0u;
    }
    return 0;
}
static void edge(int fd)
{
    for (auto& o : *objs)
        if (o.type == 2 && o.open)
            for (auto& it : o.items)
                if (it.fd == fd)
                    it.ready = true;
}
static bool epReady(Obj& ep)
{
    for (auto& it : ep.items) {
        if (!it.ready)
            continue;
        Obj* o = obj(it.fd);
        if (o && o->open && (level(*o) & (it.events | EPOLLERR | EPOLLHUP)))
            return true;
    }
    return false;
}
static bool fireTimer(double before)
{
    int first = -1;
    for (size_t i = 0; i < objs->size(); ++i) {
        Obj& o = (*objs)[i];
        if (o.type == 4 && o.open && o.armed && o.due <= before && (first < 0 || o.due < (*objs)[first].due))
            first = i;
    }
    if (first < 0)
        return false;
    Obj& o = (*objs)[first];
    vclock = std::max(vclock, o.due);
    o.armed = false;
    o.counter = 1;
    edge(BASE + first);
    if (verboseOn)
        vt::trace("time passes: timerfd expires");
    return true;
}

// a signal arrives during a system call
static bool interrupted()
{
    if (!cfg_.interrupts || chooseImpl(2, 1, "interrupted") == 0)
        return false;
    if (verboseOn)
        vt::trace("[" + fiberName(cur->id) + "] interrupted by a signal");
    errno = EINTR;
    return true;
}

static ssize_t doRecv(int fd, const struct iovec* iov, int cnt, int flags, bool dontwait)
{
    pointImpl("recv");
    Guard g;
    Obj* o = obj(fd);
    if (!o->open) {
        errno = EBADF;
        return -1;
    }
    if (interrupted())
        return -1;
    size_t want = 0;
    for (int i = 0; i < cnt; ++i)
        want += iov[i].iov_len;
    for (;;) {
        size_t have = o->rx.size() - o->rxPos;
        if (have) {
            size_t n = std::min(have, want);
            if (cfg_.shortReads && n > 1) {
                int c = chooseImpl(n > 2 ? 3 : 2, 1, "recv size");
                if (c == 1)
                    n = 1;
                else if (c == 2)
                    n = n / 2;
            }
            size_t left = n;
            for (int i = 0; i < cnt && left; ++i) {
                size_t k = std::min(left, iov[i].iov_len);
                memcpy(iov[i].iov_base, o->rx.data() + o->rxPos, k);
                if (!(flags & MSG_PEEK))
                    o->rxPos += k;
                left -= k;
            }
            if (verboseOn)
                vt::trace("[" + fiberName(cur->id) + "] recv " + std::to_string(n) + " bytes");
            return n;
        }
        if (o->rxReset) {
            errno = ECONNRESET;
            return -1;
        }
        if (o->rxEof || o->rxShut || o->peerClosed) // what had arrived before is still readable
            return 0;
        if (o->nonblock || dontwait) {
            errno = EAGAIN;
            return -1;
        }
        block([o] { return o->rxPos < o->rx.size() || o->rxEof || o->rxShut || o->rxReset || o->peerClosed; }, "recv");
    }
}
static ssize_t doSend(int fd, const struct iovec* iov, int cnt, int flags, bool sock)
{
    pointImpl("send");
    Guard g;
    Obj* o = obj(fd);
    if (!o->open) {
        errno = EBADF;
        return -1;
    }
    if (interrupted())
        return -1;
    std::string all;
    for (int i = 0; i < cnt; ++i)
        all.append((const char*)iov[i].iov_base, iov[i].iov_len);
    for (;;) {
        if (!o->connected) {
            errno = ENOTCONN;
            return -1;
        }
        if (o->txShut || o->peerClosed) {
            if (!sock || !(flags & MSG_NOSIGNAL))
                failImpl("SIGPIPE: write without MSG_NOSIGNAL to a closed connection");
            errno = EPIPE;
            return -1;
        }
        if (!o->txBlocked) {
            size_t n = all.size();
            bool blockNow = false;
            if (cfg_.blockAfter >= 0) {
                size_t room = o->tx.size() < (size_t)cfg_.blockAfter ? cfg_.blockAfter - o->tx.size() : 0;
                if (room < n) {
                    n = room;
                    blockNow = true;
                }
            }
            if (cfg_.shortWrites && n) {
                int c = chooseImpl(n > 2 ? 4 : n > 1 ? 3 : 2, 1, "send size");
                if (c == 1) {
                    n = 0;
                    blockNow = true;
                } else if (c == 2) {
                    n = 1;
                    blockNow = true;
                } else if (c == 3) {
                    n = n / 2;
                    blockNow = true;
                }
            }
            if (cfg_.sink)
                o->txGone += n;
            else
                o->tx.append(all, 0, n);
            if (blockNow)
                o->txBlocked = true;
            if (verboseOn)
                vt::trace("[" + fiberName(cur->id) + "] send " + std::to_string(n) + "/" + std::to_string(all.size()) + " bytes");
            if (n || all.empty())
                return n;
        }
        if (o->nonblock || (flags & MSG_DONTWAIT)) {
            errno = EAGAIN;
            return -1;
        }
        block([o] { return !o->txBlocked || o->txShut || o->peerClosed; }, "send");
    }
}

static void drainer()
{
    // environment actor: the peer reads, so a full socket buffer empties again
    for (;;) {
        block([] {
            if (!cfg_.drains)
                return false;
            for (auto& o : *objs)
                if (o.type == 1 && o.open && o.txBlocked && !o.peerClosed)
                    return true;
            return false;
        },
            "drain");
        for (size_t i = 0; i < objs->size(); ++i) {
            Obj& o = (*objs)[i];
            if (o.type == 1 && o.open && o.txBlocked) {
                o.txBlocked = false;
                edge(BASE + i);
            }
        }
    }
}

// ------------------------------------------------------------------ sync objects
struct Cond {
    struct W {
        int fiber;
        bool signalled;
    };
    std::deque<W*> q;
};
static std::map<const void*, Cond>* conds = 0;
static std::map<const void*, std::pair<int, int>>* rwlocks = 0; // writer fiber+1, readers
static std::map<const void*, int>* onces = 0; // fiber+1 while running, -1 done
static std::map<const void*, int>* guards = 0;
static std::map<const void*, int>* sems = 0;

struct Mx { // overlay of pthread_mutex_t
    int lock;
    unsigned count;
    int owner;
    unsigned nusers;
    int kind;
};
static void mxCheck(Mx* m)
{
    if ((unsigned)m->owner == 0xDBDBDBDBu || (unsigned)m->kind == 0xDBDBDBDBu)
        failImpl("use of a mutex in freed memory");
}
static void mxLock(pthread_mutex_t* pm, bool pt = true)
{
    Mx* m = (Mx*)pm;
    mxCheck(m);
    int me = cur->id + 1;
    bool rec = (m->kind & 3) == PTHREAD_MUTEX_RECURSIVE;
    if (m->owner == me && rec) {
        ++m->count;
        return;
    }
    if (pt && (rec || !(curDriver->flags & vt::F_COARSE)))
        pointImpl("lock");
    mxCheck(m);
    if (m->owner != 0)
        block([m] { return m->owner == 0; }, "lock");
    m->owner = me;
    m->count = 1;
    raceAcquire(pm);
}
static int mxUnlock(pthread_mutex_t* pm)
{
    Mx* m = (Mx*)pm;
    mxCheck(m);
    if (m->owner != cur->id + 1) {
        failImpl("unlock of a mutex not held by this thread");
    }
    if (--m->count == 0) {
        raceRelease(pm);
        m->owner = 0;
    }
    return 0;
}

// ------------------------------------------------------------------ TLS keys
struct Key {
    bool used;
    void (*dtor)(void*);
};
static Key keys[256];
static void* mainTls[256];
static void runTlsDtors(Fiber* f)
{
    for (int round = 0; round < 4; ++round) {
        bool any = false;
        for (int i = 0; i < 256; ++i)
            if (keys[i].used && keys[i].dtor && f->tls[i]) {
                void* v = f->tls[i];
                f->tls[i] = 0;
                keys[i].dtor(v);
                any = true;
            }
        if (!any)
            break;
    }
}

// ------------------------------------------------------------------ one execution
static std::unordered_set<uint64_t>* outcomes = 0;
static std::vector<std::string>* samples = 0;

static void mainBody() { curDriver->fn(); }

static void execute()
{
    // everything allocated below by the engine itself is "raw"
    engDepth = 1;
    nf = 0;
    stepCount = 0;
    vclock = 0;
    clog_->clear();
    replayAt = 0;
    obsHash = 1469598103934665603ull;
    obsText->clear();
    cfg_ = vt::KernelCfg();
    delete futexes;
    futexes = new std::vector<Futex*>();
    delete objs;
    objs = new std::vector<Obj>();
    objs->reserve(64);
    delete conns;
    conns = new std::vector<int>();
    conds->clear();
    rwlocks->clear();
    sems->clear();
    liveBlocks = 0;
    allocated = 0;
    raceReset();
    cur = 0;
    Fiber* m = newFiber("main", false);
    m->body = mainBody;
    Fiber* d = newFiber("peer-drain", true);
    d->body = drainer;
    struct itimerval tv;
    memset(&tv, 0, sizeof tv);
    tv.it_value.tv_sec = tv.it_interval.tv_sec = replayMode ? 60 : 20;
    lastStep = -1;
    setitimer(ITIMER_PROF, &tv, 0);
    running = true;
    switchTo(m);
    // back: every application thread has finished
    engDepth = 1;
    for (int i = 0; i < nf; ++i)
        if (!fibers[i].finished) {
            fibers[i].killed = true;
            switchTo(&fibers[i]);
            engDepth = 1;
        }
    running = false;
    cur = 0;
    for (int i = 0; i < nf; ++i) {
        fibers[i].body = nullptr;
        fibers[i].pred = nullptr;
    }
    drainQuarantine();
    if (replay->size() > replayAt)
        internalError("divergence: execution ended before all recorded choices were replayed");
}

// ------------------------------------------------------------------ explorer
struct Node {
    std::vector<Dev> d;
    int spent;
};

static uint64_t mixDevs(const std::vector<Dev>& d, size_t k)
{
    uint64_t h = 88172645463325252ull;
    for (size_t i = 0; i < k && i < d.size(); ++i) {
        h ^= d[i].pos * 1000003ull + d[i].alt;
        h *= 0x9E3779B97F4A7C15ull;
        h ^= h >> 29;
    }
    return h;
}

static double now()
{
    struct timespec t;
    rawSyscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}

static bool isolate = false;

// runs one execution with the choices in *replay
static void runExecution()
{
    if (!isolate) {
        execute();
        clog_->obsHash = obsHash;
        clog_->steps = stepCount;
        return;
    }
    pid_t p = fork();
    if (p == 0) {
        execute();
        clog_->obsHash = obsHash;
        clog_->steps = stepCount;
        snprintf(clog_->text, sizeof clog_->text, "%s", obsText->c_str());
        _exit(0);
    }
    int st;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR)
        ;
    if (!WIFEXITED(st) || WEXITSTATUS(st))
        _exit(WIFEXITED(st) ? WEXITSTATUS(st) : 5);
    *obsText = clog_->text;
}

static void record(const std::vector<Dev>& d)
{
    shm->execs = shm->execs + 1;
    size_t from = d.empty() ? 0 : d.back().pos + 1;
    if (clog_->size() > from)
        shm->nodes = shm->nodes + (clog_->size() - from);
    shm->steps = shm->steps + clog_->steps;
    if ((long)clog_->size() > shm->maxPoints)
        shm->maxPoints = clog_->size();
    if (clog_->steps > shm->maxSteps)
        shm->maxSteps = clog_->steps;
    if (outcomes->size() < 2000000 && outcomes->insert((uint64_t)clog_->obsHash).second && samples->size() < 3)
        samples->push_back(*obsText);
}

// all executions whose deviations cost at most the bound; those that cost less were judged in an earlier iteration
static bool exploreBound(int bound, double deadline)
{
    const size_t partDepth = 2;
    std::vector<Node> st;
    st.push_back({ {}, 0 });
    while (!st.empty()) {
        Node nd = std::move(st.back());
        st.pop_back();
        // nodes of depth partDepth are distributed when pushed; shallower ones are run by everybody for their children
        // but judged by their owner
        bool mine = nd.d.size() >= partDepth || mixDevs(nd.d, nd.d.size()) % workers == (uint64_t)workerId;
        bool leaf = nd.spent >= bound && !(curDriver->flags & vt::F_FREE);
        if (leaf && !mine)
            continue;
        if (leaf && nd.spent < bound)
            continue;
        *replay = nd.d;
        runExecution();
        if (mine && nd.spent == bound)
            record(nd.d);
        if (!leaf) {
            size_t from = nd.d.empty() ? 0 : nd.d.back().pos + 1;
            for (size_t i = clog_->size(); i-- > from;) {
                const Choice& c = (*clog_)[i];
                if (nd.spent + c.cost > bound)
                    continue;
                for (int a = c.n - 1; a >= 1; --a) {
                    Node ch;
                    ch.d = nd.d;
                    ch.d.push_back({ (uint32_t)i, (uint16_t)a, c.n, c.cost, c.tag });
                    ch.spent = nd.spent + c.cost;
                    if (ch.d.size() == partDepth && mixDevs(ch.d, partDepth) % workers != (uint64_t)workerId)
                        continue;
                    st.push_back(std::move(ch));
                }
            }
        }
        if (deadline && now() > deadline) {
            shm->timedOut = 1;
            return false;
        }
    }
    return true;
}

static void explore(int bound, double deadline)
{
    // warm-up: initialises function-level statics etc.
    replay->clear();
    if (!isolate)
        runExecution();
    for (int b = 0; b <= bound; ++b) {
        shm->curBound = b;
        if (!exploreBound(b, deadline))
            return;
        shm->boundDone = b;
    }
}

static void onSignal(int sig)
{
    if (!running)
        _exit(5);
    if (sig == SIGPROF && stepCount != lastStep) {
        lastStep = stepCount;
        return;
    }
    ++engDepth;
    running = false;
    if (sig == SIGPROF)
        failImpl("hang: a thread has been running for 20 s of CPU time without reaching a scheduling point");
    failImpl(std::string("crash: signal ") + std::to_string(sig) + " (" + strsignal(sig) + ")");
}

} // namespace eng

using namespace eng;

// =================================================================== driver API
namespace vt {
std::vector<Driver>& drivers()
{
    static std::vector<Driver> d;
    return d;
}
int pick(int n, const char* what)
{
    Guard g;
    return chooseImpl(n, 0, what);
}
int deviate(int n, const char* what)
{
    Guard g;
    return chooseImpl(n, 1, what);
}
void point(const char* what) { pointImpl(what); }
int spawn(const std::string& name, const std::function<void()>& fn)
{
    Guard g;
    Fiber* f = newFiber(name, false);
    f->body = fn;
    return f->id;
}
int spawnEnv(const std::string& name, const std::function<void()>& fn)
{
    Guard g;
    Fiber* f = newFiber(name, true);
    f->body = fn;
    return f->id;
}
void join(int id)
{
    block([id] { return fibers[id].finished; }, "join");
    raceJoin(cur->id, id);
}
void await(const std::function<bool()>& pred, const char* what) { block(pred, what); }
void elapse(double seconds)
{
    block([] { return false; }, "an interval", true, vclock + seconds);
    block(nullptr, "idle", false, 0, true);
}
void idle()
{
    block(nullptr, "idle", false, 0, true);
    if (curDriver->flags & F_SLOW)
        elapse(3600);
}
void lapse()
{
    if (curDriver->flags & F_SLOW)
        vclock += 3600;
}
int self() { return cur ? cur->id : -1; }
void fail(const std::string& m) { failImpl(m); }
void observe(const std::string& w)
{
    Guard g;
    for (char ch : w)
        obsHash = (obsHash ^ (uint8_t)ch) * 1099511628211ull;
    obsHash = (obsHash ^ 0xff) * 1099511628211ull;
    if (obsText->size() < 600) {
        *obsText += w;
        *obsText += "; ";
    }
    if (verboseOn)
        trace("OBSERVE " + w);
}
bool verbose() { return verboseOn; }
void trace(const std::string& w)
{
    if (verboseOn && traceLog) {
        Guard g;
        traceLog->push_back(w);
        if (traceLog->size() > 20000)
            traceLog->erase(traceLog->begin(), traceLog->begin() + 10000);
    }
}
bool inFiber() { return cur != 0; }
KernelCfg& kcfg() { return cfg_; }
int connections() { return conns->size(); }
static Obj& co(int c)
{
    if (c < 0 || (size_t)c >= conns->size())
        internalError("driver used a connection that does not exist");
    return (*objs)[(*conns)[c]];
}
std::string connAddress(int c) { return co(c).addr; }
const std::string& sent(int c) { return co(c).tx; }
size_t sentTotal(int c) { return co(c).tx.size() + co(c).txGone; }
void deliver(int c, const std::string& b)
{
    Guard g;
    if (co(c).rxShut) { // EPIPE for the peer
        if (verboseOn)
            trace("peer cannot deliver " + std::to_string(b.size()) + " bytes");
        return;
    }
    Obj& o = co(c);
    if (o.rxPos == o.rx.size()) { // all of it has been read
        o.rx.clear();
        o.rxPos = 0;
    }
    o.rx += b;
    edge(BASE + (*conns)[c]);
    if (verboseOn)
        trace("peer delivers " + std::to_string(b.size()) + " bytes");
}
void closePeer(int c)
{
    Guard g;
    Obj& o = co(c);
    o.rxEof = true;
    o.peerClosed = true;
    edge(BASE + (*conns)[c]);
}
void shutPeer(int c)
{
    Guard g;
    co(c).rxEof = true;
    edge(BASE + (*conns)[c]);
}
void resetPeer(int c)
{
    Guard g;
    Obj& o = co(c);
    o.rxReset = true;
    o.peerClosed = true;
    edge(BASE + (*conns)[c]);
}
bool connClosed(int c) { return !co(c).open; }
bool readAll(int c)
{
    Obj& o = co(c);
    return o.rxPos == o.rx.size();
}
int openFds()
{
    int n = 0;
    for (auto& o : *objs)
        n += o.open;
    return n;
}
bool isRaceBuild() { return raceEnabled(); }
static bool thoroughTier = false;
bool thorough() { return thoroughTier; }
}

// =================================================================== interposition
#define IN (eng::running && eng::cur)

void* operator new(size_t n) { return vtAlloc(n, 16); }
void* operator new[](size_t n) { return vtAlloc(n, 16); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return vtAlloc(n, 16); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return vtAlloc(n, 16); }
void* operator new(size_t n, std::align_val_t a) { return vtAlloc(n, std::max<size_t>(16, (size_t)a)); }
void* operator new[](size_t n, std::align_val_t a) { return vtAlloc(n, std::max<size_t>(16, (size_t)a)); }
void operator delete(void* p) noexcept { vtFree(p); }
void operator delete[](void* p) noexcept { vtFree(p); }
void operator delete(void* p, size_t) noexcept { vtFree(p); }
void operator delete[](void* p, size_t) noexcept { vtFree(p); }
void operator delete(void* p, std::align_val_t) noexcept { vtFree(p); }
void operator delete[](void* p, std::align_val_t) noexcept { vtFree(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { vtFree(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { vtFree(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { vtFree(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { vtFree(p); }

extern "C" {

// ---- threads
int pthread_create(pthread_t* t, const pthread_attr_t*, void* (*fn)(void*), void* arg)
{
    if (!IN)
        internalError("pthread_create outside an execution");
    Guard g;
    pointImpl("thread create");
    Fiber* f = newFiber("io" + std::to_string(nf), false);
    f->proc = fn;
    f->arg = arg;
    *t = (pthread_t)(0x1000 + f->id);
    return 0;
}
pthread_t pthread_self(void) { return (pthread_t)(0x1000 + (cur ? cur->id : 999)); }
static int joinFiber(pthread_t t, void** ret, bool timed, double deadline)
{
    int id = (long)t - 0x1000;
    if (id < 0 || id >= nf)
        return ESRCH;
    if (cur->id == id)
        return EDEADLK;
    Guard g;
    pointImpl("thread join");
    block([id] { return fibers[id].finished; }, "thread join", timed, deadline);
    if (timed && cur->timedOut && !fibers[id].finished)
        return ETIMEDOUT;
    raceJoin(cur->id, id);
    if (ret)
        *ret = fibers[id].ret;
    return 0;
}
int pthread_join(pthread_t t, void** ret) { return joinFiber(t, ret, false, 0); }
int pthread_timedjoin_np(pthread_t t, void** ret, const struct timespec* ts) { return joinFiber(t, ret, true, toVirtual(ts)); }
int pthread_clockjoin_np(pthread_t t, void** ret, clockid_t, const struct timespec* ts) { return joinFiber(t, ret, true, toVirtual(ts)); }
int pthread_tryjoin_np(pthread_t t, void** ret)
{
    int id = (long)t - 0x1000;
    pointImpl("tryjoin");
    if (!fibers[id].finished)
        return EBUSY;
    return joinFiber(t, ret, false, 0);
}
int pthread_detach(pthread_t) { return 0; }
int pthread_equal(pthread_t a, pthread_t b) { return a == b; }
int pthread_setname_np(pthread_t, const char*) { return 0; }
int pthread_getname_np(pthread_t, char* b, size_t n)
{
    if (n)
        *b = 0;
    return 0;
}
int sched_yield(void)
{
    if (IN) {
        cur->yielded = true;
        pointImpl("yield");
    }
    return 0;
}
static void sleepFor(double s)
{
    Guard g;
    // time passes only when nothing else can run
    block([] { return false; }, "sleep", true, vclock + s);
}
int clock_gettime(clockid_t c, struct timespec* t)
{
    if (!IN || !(c == CLOCK_REALTIME || c == CLOCK_MONOTONIC || c == CLOCK_REALTIME_COARSE || c == CLOCK_MONOTONIC_COARSE || c == CLOCK_MONOTONIC_RAW || c == CLOCK_BOOTTIME))
        return rawSyscall(SYS_clock_gettime, c, t);
    vclock += 1e-8; // no two readings are the same
    long whole = (long)vclock;
    t->tv_sec = whole + (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE ? REAL : MONO);
    t->tv_nsec = (long)((vclock - whole) * 1e9);
    return 0;
}
int gettimeofday(struct timeval* v, void*)
{
    struct timespec t;
    clock_gettime(CLOCK_REALTIME, &t);
    v->tv_sec = t.tv_sec;
    v->tv_usec = t.tv_nsec / 1000;
    return 0;
}
time_t time(time_t* p)
{
    struct timespec t;
    clock_gettime(CLOCK_REALTIME, &t);
    if (p)
        *p = t.tv_sec;
    return t.tv_sec;
}
int nanosleep(const struct timespec* a, struct timespec*)
{
    if (IN)
        sleepFor(a->tv_sec + a->tv_nsec * 1e-9);
    return 0;
}
int clock_nanosleep(clockid_t, int, const struct timespec* a, struct timespec*)
{
    if (IN)
        sleepFor(a->tv_sec + a->tv_nsec * 1e-9);
    return 0;
}
int usleep(useconds_t u)
{
    if (IN)
        sleepFor(u * 1e-6);
    return 0;
}
unsigned sleep(unsigned s)
{
    if (IN)
        sleepFor(s);
    return 0;
}

// ---- mutexes
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a)
{
    memset(m, 0, sizeof *m);
    int kind = 0;
    if (a)
        pthread_mutexattr_gettype(a, &kind);
    ((Mx*)m)->kind = kind;
    return 0;
}
int pthread_mutex_destroy(pthread_mutex_t* m)
{
    if (IN) {
        mxCheck((Mx*)m);
        if (((Mx*)m)->owner)
            failImpl("a mutex is destroyed while it is held by thread " + fiberName(((Mx*)m)->owner - 1));
    }
    return 0;
}
int pthread_mutex_lock(pthread_mutex_t* m)
{
    if (!IN || engDepth)
        return 0;
    if (((Mx*)m)->owner == cur->id + 1 && (((Mx*)m)->kind & 3) == PTHREAD_MUTEX_ERRORCHECK)
        return EDEADLK;
    mxLock(m);
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* pm)
{
    if (!IN || engDepth)
        return 0;
    Mx* m = (Mx*)pm;
    mxCheck(m);
    if (m->owner == cur->id + 1 && (m->kind & 3) == PTHREAD_MUTEX_RECURSIVE) {
        ++m->count;
        return 0;
    }
    pointImpl("trylock");
    if (m->owner)
        return EBUSY;
    m->owner = cur->id + 1;
    m->count = 1;
    raceAcquire(pm);
    return 0;
}
static int timedlock(pthread_mutex_t* pm, const struct timespec* ts)
{
    if (!IN)
        return 0;
    Mx* m = (Mx*)pm;
    if (m->owner == cur->id + 1 && (m->kind & 3) == PTHREAD_MUTEX_RECURSIVE) {
        ++m->count;
        return 0;
    }
    pointImpl("timedlock");
    if (m->owner) {
        block([m] { return m->owner == 0; }, "timedlock", true, toVirtual(ts));
        if (cur->timedOut && m->owner)
            return ETIMEDOUT;
    }
    m->owner = cur->id + 1;
    m->count = 1;
    raceAcquire(pm);
    return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts) { return timedlock(m, ts); }
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, const struct timespec* ts) { return timedlock(m, ts); }
int pthread_mutex_unlock(pthread_mutex_t* m)
{
    if (!IN || engDepth)
        return 0;
    return mxUnlock(m);
}

// ---- rwlocks
int pthread_rwlock_init(pthread_rwlock_t* l, const pthread_rwlockattr_t*)
{
    memset(l, 0, sizeof *l);
    return 0;
}
int pthread_rwlock_destroy(pthread_rwlock_t* l)
{
    Guard g;
    if (rwlocks)
        rwlocks->erase(l);
    return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* l)
{
    if (!IN)
        return 0;
    pointImpl("rdlock");
    Guard g;
    auto* s = &(*rwlocks)[l];
    block([s] { return s->first == 0; }, "rdlock");
    ++s->second;
    raceAcquire(l);
    return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l)
{
    if (!IN)
        return 0;
    pointImpl("rdlock");
    Guard g;
    auto* s = &(*rwlocks)[l];
    if (s->first)
        return EBUSY;
    ++s->second;
    raceAcquire(l);
    return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* l)
{
    if (!IN)
        return 0;
    pointImpl("wrlock");
    Guard g;
    auto* s = &(*rwlocks)[l];
    block([s] { return s->first == 0 && s->second == 0; }, "wrlock");
    s->first = cur->id + 1;
    raceAcquire(l);
    return 0;
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* l)
{
    if (!IN)
        return 0;
    pointImpl("wrlock");
    Guard g;
    auto* s = &(*rwlocks)[l];
    if (s->first || s->second)
        return EBUSY;
    s->first = cur->id + 1;
    raceAcquire(l);
    return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* l)
{
    if (!IN)
        return 0;
    Guard g;
    auto* s = &(*rwlocks)[l];
    raceRelease(l);
    if (s->first)
        s->first = 0;
    else
        --s->second;
    return 0;
}

// ---- condition variables
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*)
{
    memset(c, 0, sizeof *c);
    Guard g;
    if (conds)
        conds->erase(c);
    return 0;
}
int pthread_cond_destroy(pthread_cond_t* c)
{
    Guard g;
    if (IN) {
        auto it = conds->find(c);
        if (it != conds->end()) {
            if (!it->second.q.empty())
                failImpl("a condition variable is destroyed while thread " + fiberName(it->second.q.front()->fiber) + " waits on it");
            conds->erase(it);
        }
    }
    return 0;
}
static int condWait(pthread_cond_t* c, pthread_mutex_t* pm, bool timed, double deadline)
{
    if (!IN)
        return 0;
    Guard g;
    pointImpl("cond wait");
    Mx* m = (Mx*)pm;
    Cond::W w { cur->id, false };
    (*conds)[c].q.push_back(&w);
    unsigned cnt = m->count;
    raceRelease(pm);
    m->count = 0;
    m->owner = 0;
    bool out = false;
    Cond::W* wp = &w;
    if (cfg_.interrupts && chooseImpl(2, 1, "spurious wake-up")) {
        pointImpl("spurious wake-up");
        auto& q = (*conds)[c].q;
        q.erase(std::remove(q.begin(), q.end(), &w), q.end());
    } else
        block([wp] { return wp->signalled; }, "cond wait", timed, deadline);
    if (timed && cur->timedOut && !w.signalled && std::find((*conds)[c].q.begin(), (*conds)[c].q.end(), &w) != (*conds)[c].q.end()) {
        out = true;
        auto& q = (*conds)[c].q;
        q.erase(std::remove(q.begin(), q.end(), &w), q.end());
    }
    if (m->owner)
        block([m] { return m->owner == 0; }, "cond relock");
    m->owner = cur->id + 1;
    m->count = cnt;
    raceAcquire(pm);
    return out ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return condWait(c, m, false, 0); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) { return condWait(c, m, true, toVirtual(ts)); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec* ts) { return condWait(c, m, true, toVirtual(ts)); }
int pthread_cond_signal(pthread_cond_t* c)
{
    if (!IN)
        return 0;
    Guard g;
    auto it = conds->find(c);
    if (it != conds->end() && !it->second.q.empty()) {
        it->second.q.front()->signalled = true;
        it->second.q.pop_front();
    }
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c)
{
    if (!IN)
        return 0;
    Guard g;
    auto it = conds->find(c);
    if (it != conds->end()) {
        for (auto* w : it->second.q)
            w->signalled = true;
        it->second.q.clear();
    }
    return 0;
}

// ---- futexes (std::future, std::atomic::wait, ...), semaphores, spin locks
static int futexWait(const int* a, int val, bool timed, double deadline)
{
    Guard g;
    pointImpl("futex wait");
    if (*(volatile const int*)a != val) {
        errno = EAGAIN;
        return -1;
    }
    Futex w { a, cur->id, false };
    Futex* wp = &w;
    futexes->push_back(wp);
    block([wp] { return wp->woken; }, "futex wait", timed, deadline);
    futexes->erase(std::remove(futexes->begin(), futexes->end(), wp), futexes->end());
    if (!w.woken) {
        errno = ETIMEDOUT;
        return -1;
    }
    return 0;
}
long syscall(long n, ...)
{
    va_list ap;
    va_start(ap, n);
    long x[6];
    for (auto& v : x)
        v = va_arg(ap, long);
    va_end(ap);
    if (!IN || n != SYS_futex)
        return rawSyscall(n, x[0], x[1], x[2], x[3], x[4], x[5]);
    const int* a = (const int*)x[0];
    int op = x[1] & FUTEX_CMD_MASK;
    if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
        auto* ts = (const struct timespec*)x[3];
        double due = !ts ? 0 : op == FUTEX_WAIT ? vclock + ts->tv_sec + ts->tv_nsec * 1e-9 : toVirtual(ts);
        return futexWait(a, x[2], ts, due);
    }
    if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
        Guard g;
        long woken = 0;
        for (auto* w : *futexes)
            if (w->a == a && !w->woken && woken < (int)x[2]) {
                w->woken = true;
                ++woken;
            }
        return woken;
    }
    failImpl("futex operation " + std::to_string(op) + " is not modelled");
}
int sem_init(sem_t* s, int, unsigned v)
{
    *(int*)s = v;
    return 0;
}
int sem_destroy(sem_t*) { return 0; }
int sem_post(sem_t* s)
{
    if (IN) {
        Guard g;
        pointImpl("sem post");
        raceRelease(s);
    }
    ++*(int*)s;
    return 0;
}
int sem_getvalue(sem_t* s, int* v)
{
    *v = *(int*)s;
    return 0;
}
static int semWait(sem_t* s, bool timed, double deadline)
{
    if (IN) {
        Guard g;
        pointImpl("sem wait");
        block([s] { return *(int*)s > 0; }, "sem wait", timed, deadline);
        if (*(int*)s <= 0) {
            errno = ETIMEDOUT;
            return -1;
        }
        raceAcquire(s);
    }
    --*(int*)s;
    return 0;
}
int sem_wait(sem_t* s) { return semWait(s, false, 0); }
int sem_timedwait(sem_t* s, const struct timespec* ts) { return semWait(s, true, toVirtual(ts)); }
int sem_clockwait(sem_t* s, clockid_t, const struct timespec* ts) { return semWait(s, true, toVirtual(ts)); }
int sem_trywait(sem_t* s)
{
    if (IN) {
        Guard g;
        pointImpl("sem trywait");
        raceAcquire(s);
    }
    if (*(int*)s <= 0) {
        errno = EAGAIN;
        return -1;
    }
    --*(int*)s;
    return 0;
}
int pthread_spin_init(pthread_spinlock_t* l, int)
{
    *l = 0;
    return 0;
}
int pthread_spin_destroy(pthread_spinlock_t*) { return 0; }
int pthread_spin_lock(pthread_spinlock_t* l)
{
    if (IN) {
        Guard g;
        pointImpl("spin lock");
        block([l] { return *l == 0; }, "spin lock");
        raceAcquire((void*)l);
    }
    *l = 1;
    return 0;
}
int pthread_spin_trylock(pthread_spinlock_t* l)
{
    if (IN) {
        Guard g;
        pointImpl("spin trylock");
        raceAcquire((void*)l);
    }
    if (*l)
        return EBUSY;
    *l = 1;
    return 0;
}
int pthread_spin_unlock(pthread_spinlock_t* l)
{
    if (IN)
        raceRelease((void*)l);
    *l = 0;
    return 0;
}

// ---- once / guards
int pthread_once(pthread_once_t* o, void (*fn)(void))
{
    if (*o == 2) {
        if (IN)
            raceAcquire(o);
        return 0;
    }
    if (!IN) {
        fn();
        *o = 2;
        return 0;
    }
    if (*o == 1) {
        block([o] { return *o != 1; }, "once");
        return pthread_once(o, fn);
    }
    *o = 1;
    try {
        fn();
    } catch (...) { // std::call_once: the next caller tries again
        *o = 0;
        throw;
    }
    raceRelease(o);
    *o = 2;
    return 0;
}
int vt_guard_acquire(uint64_t* gd) __asm__("__cxa_guard_acquire");
int vt_guard_acquire(uint64_t* gd)
{
    uint8_t* b = (uint8_t*)gd;
    if (b[0]) {
        if (IN)
            raceAcquire(gd);
        return 0;
    }
    if (IN) {
        if (b[1])
            block([b] { return b[1] == 0; }, "static initialisation");
        if (b[0])
            return 0;
    }
    b[1] = 1;
    return 1;
}
void vt_guard_release(uint64_t* gd) __asm__("__cxa_guard_release");
void vt_guard_release(uint64_t* gd)
{
    uint8_t* b = (uint8_t*)gd;
    if (IN)
        raceRelease(gd);
    b[1] = 0;
    b[0] = 1;
}
void vt_guard_abort(uint64_t* gd) __asm__("__cxa_guard_abort");
void vt_guard_abort(uint64_t* gd) { ((uint8_t*)gd)[1] = 0; }

// ---- TLS
int pthread_key_create(pthread_key_t* k, void (*d)(void*))
{
    for (int i = 1; i < 256; ++i)
        if (!keys[i].used) {
            keys[i].used = true;
            keys[i].dtor = d;
            *k = i;
            return 0;
        }
    return EAGAIN;
}
int pthread_key_delete(pthread_key_t k)
{
    keys[k].used = false;
    return 0;
}
void* pthread_getspecific(pthread_key_t k) { return cur ? cur->tls[k] : mainTls[k]; }
int pthread_setspecific(pthread_key_t k, const void* v)
{
    (cur ? cur->tls[k] : mainTls[k]) = (void*)v;
    return 0;
}

// ---- process
void abort(void)
{
    if (IN)
        failImpl("abort() was called");
    signal(SIGABRT, SIG_DFL);
    kill(getpid(), SIGABRT);
    _exit(134);
}

uid_t getuid(void)
{
    if (IN && cfg_.uid >= 0)
        return cfg_.uid;
    return rawSyscall(SYS_getuid);
}
uid_t geteuid(void)
{
    if (IN && cfg_.uid >= 0)
        return cfg_.uid;
    return rawSyscall(SYS_geteuid);
}

// ---- descriptors
int socket(int domain, int type, int proto)
{
    if (!IN)
        return rawSyscall(SYS_socket, domain, type, proto);
    int fd = newObj(1);
    if (type & SOCK_NONBLOCK)
        obj(fd)->nonblock = true;
    return fd;
}
int connect(int fd, const struct sockaddr* a, socklen_t len)
{
    Obj* o = obj(fd);
    if (!o)
        return rawSyscall(SYS_connect, fd, a, len);
    pointImpl("connect");
    Guard g;
    if (a->sa_family == AF_UNIX)
        o->addr.assign((const char*)a + offsetof(sockaddr_un, sun_path), len - offsetof(sockaddr_un, sun_path));
    if (cfg_.refuse) {
        errno = ECONNREFUSED;
        return -1;
    }
    o->connected = true;
    conns->push_back(fd - BASE);
    edge(fd);
    return 0;
}
ssize_t recvmsg(int fd, struct msghdr* m, int flags)
{
    if (!obj(fd))
        return rawSyscall(SYS_recvmsg, fd, m, flags);
    m->msg_flags = 0;
    m->msg_controllen = 0;
    return doRecv(fd, m->msg_iov, m->msg_iovlen, flags, flags & MSG_DONTWAIT);
}
ssize_t recv(int fd, void* b, size_t n, int flags)
{
    if (!obj(fd))
        return rawSyscall(SYS_recvfrom, fd, b, n, flags, 0, 0);
    struct iovec v = { b, n };
    return doRecv(fd, &v, 1, flags, flags & MSG_DONTWAIT);
}
ssize_t recvfrom(int fd, void* b, size_t n, int flags, struct sockaddr* a, socklen_t* l)
{
    if (!obj(fd))
        return rawSyscall(SYS_recvfrom, fd, b, n, flags, a, l);
    return recv(fd, b, n, flags);
}
ssize_t sendmsg(int fd, const struct msghdr* m, int flags)
{
    if (!obj(fd))
        return rawSyscall(SYS_sendmsg, fd, m, flags);
    return doSend(fd, m->msg_iov, m->msg_iovlen, flags, true);
}
ssize_t send(int fd, const void* b, size_t n, int flags)
{
    if (!obj(fd))
        return rawSyscall(SYS_sendto, fd, b, n, flags, 0, 0);
    struct iovec v = { (void*)b, n };
    return doSend(fd, &v, 1, flags, true);
}
ssize_t sendto(int fd, const void* b, size_t n, int flags, const struct sockaddr* a, socklen_t l)
{
    if (!obj(fd))
        return rawSyscall(SYS_sendto, fd, b, n, flags, a, l);
    return send(fd, b, n, flags);
}
ssize_t read(int fd, void* b, size_t n)
{
    Obj* o = obj(fd);
    if (!o)
        return rawSyscall(SYS_read, fd, b, n);
    if (o->type == 1) {
        struct iovec v = { b, n };
        return doRecv(fd, &v, 1, 0, false);
    }
    if (!o->counter) {
        errno = EAGAIN;
        return -1;
    }
    memcpy(b, &o->counter, 8);
    o->counter = 0;
    return 8;
}
ssize_t readv(int fd, const struct iovec* v, int c)
{
    if (!obj(fd))
        return rawSyscall(SYS_readv, fd, v, c);
    return doRecv(fd, v, c, 0, false);
}
ssize_t write(int fd, const void* b, size_t n)
{
    Obj* o = obj(fd);
    if (!o)
        return rawSyscall(SYS_write, fd, b, n);
    if (o->type == 1) {
        struct iovec v = { (void*)b, n };
        return doSend(fd, &v, 1, 0, false);
    }
    Guard g;
    uint64_t x;
    memcpy(&x, b, 8);
    o->counter += x;
    edge(fd);
    return 8;
}
ssize_t writev(int fd, const struct iovec* v, int c)
{
    if (!obj(fd))
        return rawSyscall(SYS_writev, fd, v, c);
    return doSend(fd, v, c, 0, false);
}
int shutdown(int fd, int how)
{
    Obj* o = obj(fd);
    if (!o)
        return rawSyscall(SYS_shutdown, fd, how);
    pointImpl("shutdown");
    Guard g;
    if (!o->connected) {
        errno = ENOTCONN;
        return -1;
    }
    if (how == SHUT_RD || how == SHUT_RDWR)
        o->rxShut = true;
    if (how == SHUT_WR || how == SHUT_RDWR)
        o->txShut = true;
    edge(fd);
    return 0;
}
int close(int fd)
{
    Obj* o = obj(fd);
    if (!o)
        return rawSyscall(SYS_close, fd);
    Guard g;
    if (!o->open)
        failImpl("close of a descriptor that is not open");
    o->open = false;
    for (auto& e : *objs)
        if (e.type == 2)
            e.items.erase(std::remove_if(e.items.begin(), e.items.end(), [fd](const Obj::Item& i) { return i.fd == fd; }), e.items.end());
    return 0;
}
int eventfd(unsigned init, int)
{
    if (!IN)
        return rawSyscall(SYS_eventfd2, init, 0);
    int fd = newObj(3);
    obj(fd)->counter = init;
    obj(fd)->nonblock = true;
    return fd;
}
int timerfd_create(clockid_t, int)
{
    return newObj(4);
}
int timerfd_settime(int fd, int flags, const struct itimerspec* n, struct itimerspec*)
{
    Obj* o = obj(fd);
    o->counter = 0;
    o->armed = n->it_value.tv_sec || n->it_value.tv_nsec;
    o->due = flags & TFD_TIMER_ABSTIME ? toVirtual(&n->it_value) : vclock + n->it_value.tv_sec + n->it_value.tv_nsec * 1e-9;
    if (o->armed && n->it_value.tv_sec == 0 && n->it_value.tv_nsec == 1) {
        o->armed = false;
        o->counter = 1;
        edge(fd);
    }
    return 0;
}
int epoll_create(int) { return newObj(2); }
int epoll_create1(int) { return newObj(2); }
int epoll_ctl(int ep, int op, int fd, struct epoll_event* ev)
{
    Obj* e = obj(ep);
    Guard g;
    raceRelease((const void*)(uintptr_t)(0x100000 + ep));
    for (auto it = e->items.begin(); it != e->items.end(); ++it)
        if (it->fd == fd) {
            if (op == EPOLL_CTL_ADD) {
                errno = EEXIST;
                return -1;
            }
            if (op == EPOLL_CTL_DEL) {
                e->items.erase(it);
                return 0;
            }
            it->events = ev->events;
            it->data = ev->data;
            it->ready = true;
            return 0;
        }
    if (op != EPOLL_CTL_ADD) {
        errno = ENOENT;
        return -1;
    }
    e->items.push_back({ fd, ev->events, ev->data, true });
    return 0;
}
int epoll_wait(int ep, struct epoll_event* out, int max, int timeout)
{
    Obj* e = obj(ep);
    pointImpl("epoll_wait");
    Guard g;
    if (timeout != 0 && interrupted())
        return -1;
    // items may be re-armed while we wait, so evaluate on the descriptor table each time
    if (timeout != 0 && !epReady(*e)) {
        block([ep] { return epReady(*obj(ep)); }, "epoll_wait", timeout > 0, vclock + timeout * 1e-3);
    }
    e = obj(ep);
    raceAcquire((const void*)(uintptr_t)(0x100000 + ep));
    int n = 0;
    for (auto& it : e->items) {
        if (!it.ready || n >= max)
            continue;
        Obj* o = obj(it.fd);
        uint32_t r = level(*o) & (it.events | EPOLLERR | EPOLLHUP);
        if (!r) {
            it.ready = false;
            continue;
        }
        if (it.events & EPOLLET)
            it.ready = false;
        out[n].events = r;
        out[n].data = it.data;
        ++n;
    }
    return n;
}
int epoll_pwait(int ep, struct epoll_event* out, int max, int timeout, const sigset_t*) { return epoll_wait(ep, out, max, timeout); }
int poll(struct pollfd* p, nfds_t n, int timeout)
{
    if (n == 0 || !obj(p[0].fd))
        return rawSyscall(SYS_poll, p, n, timeout);
    pointImpl("poll");
    Guard g;
    auto ready = [p, n] {
        int c = 0;
        for (nfds_t i = 0; i < n; ++i) {
            Obj* o = obj(p[i].fd);
            p[i].revents = o ? (short)(level(*o) & (p[i].events | POLLERR | POLLHUP)) : POLLNVAL;
            c += p[i].revents != 0;
        }
        return c;
    };
    int c = ready();
    if (c || timeout == 0)
        return c;
    block([&] { return ready() != 0; }, "poll", timeout > 0, vclock + timeout * 1e-3);
    return ready();
}
int ioctl(int fd, unsigned long req, ...)
{
    va_list ap;
    va_start(ap, req);
    void* a = va_arg(ap, void*);
    va_end(ap);
    Obj* o = obj(fd);
    if (!o)
        return rawSyscall(SYS_ioctl, fd, req, a);
    if (req == FIONBIO)
        o->nonblock = *(int*)a != 0;
    else if (req == FIONREAD)
        *(int*)a = o->rx.size() - o->rxPos;
    return 0;
}
int fcntl(int fd, int cmd, ...)
{
    va_list ap;
    va_start(ap, cmd);
    long a = va_arg(ap, long);
    va_end(ap);
    Obj* o = obj(fd);
    if (!o)
        return rawSyscall(SYS_fcntl, fd, cmd, a);
    if (cmd == F_GETFL)
        return O_RDWR | (o->nonblock ? O_NONBLOCK : 0);
    if (cmd == F_SETFL)
        o->nonblock = a & O_NONBLOCK;
    return 0;
}
int fcntl64(int fd, int cmd, ...)
{
    va_list ap;
    va_start(ap, cmd);
    long a = va_arg(ap, long);
    va_end(ap);
    return fcntl(fd, cmd, a);
}
int getsockopt(int fd, int lvl, int name, void* v, socklen_t* l)
{
    if (!obj(fd))
        return rawSyscall(SYS_getsockopt, fd, lvl, name, v, l);
    memset(v, 0, *l);
    if (name == SO_TYPE)
        *(int*)v = SOCK_STREAM;
    return 0;
}
int setsockopt(int fd, int lvl, int name, const void* v, socklen_t l)
{
    if (!obj(fd))
        return rawSyscall(SYS_setsockopt, fd, lvl, name, v, l);
    return 0;
}
} // extern "C"

// =================================================================== main
static vt::Driver* findDriver(const std::string& n)
{
    for (auto& d : vt::drivers())
        if (n == d.name)
            return &d;
    return 0;
}

static void setupHandlers()
{
    stack_t ss;
    ss.ss_size = 1 << 16;
    ss.ss_sp = malloc(ss.ss_size);
    ss.ss_flags = 0;
    sigaltstack(&ss, 0);
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_handler = onSignal;
    sa.sa_flags = SA_ONSTACK | SA_NODEFER | SA_RESTART;
    for (int s : { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGPROF })
        sigaction(s, &sa, 0);
}

static void initGlobals()
{
    dl_iterate_phdr(findTls, 0);
    clog_ = (Log*)mmap(0, sizeof(Log), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    frozen = new std::vector<uintptr_t>();
    replay = new std::vector<Dev>();
    obsText = new std::string();
    outcomes = new std::unordered_set<uint64_t>();
    samples = new std::vector<std::string>();
    conds = new std::map<const void*, Cond>();
    rwlocks = new std::map<const void*, std::pair<int, int>>();
    sems = new std::map<const void*, int>();
}

struct Result {
    std::string kind = "ok", msg, devs;
    long execs = 0, nodes = 0, steps = 0, maxPoints = 0, maxSteps = 0;
    int boundDone = 0;
    bool timedOut = false;
    size_t outcomes = 0;
};

static Result runAll(int bound, double deadline, const std::string& out)
{
    Shm* all = (Shm*)mmap(0, sizeof(Shm) * workers, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    std::vector<pid_t> pids;
    for (int w = 0; w < workers; ++w) {
        pid_t p = fork();
        if (p == 0) {
            setpgid(0, 0);
            workerId = w;
            shm = &all[w];
            shm->boundDone = -1;
            clog_ = (Log*)mmap(0, sizeof(Log), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            setupHandlers();
            explore(bound, deadline);
            FILE* f = fopen((out + "." + std::to_string(w)).c_str(), "wb");
            if (f) {
                for (uint64_t h : *outcomes)
                    fwrite(&h, 8, 1, f);
                fclose(f);
            }
            f = fopen((out + ".samples." + std::to_string(w)).c_str(), "w");
            if (f) {
                for (auto& s : *samples) {
                    std::string t;
                    for (char ch : s)
                        t += (ch >= 32 && ch < 127) ? ch : '.';
                    fprintf(f, "%s\n", t.c_str());
                }
                fclose(f);
            }
            _exit(0);
        }
        setpgid(p, p);
        pids.push_back(p);
    }
    int status, left = workers;
    bool killedAll = false;
    std::vector<int> codes(workers, 0);
    while (left) {
        pid_t p = waitpid(-1, &status, 0);
        if (p < 0)
            break;
        for (int w = 0; w < workers; ++w)
            if (pids[w] == p) {
                codes[w] = WIFEXITED(status) ? WEXITSTATUS(status) : 100 + WTERMSIG(status);
                pids[w] = 0;
                --left;
                if (codes[w] && !killedAll) {
                    killedAll = true;
                    for (pid_t q : pids)
                        if (q)
                            kill(-q, SIGKILL);
                }
            }
    }
    Result r;
    r.boundDone = bound;
    for (int w = 0; w < workers; ++w) {
        Shm& s = all[w];
        r.execs += s.execs;
        r.nodes += s.nodes;
        r.steps += s.steps;
        r.maxPoints = std::max(r.maxPoints, (long)s.maxPoints);
        r.maxSteps = std::max(r.maxSteps, (long)s.maxSteps);
        r.boundDone = std::min(r.boundDone, (int)s.boundDone);
        r.timedOut = r.timedOut || s.timedOut;
        if (s.violated && r.kind != "violated") {
            r.kind = "violated";
            r.msg = s.msg;
            r.devs = s.devs;
        } else if (s.internal && r.kind == "ok") {
            r.kind = "internal";
            r.msg = s.msg;
            r.devs = s.devs;
        } else if (codes[w] && codes[w] != 109 && r.kind == "ok") {
            r.kind = "internal";
            r.msg = "worker ended with code " + std::to_string(codes[w]);
        }
    }
    std::unordered_set<uint64_t> oc;
    std::string smp;
    std::set<std::string> seen;
    for (int w = 0; w < workers; ++w) {
        std::string fn = out + "." + std::to_string(w);
        if (FILE* f = fopen(fn.c_str(), "rb")) {
            uint64_t h;
            while (fread(&h, 8, 1, f) == 1)
                oc.insert(h);
            fclose(f);
            unlink(fn.c_str());
        }
        fn = out + ".samples." + std::to_string(w);
        if (FILE* f = fopen(fn.c_str(), "r")) {
            char line[1024];
            while (fgets(line, sizeof line, f))
                if (seen.size() < 3 && seen.insert(line).second)
                    smp += line;
            fclose(f);
            unlink(fn.c_str());
        }
    }
    if (FILE* f = fopen((out + ".samples").c_str(), "w")) {
        fputs(smp.c_str(), f);
        fclose(f);
    }
    r.outcomes = oc.size();
    munmap(all, sizeof(Shm) * workers);
    return r;
}

// usage: sched list PROP
//        sched run DRIVER BOUND DEADLINE_S WORKERS OUT [thorough]
//        sched replay DRIVER DEVS [thorough|quick] [isolate]
int main(int argc, char** argv)
{
    engDepth = 1;
    __libc_single_threaded = 0;
    std::string mode = argc > 1 ? argv[1] : "";
    for (size_t i = 0, n = vt::drivers().size(); i < n; ++i) {
        vt::Driver d = vt::drivers()[i];
        if (d.flags & vt::F_SLOWTOO) {
            d.flags |= vt::F_SLOW;
            d.name = strdup((std::string(d.name) + "_slow").c_str());
            d.raceQuick = d.raceThorough = -1;
            vt::drivers().push_back(d);
        }
    }
    if (mode == "list") {
        for (auto& d : vt::drivers())
            if (argc < 3 || std::string(argv[2]) == d.prop)
                printf("%s %s %d %d %d %d %d\n", d.prop, d.name, d.quick, d.thorough, d.flags, d.raceQuick, d.raceThorough);
        return 0;
    }
    initGlobals();
    if (mode == "replay" && argc >= 4) {
        curDriver = findDriver(argv[2]);
        if (!curDriver)
            return 2;
        std::string d = argv[3];
        vt::thoroughTier = argc > 4 && std::string(argv[4]) == "thorough";
        isolate = argc > 5 && std::string(argv[5]) == "isolate";
        setupHandlers();
        replayMode = true;
        size_t p = 0, e;
        while ((e = d.find(';', p)) != std::string::npos) {
            frozen->push_back(strtoul(d.substr(p, e - p).c_str(), 0, 16));
            p = e + 1;
        }
        d = d.substr(p);
        verboseOn = true;
        traceLog = new std::vector<std::string>();
        replay->clear();
        if (!isolate)
            execute(); // warm-up
        traceLog->clear();
        p = 0;
        while (p < d.size() && d != "-") {
            size_t c = d.find(':', p), e = d.find(',', p);
            if (e == std::string::npos)
                e = d.size();
            replay->push_back({ (uint32_t)atoi(d.substr(p, c - p).c_str()), (uint16_t)atoi(d.substr(c + 1, e - c - 1).c_str()), 0, 0, 0 });
            p = e + 1;
        }
        execute();
        dumpTrace();
        rawWrite(1, "REPLAY-RESULT passed (" + std::to_string(clog_->size()) + " choice points, " + std::to_string(stepCount) + " steps)\n" + *obsText + "\n");
        return 0;
    }
    if (mode != "run" || argc < 7)
        return 2;
    curDriver = findDriver(argv[2]);
    if (!curDriver) {
        fprintf(stderr, "no such driver\n");
        return 2;
    }
    int bound = atoi(argv[3]);
    double budget = atof(argv[4]);
    workers = atoi(argv[5]);
    std::string out = argv[6];
    vt::thoroughTier = argc > 7 && std::string(argv[7]) == "thorough";
    double t0 = now();
    raceShm = (RaceShm*)mmap(0, sizeof(RaceShm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    Result r;
    int rounds = 0;
    bool isolated = false;
    for (;;) {
        ++rounds;
        r = runAll(bound, budget > 0 ? t0 + budget : 0, out);
        if (r.kind == "internal" && !isolate && r.msg.find("divergence") != std::string::npos) {
            isolate = isolated = true; // process state survives executions: give each one a fresh process
            continue;
        }
        // accesses found racing become scheduling points of the next round
        if (r.kind == "ok" && (size_t)raceShm->n > frozen->size() && rounds < 6 && (budget <= 0 || now() < t0 + budget)) {
            frozen->assign(raceShm->pc, raceShm->pc + raceShm->n);
            std::sort(frozen->begin(), frozen->end());
            if (getenv("VT_SHOW_POINTS"))
                for (int i = 0; i < raceShm->n; ++i)
                    fprintf(stderr, "%lx %s\n", (unsigned long)raceShm->pc[i], raceShm->what[i]);
            continue;
        }
        break;
    }
    FILE* f = fopen(out.c_str(), "w");
    auto esc = [](const std::string& s) {
        std::string r;
        for (char c : s) {
            if (c == '\n')
                r += "\\n";
            else if (c == '"' || c == '\\') {
                r += '\\';
                r += c;
            } else if ((unsigned char)c < 32 || (unsigned char)c > 126)
                r += '.';
            else
                r += c;
        }
        return r;
    };
    fprintf(f, "{\"result\":\"%s\",\"executions\":%ld,\"tree_nodes\":%ld,\"steps\":%ld,\"max_choice_points\":%ld,\"max_steps\":%ld,\"bound\":%d,\"completed_bound\":%d,\"completed\":%s,\"isolated\":%s,\"rounds\":%d,\"race_points\":%zu,\"outcomes\":%zu,\"message\":\"%s\",\"devs\":\"%s\",\"wall\":%.2f}\n",
        r.kind.c_str(), r.execs, r.nodes, r.steps, r.maxPoints, r.maxSteps, bound, r.boundDone, r.timedOut ? "false" : "true", isolated ? "true" : "false", rounds, frozen->size(), r.outcomes, esc(r.msg).c_str(), r.devs.c_str(), now() - t0);
    fclose(f);
    return r.kind == "ok" ? 0 : r.kind == "violated" ? 3 : 4;
}
