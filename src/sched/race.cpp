// Own happens-before checker behind the compiler's -fsanitize=thread instrumentation (the TSan runtime is not linked).
// Vector clocks per fiber and per sync object, exact byte masks per 8-byte granule, freed-memory detection, shadow call
// stacks. Races found on plain accesses are either violations (C17) or become scheduling points (race points).
#include "engine.h"
#include "vt.h"
#include <cerrno>
#include <mutex>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <dlfcn.h>
#include <elf.h>
#include <fcntl.h>
#include <unistd.h>
#include <algorithm>
#include <string>
#include <sys/mman.h>
#include <unordered_map>
#include <vector>

namespace eng {

static VC clocks[MAXF];
struct SyncTable {
    std::unordered_map<const void*, VC> m;
};
static SyncTable* syncs = 0;

struct Acc {
    void* pc;
    uint32_t clk;
    uint8_t fid, mask, kind; // kind: bit0 write, bit1 atomic
    uint8_t used;
};
enum { WAYS = 6 };
struct Cell {
    uint64_t key; // granule+1
    uint32_t epoch;
    uint8_t freed; // byte mask of freed bytes
    uint8_t next;
    Acc a[WAYS];
};
enum { TBITS = 18,
    TSIZE = 1 << TBITS };
static Cell* table = 0;
static uint32_t epoch = 0;
static size_t inUse = 0;

static int* errnoAt = 0;
static char* tlsAt = 0;
static size_t tlsLen = 0;

static Cell* cell(uintptr_t g, bool create)
{
    uint64_t key = g + 1;
    size_t h = (key * 0x9E3779B97F4A7C15ull) >> (64 - TBITS);
    for (size_t i = 0; i < TSIZE; ++i) {
        Cell& c = table[(h + i) & (TSIZE - 1)];
        if (c.epoch != epoch) {
            if (!create)
                return 0;
            if (inUse >= TSIZE / 4 * 3)
                return 0; // untracked (drivers stay far below this)
            ++inUse;
            memset(&c, 0, sizeof c);
            c.epoch = epoch;
            c.key = key;
            return &c;
        }
        if (c.key == key)
            return &c;
    }
    return 0;
}

bool raceEnabled() { return true; }

void raceReset()
{
    if (!table) {
        table = (Cell*)mmap(0, sizeof(Cell) * TSIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        syncs = new SyncTable();
        errnoAt = &errno;
        tlsRange(tlsAt, tlsLen);
    }
    ++epoch;
    inUse = 0;
    syncs->m.clear();
    memset(clocks, 0, sizeof clocks);
    for (int i = 0; i < MAXF; ++i)
        clocks[i].c[i] = 1;
}
static void joinVC(VC& a, const VC& b)
{
    for (int i = 0; i < MAXF; ++i)
        if (b.c[i] > a.c[i])
            a.c[i] = b.c[i];
}
void raceFork(int parent, int child)
{
    if (parent < 0)
        return;
    joinVC(clocks[child], clocks[parent]);
    ++clocks[parent].c[parent];
}
void raceJoin(int me, int other) { joinVC(clocks[me], clocks[other]); }
void raceAcquire(const void* o)
{
    if (!cur)
        return;
    Guard g;
    auto it = syncs->m.find(o);
    if (it != syncs->m.end())
        joinVC(clocks[cur->id], it->second);
}
void raceRelease(const void* o)
{
    if (!cur)
        return;
    Guard g;
    auto ins = syncs->m.emplace(o, VC());
    if (ins.second)
        memset(&ins.first->second, 0, sizeof(VC));
    joinVC(ins.first->second, clocks[cur->id]);
    ++clocks[cur->id].c[cur->id];
}

// functions of this program, local ones (lambdas, anonymous namespaces) included, with the source file of those
struct Fn {
    uintptr_t lo, hi;
    const char *name, *file;
};
static std::vector<Fn>* fns = 0;
static std::vector<std::pair<uintptr_t, uintptr_t>>* guardVars = 0; // guards of function-local statics
static void loadFns()
{
    fns = new std::vector<Fn>();
    guardVars = new std::vector<std::pair<uintptr_t, uintptr_t>>();
    int fd = ::open("/proc/self/exe", O_RDONLY);
    if (fd < 0)
        return;
    off_t n = lseek(fd, 0, SEEK_END);
    char* b = (char*)mmap(0, n, PROT_READ, MAP_PRIVATE, fd, 0);
    ::close(fd);
    if (b == MAP_FAILED)
        return;
    Elf64_Ehdr* eh = (Elf64_Ehdr*)b;
    Elf64_Shdr* sh = (Elf64_Shdr*)(b + eh->e_shoff);
    for (int i = 0; i < eh->e_shnum; ++i)
        if (sh[i].sh_type == SHT_SYMTAB) {
            const char* str = b + sh[sh[i].sh_link].sh_offset;
            Elf64_Sym* sy = (Elf64_Sym*)(b + sh[i].sh_offset);
            const char* file = "";
            for (size_t k = 0; k < sh[i].sh_size / sizeof(Elf64_Sym); ++k) {
                int t = ELF64_ST_TYPE(sy[k].st_info);
                if (t == STT_FILE)
                    file = str + sy[k].st_name;
                else if (t == STT_OBJECT && strncmp(str + sy[k].st_name, "_ZGV", 4) == 0)
                    guardVars->push_back({ sy[k].st_value, sy[k].st_value + 8 });
                else if (t == STT_FUNC && sy[k].st_size)
                    fns->push_back({ sy[k].st_value, sy[k].st_value + sy[k].st_size, str + sy[k].st_name, ELF64_ST_BIND(sy[k].st_info) == STB_LOCAL ? file : "" });
            }
        }
    std::sort(fns->begin(), fns->end(), [](const Fn& a, const Fn& b) { return a.lo < b.lo; });
}
static const Fn* fnOf(void* pc)
{
    if (!fns)
        loadFns();
    uintptr_t a = (uintptr_t)pc;
    auto it = std::upper_bound(fns->begin(), fns->end(), a, [](uintptr_t v, const Fn& f) { return v < f.lo; });
    if (it == fns->begin())
        return 0;
    --it;
    return a < it->hi ? &*it : 0;
}
static std::string symbol(void* pc)
{
    if (const Fn* f = fnOf(pc)) {
        int st;
        char* d = abi::__cxa_demangle(f->name, 0, 0, &st);
        std::string s = st == 0 && d ? d : f->name;
        free(d);
        return s;
    }
    Dl_info i;
    if (dladdr(pc, &i) && i.dli_sname) {
        int st;
        char* d = abi::__cxa_demangle(i.dli_sname, 0, 0, &st);
        std::string s = st == 0 && d ? d : i.dli_sname;
        free(d);
        return s;
    }
    char b[32];
    snprintf(b, sizeof b, "%p", pc);
    return b;
}
std::string raceStack(Fiber* f)
{
    std::string s;
    int lo = f->depth > 256 ? 256 : f->depth;
    int shown = 0;
    for (int i = lo - 1; i >= 0 && shown < 14; --i, ++shown) {
        std::string n = symbol(f->frames[i]);
        if (n.size() > 160)
            n = n.substr(0, 160) + "...";
        s += "\n        at " + n;
    }
    return s;
}

static bool isDriver(const char* f) { return f[0] == 'c' && f[1] >= '0' && f[1] <= '9'; }
// --- code classification: is this pc (or its caller chain of std:: helpers) library-under-test code?
static std::unordered_map<void*, int>* classes = 0;
static int classOf(void* pc)
{
    if (!classes)
        classes = new std::unordered_map<void*, int>();
    auto it = classes->find(pc);
    if (it != classes->end())
        return it->second;
    std::string s = symbol(pc);
    int c;
    // look at the name of the function itself, not at its template arguments or its return type
    int depth = 0;
    std::string head;
    for (char ch : s) {
        if (ch == '<')
            ++depth;
        if (ch == '>')
            --depth;
        if (ch == '(' && depth == 0 && !head.empty())
            break;
        if (depth == 0 && ch != '>')
            head += ch;
    }
    size_t sp = head.rfind(' ');
    if (sp != std::string::npos)
        head = head.substr(sp + 1);
    const Fn* f = fnOf(pc);
    if (f && (head.compare(0, 5, "drv::") == 0 || s.find("drv::") != std::string::npos || (f->file[0] && isDriver(f->file))))
        c = 3; // the driver
    else if (head.compare(0, 6, "DBus::") == 0 || (f && strncmp(f->file, "dbus_", 5) == 0))
        c = 1; // library under test
    else if (head.compare(0, 5, "std::") == 0 || head.compare(0, 11, "__gnu_cxx::") == 0)
        c = 0; // helper: look at the caller
    else
        c = 2; // boost & others
    (*classes)[pc] = c;
    return c;
}
// reference counts (commutative) and guards of local statics are no scheduling points
static bool inertAtomic(uintptr_t addr, void* pc)
{
    for (auto& g : *guardVars)
        if (addr >= g.first && addr < g.second)
            return true;
    const Fn* f = fnOf(pc);
    return f && (strncmp(f->name, "_ZN9__gnu_cxxL12__atomic_add", 28) == 0 || strncmp(f->name, "_ZN9__gnu_cxxL18__exchange_and_add", 34) == 0);
}
// 1 when the innermost non-std frame belongs to the library under test
static bool inLibrary(void* pc)
{
    int c = classOf(pc);
    if (c)
        return c == 1;
    int d = cur->depth > 256 ? 256 : cur->depth;
    for (int i = d - 1; i >= 0; --i) {
        c = classOf(cur->frames[i]);
        if (c)
            return c == 1;
    }
    return false;
}

static std::string describe(uintptr_t addr, const Acc& a)
{
    return std::string((a.kind & 2) ? "atomic " : "") + ((a.kind & 1) ? "write" : "read") + " by thread " + fiberName(a.fid) + " in " + symbol(a.pc);
}

static void check(uintptr_t addr, int size, int kind, void* pc)
{
    Fiber* f = cur;
    if (size == 0)
        return;
    char* st = f->stack;
    if ((char*)addr >= st && (char*)addr < st + (1 << 20))
        return;
    if (addr == (uintptr_t)errnoAt || (addr >= (uintptr_t)tlsAt && addr < (uintptr_t)tlsAt + tlsLen))
        return; // thread_local
    if (addr == (uintptr_t)&std::__once_callable || addr == (uintptr_t)&std::__once_call)
        return;
    VC& me = clocks[f->id];
    uintptr_t end = addr + size;
    for (uintptr_t g = addr >> 3; (g << 3) < end; ++g) {
        unsigned m = 0;
        for (int b = 0; b < 8; ++b)
            if ((g << 3) + b >= addr && (g << 3) + b < end)
                m |= 1u << b;
        Cell* c = cell(g, true);
        if (!c)
            continue;
        if (c->freed & m) {
            failImpl(std::string("use of freed memory: ") + ((kind & 1) ? "write" : "read") + " of " + std::to_string(size) + " bytes in " + symbol(pc));
        }
        int slot = -1;
        // atomic accesses of the library under test to objects that several threads use become scheduling points
        if ((kind & 2) && inLibrary(pc) && !inertAtomic(addr, pc)) {
            bool shared = false;
            for (int i = 0; i < WAYS; ++i)
                shared |= c->a[i].used && c->a[i].fid != f->id;
            if (shared) {
                raceNote(pc);
                for (int i = 0; i < WAYS; ++i)
                    if (c->a[i].used && (c->a[i].kind & 2))
                        raceNote(c->a[i].pc);
            }
        }
        for (int i = 0; i < WAYS; ++i) {
            Acc& a = c->a[i];
            if (!a.used)
                continue;
            if (a.fid == f->id) {
                if (a.mask == m && a.kind == kind)
                    slot = i;
                continue;
            }
            if (!(a.mask & m) || !((a.kind | kind) & 1) || ((a.kind & kind) & 2))
                continue;
            if (a.clk > me.c[a.fid] && !(classOf(pc) == 3 && classOf(a.pc) == 3)) { // the driver's own book-keeping is not judged
                raceFound(addr, a.pc, pc,
                    "data race: " + std::string((kind & 2) ? "atomic " : "") + ((kind & 1) ? "write" : "read") + " by thread " + fiberName(f->id) + " in " + symbol(pc) + ", unsynchronised with " + describe(addr, a));
            }
        }
        if (slot < 0)
            for (int i = 0; i < WAYS; ++i)
                if (!c->a[i].used) {
                    slot = i;
                    break;
                }
        if (slot < 0) { // forget an access that everybody here is ordered after, else the oldest
            for (int i = 0; i < WAYS && slot < 0; ++i)
                if (c->a[i].clk <= me.c[c->a[i].fid])
                    slot = i;
            if (slot < 0)
                slot = c->next++ % WAYS;
        }
        Acc& a = c->a[slot];
        a.used = 1;
        a.fid = f->id;
        a.clk = me.c[f->id];
        a.mask = m;
        a.kind = kind;
        a.pc = pc;
    }
}

void raceAlloc(void* p, size_t n)
{
    if (!table)
        return;
    uintptr_t a = (uintptr_t)p, e = a + n;
    for (uintptr_t g = a >> 3; (g << 3) < e; ++g) {
        Cell* c = cell(g, false);
        if (c) {
            c->freed = 0;
            for (int i = 0; i < WAYS; ++i)
                c->a[i].used = 0;
        }
    }
}
void raceFree(void* p, size_t n)
{
    if (!table || !cur || !running)
        return;
    Guard gd;
    uintptr_t a = (uintptr_t)p, e = a + n;
    for (uintptr_t g = a >> 3; (g << 3) < e; ++g) {
        unsigned m = 0;
        for (int b = 0; b < 8; ++b)
            if ((g << 3) + b < e)
                m |= 1u << b;
        Cell* c = cell(g, true);
        if (!c)
            continue;
        for (int i = 0; i < WAYS; ++i) {
            Acc& x = c->a[i];
            if (x.used && x.fid != cur->id && (x.mask & m) && x.clk > clocks[cur->id].c[x.fid] && !(x.kind & 2))
                raceFound(a, x.pc, x.pc, "data race: memory freed by thread " + fiberName(cur->id) + ", unsynchronised with " + describe(a, x));
        }
        c->freed |= m;
    }
}

#define ACTIVE (running && cur && engDepth == 0)
static inline void access(void* p, int n, int kind, void* pc)
{
    if (!ACTIVE)
        return;
    if (racePointPc(pc))
        pointImpl("racy access");
    Guard g;
    check((uintptr_t)p, n, kind, pc);
}
static inline void atomicPre(void* p, int n, bool write, void* pc)
{
    if (!ACTIVE)
        return;
    if (racePointPc(pc))
        pointImpl("atomic access");
    Guard g;
    check((uintptr_t)p, n, write ? 3 : 2, pc);
}
static inline void acq(void* p, int mo)
{
    if (ACTIVE && mo != __ATOMIC_RELAXED && mo != __ATOMIC_RELEASE)
        raceAcquire(p);
}
static inline void rel(void* p, int mo)
{
    if (ACTIVE && mo != __ATOMIC_RELAXED && mo != __ATOMIC_ACQUIRE && mo != __ATOMIC_CONSUME)
        raceRelease(p);
}
} // namespace eng

using namespace eng;
#define PC __builtin_return_address(0)

extern "C" {
void __tsan_init() { }
void __tsan_func_entry(void* pc)
{
    (void)pc;
    if (running && cur) {
        if (cur->depth < 256)
            cur->frames[cur->depth] = PC;
        ++cur->depth;
    }
}
void __tsan_func_exit()
{
    if (running && cur && cur->depth > 0)
        --cur->depth;
}
#define RW(n)                                                                              \
    void __tsan_read##n(void* p) { access(p, n, 0, PC); }                                  \
    void __tsan_write##n(void* p) { access(p, n, 1, PC); }                                 \
    void __tsan_volatile_read##n(void* p) { access(p, n, 0, PC); }                         \
    void __tsan_volatile_write##n(void* p) { access(p, n, 1, PC); }                        \
    void __tsan_unaligned_read##n(void* p) { access(p, n, 0, PC); }                        \
    void __tsan_unaligned_write##n(void* p) { access(p, n, 1, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, long n) { access(p, n, 0, PC); }
void __tsan_write_range(void* p, long n) { access(p, n, 1, PC); }
void __tsan_vptr_update(void** p, void* v)
{
    if (*p != v)
        access(p, 8, 1, PC);
}
void __tsan_vptr_read(void** p) { access(p, 8, 0, PC); }

#define AT(bits, T)                                                                                                  \
    T __tsan_atomic##bits##_load(const volatile T* a, int mo)                                                        \
    {                                                                                                                \
        atomicPre((void*)a, bits / 8, false, PC);                                                                    \
        T v = __atomic_load_n(a, __ATOMIC_SEQ_CST);                                                                  \
        acq((void*)a, mo);                                                                                           \
        return v;                                                                                                    \
    }                                                                                                                \
    void __tsan_atomic##bits##_store(volatile T* a, T v, int mo)                                                     \
    {                                                                                                                \
        atomicPre((void*)a, bits / 8, true, PC);                                                                     \
        rel((void*)a, mo);                                                                                           \
        __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                                                                    \
    }                                                                                                                \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int)                         \
    {                                                                                                                \
        atomicPre((void*)a, bits / 8, true, PC);                                                                     \
        acq((void*)a, mo);                                                                                           \
        rel((void*)a, mo);                                                                                           \
        return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                          \
    }                                                                                                                \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int)                           \
    {                                                                                                                \
        atomicPre((void*)a, bits / 8, true, PC);                                                                     \
        acq((void*)a, mo);                                                                                           \
        rel((void*)a, mo);                                                                                           \
        return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                          \
    }                                                                                                                \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int mo, int)                               \
    {                                                                                                                \
        atomicPre((void*)a, bits / 8, true, PC);                                                                     \
        acq((void*)a, mo);                                                                                           \
        rel((void*)a, mo);                                                                                           \
        __atomic_compare_exchange_n(a, &c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                                \
        return c;                                                                                                    \
    }
#define RMW(bits, T, op, builtin)                                        \
    T __tsan_atomic##bits##_##op(volatile T* a, T v, int mo)             \
    {                                                                    \
        atomicPre((void*)a, bits / 8, true, PC);                         \
        acq((void*)a, mo);                                               \
        rel((void*)a, mo);                                               \
        return builtin(a, v, __ATOMIC_SEQ_CST);                          \
    }
#define ALL(bits, T)                                \
    AT(bits, T)                                     \
    RMW(bits, T, exchange, __atomic_exchange_n)     \
    RMW(bits, T, fetch_add, __atomic_fetch_add)     \
    RMW(bits, T, fetch_sub, __atomic_fetch_sub)     \
    RMW(bits, T, fetch_and, __atomic_fetch_and)     \
    RMW(bits, T, fetch_or, __atomic_fetch_or)       \
    RMW(bits, T, fetch_xor, __atomic_fetch_xor)     \
    RMW(bits, T, fetch_nand, __atomic_fetch_nand)
ALL(8, uint8_t)
ALL(16, uint16_t)
ALL(32, uint32_t)
ALL(64, uint64_t)
void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int) { }

// block operations carry accesses of their own
static void* rawcpy(void* d, const void* s, size_t n)
{
    void* r = d;
    __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
    return r;
}
void* memcpy(void* d, const void* s, size_t n)
{
    if (ACTIVE && n) {
        access((void*)s, n, 0, PC);
        access(d, n, 1, PC);
    }
    return rawcpy(d, s, n);
}
void* memmove(void* d, const void* s, size_t n)
{
    if (ACTIVE && n) {
        access((void*)s, n, 0, PC);
        access(d, n, 1, PC);
    }
    if (d <= s || (char*)d >= (char*)s + n)
        return rawcpy(d, s, n);
    char* dd = (char*)d + n - 1;
    const char* ss = (const char*)s + n - 1;
    __asm__ volatile("std; rep movsb; cld" : "+D"(dd), "+S"(ss), "+c"(n) : : "memory");
    return d;
}
void* memset(void* d, int v, size_t n)
{
    if (ACTIVE && n)
        access(d, n, 1, PC);
    void* r = d;
    __asm__ volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(v) : "memory");
    return r;
}
int memcmp(const void* a, const void* b, size_t n)
{
    if (ACTIVE && n) {
        access((void*)a, n, 0, PC);
        access((void*)b, n, 0, PC);
    }
    const unsigned char *x = (const unsigned char*)a, *y = (const unsigned char*)b;
    for (size_t i = 0; i < n; ++i)
        if (x[i] != y[i])
            return x[i] < y[i] ? -1 : 1;
    return 0;
}
}
