// engine internals shared with race.cpp
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>

namespace eng {

enum { MAXF = 16 };

struct VC {
    uint32_t c[MAXF];
};

struct Fiber {
    int id = 0;
    void* sp = 0;
    char* stack = 0;
    bool used = false, finished = false, env = false, killed = false;
    bool waiting = false, idleWait = false, timed = false, timedOut = false, detached = false, yielded = false;
    double deadline = 0;
    std::function<bool()> pred;
    const char* what = "";
    std::string name;
    std::function<void()> body;
    void* (*proc)(void*) = 0;
    void* arg = 0;
    void* ret = 0;
    void* eh[2] = { 0, 0 };
    int err = 0;
    void* once = 0; // libstdc++'s thread_local variables of std::call_once
    void (*onceCall)() = 0;
    int engDepth = 0;
    void* tls[256];
    char* native = 0; // saved thread_local storage of the program
    void* frames[256]; // shadow call stack (race build)
    int depth = 0;
};

extern Fiber* cur;
extern int engDepth;
extern bool running;
struct Guard {
    Guard() { ++engDepth; }
    ~Guard() { --engDepth; }
};

// race.cpp (no-ops in the fast build)
void raceReset();
void raceFork(int parent, int child);
void raceJoin(int me, int other);
void raceAcquire(const void* obj);
void raceRelease(const void* obj);
void raceAlloc(void* p, size_t n);
void raceFree(void* p, size_t n);
bool raceEnabled();
void tlsRange(char*& base, size_t& size); // the program's own thread_local storage (engine.cpp)
std::string raceStack(Fiber* f);
bool racePointPc(void* pc); // engine.cpp
void raceNote(void* pc); // engine.cpp
void raceFound(uintptr_t addr, void* pcA, void* pcB, const std::string& msg); // engine.cpp

std::string fiberName(int id);
void* frameAt(int id, int i);
[[noreturn]] void failImpl(const std::string& m);
void pointImpl(const char* what);
}
