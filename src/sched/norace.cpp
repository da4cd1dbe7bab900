// fast build: no instrumentation
#include "engine.h"
namespace eng {
void raceReset() { }
void raceFork(int, int) { }
void raceJoin(int, int) { }
void raceAcquire(const void*) { }
void raceRelease(const void*) { }
void raceAlloc(void*, size_t) { }
void raceFree(void*, size_t) { }
bool raceEnabled() { return false; }
std::string raceStack(Fiber*) { return ""; }
}
