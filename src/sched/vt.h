// Controlled scheduler, fake kernel and explorer: driver-side interface.
#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace vt {

// ---- choices -------------------------------------------------------------
// A data choice: every alternative is explored and costs nothing.
int pick(int n, const char* what);
// An environment deviation: alternative 0 is the default, others cost 1 each.
int deviate(int n, const char* what);
// A scheduling point of the calling fiber.
void point(const char* what);

// ---- threads -------------------------------------------------------------
int spawn(const std::string& name, const std::function<void()>& fn); // application thread
int spawnEnv(const std::string& name, const std::function<void()>& fn); // environment actor (lowest priority)
void join(int id);
// blocks the caller until pred holds (pred must be side-effect free)
void await(const std::function<bool()>& pred, const char* what);
// blocks until no other thread or environment actor can run
void idle();
// virtual time passes (it does so only while nothing can run)
void elapse(double seconds);
// an hour passes within the caller (only in drivers that are running as NAME_slow)
void lapse();
int self();

// ---- verdicts ------------------------------------------------------------
[[noreturn]] void fail(const std::string& msg);
void observe(const std::string& what); // contributes to the outcome of this execution
#define VT_CHECK(c, msg) \
    do {                 \
        if (!(c))        \
            vt::fail(msg); \
    } while (0)
bool verbose();
void trace(const std::string& what); // only recorded in replays
bool inFiber();

// ---- fake kernel: the other end of connections ----------------------------
struct KernelCfg {
    bool shortReads = false; // recv may return fewer bytes than available
    bool shortWrites = false; // send may be short or would block
    bool drains = true; // peer empties the socket buffer after a short/blocked write
    bool refuse = false; // connect fails
    long uid = -1; // what getuid() reports (-1: the real one)
    bool interrupts = false; // system calls may fail with EINTR, condition variables may wake up spuriously
    bool sink = false; // what the client writes is counted, but not kept
    long horizon = 2000000; // scheduling steps after which an execution counts as a livelock
    int blockAfter = -1; // socket accepts this many bytes in total and then blocks for ever (drains=false)
};
KernelCfg& kcfg();

// connections made by the code under test, in order of connect()
int connections();
std::string connAddress(int conn); // sun_path bytes as given to connect (without family), exactly addrlen
const std::string& sent(int conn); // bytes the client wrote
size_t sentTotal(int conn); // their number, including those not kept
void deliver(int conn, const std::string& bytes); // bytes for the client to read
void closePeer(int conn); // peer closes its end completely
void shutPeer(int conn); // peer shuts down its sending side only
void resetPeer(int conn); // ECONNRESET
bool connClosed(int conn); // client closed its descriptor
bool readAll(int conn); // the client has consumed everything delivered
int openFds();

// ---- drivers ---------------------------------------------------------------
struct Driver {
    const char* prop;
    const char* name;
    int quick, thorough; // deviation bounds
    std::function<void()> fn;
    int flags;
    int raceQuick, raceThorough; // bounds in the race build (-1: not run there)
};
enum { F_RACEFAIL = 1, // race build: a data race is a violation (otherwise racing accesses become scheduling points)
    F_FREE = 1024, // the driver makes free data choices
    F_SLOWTOO = 8, // also run as NAME_slow: an hour passes at every idle()
    F_SLOW = 16,
    F_COARSE = 2, // scheduling points only at library level operations (not inside asio-internal non-recursive locks)
};
std::vector<Driver>& drivers();
struct Reg {
    Reg(const char* p, const char* n, int q, int t, std::function<void()> f, int flags = 0, int rq = -2, int rt = -2)
    {
        drivers().push_back({ p, n, q, t, f, flags, rq == -2 ? (q < 1 ? q : 1) : rq, rt == -2 ? (t < 2 ? t : 2) : rt });
    }
};

bool isRaceBuild();
bool thorough();
}
