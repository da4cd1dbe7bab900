// C17: no data races, no use of freed memory. Decided by the race build: every execution is checked by a happens-before
// detector over all accesses of the library, Boost and the inlined code of this file.
#include "ops.h"
using namespace drv;

namespace {
// everything the reader thread dispatches
string traffic(uint32_t ok, uint32_t err, int order)
{
    string s = inSignal(5, "x"), c = inCall(6, "y"), r = inReturn(ok, "r"), e = inError(err, "e");
    return order == 0 ? s + c + r + e : order == 1 ? e + r + c + s : r + s + e + c;
}
void equip(DBus::Native& n, const Hooks& h, uint32_t& ok, uint32_t& err)
{
    doOp(n, O_REG_SIGNAL, "", h);
    doOp(n, O_REG_CALL, "", h);
    doOp(n, O_ADD_MATCH, "", h);
    doOp(n, O_CALL, "ok", h);
    doOp(n, O_CALL, "err", h);
    vt::idle();
    for (auto& m : parseSent(0).msgs) {
        if (firstArg(m) == "ok")
            ok = m.serial;
        if (firstArg(m) == "err")
            err = m.serial;
    }
}

// two application threads, one operation each, while all four kinds of messages are dispatched and handlers send
void pairs(int nthreads, bool handlersAct)
{
    int a = vt::pick(NOPS - 1, "operation of A"), b = a + vt::pick(NOPS - 1 - a, "operation of B");
    int c = nthreads > 2 ? vt::pick(NOPS - 1, "operation of C") : 0;
    vt::trace(string(opName(a)) + " / " + opName(b));
    NativeP n = ready();
    Hooks h, quiet;
    int inHandler = handlersAct ? vt::pick(NOPS - 1, "operation of handlers") : 0;
    if (handlersAct) {
        h.signal = [&](const SG&) { doOp(*n, inHandler, "h", quiet); };
        h.call = [&](const MC&) { doOp(*n, inHandler, "h", quiet); };
        h.ok = [&](const MR&) { doOp(*n, inHandler, "h", quiet); };
        h.err = [&](const ER&) { doOp(*n, inHandler, "h", quiet); };
    }
    uint32_t ok = 0, err = 0;
    equip(*n, h, ok, err);
    vt::deliver(0, traffic(ok, err, 0));
    int t1 = vt::spawn("A", [&] { doOp(*n, a, "a", h); });
    int t2 = vt::spawn("B", [&] { doOp(*n, b, "b", h); });
    int t3 = nthreads > 2 ? vt::spawn("C", [&] { doOp(*n, c, "c", h); }) : 0;
    vt::join(t1);
    vt::join(t2);
    if (t3)
        vt::join(t3);
    vt::idle();
    n.reset();
    vt::observe(opName(a));
}
// during the handshake: messages are queued, then pumped by the reader thread
void handshake()
{
    int a = vt::pick(NOPS - 1, "operation of A"), b = a + vt::pick(NOPS - 1 - a, "operation of B");
    NativeP n = open();
    Hooks h;
    spawnBus(0, [](const ref::Msg& m) {
        if (m.type == 1 && !(m.flags & 1))
            vt::deliver(0, (m.serial & 1) ? inReturn(m.serial, "r") : inError(m.serial, "e"));
    });
    int t1 = vt::spawn("A", [&] { doOp(*n, a, "a", h); });
    int t2 = vt::spawn("B", [&] { doOp(*n, b, "b", h); });
    bool fd = vt::pick(2, "mode");
    n->BeginAuth(fd ? AP::AUTH_NEGOTIATE_UNIX_FD : AP::AUTH_BASIC);
    vt::join(t1);
    vt::join(t2);
    vt::idle();
    n.reset();
    vt::observe(opName(a));
}
// BeginAuth itself from several threads, while the server answers or rejects
void begins()
{
    int a = vt::pick(NOPS, "operation of A");
    static const char* const A[] = { "OK 1\r\n", "REJECTED\r\nOK 1\r\n", "ERROR x\r\n", "OK 1\r\nAGREE_UNIX_FD\r\n" };
    string ans = A[vt::pick(4, "answer")];
    NativeP n = open();
    vt::spawnEnv("peer", [ans] {
        vt::await([] { return vt::sent(0).size() > 10; }, "AUTH");
        vt::deliver(0, ans);
    });
    int t1 = vt::spawn("A", [&] { doOp(*n, a, "a"); });
    n->BeginAuth(AP::AUTH_NEGOTIATE_UNIX_FD);
    vt::join(t1);
    vt::idle();
    n.reset();
    vt::observe(opName(a));
}
// a handler hands the message it received over to another thread, which reads it while dispatch goes on
void handOver()
{
    NativeP n = ready();
    pthread_mutex_t m = PTHREAD_MUTEX_INITIALIZER;
    std::unique_ptr<SG> kept;
    bool have = false;
    n->registerSignalHandler("i.f.S", [&](const SG& s) {
        pthread_mutex_lock(&m);
        kept.reset(new SG(s));
        have = true;
        pthread_mutex_unlock(&m);
    });
    vt::deliver(0, inSignal(5, "x") + inSignal(6, "y") + inSignal(7, "x"));
    int seen = 0;
    int t = vt::spawn("A", [&] {
        for (int i = 0; i < 2; ++i) {
            std::unique_ptr<SG> mine;
            pthread_mutex_lock(&m);
            mine.swap(kept);
            pthread_mutex_unlock(&m);
            if (mine) {
                VT_CHECK(mine->getHeaderMember() == "S" && mine->getHeaderInterface() == "i.f" && mine->getHeaderPath() == "/o", "a copied message changed");
                VT_CHECK(argOf(*mine) == (mine->getParameterCount() && DBus::Type::asString(mine->getParameter(0)) == "y" ? "y" : "x"), "a copied message changed");
                mine->marshall("");
                ++seen;
            }
            n->broadcastSignal(mkSignal("a"));
        }
    });
    vt::join(t);
    vt::idle();
    n.reset();
    vt::observe(to_string(seen));
}
// messages that one thread makes are sent by another, and sent twice at once
void sameMessage()
{
    int kind = vt::pick(2, "kind");
    NativeP n = ready();
    SG s = mkSignal("s");
    MC c = mkCall("c");
    auto f = [&] {
        if (kind)
            n->sendSignal("d", s);
        else
            n->sendMethodCall("d", c);
    };
    int t1 = vt::spawn("A", f), t2 = vt::spawn("B", f);
    vt::join(t1);
    vt::join(t2);
    vt::idle();
    VT_CHECK(parseSent(0).msgs.size() == 2, "the message was not sent twice");
    n.reset();
}
// short writes and a filling buffer: write completion meets sending threads
void writes()
{
    vt::kcfg().shortWrites = true;
    int a = vt::pick(6, "operation of A"), b = vt::pick(6, "operation of B");
    NativeP n = ready();
    int t1 = vt::spawn("A", [&] { doOp(*n, a, "a"); doOp(*n, O_STATS, ""); });
    int t2 = vt::spawn("B", [&] { doOp(*n, b, "b"); });
    vt::join(t1);
    vt::join(t2);
    vt::idle();
    n.reset();
}
// two connections share the process wide state
void twoConnections()
{
    int a = vt::pick(NOPS - 1, "operation of A"), b = a + vt::pick(NOPS - 1 - a, "operation of B");
    NativeP n = ready();
    std::unique_ptr<NativeP> m(new NativeP(ready()));
    Hooks h;
    doOp(*n, O_REG_SIGNAL, "", h);
    doOp(**m, O_REG_SIGNAL, "", h);
    vt::idle();
    vt::deliver(0, inSignal(5, "x") + inCall(6, "x"));
    vt::deliver(1, inSignal(5, "x") + inCall(6, "x"));
    int t1 = vt::spawn("A", [&] { doOp(*n, a, "a", h); });
    int t2 = vt::spawn("B", [&] { doOp(**m, b, "b", h); m.reset(); });
    vt::join(t1);
    vt::join(t2);
    vt::idle();
    n.reset();
}

const int F = vt::F_RACEFAIL | vt::F_FREE;
vt::Reg r1("C17", "c17_pairs", 0, 0, [] { pairs(2, false); }, F, 1, 2);
vt::Reg r2("C17", "c17_handlers", 0, 0, [] { pairs(2, true); }, F, 0, 1);
vt::Reg r3("C17", "c17_triples", 0, 0, [] { pairs(3, false); }, F, 0, 1);
vt::Reg r4("C17", "c17_handshake", 0, 0, handshake, F, 1, 2);
vt::Reg r5("C17", "c17_begin", 0, 0, begins, F, 1, 2);
vt::Reg r6("C17", "c17_handover", 0, 0, handOver, vt::F_RACEFAIL, 2, 3);
vt::Reg r7("C17", "c17_same_message", 0, 0, sameMessage, F, 2, 3);
vt::Reg r8("C17", "c17_writes", 0, 0, writes, F, 1, 2);
vt::Reg r9("C17", "c17_connections", 0, 0, twoConnections, F, 0, 1);
}
