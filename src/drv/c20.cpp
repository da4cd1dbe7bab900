// C20: no interleaving of threads, handlers and peer behaviour leaves anybody waiting for ever. The engine reports an
// execution in which no thread can run although an application thread has not finished.
#include "ops.h"
using namespace drv;

namespace {
enum { H_CALL,
    H_SIGNAL,
    H_RULE,
    H_OK,
    H_ERR,
    NH };
// one handler kind performs an operation while application threads perform others
void handlerOps(int threads)
{
    int kind = vt::pick(NH, "handler"), hop = vt::pick(NOPS - 1, "operation in the handler"), a = vt::pick(NOPS - 1, "operation of A");
    int b = threads > 1 ? vt::pick(NOPS - 1, "operation of B") : 0;
    NativeP n = ready();
    int runs = 0;
    Hooks quiet, h;
    auto act = [&] {
        vt::lapse();
        ++runs;
        doOp(*n, hop, "h", quiet);
        vt::point("handler");
        doOp(*n, (hop + 7) % (NOPS - 1), "h", quiet);
    };
    if (kind == H_CALL)
        h.call = [&](const MC&) { act(); };
    if (kind == H_SIGNAL || kind == H_RULE)
        h.signal = [&](const SG&) { act(); };
    if (kind == H_OK)
        h.ok = [&](const MR&) { act(); };
    if (kind == H_ERR)
        h.err = [&](const ER&) { act(); };
    if (kind == H_RULE)
        doOp(*n, O_ADD_MATCH, "", h);
    else
        doOp(*n, kind == H_CALL ? O_REG_CALL : kind == H_SIGNAL ? O_REG_SIGNAL : O_CALL, "0", h);
    vt::idle();
    uint32_t serial = 0;
    for (auto& m : parseSent(0).msgs)
        serial = m.serial;
    vt::deliver(0, kind == H_CALL ? inCall(5, "x") : kind == H_OK ? inReturn(serial, "r") : kind == H_ERR ? inError(serial, "e") : inSignal(5, "x"));
    int t1 = vt::spawn("A", [&] { doOp(*n, a, "a", quiet); });
    int t2 = threads > 1 ? vt::spawn("B", [&] { doOp(*n, b, "b", quiet); }) : 0;
    vt::join(t1);
    if (t2)
        vt::join(t2);
    vt::idle();
    VT_CHECK(runs >= (kind == H_RULE && (a == O_REMOVE_MATCH || b == O_REMOVE_MATCH || hop == O_REMOVE_MATCH) ? 0 : kind == H_CALL && (a == O_UNREG_CALL || b == O_UNREG_CALL) ? 0 : kind == H_SIGNAL && (a == O_UNREG_SIGNAL || b == O_UNREG_SIGNAL) ? 0 : 1), "the handler did not run");
    // the connection still works
    int later = 0;
    n->unRegisterSignalHandler("i.f.Later");
    n->registerSignalHandler("i.f.Later", [&](const SG&) { ++later; });
    vt::deliver(0, inSignal(9, "x", "Later"));
    vt::idle();
    VT_CHECK(later == 1, "the reader thread no longer dispatches");
    n.reset();
    vt::observe(to_string(kind) + opName(hop));
}
// the peer never reads nor answers: nothing but destruction may wait for it
void silentPeer()
{
    int a = vt::pick(NOPS, "first operation"), b = vt::pick(NOPS, "second operation"), c = vt::pick(NOPS, "operation of the other thread");
    int phase = vt::pick(3, "phase"); // before BeginAuth, no answer to it, authenticated
    int room = vt::pick(3, "bytes the socket takes");
    NativeP n;
    if (phase == 2) {
        n = ready();
        vt::kcfg().blockAfter = vt::sent(0).size() + room * 40;
    } else {
        vt::kcfg().blockAfter = room * 5;
        n = open();
        if (phase == 1)
            n->BeginAuth(AP::AUTH_BASIC);
    }
    vt::kcfg().drains = false;
    int t = vt::spawn("A", [&] { doOp(*n, c, "c"); });
    for (int round = 0; round < 2; ++round) {
        doOp(*n, a, "a");
        doOp(*n, b, "b");
    }
    vt::join(t);
    vt::idle();
    n.reset();
    vt::observe(to_string(phase));
}
// much is sent while the peer reads nothing: one message or many, small and large, from one or two threads or a handler
void backlog()
{
    static const int COUNT[] = { 1, 40, 3000 }, SIZE[] = { 1, 5000, 70000, 1100000 };
    int count = COUNT[vt::pick(3, "messages")], size = SIZE[vt::pick(count > 40 ? 2 : 4, "size")];
    int phase = vt::pick(3, "phase"), who = vt::pick(3, "sender"), room = vt::pick(3, "bytes the socket takes");
    NativeP n;
    if (phase == 2) {
        n = ready();
        vt::kcfg().blockAfter = vt::sent(0).size() + room * 100;
    } else {
        if (who == 2)
            return;
        vt::kcfg().blockAfter = room * 5;
        n = open();
        if (phase == 1)
            n->BeginAuth(AP::AUTH_BASIC);
    }
    vt::kcfg().drains = false;
    string text(size, 'x');
    auto work = [&] {
        for (int i = 0; i < count; ++i)
            if (i % 3 == 0)
                n->broadcastSignal(mkSignal(text));
            else if (i % 3 == 1)
                n->sendMethodCall("d.e", mkCall(text), [](const MR&) {}, [](const ER&) {});
            else {
                DBus::Message::MethodReturn r(7);
                r.addParameter(text);
                n->sendMethodReturn("d", r);
            }
    };
    if (who == 2) {
        bool done = false;
        n->registerSignalHandler("i.f.S", [&](const SG&) { work(); done = true; });
        vt::deliver(0, inSignal(5, "x"));
        vt::idle();
        VT_CHECK(done, "a handler that sends waits for the peer");
    } else {
        int t = who == 1 ? vt::spawn("A", work) : -1;
        work();
        if (t >= 0)
            vt::join(t);
    }
    vt::idle();
    n.reset();
    vt::observe(to_string(phase));
}
// operations meet the completion of the handshake on the reader thread
void handshakeOps()
{
    int a = vt::pick(NOPS - 1, "operation of A"), b = vt::pick(NOPS - 1, "operation of B");
    bool fd = vt::pick(2, "mode");
    NativeP n = open();
    spawnBus(0, [](const ref::Msg& m) {
        if (m.type == 1 && !(m.flags & 1))
            vt::deliver(0, (m.serial & 1) ? inReturn(m.serial, "r") : inError(m.serial, "e"));
    });
    Hooks h;
    h.ok = [&](const MR&) { n->broadcastSignal(mkSignal("h")); };
    h.err = [&](const ER&) { n->callRemoveMatch(RULE1); };
    int t1 = vt::spawn("A", [&] { doOp(*n, a, "a", h); });
    int t2 = vt::spawn("B", [&] { doOp(*n, b, "b", h); });
    n->BeginAuth(fd ? AP::AUTH_NEGOTIATE_UNIX_FD : AP::AUTH_BASIC);
    vt::join(t1);
    vt::join(t2);
    vt::idle();
    VT_CHECK(parseSent(0).begun, "the handshake did not complete");
    n.reset();
}
// every operation, twice, from every kind of handler of every kind of message, with the peer silent or gone
void reentrant()
{
    int a = vt::pick(NOPS, "first operation"), b = vt::pick(NOPS, "second operation"), kind = vt::pick(NH, "handler");
    int peer = vt::pick(3, "peer");
    bool throws = vt::pick(2, "throws");
    NativeP n = ready();
    int runs = 0;
    Hooks quiet, h;
    auto act = [&] {
        vt::lapse();
        ++runs;
        doOp(*n, a, "a", quiet);
        doOp(*n, b, "b", quiet);
        if (throws)
            throw std::runtime_error("handler");
    };
    h.call = [&](const MC&) { act(); };
    h.signal = [&](const SG&) { act(); };
    h.ok = [&](const MR&) { act(); };
    h.err = [&](const ER&) { act(); };
    if (kind == H_RULE)
        doOp(*n, O_ADD_MATCH, "", h);
    else
        doOp(*n, kind == H_CALL ? O_REG_CALL : kind == H_SIGNAL ? O_REG_SIGNAL : O_CALL, "0", h);
    vt::idle();
    uint32_t serial = 0;
    for (auto& m : parseSent(0).msgs)
        serial = m.serial;
    if (peer == 1) {
        vt::kcfg().blockAfter = vt::sent(0).size() + 10;
        vt::kcfg().drains = false;
    }
    string msg = kind == H_CALL ? inCall(5, "x") : kind == H_OK ? inReturn(serial, "r") : kind == H_ERR ? inError(serial, "e") : inSignal(5, "x");
    vt::deliver(0, msg + msg);
    if (peer == 2)
        vt::closePeer(0);
    vt::idle();
    VT_CHECK(runs >= 1, "the handler did not run");
    VT_CHECK(vt::readAll(0), "the reader thread is stuck");
    // every operation from another thread still completes
    int t = vt::spawn("A", [&] { for (int o = 0; o < NOPS; ++o) doOp(*n, o, "x", quiet); });
    vt::join(t);
    n.reset();
    vt::observe(to_string(runs));
}
// two connections whose handlers use each other. Handlers run with the lock of their table held, so two handlers that
// change each other's table wait for each other: a known finding, explored on its own.
void crossed(bool known)
{
    int oa, ob;
    if (known) {
        oa = vt::pick(2, "operation of a's handler on b") ? O_REG_CALL : O_UNREG_CALL;
        ob = vt::pick(2, "operation of b's handler on a") ? O_REG_SIGNAL : O_UNREG_SIGNAL;
    } else {
        oa = vt::pick(NOPS - 1, "operation of a's handler on b"), ob = vt::pick(NOPS - 1, "operation of b's handler on a");
        if ((oa == O_REG_CALL || oa == O_UNREG_CALL) && (ob == O_REG_SIGNAL || ob == O_UNREG_SIGNAL))
            return;
    }
    NativeP a = ready(), b = ready();
    Hooks quiet;
    int runs = 0;
    a->registerSignalHandler("i.f.S", [&](const SG&) { ++runs; doOp(*b, oa, "x", quiet); });
    b->registerMethodCallHandler("i.f.M", [&](const MC&) { ++runs; doOp(*a, ob, "y", quiet); });
    vt::deliver(0, inSignal(5, "x"));
    vt::deliver(1, inCall(5, "x"));
    vt::idle();
    VT_CHECK(runs == 2 || oa == O_UNREG_CALL || ob == O_UNREG_SIGNAL, "a handler did not run");
    a.reset();
    b.reset();
}
vt::Reg r1("C20", "c20_handler", 1, 2, [] { handlerOps(1); }, vt::F_FREE | vt::F_SLOWTOO, -1, -1);
vt::Reg r2("C20", "c20_threads", 0, 1, [] { handlerOps(2); }, vt::F_FREE, -1, -1);
vt::Reg r3("C20", "c20_silent", 0, 0, silentPeer, vt::F_FREE | vt::F_SLOWTOO, -1, -1);
vt::Reg r3b("C20", "c20_unanswered", 1, 2, silentPeer, vt::F_FREE, -1, -1);
vt::Reg r4("C20", "c20_handshake", 1, 2, handshakeOps, vt::F_FREE, -1, 1);
vt::Reg r5("C20", "c20_reentrant", 0, 0, reentrant, vt::F_FREE, -1, -1);
vt::Reg r6("C20", "c20_crossed", 2, 3, [] { crossed(false); }, vt::F_FREE, -1, 0);
vt::Reg r8("C20", "c20_backlog", 0, 0, backlog, vt::F_FREE, -1, -1);
vt::Reg r7("C20", "c20_crossed_known", 1, 1, [] { crossed(true); }, vt::F_FREE, -1, -1);
}
