// C16: a connection may be destroyed at any moment, from any thread but its own reader.
#include "common.h"
using namespace drv;

namespace {
struct Probe {
    bool destroyed = false;
    int runs = 0, inside = 0;
    void enter()
    {
        vt::lapse();
        if (destroyed)
            vt::fail("a callback was invoked after the destructor had returned");
        ++inside;
        ++runs;
        vt::point("callback");
        if (destroyed)
            vt::fail("a callback is still running after the destructor has returned");
        --inside;
    }
};
enum { PLAIN,
    THROW,
    SEND,
    CALL,
    CHURN,
    NBEH };
void behave(DBus::Native* n, int what, Probe& p)
{
    p.enter();
    switch (what) {
    case THROW:
        throw std::runtime_error("handler");
    case SEND:
        n->broadcastSignal(mkSignal("h"));
        n->getStats();
        break;
    case CALL:
        n->sendMethodCall(
            "d", mkCall("h"), [&p](const MR&) { p.enter(); }, [&p](const ER&) { p.enter(); });
        break;
    case CHURN:
        n->unRegisterSignalHandler("i.f.S");
        n->registerSignalHandler("i.f.S", [&p](const SG&) { p.enter(); });
        n->callRemoveMatch("member='S'");
        n->callAddMatch(
            "member='T'", [&p](const MR&) { p.enter(); }, [&p](const ER&) { p.enter(); }, [&p](const SG&) { p.enter(); });
        break;
    }
}
void populate(DBus::Native* n, int what, Probe& p)
{
    n->registerSignalHandler("i.f.S", [n, what, &p](const SG&) { behave(n, what, p); });
    n->registerMethodCallHandler("i.f.M", [n, what, &p](const MC&) { behave(n, what, p); });
    n->callAddMatch(
        "member='S'", [n, what, &p](const MR&) { behave(n, what, p); }, [n, what, &p](const ER&) { behave(n, what, p); },
        [n, what, &p](const SG&) { behave(n, what, p); });
    n->sendMethodCall(
        "d.e", mkCall("c"), [n, what, &p](const MR&) { behave(n, what, p); }, [n, what, &p](const ER&) { behave(n, what, p); });
}
// waits until that many callbacks have begun, or nothing more will come
void until(Probe& p, int when, const bool& over)
{
    vt::await([&p, when, &over] { return p.runs >= when || over; }, "callbacks");
}
// destroys n in this or another thread and checks that everything is over then
void destroy(NativeP& n, Probe& p, bool elsewhere, int conn = 0)
{
    auto kill = [&] {
        n.reset();
        p.destroyed = true;
        if (p.inside)
            vt::fail("the destructor returned while a callback was running");
        if (!vt::connClosed(conn))
            vt::fail("the destructor returned with the socket open");
    };
    if (elsewhere)
        vt::join(vt::spawn("destroyer", kill));
    else
        kill();
    vt::idle();
}

// during the handshake, with and without messages waiting for it, whatever the server answers meanwhile
void handshake()
{
    static const char* const A[] = { "OK 1\r\n", "OK 1\r\nAGREE_UNIX_FD\r\n", "REJECTED\r\n", "garbage" };
    Probe p;
    int queued = vt::isRaceBuild() && !vt::thorough() ? 1 : vt::pick(2, "queued messages"), begin = vt::pick(3, "BeginAuth"), answer = vt::pick(5, "answer");
    bool elsewhere = vt::pick(2, "thread");
    int end = vt::pick(3, "afterwards the peer");
    NativeP n = open();
    if (queued)
        populate(n.get(), SEND, p);
    if (begin)
        n->BeginAuth(begin == 1 ? AP::AUTH_BASIC : AP::AUTH_NEGOTIATE_UNIX_FD);
    vt::spawnEnv("peer", [=] {
        if (answer < 4)
            vt::deliver(0, A[answer]);
        if (answer < 2) {
            vt::point("peer");
            vt::deliver(0, inSignal(5, "x") + inCall(6, "y"));
        }
        if (end == 1)
            vt::closePeer(0);
        else if (end == 2)
            vt::resetPeer(0);
    });
    destroy(n, p, elsewhere);
    VT_CHECK(vt::openFds() == 0, "descriptors leaked");
    vt::observe(to_string(p.runs) + "/" + to_string(vt::sent(0).size()));
}
// destroyed right after the answer arrived, from a thread that did the handshake meanwhile
void handshakeThreads()
{
    Probe p;
    NativeP n = open();
    spawnBus(0);
    int t1 = vt::spawn("A", [&] { n->BeginAuth(AP::AUTH_BASIC); });
    int t2 = vt::spawn("B", [&] { populate(n.get(), PLAIN, p); });
    vt::join(t1);
    vt::join(t2);
    destroy(n, p, false);
    VT_CHECK(vt::openFds() == 0, "descriptors leaked");
    vt::observe(to_string(vt::sent(0).size()));
}

// messages arrive, handlers run
void traffic(bool partial)
{
    Probe p;
    int what = vt::pick(NBEH, "behaviour");
    bool full = vt::thorough() || !vt::isRaceBuild();
    bool elsewhere = full ? vt::pick(2, "thread") : partial;
    int end = full ? vt::pick(4, "afterwards the peer") : 0, when = vt::pick(4, "callbacks before");
    bool over = false;
    NativeP n = ready();
    populate(n.get(), what, p);
    vt::idle();
    uint32_t serial = 0;
    for (auto& m : parseSent(0).msgs)
        if (firstArg(m) == "c")
            serial = m.serial;
    int order = full ? vt::pick(3, "order") : 0;
    bool err = partial;
    vt::spawnEnv("peer", [=, &over] {
        string r = err ? inError(serial, "e") : inReturn(serial, "r");
        string s = inSignal(5, "x"), c = inCall(6, "y");
        string all = order == 0 ? s + r + c : order == 1 ? r + s + c : c + r + s;
        if (partial) {
            size_t cut = all.size() / 3;
            vt::deliver(0, all.substr(0, cut));
            vt::point("peer");
            vt::deliver(0, all.substr(cut, cut));
            vt::point("peer");
            vt::deliver(0, all.substr(2 * cut));
        } else
            vt::deliver(0, all);
        vt::point("peer");
        if (end == 1)
            vt::closePeer(0);
        else if (end == 2)
            vt::resetPeer(0);
        else if (end == 3)
            vt::shutPeer(0);
        if (end)
            over = true;
    });
    until(p, when, over);
    destroy(n, p, elsewhere);
    VT_CHECK(vt::openFds() == 0, "descriptors leaked");
    vt::observe(to_string(p.runs));
}

// the peer does not read: messages pile up in the client
void blockedWrites(bool never)
{
    Probe p;
    bool elsewhere = vt::pick(2, "thread");
    int many = 1 + vt::pick(3, "messages"), end = vt::pick(3, "afterwards the peer");
    NativeP n;
    if (never) {
        vt::kcfg().blockAfter = vt::pick(2, "accepted bytes");
        n = open();
        n->BeginAuth(AP::AUTH_BASIC);
    } else {
        n = ready();
        vt::kcfg().blockAfter = vt::sent(0).size() + vt::pick(3, "accepted bytes") * 50;
    }
    vt::kcfg().drains = false;
    for (int i = 0; i < many; ++i)
        populate(n.get(), PLAIN, p);
    if (vt::pick(2, "let it block first"))
        vt::idle();
    vt::spawnEnv("peer", [=] {
        vt::deliver(0, inSignal(5, "x"));
        vt::point("peer");
        if (end == 1)
            vt::closePeer(0);
        else if (end == 2) {
            vt::kcfg().blockAfter = -1;
            vt::kcfg().drains = true;
        }
    });
    destroy(n, p, elsewhere);
    VT_CHECK(vt::openFds() == 0, "descriptors leaked");
    vt::observe(to_string(p.runs));
}

// the peer has gone already
void gone()
{
    Probe p;
    bool elsewhere = vt::pick(2, "thread");
    int end = vt::pick(3, "the peer");
    NativeP n = vt::pick(2, "authenticated") ? ready() : open();
    if (vt::pick(2, "populate first"))
        populate(n.get(), PLAIN, p);
    if (end == 0)
        vt::closePeer(0);
    else if (end == 1)
        vt::resetPeer(0);
    else
        vt::shutPeer(0);
    if (vt::pick(2, "idle"))
        vt::idle();
    populate(n.get(), PLAIN, p);
    if (vt::pick(2, "BeginAuth once more"))
        n->BeginAuth(AP::AUTH_BASIC);
    destroy(n, p, elsewhere);
    VT_CHECK(vt::openFds() == 0, "descriptors leaked");
}

// handlers that take long: the destructor waits for them, however long
void patience()
{
    static const double SECONDS[] = { 0.5, 9, 29, 31, 3600 };
    Probe p;
    double s = SECONDS[vt::pick(5, "seconds")];
    int size = 1 + 1500 * vt::pick(2, "size"), when = vt::pick(3, "callbacks before");
    bool elsewhere = vt::pick(2, "thread"), over = false;
    NativeP n = ready();
    auto take = [&] {
        p.enter();
        ++p.inside;
        vt::elapse(s);
        --p.inside;
        if (p.destroyed)
            vt::fail("a callback is still running after the destructor has returned");
    };
    n->registerSignalHandler("i.f.S", [&](const SG&) { take(); });
    n->registerMethodCallHandler("i.f.M", [&](const MC&) { take(); });
    vt::deliver(0, inSignal(5, string(size, 'x')));
    for (int i = 0; i < 2; ++i)
        vt::deliver(0, inCall(6 + i, string(size, 'y')));
    if (when)
        until(p, when, over);
    destroy(n, p, elsewhere);
    VT_CHECK(vt::openFds() == 0, "descriptors leaked");
    vt::observe(to_string(p.runs));
}

// much is waiting to be sent and to be read
void volume()
{
    static const int COUNT[] = { 40, 3000 }, SIZE[] = { 1, 5000, 300000 };
    int count = COUNT[vt::pick(2, "messages")], size = SIZE[vt::pick(count > 40 ? 1 : 3, "size")];
    int phase = vt::pick(3, "phase"), peer = vt::pick(4, "peer"), incoming = vt::pick(2, "incoming");
    bool elsewhere = vt::pick(2, "thread");
    Probe p;
    NativeP n;
    if (phase == 2) {
        n = ready();
        populate(n.get(), PLAIN, p);
        vt::idle();
    }
    if (peer) {
        vt::kcfg().blockAfter = phase == 2 ? vt::sent(0).size() + 100 : 5;
        vt::kcfg().drains = false;
    }
    if (phase < 2) {
        n = open();
        if (phase == 1)
            n->BeginAuth(AP::AUTH_BASIC);
    }
    string text(size, 'x'), in;
    for (int i = 0; i < count; ++i)
        n->broadcastSignal(mkSignal(text));
    if (incoming) {
        for (int i = 0; i < count; ++i)
            in += inSignal(5 + i, text);
        vt::deliver(0, phase == 2 ? in : "OK 1\r\n" + in);
    }
    if (peer == 2)
        vt::closePeer(0);
    else if (peer == 3)
        vt::resetPeer(0);
    destroy(n, p, elsewhere);
    VT_CHECK(vt::openFds() == 0, "descriptors leaked");
}

// the constructor fails
void refused()
{
    vt::kcfg().refuse = true;
    bool thrown = false;
    try {
        NativeP n = open();
    } catch (const std::exception&) {
        thrown = true;
    }
    VT_CHECK(thrown, "a refused connection was not reported");
    vt::idle();
    VT_CHECK(vt::openFds() == 0, "descriptors leaked");
    vt::kcfg().refuse = false;
    Probe p;
    int c = vt::connections();
    NativeP n = ready();
    populate(n.get(), PLAIN, p);
    vt::deliver(c, inSignal(5, "x"));
    vt::idle();
    VT_CHECK(p.runs == 2, "a later connection does not work");
    destroy(n, p, false, c);
    VT_CHECK(vt::openFds() == 0, "descriptors leaked");
}

// two connections: one is destroyed (by an application thread or by a handler of the other), the other works on
void two(bool byHandler)
{
    Probe p, q;
    NativeP a = ready(), b = ready();
    populate(a.get(), PLAIN, p);
    DBus::Native* rb = b.get();
    int other = 0;
    rb->registerSignalHandler("i.f.S", [&](const SG&) {
        ++other;
        if (byHandler && a) {
            a.reset();
            p.destroyed = true;
            if (p.inside)
                vt::fail("the destructor returned while a callback was running");
        }
        rb->broadcastSignal(mkSignal("b"));
    });
    vt::idle();
    vt::spawnEnv("peerA", [] {
        vt::deliver(0, inSignal(5, "x"));
        vt::point("peer");
        vt::deliver(0, inCall(6, "y"));
    });
    vt::spawnEnv("peerB", [] {
        vt::deliver(1, inSignal(5, "x"));
        vt::point("peer");
        vt::deliver(1, inSignal(6, "x"));
    });
    if (!byHandler) {
        bool over = false;
        until(p, vt::pick(4, "callbacks before"), over);
        a.reset();
        p.destroyed = true;
        if (p.inside)
            vt::fail("the destructor returned while a callback was running");
    }
    vt::idle();
    a.reset();
    VT_CHECK(vt::connClosed(0), "the destroyed connection is still open");
    VT_CHECK(!vt::connClosed(1), "the other connection was closed");
    VT_CHECK(other == 2, "the other connection did not deliver its messages");
    VT_CHECK(parseSent(1).msgs.size() == 2, "the other connection did not send its messages");
    b.reset();
    vt::idle();
    VT_CHECK(vt::openFds() == 0, "descriptors leaked");
    vt::observe(to_string(p.runs));
}

vt::Reg r1("C16", "c16_handshake", 2, 3, handshake, vt::F_FREE);
vt::Reg r2("C16", "c16_handshake_threads", 3, 4, handshakeThreads);
vt::Reg r3("C16", "c16_traffic", 1, 2, [] { traffic(false); }, vt::F_FREE | vt::F_SLOWTOO);
vt::Reg r4("C16", "c16_partial", 1, 2, [] { traffic(true); }, vt::F_FREE);
vt::Reg r5("C16", "c16_blocked", 1, 2, [] { blockedWrites(false); }, vt::F_FREE);
vt::Reg r6("C16", "c16_blocked_auth", 2, 3, [] { blockedWrites(true); }, vt::F_FREE);
vt::Reg r7("C16", "c16_gone", 2, 3, gone, vt::F_FREE | vt::F_SLOWTOO);
vt::Reg r11("C16", "c16_patience", 2, 3, patience, vt::F_FREE, -1, -1);
vt::Reg r13("C16", "c16_interrupted", 2, 3, [] { vt::kcfg().interrupts = true; patience(); }, vt::F_FREE, -1, -1);
vt::Reg r14("C16", "c16_interrupted_auth", 1, 2, [] { vt::kcfg().interrupts = true; handshake(); }, vt::F_FREE, -1, -1);
vt::Reg r12("C16", "c16_volume", 0, 0, volume, vt::F_FREE, -1, -1);
vt::Reg r8("C16", "c16_refused", 2, 3, refused);
vt::Reg r9("C16", "c16_two", 2, 3, [] { two(false); }, vt::F_FREE, 0, 1);
vt::Reg r10("C16", "c16_two_handler", 2, 3, [] { two(true); });
}
