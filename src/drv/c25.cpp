// C25: connections of one process do not affect each other. C26: what was received before a connection ended is delivered.
#include "ops.h"
using namespace drv;

namespace {
// One connection and a conversation on it, in steps. After every step the connection must have shown exactly what the
// conversation so far calls for, whatever other connections did meanwhile.
struct Talk {
    string id;
    bool fd, err, waits; // waits: others run as well, so wait for what is expected instead of for silence
    int conn = -1;
    NativeP n;
    string got, want; // handlers and callbacks
    vector<string> sentWant; // first arguments of the messages sent
    uint32_t callSerial = 0;
    string reply, foreign;
    int step = 0;
    enum { STEPS = 9 };

    void event(const string& e) { got += e + " "; }
    size_t sentBytes = ~0ull, sentCount = 0;
    size_t messagesSent() // cheap while nothing changes
    {
        if (vt::sent(conn).size() != sentBytes) {
            sentBytes = vt::sent(conn).size();
            sentCount = parseSent(conn).msgs.size();
        }
        return sentCount;
    }
    uint32_t serialOf(const string& tag)
    {
        for (auto& m : parseSent(conn).msgs)
            if (firstArg(m) == tag)
                return m.serial;
        vt::fail("connection " + id + " did not send " + tag);
    }
    void settle()
    {
        if (waits)
            vt::await([this] { return got.size() >= want.size() && messagesSent() >= sentWant.size(); }, "conversation");
        else
            vt::idle();
        check();
    }
    void check()
    {
        if (got != want)
            vt::fail("connection " + id + ", after step " + to_string(step) + ": handlers saw " + got + "instead of " + want);
        vector<string> s;
        for (auto& m : parseSent(conn).msgs)
            s.push_back(firstArg(m));
        if (s != sentWant) {
            string a, b;
            for (auto& x : s)
                a += printable(x, 30) + " ";
            for (auto& x : sentWant)
                b += x + " ";
            vt::fail("connection " + id + ", after step " + to_string(step) + ": sent " + a + "instead of " + b);
        }
    }
    void open(int number)
    {
        conn = number;
        n = drv::open("/run/" + id);
        VT_CHECK(vt::connections() > conn && vt::connAddress(conn).find("/run/" + id) == 0, "connected elsewhere");
    }
    void next()
    {
        string big = id + string(1500, id[0]);
        switch (step) {
        case 0:
            n->sendSignal("", mkSignal(id + "early"));
            n->BeginAuth(fd ? AP::AUTH_NEGOTIATE_UNIX_FD : AP::AUTH_BASIC);
            if (!waits)
                vt::idle();
            vt::deliver(conn, "OK 12");
            break;
        case 1:
            vt::deliver(conn, "34\r\n");
            if (fd) {
                vt::await([this] { return vt::sent(conn).find("NEGOTIATE_UNIX_FD\r\n") != string::npos; }, "negotiation");
                vt::deliver(conn, "AGREE_UNIX_FD\r\n");
            }
            sentWant.push_back(id + "early");
            break;
        case 2:
            n->registerSignalHandler("i.f.S", [this](const SG& s) { event("signal:" + argOf(s).substr(0, 9)); });
            n->registerMethodCallHandler("i.f.M", [this](const MC& c) { event("call:" + argOf(c)); n->sendMethodReturn("d", ret(c)); });
            n->callAddMatch(
                "member='S'", [](const MR&) {}, [](const ER&) {}, [this](const SG& s) { event("rule:" + argOf(s).substr(0, 9)); });
            sentWant.push_back("member='S'");
            break;
        case 3: { // half of a message
            string s = inSignal(5, big);
            vt::deliver(conn, s.substr(0, 700));
            break;
        }
        case 4:
            n->sendMethodCall(
                "d.e", mkCall(id + "question"), [this](const MR& r) { event("ok:" + argOf(r)); }, [this](const ER& e) { event("err:" + e.getMessage()); });
            sentWant.push_back(id + "question");
            break;
        case 5: { // the other half, a call, and part of the reply
            callSerial = serialOf(id + "question");
            reply = err ? inError(callSerial, id + "no") : inReturn(callSerial, id + "yes");
            vt::deliver(conn, inSignal(5, big).substr(700) + inCall(6, id + "x") + reply.substr(0, 21));
            want += "signal:" + big.substr(0, 9) + " rule:" + big.substr(0, 9) + " call:" + id + "x ";
            sentWant.push_back(id + "answer");
            break;
        }
        case 6: // the rest; a reply to a call of somebody else
            vt::deliver(conn, reply.substr(21) + foreign);
            want += err ? "err:" + id + "no " : "ok:" + id + "yes ";
            break;
        case 7:
            n->unRegisterSignalHandler("i.f.S");
            n->callRemoveMatch("member='S'");
            sentWant.push_back("member='S'");
            vt::deliver(conn, inSignal(9, id + "unheard") + inCall(10, id + "z"));
            want += "call:" + id + "z ";
            sentWant.push_back(id + "answer");
            break;
        case 8: {
            string st = n->getStats();
            VT_CHECK(st.find("count_receive_signals: 2\n") != string::npos && st.find("count_sent_signals: 1\n") != string::npos && st.find("count_messages_queued: 1\n") != string::npos,
                "connection " + id + ": the statistics count other connections: " + st);
            n.reset();
            VT_CHECK(vt::connClosed(conn), "connection " + id + " is still open");
            break;
        }
        }
        settle();
        ++step;
    }
    MR ret(const MC& c)
    {
        MR r(c.getSerial());
        r.addParameter(DBus::Type::String(id + "answer"));
        return r;
    }
};

// every interleaving of the steps of two conversations
void interleaved()
{
    int kind = vt::pick(vt::thorough() ? 8 : 4, "kinds");
    Talk a { "a", bool(kind & 1), bool(kind & 2), false }, b { "b", !(kind & 1), kind & 4 ? bool(kind & 2) : !(kind & 2), false };
    a.open(0);
    b.open(1);
    while (a.step < Talk::STEPS || b.step < Talk::STEPS) {
        bool second = a.step == Talk::STEPS ? true : b.step == Talk::STEPS ? false : vt::pick(2, "whose turn");
        Talk &x = second ? b : a, &y = second ? a : b;
        // a reply that would be right on the other connection
        if (y.callSerial && y.step < 7)
            x.foreign = inReturn(y.callSerial, "foreign") + inError(y.callSerial, "foreign");
        else
            x.foreign = "";
        bool ends = !vt::thorough() && (x.step == 0 || x.step == 7); // quick: begun and ended in one go
        x.next();
        y.check();
        if (ends)
            x.next();
        y.check();
        vt::observe(to_string(second));
    }
    VT_CHECK(vt::openFds() == 0, "descriptors leaked");
}
// three connections, of which one comes and goes; coarse interleavings
void three()
{
    Talk t[3] = { { "a", false, false, false }, { "b", true, true, false }, { "c", true, false, false } };
    for (int i = 0; i < 3; ++i)
        t[i].open(i);
    while (t[0].step < Talk::STEPS || t[1].step < Talk::STEPS || t[2].step < Talk::STEPS) {
        vector<int> can;
        for (int i = 0; i < 3; ++i)
            if (t[i].step < Talk::STEPS)
                can.push_back(i);
        int k = can.size() > 1 ? can[vt::pick(can.size(), "whose turn")] : can[0];
        for (int s = 0; s < 3; ++s)
            t[k].next();
        for (auto& o : t)
            o.check();
    }
    VT_CHECK(vt::openFds() == 0, "descriptors leaked");
}
// one thread per connection, both at once
void parallel()
{
    int kind = vt::pick(4, "kinds");
    Talk a { "a", bool(kind & 1), bool(kind & 2), true }, b { "b", true, false, true };
    a.open(0);
    b.open(1);
    int ta = vt::spawn("A", [&] {
        while (a.step < Talk::STEPS)
            a.next();
    });
    int tb = vt::spawn("B", [&] {
        while (b.step < Talk::STEPS)
            b.next();
    });
    vt::join(ta);
    vt::join(tb);
    vt::idle();
    a.check();
    b.check();
    VT_CHECK(vt::openFds() == 0, "descriptors leaked");
}

vt::Reg r1("C25", "c25_interleaved", 0, 0, interleaved, vt::F_FREE | vt::F_SLOWTOO, -1, -1);
vt::Reg r2("C25", "c25_three", 0, 0, three, vt::F_FREE, -1, -1);
vt::Reg r3("C25", "c25_parallel", 1, 2, parallel, vt::F_FREE, 0, 1);

// ---------------------------------------------------------------- C26
// records what handlers see, in order
struct Log {
    string got;
    bool over = false; // nothing may be invoked any more
    void operator()(const string& e)
    {
        if (over)
            vt::fail("a handler or callback was invoked although nothing was received: " + e);
        got += e + " ";
    }
};
void listen(DBus::Native& n, Log& log, int behaviour)
{
    auto act = [&n, behaviour] {
        if (behaviour == 1)
            n.broadcastSignal(mkSignal("from handler"));
        else if (behaviour == 2)
            throw std::runtime_error("handler");
    };
    n.registerSignalHandler("i.f.S", [&log, act](const SG& s) { log("signal:" + argOf(s).substr(0, 3)); act(); });
    n.registerMethodCallHandler("i.f.M", [&log, act](const MC& c) { log("call:" + argOf(c).substr(0, 3)); act(); });
    n.sendMethodCall(
        "d.e", mkCall("q1"), [&log, act](const MR& r) { log("ok:" + argOf(r)); act(); }, [&log](const ER& e) { log("err:" + e.getMessage()); });
    n.sendMethodCall(
        "d.e", mkCall("q2"), [&log](const MR& r) { log("ok:" + argOf(r)); }, [&log, act](const ER& e) { log("err:" + e.getMessage()); act(); });
}
// what the peer sends, message by message, and what each shows
vector<std::pair<string, string>> traffic(uint32_t q1, uint32_t q2)
{
    return { { inSignal(1, "s1"), "signal:s1 " }, { inReturn(q1, "r1"), "ok:r1 " }, { inCall(2, "c1"), "call:c1 " }, { inError(q2, "e1"), "err:e1 " },
        { inSignal(3, string("big") + string(1200, 'x')), "signal:big " }, { inCall(4, "c2"), "call:c2 " } };
}
void end(int conn, int how)
{
    if (how == 0)
        vt::closePeer(conn);
    else if (how == 1)
        vt::shutPeer(conn);
    else
        vt::resetPeer(conn);
}
// the application goes on with a connection whose peer is gone
void afterwards(DBus::Native& n, Log& log, bool all)
{
    log.over = true;
    for (int o = 0; o < NOPS; ++o) {
        if (o == O_BEGIN && !all)
            continue;
        Hooks h;
        h.signal = [&log](const SG&) { log("signal"); };
        h.call = [&log](const MC&) { log("call"); };
        h.ok = [&log](const MR&) { log("ok"); };
        h.err = [&log](const ER&) { log("err"); };
        doOp(n, o, "t", h);
        if (o % 5 == 0)
            vt::idle();
    }
    vt::idle();
}
// Cut at every position of the stream; delivered in one or two pieces, ended at once or after a while.
void cut()
{
    NativeP n = ready();
    Log log;
    int behaviour = vt::pick(3, "handlers"), how = vt::pick(3, "the peer");
    listen(*n, log, behaviour);
    vt::idle();
    auto ms = parseSent(0).msgs;
    VT_CHECK(ms.size() == 2, "calls were not sent");
    auto tr = traffic(ms[0].serial, ms[1].serial);
    string all, want;
    for (auto& t : tr)
        all += t.first;
    size_t len = all.size() - vt::pick(all.size() + 1, "bytes missing"), p = 0;
    for (auto& t : tr)
        if ((p += t.first.size()) <= len)
            want += t.second;
    int pieces = vt::pick(3, "pieces");
    if (pieces == 2) {
        vt::deliver(0, all.substr(0, len / 2));
        vt::idle();
        vt::deliver(0, all.substr(len / 2, len - len / 2));
    } else
        vt::deliver(0, all.substr(0, len));
    if (pieces == 1)
        vt::idle();
    end(0, how);
    vt::idle();
    VT_CHECK(log.got == want, "received " + to_string(len) + " bytes before the end: handlers saw " + log.got + "instead of " + want);
    if (len % 16 == 0) {
        afterwards(*n, log, false);
        // others are not affected
        NativeP k = ready("/run/other");
        Log l2;
        listen(*k, l2, 0);
        vt::deliver(1, inSignal(1, "s1"));
        vt::idle();
        VT_CHECK(l2.got == "signal:s1 ", "another connection does not work after one was lost: " + l2.got);
    }
    n.reset();
    vt::idle();
    vt::observe(want);
}
// the end comes within the handshake
void early()
{
    static const char* const A[] = { "", "OK 12", "OK 12\r\n", "REJECTED\r\n", "AGREE_UNIX_FD\r\n" };
    NativeP n = open();
    Log log;
    int behaviour = vt::pick(3, "handlers"), how = vt::pick(3, "the peer"), answer = vt::pick(5, "answer"), begin = vt::pick(3, "BeginAuth");
    bool wait = vt::pick(2, "wait"), msg = vt::pick(2, "messages behind the answer");
    if (begin == 1)
        n->BeginAuth(AP::AUTH_BASIC);
    listen(*n, log, behaviour);
    if (begin == 2)
        n->BeginAuth(AP::AUTH_BASIC);
    if (wait)
        vt::idle();
    string in = msg ? inSignal(1, "s1") + inCall(2, "c1") : "";
    vt::deliver(0, A[answer] + in);
    if (wait)
        vt::idle();
    end(0, how);
    vt::idle();
    string want = answer == 2 && begin && msg ? "signal:s1 call:c1 " : "";
    if (answer != 2 && msg)
        want = log.got; // not a handshake
    if (answer == 2 && !begin && msg)
        want = log.got;
    VT_CHECK(log.got == want, "handlers saw " + log.got + "instead of " + want);
    afterwards(*n, log, !begin);
    n.reset();
    vt::idle();
    VT_CHECK(vt::openFds() == 0, "descriptors leaked");
    vt::observe(log.got);
}
// while threads send and register
void busy()
{
    NativeP n = ready();
    Log log;
    int behaviour = vt::pick(3, "handlers"), how = vt::pick(3, "the peer"), missing = vt::pick(3, "missing");
    listen(*n, log, behaviour);
    vt::idle();
    auto ms = parseSent(0).msgs;
    auto tr = traffic(ms[0].serial, ms[1].serial);
    string all, want;
    size_t count = missing == 0 ? tr.size() : missing == 1 ? tr.size() - 1 : 3;
    for (size_t i = 0; i < count; ++i) {
        all += tr[i].first;
        want += tr[i].second;
    }
    if (count < tr.size())
        all += tr[count].first.substr(0, tr[count].first.size() - 1);
    vt::spawnEnv("peer", [=] {
        vt::deliver(0, all.substr(0, all.size() / 2));
        vt::point("peer");
        vt::deliver(0, all.substr(all.size() / 2));
        vt::point("peer");
        end(0, how);
    });
    int t1 = vt::spawn("A", [&] {
        n->sendSignal("", mkSignal("a"));
        n->registerSignalHandler("i.f.T", [](const SG&) {});
        n->sendMethodCall("d.e", mkCall("b"), [](const MR&) {}, [](const ER&) {});
    });
    int t2 = vt::spawn("B", [&] {
        n->callAddMatch("member='T'", [](const MR&) {}, [](const ER&) {}, [](const SG&) {});
        n->sendSignal("", mkSignal("c"));
    });
    vt::join(t1);
    vt::join(t2);
    vt::idle();
    VT_CHECK(log.got == want, "handlers saw " + log.got + "instead of " + want);
    vt::observe(to_string(vt::sent(0).size()));
    n.reset();
    vt::idle();
    VT_CHECK(vt::openFds() == 0, "descriptors leaked");
}
// the socket's own errors hit writes that are waiting, short or about to start; what arrives is delivered all the same
void halfDead()
{
    vt::kcfg().shortWrites = true;
    NativeP n = ready();
    Log log;
    listen(*n, log, vt::pick(2, "handlers"));
    vt::idle();
    auto ms = parseSent(0).msgs;
    auto tr = traffic(ms[0].serial, ms[1].serial);
    string all, want;
    for (auto& t : tr) {
        all += t.first;
        want += t.second;
    }
    int how = vt::pick(3, "the peer");
    bool blocked = vt::pick(2, "writes are waiting");
    if (blocked) {
        vt::kcfg().blockAfter = vt::sent(0).size() + 10;
        vt::kcfg().drains = false;
    }
    n->sendSignal("", mkSignal(string(300, 'w')));
    vt::deliver(0, all);
    end(0, how);
    n->sendSignal("", mkSignal("v"));
    vt::idle();
    VT_CHECK(log.got == want, "handlers saw " + log.got + "instead of " + want);
    n.reset();
    vt::idle();
    VT_CHECK(vt::openFds() == 0, "descriptors leaked");
}

vt::Reg s1("C26", "c26_cut", 0, 0, cut, vt::F_FREE | vt::F_SLOWTOO, -1, -1);
vt::Reg s2("C26", "c26_early", 1, 2, early, vt::F_FREE, -1, 0);
vt::Reg s3("C26", "c26_busy", 2, 3, busy, vt::F_FREE, 0, 1);
vt::Reg s4("C26", "c26_half_dead", 2, 3, halfDead, vt::F_FREE, 0, 1);
}
