// C09: nothing precedes BEGIN, early messages are neither lost nor overtaken. C10: whole messages, each once, in order.
#include "common.h"
using namespace drv;

namespace {
// sends one message of the given kind carrying a tag
void sendOne(DBus::Native& n, int kind, const string& tag)
{
    switch (kind) {
    case 0:
        n.sendSignal("", mkSignal(tag));
        break;
    case 1:
        n.sendMethodCall("d.e", mkCall(tag));
        break;
    case 2: {
        MR r(77);
        r.addParameter(DBus::Type::String(tag));
        n.sendMethodReturn("d.e", r);
        break;
    }
    case 3:
        n.sendError("d.e", ER(78, "e.x.Err", tag));
        break;
    case 4:
        n.broadcastSignal(mkSignal(tag));
        break;
    case 5:
        n.sendMethodCall("d.e", mkCall(tag, DBus::Message::Header::FLAGS_NO_REPLY_EXPECTED));
        break;
    }
}

// Every tag exactly once, tags of one thread (same first letter) in their numerical order, nothing else. complete:
// everything must have arrived.
void verify(const vector<string>& all, bool complete, const string& fill = "")
{
    Stream s = parseSent(0, !complete);
    std::map<char, size_t> last;
    std::set<string> seen;
    for (auto& m : s.msgs) {
        string t = firstArg(m);
        if (!fill.empty() && t.size() > 2) {
            // big payloads: a tag followed by filling
            string f = t.substr(2);
            for (char c : f)
                if (c != t[0])
                    vt::fail("payload of message " + t.substr(0, 2) + " was altered");
            t = t.substr(0, 2);
        }
        if (std::find(all.begin(), all.end(), t) == all.end())
            vt::fail("an unknown message was sent: " + printable(t, 40));
        if (!seen.insert(t).second)
            vt::fail("message " + t + " was sent twice");
        size_t k = atoi(t.c_str() + 1);
        auto it = last.find(t[0]);
        if (it != last.end() && k <= it->second)
            vt::fail("message " + t + " was sent after a later message of the same thread");
        last[t[0]] = k;
    }
    if (complete)
        for (auto& t : all)
            if (!seen.count(t))
                vt::fail("message " + t + " was never sent");
    string o;
    for (auto& m : s.msgs)
        o += firstArg(m).substr(0, 2) + " ";
    vt::observe(o);
}

// two threads send while the reader thread completes the handshake
void race(int mode)
{
    NativeP n = open();
    vector<string> all;
    for (char c : { 'a', 'b' })
        for (int i = 0; i < 2; ++i)
            all.push_back(string(1, c) + to_string(i));
    sendOne(*n, 0, "m0"); // before the handshake has even begun
    all.push_back("m0");
    spawnBus(0);
    int kinds = mode == 2 ? vt::pick(3, "kinds") * 2 : 0;
    int t1 = vt::spawn("A", [&] { sendOne(*n, kinds, "a0"); sendOne(*n, kinds + 1, "a1"); });
    int t2 = 0;
    if (mode >= 1)
        t2 = vt::spawn("B", [&] { sendOne(*n, 4, "b0"); sendOne(*n, 2, "b1"); });
    else {
        all = { "a0", "a1", "m0", "m1" };
    }
    n->BeginAuth(mode == 2 && vt::pick(2, "auth") ? AP::AUTH_NEGOTIATE_UNIX_FD : AP::AUTH_BASIC);
    if (mode == 0)
        sendOne(*n, 1, "m1");
    vt::join(t1);
    if (t2)
        vt::join(t2);
    vt::idle();
    verify(all, true);
}

// the bus refuses once or twice before it accepts, while another thread sends
void refusals()
{
    int times = 1 + vt::pick(2, "refusals");
    bool fd = vt::pick(2, "mode");
    NativeP n = open();
    vector<string> all = { "m0", "a0", "a1" };
    sendOne(*n, 0, "m0");
    int rejected = 0;
    vt::spawnEnv("bus", [&] {
        for (int i = 0; i < times; ++i) {
            vt::await([&] { return parseSent(0).lines.size() > (size_t)i; }, "AUTH");
            vt::deliver(0, i ? "ERROR\r\n" : "REJECTED EXTERNAL\r\n");
            rejected = i + 1;
        }
        vt::await([&] { return parseSent(0).lines.size() > (size_t)times; }, "AUTH");
        vt::deliver(0, "OK 12\r\n");
        if (fd) {
            vt::await([&] { return parseSent(0).lines.size() > (size_t)times + 1; }, "NEGOTIATE_UNIX_FD");
            vt::deliver(0, "AGREE_UNIX_FD\r\n");
        }
    });
    int t1 = vt::spawn("A", [&] { sendOne(*n, 0, "a0"); sendOne(*n, 1, "a1"); });
    for (int i = 0; i <= times; ++i) {
        vt::await([&] { return rejected >= i && vt::readAll(0); }, "refusal");
        n->BeginAuth(fd ? AP::AUTH_NEGOTIATE_UNIX_FD : AP::AUTH_BASIC);
        string tag = "m" + to_string(i + 1);
        sendOne(*n, 4, tag);
        all.push_back(tag);
    }
    vt::join(t1);
    vt::idle();
    VT_CHECK(parseSent(0).begun, "the handshake did not complete");
    verify(all, true);
}

// a thread whose first message was held back sends again as soon as it sees BEGIN; handlers send from the reader thread
void overtake()
{
    NativeP n = open();
    n->registerSignalHandler("i.f.S", [&](const SG& s) { sendOne(*n, 0, "r" + argOf(s)); });
    spawnBus(0);
    vt::spawnEnv("talk", [] {
        vt::await([] { return vt::sent(0).find("BEGIN\r\n") != string::npos; }, "BEGIN");
        vt::deliver(0, inSignal(50, "0") + inSignal(51, "1"));
    });
    int t1 = vt::spawn("A", [&] {
        sendOne(*n, 0, "a0");
        sendOne(*n, 0, "a1");
        vt::await([] { return vt::sent(0).find("BEGIN\r\n") != string::npos; }, "BEGIN");
        sendOne(*n, 0, "a2");
    });
    n->BeginAuth(AP::AUTH_BASIC);
    vt::join(t1);
    vt::idle();
    verify({ "a0", "a1", "a2", "r0", "r1" }, true);
}

// never authenticated: nothing may leave
void refused()
{
    static const char* const A[] = { "", "REJECTED EXTERNAL\r\n", "ERROR\r\n", "AGREE_UNIX_FD\r\n", "OKAY\r\n" };
    NativeP n = open();
    int t1 = vt::spawn("A", [&] { sendOne(*n, 0, "a0"); sendOne(*n, 1, "a1"); });
    bool begin = vt::pick(2, "BeginAuth");
    if (begin)
        n->BeginAuth(AP::AUTH_BASIC);
    string a = A[vt::pick(5, "answer")];
    vt::spawnEnv("peer", [a] {
        if (!a.empty())
            vt::deliver(0, a);
    });
    vt::join(t1);
    vt::idle();
    verify({ "a0", "a1" }, false);
    VT_CHECK(parseSent(0).msgs.empty() && !parseSent(0).begun, "something was sent without authentication");
    // now the server accepts
    if (!begin)
        n->BeginAuth(AP::AUTH_BASIC);
    vt::idle();
    vt::deliver(0, "OK 12\r\n");
    vt::idle();
    verify({ "a0", "a1" }, true);
}

// many messages before the handshake is complete, from several threads and of various sizes
void volume()
{
    static const int N[] = { 3, 17, 64, 65, 255, 256, 257, 1000, 1024, 1025, 4096, 5000, 10000, 66000 };
    int total = N[vt::pick(vt::thorough() ? 14 : 12, "messages")], when = vt::pick(3, "when"), payload = vt::pick(3, "payload");
    bool fd = vt::pick(2, "mode");
    NativeP n = open();
    string fill(payload == 0 ? 0 : payload == 1 ? 300 : 3000, '.');
    if (fill.size() * total > 20000000)
        return;
    if (when) {
        n->BeginAuth(fd ? AP::AUTH_NEGOTIATE_UNIX_FD : AP::AUTH_BASIC);
        vt::idle();
    }
    auto send = [&](int i) { sendOne(*n, i % 6, to_string(i) + "." + fill); };
    for (int i = 0; i < total; ++i) {
        send(i);
        if (when == 2 && fd && i == total / 2) {
            vt::deliver(0, "OK 12\r\n");
            vt::idle();
        }
    }
    if (!when) {
        n->BeginAuth(fd ? AP::AUTH_NEGOTIATE_UNIX_FD : AP::AUTH_BASIC);
        vt::idle();
    }
    VT_CHECK(parseSent(0).msgs.empty() && !parseSent(0).begun, "messages were sent before BEGIN");
    if (!(when == 2 && fd)) {
        vt::deliver(0, "OK 12\r\n");
        vt::idle();
    }
    if (fd) {
        vt::deliver(0, "AGREE_UNIX_FD\r\n");
        vt::idle();
    }
    for (int i = 0; i < 6; ++i)
        send(total + i);
    vt::idle();
    Stream s = parseSent(0, false);
    for (size_t i = 0; i < s.msgs.size() && (int)i < total + 6; ++i)
        if (firstArg(s.msgs[i]) != to_string(i) + "." + fill)
            vt::fail("message " + to_string(i) + " of " + to_string(total) + " early ones is " + printable(firstArg(s.msgs[i]), 20));
    VT_CHECK((int)s.msgs.size() == total + 6, to_string(s.msgs.size()) + " messages were sent instead of " + to_string(total + 6));
    vt::observe(to_string(total) + to_string(when) + to_string(payload));
}

vt::Reg r0("C09", "c09_volume", 0, 0, volume, vt::F_FREE, -1, -1);
vt::Reg r1("C09", "c09_one", 3, 5, [] { race(0); });
vt::Reg r2("C09", "c09_two", 3, 4, [] { race(1); });
vt::Reg r3("C09", "c09_kinds", 2, 3, [] { race(2); }, vt::F_FREE | vt::F_SLOWTOO);
vt::Reg r4("C09", "c09_overtake", 2, 3, overtake);
vt::Reg r6("C09", "c09_refusals", 2, 3, refusals, vt::F_FREE, 0, 1);
vt::Reg r5("C09", "c09_refused", 2, 3, refused, vt::F_FREE);

// ---------------------------------------------------------------- C10
string big(const string& tag, size_t n) { return tag + string(n, tag[0]); }

void shortWrites(int threads, bool early, bool thorough, bool signals = false)
{
    vt::kcfg().shortWrites = true;
    vt::kcfg().interrupts = signals;
    NativeP n = open();
    static const size_t sizes[] = { 0, 3000, 70000 };
    size_t sz = sizes[vt::pick(thorough ? 3 : 2, "size")];
    vector<string> all = { "a0", "a1" };
    if (!early) {
        n->BeginAuth(AP::AUTH_BASIC);
        vt::idle();
        vt::deliver(0, "OK 1\r\n");
        vt::idle();
    } else
        spawnBus(0);
    int t1 = vt::spawn("A", [&] { sendOne(*n, 0, big("a0", sz)); sendOne(*n, 0, "a1"); });
    int t2 = 0;
    if (threads > 1) {
        all.push_back("b0");
        t2 = vt::spawn("B", [&] { sendOne(*n, 1, big("b0", sz / 2)); });
    }
    if (early)
        n->BeginAuth(AP::AUTH_BASIC);
    vt::join(t1);
    if (t2)
        vt::join(t2);
    vt::idle();
    verify(all, true, "x");
}

// replies from the reader thread meet messages of other threads; the peer stops sending meanwhile
void halfClose()
{
    vt::kcfg().shortWrites = true;
    NativeP n = ready();
    n->registerMethodCallHandler("i.f.M", [&](const MC& c) {
        MR r(c.getSerial());
        r.addParameter(DBus::Type::String("r" + argOf(c)));
        n->sendMethodReturn("d.e", r);
    });
    vt::spawnEnv("peer", [] {
        vt::deliver(0, inCall(60, "0"));
        vt::point("peer");
        vt::deliver(0, inCall(61, "1"));
        if (vt::deviate(2, "half close"))
            vt::shutPeer(0);
    });
    int t1 = vt::spawn("A", [&] { sendOne(*n, 0, "a0"); sendOne(*n, 0, "a1"); });
    vt::join(t1);
    vt::idle();
    verify({ "a0", "a1", "r0", "r1" }, true);
    // and everything sent later
    sendOne(*n, 0, "m0");
    vt::idle();
    verify({ "a0", "a1", "r0", "r1", "m0" }, true);
}

// the buffer fills up completely, many messages pile up, then the peer reads on
void blocked()
{
    NativeP n = ready();
    size_t have = vt::sent(0).size();
    vt::kcfg().blockAfter = have + vt::pick(400, "bytes until the buffer is full");
    vt::kcfg().drains = false;
    vector<string> all;
    for (int i = 0; i < 4; ++i) {
        string t = "m" + to_string(i);
        all.push_back(t);
        sendOne(*n, i % 3, t);
    }
    vt::idle();
    verify(all, false);
    vt::kcfg().blockAfter = -1;
    vt::kcfg().drains = true;
    vt::idle();
    verify(all, true);
}

// The socket takes nothing for a while, and many messages pile up; then it takes them in pieces of various sizes
void backlog()
{
    static const int N[] = { 3, 17, 64, 65, 255, 256, 257, 1000, 1024, 1025, 4096, 5000, 10000, 66000 };
    static const int STEP[] = { 0, 1, 7, 4096, 65536, 1 << 20 };
    int total = N[vt::pick(vt::thorough() ? 14 : 12, "messages")], payload = vt::pick(3, "payload"), step = STEP[vt::pick(6, "step")];
    string fill(payload == 0 ? 0 : payload == 1 ? 300 : 3000, '.');
    if (fill.size() * total > 8000000)
        return;
    NativeP n = ready();
    size_t have = vt::sent(0).size();
    vt::kcfg().blockAfter = have + 5;
    vt::kcfg().drains = false;
    for (int i = 0; i < total; ++i)
        sendOne(*n, i % 6, to_string(i) + "." + fill);
    vt::idle();
    VT_CHECK(vt::sent(0).size() <= have + 5, "more was sent than the socket takes");
    for (int k = 0; step && k < 20; ++k) {
        vt::kcfg().blockAfter += step;
        vt::idle();
    }
    vt::kcfg().blockAfter = -1;
    vt::kcfg().drains = true;
    vt::idle();
    for (int i = 0; i < 6; ++i)
        sendOne(*n, i % 6, to_string(total + i) + "." + fill);
    vt::idle();
    Stream s = parseSent(0, false);
    for (size_t i = 0; i < s.msgs.size() && (int)i < total + 6; ++i)
        if (firstArg(s.msgs[i]) != to_string(i) + "." + fill)
            vt::fail("message " + to_string(i) + " of a backlog of " + to_string(total) + " is " + printable(firstArg(s.msgs[i]), 20));
    VT_CHECK((int)s.msgs.size() == total + 6, to_string(s.msgs.size()) + " messages were sent instead of " + to_string(total + 6));
    vt::observe(to_string(total) + to_string(payload) + to_string(step));
}

vt::Reg s0("C10", "c10_backlog", 0, 0, backlog, vt::F_FREE, -1, -1);
vt::Reg s1("C10", "c10_short1", 3, 4, [] { shortWrites(1, false, vt::thorough()); }, vt::F_FREE | vt::F_SLOWTOO);
vt::Reg s2("C10", "c10_short2", 3, 4, [] { shortWrites(2, false, vt::thorough()); }, vt::F_FREE);
vt::Reg s3("C10", "c10_short_auth", 2, 3, [] { shortWrites(2, true, vt::thorough()); }, vt::F_FREE);
vt::Reg s6("C10", "c10_interrupted", 2, 3, [] { shortWrites(1, vt::pick(2, "early"), false, true); }, vt::F_FREE, 0, 1);
vt::Reg s4("C10", "c10_halfclose", 3, 4, halfClose);
vt::Reg s5("C10", "c10_blocked", 1, 2, blocked, vt::F_FREE | vt::F_SLOWTOO);
}
