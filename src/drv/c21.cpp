// C21: the statistics equal what happened once the connection is quiescent.
#include "ops.h"
using namespace drv;

namespace {
typedef std::map<string, size_t> Stats;
Stats readStats(DBus::Native& n)
{
    Stats r;
    string s = n.getStats();
    size_t p = 0;
    while (p < s.size()) {
        size_t e = s.find('\n', p);
        if (e == string::npos)
            e = s.size();
        string l = s.substr(p, e - p);
        size_t c = l.find(": ");
        if (c != string::npos) {
            size_t b = l.find_first_not_of(' ');
            string k = l.substr(b, c - b);
            if (r.count(k))
                vt::fail("the statistics list " + k + " twice");
            r[k] = strtoull(l.c_str() + c + 2, 0, 10);
        }
        p = e + 1;
    }
    return r;
}
struct Model {
    size_t sent[5] = { 0, 0, 0, 0, 0 }, received[5] = { 0, 0, 0, 0, 0 }; // by message type
    size_t queued = 0, pumped = 0, authBytes = 0, msgBytes = 0;
    bool looseQueued = false; // the number of queued messages depends on the schedule
};
const char* const SENT[] = { "", "count_sent_methodcalls", "count_sent_methodreturns", "count_sent_errors", "count_sent_signals" };
const char* const RECV[] = { "", "count_receive_methodcalls", "count_receive_methodreturns", "count_receive_errors", "count_receive_signals" };
void judge(DBus::Native& n, const Model& m, int conn = 0)
{
    Stats s = readStats(n);
    auto expect = [&](const string& k, size_t want) {
        if (!s.count(k))
            vt::fail("the statistics do not list " + k);
        if (s[k] != want)
            vt::fail(k + " is " + to_string(s[k]) + ", but " + to_string(want) + " happened");
    };
    for (int t = 1; t <= 4; ++t) {
        expect(SENT[t], m.sent[t]);
        expect(RECV[t], m.received[t]);
    }
    Stream st = parseSent(conn, false);
    expect("count_messages_sent", st.lines.size() + st.msgs.size());
    expect("bytes_sent", vt::sent(conn).size() - 1);
    expect("bytes_read", m.authBytes + m.msgBytes);
    expect("bytes_auth", m.authBytes);
    expect("bytes_message", m.msgBytes);
    if (m.looseQueued) {
        if (s["count_messages_queued"] != s["count_messages_pumped"])
            vt::fail(to_string(s["count_messages_queued"]) + " messages were queued, but " + to_string(s["count_messages_pumped"]) + " pumped after authentication");
        if (s["count_messages_queued"] > st.msgs.size())
            vt::fail("more messages queued than sent");
    } else {
        expect("count_messages_queued", m.queued);
        expect("count_messages_pumped", m.pumped);
    }
}
int typeOf(int op)
{
    switch (op) {
    case O_CALL:
    case O_CALL_NOREPLY:
    case O_HELLO:
    case O_REMOVE_MATCH:
        return 1;
    case O_SIGNAL:
    case O_BROADCAST:
        return 4;
    case O_RETURN:
        return 2;
    case O_ERROR:
        return 3;
    }
    return 0;
}

// every history of sending, receiving and handshake steps
void histories()
{
    enum { E_SEND_CALL,
        E_SEND_SIGNAL,
        E_SEND_RETURN,
        E_SEND_ERROR,
        E_BROADCAST,
        E_REMOVE_MATCH,
        E_LINE, // a line that completes nothing
        E_OK, // the completing line, with a message right behind it
        E_CALL,
        E_RETURN,
        E_ERROR,
        E_SIGNAL,
        E_UNKNOWN,
        E_SPLIT, // a signal in two pieces
        E_BURST, // calls, returns, errors and signals in one piece, some with a throwing handler
        E_BIG, // larger than the receive buffer
        NE };
    static const int SENDS[] = { O_CALL, O_SIGNAL, O_RETURN, O_ERROR, O_BROADCAST, O_REMOVE_MATCH };
    NativeP n = open();
    n->registerSignalHandler("i.f.S", [](const SG&) { vt::lapse(); });
    n->registerMethodCallHandler("i.f.M", [](const MC&) { throw std::runtime_error("handler"); });
    Model m;
    bool fd = vt::pick(2, "mode");
    n->BeginAuth(fd ? AP::AUTH_NEGOTIATE_UNIX_FD : AP::AUTH_BASIC);
    vt::idle();
    bool done = false;
    judge(*n, m);
    int len = vt::thorough() ? 6 : 5;
    for (int i = 0; i < len; ++i) {
        int e = vt::pick(NE, "event");
        if (e <= E_REMOVE_MATCH) {
            doOp(*n, SENDS[e], "t");
            ++m.sent[typeOf(SENDS[e])];
            if (!done)
                ++m.queued;
        } else if (e == E_LINE) {
            if (done)
                return;
            string l = i & 1 ? "REJECTED A B\r\n" : "DATA 00\r\nFOO\r\n";
            vt::deliver(0, l);
            m.authBytes += l.size();
        } else if (e == E_OK) {
            if (done)
                return;
            string l = "OK 123\r\n", s = i & 1 ? inSignal(3, "first") : "";
            if (fd) {
                vt::deliver(0, l);
                m.authBytes += l.size();
                vt::idle();
                l = "AGREE_UNIX_FD\r\n";
            }
            vt::deliver(0, l + s);
            m.authBytes += l.size();
            m.msgBytes += s.size();
            m.received[4] += !s.empty();
            m.pumped = m.queued;
            done = true;
        } else {
            if (!done)
                return; // not a D-Bus server
            string s;
            if (e == E_CALL)
                s = inCall(5, "x"), ++m.received[1];
            else if (e == E_RETURN)
                s = inReturn(77, "x"), ++m.received[2];
            else if (e == E_ERROR)
                s = inError(78, i & 1 ? "" : "x"), ++m.received[3];
            else if (e == E_SIGNAL)
                s = inSignal(5, "x", i & 1 ? "S" : "Unhandled"), ++m.received[4];
            else if (e == E_UNKNOWN) {
                ref::Msg u = ref::signalMsg(6, "/o", "i.f", "S", {});
                u.type = 9;
                s = ref::encMsg(u);
            } else if (e == E_BIG) {
                s = inSignal(8, string(3000, 'x'));
                ++m.received[4];
            } else if (e == E_BURST) {
                s = inCall(5, "x") + inSignal(6, "y") + inCall(7, "z") + inReturn(9, "r") + inError(10, "e") + inSignal(7, "y");
                m.received[1] += 2;
                m.received[2]++;
                m.received[3]++;
                m.received[4] += 2;
            }
            if (e == E_SPLIT) {
                s = inSignal(5, "x");
                vt::deliver(0, s.substr(0, 20));
                vt::idle();
                vt::deliver(0, s.substr(20));
                ++m.received[4];
            } else
                vt::deliver(0, s);
            m.msgBytes += s.size();
        }
        vt::idle();
        judge(*n, m);
    }
    vt::observe(to_string(m.queued) + to_string(done) + to_string(m.received[4]));
    n.reset();
}

// what threads and the reader do at once adds up
void concurrent(bool early, bool handlersSend)
{
    static const int OPS[] = { O_CALL, O_SIGNAL, O_RETURN, O_ERROR, O_HELLO, O_BROADCAST };
    int a = OPS[vt::pick(6, "operation of A")], b = OPS[vt::pick(6, "operation of B")];
    Model m;
    NativeP n;
    if (early) {
        n = open();
        m.looseQueued = true;
        spawnBus(0);
        m.authBytes += 17;
    } else {
        n = ready();
        m.authBytes += 17;
    }
    if (handlersSend) {
        n->registerSignalHandler("i.f.S", [&](const SG&) { doOp(*n, a, "h"); });
        n->registerMethodCallHandler("i.f.M", [&](const MC&) { doOp(*n, b, "h"); });
        m.sent[typeOf(a)] += 2;
        m.sent[typeOf(b)] += 1;
    }
    string in = inSignal(5, "x") + inCall(6, "y") + inReturn(70, "r") + inError(71, "e") + inSignal(8, "x");
    if (early)
        vt::spawnEnv("talk", [in] {
            vt::await([] { return vt::sent(0).find("BEGIN\r\n") != string::npos; }, "BEGIN");
            vt::deliver(0, in);
        });
    else
        vt::deliver(0, in);
    m.msgBytes += in.size();
    m.received[1] = m.received[2] = m.received[3] = 1;
    m.received[4] = 2;
    int t1 = vt::spawn("A", [&] { doOp(*n, a, "a"); doOp(*n, b, "a"); n->getStats(); });
    int t2 = vt::spawn("B", [&] { doOp(*n, b, "b"); doOp(*n, a, "b"); });
    m.sent[typeOf(a)] += 2;
    m.sent[typeOf(b)] += 2;
    if (early)
        n->BeginAuth(AP::AUTH_BASIC);
    vt::join(t1);
    vt::join(t2);
    vt::idle();
    judge(*n, m);
    Stats s = readStats(*n);
    vt::observe(to_string(s["count_messages_queued"]));
    n.reset();
}
// short writes and reads change nothing
void pieces()
{
    vt::kcfg().shortWrites = true;
    vt::kcfg().shortReads = true;
    Model m;
    NativeP n = open();
    bool fd = vt::pick(2, "mode");
    n->sendSignal("", mkSignal(string(200, 'x')));
    n->BeginAuth(fd ? AP::AUTH_NEGOTIATE_UNIX_FD : AP::AUTH_BASIC);
    string l = "OK 12\r\n", l2 = fd ? "AGREE_UNIX_FD\r\n" : "", in = inSignal(5, "x") + inCall(6, "y");
    vt::deliver(0, l);
    if (fd)
        vt::idle();
    vt::deliver(0, l2 + in);
    m.authBytes = l.size() + l2.size();
    m.msgBytes = in.size();
    m.received[4] = m.received[1] = 1;
    m.sent[4] = 2;
    m.queued = m.pumped = 1;
    vt::idle();
    n->sendSignal("", mkSignal("y"));
    vt::idle();
    judge(*n, m);
    n.reset();
}
// each connection counts for itself
void two()
{
    NativeP a = ready();
    int before = vt::connections();
    NativeP b = ready();
    Model ma, mb;
    ma.authBytes = mb.authBytes = 17;
    for (int o = 0; o < 6; ++o)
        if (vt::pick(2, "on a")) {
            doOp(*a, o, "x");
            ++ma.sent[typeOf(o)];
        } else {
            doOp(*b, o, "x");
            ++mb.sent[typeOf(o)];
        }
    string s = inSignal(5, "x");
    vt::deliver(before, s);
    mb.msgBytes = s.size();
    mb.received[4] = 1;
    vt::idle();
    judge(*a, ma, 0);
    judge(*b, mb, before);
}
// many messages of one kind each way, before and after the handshake
void volume()
{
    static const int N[] = { 0, 1, 127, 128, 255, 256, 257, 1000, 32767, 32768, 65535, 65536, 65537, 70000 };
    static const int OPS[] = { O_CALL, O_SIGNAL, O_RETURN, O_ERROR, O_BROADCAST, O_CALL_NOREPLY };
    int early = N[vt::pick(8, "early")], sent = N[vt::pick(8, "sent")], got = N[vt::pick(8, "received")];
    int kind = vt::pick(vt::thorough() ? 6 : 3, "kind");
    if (int many = vt::pick(vt::thorough() ? 7 : 2, "very many")) { // one way only
        if (early > 1 || sent > 1 || got > 1 || early + sent + got != 1)
            return;
        (early ? early : got ? got : sent) = vt::thorough() ? N[7 + many] : 65537;
    }
    Model m;
    NativeP n = open();
    for (int i = 0; i < early; ++i)
        doOp(*n, OPS[kind], "t");
    m.queued = m.pumped = m.sent[typeOf(OPS[kind])] = early;
    n->BeginAuth(AP::AUTH_BASIC);
    vt::idle();
    string l = "OK 12\r\n";
    vt::deliver(0, l);
    m.authBytes = l.size();
    vt::idle();
    for (int i = 0; i < sent; ++i)
        doOp(*n, OPS[5 - kind], "t");
    m.sent[typeOf(OPS[5 - kind])] += sent;
    string one = kind % 4 == 0 ? inCall(5, "x") : kind % 4 == 1 ? inReturn(77, "x") : kind % 4 == 2 ? inError(78, "x") : inSignal(5, "x"), all;
    for (int i = 0; i < got; ++i)
        all += one;
    vt::deliver(0, all);
    m.received[kind % 4 + 1] += got;
    m.msgBytes += all.size();
    vt::idle();
    judge(*n, m);
    vt::observe(to_string(early) + " " + to_string(sent) + " " + to_string(got));
    n.reset();
}

// attempts to authenticate that are refused count as well
void refusals()
{
    static const char* const REFUSALS[] = { "REJECTED EXTERNAL\r\n", "ERROR\r\n", "DATA\r\nREJECTED\r\n" };
    int times = vt::pick(vt::thorough() ? 4 : 3, "refusals");
    bool pieces = vt::pick(2, "in pieces");
    Model m;
    NativeP n = open();
    auto say = [&](const string& text, size_t msg = 0) {
        for (size_t i = 0; i < text.size(); i += pieces ? 5 : text.size()) {
            vt::deliver(0, pieces ? text.substr(i, 5) : text);
            vt::idle();
        }
        m.authBytes += text.size() - msg;
        m.msgBytes += msg;
    };
    auto queue = [&] {
        if (!vt::pick(2, "message"))
            return;
        n->broadcastSignal(mkSignal("q"));
        ++m.queued;
        ++m.sent[4];
    };
    bool fd = false;
    for (int i = 0; i <= times; ++i) {
        queue();
        fd = vt::pick(2, "mode");
        n->BeginAuth(fd ? AP::AUTH_NEGOTIATE_UNIX_FD : AP::AUTH_BASIC);
        vt::idle();
        queue();
        if (i < times)
            say(REFUSALS[vt::pick(3, "refusal")]);
        judge(*n, m);
    }
    if (fd)
        say("OK 12\r\n");
    string msg = inSignal(5, "x");
    say((fd ? "AGREE_UNIX_FD\r\n" : "OK 12\r\n") + msg, msg.size());
    m.pumped = m.queued;
    m.received[4] = 1;
    judge(*n, m);
    n->broadcastSignal(mkSignal("q"));
    ++m.sent[4];
    vt::idle();
    judge(*n, m);
    n.reset();
}
// more than four gigabytes in either direction
void gigabytes()
{
    static const size_t MI = 1 << 20;
    bool in = vt::pick(2, "direction");
    NativeP n = ready();
    vt::kcfg().horizon = 1000000000;
    size_t before = readStats(*n)[in ? "bytes_read" : "bytes_sent"], count = 0, total = 0;
    size_t beforeMsg = readStats(*n)["bytes_message"];
    string text(16 * MI, 'x');
    if (in) {
        string m = inSignal(5, text);
        text.clear();
        for (; total <= (4096 + 10) * MI; ++count) {
            vt::deliver(0, m);
            total += m.size();
            vt::idle();
            VT_CHECK(vt::readAll(0), "not everything was read");
        }
    } else {
        vt::kcfg().sink = true;
        size_t at = vt::sentTotal(0);
        for (; total <= (4096 + 10) * MI; ++count) {
            n->broadcastSignal(mkSignal(text));
            vt::idle();
            total = vt::sentTotal(0) - at;
        }
    }
    Stats s = readStats(*n);
    auto expect = [&](const string& k, size_t want) {
        if (s[k] != want)
            vt::fail(k + " is " + to_string(s[k]) + ", but " + to_string(want) + " happened");
    };
    expect(in ? "count_receive_signals" : "count_sent_signals", count);
    expect(in ? "bytes_read" : "bytes_sent", before + total);
    if (in)
        expect("bytes_message", beforeMsg + total);
    n.reset();
}
vt::Reg r9("C21", "c21_refusals", 0, 0, refusals, vt::F_FREE, -1, -1);
vt::Reg r8("C21", "c21_gigabytes", 0, 0, gigabytes, vt::F_FREE, -1, -1);
vt::Reg r0("C21", "c21_volume", 0, 0, volume, vt::F_FREE, -1, -1);
vt::Reg r1("C21", "c21_histories", 0, 0, histories, vt::F_FREE | vt::F_SLOWTOO, -1, -1);
vt::Reg r2("C21", "c21_early", 1, 2, [] { concurrent(true, false); }, vt::F_FREE, 0, 2);
vt::Reg r3("C21", "c21_threads", 2, 3, [] { concurrent(false, false); }, vt::F_FREE, 1, 2);
vt::Reg r4("C21", "c21_handlers", 1, 2, [] { concurrent(false, true); }, vt::F_FREE, 0, 2);
vt::Reg r5("C21", "c21_early_handlers", 1, 2, [] { concurrent(true, true); }, vt::F_FREE, 0, 2);
vt::Reg r6("C21", "c21_pieces", 3, 4, pieces, vt::F_FREE, 1, 2);
vt::Reg r7("C21", "c21_two", 1, 2, two, vt::F_FREE, -1, 0);
}
