// Connection-level parts of C03, C04, C05, C19 and C22: the same properties through socket, handshake and reader thread.
#include "ops.h"
#include "dbus_platform.h"
#include <dlfcn.h>
using namespace drv;

namespace {
// records whatever is delivered, as "kind member tag" lines
struct Log {
    vector<string> got;
    std::set<string> throwing; // tags whose handler throws
    void rec(const string& s, const string& tag)
    {
        got.push_back(s + " " + tag);
        if (throwing.count(tag)) {
            if (tag.size() & 1)
                throw std::runtime_error("handler");
            throw 7;
        }
    }
    void attach(DBus::Native& n)
    {
        n.registerSignalHandler("i.f.S", [this](const SG& s) { rec("signal", argOf(s)); });
        n.registerMethodCallHandler("i.f.M", [this](const MC& s) { rec("call", argOf(s)); });
    }
    string all() const
    {
        string r;
        for (auto& g : got)
            r += printable(g, 60) + "; ";
        return r;
    }
};
struct Item {
    string bytes, want; // want is empty when nothing may be delivered
};
Item good(int i, const string& tag, bool big = false)
{
    ref::Msg m = i & 1 ? ref::callMsg(50 + i, "/o", "i.f", "M", { ref::str(tag) }, big) : ref::signalMsg(50 + i, "/o", "i.f", "S", { ref::str(tag) }, big);
    return { ref::encMsg(m), (i & 1 ? "call " : "signal ") + tag };
}
void expect(const Log& l, const vector<string>& want, const string& what)
{
    if (l.got != want) {
        string w;
        for (auto& x : want)
            w += printable(x, 60) + "; ";
        vt::fail(what + ": delivered " + l.all() + " instead of " + w);
    }
}

// ---- C04: fragmentation at the socket. The receive buffer has 1024 bytes; messages are smaller, equal and larger
void fragments(bool behindHandshake)
{
    static const size_t SIZES[] = { 1, 700, 1024 - 89, 1024, 2500 };
    vector<Item> items;
    int n = 3;
    for (int i = 0; i < n; ++i) {
        size_t sz = SIZES[vt::pick(5, "size")];
        items.push_back(good(i, string(sz, 'a' + i), i == 1));
    }
    string pre = behindHandshake ? "OK 12\r\n" : "";
    string all = pre;
    vector<size_t> ends;
    vector<string> want;
    for (auto& i : items) {
        all += i.bytes;
        ends.push_back(all.size());
    }
    // two cuts: everywhere near the interesting offsets
    vector<size_t> at = { 0 };
    for (size_t base : { pre.size(), (size_t)1024, pre.size() + 1024, (size_t)2048, ends[0], ends[1] })
        for (int d : { -1, 0, 1, 3, 8, 15, 16, 17 })
            if ((long)base + d > 0 && base + d < all.size())
                at.push_back(base + d);
    std::sort(at.begin(), at.end());
    at.erase(std::unique(at.begin(), at.end()), at.end());
    size_t c1 = at[vt::pick(at.size(), "first cut")], c2 = vt::thorough() ? at[vt::pick(at.size(), "second cut")] : all.size();
    if (c2 < c1)
        return;
    NativeP nat = behindHandshake ? open() : ready();
    Log l;
    l.attach(*nat);
    if (behindHandshake) {
        nat->BeginAuth(AP::AUTH_BASIC);
        vt::idle();
    }
    size_t from = 0;
    for (size_t to : { c1, c2, all.size() }) {
        if (to > from)
            vt::deliver(0, all.substr(from, to - from));
        from = std::max(from, to);
        vt::idle();
        size_t k = 0;
        while (k < ends.size() && ends[k] <= from)
            ++k;
        want.clear();
        for (size_t i = 0; i < k; ++i)
            want.push_back(items[i].want);
        expect(l, want, "after " + to_string(from) + " bytes");
    }
    nat.reset();
    vt::observe(to_string(c1));
}
// the kernel returns fewer bytes than asked for
void shortReads(bool signals)
{
    vt::kcfg().shortReads = true;
    vt::kcfg().interrupts = signals;
    NativeP n = open();
    Log l;
    l.attach(*n);
    bool fd = vt::pick(2, "mode");
    n->BeginAuth(fd ? AP::AUTH_NEGOTIATE_UNIX_FD : AP::AUTH_BASIC);
    vt::idle();
    vector<Item> items = { good(0, "abc"), good(1, "d", true), good(2, string(1100, 'e')) };
    string s = "OK 12\r\n";
    if (fd)
        s += "AGREE_UNIX_FD\r\n";
    vector<string> want;
    for (auto& i : items)
        s += i.bytes, want.push_back(i.want);
    vt::deliver(0, s);
    vt::idle();
    expect(l, want, "with short reads");
    VT_CHECK(vt::readAll(0), "bytes were left unread");
    n.reset();
}

// ---- C05: histories of good and bad messages, failing handlers and refusals
enum { B_GOOD,
    B_THROW,
    B_BODY, // body shorter than its signature needs
    B_TYPE,
    B_NOHANDLER,
    B_SIGNATURE,
    B_EMPTYBODY,
    B_ERROR, // error that answers nothing
    B_ARRAY, // header array above the limit: refused
    B_SIZE, // message above the limit: refused
    B_FIELDS, // header fields that cannot be decoded: refused
    NB };
Item bad(int kind, int i, Log& l)
{
    string tag = "t" + to_string(i);
    switch (kind) {
    case B_GOOD:
        return good(i, tag, i & 2);
    case B_THROW:
        if (i & 1)
            tag += "x";
        l.throwing.insert(tag);
        return good(i, tag);
    case B_BODY: {
        ref::Msg m = ref::signalMsg(9, "/o", "i.f", "S", {});
        m.fields.push_back({ 8, ref::str("su", 'g') });
        return { ref::encHeader(m, 4) + string("\xff\0\0\0", 4), "" };
    }
    case B_TYPE: {
        ref::Msg m = ref::signalMsg(9, "/o", "i.f", "S", { ref::str("x") });
        m.type = 5 + i * 50;
        return { ref::encMsg(m), "" };
    }
    case B_NOHANDLER:
        return { ref::encMsg(ref::callMsg(9, "/o", "i.f", "None", { ref::str("x") })) + ref::encMsg(ref::returnMsg(9, 12345, { ref::str("x") })), "" };
    case B_SIGNATURE: {
        ref::Msg m = ref::callMsg(9, "/o", "i.f", "M", {});
        m.fields.push_back({ 8, ref::str("(s", 'g') });
        return { ref::encHeader(m, 8) + string("\1\0\0\0x\0\0\0", 8), "" };
    }
    case B_EMPTYBODY: {
        ref::Msg m = ref::signalMsg(9, "/o", "i.f", "S", {});
        m.fields.push_back({ 8, ref::str("s", 'g') });
        return { ref::encHeader(m, 0), "" };
    }
    case B_ERROR:
        return { inError(999999, "nobody asked"), "" };
    }
    string h = string(i & 1 ? "B\4\0\1" : "l\4\0\1", 4);
    bool big = i & 1;
    if (kind == B_ARRAY) {
        ref::putInt(h, 0, 4, big);
        ref::putInt(h, 9, 4, big);
        ref::putInt(h, (64u << 20) + 1, 4, big);
    } else if (kind == B_SIZE) {
        ref::putInt(h, 0xfffffff0u, 4, big);
        ref::putInt(h, 9, 4, big);
        ref::putInt(h, 0, 4, big);
    } else {
        ref::putInt(h, 0, 4, big);
        ref::putInt(h, 9, 4, big);
        ref::putInt(h, 8, 4, big);
        h += string("\1\1(\0\0\0\0\0", 8);
    }
    return { h, "" };
}
void histories()
{
    Log l;
    NativeP n = ready();
    l.attach(*n);
    n->callAddMatch(
        "type='signal'", [](const MR&) {}, [](const ER&) {}, [](const SG&) { throw std::runtime_error("rule handler"); });
    vt::idle();
    int len = vt::thorough() ? 5 : 4;
    bool together = vt::pick(2, "in one piece");
    vector<string> want;
    string pending;
    for (int i = 0; i < len; ++i) {
        int k = vt::pick(NB, "message");
        Item it = bad(k, i, l);
        pending += it.bytes;
        if (!it.want.empty())
            want.push_back(it.want);
        // what follows a refusal within the same piece is unspecified, so a refusal ends the piece
        if (!together || k >= B_ARRAY) {
            vt::deliver(0, pending);
            vt::idle();
            pending.clear();
            expect(l, want, "after message " + to_string(i));
        }
    }
    Item last = good(2, "last");
    want.push_back(last.want);
    vt::deliver(0, pending + last.bytes);
    vt::idle();
    expect(l, want, "at the end");
    n.reset();
    vt::observe(to_string(want.size()));
}

// ---- C03: hostile bytes in every phase
void hostile()
{
    static const int FEW[] = { 0, 1, 2, 4, 8, 0x0a, 0x0d, 0x20, 0x28, 0x61, 0x6c, 0x42, 0x7b, 0x80, 0xff };
    int phase = vt::pick(3, "phase");
    NativeP n;
    Log l;
    if (phase == 2)
        n = ready();
    else {
        n = open();
        if (phase == 1) {
            n->BeginAuth(AP::AUTH_NEGOTIATE_UNIX_FD);
            vt::idle();
        }
    }
    l.attach(*n);
    string s;
    if (vt::pick(2, "mutated message")) {
        s = good(vt::pick(2, "kind"), "abc", vt::pick(2, "order")).bytes;
        size_t i = vt::pick(s.size(), "byte");
        s[i] = FEW[vt::pick(15, "value")];
        if (vt::thorough()) {
            size_t j = vt::pick(20, "second byte");
            s[j] = FEW[vt::pick(15, "value")];
        }
        if (phase < 2)
            s = (vt::pick(2, "line") ? "OK\r\n" : "DATA\r\n") + s;
    } else {
        int len = vt::thorough() ? 4 : 3;
        for (int i = 0; i < len; ++i)
            s.push_back((char)FEW[vt::pick(15, "byte")]);
        if (vt::pick(2, "line end"))
            s += "\r\n";
        if (vt::pick(2, "much more"))
            s += string(5000, s[0]);
    }
    vt::deliver(0, s);
    vt::idle();
    VT_CHECK(vt::readAll(0), "the reader thread stopped");
    vt::closePeer(0);
    vt::idle();
    n.reset();
    vt::observe(to_string(phase) + to_string(l.got.size()));
}

// ---- C19: what the connection connects to
void target()
{
    static const char* const P[] = { "/run/user/1000/bus", "/a", "x", "/p/q,guid", "/with space", "/tmp/dbus-%41", "rel/ative", "/guid=", "/x=y" };
    string p = P[vt::pick(9, "path")];
    int length = vt::pick(4, "length");
    if (length) // up to what fits into an address
        p = "/" + string((length == 1 ? 50 : length == 2 ? 105 : 106) - 1, 'p');
    int form = vt::pick(3, "form");
    string guid = vt::pick(2, "guid") ? ",guid=0123456789abcdef" : "";
    string addr = form == 0 ? "unix:path=" + p + guid : form == 1 ? "unix:abstract=" + p + guid : p;
    string want = form == 1 ? string(1, '\0') + p : p;
    bool session = vt::pick(2, "session"), env = vt::pick(2, "environment");
    string resolved;
    if (env) {
        setenv(session ? "DBUS_SESSION_BUS_ADDRESS" : "DBUS_SYSTEM_BUS_ADDRESS", addr.c_str(), 1);
        resolved = session ? DBus::Platform::getSessionBus() : DBus::Platform::getSystemBus();
    } else
        resolved = session ? DBus::Platform::getSessionBus(addr.c_str()) : DBus::Platform::getSystemBus(addr.c_str());
    VT_CHECK(resolved == want, printable(addr) + " resolves to " + printable(resolved));
    NativeP n = open(resolved);
    VT_CHECK(vt::connections() == 1, to_string(vt::connections()) + " connections were made");
    string got = vt::connAddress(0);
    if (want[0] != 0 && got.size() == want.size() + 1 && got.back() == 0)
        got.pop_back();
    VT_CHECK(got == want, "the connection goes to " + printable(got) + " instead of " + printable(want));
    authenticate(*n);
    n.reset();
    unsetenv("DBUS_SESSION_BUS_ADDRESS");
    unsetenv("DBUS_SYSTEM_BUS_ADDRESS");
    vt::observe(to_string(form));
}

// ---- C22: a whole conversation at every log level
bool formatWatch = false, formatBad = false;
struct Sink {
    FILE* old = stderr;
    char* buf = 0;
    size_t n = 0;
    FILE* f = open_memstream(&buf, &n);
    Sink() { stderr = f; }
    ~Sink()
    {
        stderr = old;
        fclose(f);
        free(buf);
        DBus::Log::setLevel(DBus::Log::ERROR + 1);
    }
};
string conversation(int conn, const string& payload, int line, int handlers, int message)
{
    static const char* const L[] = { "", "REJECTED %s%n%s\r\n", "ERROR \"%d\"\r\n", "%n%n%n%s\r\n", "DATA %s\r\nOK2\r\n", "AGREE_UNIX_FD\r\n" };
    Log l;
    string refusals;
    {
        NativeP n = open();
        l.attach(*n);
        auto guard = [&](const std::function<void()>& f, const char* what) {
            try {
                f();
            } catch (const std::exception&) {
                refusals += what;
            }
        };
        guard([&] { n->sendSignal("", mkSignal(payload)); }, "early signal;");
        n->BeginAuth(AP::AUTH_BASIC);
        vt::idle();
        vt::deliver(conn, L[line]);
        vt::idle();
        vt::deliver(conn, "OK " + payload.substr(0, 3) + "\r\n");
        vt::idle();
        guard([&] { n->sendMethodCall(
                        payload, mkCall(payload), [&](const MR& r) { l.got.push_back("reply " + argOf(r)); }, [&](const ER& e) { l.got.push_back("error " + e.getMessage()); }); }, "call;");
        guard([&] { n->sendMethodCall(payload, mkCall(payload, DBus::Message::Header::FLAGS_NO_REPLY_EXPECTED, "W")); }, "one-way call;");
        guard([&] { n->callAddMatch("member='" + payload + "'", [](const MR&) {}, [](const ER&) {}, [&](const SG&) { l.got.push_back("rule"); }); }, "rule;");
        guard([&] { n->sendError("d.e", ER(5, "e.x", payload)); }, "error;");
        vt::idle();
        if (handlers == 1)
            l.throwing = { payload, "x" };
        uint32_t serial = 0;
        for (auto& m : parseSent(conn).msgs)
            if (m.member() == "M")
                serial = m.serial;
        string s;
        switch (message) {
        case 0:
            s = inReturn(serial, payload);
            break;
        case 1:
            s = inError(serial, payload);
            break;
        case 2:
            s = inError(serial, "");
            break;
        case 3:
            s = inSignal(4, payload, payload, "i.f") + inCall(5, payload, payload);
            break;
        case 4:
            s = inSignal(4, payload) + inCall(5, "x");
            break;
        case 5:
            s = bad(B_BODY, 0, l).bytes + bad(B_TYPE, 1, l).bytes;
            break;
        case 6:
            s = bad(B_ARRAY, 0, l).bytes;
            break;
        case 7:
            s = bad(B_FIELDS, 0, l).bytes;
            break;
        }
        vt::deliver(conn, s);
        vt::idle();
        vt::deliver(conn, inSignal(8, "last") + inCall(9, "last", "None"));
        vt::idle();
        if (handlers == 2)
            vt::closePeer(conn);
        else if (handlers == 3)
            vt::resetPeer(conn);
        guard([&] { n->broadcastSignal(mkSignal("bye")); }, "late signal;");
        vt::idle();
        n.reset();
    }
    // transcript of everything observable
    string r = "refused: " + refusals + "\n";
    Stream st = parseSent(conn);
    for (auto& x : st.lines)
        r += x + "\n";
    for (auto& m : st.msgs) {
        string b;
        for (auto& v : m.body)
            b += ref::sigOf(v) + "=" + ref::encBody({ v }, false) + " ";
        r += to_string(m.type) + " " + to_string(m.flags) + " " + m.path() + " " + m.interface() + " " + m.member() + " " + m.destination() + " (" + b + ")\n";
    }
    for (auto& g : l.got)
        r += "delivered " + g + "\n";
    return r;
}
void levels()
{
    static const size_t SEV[] = { DBus::Log::TRACE, DBus::Log::INFO, DBus::Log::WARNING, DBus::Log::ERROR };
    static const char* const PAY[] = { "plain", "%s%s%s%n", "%n", "\x01\xff\x80%d", "", "100%" };
    int pl = vt::pick(8, "payload");
    // the last one makes the first bytes of a one-way call "l\1\1\1%n"
    string payload = pl == 6 ? string(3000, '%') : pl == 7 ? string(0x6e25 - 5, 'x') : PAY[pl];
    int line = vt::pick(6, "line"), handlers = vt::pick(4, "handlers"), message = vt::pick(8, "message");
    int level = vt::pick(4, "level");
    DBus::Log::setLevel(DBus::Log::ERROR + 1);
    string want = conversation(0, payload, line, handlers, message);
    int c = vt::connections();
    string got;
    {
        Sink s;
        DBus::Log::setLevel(SEV[level]);
        formatWatch = true;
        formatBad = false;
        got = conversation(c, payload, line, handlers, message);
    }
    formatWatch = false;
    VT_CHECK(!formatBad, "at log level " + to_string(level) + " bytes of the traffic are interpreted as a format");
    VT_CHECK(got == want, "at log level " + to_string(level) + " the conversation is\n" + printable(got, 1500) + "\ninstead of\n" + printable(want, 1500));
    vt::observe(to_string(message) + to_string(got.size() % 97));
}

void checkFormat(const char* f)
{
    for (; *f; ++f)
        if (*f == '%') {
            ++f;
            f += strspn(f, "-+ #0123456789.*lhqjzt$");
            if (*f == 'n')
                formatBad = true;
            if (!*f)
                return;
        }
}
}
// no format of the library writes anything back: a %n stems from the traffic
extern "C" int vfprintf(FILE* o, const char* f, va_list a)
{
    static int (*real)(FILE*, const char*, va_list) = (int (*)(FILE*, const char*, va_list))dlsym(RTLD_NEXT, "vfprintf");
    if (formatWatch) {
        checkFormat(f);
        if (formatBad)
            return 0;
    }
    return real(o, f, a);
}
namespace {
vt::Reg r1("C04", "c04_socket", 0, 0, [] { fragments(false); }, vt::F_FREE | vt::F_SLOWTOO, -1, -1);
vt::Reg r2("C04", "c04_behind_ok", 0, 0, [] { fragments(true); }, vt::F_FREE, -1, -1);
vt::Reg r3("C04", "c04_short_reads", 3, 4, [] { shortReads(false); }, vt::F_FREE, -1, -1);
vt::Reg r8("C04", "c04_interrupted", 2, 3, [] { shortReads(true); }, vt::F_FREE, 0, 1);
vt::Reg r4("C05", "c05_connection", 0, 0, histories, vt::F_FREE | vt::F_SLOWTOO, -1, -1);
vt::Reg r5("C03", "c03_connection", 0, 0, hostile, vt::F_FREE, 0, -1);
vt::Reg r6("C19", "c19_target", 0, 0, target, vt::F_FREE, -1, -1);
vt::Reg r7("C22", "c22_connection", 0, 0, levels, vt::F_FREE, -1, -1);
}
