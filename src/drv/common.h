// Helpers shared by the scheduler drivers: connection set-up, the peer's view of the stream, a reactive bus.
#pragma once
#include "../ref.h"
#include "../sched/vt.h"
#include "dbus.h"
#include "dbus_log.h"
#include "dbus_native.h"
#include "dbus_type_string.h"
#include "dbus_type_uint32.h"
#include <map>
#include <memory>
#include <algorithm>
#include <set>

namespace drv {
using std::string;
using std::vector;
using std::to_string;
typedef DBus::AuthenticationProtocol AP;
typedef DBus::Message::MethodCall MC;
typedef DBus::Message::MethodReturn MR;
typedef DBus::Message::Error ER;
typedef DBus::Message::Signal SG;
typedef DBus::Message::MethodCallIdentifier MID;
typedef DBus::Message::MethodCallParametersIn PIN;

inline string printable(const string& s, size_t max = 200)
{
    string r;
    for (size_t i = 0; i < s.size() && i < max; ++i) {
        char c = s[i];
        if (c == '\r')
            r += "\\r";
        else if (c == '\n')
            r += "\\n";
        else if (c >= 32 && c < 127)
            r += c;
        else {
            char b[8];
            snprintf(b, sizeof b, "\\%02x", (unsigned char)c);
            r += b;
        }
    }
    if (s.size() > max)
        r += "...(" + to_string(s.size()) + ")";
    return r;
}

// What the peer has received so far, taken apart by the reference codec. Fails the execution on anything that is not
// NUL, handshake lines, BEGIN, messages.
struct Stream {
    bool nul = false, begun = false;
    vector<string> lines; // handshake lines without \r\n
    vector<ref::Msg> msgs;
    size_t tail = 0; // bytes of an incomplete last line or message
};
inline Stream parseSent(int conn, bool allowTail = true)
{
    const string& s = vt::sent(conn);
    Stream r;
    size_t p = 0;
    if (s.empty())
        return r;
    if (s[0] != 0)
        vt::fail("the first byte sent is not NUL: " + printable(s));
    r.nul = true;
    p = 1;
    while (p < s.size() && !r.begun) {
        size_t e = s.find("\r\n", p);
        if (e == string::npos) {
            r.tail = s.size() - p;
            break;
        }
        string l = s.substr(p, e - p);
        for (char c : l)
            if (c < 32 || c > 126)
                vt::fail("bytes that are no handshake line precede BEGIN: " + printable(s));
        r.lines.push_back(l);
        p = e + 2;
        if (l == "BEGIN")
            r.begun = true;
    }
    if (r.begun)
        while (p < s.size()) {
            size_t n = ref::msgSize(s, p);
            if (s[p] != 'l' && s[p] != 'B')
                vt::fail("the stream does not continue with a message at offset " + to_string(p) + ": " + printable(s.substr(p)));
            if (n == 0 || n > s.size() - p) {
                r.tail = s.size() - p;
                break;
            }
            try {
                r.msgs.push_back(ref::parse(s.substr(p, n)));
            } catch (const ref::Bad& b) {
                vt::fail(string("malformed message sent (") + b.why + "): " + printable(s.substr(p, n)));
            }
            p += n;
        }
    if (r.tail && !allowTail)
        vt::fail("the stream ends within a line or message: " + printable(s.substr(s.size() - r.tail)));
    return r;
}
inline string firstArg(const ref::Msg& m) { return m.body.empty() ? "" : m.body[0].s; }

inline string hexUid(long uid)
{
    string d = to_string(uid), r;
    char b[4];
    for (char c : d) {
        snprintf(b, sizeof b, "%02x", c);
        r += b;
    }
    return r;
}

static struct Quiet {
    Quiet() { DBus::Log::setLevel(DBus::Log::ERROR + 1); }
} quiet;
typedef std::unique_ptr<DBus::Native> NativeP;
inline NativeP open(const string& path = "/run/bus")
{
    return NativeP(new DBus::Native(path));
}

// sequential authentication: returns when the connection is ready
inline void authenticate(DBus::Native& n, int conn = 0, AP::AuthRequired mode = AP::AUTH_BASIC)
{
    n.BeginAuth(mode);
    vt::idle();
    vt::deliver(conn, "OK 1234deadbeef\r\n");
    vt::idle();
    if (mode != AP::AUTH_BASIC) {
        vt::deliver(conn, "AGREE_UNIX_FD\r\n");
        vt::idle();
    }
    if (!parseSent(conn).begun)
        vt::fail("authentication did not complete: " + printable(vt::sent(conn)));
}
inline NativeP ready(const string& path = "/run/bus")
{
    int c = vt::connections();
    NativeP n = open(path);
    authenticate(*n, c);
    return n;
}

// A bus that answers the handshake and hands every message to a function. Runs as an environment actor; the function
// runs when a message has arrived completely and may deliver bytes.
inline void spawnBus(int conn, const std::function<void(const ref::Msg&)>& onMsg = nullptr, bool auth = true)
{
    vt::spawnEnv("bus", [conn, onMsg, auth] {
        size_t lines = 0, msgs = 0, have = 0;
        for (;;) {
            vt::await([&] { return vt::connections() > conn && vt::sent(conn).size() > have; }, "bus: client bytes");
            have = vt::sent(conn).size();
            Stream s = parseSent(conn);
            for (; lines < s.lines.size(); ++lines) {
                const string& l = s.lines[lines];
                if (auth && l.compare(0, 13, "AUTH EXTERNAL") == 0)
                    vt::deliver(conn, "OK 1234deadbeef\r\n");
                else if (auth && l == "NEGOTIATE_UNIX_FD")
                    vt::deliver(conn, "AGREE_UNIX_FD\r\n");
            }
            for (; msgs < s.msgs.size(); ++msgs)
                if (onMsg)
                    onMsg(s.msgs[msgs]);
        }
    });
}

inline SG mkSignal(const string& tag, const string& member = "S")
{
    SG s(MID("/o", "i.f", member));
    s.addParameter(DBus::Type::String(tag));
    return s;
}
inline MC mkCall(const string& tag, uint32_t flags = 0, const string& member = "M")
{
    return MC(MID("/o", "i.f", member), PIN(tag), flags);
}
inline string inSignal(uint32_t serial, const string& tag, const string& member = "S", const string& iface = "i.f", const string& path = "/o")
{
    return ref::encMsg(ref::signalMsg(serial, path, iface, member, { ref::str(tag) }));
}
inline string inCall(uint32_t serial, const string& tag, const string& member = "M", const string& iface = "i.f")
{
    return ref::encMsg(ref::callMsg(serial, "/o", iface, member, { ref::str(tag) }));
}
inline string inReturn(uint32_t reply, const string& tag)
{
    return ref::encMsg(ref::returnMsg(900, reply, { ref::str(tag) }));
}
inline string inError(uint32_t reply, const string& text)
{
    return ref::encMsg(ref::errorMsg(901, reply, "e.x.Err", text.empty() ? ref::VV() : ref::VV { ref::str(text) }));
}
inline string argOf(const DBus::Message::Base& m)
{
    vt::lapse(); // called by most handlers
    return m.getParameterCount() ? DBus::Type::asString(m.getParameter(0)) : "";
}
}
