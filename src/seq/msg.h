// What handlers see of a message, and what they should see according to the reference.
#pragma once
#include "bridge.h"

namespace br {
// a parameter as canonical bytes and text
inline string paramText(const G& g) { return T::getMarshallingSignature(g) + "=" + ref::hex(marshalAll({ g })); }
inline string paramText(const V& v) { return ref::sigOf(v) + "=" + ref::hex(ref::encBody({ v }, false)); }

struct Seen {
    string kind; // call return error signal
    uint32_t serial = 0, replySerial = 0;
    string path, interface, member, sender, destination, text;
    bool reply = false;
    vector<string> params;
    string str() const
    {
        string r = kind + " #" + to_string(serial) + " re#" + to_string(replySerial) + " path=" + path + " if=" + interface + " member=" + member + " from=" + sender + " to=" + destination + " reply=" + (reply ? "1" : "0") + " text=" + text + " (";
        for (auto& p : params)
            r += p + " ";
        return r + ")";
    }
};

inline Seen seenBase(const DBus::Message::Base& m, const char* kind)
{
    Seen s;
    s.kind = kind;
    s.serial = m.getSerial();
    s.replySerial = m.getReplySerial();
    s.path = m.getHeaderPath();
    s.interface = m.getHeaderInterface();
    s.member = m.getHeaderMember();
    s.sender = m.getHeaderSender();
    s.destination = m.getHeaderDestination();
    s.reply = m.isReplyExpected();
    for (size_t i = 0; i < m.getParameterCount(); ++i)
        s.params.push_back(paramText(m.getParameter(i)));
    return s;
}
inline Seen seen(const DBus::Message::MethodCall& m)
{
    Seen s = seenBase(m, "call");
    if (m.getObject() != s.path || m.getInterface() != s.interface || m.getMethod() != s.member)
        fail("a received call's object, interface and method are " + m.getObject() + " " + m.getInterface() + " " + m.getMethod() + " but its header has " + s.str());
    if (m.getFullName() != s.interface + "." + s.member)
        fail("full name " + m.getFullName() + " of a received call with " + s.str());
    return s;
}
inline Seen seen(const DBus::Message::MethodReturn& m)
{
    Seen s = seenBase(m, "return");
    if (m.m_SerialReplyingTo != s.replySerial)
        fail("m_SerialReplyingTo is " + to_string(m.m_SerialReplyingTo) + " in " + s.str());
    return s;
}
inline Seen seen(const DBus::Message::Error& m)
{
    Seen s = seenBase(m, "error");
    s.text = m.getMessage();
    if (m.getSerialOfReply() != s.replySerial)
        fail("getSerialOfReply is " + to_string(m.getSerialOfReply()) + " in " + s.str());
    return s;
}
inline Seen seen(const DBus::Message::Signal& m) { return seenBase(m, "signal"); }

// the same from a reference message
inline Seen seen(const ref::Msg& m)
{
    Seen s;
    s.kind = m.type == 1 ? "call" : m.type == 2 ? "return" : m.type == 3 ? "error" : "signal";
    s.serial = m.serial;
    s.replySerial = m.replySerial();
    s.path = m.path();
    s.interface = m.interface();
    s.member = m.member();
    s.sender = m.sender();
    s.destination = m.destination();
    s.reply = !(m.flags & 1);
    for (auto& v : m.body)
        s.params.push_back(paramText(v));
    if (m.type == 3 && m.body.size() && m.body[0].t == 's')
        s.text = m.body[0].s;
    return s;
}

struct Recorder {
    Proto p;
    vector<string> got;
    std::function<void(const Seen&)> after; // called once recorded; may throw
    Recorder()
    {
        p.p.setSignalHandler([this](const DBus::Message::Signal& m) { rec(seen(m)); });
        p.p.setMethodCallHandler([this](const DBus::Message::MethodCall& m) { rec(seen(m)); });
        p.p.setMethodReturnHandler([this](const DBus::Message::MethodReturn& m) { rec(seen(m)); });
        p.p.setErrorHandler([this](const DBus::Message::Error& m) { rec(seen(m)); });
    }
    void rec(const Seen& s)
    {
        got.push_back(s.str());
        if (after)
            after(s);
    }
    // false when the bytes were refused
    bool feed(const string& s)
    {
        try {
            p.feed(s);
            return true;
        } catch (const std::exception&) {
            return false;
        }
    }
};

// messages of all kinds; n tells them apart
inline vector<ref::Msg> zoo(uint32_t n = 0)
{
    using namespace ref;
    vector<Msg> r;
    r.push_back(signalMsg(n + 7, "/o", "i.f", "S", { str("abc"), num('u', 5) }));
    r.push_back(callMsg(n + 8, "/o/p", "i.f", "M", { arr("s", { str("a"), str("bc") }), num('y', 1), dbl(2.5) }));
    r.push_back(returnMsg(n + 9, 3, { var(arr("{sv}", { dict(str("k"), var(num('t', 1))) })), num('q', 7) }, true));
    r.push_back(errorMsg(n + 10, 4, "e.x.E", { str("text") }));
    r.push_back(signalMsg(n + 11, "/o", "i.f", "S", {}, true));
    r.push_back(returnMsg(n + 12, 3));
    r.push_back(signalMsg(n + 14, "/o", "i.f", "S", { strct({ strct({ num('y', 1), str("s") }), num('i', 1) }), str("a{sv}", 'g') }));
    r.push_back(callMsg(n + 13, "/", "i", "M", { num('y', 9) }, true));
    r.push_back(mk(4, n + 15)); // header only: 16 bytes
    r.push_back(mk(2, n + 16));
    return r;
}
}
