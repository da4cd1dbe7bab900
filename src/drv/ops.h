// The public operations of a connection, as one enumerable alphabet.
#pragma once
#include "common.h"

namespace drv {
enum Op { O_CALL,
    O_CALL_NOREPLY,
    O_SIGNAL,
    O_BROADCAST,
    O_RETURN,
    O_ERROR,
    O_REG_SIGNAL,
    O_UNREG_SIGNAL,
    O_REG_CALL,
    O_UNREG_CALL,
    O_ADD_MATCH,
    O_REMOVE_MATCH,
    O_STATS,
    O_HELLO,
    O_CREATE,
    O_BAD_MATCH,
    O_BEGIN,
    NOPS };
inline const char* opName(int o)
{
    static const char* const N[] = { "sendMethodCall", "sendMethodCall(no reply)", "sendSignal", "broadcastSignal", "sendMethodReturn", "sendError", "registerSignalHandler", "unRegisterSignalHandler", "registerMethodCallHandler", "unRegisterMethodCallHandler", "callAddMatch", "callRemoveMatch", "getStats", "callHello", "create messages", "callAddMatch(malformed)", "BeginAuth" };
    return N[o];
}
static const char* const RULE1 = "member='S'";
static const char* const RULE2 = "interface='i.f'";

// Handlers are given by the caller; all operations touch the names that incoming messages concern.
struct Hooks {
    std::function<void(const SG&)> signal = [](const SG&) {};
    std::function<void(const MC&)> call = [](const MC&) {};
    std::function<void(const MR&)> ok = [](const MR&) {};
    std::function<void(const ER&)> err = [](const ER&) {};
};
inline void doOp(DBus::Native& n, int op, const string& tag, const Hooks& h = Hooks())
{
    switch (op) {
    case O_CALL:
        n.sendMethodCall("d.e", mkCall(tag), h.ok, h.err);
        break;
    case O_CALL_NOREPLY:
        n.sendMethodCall("d.e", mkCall(tag, DBus::Message::Header::FLAGS_NO_REPLY_EXPECTED), h.ok, h.err);
        break;
    case O_SIGNAL:
        n.sendSignal("d.e", mkSignal(tag));
        break;
    case O_BROADCAST:
        n.broadcastSignal(mkSignal(tag));
        break;
    case O_RETURN: {
        MR r(77);
        r.addParameter(DBus::Type::String(tag));
        n.sendMethodReturn("d.e", r);
        break;
    }
    case O_ERROR:
        n.sendError("d.e", ER(78, "e.x.Err", tag));
        break;
    case O_REG_SIGNAL:
        n.registerSignalHandler("i.f.S", h.signal);
        break;
    case O_UNREG_SIGNAL:
        n.unRegisterSignalHandler("i.f.S");
        break;
    case O_REG_CALL:
        n.registerMethodCallHandler("i.f.M", h.call);
        break;
    case O_UNREG_CALL:
        n.unRegisterMethodCallHandler("i.f.M");
        break;
    case O_ADD_MATCH:
        n.callAddMatch(RULE1, h.ok, h.err, h.signal);
        n.callAddMatch(RULE2, h.ok, h.err, h.signal);
        break;
    case O_REMOVE_MATCH:
        n.callRemoveMatch(RULE1);
        break;
    case O_STATS:
        n.getStats();
        break;
    case O_HELLO:
        n.callHello(h.ok, h.err);
        break;
    case O_CREATE: {
        SG s = mkSignal(tag);
        MC c = mkCall(tag);
        MR r(1);
        ER e(1, "e.x.Err", tag);
        if (!s.getSerial() || !c.getSerial() || s.getSerial() == c.getSerial())
            vt::fail("serial numbers coincide");
        s.marshall("");
        break;
    }
    case O_BAD_MATCH:
        try {
            n.callAddMatch("path='/a',path_namespace='/a'", h.ok, h.err, h.signal);
        } catch (const std::exception&) {
        }
        break;
    case O_BEGIN:
        n.BeginAuth(AP::AUTH_BASIC);
        break;
    }
}
}
