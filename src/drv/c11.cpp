// C11: replies reach exactly the callbacks of their calls.
#include "common.h"
using namespace drv;

namespace {
struct Calls {
    std::map<string, int> ok, err; // tag -> invocations
    std::map<string, string> okArg, errArg;
};

// what the bus does with each call it receives, chosen freely
enum { RET,
    ERR,
    ERR_NOTEXT,
    RET_TWICE,
    RET_ERR,
    ERR_RET,
    UNKNOWN_THEN_RET,
    NONE,
    ZERO_THEN_ERR,
    NSCRIPTS };

string reply(int script, uint32_t serial, const string& tag)
{
    switch (script) {
    case RET:
        return inReturn(serial, "ret-" + tag);
    case ERR:
        return inError(serial, "err-" + tag);
    case ERR_NOTEXT:
        return inError(serial, "");
    case RET_TWICE:
        return inReturn(serial, "ret-" + tag) + inReturn(serial, "again-" + tag);
    case RET_ERR:
        return inReturn(serial, "ret-" + tag) + inError(serial, "again-" + tag);
    case ERR_RET:
        return inError(serial, "err-" + tag) + inReturn(serial, "again-" + tag);
    case UNKNOWN_THEN_RET:
        return inReturn(serial + 100000, "unknown") + inError(serial ^ 0x80000000u, "unknown") + inReturn(serial, "ret-" + tag);
    case ZERO_THEN_ERR:
        return inReturn(0, "zero") + inError(0, "zero") + inError(serial, "err-" + tag);
    }
    return "";
}
void expectCall(const Calls& c, const string& tag, int script, bool replyWanted = true)
{
    int ok = script == RET || script == RET_TWICE || script == RET_ERR || script == UNKNOWN_THEN_RET;
    int err = script == ERR || script == ERR_NOTEXT || script == ERR_RET || script == ZERO_THEN_ERR;
    if (!replyWanted)
        ok = err = 0;
    auto get = [](const std::map<string, int>& m, const string& k) { auto i = m.find(k); return i == m.end() ? 0 : i->second; };
    auto gets = [](const std::map<string, string>& m, const string& k) { auto i = m.find(k); return i == m.end() ? string() : i->second; };
    if (get(c.ok, tag) != ok || get(c.err, tag) != err)
        vt::fail("call " + tag + " (script " + to_string(script) + "): success callback invoked " + to_string(get(c.ok, tag)) + " times, failure callback " + to_string(get(c.err, tag)) + " times; expected " + to_string(ok) + " and " + to_string(err));
    if (ok && gets(c.okArg, tag) != "ret-" + tag)
        vt::fail("call " + tag + " received another call's reply: " + gets(c.okArg, tag));
    if (err && gets(c.errArg, tag) != (script == ERR_NOTEXT ? "" : "err-" + tag))
        vt::fail("call " + tag + " received another error: " + gets(c.errArg, tag));
}

// behaviour of callbacks
enum { PLAIN,
    THROWS,
    THROWS_INT,
    CALLS,
    NBEHAV };

struct World {
    NativeP n;
    Calls calls;
    int further = 0;
    std::set<string> expectedTags;
    void call(const string& tag, uint32_t flags = 0, int behaviour = PLAIN)
    {
        auto after = [this, tag, behaviour] {
            if (behaviour == THROWS)
                throw std::runtime_error("callback");
            if (behaviour == THROWS_INT)
                throw 42;
            if (behaviour == CALLS) {
                call(tag + "+", 0, PLAIN);
            }
        };
        n->sendMethodCall(
            "d.e", mkCall(tag, flags), [this, tag, after](const MR& r) { ++calls.ok[tag]; calls.okArg[tag] = argOf(r); after(); }, [this, tag, after](const ER& e) { ++calls.err[tag]; calls.errArg[tag] = e.getMessage(); after(); });
    }
};

// a signal afterwards must still get through
void alive(World& w, int& signals)
{
    int before = signals;
    vt::deliver(0, inSignal(4000, "z"));
    vt::idle();
    VT_CHECK(signals == before + 1, "messages after the replies are no longer delivered");
}

// every script x behaviour x flags for two calls whose replies come in either order; sequential
void scripts()
{
    World w;
    int signals = 0;
    w.n = ready();
    w.n->registerSignalHandler("i.f.S", [&](const SG&) { ++signals; });
    int sa = vt::pick(NSCRIPTS, "script a"), sb = vt::pick(NSCRIPTS, "script b");
    int ba = vt::pick(NBEHAV, "behaviour a"), bb = vt::thorough() ? vt::pick(NBEHAV, "behaviour b") : (ba + 1) % NBEHAV;
    bool noReplyA = vt::pick(2, "no reply a");
    int order = vt::pick(3, "order");
    w.call("a", noReplyA ? DBus::Message::Header::FLAGS_NO_REPLY_EXPECTED : 0, ba);
    w.call("b", 0, bb);
    vt::idle();
    std::map<string, uint32_t> serial;
    for (auto& m : parseSent(0).msgs)
        serial[firstArg(m)] = m.serial;
    VT_CHECK(serial.size() == 2, "the calls were not sent");
    string ra = reply(sa, serial["a"], "a"), rb = reply(sb, serial["b"], "b");
    if (order == 0)
        vt::deliver(0, ra + rb);
    else if (order == 1)
        vt::deliver(0, rb + ra);
    else {
        // split by messages and interleaved
        vector<string> x, y;
        for (size_t p = 0; p < ra.size(); p += ref::msgSize(ra, p))
            x.push_back(ra.substr(p, ref::msgSize(ra, p)));
        for (size_t p = 0; p < rb.size(); p += ref::msgSize(rb, p))
            y.push_back(rb.substr(p, ref::msgSize(rb, p)));
        for (size_t i = 0; i < x.size() || i < y.size(); ++i) {
            if (i < x.size())
                vt::deliver(0, x[i]);
            vt::idle();
            if (i < y.size())
                vt::deliver(0, y[i]);
            vt::idle();
        }
    }
    vt::idle();
    expectCall(w.calls, "a", sa, !noReplyA);
    expectCall(w.calls, "b", sb);
    // calls made by callbacks get their replies too
    serial.clear();
    for (auto& m : parseSent(0).msgs)
        serial[firstArg(m)] = m.serial;
    for (auto& s : serial)
        if (s.first.size() > 1) {
            vt::deliver(0, reply(RET, s.second, s.first));
            vt::idle();
            expectCall(w.calls, s.first, RET);
        }
    size_t wantFurther = (ba == CALLS && !noReplyA && sa != NONE) + (bb == CALLS && sb != NONE);
    VT_CHECK(serial.size() == 2 + wantFurther, "a call made by a callback was not sent once");
    // replies that repeat once more, long after
    vt::deliver(0, reply(RET, serial["b"], "b") + reply(ERR, serial["a"], "a"));
    vt::idle();
    if (sb == NONE)
        expectCall(w.calls, "b", RET);
    else
        expectCall(w.calls, "b", sb);
    if (sa == NONE && !noReplyA)
        expectCall(w.calls, "a", ERR);
    else
        expectCall(w.calls, "a", sa, !noReplyA);
    alive(w, signals);
    vt::observe(to_string(sa) + to_string(sb) + to_string(ba) + to_string(bb) + to_string(order));
}

// Calls given only one of the callbacks, or none: the given one works as ever, and the absent one is not missed. Every
// combination of flags; further calls are pending meanwhile.
void absent()
{
    World w;
    int signals = 0;
    w.n = ready();
    w.n->registerSignalHandler("i.f.S", [&](const SG&) { ++signals; });
    int given = vt::pick(4, "given"), sa = vt::pick(NSCRIPTS, "script"), flags = vt::pick(8, "flags"), others = vt::pick(3, "others");
    bool wanted = !(flags & DBus::Message::Header::FLAGS_NO_REPLY_EXPECTED);
    DBus::Message::CallbackFunctionMethodReturn success;
    DBus::Message::CallbackFunctionError failure;
    if (given & 1)
        success = [&](const MR& r) { ++w.calls.ok["a"]; w.calls.okArg["a"] = argOf(r); };
    if (given & 2)
        failure = [&](const ER& e) { ++w.calls.err["a"]; w.calls.errArg["a"] = e.getMessage(); };
    if (others > 0)
        w.call("b");
    w.n->sendMethodCall("d.e", mkCall("a", flags), success, failure);
    if (others > 1)
        w.call("c");
    vt::idle();
    std::map<string, uint32_t> serial;
    for (auto& m : parseSent(0).msgs)
        serial[firstArg(m)] = m.serial;
    VT_CHECK(serial.size() == 1u + others, "the calls were not sent");
    vt::deliver(0, reply(sa, serial["a"], "a"));
    vt::idle();
    // what an ordinary call would get, of which only the given callbacks see anything
    auto expect = [&] {
        int ok = sa == RET || sa == RET_TWICE || sa == RET_ERR || sa == UNKNOWN_THEN_RET;
        int err = sa == ERR || sa == ERR_NOTEXT || sa == ERR_RET || sa == ZERO_THEN_ERR;
        ok = ok && wanted && (given & 1);
        err = err && wanted && (given & 2);
        if (w.calls.ok["a"] != ok || w.calls.err["a"] != err)
            vt::fail(string("call with ") + (given & 1 ? "" : "no ") + "success callback and " + (given & 2 ? "" : "no ") + "failure callback, flags " + to_string(flags) + ", script " + to_string(sa) + ": success callback invoked " + to_string(w.calls.ok["a"]) + " times, failure callback " + to_string(w.calls.err["a"]) + " times; expected " + to_string(ok) + " and " + to_string(err));
        if ((ok && w.calls.okArg["a"] != "ret-a") || (err && w.calls.errArg["a"] != (sa == ERR_NOTEXT ? "" : "err-a")))
            vt::fail("the reply of another call");
    };
    expect();
    if (others > 0) {
        vt::deliver(0, reply(ERR, serial["b"], "b"));
        vt::idle();
        expectCall(w.calls, "b", ERR);
    }
    if (others > 1) {
        vt::deliver(0, reply(RET, serial["c"], "c"));
        vt::idle();
        expectCall(w.calls, "c", RET);
    }
    expect();
    alive(w, signals);
    vt::observe(to_string(given) + to_string(sa) + to_string(flags));
}

// two threads call, the bus answers as soon as a call has arrived: every interleaving with the sending threads
void fast(int mode)
{
    World w;
    w.n = ready();
    int sa = vt::pick(mode == 0 ? NSCRIPTS : 2, "script"), sb = mode == 0 ? RET : vt::pick(2, "script b");
    std::map<string, int> script = { { "a", sa }, { "b", sb }, { "a+", RET }, { "b+", ERR } };
    spawnBus(
        0, [&](const ref::Msg& m) {
            string t = firstArg(m);
            vt::deliver(0, reply(script[t], m.serial, t));
        },
        false);
    int ba = mode == 1 ? vt::pick(NBEHAV, "behaviour") : (int)PLAIN;
    int t1 = vt::spawn("A", [&] { w.call("a", 0, ba); });
    int t2 = 0;
    if (mode >= 1)
        t2 = vt::spawn("B", [&] { w.call("b", 0, mode == 2 ? CALLS : PLAIN); });
    vt::join(t1);
    if (t2)
        vt::join(t2);
    vt::idle();
    expectCall(w.calls, "a", sa);
    if (t2)
        expectCall(w.calls, "b", sb);
    if (ba == CALLS && mode == 1)
        expectCall(w.calls, "a+", RET);
    if (mode == 2)
        expectCall(w.calls, "b+", ERR);
    vt::observe(to_string(sa) + to_string(sb) + to_string(ba));
}

// calls queued before the handshake completes get their replies as well
void early()
{
    World w;
    w.n = open();
    spawnBus(0, [&](const ref::Msg& m) { vt::deliver(0, reply(firstArg(m) == "a" ? RET : ERR, m.serial, firstArg(m))); });
    int t1 = vt::spawn("A", [&] { w.call("a"); });
    w.n->BeginAuth(AP::AUTH_BASIC);
    w.call("b");
    vt::join(t1);
    vt::idle();
    expectCall(w.calls, "a", RET);
    expectCall(w.calls, "b", ERR);
}

// Many calls pending at once, answered in various orders, some by errors and some never, with further calls meanwhile.
void volume()
{
    static const int N[] = { 3, 17, 64, 65, 255, 256, 257, 1000, 1024, 1025, 4096, 4097, 5000, 10000, 66000 };
    int total = N[vt::pick(vt::thorough() ? 15 : 13, "calls")], order = vt::pick(4, "order"), unanswered = vt::pick(3, "unanswered");
    World w;
    int signals = 0;
    w.n = ready();
    w.n->registerSignalHandler("i.f.S", [&](const SG&) { ++signals; });
    size_t from = vt::sent(0).size();
    vector<int> ok(total), err(total);
    vector<string> text(total);
    auto call = [&](int i) {
        w.n->sendMethodCall(
            "d.e", mkCall(to_string(i)), [&, i](const MR& r) { ++ok[i]; text[i] = argOf(r); }, [&, i](const ER& e) { ++err[i]; text[i] = e.getMessage(); });
    };
    for (int i = 0; i < total; ++i)
        call(i);
    vt::idle();
    vector<uint32_t> serial;
    auto collect = [&] {
        const string& s = vt::sent(0);
        while (from < s.size()) {
            size_t n = ref::msgSize(s, from);
            ref::Msg m = ref::parse(s.substr(from, n));
            VT_CHECK(firstArg(m) == to_string(serial.size()), "call " + to_string(serial.size()) + " was sent as " + firstArg(m));
            serial.push_back(m.serial);
            from += n;
        }
    };
    collect();
    VT_CHECK((int)serial.size() == total, "calls are missing");
    // which calls get a reply, and when
    vector<int> seq;
    for (int i = 0; i < total; ++i)
        seq.push_back(order == 0 ? i : order == 1 ? total - 1 - i : order == 2 ? (i % 2 ? total - 1 - i / 2 : i / 2) : i);
    if (order == 3)
        std::swap(seq.front(), seq.back());
    auto skipped = [&](int i) { return unanswered == 1 ? i % 3 == 1 : unanswered == 2 ? i + 2 < total : false; };
    auto answer = [&](int i) { return i % 5 == 2 ? inError(serial[i], "e" + to_string(i)) : inReturn(serial[i], "r" + to_string(i)); };
    string all;
    for (int i : seq)
        if (!skipped(i))
            all += answer(i);
    vt::deliver(0, all);
    vt::idle();
    auto judge = [&](const std::function<bool(int)>& answered) {
        for (int i = 0; i < (int)ok.size(); ++i) {
            bool e = i % 5 == 2, a = answered(i);
            if (ok[i] != (a && !e) || err[i] != (a && e))
                vt::fail("call " + to_string(i) + " of " + to_string(total) + ": success callback invoked " + to_string(ok[i]) + " times, failure callback " + to_string(err[i]) + " times; the bus answered " + (a ? e ? "with an error" : "with a return" : "nothing"));
            if (a && text[i] != (e ? "e" : "r") + to_string(i))
                vt::fail("call " + to_string(i) + " received another call's reply: " + text[i]);
        }
    };
    judge([&](int i) { return !skipped(i); });
    // one more call, and the replies that were missing so far
    ok.resize(total + 1);
    err.resize(total + 1);
    text.resize(total + 1);
    call(total);
    vt::idle();
    collect();
    all = answer(total);
    for (int i = 0; i < total; ++i)
        if (skipped(i))
            all += answer(i);
    vt::deliver(0, all);
    vt::idle();
    judge([](int) { return true; });
    alive(w, signals);
    vt::observe(to_string(total) + to_string(order) + to_string(unanswered));
}

vt::Reg r0("C11", "c11_volume", 0, 0, volume, vt::F_FREE, -1, -1);
vt::Reg r1("C11", "c11_scripts", 0, 0, scripts, vt::F_FREE | vt::F_SLOWTOO, -1, -1);
vt::Reg r1b("C11", "c11_absent", 0, 0, absent, vt::F_FREE, -1, -1);
vt::Reg r2("C11", "c11_fast1", 3, 4, [] { fast(0); }, vt::F_FREE);
vt::Reg r3("C11", "c11_fast2", 3, 4, [] { fast(1); }, vt::F_FREE, 0, 1);
vt::Reg r4("C11", "c11_nested", 3, 4, [] { fast(2); }, vt::F_FREE, 0, 1);
vt::Reg r5("C11", "c11_early", 3, 4, early);
}
