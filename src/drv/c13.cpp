// C13: dispatch of incoming calls and signals to handlers.
#include "common.h"
using namespace drv;

namespace {
// What the application has registered, kept beside the library. Every registration is one Handler object; dispatches are
// judged by what was registered during them.
struct World;
struct Handler {
    int id;
    string key; // "c:i.f.M", "s:i.f.S", "r:<rule>"
    bool active = false; // in force
    int regDispatch = -1; // number of the dispatch during which it was registered (or -1)
    int runs = 0; // within the current dispatch
    bool eligible = false; // registered and matching when the current dispatch began
    bool left = false; // unregistered during the current dispatch
    std::function<void()> behave;
};

bool ruleMatches(const string& rule, const ref::Msg& m)
{
    // the rules used here: comma separated key='value'
    size_t p = 0;
    while (p < rule.size()) {
        size_t e = rule.find("='", p), q = rule.find('\'', e + 2);
        string k = rule.substr(p, e - p), v = rule.substr(e + 2, q - e - 2);
        if (k == "interface" && m.interface() != v)
            return false;
        if (k == "member" && m.member() != v)
            return false;
        if (k == "path" && m.path() != v)
            return false;
        p = q + 2;
    }
    return true;
}

struct World {
    NativeP n;
    std::map<string, std::shared_ptr<Handler>> reg; // in force
    vector<std::shared_ptr<Handler>> all;
    int next = 0, dispatch = 0;
    bool dispatching = false;

    void ran(const std::shared_ptr<Handler>& h)
    {
        vt::lapse();
        if (!dispatching)
            vt::fail("handler " + h->key + " ran although nothing was delivered");
        if (!h->active)
            vt::fail("handler " + h->key + " was invoked although it is not registered (any more, or because its name was taken)");
        if (++h->runs > 1)
            vt::fail("handler " + h->key + " was invoked twice for one message");
        if (h->behave)
            h->behave();
    }
    std::shared_ptr<Handler> make(const string& key)
    {
        auto h = std::make_shared<Handler>();
        h->id = next++;
        h->key = key;
        h->regDispatch = dispatching ? dispatch : -1;
        all.push_back(h);
        return h;
    }
    void add(const string& key, const std::function<void()>& behave = nullptr)
    {
        auto h = make(key);
        h->behave = behave;
        if (!reg.count(key)) {
            reg[key] = h;
            h->active = true;
        }
        string name = key.substr(2);
        if (key[0] == 'c')
            n->registerMethodCallHandler(name, [this, h](const MC&) { ran(h); });
        else if (key[0] == 's')
            n->registerSignalHandler(name, [this, h](const SG&) { ran(h); });
        else
            n->callAddMatch(
                name, [](const MR&) {}, [](const ER&) {}, [this, h](const SG&) { ran(h); });
    }
    void remove(const string& key)
    {
        string name = key.substr(2);
        if (key[0] == 'c')
            n->unRegisterMethodCallHandler(name);
        else if (key[0] == 's')
            n->unRegisterSignalHandler(name);
        else
            n->callRemoveMatch(name);
        auto it = reg.find(key);
        if (it != reg.end()) {
            it->second->active = false;
            it->second->left = true;
            reg.erase(it);
        }
    }
    bool concerns(const Handler& h, const ref::Msg& m) const
    {
        string name = h.key.substr(2);
        if (h.key[0] == 'c')
            return m.type == 1 && m.interface() + "." + m.member() == name;
        if (m.type != 4)
            return false;
        if (h.key[0] == 's')
            return m.interface() + "." + m.member() == name;
        return ruleMatches(name, m);
    }
    // delivers one message and judges who was invoked
    void probe(const ref::Msg& m)
    {
        ++dispatch;
        for (auto& h : all) {
            h->runs = 0;
            h->left = false;
            h->eligible = h->active && concerns(*h, m);
        }
        dispatching = true;
        vt::deliver(0, ref::encMsg(m));
        vt::idle();
        dispatching = false;
        string what = (m.type == 1 ? "call " : "signal ") + m.interface() + "." + m.member() + " at " + m.path();
        for (auto& h : all) {
            if (h->eligible && !h->left && h->runs != 1)
                vt::fail(what + ": handler " + h->key + " was invoked " + to_string(h->runs) + " times");
            if (h->runs && !concerns(*h, m))
                vt::fail(what + ": handler " + h->key + " was invoked, which is not concerned");
        }
    }
};

ref::Msg call(const string& member, const string& iface = "i.f")
{
    static uint32_t serial = 100;
    return ref::callMsg(++serial, "/o", iface, member, { ref::str("x") });
}
ref::Msg sig(const string& member, const string& path = "/o", const string& iface = "i.f")
{
    static uint32_t serial = 100;
    return ref::signalMsg(++serial, path, iface, member, { ref::str("x") });
}
void probeAll(World& w)
{
    w.probe(call("M"));
    w.probe(sig("S"));
    w.probe(call("N"));
    w.probe(sig("S", "/p"));
    w.probe(sig("T"));
    w.probe(call("S"));
    w.probe(sig("M"));
    w.probe(sig("S", "/o", "i.g"));
    w.probe(call("M", "i.g"));
}
const char* const KEYS[] = { "c:i.f.M", "s:i.f.S", "r:interface='i.f',member='S'", "r:path='/o'", "c:i.f.N", "s:i.f.T", "r:member='S'", "c:i.f.S", "s:i.g.S" };

// every history of registrations and removals
void histories()
{
    World w;
    w.n = ready();
    bool longer = vt::thorough() && vt::pick(2, "longer history, fewer names");
    int len = longer ? 6 : 5, nk = longer ? 4 : 6;
    for (int i = 0; i < len; ++i) {
        int op = vt::pick(2 * nk, "operation");
        string key = KEYS[op / 2];
        if (vt::verbose())
            vt::trace((op & 1 ? "remove " : "add ") + key);
        if (op & 1)
            w.remove(key);
        else
            w.add(key);
        if (i >= len - 2 || (i & 1))
            probeAll(w);
    }
    vt::observe(to_string(w.reg.size()));
}

// what handlers do when they run
enum { PLAIN,
    THROW_STD,
    THROW_INT,
    UNREG_SELF,
    REREG_SELF, // without unregistering: the first stays
    REPLACE_SELF,
    REMOVE_OTHER,
    REMOVE_OTHER2,
    ADD_NEW,
    ADD_RULE,
    SEND_CALL,
    REMOVE_ALL,
    CHURN, // remove and add another key several times
    UNREG_SELF_THROW,
    ADD_NEW_OTHERS,
    NBEH };
void act(World& w, const string& key, const string& other, const string& other2, int what)
{
    switch (what) {
    case THROW_STD:
        throw std::runtime_error("handler");
    case THROW_INT:
        throw 3;
    case UNREG_SELF:
        w.remove(key);
        break;
    case REREG_SELF:
        w.add(key);
        break;
    case REPLACE_SELF:
        w.remove(key);
        w.add(key);
        break;
    case REMOVE_OTHER:
        w.remove(other);
        break;
    case REMOVE_OTHER2:
        w.remove(other2);
        w.remove(key);
        break;
    case ADD_NEW:
        w.add("c:i.f.N");
        w.add("s:i.f.T");
        break;
    case ADD_RULE:
        w.add("r:member='S'");
        w.add("r:interface='i.f'");
        w.add("r:path='/o',member='S'");
        break;
    case SEND_CALL:
        w.n->sendMethodCall("d", mkCall("from handler"));
        w.n->broadcastSignal(mkSignal("from handler"));
        break;
    case REMOVE_ALL:
        while (w.reg.size())
            w.remove(w.reg.begin()->first);
        break;
    case CHURN:
        for (int i = 0; i < 3; ++i) {
            w.remove(other);
            w.add(other);
            w.remove(other2);
            w.add(other2);
        }
        break;
    case UNREG_SELF_THROW:
        w.remove(key);
        throw std::runtime_error("handler");
    case ADD_NEW_OTHERS:
        for (int i = 0; i < 20; ++i)
            w.add("r:member='S',path='/" + to_string(i) + "'");
        w.add("s:i.g.S");
        break;
    }
}
void behaviours()
{
    World w;
    w.n = ready();
    static const char* const K[] = { "c:i.f.M", "s:i.f.S", "r:interface='i.f'", "r:member='S'", "r:path='/o'" };
    int a = vt::pick(5, "first behaving handler"), b = vt::pick(5, "second behaving handler");
    int ba = vt::pick(NBEH, "first behaviour"), bb = vt::pick(NBEH, "second behaviour");
    int c = vt::thorough() ? vt::pick(5, "third behaving handler") : a, bc = vt::thorough() ? vt::pick(4, "third behaviour") : 0;
    static const int THIRD[] = { PLAIN, THROW_STD, UNREG_SELF, REMOVE_OTHER };
    for (int k = 0; k < 5; ++k) {
        string key = K[k], other = K[(k + 1) % 5], other2 = K[(k + 3) % 5];
        int what = k == a ? ba : k == b ? bb : k == c ? THIRD[bc] : PLAIN;
        w.add(key, [&w, key, other, other2, what] { act(w, key, other, other2, what); });
    }
    for (int round = 0; round < 2; ++round) {
        w.probe(sig("S"));
        w.probe(call("M"));
        w.probe(sig("T"));
        w.probe(sig("S", "/p"));
        w.probe(call("N"));
    }
    vt::observe(to_string(w.reg.size()));
}

// while messages arrive, a thread registers and unregisters
void concurrent(int kind)
{
    NativeP n = ready();
    bool removed = false, added = false;
    int runsA = 0, runsB = 0, runsC = 0;
    int inA = 0;
    auto body = [&] {
        vt::lapse();
        if (removed)
            vt::fail("a handler was invoked after its unregistration had returned");
        ++inA;
        if (inA > 1)
            vt::fail("a handler runs twice at the same time");
        vt::point("handler");
        --inA;
        ++runsA;
    };
    const string rule = "interface='i.f',member='S'";
    auto other = [&] { ++runsC; };
    auto late = [&] {
        if (!added)
            vt::trace("late handler runs while it is being registered");
        ++runsB;
    };
    if (kind == 0)
        n->registerSignalHandler("i.f.S", [&](const SG&) { body(); });
    else if (kind == 1)
        n->callAddMatch(
            rule, [](const MR&) {}, [](const ER&) {}, [&](const SG&) { body(); });
    else
        n->registerMethodCallHandler("i.f.M", [&](const MC&) { body(); });
    // one that stays
    if (kind == 2)
        n->registerMethodCallHandler("i.f.N", [&](const MC&) { other(); });
    else
        n->callAddMatch(
            "path='/o'", [](const MR&) {}, [](const ER&) {}, [&](const SG&) { other(); });
    vt::idle();
    auto msg = [&](uint32_t s) { return kind == 2 ? inCall(s, "x", "M") + inCall(s, "x", "N") : inSignal(s, "x"); };
    int t1 = vt::spawn("unregisters", [&] {
        if (kind == 0)
            n->unRegisterSignalHandler("i.f.S");
        else if (kind == 1)
            n->callRemoveMatch(rule);
        else
            n->unRegisterMethodCallHandler("i.f.M");
        removed = true;
    });
    int t2 = vt::spawn("registers", [&] {
        if (kind == 0)
            n->callAddMatch(
                "member='S'", [](const MR&) {}, [](const ER&) {}, [&](const SG&) { late(); });
        else if (kind == 1)
            n->registerSignalHandler("i.f.S", [&](const SG&) { late(); });
        else
            n->registerMethodCallHandler("i.f.L", [&](const MC&) { late(); });
        added = true;
        vt::deliver(0, kind == 2 ? inCall(7, "x", "L") : inSignal(7, "late"));
    });
    vt::deliver(0, msg(5));
    vt::deliver(0, msg(6));
    vt::join(t1);
    vt::join(t2);
    vt::idle();
    int signals = kind == 2 ? 2 : 3;
    VT_CHECK(runsC == signals, "a handler that stays registered was invoked " + to_string(runsC) + " times for " + to_string(signals) + " messages");
    VT_CHECK(runsB >= 1, "a handler was not invoked for a message that arrived after its registration had returned");
    VT_CHECK(runsB <= signals && runsA <= signals, "too many invocations");
    vt::observe(to_string(runsA) + to_string(runsB));
    n.reset();
}
// several threads register the same name: exactly one stays
void sameName(int kind)
{
    NativeP n = ready();
    int runs[3] = { 0, 0, 0 };
    auto reg = [&](int i) {
        if (kind == 0)
            n->registerSignalHandler("i.f.S", [&runs, i](const SG&) { ++runs[i]; });
        else if (kind == 1)
            n->callAddMatch(
                "member='S'", [](const MR&) {}, [](const ER&) {}, [&runs, i](const SG&) { ++runs[i]; });
        else
            n->registerMethodCallHandler("i.f.M", [&runs, i](const MC&) { ++runs[i]; });
    };
    int t1 = vt::spawn("A", [&] { reg(0); });
    int t2 = vt::spawn("B", [&] { reg(1); });
    reg(2);
    vt::join(t1);
    vt::join(t2);
    vt::deliver(0, kind == 2 ? inCall(5, "x") : inSignal(5, "x"));
    vt::deliver(0, kind == 2 ? inCall(5, "x") : inSignal(5, "x"));
    vt::idle();
    int once = 0;
    for (int r : runs) {
        VT_CHECK(r == 0 || r == 2, "the handler of a name changed without being unregistered");
        once += r == 2;
    }
    VT_CHECK(once == 1, to_string(once) + " handlers of one name were invoked");
    vt::observe(to_string(runs[0]) + to_string(runs[1]) + to_string(runs[2]));
    n.reset();
}

// Names that are parts, extensions and variants of each other: a handler is invoked for its very name only
void names()
{
    static const char* const P[] = { "i", "f", "S", "i.f", "f.S", "i.f.S", "i.f.S.T", "i.f.", "I.f.S", "i.f.s", "i.g.S", "i.f.SS", "ii.f.S", "*", "i.f.*", "", ".S", "i_f.S", "i..S" };
    static const char* const IF[] = { "i", "i.f", "i.f.S", "i.f.S.T", "f", "I.f", "ii.f", "i.f.S.S" };
    static const char* const ME[] = { "S", "f", "T", "s", "SS" };
    const int np = sizeof P / sizeof *P;
    World w;
    w.n = ready();
    int a = vt::pick(np, "first name"), b = vt::pick(np, "second name"), kinds = vt::pick(4, "kinds");
    w.add(string(kinds & 1 ? "c:" : "s:") + P[a]);
    w.add(string(kinds & 2 ? "c:" : "s:") + P[b]);
    for (auto i : IF)
        for (auto m : ME) {
            w.probe(call(m, i));
            w.probe(sig(m, "/o", i));
        }
    w.remove(string(kinds & 1 ? "c:" : "s:") + P[vt::pick(np, "unregistered name")]);
    for (auto i : { IF[1], IF[2] })
        for (auto m : { "S", "T" }) {
            w.probe(call(m, i));
            w.probe(sig(m, "/o", i));
        }
    vt::observe(to_string(w.reg.size()));
}
// many handlers, many messages in one piece
void volume()
{
    static const int N[] = { 1, 17, 64, 65, 255, 256, 257, 1000, 1025, 4097 };
    int handlers = N[vt::pick(vt::thorough() ? 10 : 8, "handlers")], messages = N[vt::pick(10, "messages")], kind = vt::pick(3, "kind");
    if (handlers * messages > (vt::thorough() ? 5000000 : 600000))
        return;
    NativeP n = ready();
    vector<int> runs(handlers);
    string bad;
    for (int h = 0; h < handlers; ++h) {
        string name = "M" + to_string(h);
        auto ran = [&runs, &bad, h, name](const string& m) {
            ++runs[h];
            if (m != name)
                bad = "the handler of " + name + " was invoked for " + m;
        };
        if (kind == 0)
            n->registerMethodCallHandler("i.f." + name, [ran](const MC& c) { ran(c.getHeaderMember()); });
        else if (kind == 1)
            n->registerSignalHandler("i.f." + name, [ran](const SG& s) { ran(s.getHeaderMember()); });
        else
            n->callAddMatch(
                "member='" + name + "'", [](const MR&) {}, [](const ER&) {}, [ran](const SG& s) { ran(s.getHeaderMember()); });
    }
    vt::idle();
    vector<int> want(handlers);
    string all;
    for (int m = 0; m < messages; ++m) {
        int h = (int)((m * 7919ull) % (handlers + 1)); // one name has no handler
        if (h < handlers)
            ++want[h];
        all += kind == 0 ? inCall(m + 1, "x", "M" + to_string(h)) : inSignal(m + 1, "x", "M" + to_string(h));
    }
    vt::deliver(0, all);
    vt::idle();
    if (!bad.empty())
        vt::fail(bad);
    for (int h = 0; h < handlers; ++h)
        if (runs[h] != want[h])
            vt::fail("handler " + to_string(h) + " of " + to_string(handlers) + " was invoked " + to_string(runs[h]) + " times for " + to_string(want[h]) + " messages of " + to_string(messages));
    // every other one leaves
    for (int h = 0; h < handlers; h += 2)
        if (kind == 0)
            n->unRegisterMethodCallHandler("i.f.M" + to_string(h));
        else if (kind == 1)
            n->unRegisterSignalHandler("i.f.M" + to_string(h));
        else
            n->callRemoveMatch("member='M" + to_string(h) + "'");
    all = "";
    for (int h = 0; h < handlers; ++h) {
        all += kind == 0 ? inCall(h + 1, "x", "M" + to_string(h)) : inSignal(h + 1, "x", "M" + to_string(h));
        want[h] += h % 2;
    }
    vt::deliver(0, all);
    vt::idle();
    for (int h = 0; h < handlers; ++h)
        if (runs[h] != want[h])
            vt::fail(string(h % 2 ? "a registered" : "an unregistered") + " handler (" + to_string(h) + " of " + to_string(handlers) + ") was invoked " + to_string(runs[h]) + " times for " + to_string(want[h]) + " messages");
    vt::observe(to_string(handlers) + " " + to_string(messages));
}

vt::Reg r0("C13", "c13_names", 0, 0, names, vt::F_FREE, -1, -1);
vt::Reg r9("C13", "c13_volume", 0, 0, volume, vt::F_FREE, -1, -1);
vt::Reg r1("C13", "c13_histories", 0, 0, histories, vt::F_FREE | vt::F_SLOWTOO, -1, -1);
vt::Reg r2("C13", "c13_behaviours", 0, 0, behaviours, vt::F_FREE, -1, -1);
vt::Reg r3("C13", "c13_signal", 3, 4, [] { concurrent(0); });
vt::Reg r4("C13", "c13_rule", 3, 4, [] { concurrent(1); });
vt::Reg r5("C13", "c13_call", 3, 4, [] { concurrent(2); });
vt::Reg r6("C13", "c13_same_signal", 3, 4, [] { sameName(0); });
vt::Reg r7("C13", "c13_same_rule", 3, 4, [] { sameName(1); });
vt::Reg r8("C13", "c13_same_call", 3, 4, [] { sameName(2); });
}
