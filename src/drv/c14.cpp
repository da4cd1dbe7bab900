// C14: match rules. C15: requests to the bus.
#include "common.h"
using namespace drv;

namespace {
struct Rule {
    string type, sender, interface, member, path, space, destination;
    bool matches(const ref::Msg& m) const
    {
        auto eq = [](const string& want, const string& got) { return want.empty() || want == got; };
        if (!type.empty() && type != "signal")
            return false;
        if (!eq(sender, m.sender()) || !eq(interface, m.interface()) || !eq(member, m.member()) || !eq(path, m.path()) || !eq(destination, m.destination()))
            return false;
        if (space.empty() || space == "/")
            return true;
        string p = m.path();
        return p == space || p.compare(0, space.size() + 1, space + "/") == 0;
    }
    vector<string> items() const
    {
        vector<string> r;
        auto add = [&](const char* k, const string& v) {
            if (!v.empty())
                r.push_back(string(k) + "='" + v + "'");
        };
        add("type", type);
        add("sender", sender);
        add("interface", interface);
        add("member", member);
        add("path", path);
        add("path_namespace", space);
        add("destination", destination);
        return r;
    }
};
string join(const vector<string>& v)
{
    string r;
    for (auto& s : v)
        r += (r.empty() ? "" : ",") + s;
    return r;
}
string one(const vector<string>& alts, const char* what) { return alts[vt::pick(alts.size(), what)]; }

// the signals rules are tried on
const vector<ref::Msg>& probes()
{
    static vector<ref::Msg> r;
    if (r.empty()) {
        static const char* const PATHS[] = { "/a", "/a/b", "/a/b/c", "/ab", "/", "/a/bc", "/b/a", "" };
        for (auto p : PATHS)
            for (int i = 0; i < 2; ++i)
                for (int k = 0; k < 3; ++k)
                    for (int d = 0; d < 2; ++d)
                        for (int s = 0; s < 2; ++s) {
                            ref::Msg m = ref::mk(4, 100 + r.size());
                            if (*p)
                                m.fields.push_back({ 1, ref::str(p, 'o') });
                            m.fields.push_back({ 2, ref::str(i ? "i.f2" : "i.f") });
                            m.fields.push_back({ 3, ref::str(k == 0 ? "S" : k == 1 ? "S2" : "T") });
                            if (d)
                                m.fields.push_back({ 6, ref::str(":1.7") });
                            if (s)
                                m.fields.push_back({ 7, ref::str(":1.12") });
                            r.push_back(m);
                        }
        // near misses of sender, destination, interface
        for (const char* v : { ":1.1", ":1.123", ":1", "" })
            for (int f : { 6, 7 }) {
                ref::Msg m = ref::mk(4, 100 + r.size());
                m.fields = { { 1, ref::str("/a", 'o') }, { 2, ref::str("i.f") }, { 3, ref::str("S") }, { (uint8_t)f, ref::str(v) } };
                r.push_back(m);
            }
        for (const char* v : { "i", "i.f.S", "I.F", "f" }) {
            ref::Msg m = ref::mk(4, 100 + r.size());
            m.fields = { { 1, ref::str("/a", 'o') }, { 2, ref::str(v) }, { 3, ref::str("S") } };
            r.push_back(m);
        }
        ref::Msg bare = ref::mk(4, 100 + r.size());
        r.push_back(bare);
        for (size_t i = 0; i < r.size(); ++i)
            r[i].body = { ref::num('u', i) };
    }
    return r;
}
const string& probeBytes()
{
    static string s;
    if (s.empty())
        for (auto& m : probes())
            s += ref::encMsg(m);
    return s;
}

void tryRules(const vector<std::pair<string, Rule>>& rules)
{
    NativeP n = ready();
    vector<std::set<uint32_t>> got(rules.size());
    for (size_t i = 0; i < rules.size(); ++i)
        n->callAddMatch(
            rules[i].first, [](const MR&) {}, [](const ER&) {}, [&got, i](const SG& s) { got[i].insert(DBus::Type::asUint32(s.getParameter(0))); });
    vt::idle();
    vt::deliver(0, probeBytes());
    vt::idle();
    auto& ps = probes();
    for (size_t i = 0; i < rules.size(); ++i)
        for (size_t p = 0; p < ps.size(); ++p) {
            bool want = rules[i].second.matches(ps[p]);
            if (want != (got[i].count(p) != 0)) {
                string d = "path=" + ps[p].path() + " interface=" + ps[p].interface() + " member=" + ps[p].member() + " destination=" + ps[p].destination() + " sender=" + ps[p].sender();
                vt::fail("rule " + rules[i].first + (want ? " does not select" : " selects") + " the signal with " + d);
            }
        }
    size_t total = 0;
    for (auto& g : got)
        total += g.size();
    vt::observe(to_string(total));
    n.reset();
}
// every combination of keys with agreeing and disagreeing values
void combinations()
{
    Rule r;
    r.sender = one({ "", ":1.12", ":1.1" }, "sender");
    r.interface = one({ "", "i.f", "i.f2" }, "interface");
    r.member = one({ "", "S", "S2" }, "member");
    r.destination = one({ "", ":1.7", ":1" }, "destination");
    int p = vt::pick(12, "path");
    static const char* const P[] = { "", "/a", "/a/b", "/", "/ab" };
    static const char* const N[] = { "/", "/a", "/a/b", "/a/b/c", "/ab", "/a/b/c/d", "/b" };
    if (p < 5)
        r.path = P[p];
    else
        r.space = N[p - 5];
    // the types side by side
    vector<std::pair<string, Rule>> rules;
    for (const char* t : { "", "signal", "method_call", "error", "method_return" }) {
        r.type = t;
        auto i = r.items();
        if (i.size())
            rules.push_back({ join(i), r });
    }
    tryRules(rules);
}
// the order of the items does not matter
void orders()
{
    Rule r;
    int omit = vt::pick(7, "omitted");
    r.type = omit == 0 ? "" : "signal";
    r.sender = omit == 1 ? "" : ":1.12";
    r.interface = omit == 2 ? "" : "i.f";
    r.member = omit == 3 ? "" : "S";
    r.destination = omit == 4 ? "" : ":1.7";
    if (vt::pick(2, "namespace"))
        r.space = omit == 5 ? "" : "/a";
    else
        r.path = omit == 5 ? "" : "/a/b";
    // one item disagrees
    switch (vt::pick(8, "disagreeing")) {
    case 0:
        r.type = "error";
        break;
    case 1:
        r.sender = ":9.9";
        break;
    case 2:
        r.interface = "x.y";
        break;
    case 3:
        r.member = "Y";
        break;
    case 4:
        r.destination = ":8.8";
        break;
    case 5:
        r.path = "/x";
        r.space = "";
        break;
    case 6:
        r.space = "/x/y";
        r.path = "";
        break;
    }
    auto items = r.items();
    vector<std::pair<string, Rule>> rules;
    int rot = vt::pick(items.size(), "rotation");
    std::rotate(items.begin(), items.begin() + rot, items.end());
    for (size_t i = 0; i + 1 < items.size(); ++i) {
        std::swap(items[i], items[i + 1]);
        rules.push_back({ join(items), r });
    }
    std::reverse(items.begin(), items.end());
    rules.push_back({ join(items), r });
    if (vt::thorough()) {
        std::sort(items.begin(), items.end());
        int k = vt::pick(60, "block of permutations");
        int i = 0;
        rules.clear();
        do {
            if (i++ / 84 == k)
                rules.push_back({ join(items), r });
        } while (std::next_permutation(items.begin(), items.end()));
        if (rules.empty())
            return;
    }
    tryRules(rules);
}
// values are taken as they are
void values()
{
    static const char* const V[] = { "S", "s", "S ", " S", "S,T", "S=T", "a,b='", "\"S\"", "S\\", "%s", "type", "\xc3\xa9", ".", "member", "S,member=", "=" };
    string v = V[vt::pick(16, "value")];
    if (v.find('\'') != string::npos)
        v = "a,b=";
    int key = vt::pick(5, "key");
    static const char* const K[] = { "member", "interface", "sender", "destination", "path" };
    string rule = string(K[key]) + "='" + v + "'";
    switch (vt::pick(3, "around")) {
    case 1:
        rule = "type='signal'," + rule;
        break;
    case 2:
        rule += ",type='signal'";
        break;
    }
    NativeP n = ready();
    int runs = 0;
    n->callAddMatch(
        rule, [](const MR&) {}, [](const ER&) {}, [&](const SG&) { ++runs; });
    static const uint8_t CODE[] = { 3, 2, 7, 6, 1 };
    for (const char* w : V) {
        string val = w;
        ref::Msg m = ref::mk(4, 5);
        m.fields.push_back({ CODE[key], ref::str(val, key == 4 ? 'o' : 's') });
        runs = 0;
        vt::deliver(0, ref::encMsg(m));
        vt::idle();
        if (runs != (val == v))
            vt::fail("rule " + rule + (runs ? " selects" : " does not select") + " the value \"" + val + "\"");
    }
    vt::observe("ok");
    n.reset();
}

// ---- refused rules ----
enum { GOOD,
    BAD,
    UNJUDGED };
// what the specification says about a string of the small alphabet used here
int classify(const string& r, std::map<string, string>& kv)
{
    if (r.empty())
        return UNJUDGED;
    if (r[0] == ',' || r.back() == ',' || r.find(",,") != string::npos) {
        // stray commas are only judged when something else is wrong, which needs care: not at all
        return UNJUDGED;
    }
    size_t p = 0;
    bool unknown = false;
    while (p < r.size()) {
        size_t k = p;
        while (k < r.size() && r[k] != '=' && r[k] != ',' && r[k] != '\'')
            ++k;
        if (k == p || k + 1 >= r.size() || r[k] != '=' || r[k + 1] != '\'')
            return BAD;
        string key = r.substr(p, k - p);
        size_t q = r.find('\'', k + 2);
        if (q == string::npos)
            return BAD;
        string v = r.substr(k + 2, q - k - 2);
        if (kv.count(key))
            unknown = true; // given twice
        kv[key] = v;
        static const std::set<string> KNOWN = { "type", "sender", "interface", "member", "path", "path_namespace", "destination" };
        if (!KNOWN.count(key))
            unknown = true;
        p = q + 1;
        if (p < r.size()) {
            if (r[p] != ',')
                return BAD;
            ++p;
        }
    }
    if (unknown)
        return UNJUDGED;
    if (kv.count("path") && kv.count("path_namespace"))
        return kv["path"].empty() || kv["path_namespace"].empty() ? UNJUDGED : BAD;
    return GOOD;
}
// one rule on a ready connection: refused with an exception and without any trace, or accepted
void tryOne(const string& rule)
{
    std::map<string, string> kv;
    int c = classify(rule, kv);
    if (c == UNJUDGED) {
        vt::observe("unjudged");
        return;
    }
    NativeP n = ready();
    int runs = 0;
    bool refused = false;
    try {
        n->callAddMatch(
            rule, [](const MR&) {}, [](const ER&) {}, [&](const SG&) { ++runs; });
    } catch (const std::exception&) {
        refused = true;
    }
    vt::idle();
    size_t sent = parseSent(0).msgs.size();
    ref::Msg m = ref::signalMsg(5, "/a", "i.f", "S", {});
    vt::deliver(0, ref::encMsg(m));
    vt::idle();
    if (c == BAD) {
        VT_CHECK(refused, "the malformed rule " + rule + " was not refused");
        VT_CHECK(sent == 0, "the refused rule " + rule + " was sent to the bus");
        VT_CHECK(runs == 0, "the refused rule " + rule + " selects signals");
    } else {
        VT_CHECK(!refused, "the rule " + rule + " was refused");
        VT_CHECK(sent == 1, "AddMatch was not sent once for " + rule);
        Rule r { kv["type"], kv["sender"], kv["interface"], kv["member"], kv["path"], kv["path_namespace"], kv["destination"] };
        VT_CHECK(runs == r.matches(m), "the rule " + rule + (runs ? " selects" : " does not select") + " the signal");
    }
    // the connection and the name are as usable as before
    bool again = false;
    n->callAddMatch(
        "interface='i.f',path='/a',member='S'", [](const MR&) {}, [](const ER&) {}, [&](const SG&) { again = true; });
    vt::deliver(0, ref::encMsg(m));
    vt::idle();
    VT_CHECK(again, "a later rule does not work");
    vt::observe(c == BAD ? "refused" : "accepted");
    n.reset();
}
void tokens()
{
    static const char* const T[] = { "member", "=", "'", "S", ",", "path" };
    int len = 1 + vt::pick(vt::thorough() ? 7 : 6, "length");
    string r;
    for (int i = 0; i < len; ++i)
        r += T[vt::pick(len > 6 ? 5 : 6, "token")];
    tryOne(r);
}
// a well-formed rule with one character changed, removed or inserted
void damaged()
{
    static const char* const R[] = { "type='signal',member='S'", "path='/a',interface='i.f'", "path_namespace='/a',type='signal'", "member='S'" };
    string r = R[vt::pick(4, "rule")];
    size_t at = vt::pick(r.size() + 1, "position");
    static const char C[] = "',= x\"";
    int op = vt::pick(3, "damage");
    if (op == 0) {
        if (at == r.size())
            return;
        r.erase(at, 1);
    } else if (op == 1) {
        if (at == r.size())
            return;
        r[at] = C[vt::pick(6, "character")];
    } else
        r.insert(at, 1, C[vt::pick(6, "character")]);
    tryOne(r);
}
// path and path_namespace together, in any order and company
void both()
{
    static const char* const P[] = { "path='/a'", "path='/'", "path='/b/c'" };
    static const char* const N[] = { "path_namespace='/a'", "path_namespace='/'", "path_namespace='/b'" };
    vector<string> i = { P[vt::pick(3, "path")], N[vt::pick(3, "namespace")] };
    int extra = vt::pick(4, "extra");
    if (extra & 1)
        i.push_back("type='signal'");
    if (extra & 2)
        i.push_back("member='S'");
    std::sort(i.begin(), i.end());
    int k = vt::pick(i.size() == 2 ? 2 : i.size() == 3 ? 6 : 24, "order");
    while (k--)
        std::next_permutation(i.begin(), i.end());
    tryOne(join(i));
}
// several rules at once select independently of one another
void several()
{
    static const char* const R[] = { "member='S'", "interface='i.f'", "path='/a'", "path_namespace='/a'", "sender=':1.12'", "destination=':1.7'", "type='signal'", "type='error'" };
    static Rule D[8];
    D[0].member = "S";
    D[1].interface = "i.f";
    D[2].path = "/a";
    D[3].space = "/a";
    D[4].sender = ":1.12";
    D[5].destination = ":1.7";
    D[6].type = "signal";
    D[7].type = "error";
    int mask = vt::pick(256, "rules");
    vector<std::pair<string, Rule>> rules;
    for (int i = 0; i < 8; ++i)
        if (mask >> i & 1)
            rules.push_back({ R[i], D[i] });
    tryRules(rules);
}

// ---- C15 ----
const char* const HELPER[] = { "Hello", "RequestName", "ReleaseName", "ListQueuedOwners", "ListNames", "ListActivatableNames", "NameHasOwner", "GetConnectionUnixProcessID", "GetConnectionUnixUser", "AddMatch", "RemoveMatch" };
const int NHELPER = 11;
struct Result {
    int ok = 0, err = 0, sig = 0;
    string okArg, errArg;
};
void request(DBus::Native& n, int h, const string& s, uint32_t u, Result& r)
{
    auto ok = [&r](const MR& m) { ++r.ok; r.okArg = argOf(m); };
    auto err = [&r](const ER& m) { ++r.err; r.errArg = m.getMessage(); };
    auto sig = [&r](const SG&) { ++r.sig; };
    switch (h) {
    case 0:
        n.callHello(ok, err);
        break;
    case 1:
        n.callRequestName(s, u, ok, err);
        break;
    case 2:
        n.callReleaseName(s, ok, err);
        break;
    case 3:
        n.callListQueuedOwners(s, ok, err);
        break;
    case 4:
        n.callListNames(ok, err);
        break;
    case 5:
        n.callListActivatableNames(ok, err);
        break;
    case 6:
        n.callNameHasOwner(s, ok, err);
        break;
    case 7:
        n.callGetUnixProcessId(s, ok, err);
        break;
    case 8:
        n.callGetConnectionUnixUser(s, ok, err);
        break;
    case 9:
        n.callAddMatch(s, ok, err, sig);
        break;
    case 10:
        n.callRemoveMatch(s);
        break;
    }
}
void checkRequest(const ref::Msg& m, int h, const string& s, uint32_t u)
{
    string what = string(HELPER[h]) + ": ";
    VT_CHECK(m.type == 1, what + "is no method call");
    VT_CHECK(m.destination() == "org.freedesktop.DBus", what + "destination is " + m.destination());
    VT_CHECK(m.path() == "/org/freedesktop/DBus", what + "path is " + m.path());
    VT_CHECK(m.interface() == "org.freedesktop.DBus", what + "interface is " + m.interface());
    VT_CHECK(m.member() == HELPER[h], what + "member is " + m.member());
    string want = h == 0 || h == 4 || h == 5 ? "" : h == 1 ? "su" : "s";
    VT_CHECK(m.bodySig == want, what + "arguments have the types '" + m.bodySig + "'");
    if (want.size())
        VT_CHECK(m.body[0].s == s, what + "the first argument is \"" + m.body[0].s + "\" instead of \"" + s + "\"");
    if (want == "su")
        VT_CHECK((uint32_t)m.body[1].u == u, what + "the flags are " + to_string(m.body[1].u) + " instead of " + to_string(u));
    VT_CHECK(((m.flags & 1) != 0) == (h == 10), what + "flags " + to_string(m.flags) + (h == 10 ? " ask for a reply" : " ask for no reply"));
    VT_CHECK((m.flags & ~1) == 0, what + "flags " + to_string(m.flags));
}
string argument(int h)
{
    if (h == 9 || h == 10) {
        static const char* const R[] = { "member='S'", "type='signal',interface='i.f'", "path='/a'", "path_namespace='/'", "sender=':1.1',member='a,b'" };
        return R[vt::pick(5, "rule")];
    }
    if (h == 0 || h == 4 || h == 5)
        return "";
    switch (vt::pick(3, "argument")) {
    case 0: {
        static const char* const A[] = { "", "a", "org.example.Name", ":1.42", "not a name!", "%s%n", "\xc3\xa9" };
        return A[vt::pick(7, "text")];
    }
    case 1:
        return string(vt::pick(20, "length"), 'n');
    default: {
        static const int N[] = { 100, 255, 256, 1000, 1024, 5000 };
        return string(N[vt::pick(6, "length")], 'n');
    }
    }
}
// each helper with each argument and each answer
void helpers()
{
    int h = vt::pick(NHELPER, "helper");
    string s = argument(h);
    uint32_t u = 0;
    if (h == 1) {
        static const uint32_t U[] = { 0, 1, 2, 3, 4, 5, 6, 7, 8, 0xff, 0x100, 0x10000, 0x12345678, 0x80000000, 0xffffffff };
        u = U[vt::pick(15, "flags")];
    }
    int early = vt::pick(2, "before the handshake");
    int answer = vt::pick(5, "answer");
    NativeP n = early ? open() : ready();
    Result r, r2;
    request(*n, h, s, u, r);
    if (early)
        authenticate(*n);
    vt::idle();
    Stream st = parseSent(0, false);
    VT_CHECK(st.msgs.size() == 1, string(HELPER[h]) + " sent " + to_string(st.msgs.size()) + " messages");
    checkRequest(st.msgs[0], h, s, u);
    uint32_t serial = st.msgs[0].serial;
    switch (answer) {
    case 0:
        vt::deliver(0, inReturn(serial, "answer"));
        break;
    case 1:
        vt::deliver(0, inError(serial, "refused"));
        break;
    case 2:
        vt::deliver(0, inReturn(serial + 1, "answer") + inError(serial - 1, "refused"));
        break;
    case 3:
        vt::deliver(0, ref::encMsg(ref::returnMsg(7, serial, {}, true)) + inReturn(serial, "again"));
        break;
    }
    vt::idle();
    bool ok = (answer == 0 || answer == 3) && h != 10, err = answer == 1 && h != 10;
    VT_CHECK(r.ok == ok && r.err == err, string(HELPER[h]) + ": success callback ran " + to_string(r.ok) + " times and failure callback " + to_string(r.err) + " times upon answer " + to_string(answer));
    if (answer == 0 && ok)
        VT_CHECK(r.okArg == "answer", "the result did not reach the callback");
    if (err)
        VT_CHECK(r.errArg == "refused", "the error did not reach the callback");
    VT_CHECK(parseSent(0).msgs.size() == 1, "more messages were sent");
    vt::observe(string(HELPER[h]) + to_string(answer));
    n.reset();
}
// several helpers at the same time, answered in any order: results reach their own callbacks
void mixed()
{
    int a = vt::pick(NHELPER, "first"), b = vt::pick(NHELPER, "second"), c = vt::pick(3, "third") * 4 + 1;
    NativeP n = ready();
    Result r[3];
    int hs[3] = { a, b, c };
    string arg[3];
    for (int i = 0; i < 3; ++i) {
        arg[i] = hs[i] >= 9 ? "member='X" + to_string(i) + "'" : "name" + to_string(i);
        request(*n, hs[i], arg[i], 40 + i, r[i]);
    }
    vt::idle();
    auto ms = parseSent(0, false).msgs;
    VT_CHECK(ms.size() == 3, to_string(ms.size()) + " messages sent for three requests");
    for (int i = 0; i < 3; ++i)
        checkRequest(ms[i], hs[i], arg[i], 40 + i);
    int o = vt::pick(6, "order of answers");
    int ord[3] = { 0, 1, 2 };
    while (o--)
        std::next_permutation(ord, ord + 3);
    int errs = vt::pick(8, "which are errors");
    for (int i : ord)
        vt::deliver(0, errs >> i & 1 ? inError(ms[i].serial, "e" + to_string(i)) : inReturn(ms[i].serial, "r" + to_string(i)));
    vt::idle();
    for (int i = 0; i < 3; ++i) {
        bool e = errs >> i & 1, want = hs[i] != 10;
        VT_CHECK(r[i].ok == (want && !e) && r[i].err == (want && e), string(HELPER[hs[i]]) + " got " + to_string(r[i].ok) + " results and " + to_string(r[i].err) + " errors");
        if (want)
            VT_CHECK(e ? r[i].errArg == "e" + to_string(i) : r[i].okArg == "r" + to_string(i), "another request's answer was delivered");
    }
    vt::observe(to_string(a) + " " + to_string(b));
    n.reset();
}
// AddMatch and RemoveMatch: what is sent and what is selected
void matches()
{
    NativeP n = ready();
    int runs[3] = { 0, 0, 0 };
    static const char* const R[] = { "member='S'", "interface='i.f'", "path='/o'" };
    bool on[3] = { false, false, false };
    vector<std::pair<bool, int>> ops;
    int len = vt::thorough() ? 6 : 4;
    for (int i = 0; i < len; ++i) {
        int op = vt::pick(6, "operation");
        int k = op / 2;
        ops.push_back({ op & 1, k });
        if (op & 1) {
            n->callRemoveMatch(R[k]);
            on[k] = false;
        } else {
            n->callAddMatch(
                R[k], [](const MR&) {}, [](const ER&) {}, [&runs, k](const SG&) { ++runs[k]; });
            on[k] = true;
        }
        for (int& r : runs)
            r = 0;
        vt::deliver(0, inSignal(9, "x"));
        vt::idle();
        for (int j = 0; j < 3; ++j)
            VT_CHECK(runs[j] == on[j], string("rule ") + R[j] + " ran " + to_string(runs[j]) + " times");
    }
    auto ms = parseSent(0, false).msgs;
    VT_CHECK(ms.size() == ops.size(), to_string(ms.size()) + " messages for " + to_string(ops.size()) + " requests");
    for (size_t i = 0; i < ops.size(); ++i)
        checkRequest(ms[i], ops[i].first ? 10 : 9, R[ops[i].second], 0);
    vt::observe("ok");
    n.reset();
}
// two threads request, the bus answers as fast as it can
void fast()
{
    NativeP n = ready();
    int a = vt::pick(NHELPER, "first"), b = vt::pick(vt::thorough() ? NHELPER : 3, "second");
    Result ra, rb;
    spawnBus(
        0, [&](const ref::Msg& m) { vt::deliver(0, inReturn(m.serial, "for " + m.member() + firstArg(m))); }, false);
    string arga = a >= 9 ? "member='A'" : "A", argb = b >= 9 ? "member='B'" : "B";
    int t1 = vt::spawn("A", [&] { request(*n, a, arga, 1, ra); });
    int t2 = vt::spawn("B", [&] { request(*n, b, argb, 2, rb); });
    vt::join(t1);
    vt::join(t2);
    vt::idle();
    VT_CHECK(ra.ok == (a != 10) && ra.err == 0, string(HELPER[a]) + " got " + to_string(ra.ok) + " results");
    VT_CHECK(rb.ok == (b != 10) && rb.err == 0, string(HELPER[b]) + " got " + to_string(rb.ok) + " results");
    auto none = [](int h) { return h == 0 || h == 4 || h == 5; };
    if (a != 10)
        VT_CHECK(ra.okArg == string("for ") + HELPER[a] + (none(a) ? "" : arga), "wrong result " + ra.okArg);
    if (b != 10)
        VT_CHECK(rb.okArg == string("for ") + HELPER[b] + (none(b) ? "" : argb), "wrong result " + rb.okArg);
    auto ms = parseSent(0, false).msgs;
    VT_CHECK(ms.size() == 2, to_string(ms.size()) + " messages sent for two requests");
    vt::observe(to_string(a) + " " + to_string(b));
    n.reset();
}

vt::Reg r1("C14", "c14_combinations", 0, 0, combinations, vt::F_FREE, -1, -1);
vt::Reg r2("C14", "c14_orders", 0, 0, orders, vt::F_FREE, -1, -1);
vt::Reg r3("C14", "c14_values", 0, 0, values, vt::F_FREE, -1, -1);
vt::Reg r4("C14", "c14_tokens", 0, 0, tokens, vt::F_FREE, -1, -1);
vt::Reg r5("C14", "c14_damaged", 0, 0, damaged, vt::F_FREE, -1, -1);
vt::Reg r6("C14", "c14_both", 0, 0, both, vt::F_FREE, -1, -1);
vt::Reg r7("C14", "c14_several", 0, 0, several, vt::F_FREE | vt::F_SLOWTOO, -1, -1);
vt::Reg s1("C15", "c15_helpers", 0, 0, helpers, vt::F_FREE, -1, -1);
vt::Reg s2("C15", "c15_mixed", 0, 0, mixed, vt::F_FREE | vt::F_SLOWTOO, -1, -1);
vt::Reg s3("C15", "c15_matches", 0, 0, matches, vt::F_FREE | vt::F_SLOWTOO, -1, -1);
vt::Reg s4("C15", "c15_fast", 2, 3, fast, vt::F_FREE, -1, -1);
}
