// C06: headers of outgoing messages. C07: what a received message exposes.
#include "msg.h"
using namespace br;
namespace M = DBus::Message;

namespace {
struct Want {
    int type;
    uint8_t flags;
    std::map<int, V> fields;
    VV body;
};

void checkOut(const string& bytes, uint32_t serial, const Want& w)
{
    ref::Msg m;
    try {
        m = ref::parse(bytes);
    } catch (const ref::Bad& b) {
        fail(string("the message is malformed (") + b.why + "): " + ref::hex(bytes));
    }
    if (m.big)
        fail("not in the host's byte order");
    auto bad = [&](const string& what) { fail(what + ": " + ref::hex(bytes)); };
    if (m.type != w.type)
        bad("type " + to_string(m.type));
    if (m.flags != w.flags)
        bad("flags " + to_string(m.flags) + " instead of " + to_string(w.flags));
    if (m.version != 1)
        bad("version " + to_string(m.version));
    if (m.serial != serial || !serial)
        bad("serial " + to_string(m.serial) + " instead of the message's " + to_string(serial));
    std::set<int> codes;
    for (auto& f : m.fields) {
        if (!codes.insert(f.code).second)
            bad("header field " + to_string(f.code) + " twice");
        auto it = w.fields.find(f.code);
        if (it == w.fields.end())
            bad("header field " + to_string(f.code) + " although it was not given");
        if (ref::sigOf(f.v) != ref::sigOf(it->second))
            bad("header field " + to_string(f.code) + " has type " + ref::sigOf(f.v));
        if (f.v.s != it->second.s || f.v.u != it->second.u)
            bad("header field " + to_string(f.code) + " is " + ref::show(f.v) + " instead of " + ref::show(it->second));
    }
    for (auto& f : w.fields)
        if (!codes.count(f.first))
            bad("header field " + to_string(f.first) + " is missing");
    string body = ref::encBody(w.body, false);
    if (m.rawBody != body)
        bad("body is " + ref::hex(m.rawBody) + " instead of " + ref::hex(body));
    // and the whole as the specification encodes it
    if (ref::encHeader(m, m.bodyLen) + m.rawBody != bytes)
        bad("not the canonical encoding");
    seq::observe(to_string(w.type) + " fields " + to_string(w.fields.size()) + " " + ref::sigsOf(w.body));
}

string text(int n, char c = 'a')
{
    string s;
    for (int i = 0; i < n; ++i)
        s.push_back(c + i % 20);
    return s;
}
V param(int k)
{
    using namespace ref;
    switch (k) {
    case 0:
        return num('y', 7);
    case 1:
        return str("text");
    case 2:
        return num('u', 0x01020304);
    case 3:
        return num('t', 0x0102030405060708);
    case 4:
        return var(str("v"));
    case 5:
        return arr("s", { str("a"), str("") });
    case 6:
        return strct({ num('y', 1), str("x") });
    case 7:
        return dbl(1.25);
    case 8:
        return arr("{sv}", { dict(str("k"), var(num('u', 1))) });
    case 9:
        return str("/p", 'o');
    case 10:
        return str("as", 'g');
    case 11:
        return num('n', 0xfffe);
    case 12:
        return arr("t", {});
    default:
        return num('b', 1);
    }
}
const int NPARAM = 14;
// makes the message with API calls; everything is checked against the arguments
void make(int kind, const string& path, const string& interface, const string& member, const string& dest, uint32_t reply, uint32_t flags, const VV& body)
{
    Want w;
    w.type = kind;
    w.flags = 0;
    w.body = body;
    auto fields = [&] {
        w.fields[1] = ref::str(path, 'o');
        w.fields[2] = ref::str(interface);
        w.fields[3] = ref::str(member);
    };
    if (dest.size())
        w.fields[6] = ref::str(dest);
    if (body.size())
        w.fields[8] = ref::str(ref::sigsOf(body), 'g');
    M::MethodCallIdentifier id(path, interface, member);
    string bytes;
    uint32_t serial;
    if (kind == 1) {
        w.flags = flags & 3; // interactive authorisation is reserved
        fields();
        M::MethodCallParametersIn p;
        for (auto& v : body)
            p.add(build(v));
        M::MethodCall m(id, p, flags);
        serial = m.getSerial();
        SEQ_CHECK(m.isReplyExpected() == !(flags & 1), "isReplyExpected does not fit the flags");
        SEQ_CHECK(m.getObject() == path && m.getInterface() == interface && m.getMethod() == member && m.getFullName() == interface + "." + member, "names differ");
        bytes = m.marshall(dest);
        SEQ_CHECK(bytes == m.marshall(dest), "marshalling again gives something else");
        M::MethodCall copy(m);
        SEQ_CHECK(copy.getSerial() == serial && copy.marshall(dest) == bytes, "the copy of a message differs");
    } else if (kind == 2) {
        w.fields[5] = ref::num('u', reply);
        M::MethodReturn m(reply);
        serial = m.getSerial();
        for (auto& v : body)
            m.addParameter(build(v));
        bytes = m.marshall(dest);
        SEQ_CHECK(bytes == m.marshall(dest), "marshalling again gives something else");
    } else if (kind == 3) {
        w.fields[5] = ref::num('u', reply);
        w.fields[4] = ref::str(interface);
        w.body = { ref::str(member) };
        w.fields[8] = ref::str("s", 'g');
        M::Error m(reply, interface, member);
        serial = m.getSerial();
        SEQ_CHECK(m.getMessage() == member && m.getSerialOfReply() == reply, "error text or serial differ");
        bytes = m.marshall(dest);
        SEQ_CHECK(bytes == m.marshall(dest), "marshalling again gives something else");
    } else {
        fields();
        M::Signal m(id);
        serial = m.getSerial();
        for (auto& v : body)
            m.addParameter(build(v));
        bytes = m.marshall(dest);
        SEQ_CHECK(bytes == m.marshall(dest), "marshalling again gives something else");
    }
    if (seq::verbose())
        seq::note(ref::hex(bytes));
    checkOut(bytes, serial, w);
}

// all lengths of the names modulo the alignments
void names()
{
    int kind = 1 + pick(4);
    int n = seq::thorough() ? 25 : 12;
    string path = "/" + text(pick(kind == 1 || kind == 4 ? n : 1));
    string iface = "i." + text(pick(kind == 2 ? 1 : n), 'b');
    string member = text((kind == 3 ? 0 : 1) + pick(kind == 2 ? 1 : n), 'c');
    int d = pick(n + 1);
    string dest = d ? ":" + text(d - 1, 'd') : "";
    VV body;
    if (pick(2))
        body.push_back(ref::num('y', 5));
    make(kind, path, iface, member, dest, 3, 0, body);
}
// flags
void flags()
{
    uint32_t f;
    switch (pick(3)) {
    case 0:
        f = pick(256);
        break;
    case 1:
        f = 1u << pick(32);
        break;
    default:
        f = ~(1u << pick(32));
        break;
    }
    VV body;
    if (pick(2))
        body.push_back(ref::num('y', 5));
    make(1, "/a", "b.c", "D", pick(2) ? "e.f" : "", 0, f, body);
}
// parameters
void params()
{
    static const int KIND[] = { 1, 2, 4 };
    int kind = KIND[pick(3)];
    VV body;
    int n = pick(seq::thorough() ? 6 : 5);
    for (int i = 0; i < n; ++i)
        body.push_back(param(pick(NPARAM)));
    make(kind, "/a", "b.c", "D", pick(2) ? "e.f" : "", 77, 0, body);
}
// reply serials, texts
void replies()
{
    int kind = 2 + pick(2);
    uint32_t s = (1u << pick(32)) + pick(3) - 1;
    if (pick(2))
        s = ~s;
    static const int N[] = { 0, 1, 3, 4, 7, 8, 250, 255, 256, 1000, 65536, 200000 };
    make(kind, "", "e." + text(1 + pick(5)), text(N[pick(12)]), pick(2) ? ":1.9" : "", s, 0, {});
}
// long values
void longs()
{
    static const int N[] = { 100, 254, 255, 256, 257, 1000, 1024, 65535, 65536, 100000 };
    int kind = 1 + 3 * pick(2);
    int n = N[pick(10)];
    int which = pick(6);
    VV body;
    if (which == 4)
        body.push_back(ref::str(text(n)));
    if (which == 5)
        for (int i = 0; i < std::min(n, 255); ++i)
            body.push_back(param(i % 3));
    make(kind, "/" + text(which == 0 ? n : 1), "i." + text(which == 1 ? n : 1), "M" + text(which == 2 ? n : 1), which == 3 ? ":" + text(n) : "", 5, 0, body);
}
// string contents of all bytes
void contents()
{
    int kind = 1 + pick(4);
    string s(1 + pick(2), (char)(1 + pick(255)));
    int which = pick(4);
    make(kind, which == 0 ? "/" + s : "/", which == 1 ? s : "i.f", which == 2 ? s : "M", which == 3 ? s : "", 5, 0, { ref::str(s) });
}
// parameters that hold the same contents in different sharing; messages reused after marshalling
void reuse()
{
    M::Signal m(M::MethodCallIdentifier("/a", "b.c", "D"));
    Want w;
    w.type = 4;
    w.flags = 0;
    w.fields[1] = ref::str("/a", 'o');
    w.fields[2] = ref::str("b.c");
    w.fields[3] = ref::str("D");
    for (int i = 0; i < 3; ++i) {
        if (pick(2)) {
            V v = param(pick(NPARAM));
            m.addParameter(build(v));
            w.body.push_back(v);
            w.fields[8] = ref::str(ref::sigsOf(w.body), 'g');
        }
        string d = pick(2) ? "x.y" : "";
        if (d.size())
            w.fields[6] = ref::str(d);
        else
            w.fields.erase(6);
        checkOut(m.marshall(d), m.getSerial(), w);
    }
}
// the short constructors and add functions of parameter lists
void shorts()
{
    M::MethodCallIdentifier id("/a", "b.c", "D");
    M::MethodCallParametersIn p;
    VV body;
    string s = text(pick(5));
    uint32_t u = pick(2) ? 0xfffffffeu : 1;
    switch (pick(4)) {
    case 0:
        p = M::MethodCallParametersIn(s);
        body = { ref::str(s) };
        break;
    case 1:
        p = M::MethodCallParametersIn(s, u);
        body = { ref::str(s), ref::num('u', u) };
        break;
    case 2:
        p = M::MethodCallParametersIn(T::Generic(T::Uint32(u)));
        body = { ref::num('u', u) };
        break;
    }
    for (int i = pick(3); i > 0; --i)
        switch (pick(4)) {
        case 0:
            p.add(s);
            body.push_back(ref::str(s));
            break;
        case 1:
            p.add(u);
            body.push_back(ref::num('u', u));
            break;
        case 2:
            p.add((uint8_t)u);
            body.push_back(ref::num('y', u & 255));
            break;
        case 3:
            p.add(T::Generic(T::Byte(3)));
            body.push_back(ref::num('y', 3));
            break;
        }
    SEQ_CHECK(p.getParameterCount() == body.size() && p.getMarshallingSignature() == ref::sigsOf(body), "parameter list has signature " + p.getMarshallingSignature());
    M::MethodCall m(id, p);
    Want w;
    w.type = 1;
    w.flags = 0;
    w.body = body;
    w.fields = { { 1, ref::str("/a", 'o') }, { 2, ref::str("b.c") }, { 3, ref::str("D") } };
    if (body.size())
        w.fields[8] = ref::str(ref::sigsOf(body), 'g');
    checkOut(m.marshall(""), m.getSerial(), w);
}

// ---- C07 ----
void deliver(const vector<ref::Msg>& ms, bool together)
{
    Recorder r;
    vector<string> want;
    string all;
    for (auto& m : ms) {
        string b = ref::encMsg(m);
        if (seq::verbose())
            seq::note(ref::hex(b));
        want.push_back(seen(m).str());
        if (together)
            all += b;
        else
            SEQ_CHECK(r.feed(b), "well-formed message refused: " + ref::hex(b));
    }
    if (together)
        SEQ_CHECK(r.feed(all), "well-formed messages refused: " + ref::hex(all));
    for (size_t i = 0; i < want.size(); ++i) {
        SEQ_CHECK(i < r.got.size(), "not delivered: " + want[i]);
        if (r.got[i] != want[i])
            fail("received as " + r.got[i] + " instead of " + want[i] + ": " + ref::hex(ref::encMsg(ms[i])));
    }
    SEQ_CHECK(r.got.size() == want.size(), "too many messages delivered");
}
ref::Field field(int k, int variant)
{
    using namespace ref;
    switch (k) {
    case 0:
        return { 1, str(variant ? "/" : "/ob/ject", 'o') };
    case 1:
        return { 2, str(variant ? "i.f2" : "in.ter.face") };
    case 2:
        return { 3, str(variant ? "M" : "Member") };
    case 3:
        return { 5, num('u', variant ? 0xfffffffeu : 0x12345) };
    case 4:
        return { 6, str(variant ? ":1.7" : "de.st") };
    case 5:
        return { 7, str(variant ? ":1.99999" : "se.nder") };
    case 6:
        return { 4, str(variant ? "e.E" : "err.or.Name") };
    case 7:
        return { 9, num('u', 3) };
    case 8:
        return { 10, str("unknown") };
    case 9:
        return { 200, var(arr("(yv)", { strct({ num('y', 1), var(str("x")) }) })) };
    default:
        return { 8, str("u", 'g') };
    }
}
// every subset of the fields in every order
void orders()
{
    ref::Msg m = ref::mk(1 + pick(4), 0x1020304);
    m.big = pick(2);
    int most = seq::thorough() ? 6 : 5;
    int variant = pick(2);
    vector<int> left = { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10 };
    while ((int)m.fields.size() < most) {
        int k = pick(left.size() + 1);
        if (k == (int)left.size())
            break;
        int f = left[k];
        left.erase(left.begin() + k);
        m.fields.push_back(field(f, variant));
        if (f == 10)
            m.body.push_back(ref::num('u', 0xcafe));
    }
    // then a bare message: nothing is left over from the one before
    ref::Msg bare = ref::mk(m.type, 5);
    bare.big = !m.big;
    bare.flags = 1;
    deliver({ m, bare }, true);
    seq::observe(to_string(m.type) + " " + to_string(m.fields.size()));
}
// all fields in rotated and reversed orders, followed by each single omission
void complete()
{
    vector<int> o = { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10 };
    int rot = pick(11);
    std::rotate(o.begin(), o.begin() + rot, o.end());
    if (pick(2))
        std::reverse(o.begin(), o.end());
    int omit = pick(12);
    int swap = pick(10);
    std::swap(o[swap], o[swap + 1]);
    ref::Msg full = ref::mk(1 + pick(4), 5), part;
    full.big = pick(2);
    for (int f : o)
        full.fields.push_back(field(f, 0));
    full.body = { ref::num('u', 9) };
    part = full;
    part.serial = 6;
    part.body.clear();
    part.fields.clear();
    for (int f : o)
        if (f != omit && f != 10)
            part.fields.push_back(field(f, 1));
    deliver({ full, part, full }, true);
    seq::observe(to_string(full.type));
}
void numbers()
{
    ref::Msg m = ref::mk(1 + pick(4), 0);
    m.big = pick(2);
    uint32_t s = (1u << pick(32)) + pick(3) - 1;
    if (pick(2))
        s = ~s;
    uint32_t t = 0x80000000u >> (s & 31) ^ 0x7f;
    if (pick(2))
        std::swap(s, t);
    m.serial = s;
    m.fields = { { 3, ref::str("M") }, { 5, ref::num('u', t) } };
    deliver({ m }, true);
    seq::observe(to_string(m.type));
}
void flagsIn()
{
    ref::Msg m = ref::mk(1 + pick(4), 1 + pick(2));
    m.big = pick(2);
    m.flags = pick(256);
    if (pick(2))
        m.body = { ref::str("x") };
    deliver({ m, ref::mk(m.type, 3), m }, pick(2));
    seq::observe(to_string(m.type) + (m.flags & 1 ? " no reply" : " reply"));
}
// parameters of all kinds
const char* const VARFEW[] = { "s", "t", "a{yv}", "(sx)" };
void paramsIn()
{
    ref::Msg m = ref::mk(1 + pick(4), 7);
    m.big = pick(2);
    int n = pick(seq::thorough() ? 6 : 5);
    for (int i = 0; i < n; ++i)
        m.body.push_back(param(pick(NPARAM)));
    ref::Msg next = ref::mk(m.type, 8);
    next.body = { ref::str("next") };
    deliver({ m, next }, true);
    seq::observe(ref::sigsOf(m.body));
}
void treesIn()
{
    GenCfg c;
    c.variants = VARFEW;
    c.nvariants = 4;
    int n = seq::thorough() ? 5 : 4;
    ref::Msg m = ref::mk(1 + pick(4), 7);
    m.big = pick(2);
    string sig = genSig(c, n);
    m.body = { genVal(c, sig, 0), ref::num('q', 0x1234) };
    deliver({ m }, true);
    seq::observe(sig);
}
// error texts
void errors()
{
    ref::Msg m = ref::mk(3, 7);
    m.big = pick(2);
    m.fields = { { 4, ref::str("e.E") }, { 5, ref::num('u', 2) } };
    static const int N[] = { 0, 1, 2, 3, 4, 5, 7, 8, 9, 100, 255, 256, 70000 };
    switch (pick(7)) {
    case 0:
        break;
    case 1:
        m.body = { ref::str(text(N[pick(13)])) };
        break;
    case 2:
        m.body = { ref::str(text(N[pick(13)])), ref::num('u', 4) };
        break;
    case 3:
        m.body = { ref::str("first"), ref::str("second") };
        break;
    case 4:
        m.body = { ref::num('u', 5), ref::str("second") };
        break;
    case 5:
        m.body = { ref::str("%s%n%d"), ref::arr("s", {}) };
        break;
    case 6:
        m.body = { ref::str("\xff\x01 \n") };
        break;
    }
    ref::Msg bare = ref::mk(3, 9);
    deliver({ m, bare, m }, pick(2));
    seq::observe(ref::sigsOf(m.body));
}
// values of header strings: all lengths and bytes
void headerStrings()
{
    int f = pick(5);
    static const int CODE[] = { 1, 2, 3, 6, 7 };
    string s;
    if (pick(2)) {
        static const int N[] = { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 100, 255, 256, 1000, 70000 };
        s = text(N[pick(18)]);
    } else
        s = string(1, (char)(1 + pick(255))) + "x";
    ref::Msg m = ref::mk(1 + pick(4), 7);
    m.big = pick(2);
    m.fields = { { (uint8_t)CODE[f], ref::str(s, f ? 's' : 'o') } };
    m.body = { ref::num('t', 5) };
    deliver({ m }, true);
    seq::observe(to_string(f));
}
// what the library sends, it receives
void loop()
{
    int kind = 1 + pick(4);
    VV body;
    for (int i = pick(3); i > 0; --i)
        body.push_back(param(pick(NPARAM)));
    string dest = pick(2) ? "d.e" : "";
    M::MethodCallIdentifier id("/a/b", "i.f", "M");
    string bytes;
    uint32_t serial;
    if (kind == 1) {
        M::MethodCallParametersIn p;
        for (auto& v : body)
            p.add(build(v));
        M::MethodCall m(id, p, pick(4));
        serial = m.getSerial();
        bytes = m.marshall(dest);
    } else if (kind == 2) {
        M::MethodReturn m(88);
        for (auto& v : body)
            m.addParameter(build(v));
        serial = m.getSerial();
        bytes = m.marshall(dest);
    } else if (kind == 3) {
        M::Error m(99, "e.E", "text");
        body = { ref::str("text") };
        serial = m.getSerial();
        bytes = m.marshall(dest);
    } else {
        M::Signal m(id);
        for (auto& v : body)
            m.addParameter(build(v));
        serial = m.getSerial();
        bytes = m.marshall(dest);
    }
    Recorder r;
    SEQ_CHECK(r.feed(bytes) && r.got.size() == 1, "an own message is not received");
    ref::Msg m = ref::mk(kind, serial);
    if (kind == 1 || kind == 4)
        m.fields = { { 1, ref::str("/a/b", 'o') }, { 2, ref::str("i.f") }, { 3, ref::str("M") } };
    else
        m.fields = { { 5, ref::num('u', kind == 2 ? 88 : 99) } };
    if (dest.size())
        m.fields.push_back({ 6, ref::str(dest) });
    m.body = body;
    m.flags = bytes[2];
    SEQ_CHECK(r.got[0] == seen(m).str(), "an own message is received as " + r.got[0] + " instead of " + seen(m).str());
    seq::observe(to_string(kind));
}

seq::Reg a1("C06", "c06_names", names);
seq::Reg a2("C06", "c06_flags", flags);
seq::Reg a3("C06", "c06_params", params);
seq::Reg a4("C06", "c06_replies", replies);
seq::Reg a5("C06", "c06_longs", longs);
seq::Reg a6("C06", "c06_contents", contents);
seq::Reg a7("C06", "c06_reuse", reuse);
seq::Reg a8("C06", "c06_shorts", shorts);
seq::Reg b1("C07", "c07_orders", orders);
seq::Reg b2("C07", "c07_complete", complete);
seq::Reg b3("C07", "c07_numbers", numbers);
seq::Reg b4("C07", "c07_flags", flagsIn);
seq::Reg b5("C07", "c07_params", paramsIn);
seq::Reg b6("C07", "c07_trees", treesIn);
seq::Reg b7("C07", "c07_errors", errors);
seq::Reg b8("C07", "c07_header_strings", headerStrings);
seq::Reg b9("C07", "c07_loop", loop);
}
