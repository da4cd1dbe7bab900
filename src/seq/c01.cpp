// C01: values built through the API marshal to the bytes of the specification. C02: encoded values decode to themselves.
#include "bridge.h"
using namespace br;

namespace {
const char* const VAR4[] = { "s", "u", "o", "g" };
const char* const VARALL[] = { "s", "u", "y", "t", "d", "n", "v", "as", "(yt)", "a{sv}", "g", "o", "b", "at", "a(ys)", "i", "q", "x" };
const char* const VARFEW[] = { "s", "t", "a{yv}", "(sx)" };

void compareBytes(const string& got, const string& want, const VV& body)
{
    if (got == want)
        return;
    string d;
    for (auto& v : body)
        d += ref::show(v) + " ";
    fail("marshalled " + d + "to " + ref::hex(got) + " instead of " + ref::hex(want));
}

void marshalCheck(const VV& body)
{
    vector<G> v;
    for (auto& x : body)
        v.push_back(build(x));
    string sig = T::getMarshallingSignature(v);
    if (seq::verbose())
        for (auto& x : body)
            seq::note(ref::show(x));
    SEQ_CHECK(sig == ref::sigsOf(body), "values report the signature '" + sig + "' instead of '" + ref::sigsOf(body) + "'");
    compareBytes(marshalAll(v), ref::encBody(body, false), body);
    for (size_t i = 0; i < v.size(); ++i) {
        string d = differs(body[i], v[i]);
        if (!d.empty())
            fail(d + " before marshalling");
    }
}

// every constructible type tree at every offset, with a value behind it
void trees(int size, int fillMax, int extra)
{
    GenCfg c;
    c.variants = VAR4;
    c.nvariants = 4;
    c.build = true;
    int n = size;
    string sig = genSig(c, n);
    V v = genVal(c, sig, 0);
    if (!buildable(v))
        throw seq::Skip();
    int off = pick(fillMax + 1);
    VV body;
    for (int i = 0; i < off; ++i)
        body.push_back(ref::num('y', 0x11 * (i + 1)));
    body.push_back(v);
    static const char tails[] = "tysvn";
    char t = tails[pick(extra)];
    body.push_back(t == 'v' ? ref::var(ref::str("z")) : leaf(t, 0));
    marshalCheck(body);
    seq::observe(sig);
}

// sequences of basic values (boundary values) inside and outside containers
void sequences(int n)
{
    static const char L[] = "ybnqiuxtdsogv";
    VV k;
    for (int i = 0; i < n; ++i) {
        char t = L[pick(13)];
        k.push_back(t == 'v' ? ref::var(leaf(VAR4[pick(4)][0], 0)) : leaf(t, pick(3)));
    }
    int wrap = pick(3);
    VV body;
    if (wrap == 0)
        body = k;
    else {
        body.push_back(ref::num('y', 1));
        V s = ref::strct(k);
        if (wrap == 1)
            body.push_back(s);
        else
            body.push_back(ref::arr(ref::sigOf(s), { s, s }));
    }
    marshalCheck(body);
    seq::observe(ref::sigsOf(body));
}

// every value of the small types, powers and neighbours for the large ones
void numbers()
{
    static const char L[] = "ybnqiuxtd";
    char t = L[pick(9)];
    uint64_t u = 0;
    if (t == 'y')
        u = pick(256);
    else if (t == 'b')
        u = pick(2);
    else if (t == 'n' || t == 'q')
        u = (uint64_t)pick(256) << 8 | pick(256);
    else {
        int bits = t == 'i' || t == 'u' ? 32 : 64;
        u = ((uint64_t)1 << pick(bits)) + pick(3) - 1;
        if (pick(2))
            u = ~u;
        if (bits == 32)
            u &= 0xffffffff;
    }
    VV body { ref::num('y', 1), ref::num(t, u) };
    marshalCheck(body);
    seq::observe(string(1, t));
}

// long strings and arrays
void lengths()
{
    int kind = pick(6);
    static const int N[] = { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 63, 64, 127, 128, 200, 253, 254, 255, 256, 257, 511, 512, 1023, 1024, 1025, 4095, 4096, 65535, 65536, 65537 };
    int n = N[pick(kind == 2 ? 23 : 35)];
    VV body { ref::num('y', 1) };
    string s;
    for (int i = 0; i < n; ++i)
        s += 'a' + i % 26;
    VV k;
    switch (kind) {
    case 0:
        body.push_back(ref::str(s));
        break;
    case 1:
        body.push_back(ref::str("/" + s, 'o'));
        break;
    case 2:
        body.push_back(ref::str(string(n, 'i'), 'g'));
        body.push_back(ref::var(ref::str(string(n, 'y'), 'g')));
        break;
    case 3:
        for (int i = 0; i < n; ++i)
            k.push_back(ref::num('y', i & 255));
        body.push_back(ref::arr("y", k));
        break;
    case 4:
        for (int i = 0; i < std::min(n, 5000); ++i)
            k.push_back(ref::num('t', i));
        body.push_back(ref::arr("t", k));
        break;
    case 5:
        for (int i = 0; i < std::min(n, 3000); ++i)
            k.push_back(ref::dict(ref::str(s.substr(0, i % 7)), ref::var(ref::num('u', i))));
        body.push_back(ref::arr("{sv}", k));
        break;
    }
    body.push_back(ref::num('t', 5));
    marshalCheck(body);
    seq::observe(to_string(kind) + ":" + to_string(n));
}

// values copied, re-added and marshalled more than once stay the same
void reuse()
{
    GenCfg c;
    c.leaves = "yusvg";
    c.variants = VAR4;
    c.nvariants = 4;
    c.values = 1;
    c.build = true;
    int n = seq::thorough() ? 4 : 3;
    string sig = genSig(c, n);
    V v = genVal(c, sig, 0);
    if (!buildable(v))
        throw seq::Skip();
    G g = build(v), h = g;
    DBus::Message::MethodCallParametersIn p;
    p.add(g);
    p.add(h);
    p.add(G(g));
    DBus::Message::MethodCall m(DBus::Message::MethodCallIdentifier("/o", "i.f", "M"), p);
    DBus::Message::MethodCall m2(m);
    string w1 = m.marshall("d"), w2 = m2.marshall("d"), w3 = m.marshall("d");
    SEQ_CHECK(w1 == w2 && w1 == w3, "marshalling the same message again yields other bytes");
    ref::Msg r;
    try {
        r = ref::parse(w1);
    } catch (const ref::Bad& b) {
        fail(string("marshalled message is malformed: ") + b.why + " " + ref::hex(w1));
    }
    compareBytes(r.rawBody, ref::encBody({ v, v, v }, false), { v, v, v });
    SEQ_CHECK(r.bodySig == sig + sig + sig, "the message announces the signature '" + r.bodySig + "'");
    seq::observe(sig);
}

// ---- C02 ----
void decodeCheck(const VV& body, bool big)
{
    ref::Msg m = ref::signalMsg(7, "/o", "i.f", "S", body, big);
    string wire = ref::encMsg(m);
    if (seq::verbose()) {
        for (auto& x : body)
            seq::note(ref::show(x));
        seq::note(string(big ? "big" : "little") + " endian " + ref::hex(wire));
    }
    Proto p;
    int got = 0;
    p.p.setSignalHandler([&](const DBus::Message::Signal& s) {
        ++got;
        if (s.getParameterCount() != body.size())
            return void(got += 100 * (1 + s.getParameterCount()));
        vector<G> v;
        for (size_t i = 0; i < body.size(); ++i) {
            v.push_back(s.getParameter(i));
            string d = differs(body[i], v.back(), "parameter " + to_string(i));
            if (!d.empty())
                got = -1, seq::note(d);
        }
        if (T::getMarshallingSignature(v) != ref::sigsOf(body))
            got = -2;
        if (marshalAll(v) != ref::encBody(body, false)) {
            seq::note("marshals again to " + ref::hex(marshalAll(v)));
            got = -3;
        }
        // and as part of another message
        DBus::Message::MethodReturn r(1);
        for (auto& x : v)
            r.addParameter(x);
        try {
            ref::Msg o = ref::parse(r.marshall("d"));
            if (o.rawBody != ref::encBody(body, false) || o.bodySig != ref::sigsOf(body))
                got = -4;
        } catch (const ref::Bad&) {
            got = -5;
        }
    });
    p.feed(wire);
    if (got == 1)
        return;
    string d;
    for (auto& v : body)
        d += ref::show(v) + " ";
    fail(string(big ? "big" : "little") + "-endian " + d + (got == 0 ? "was not delivered" : got == -1 ? "decoded to another value" : got == -2 ? "decoded to another type" : got == -3 || got == -4 || got == -5 ? "marshals again to other bytes" : "was delivered with another number of parameters"));
}

VV prefixed(int off, const V& v, int tail)
{
    VV body;
    for (int i = 0; i < off; ++i)
        body.push_back(ref::num('y', 0x11 * (i + 1)));
    body.push_back(v);
    if (tail == 1)
        body.push_back(ref::num('t', 0x1122334455667788ull));
    else if (tail == 2)
        body.push_back(ref::str("z"));
    else if (tail == 3)
        body.push_back(ref::var(ref::num('n', 5)));
    return body;
}

void decTrees(int size, const GenCfg& c, int maxOff, int tails)
{
    int n = size;
    string sig = genSig(c, n);
    V v = genVal(c, sig, 0);
    int off = pick(maxOff + 1);
    int tail = pick(tails);
    bool big = pick(2);
    decodeCheck(prefixed(off, v, tail), big);
    seq::observe(sig);
}
void decWide()
{
    GenCfg c;
    c.variants = VARALL;
    c.nvariants = 18;
    decTrees(seq::thorough() ? 3 : 2, c, 8, 4);
}
void decDeep()
{
    GenCfg c;
    c.leaves = seq::thorough() ? "ytsvd" : "ytv";
    c.variants = VARFEW;
    c.nvariants = seq::thorough() ? 4 : 2;
    c.values = 1;
    c.elems = 2;
    c.fields = 3;
    decTrees(seq::thorough() ? 4 : 3, c, 1, 2);
}
void decDeeper()
{
    GenCfg c;
    c.leaves = "yt";
    c.values = 1;
    c.elems = 1;
    c.fields = 2;
    decTrees(seq::thorough() ? 7 : 5, c, 1, 2);
}
// neighbours: every pair (triple) of basic types with boundary values, both byte orders
void decSeq(int n)
{
    static const char L[] = "ybnqiuxtdsogv";
    VV k;
    for (int i = 0; i < n; ++i) {
        char t = L[pick(13)];
        k.push_back(t == 'v' ? ref::var(leaf(VARALL[pick(4)][0], 0)) : leaf(t, pick(n > 2 ? 2 : 3)));
    }
    int wrap = pick(4);
    VV body;
    V s = ref::strct(k);
    if (wrap == 0)
        body = k;
    else if (wrap == 1)
        body = { s, ref::num('y', 1) };
    else if (wrap == 2)
        body = { ref::num('y', 1), ref::arr(ref::sigOf(s), { s, s }) };
    else
        body = { ref::num('y', 1), ref::var(s), ref::num('q', 3) };
    decodeCheck(body, pick(2));
    seq::observe(ref::sigsOf(body));
}
void decNumbers()
{
    static const char L[] = "ybnqiuxtd";
    char t = L[pick(9)];
    uint64_t u = 0;
    if (t == 'y')
        u = pick(256);
    else if (t == 'b')
        u = pick(2);
    else if (t == 'n' || t == 'q')
        u = (uint64_t)(pick(32) * 8 + 3) << 8 | pick(256);
    else {
        int bits = t == 'i' || t == 'u' ? 32 : 64;
        u = ((uint64_t)1 << pick(bits)) + pick(3) - 1;
        if (pick(2))
            u = ~u;
        if (bits == 32)
            u &= 0xffffffff;
    }
    decodeCheck({ ref::num('y', 1), ref::num(t, u), ref::arr(string(1, t), { ref::num(t, u) }) }, pick(2));
    seq::observe(string(1, t));
}
void decLengths()
{
    int kind = pick(7);
    static const int N[] = { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 200, 253, 254, 255, 256, 257, 511, 512, 1023, 1024, 1025, 4095, 4096, 65535, 65536, 65537 };
    int n = N[pick(kind == 2 ? 25 : 37)];
    VV body { ref::num('y', 1) };
    string s;
    for (int i = 0; i < n; ++i)
        s += kind == 6 ? (char)i : (char)('a' + i % 26); // any byte, also NUL and beyond ASCII
    VV k;
    switch (kind) {
    case 0:
    case 6:
        body.push_back(ref::str(s));
        break;
    case 1:
        body.push_back(ref::str("/" + s, 'o'));
        break;
    case 2:
        body.push_back(ref::str(string(n, 'i'), 'g'));
        break;
    case 3:
        for (int i = 0; i < n; ++i)
            k.push_back(ref::num('y', i & 255));
        body.push_back(ref::arr("y", k));
        break;
    case 4:
        for (int i = 0; i < std::min(n, 5000); ++i)
            k.push_back(ref::num('t', i));
        body.push_back(ref::arr("t", k));
        break;
    case 5:
        for (int i = 0; i < std::min(n, 3000); ++i)
            k.push_back(ref::dict(ref::str(s.substr(0, i % 7)), ref::var(i & 1 ? ref::num('u', i) : ref::num('t', i))));
        body.push_back(ref::arr("{sv}", k));
        break;
    }
    if (kind == 6)
        for (char& ch : body.back().s)
            if (!ch)
                ch = 1; // strings carry no NUL
    body.push_back(ref::num('t', 5));
    decodeCheck(body, pick(2));
    seq::observe(to_string(kind) + ":" + to_string(n));
}
// containers nested to the depth the specification permits: 32 arrays inside 32 structs, variants to 64
void decNested()
{
    int kind = pick(5);
    int depth = 1 + pick(kind == 0 || kind == 1 ? 31 : kind == 2 ? 62 : 30);
    bool empty = pick(2);
    V v = ref::num('q', 0x0102);
    for (int i = 0; i < depth; ++i)
        switch (kind) {
        case 0: {
            string es = ref::sigOf(v);
            v = ref::arr(es, i == 0 && empty ? VV() : VV { v });
            break;
        }
        case 1:
            v = ref::strct({ v });
            break;
        case 2:
            v = ref::var(v);
            break;
        case 3:
            v = ref::strct({ ref::num('y', i) , ref::arr(ref::sigOf(v), { v }) });
            break;
        case 4:
            v = ref::arr("{yv}", { ref::dict(ref::num('y', i), ref::var(v)) });
            break;
        }
    if (kind == 4 && depth > 20)
        throw seq::Skip();
    if (kind == 3 && ref::sigOf(v).size() > 250)
        throw seq::Skip();
    decodeCheck({ ref::num('y', 1), v, ref::num('t', 9) }, pick(2));
    seq::observe(to_string(kind) + ":" + to_string(depth));
}

seq::Reg a1("C01", "c01_wide", [] { trees(seq::thorough() ? 5 : 4, 8, seq::thorough() ? 5 : 2); });
// default constructed values, and booleans made of other numbers than 0 and 1, alone and in containers
void defaults()
{
    static const char L[] = "ybnqiuxtdsgB";
    char t = L[pick(12)];
    bool odd = t == 'B';
    uint32_t n = 0;
    G g;
    if (odd) {
        n = truth();
        t = 'b';
        g = T::Boolean(n);
    } else
        g = defaultOf(t);
    V want = t == 's' || t == 'g' ? ref::str("") : ref::num(t, n ? 1 : 0);
    want.t = t;
    int wrap = pick(4);
    vector<G> v;
    VV body;
    v.push_back(build(ref::num('y', 1)));
    body.push_back(ref::num('y', 1));
    if (wrap == 0) {
        v.push_back(g);
        body.push_back(want);
    } else if (wrap == 1) {
        T::Struct s;
        addTo(s, g, t);
        addTo(s, g, t);
        v.push_back(s);
        body.push_back(ref::strct({ want, want }));
    } else if (wrap == 2) {
        T::Array a;
        addTo(a, g, t);
        addTo(a, g, t);
        v.push_back(a);
        body.push_back(ref::arr(string(1, t), { want, want }));
    } else {
        T::Struct s; // used again after clear()
        s.add(T::String("before"));
        s.clear();
        addTo(s, g, t);
        v.push_back(s);
        body.push_back(ref::strct({ want }));
    }
    string sig = T::getMarshallingSignature(v);
    SEQ_CHECK(sig == ref::sigsOf(body), "values report the signature '" + sig + "' instead of '" + ref::sigsOf(body) + "'");
    compareBytes(marshalAll(v), ref::encBody(body, false), body);
    seq::observe(string(1, t));
}
seq::Reg a8("C01", "c01_defaults", defaults);
seq::Reg a3("C01", "c01_seq2", [] { sequences(2); });
seq::Reg a4("C01", "c01_seq3", [] { sequences(seq::thorough() ? 4 : 3); });
seq::Reg a5("C01", "c01_numbers", numbers);
seq::Reg a6("C01", "c01_lengths", lengths);
seq::Reg a7("C01", "c01_reuse", reuse);
seq::Reg b1("C02", "c02_wide", decWide);
seq::Reg b2("C02", "c02_deep", decDeep);
seq::Reg b3("C02", "c02_deeper", decDeeper);
seq::Reg b4("C02", "c02_seq", [] { decSeq(seq::thorough() ? 3 : 2); });
seq::Reg b5("C02", "c02_numbers", decNumbers);
seq::Reg b6("C02", "c02_lengths", decLengths);
seq::Reg b7("C02", "c02_nested", decNested);
}
