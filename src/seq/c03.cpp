// C03: hostile bytes. Runs under the address sanitizer; input always lies in exactly sized heap blocks.
#include "bridge.h"
using namespace br;

namespace {
struct Sink {
    Proto p;
    vector<uint32_t> got; // serials delivered
    size_t params = 0;
    Sink()
    {
        auto on = [this](const DBus::Message::Base& m) {
            got.push_back(m.getSerial());
            // everything a handler may look at
            for (size_t i = 0; i < m.getParameterCount(); ++i) {
                T::asString(m.getParameter(i));
                params += T::getMarshallingSignature(m.getParameter(i)).size();
            }
            m.getHeaderPath(), m.getHeaderInterface(), m.getHeaderMember(), m.getHeaderSender(), m.getHeaderDestination();
        };
        p.p.setSignalHandler([on](const DBus::Message::Signal& m) { on(m); });
        p.p.setMethodCallHandler([on](const DBus::Message::MethodCall& m) { on(m); });
        p.p.setMethodReturnHandler([on](const DBus::Message::MethodReturn& m) { on(m); });
        p.p.setErrorHandler([on](const DBus::Message::Error& m) { on(m); m.getMessage(); });
    }
    // false when the connection would be reset
    bool feed(const string& s)
    {
        try {
            p.feed(s);
            return true;
        } catch (const std::exception&) {
            p.p.reset();
            return false;
        }
    }
};

// What a reader that trusts nothing makes of the first message of s.
// may: delivery is acceptable. 0: must not be delivered
bool mayDeliver(const string& s)
{
    if (s.size() < 16)
        return false;
    size_t n = 0;
    try {
        n = ref::msgSize(s);
    } catch (const ref::Bad&) {
        return false;
    }
    if (n > s.size())
        return false;
    try {
        ref::parse(s.substr(0, n));
    } catch (const ref::Bad& b) {
        return strcmp(b.why, "short") != 0;
    }
    return true;
}

// one suspicious message, then a good one in a new connection state
void judge(const string& s, const string& what)
{
    seq::input(s.size());
    if (seq::verbose())
        seq::note(what + ": " + ref::hex(s));
    bool may = s.size() >= 16 && (s[0] == 'l' || s[0] == 'B') ? mayDeliver(s) : true;
    if (!may) {
        // the first message alone: what follows it may be a message again
        Sink first;
        size_t n = s.size();
        try {
            if (s.size() >= 16)
                n = std::min(n, ref::msgSize(s));
        } catch (const ref::Bad&) {
        }
        first.feed(s.substr(0, n));
        if (!first.got.empty())
            fail(what + ": a message that is shorter than it announces was delivered: " + ref::hex(s));
    }
    Sink k;
    seq::watchMemory(4 << 20, 6000);
    k.feed(s);
    seq::observe(what.substr(0, 40) + (k.got.empty() ? " dropped" : " delivered") + to_string(k.params));
}

string rawMsg(const string& sig, const string& body, bool big, int type = 4)
{
    ref::Msg m = ref::signalMsg(7, "/o", "i.f", "S", {}, big);
    m.type = type;
    m.fields.push_back({ 8, ref::str(sig, 'g') });
    return ref::encHeader(m, body.size()) + body;
}

string le(uint64_t v, int n)
{
    string r;
    for (int i = 0; i < n; ++i)
        r.push_back((char)(v >> (8 * i)));
    return r;
}

string body(int k)
{
    switch (k) {
    case 0:
        return "";
    case 1:
        return string(1, 0);
    case 2:
        return string(64, 0);
    case 3:
        return string(64, (char)0xff);
    case 4:
        return le(4, 4) + le(1, 4) + le(1, 4) + le(0, 8) + le(1, 4) + string("y\0\1\1s\0\0\0", 8) + string(16, 1);
    case 5: { // small lengths everywhere
        string r;
        for (int i = 0; i < 16; ++i)
            r += le(i % 3 + 1, 4);
        return r;
    }
    case 6: { // signatures everywhere: 01 'v' 00 ...
        string r;
        for (int i = 0; i < 20; ++i)
            r += string("\1v\0", 3);
        return r;
    }
    case 7: {
        string r;
        for (int i = 0; i < 20; ++i)
            r += string("\2a(\0", 4);
        return r;
    }
    case 8:
        return le(0x04000000, 4) + string(60, 0);
    default:
        return le(0x7fffffff, 4) + le(0xfffffff0, 4) + string(56, 0x41);
    }
}

const char HOSTILE[] = "yuasgv(){}tz";
string hostileSig(int maxLen, bool more)
{
    string r;
    int n = pick(maxLen + 1);
    const char* A = more ? "yuasgv(){}tzbnqiuxdoh\x01\xff" : HOSTILE;
    int na = strlen(A);
    for (int i = 0; i < n; ++i) {
        int k = pick(na + 1);
        r += k == na ? '\0' : A[k];
    }
    return r;
}
// hostile signature of the body
void bodySig()
{
    string sig = hostileSig(seq::thorough() ? 5 : 4, false);
    string b = body(pick(10));
    judge(rawMsg(sig, b, pick(2)), "body signature");
}
void bodySigAll()
{
    string sig = hostileSig(seq::thorough() ? 3 : 2, true);
    judge(rawMsg(sig, body(pick(10)), pick(2), 1 + pick(5)), "body signature");
}
// hostile signature of a variant in the body, in an array, in a header field
void variantSig()
{
    string sig = hostileSig(seq::thorough() ? 4 : 3, false);
    bool big = false;
    string v = string(1, (char)sig.size()) + sig + string(1, 0) + body(pick(10));
    switch (pick(4)) {
    case 0:
        judge(rawMsg("v", v, big), "variant signature");
        break;
    case 1:
        judge(rawMsg("av", le(v.size(), 4) + v, big), "variant signature in an array");
        break;
    case 2:
        judge(rawMsg("(yv)", string(1, 1) + v, big), "variant signature in a structure");
        break;
    case 3: { // as header field 3, unknown field 200
        string f = string(1, pick(2) ? 3 : (char)200) + v;
        while (f.size() % 8)
            f.push_back(0);
        string h = string("l\4\0\1", 4) + le(0, 4) + le(9, 4) + le(f.size(), 4) + f;
        judge(h, "variant signature in the header");
        break;
    }
    }
}

vector<ref::Msg> samples()
{
    using namespace ref;
    vector<Msg> r;
    r.push_back(signalMsg(7, "/o", "i.f", "S", { str("abc"), num('u', 5) }));
    r.push_back(callMsg(8, "/o/p", "i.f", "M", { arr("s", { str("a"), str("bc") }), num('y', 1), dbl(2.5) }));
    r.push_back(returnMsg(9, 3, { var(arr("{sv}", { dict(str("k"), var(num('t', 1))) })), num('q', 7) }, true));
    r.push_back(errorMsg(10, 4, "e.x.E", { str("text") }));
    r.push_back(signalMsg(11, "/o", "i.f", "S", { arr("(yv)", { strct({ num('y', 1), var(str("g", 'g')) }), strct({ num('y', 2), var(strct({ num('x', 1), num('n', 2) })) }) }), str("/p", 'o') }, true));
    r.push_back(signalMsg(12, "/o", "i.f", "S", { arr("ay", { arr("y", { num('y', 1) }), arr("y", {}) }), arr("t", { num('t', 1) }), num('b', 1) }));
    r.push_back(callMsg(13, "/", "", "M"));
    r.push_back(signalMsg(14, "/o", "i.f", "S", { strct({ strct({ num('y', 1), str("s") }), num('i', 1) }), str("a{sv}", 'g') }));
    return r;
}
// a body that ends early, with the announced length adapted or not; a header that ends early
void truncated()
{
    auto all = samples();
    ref::Msg m = all[pick(all.size())];
    string b = ref::encBody(m.body, m.big);
    if (m.body.size())
        m.fields.push_back({ 8, ref::str(ref::sigsOf(m.body), 'g') });
    string h = ref::encHeader(m, b.size());
    switch (pick(3)) {
    case 0: { // body cut, length adapted
        size_t n = pick(b.size() + 1);
        string w = ref::encHeader(m, n) + b.substr(0, n);
        if (n == b.size())
            throw seq::Skip();
        judge(w, "truncated body");
        break;
    }
    case 1: // stream cut
        judge((h + b).substr(0, pick(h.size() + b.size())), "cut stream");
        break;
    case 2: { // header array shortened, rest unchanged
        uint32_t n = pick(h.size() - 16);
        string l = m.big ? string() + (char)(n >> 24) + (char)(n >> 16) + (char)(n >> 8) + (char)n : le(n, 4);
        judge(h.substr(0, 12) + l + h.substr(16) + b, "short header array");
        break;
    }
    }
}
// every byte replaced
void mutated()
{
    auto all = samples();
    ref::Msg m = all[pick(all.size())];
    string w = ref::encMsg(m);
    size_t i = pick(w.size());
    int v;
    static const int FEW[] = { 0, 1, 2, 3, 4, 7, 8, 9, 0x10, 0x20, 0x3f, 0x40, 0x41, 0x61, 0x67, 0x73, 0x76, 0x28, 0x29, 0x7b, 0x7d, 0x7f, 0x80, 0x81, 0xfe, 0xff };
    v = pick(256);
    if ((uint8_t)w[i] == v)
        throw seq::Skip();
    w[i] = v;
    judge(w + string(pick(2) * 300, 0), "mutated byte");
    (void)FEW;
}
// two bytes replaced by interesting ones
void mutated2()
{
    auto all = samples();
    ref::Msg m = all[pick(all.size())];
    string w = ref::encMsg(m);
    static const int FEW[] = { 0, 1, 4, 8, 0x61, 0x76, 0x28, 0x7b, 0x80, 0xff };
    int nf = seq::thorough() ? 10 : 4;
    size_t i = pick(w.size() - 1);
    size_t gap = 1 + pick(seq::thorough() ? w.size() - 1 - i : std::min<size_t>(w.size() - 1 - i, 12));
    w[i] = FEW[pick(nf)];
    w[i + gap] = FEW[pick(nf)];
    judge(w, "two mutated bytes");
}
// a byte inserted or removed
void shifted()
{
    auto all = samples();
    ref::Msg m = all[pick(all.size())];
    string w = ref::encMsg(m);
    size_t i = pick(w.size());
    if (pick(2))
        w.erase(i, 1 + pick(8));
    else
        w.insert(i, 1 + pick(8), (char)(pick(2) ? 0 : 0x61));
    judge(w, "shifted bytes");
}
// every 4-byte word replaced by boundary lengths
void lengthWords()
{
    auto all = samples();
    ref::Msg m = all[pick(all.size())];
    string w = ref::encMsg(m);
    static const uint32_t L[] = { 0, 1, 2, 3, 5, 7, 8, 9, 15, 16, 17, 255, 256, 65535, 65536, 0x3fffffe, 0x3ffffff, 0x4000000, 0x4000001, 0x7ffffff, 0x8000000, 0x8000001, 0x7fffffff, 0x80000000, 0xfffffff0, 0xfffffff7, 0xfffffff8, 0xfffffffc, 0xffffffff };
    auto put = [&](size_t at, uint32_t v) {
        for (int k = 0; k < 4; ++k)
            w[at + k] = (char)(v >> (8 * (m.big ? 3 - k : k)));
    };
    size_t i = pick(w.size() / 4);
    put(i * 4, L[pick(29)]);
    if (pick(2)) {
        size_t j = seq::thorough() ? pick(w.size() / 4) : 1 + 2 * pick(2); // body length, header array length
        put(j * 4, L[pick(29)]);
    }
    judge(w + string(64, 0), "length word");
}
// depth of nesting
void nesting()
{
    int kind = pick(8);
    static const int D[] = { 1, 2, 10, 31, 32, 33, 60, 61, 62, 63, 64, 65, 66, 100, 120, 124, 125, 126, 127, 128, 129, 130, 200, 250, 253, 254, 255, 1000, 5000, 20000, 100000 };
    int d = D[pick(kind == 2 || kind == 4 || kind == 7 ? 31 : 27)];
    string sig, b;
    switch (kind) {
    case 0: // arrays
        sig = string(d - 1, 'a') + "y";
        for (int i = 0; i < d; ++i)
            b += le(i + 1 < d ? 4 * (d - 1 - i) : 0, 4);
        break;
    case 1: // structures
        if (d > 126)
            d = 126;
        sig = string(d, '(') + "y" + string(d, ')');
        b = "\1";
        break;
    case 2: // variants
        sig = "v";
        for (int i = 0; i < d; ++i)
            b += string("\1v\0", 3);
        b += string("\1y\0\5", 4);
        break;
    case 3: // unclosed
        sig = string(d, '(');
        b = string(64, 0);
        break;
    case 4: // variants holding arrays of variants
        sig = "v";
        if (d > 5000)
            d = 5000;
        for (int i = 0; i < d; ++i) {
            b += string("\2av\0", 4);
            while (b.size() % 4)
                b.push_back(0);
            b += le(0x100000, 4);
        }
        break;
    case 5: // dicts
        d = std::min(d, 60);
        for (int i = 0; i < d; ++i)
            sig += "a{y";
        sig += "y";
        sig += string(d, '}');
        b = string(600, 1);
        break;
    case 6:
        sig = string(d, 'a') + string(1, "({)}a\0"[pick(6)]);
        b = string(1024, 0);
        break;
    case 7: { // variants in a header field
        string f = string("\3", 1);
        for (int i = 0; i < d; ++i)
            f += string("\1v\0", 3);
        f += string("\1y\0\5", 4);
        while (f.size() % 8)
            f.push_back(0);
        judge(string("l\4\0\1", 4) + le(0, 4) + le(9, 4) + le(f.size(), 4) + f, "nesting in the header");
        return;
    }
    }
    judge(rawMsg(sig, b, false), "nesting kind " + to_string(kind));
}
// wrong types of header fields, duplicates, missing ones
void fieldTypes()
{
    using namespace ref;
    Msg m = mk(1 + pick(4), 5);
    m.big = pick(2);
    static const V KINDS[] = { str("/a", 'o'), str("a.b"), num('u', 7), str("s", 'g'), num('y', 3), num('t', ~0ull), dbl(1.5), num('b', 1), arr("s", { str("x") }), strct({ num('y', 1), num('u', 2) }), var(str("x")), str("4294967296"), str("x1"), num('x', (uint64_t)-5), num('n', 0x8000), arr("{sv}", {}), str("-1"), str("") };
    int n = 1 + pick(seq::thorough() ? 3 : 2);
    for (int i = 0; i < n; ++i)
        m.fields.push_back({ (uint8_t)(i == 2 ? 8 : pick(11)), KINDS[pick(18)] });
    string b = pick(2) ? string(8, 1) : "";
    string w = encHeader(m, b.size()) + b;
    judge(w, "field types");
}
// large inputs: memory and time stay proportional
void bulk()
{
    seq::split(27);
    int kind = pick(9);
    size_t n = seq::thorough() ? 1 << 18 : 1 << 17;
    string sig, b;
    switch (kind) {
    case 0:
        sig = "ay";
        b = le(n, 4) + string(n, 7);
        break;
    case 1:
        sig = "av";
        b = le(n, 4);
        while (b.size() < n + 4)
            b += string("\1y\0\1", 4);
        break;
    case 2:
        sig = "aas";
        b = le(n, 4) + string(n, 0);
        break;
    case 3:
        sig = "a(y)";
        b = le(n, 4) + le(0, 4) + string(n, 0);
        break;
    case 4:
        sig = "a{ys}";
        b = le(n, 4) + le(0, 4);
        while (b.size() < n + 8)
            b += string("\1\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0", 16);
        break;
    case 5:
        sig = string(200, 'y');
        b = string(200, 3);
        break;
    case 6: // a long signature for every element
        sig = "a" + string(120, 'a') + "y";
        b = le(n, 4) + string(n, 0);
        break;
    case 7:
        sig = "as";
        b = le(n, 4);
        while (b.size() < n + 4)
            b += le(3, 4) + string("abc\0", 4);
        break;
    case 8: { // a string of almost all
        sig = "s";
        b = le(n, 4) + string(n, 'x') + string(1, 0);
        break;
    }
    }
    int cut = pick(3);
    if (cut == 1)
        b.resize(b.size() - 1);
    string w = rawMsg(sig, b, false);
    if (cut == 2) { // in many chunks
        seq::input(w.size());
        Sink k;
        seq::watchMemory(4 << 20, 6000);
        for (size_t i = 0; i < w.size(); i += 1024)
            k.feed(w.substr(i, 1024));
        seq::observe("bulk in chunks " + to_string(kind) + (k.got.empty() ? " dropped" : " delivered"));
        return;
    }
    judge(w, "bulk " + to_string(kind));
}
// sizes at which anything worse than proportional time exceeds the time limit of a case (10 s of processor time)
void scaling()
{
    const size_t MI = 1 << 20;
    seq::split(52);
    int kind = pick(13), piece = pick(4);
    size_t n = 1 * MI;
    string w, sig, b;
    auto array = [&](const string& s, size_t al, const string& element) {
        sig = "a" + s;
        string e;
        while (e.size() < n)
            e += element;
        b = le(e.size(), 4) + string(al > 4 ? 4 : 0, 0) + e;
    };
    switch (kind) {
    case 0: // one long string
        n = 32 * MI;
        sig = "s";
        b = le(n, 4) + string(n, 'x') + string(1, 0);
        break;
    case 1: { // a long header
        n = 16 * MI;
        ref::Msg m = ref::signalMsg(7, "/o", "i.f", "S", {});
        m.fields.push_back({ 200, ref::str(string(n, 'h')) });
        w = ref::encMsg(m);
        break;
    }
    case 2: // many small messages
        n = MI / 2;
        while (w.size() < n)
            w += rawMsg("s", le(1, 4) + string("x\0", 2), false);
        break;
    case 3: // many messages that cannot be decoded
        n = MI / 8;
        while (w.size() < n)
            w += rawMsg("s", le(100, 4) + string("x\0", 2), false);
        break;
    case 4: // many messages without a body
        n = MI / 2;
        while (w.size() < n)
            w += ref::encMsg(ref::callMsg(3, "/o", "i.f", "M", {}));
        break;
    case 5:
        array("y", 1, string(4096, 1));
        break;
    case 6:
        array("{sv}", 8, le(1, 4) + string("k\0\1y\0\5\0\0\0\0\0\0", 12));
        break;
    case 7:
        array("s", 4, le(1, 4) + string("k\0\0\0", 4));
        break;
    case 8:
        array("ay", 4, le(0, 4));
        break;
    case 9:
        array("v", 1, string("\1y\0\7", 4));
        break;
    case 10: // all levels of nesting, elements in the innermost
        n = MI / 4;
        b = string(n, 0);
        sig = "t";
        for (int i = 0; i < 30; ++i) {
            sig = "a" + sig;
            b = le(b.size(), 4) + (i ? string() : string(4, 0)) + b;
        }
        if (b.size() % 8)
            b = le(b.size() - 4, 4) + b.substr(4);
        break;
    case 11: { // many header fields
        n = MI / 4;
        string f;
        while (f.size() < n)
            f += string("\310\1y\0\3\0\0\0", 8);
        w = string("l\4\0\1", 4) + le(0, 4) + le(5, 4) + le(f.size(), 4) + f;
        break;
    }
    case 12:
        array("(yyyyyyyy)", 8, string(8, 2));
        break;
    }
    if (w.empty())
        w = rawMsg(sig, b, false);
    seq::input(w.size());
    size_t step = piece == 0 ? w.size() : piece == 1 ? 1024 : piece == 2 ? 65536 : 1;
    if (piece == 3 && n > MI) // a smaller one byte by byte
        w.resize(2 * MI);
    Sink k;
    seq::watchMemory(64 << 20, 6000);
    if (piece == 2)
        k.feed(w.substr(0, 10)); // everything goes through the cache
    for (size_t i = piece == 2 ? 10 : 0; i < w.size(); i += step)
        k.feed(w.substr(i, step));
    seq::observe("scaling " + to_string(kind) + " " + to_string(k.got.size()));
}
// all short strings of awkward bytes as the very first bytes
void prefixes()
{
    static const int B[] = { 'l', 'B', 0, 1, 4, 0x10, 0xff };
    string s;
    int n = 1 + pick(5);
    for (int i = 0; i < n; ++i)
        s.push_back((char)B[pick(7)]);
    static const int REST[] = { 0, 0xff, 1, 8 };
    int r = REST[pick(4)];
    s += string(pick(3) * 20, (char)r);
    judge(s, "prefix");
}

seq::Reg a1("C03", "c03_bodysig", bodySig);
seq::Reg a2("C03", "c03_bodysig_all", bodySigAll);
seq::Reg a3("C03", "c03_variantsig", variantSig);
seq::Reg a4("C03", "c03_truncated", truncated);
seq::Reg a5("C03", "c03_mutated", mutated);
seq::Reg a6("C03", "c03_mutated2", mutated2);
seq::Reg a7("C03", "c03_shifted", shifted);
seq::Reg a8("C03", "c03_lengths", lengthWords);
seq::Reg a9("C03", "c03_nesting", nesting);
seq::Reg b1("C03", "c03_fields", fieldTypes);
seq::Reg b2("C03", "c03_bulk", bulk);
seq::Reg b3("C03", "c03_prefixes", prefixes);
seq::Reg b4("C03", "c03_scaling", scaling);
}
