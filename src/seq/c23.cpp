// C23: values read back exactly: as text, as numbers, through references; whatever the locale of the process.
#include "msg.h"
#include <cmath>
#include <locale>
using namespace br;

namespace {
// failures are noticed within handlers, where the library catches exceptions
string wrong;
void bad(const string& m)
{
    if (wrong.empty())
        wrong = m;
}
void judged(const std::function<void()>& f)
{
    wrong.clear();
    f();
    if (!wrong.empty())
        fail(wrong);
}

struct Grouping : std::numpunct<char> {
    char do_decimal_point() const override { return ','; }
    char do_thousands_sep() const override { return '.'; }
    std::string do_grouping() const override { return "\3"; }
    std::string do_truename() const override { return "wahr"; }
    std::string do_falsename() const override { return "falsch"; }
};
struct InLocale {
    std::locale before;
    InLocale(bool grouping) { std::locale::global(grouping ? std::locale(std::locale::classic(), new Grouping) : std::locale::classic()); }
    ~InLocale() { std::locale::global(before); }
};

bool sameDouble(const string& text, uint64_t bits)
{
    double want = asDouble(bits);
    char* end = 0;
    double got = strtod(text.c_str(), &end); // the C locale stays as it is
    if (text.empty() || *end)
        return false;
    if (std::isnan(want))
        return std::isnan(got);
    return memcmp(&got, &want, 8) == 0;
}

// what is wrong with the way the value reads; empty when nothing is
string misread(const V& v, const G& g)
{
    string text = T::asString(g);
    switch (v.t) {
    case 'd':
        if (!sameDouble(text, v.u)) {
            char b[64];
            snprintf(b, sizeof b, "%.17g", asDouble(v.u));
            return string("the double ") + b + " reads as \"" + text + "\"";
        }
        return "";
    case 's':
    case 'o':
    case 'g':
        return text == v.s ? "" : "the text " + ref::show(v) + " reads as \"" + text + "\"";
    case 'v':
        return misread(v.k[0], g);
    }
    string d = decimal(v);
    if (text != d)
        return string("the '") + v.t + "' " + d + " reads as \"" + text + "\"";
    return "";
}
string misreadNumber(const V& v, const G& g)
{
    if (v.t == 'y' && T::asByte(g) != (uint8_t)v.u)
        return "asByte of " + decimal(v) + " is " + to_string(T::asByte(g));
    if ((v.t == 'u' || v.t == 'q' || v.t == 'y' || v.t == 'b') && T::asUint32(g) != (uint32_t)v.u)
        return "asUint32 of " + decimal(v) + " is " + to_string(T::asUint32(g));
    return "";
}

void readsWell(const V& v, const G& g, const char* how)
{
    string m = misread(v, g);
    if (m.empty())
        m = misreadNumber(v, g);
    if (!m.empty())
        bad(m + " (" + how + ")");
}

// built with the API, and received in both byte orders
void allForms(const VV& values, int form)
{
    if (form == 0) {
        for (auto& v : values)
            if (buildable(v))
                readsWell(v, build(v), "built");
        return;
    }
    bool big = form == 2;
    for (size_t p = 0; p < values.size(); p += 100) {
        VV part(values.begin() + p, values.begin() + std::min(values.size(), p + 100));
        size_t got = 0;
        Proto proto;
        proto.p.setSignalHandler([&](const DBus::Message::Signal& m) {
            got = m.getParameterCount();
            for (size_t i = 0; i < got && i < part.size(); ++i)
                readsWell(part[i], m.getParameter(i), big ? "received, big-endian" : "received, little-endian");
        });
        string bytes = ref::encMsg(ref::signalMsg(5, "/o", "i.f", "S", part, big));
        proto.feed(bytes);
        if (got != part.size())
            bad("a signal with " + to_string(part.size()) + " parameters was delivered with " + to_string(got));
    }
}

// every value of the small types
void small()
{
    static const char types[] = "ybnq";
    char t = types[pick(4)];
    int hi = t == 'y' || t == 'b' ? 0 : pick(256);
    int form = pick(3);
    InLocale l(pick(2));
    VV v;
    for (int lo = 0; lo < (t == 'b' ? 2 : 256); ++lo)
        v.push_back(ref::num(t, hi * 256 + lo));
    allForms(v, form);
    seq::observe(string(1, t) + to_string(hi));
}

void addAround(VV& v, char t, uint64_t x)
{
    uint64_t mask = t == 'i' || t == 'u' ? 0xffffffffull : ~0ull;
    for (int d = -2; d <= 2; ++d) {
        v.push_back(ref::num(t, (x + d) & mask));
        v.push_back(ref::num(t, (0 - x + d) & mask));
    }
}
// the wide integers: around every power of two and ten, digits of every length, and repeating patterns
void wide()
{
    static const char types[] = "iuxt";
    char t = types[pick(4)];
    int form = pick(3);
    InLocale l(pick(2));
    int part = pick(3);
    VV v;
    if (part == 0)
        for (int k = 0; k < 64; ++k)
            addAround(v, t, 1ull << k);
    else if (part == 1) {
        uint64_t p = 1;
        for (int k = 0; k < 20; ++k, p *= 10)
            for (int f = 1; f <= 9; ++f)
                addAround(v, t, p * f);
    } else
        for (int a = 0; a < 256; ++a)
            for (int b = 0; b < 16; ++b) {
                uint64_t x = a * 0x0101010101010101ull ^ (uint64_t)b << (a % 60);
                v.push_back(ref::num(t, t == 'i' || t == 'u' ? (x & 0xffffffffu) : x));
            }
    allForms(v, form);
    seq::observe(string(1, t) + to_string(part));
}

// every 32-bit value (thorough), or every 2^12th and its neighbours
void all32()
{
    int sign = pick(2);
    uint32_t block = pick(4096);
    const uint32_t step = seq::thorough() ? 1 : 1021;
    seq::mayTake(120);
    for (uint32_t k = 0; k < 1u << 20; k += step) {
        uint32_t x = block << 20 | k;
        char want[16];
        int n = 0;
        // decimal digits, independently of the library's way
        uint32_t a = sign && (int32_t)x < 0 ? 0u - x : x;
        char rev[12];
        do
            rev[n++] = '0' + a % 10;
        while (a /= 10);
        int p = 0;
        if (sign && (int32_t)x < 0)
            want[p++] = '-';
        while (n)
            want[p++] = rev[--n];
        want[p] = 0;
        G g;
        if (sign)
            g = T::Int32((int32_t)x);
        else
            g = T::Uint32(x);
        string s = T::asString(g);
        if (s != want)
            return bad(string(sign ? "the 'i' " : "the 'u' ") + want + " reads as \"" + s + "\"");
        if (!sign && (k & 15) == 0 && T::asUint32(g) != x)
            bad(string("asUint32 of ") + want + " is " + to_string(T::asUint32(g)));
    }
    seq::observe(to_string(block));
}

// doubles: every sign and exponent with patterns of the mantissa, and decimal fractions
void doubles()
{
    int form = pick(3);
    InLocale l(pick(2));
    int part = pick(seq::thorough() ? 65 : 17);
    VV v;
    if (part == 0) {
        for (int a = 1; a <= 40; ++a)
            for (int b = 1; b <= 40; ++b) {
                v.push_back(ref::dbl((double)a / b));
                v.push_back(ref::dbl(-(double)a * 1e9 / b));
            }
        for (int k = -30; k <= 30; ++k)
            for (int d = 1; d < 10; ++d)
                v.push_back(ref::dbl(d * std::pow(10.0, k)));
    } else {
        int step = seq::thorough() ? 64 : 16;
        static const uint64_t mant[] = { 0, 1, 2, 0xfffffffffffffull, 0xffffffffffffeull, 0x8000000000000ull, 0x5555555555555ull, 0x999999999999aull, 0x3333333333333ull, 0x123456789abcdull, 0x7ffffffffffffull, 0x0000000100000ull };
        for (int e = part - 1; e < 2048; e += step)
            for (uint64_t m : mant)
                for (uint64_t s = 0; s < 2; ++s) {
                    if (e == 2047 && m)
                        m = 0x8000000000000ull; // one quiet NaN
                    v.push_back(ref::num('d', s << 63 | (uint64_t)e << 52 | m));
                }
    }
    allForms(v, form);
    seq::observe(to_string(part));
}

// texts: bytes of every kind at every place
void texts()
{
    static const char types[] = "sog";
    static const char* const bits[] = { "a", "/", " ", "\"", "\n", "%s", "\\", "\xc3\xa9", "0", "\x01", "\xf0\x9f\x98\x80", ",", "'" };
    char t = types[pick(3)];
    int form = pick(3);
    string s;
    VV v;
    if (t == 's') {
        int n = pick(5);
        if (n < 4)
            for (int i = 0; i < n; ++i)
                s += bits[pick(13)];
        else
            s = string(pick(3) * 127 + pick(4), 'x') + bits[pick(13)];
        v.push_back(ref::str(s));
    } else if (t == 'o') {
        int n = pick(4);
        s = n ? "" : "/";
        for (int i = 0; i < n; ++i)
            s += pick(2) ? "/a_9" : "/Z";
        v.push_back(ref::str(s, 'o'));
    } else {
        static const char* const sigs[] = { "", "y", "a{sv}", "(ii)", "aay", "v", "gg", "a(sa{sv})" };
        int n = pick(3);
        for (int i = 0; i < n; ++i)
            s += sigs[pick(8)];
        v.push_back(ref::str(s, 'g'));
    }
    if (form == 0)
        readsWell(v[0], build(v[0]), "built");
    else
        allForms(v, form);
    seq::observe(s);
}

V basic(char t, int k)
{
    switch (t) {
    case '(':
        return ref::strct({ ref::num('i', k), ref::str("f") });
    case 'a':
        return ref::arr("u", { ref::num('u', k), ref::num('u', 1000000) });
    case '{':
        return ref::arr("{su}", { ref::dict(ref::str("k"), ref::num('u', k)) });
    case 'v':
        return ref::var(ref::num('q', k + 10000));
    default:
        return leaf(t, k);
    }
}
// variants read as their content, at any depth
void variants()
{
    static const char types[] = "ybnqiuxtdsog";
    char t = types[pick(12)];
    int k = pick(t == 'b' || t == 'd' ? 2 : 3);
    int depth = 1 + pick(4), form = pick(3);
    InLocale l(pick(2));
    V v = leaf(t, k);
    for (int i = 0; i < depth; ++i)
        v = ref::var(v);
    if (form == 0) {
        if (buildable(v))
            readsWell(v, build(v), "built");
    } else
        allForms({ v }, form);
    seq::observe(ref::show(v));
}

// references give the value of that type, and refuse others; members that are not there are refused
void references()
{
    static const char types[] = "ybnqiuxtdsogva(";
    char t = types[pick(15)];
    int form = pick(3);
    V v = basic(t, 1);
    auto check = [&](const G& g) {
        auto refuses = [&](const char* what, auto f) {
            try {
                f();
            } catch (const std::exception&) {
                return;
            }
            bad(string(what) + " of " + ref::show(v) + " does not throw");
        };
        if (t == 'a') {
            auto& a = T::refArray(g);
            if (a.size() != 2 || T::asUint32(a.getContents()[0]) != 1 || T::asUint32(a.getContents()[1]) != 1000000)
                bad("the array does not read as " + ref::show(v));
        } else
            refuses("refArray", [&] { T::refArray(g); });
        if (t == '(') {
            auto& s = T::refStruct(g);
            if (s.getEntries() != 2 || T::asString(s[0]) != "1" || T::asString(s[1]) != "f")
                bad("the struct does not read as " + ref::show(v));
            refuses("the third field", [&] { T::asString(s[2]); });
            refuses("the field far behind", [&] { T::asString(s[1000000]); });
            refuses("the last field of all", [&] { T::asString(s[(size_t)-1]); });
        } else
            refuses("refStruct", [&] { T::refStruct(g); });
        if (t == 'g') {
            if (T::refSignature(g).getValue() != v.s)
                bad("the signature does not read as " + ref::show(v));
        } else
            refuses("refSignature", [&] { T::refSignature(g); });
        if (t == 'v') {
            string m = misread(v.k[0], T::refVariant(g).getValue());
            if (!m.empty())
                bad(m);
        } else
            refuses("refVariant", [&] { T::refVariant(g); });
    };
    if (form == 0) {
        if (buildable(v))
            check(build(v));
    } else {
        bool got = false;
        Proto proto;
        proto.p.setSignalHandler([&](const DBus::Message::Signal& m) { got = true; check(m.getParameter(0)); });
        proto.feed(ref::encMsg(ref::signalMsg(5, "/o", "i.f", "S", { v }, form == 2)));
        if (!got)
            bad("not delivered");
    }
    seq::observe(string(1, t));
}

// parameters that were not sent: reading them is refused, for messages of every kind
void absent()
{
    using namespace DBus::Message;
    int kind = pick(4), n = pick(3), k = pick(5), form = pick(2);
    static const size_t beyond[] = { 0, 1, 2, 1000, (size_t)-1 };
    size_t i = beyond[k] == (size_t)-1 ? beyond[k] : n + beyond[k];
    VV body;
    for (int j = 0; j < n; ++j)
        body.push_back(ref::str("p" + to_string(j)));
    bool got = false;
    string read;
    auto check = [&](const Base& m) {
        got = true;
        if (m.getParameterCount() != (size_t)n)
            bad("parameters are miscounted");
        for (int j = 0; j < n; ++j)
            if (T::asString(m.getParameter(j)) != "p" + to_string(j))
                bad("parameter " + to_string(j) + " reads as " + T::asString(m.getParameter(j)));
        bool threw = false;
        try {
            read = T::asString(m.getParameter(i));
        } catch (const std::exception&) {
            threw = true;
        }
        if (!threw)
            bad("parameter " + to_string(i) + " of a message with " + to_string(n) + " parameters reads as \"" + read + "\"");
    };
    if (form == 0) {
        MethodCallParametersIn params;
        MethodReturn r(5);
        Error e(5, "e.x", "p0");
        Signal s(MethodCallIdentifier("/o", "i.f", "S"));
        for (int j = 0; j < n; ++j) {
            r.addParameter(T::String("p" + to_string(j)));
            s.addParameter(T::String("p" + to_string(j)));
            params.add(T::String("p" + to_string(j)));
        }
        MethodCall c(MethodCallIdentifier("/o", "i.f", "M"), params);
        if (kind == 0)
            check(c);
        else if (kind == 1)
            check(r);
        else if (kind == 3)
            check(s);
        else
            got = true; // errors carry their text
    } else {
        Proto proto;
        proto.p.setSignalHandler(check);
        proto.p.setMethodCallHandler(check);
        proto.p.setMethodReturnHandler(check);
        proto.p.setErrorHandler(check);
        proto.feed(ref::encMsg(kind == 0 ? ref::callMsg(5, "/o", "i.f", "M", body) : kind == 1 ? ref::returnMsg(5, 6, body) : kind == 2 ? ref::errorMsg(5, 6, "e.x", body) : ref::signalMsg(5, "/o", "i.f", "S", body)));
    }
    if (!got)
        bad("not delivered");
    seq::observe(to_string(kind) + to_string(n) + to_string(k));
}

// header numbers are the same in every locale
void headers()
{
    static const uint32_t serials[] = { 1, 9, 10, 99, 100, 999, 1000, 1001, 12345, 99999, 100000, 999999, 1000000, 1234567, 0x7fffffff, 0x80000000u, 999999999, 1000000000, 0xffffffffu };
    uint32_t a = serials[pick(19)], b = serials[pick(19)];
    int kind = pick(4), big = pick(2);
    InLocale l(pick(2));
    string got;
    Proto proto;
    auto rec = [&](const DBus::Message::Base& m) { got += to_string(m.getSerial()) + "/" + to_string(m.getReplySerial()) + ";"; };
    proto.p.setSignalHandler(rec);
    proto.p.setMethodCallHandler(rec);
    proto.p.setMethodReturnHandler(rec);
    proto.p.setErrorHandler(rec);
    ref::Msg m = kind == 0 ? ref::callMsg(a, "/o", "i.f", "M", {}, big) : kind == 1 ? ref::returnMsg(a, b, {}, big) : kind == 2 ? ref::errorMsg(a, b, "e.x", {}, big) : ref::signalMsg(a, "/o", "i.f", "S", {}, big);
    proto.feed(ref::encMsg(m));
    string want = to_string(a) + "/" + (kind == 1 || kind == 2 ? to_string(b) : "0") + ";";
    if (got != want)
        bad("serial and reply serial " + want + " read as " + got);
    seq::observe(got);
}

// default constructed values, and booleans made of other numbers than 0 and 1
void defaults()
{
    static const char L[] = "ybnqiuxtdsogB";
    char t = L[pick(13)];
    bool odd = t == 'B';
    uint32_t n = odd ? truth() : 0;
    InLocale l(pick(2));
    G g = odd ? G(T::Boolean(n)) : defaultOf(t);
    string text = T::asString(g), want = strchr("sog", t) ? "" : n ? "1" : "0";
    if (t == 'd' ? !sameDouble(text, 0) : text != want)
        bad(string("a '") + t + "' made of " + (odd ? to_string(n) : "nothing") + " reads as \"" + text + "\"");
    if (odd && (T::asByte(g) != (n ? 1u : 0u) || T::asUint32(g) != (n ? 1u : 0u)))
        bad("a boolean made of " + to_string(n) + " is the number " + to_string(T::asUint32(g)));
    seq::observe(text);
}
seq::Reg r10("C23", "c23_defaults", [] { judged(defaults); });
seq::Reg r1("C23", "c23_small", [] { judged(small); });
seq::Reg r2("C23", "c23_wide", [] { judged(wide); });
seq::Reg r3("C23", "c23_doubles", [] { judged(doubles); });
seq::Reg r4("C23", "c23_texts", [] { judged(texts); });
seq::Reg r5("C23", "c23_variants", [] { judged(variants); });
seq::Reg r6("C23", "c23_references", [] { judged(references); });
seq::Reg r7("C23", "c23_absent", [] { judged(absent); });
seq::Reg r8("C23", "c23_headers", [] { judged(headers); });
seq::Reg r9("C23", "c23_all32", [] { judged(all32); });
}
