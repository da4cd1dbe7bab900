// Reference D-Bus codec, written from the D-Bus specification alone.
// Used by every harness as the oracle; shares no code with /repo.
#pragma once
#include <cstdint>
#include <cstring>
#include <map>
#include <string>
#include <vector>

namespace ref {

struct V; // value tree
typedef std::vector<V> VV;

struct V {
    char t = 0; // type code: ybnqiuxtdsogv a ( {
    uint64_t u = 0; // integers, bool, double bits
    std::string s; // s o g
    VV k; // children (array elements, struct fields, dict key+value, variant content)
    std::string sig; // full signature for arrays (needed when empty)
};

inline std::string sigOf(const V& v)
{
    switch (v.t) {
    case 'a':
        return v.sig;
    case '(': {
        std::string r = "(";
        for (auto& c : v.k)
            r += sigOf(c);
        return r + ")";
    }
    case '{':
        return "{" + sigOf(v.k[0]) + sigOf(v.k[1]) + "}";
    default:
        return std::string(1, v.t);
    }
}

inline size_t alignOf(char t)
{
    switch (t) {
    case 'n':
    case 'q':
        return 2;
    case 'b':
    case 'i':
    case 'u':
    case 's':
    case 'o':
    case 'a':
    case 'h':
        return 4;
    case 'x':
    case 't':
    case 'd':
    case '(':
    case '{':
        return 8;
    default:
        return 1;
    }
}

inline void pad(std::string& o, size_t a)
{
    while (o.size() % a)
        o.push_back('\0');
}

inline void putInt(std::string& o, uint64_t v, size_t n, bool big)
{
    pad(o, n);
    for (size_t i = 0; i < n; ++i)
        o.push_back((char)(v >> (8 * (big ? n - 1 - i : i))));
}

// encodes at the current position of o (position 0 is 8-aligned)
inline void enc(std::string& o, const V& v, bool big)
{
    switch (v.t) {
    case 'y':
        o.push_back((char)v.u);
        break;
    case 'n':
    case 'q':
        putInt(o, v.u, 2, big);
        break;
    case 'b':
    case 'i':
    case 'u':
        putInt(o, v.u, 4, big);
        break;
    case 'x':
    case 't':
    case 'd':
        putInt(o, v.u, 8, big);
        break;
    case 's':
    case 'o':
        putInt(o, v.s.size(), 4, big);
        o += v.s;
        o.push_back('\0');
        break;
    case 'g':
        o.push_back((char)v.s.size());
        o += v.s;
        o.push_back('\0');
        break;
    case 'v': {
        std::string cs = sigOf(v.k[0]);
        o.push_back((char)cs.size());
        o += cs;
        o.push_back('\0');
        enc(o, v.k[0], big);
        break;
    }
    case '(':
    case '{':
        pad(o, 8);
        for (auto& c : v.k)
            enc(o, c, big);
        break;
    case 'a': {
        putInt(o, 0, 4, big);
        size_t lp = o.size() - 4;
        pad(o, alignOf(v.sig[1]));
        size_t st = o.size();
        for (auto& c : v.k)
            enc(o, c, big);
        uint32_t n = o.size() - st;
        std::string l;
        putInt(l, n, 4, big);
        o.replace(lp, 4, l);
        break;
    }
    }
}

// ---- decoding (strict about sizes, lenient about contents) ----
struct Bad {
    const char* why;
};

struct Rd {
    const std::string& d;
    size_t p;
    size_t end;
    bool big;
    void need(size_t n) const
    {
        if (n > end - p)
            throw Bad { "short" };
    }
    void al(size_t a)
    {
        size_t s = (a - p % a) % a;
        need(s);
        p += s;
    }
    uint64_t num(size_t n)
    {
        al(n);
        need(n);
        uint64_t r = 0;
        for (size_t i = 0; i < n; ++i)
            r |= (uint64_t)(uint8_t)d[p + i] << (8 * (big ? n - 1 - i : i));
        p += n;
        return r;
    }
};

// length of the single complete type at sig[i]; throws Bad when there is none
inline size_t oneType(const std::string& s, size_t i, int depth = 0)
{
    if (depth > 300)
        throw Bad { "deep" };
    if (i >= s.size())
        throw Bad { "incomplete signature" };
    switch (s[i]) {
    case 'a':
        if (i + 1 < s.size() && s[i + 1] == '{') {
            size_t p = i + 2;
            if (p >= s.size() || !strchr("ybnqiuxtdsogh", s[p]))
                throw Bad { "dict key" };
            ++p;
            p += oneType(s, p, depth + 1);
            if (p >= s.size() || s[p] != '}')
                throw Bad { "dict close" };
            return p + 1 - i;
        }
        return 1 + oneType(s, i + 1, depth + 1);
    case '(': {
        size_t p = i + 1;
        if (p < s.size() && s[p] == ')')
            throw Bad { "empty struct" };
        while (p < s.size() && s[p] != ')')
            p += oneType(s, p, depth + 1);
        if (p >= s.size())
            throw Bad { "struct close" };
        return p + 1 - i;
    }
    default:
        if (s[i] && strchr("ybnqiuxtdsogvh", s[i]))
            return 1;
        throw Bad { "type code" };
    }
}

inline V dec(Rd& r, const std::string& sig, size_t i, int depth = 0);

inline std::string decSig(Rd& r)
{
    r.need(1);
    size_t n = (uint8_t)r.d[r.p++];
    r.need(n + 1);
    std::string s = r.d.substr(r.p, n);
    r.p += n + 1;
    return s;
}

inline V dec(Rd& r, const std::string& sig, size_t i, int depth)
{
    if (depth > 300)
        throw Bad { "deep" };
    V v;
    v.t = sig[i];
    switch (v.t) {
    case 'y':
        r.need(1);
        v.u = (uint8_t)r.d[r.p++];
        break;
    case 'n':
    case 'q':
        v.u = r.num(2);
        break;
    case 'b':
    case 'i':
    case 'u':
    case 'h':
        v.u = r.num(4);
        break;
    case 'x':
    case 't':
    case 'd':
        v.u = r.num(8);
        break;
    case 's':
    case 'o': {
        size_t n = r.num(4);
        r.need(n);
        r.need(n + 1);
        v.s = r.d.substr(r.p, n);
        r.p += n + 1;
        break;
    }
    case 'g':
        v.s = decSig(r);
        break;
    case 'v': {
        std::string s = decSig(r);
        if (oneType(s, 0) != s.size())
            throw Bad { "variant signature" };
        v.k.push_back(dec(r, s, 0, depth + 1));
        break;
    }
    case '(': {
        r.al(8);
        size_t p = i + 1;
        while (sig[p] != ')') {
            v.k.push_back(dec(r, sig, p, depth + 1));
            p += oneType(sig, p);
        }
        break;
    }
    case '{': {
        r.al(8);
        v.k.push_back(dec(r, sig, i + 1, depth + 1));
        v.k.push_back(dec(r, sig, i + 2, depth + 1));
        break;
    }
    case 'a': {
        size_t n = r.num(4);
        v.sig = sig.substr(i, oneType(sig, i));
        r.al(alignOf(sig[i + 1]));
        r.need(n);
        size_t save = r.end;
        r.end = r.p + n;
        while (r.p < r.end)
            v.k.push_back(dec(r, sig, i + 1, depth + 1));
        r.end = save;
        break;
    }
    default:
        throw Bad { "type code" };
    }
    return v;
}

inline VV decBody(const std::string& body, const std::string& sig, bool big, size_t* used = 0)
{
    // validate the signature first
    for (size_t i = 0; i < sig.size();)
        i += oneType(sig, i);
    Rd r { body, 0, body.size(), big };
    VV out;
    for (size_t i = 0; i < sig.size(); i += oneType(sig, i))
        out.push_back(dec(r, sig, i));
    if (used)
        *used = r.p;
    return out;
}

// ---- convenience constructors ----
inline V num(char t, uint64_t u)
{
    V v;
    v.t = t;
    v.u = u;
    return v;
}
inline V str(const std::string& s, char t = 's')
{
    V v;
    v.t = t;
    v.s = s;
    return v;
}
inline V dbl(double d)
{
    V v;
    v.t = 'd';
    memcpy(&v.u, &d, 8);
    return v;
}
inline V var(const V& c)
{
    V v;
    v.t = 'v';
    v.k.push_back(c);
    return v;
}
inline V arr(const std::string& elemSig, const VV& k)
{
    V v;
    v.t = 'a';
    v.sig = "a" + elemSig;
    v.k = k;
    return v;
}
inline V strct(const VV& k)
{
    V v;
    v.t = '(';
    v.k = k;
    return v;
}
inline V dict(const V& a, const V& b)
{
    V v;
    v.t = '{';
    v.k = { a, b };
    return v;
}

inline std::string show(const V& v)
{
    std::string r;
    switch (v.t) {
    case 's':
    case 'o':
    case 'g': {
        r = std::string(1, v.t) + "\"";
        for (size_t i = 0; i < v.s.size() && i < 40; ++i)
            r += (v.s[i] >= 32 && v.s[i] < 127) ? v.s[i] : '?';
        return r + "\"" + (v.s.size() > 40 ? "#" + std::to_string(v.s.size()) : "");
    }
    case 'v':
        return "v<" + show(v.k[0]) + ">";
    case '(':
    case '{':
    case 'a':
        r = v.t == 'a' ? v.sig + "[" : std::string(1, v.t);
        for (size_t i = 0; i < v.k.size(); ++i)
            r += (i ? "," : "") + show(v.k[i]);
        return r + (v.t == 'a' ? "]" : v.t == '(' ? ")" : "}");
    default: {
        char b[32];
        snprintf(b, sizeof b, "%c%llx", v.t, (unsigned long long)v.u);
        return b;
    }
    }
}

// ---- messages ----
struct Field {
    uint8_t code;
    V v; // content of the variant
};

struct Msg {
    bool big = false;
    uint8_t type = 0, flags = 0, version = 1;
    uint32_t serial = 0;
    uint32_t bodyLen = 0; // filled in by parse
    std::vector<Field> fields;
    std::string bodySig; // the SIGNATURE field (also present in fields when parsed)
    VV body;
    std::string rawBody;
    size_t headerSize = 0;

    const V* field(uint8_t c) const
    {
        for (auto& f : fields)
            if (f.code == c)
                return &f.v;
        return 0;
    }
    std::string fs(uint8_t c) const
    {
        auto* v = field(c);
        return v ? v->s : "";
    }
    uint32_t replySerial() const
    {
        auto* v = field(5);
        return v ? v->u : 0;
    }
    std::string path() const { return fs(1); }
    std::string interface() const { return fs(2); }
    std::string member() const { return fs(3); }
    std::string errorName() const { return fs(4); }
    std::string destination() const { return fs(6); }
    std::string sender() const { return fs(7); }
};

enum { M_CALL = 1,
    M_RETURN = 2,
    M_ERROR = 3,
    M_SIGNAL = 4 };

inline std::string encBody(const VV& body, bool big)
{
    std::string b;
    for (auto& v : body)
        enc(b, v, big);
    return b;
}
inline std::string sigsOf(const VV& body)
{
    std::string s;
    for (auto& v : body)
        s += sigOf(v);
    return s;
}

// header for a raw body
inline std::string encHeader(const Msg& m, uint32_t bodyLen)
{
    std::string o;
    o.push_back(m.big ? 'B' : 'l');
    o.push_back((char)m.type);
    o.push_back((char)m.flags);
    o.push_back((char)m.version);
    putInt(o, bodyLen, 4, m.big);
    putInt(o, m.serial, 4, m.big);
    VV fs;
    for (auto& f : m.fields)
        fs.push_back(strct({ num('y', f.code), var(f.v) }));
    enc(o, arr("(yv)", fs), m.big);
    pad(o, 8);
    return o;
}

// m.body encoded; SIGNATURE field appended automatically when there is a body and no field 8 yet
inline std::string encMsg(Msg m)
{
    if (m.body.size() && !m.field(8))
        m.fields.push_back({ 8, str(sigsOf(m.body), 'g') });
    std::string b = encBody(m.body, m.big);
    return encHeader(m, b.size()) + b;
}

// how many bytes the message at the start of s needs; 0 when not yet known (fewer than 16 bytes)
inline size_t msgSize(const std::string& s, size_t at = 0)
{
    if (s.size() - at < 16)
        return 0;
    bool big = s[at] == 'B';
    std::string h = s.substr(at, 16);
    Rd r { h, 4, 16, big };
    size_t body = r.num(4);
    r.num(4);
    size_t arrn = r.num(4);
    size_t n = 16 + arrn;
    n = (n + 7) / 8 * 8;
    return n + body;
}

// strict parse of one whole message; throws Bad
inline Msg parse(const std::string& s)
{
    if (s.size() < 16)
        throw Bad { "short header" };
    Msg m;
    if (s[0] != 'l' && s[0] != 'B')
        throw Bad { "endianness" };
    m.big = s[0] == 'B';
    m.type = s[1];
    m.flags = s[2];
    m.version = s[3];
    Rd r { s, 4, s.size(), m.big };
    m.bodyLen = r.num(4);
    m.serial = r.num(4);
    V fa = dec(r, "a(yv)", 0);
    for (auto& f : fa.k)
        m.fields.push_back({ (uint8_t)f.k[0].u, f.k[1].k[0] });
    while (r.p % 8) {
        r.need(1);
        if (s[r.p])
            throw Bad { "header padding not zero" };
        ++r.p;
    }
    m.headerSize = r.p;
    if (s.size() - r.p != m.bodyLen)
        throw Bad { "body length" };
    m.rawBody = s.substr(r.p);
    int sigs = 0;
    for (auto& f : m.fields)
        sigs += f.code == 8;
    if (sigs > 1)
        throw Bad { "two signature fields" };
    if (auto* f = m.field(8)) {
        if (f->t != 'g')
            throw Bad { "signature field type" };
        m.bodySig = f->s;
    }
    size_t used = 0;
    m.body = decBody(m.rawBody, m.bodySig, m.big, &used);
    if (used != m.rawBody.size())
        throw Bad { "bytes after the body's last value" };
    return m;
}

inline Msg mk(uint8_t type, uint32_t serial)
{
    Msg m;
    m.type = type;
    m.serial = serial;
    return m;
}
inline Msg signalMsg(uint32_t serial, const std::string& path, const std::string& iface, const std::string& member, const VV& body = {}, bool big = false)
{
    Msg m = mk(M_SIGNAL, serial);
    m.big = big;
    m.fields = { { 1, str(path, 'o') }, { 2, str(iface) }, { 3, str(member) } };
    m.body = body;
    return m;
}
inline Msg callMsg(uint32_t serial, const std::string& path, const std::string& iface, const std::string& member, const VV& body = {}, bool big = false)
{
    Msg m = signalMsg(serial, path, iface, member, body, big);
    m.type = M_CALL;
    return m;
}
inline Msg returnMsg(uint32_t serial, uint32_t reply, const VV& body = {}, bool big = false)
{
    Msg m = mk(M_RETURN, serial);
    m.big = big;
    m.fields = { { 5, num('u', reply) } };
    m.body = body;
    return m;
}
inline Msg errorMsg(uint32_t serial, uint32_t reply, const std::string& name, const VV& body = {}, bool big = false)
{
    Msg m = mk(M_ERROR, serial);
    m.big = big;
    m.fields = { { 4, str(name) }, { 5, num('u', reply) } };
    m.body = body;
    return m;
}

inline std::string hex(const std::string& s, size_t max = 400)
{
    std::string r;
    char b[4];
    for (size_t i = 0; i < s.size() && i < max; ++i) {
        snprintf(b, sizeof b, "%02x", (uint8_t)s[i]);
        r += b;
    }
    if (s.size() > max)
        r += "..(" + std::to_string(s.size()) + ")";
    return r;
}
inline bool operator==(const V& a, const V& b)
{
    return a.t == b.t && a.u == b.u && a.s == b.s && a.sig == b.sig && a.k == b.k;
}

} // namespace ref
