// Between reference values and the library's value API; generators of signatures and values.
#pragma once
#include "../ref.h"
#include "seq.h"
#include "dbus.h"
#include "dbus_log.h"
#include "dbus_messageistream.h"
#include "dbus_messageostream.h"
#include "dbus_messageprotocol.h"
#include "dbus_type.h"
#include "dbus_type_array.h"
#include "dbus_type_boolean.h"
#include "dbus_type_byte.h"
#include "dbus_type_dictentry.h"
#include "dbus_type_double.h"
#include "dbus_type_int16.h"
#include "dbus_type_int32.h"
#include "dbus_type_int64.h"
#include "dbus_type_objectpath.h"
#include "dbus_type_signature.h"
#include "dbus_type_string.h"
#include "dbus_type_struct.h"
#include "dbus_type_uint16.h"
#include "dbus_type_uint32.h"
#include "dbus_type_uint64.h"
#include "dbus_type_variant.h"
#include <map>
#include <memory>
#include <set>

namespace br {
using std::string;
using std::to_string;
using std::vector;
using seq::fail;
using seq::pick;
namespace T = DBus::Type;
typedef T::Generic G;
using ref::V;
using ref::VV;

static struct Quiet {
    Quiet() { DBus::Log::setLevel(DBus::Log::ERROR + 1); }
} quiet;

inline double asDouble(uint64_t u)
{
    double d;
    memcpy(&d, &u, 8);
    return d;
}

// can the value be built with the public constructors and add functions?
inline bool buildable(const V& v)
{
    switch (v.t) {
    case 'v':
        return strchr("sogu", v.k[0].t);
    case 'a':
        if (v.sig[1] == 'a')
            return false;
        break;
    case '(':
        for (auto& c : v.k)
            if (c.t == 'a')
                return false;
        break;
    }
    for (auto& c : v.k)
        if (!buildable(c))
            return false;
    return true;
}

// values as they are when nothing has been assigned to them, and booleans made of any number
inline G defaultOf(char t)
{
    switch (t) {
#define DEF(code, type) \
    case code:          \
        return T::type();
        DEF('y', Byte)
        DEF('b', Boolean)
        DEF('n', Int16)
        DEF('q', Uint16)
        DEF('i', Int32)
        DEF('u', Uint32)
        DEF('x', Int64)
        DEF('t', Uint64)
        DEF('d', Double)
        DEF('s', String)
        DEF('o', ObjectPath)
        DEF('g', Signature)
#undef DEF
    }
    return G();
}
inline uint32_t truth()
{
    int k = pick(100);
    return k < 2 ? k : k < 34 ? 1u << (k - 2) : k < 66 ? (1u << (k - 34)) - 1 : k < 98 ? ~(1u << (k - 66)) : k == 98 ? 0xaaaaaaaau : 10;
}
template <class C>
void addTo(C& c, const G& g, char t)
{
    switch (t) {
#define ADD(code, type)                             \
    case code:                                      \
        c.add(boost::any_cast<const T::type&>(g)); \
        break;
        ADD('y', Byte)
        ADD('b', Boolean)
        ADD('n', Int16)
        ADD('q', Uint16)
        ADD('i', Int32)
        ADD('u', Uint32)
        ADD('x', Int64)
        ADD('t', Uint64)
        ADD('d', Double)
        ADD('s', String)
        ADD('o', ObjectPath)
        ADD('g', Signature)
        ADD('v', Variant)
        ADD('(', Struct)
        ADD('{', DictEntry)
#undef ADD
    }
}
inline G build(const V& v)
{
    switch (v.t) {
    case 'y':
        return T::Byte(v.u);
    case 'b':
        return T::Boolean(v.u);
    case 'n':
        return T::Int16(v.u);
    case 'q':
        return T::Uint16(v.u);
    case 'i':
        return T::Int32(v.u);
    case 'u':
        return T::Uint32(v.u);
    case 'x':
        return T::Int64(v.u);
    case 't':
        return T::Uint64(v.u);
    case 'd':
        return T::Double(asDouble(v.u));
    case 's':
        return T::String(v.s);
    case 'o':
        return T::ObjectPath(v.s);
    case 'g':
        return T::Signature(v.s);
    case 'v':
        switch (v.k[0].t) {
        case 's':
            return T::Variant(T::String(v.k[0].s));
        case 'o':
            return T::Variant(T::ObjectPath(v.k[0].s));
        case 'g':
            return T::Variant(T::Signature(v.k[0].s));
        case 'u':
            return T::Variant(T::Uint32(v.k[0].u));
        }
        break;
    case '(': {
        T::Struct s;
        for (auto& c : v.k)
            addTo(s, build(c), c.t);
        return s;
    }
    case '{':
        return T::DictEntry(build(v.k[0]), build(v.k[1]));
    case 'a': {
        T::Array a;
        a.setSignature(v.sig);
        for (auto& c : v.k)
            addTo(a, build(c), c.t);
        return a;
    }
    }
    fail("harness: value cannot be built");
}

inline string decimal(const V& v)
{
    switch (v.t) {
    case 'n':
        return to_string((int16_t)v.u);
    case 'i':
        return to_string((int32_t)v.u);
    case 'x':
        return to_string((int64_t)v.u);
    case 'y':
        return to_string((uint8_t)v.u);
    case 'q':
        return to_string((uint16_t)v.u);
    case 'u':
    case 'b':
        return to_string((uint32_t)v.u);
    default:
        return to_string(v.u);
    }
}

// reads a value back through the accessors; empty when it agrees
inline string differs(const V& v, const G& g, const string& at = "value")
{
    string sig = T::getMarshallingSignature(g);
    if (sig != ref::sigOf(v))
        return at + " has type '" + sig + "' instead of '" + ref::sigOf(v) + "'";
    switch (v.t) {
    case 'd':
    case '{':
        return ""; // no exact accessor: compared through marshalling
    case 's':
    case 'o':
    case 'g':
        if (T::asString(g) != v.s)
            return at + " reads as \"" + T::asString(g).substr(0, 80) + "\" instead of " + ref::show(v);
        if (v.t == 's' && boost::any_cast<const T::String&>(g).asString() != v.s)
            return at + " differs";
        return "";
    case 'v':
        return differs(v.k[0], T::refVariant(g).getValue(), at + "<>");
    case '(': {
        auto& s = T::refStruct(g);
        if (s.getEntries() != v.k.size())
            return at + " has " + to_string(s.getEntries()) + " fields instead of " + to_string(v.k.size());
        for (size_t i = 0; i < v.k.size(); ++i) {
            string d = differs(v.k[i], s[i], at + "." + to_string(i));
            if (!d.empty())
                return d;
        }
        return "";
    }
    case 'a': {
        auto& a = T::refArray(g);
        if (a.size() != v.k.size() || a.getContents().size() != v.k.size())
            return at + " has " + to_string(a.size()) + " elements instead of " + to_string(v.k.size());
        for (size_t i = 0; i < v.k.size(); ++i) {
            string d = differs(v.k[i], a.getContents()[i], at + "[" + to_string(i) + "]");
            if (!d.empty())
                return d;
        }
        return "";
    }
    default:
        if (T::asString(g) != decimal(v))
            return at + " reads as " + T::asString(g) + " instead of " + decimal(v);
        if (v.t == 'u' && T::asUint32(g) != (uint32_t)v.u)
            return at + " reads as a different number";
        if (v.t == 'y' && T::asByte(g) != (uint8_t)v.u)
            return at + " reads as a different byte";
        return "";
    }
}

// ---- generators ----
struct GenCfg {
    const char* leaves = "ybnqiuxtdsogv";
    int fields = 2; // most fields of a struct
    int elems = 2; // most elements of an array
    int values = 2; // values per leaf
    const char* const* variants = 0; // signatures of variant contents
    int nvariants = 0;
    int variantLevels = 2; // below that depth variants hold the first content only
    bool build = false; // only values that can be built with the API
    int deepValues = 1; // values per leaf below the first level
};
// one complete type; size limits the number of type codes beyond the first
inline string genSig(const GenCfg& c, int& size, bool inArray = false, bool arrayOk = true)
{
    int nl = strlen(c.leaves);
    int opts = nl + (arrayOk && size >= 1 ? 1 : 0) + (size >= 1 ? 1 : 0) + (inArray && size >= 2 ? 1 : 0);
    int k = pick(opts);
    if (k < nl)
        return string(1, c.leaves[k]);
    k -= nl;
    if (!arrayOk)
        ++k;
    if (k == 0) {
        --size;
        return "a" + genSig(c, size, true, !c.build);
    }
    if (k == 1) {
        int n = 1 + pick(std::min(c.fields, size));
        size -= n;
        string r = "(";
        for (int i = 0; i < n; ++i)
            r += genSig(c, size, false, !c.build);
        return r + ")";
    }
    size -= 2;
    static const char keys[] = "sytg";
    string r = string("{") + keys[pick(4)];
    return r + genSig(c, size) + "}";
}
inline V leaf(char t, int k)
{
    static const uint64_t nums[3] = { 0x0102030405060708ull, 0xfffffffffffffffeull, 0 };
    static const char* const strs[3] = { "ab", "", "xyz\xc3\xa9" };
    static const char* const paths[3] = { "/a/b", "/", "/abc" };
    static const char* const sigs[3] = { "a{sv}", "", "ii" };
    switch (t) {
    case 'b':
        return ref::num('b', k == 1 ? 0 : 1);
    case 'y':
        return ref::num(t, nums[k] & 0xff);
    case 'n':
    case 'q':
        return ref::num(t, nums[k] & 0xffff);
    case 'i':
    case 'u':
        return ref::num(t, nums[k] & 0xffffffff);
    case 'd':
        return k == 0 ? ref::dbl(-3.14159265358979) : k == 1 ? ref::dbl(1e300) : ref::num('d', 0x8000000000000000ull);
    case 's':
        return ref::str(strs[k]);
    case 'o':
        return ref::str(paths[k], 'o');
    case 'g':
        return ref::str(sigs[k], 'g');
    default:
        return ref::num(t, nums[k]);
    }
}
inline V genVal(const GenCfg& c, const string& s, size_t i, int level = 0)
{
    switch (s[i]) {
    case 'v': {
        const char* cs = c.variants[pick(level >= c.variantLevels ? 1 : c.nvariants)]; // the first content is no container
        return ref::var(genVal(c, cs, 0, level + 1));
    }
    case '(': {
        VV k;
        for (size_t p = i + 1; s[p] != ')'; p += ref::oneType(s, p))
            k.push_back(genVal(c, s, p, level + 1));
        return ref::strct(k);
    }
    case '{':
        return ref::dict(genVal(c, s, i + 1, level + 1), genVal(c, s, i + 2, level + 1));
    case 'a': {
        VV k;
        int n = pick(c.elems + 1);
        string es = s.substr(i + 1, ref::oneType(s, i) - 1);
        for (int e = 0; e < n; ++e)
            k.push_back(genVal(c, s, i + 1, level + 1 + e)); // the first element varies most
        return ref::arr(es, k);
    }
    default:
        return leaf(s[i], pick(level ? (level > 2 ? 1 : c.deepValues) : c.values));
    }
}

inline string marshalAll(const vector<G>& v)
{
    DBus::MessageOStream o;
    for (auto& g : v)
        T::marshallData(g, o);
    return o.data;
}

// a message protocol whose input lies in exactly sized heap blocks
struct Proto {
    DBus::MessageProtocol p;
    void feed(const string& s, size_t from = 0, size_t n = string::npos)
    {
        n = std::min(n, s.size() - from);
        std::unique_ptr<uint8_t[]> b(new uint8_t[n]);
        memcpy(b.get(), s.data() + from, n);
        DBus::OctetBuffer ob(b.get(), n);
        p.onReceiveData(ob);
    }
};

inline string offsetFiller(int n) { return string(n, 'y'); }
}
