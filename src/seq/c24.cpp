// C24: values and messages are independent of each other.
#include "msg.h"
using namespace br;
namespace M = DBus::Message;

namespace {
// The application's variables beside a model with plain value semantics. A message's model is its serial and parameters.
struct MsgModel {
    uint32_t serial;
    VV body;
};
struct World {
    T::Struct s[2];
    V ms[2];
    T::Array a; // of structs (us...) that all have the same type, or of strings
    V ma;
    G g[2];
    V mg[2];
    M::MethodCallParametersIn p;
    VV mp;
    M::Signal m0 { M::MethodCallIdentifier("/a", "b.c", "D") }, m1 { M::MethodCallIdentifier("/a", "b.c", "E") };
    MsgModel mm[2];
    vector<M::MethodCall> calls;
    vector<MsgModel> mcalls;
    M::MethodReturn ret { 77 };
    MsgModel mret;
    int n = 0;
    World()
    {
        for (int i = 0; i < 2; ++i) {
            s[i].add(T::Uint32(100 + i));
            ms[i] = ref::strct({ ref::num('u', 100 + i) });
            g[i] = T::String("g" + to_string(i));
            mg[i] = ref::str("g" + to_string(i));
        }
        a.setSignature("as");
        ma = ref::arr("s", {});
        mm[0] = { m0.getSerial(), {} };
        mm[1] = { m1.getSerial(), {} };
        mret = { ret.getSerial(), {} };
    }
    M::Signal& m(int i) { return i ? m1 : m0; }
};
void sameValue(const G& g, const V& v, const string& what)
{
    string is = paramText(g), want = paramText(v);
    if (is != want)
        fail(what + " is " + is + " instead of " + want);
}
void sameBody(const string& bytes, const MsgModel& m, const string& what)
{
    ref::Msg r = ref::parse(bytes);
    if (r.serial != m.serial)
        fail(what + " is marshalled with serial " + to_string(r.serial) + " instead of " + to_string(m.serial));
    if (r.rawBody != ref::encBody(m.body, false))
        fail(what + " is marshalled with the body " + ref::hex(r.rawBody) + " instead of " + ref::hex(ref::encBody(m.body, false)));
}
template <class X>
void sameMsg(const X& x, const MsgModel& m, const string& what)
{
    if (x.getParameterCount() != m.body.size())
        fail(what + " has " + to_string(x.getParameterCount()) + " parameters instead of " + to_string(m.body.size()));
    for (size_t i = 0; i < m.body.size(); ++i)
        sameValue(x.getParameter(i), m.body[i], "parameter " + to_string(i) + " of " + what);
    sameBody(x.marshall("d.e"), m, what);
}
void judge(World& w)
{
    for (int i = 0; i < 2; ++i) {
        sameValue(w.s[i], w.ms[i], "struct " + to_string(i));
        sameValue(w.g[i], w.mg[i], "value " + to_string(i));
        sameMsg(w.m(i), w.mm[i], "signal " + to_string(i));
    }
    sameValue(w.a, w.ma, "the array");
    if (w.p.getParameterCount() != w.mp.size())
        fail("the parameter list has " + to_string(w.p.getParameterCount()) + " parameters instead of " + to_string(w.mp.size()));
    for (size_t i = 0; i < w.mp.size(); ++i)
        sameValue(w.p.getParameter(i), w.mp[i], "parameter " + to_string(i) + " of the list");
    for (size_t i = 0; i < w.calls.size(); ++i)
        sameMsg(w.calls[i], w.mcalls[i], "call " + to_string(i));
    sameMsg(w.ret, w.mret, "the return");
}
size_t weight(const V& v)
{
    size_t r = 1;
    for (auto& k : v.k)
        r += weight(k);
    return r;
}
G decoded(const V& v, bool big)
{
    string bytes = ref::encBody({ v }, big), sig = ref::sigOf(v);
    std::unique_ptr<uint8_t[]> b(new uint8_t[bytes.size()]);
    memcpy(b.get(), bytes.data(), bytes.size());
    DBus::MessageIStream in(b.get(), bytes.size(), big);
    G g = T::create(sig);
    T::unmarshallData(g, in);
    memset(b.get(), 0xEE, bytes.size());
    return g;
}

const int NOPS = 29;
void step(World& w, int op)
{
    int n = ++w.n;
    int i = op & 1, j = !i;
    switch (op) {
    case 0:
    case 1:
        w.s[i].add(T::Uint32(n));
        w.ms[i].k.push_back(ref::num('u', n));
        break;
    case 2:
    case 3: // a struct within the other
        w.s[i].add(w.s[j]);
        w.ms[i].k.push_back(V(w.ms[j]));
        break;
    case 4: { // within itself
        w.s[0].add(w.s[0]);
        V c = w.ms[0];
        w.ms[0].k.push_back(c);
        break;
    }
    case 5: // assigned
        w.s[1] = w.s[0];
        w.ms[1] = w.ms[0];
        break;
    case 6:
    case 7: // taken as a value
        w.g[i] = w.s[i];
        w.mg[i] = w.ms[i];
        break;
    case 8:
        w.g[1] = w.g[0];
        w.mg[1] = w.mg[0];
        break;
    case 9: // emptied and used again
        w.s[0].clear();
        w.s[0].add(T::String("c" + to_string(n)));
        w.ms[0].k = { ref::str("c" + to_string(n)) };
        break;
    case 10:
    case 11:
        w.m(i).addParameter(w.g[i]);
        w.mm[i].body.push_back(w.mg[i]);
        break;
    case 12: // a message copied: same serial, own parameters
        w.m1 = w.m0;
        w.mm[1] = w.mm[0];
        break;
    case 13:
        w.p.add(w.g[0]);
        w.mp.push_back(w.mg[0]);
        break;
    case 14:
        w.calls.push_back(M::MethodCall(M::MethodCallIdentifier("/a", "b.c", "F"), w.p));
        w.mcalls.push_back({ w.calls.back().getSerial(), w.mp });
        break;
    case 15: // an array that holds strings, or copies of one struct type
        w.a.add(T::String("s" + to_string(n)));
        w.ma.k.push_back(ref::str("s" + to_string(n)));
        break;
    case 16:
        w.g[0] = w.a;
        w.mg[0] = w.ma;
        break;
    case 17: // received values
    case 18:
        w.g[0] = decoded(w.mg[i ? 0 : 1], op == 18);
        w.mg[0] = w.mg[i ? 0 : 1];
        break;
    case 19: { // a parameter outlives its message
        if (w.mm[0].body.empty())
            throw seq::Skip();
        std::unique_ptr<M::Signal> c(new M::Signal(w.m0));
        G k = c->getParameter(0);
        c.reset();
        w.g[1] = k;
        w.mg[1] = w.mm[0].body[0];
        break;
    }
    case 20: // reading changes nothing
        judge(w);
        T::toString(w.g[0]);
        T::asString(w.g[1]);
        T::getMarshallingSignature(w.g[0]);
        w.m0.marshall("");
        w.m0.marshall("x.y");
        break;
    case 21:
        w.ret.addParameter(w.g[1]);
        w.mret.body.push_back(w.mg[1]);
        break;
    case 22: { // a field taken out again
        G f = w.s[1][0];
        w.g[0] = f;
        w.mg[0] = w.ms[1].k[0];
        break;
    }
    case 23: { // copies of structs that hold copies
        T::Struct c(w.s[0]);
        c.add(T::Uint32(n));
        w.s[1].add(c);
        V v = w.ms[0];
        v.k.push_back(ref::num('u', n));
        w.ms[1].k.push_back(v);
        break;
    }
    case 24: { // a dictionary of the present values
        T::Array d;
        d.setSignature("a{sv}");
        T::String str("x" + to_string(n));
        T::DictEntry e(G(T::String("k")), G(T::Variant(str)));
        d.add(e);
        e.set(G(T::String("l")), G(T::Variant(T::Uint32(n))));
        d.add(e);
        e.set(G(T::String("m")), G(T::Variant(T::Uint32(n + 1))));
        w.g[1] = d;
        w.mg[1] = ref::arr("{sv}", { ref::dict(ref::str("k"), ref::var(ref::str("x" + to_string(n)))), ref::dict(ref::str("l"), ref::var(ref::num('u', n))) });
        break;
    }
    case 25: { // an array of the struct as it is now; a second one with a later state of the same type
        T::Array d;
        d.add(w.s[0]);
        T::Struct c = w.s[0];
        d.add(c);
        c.add(T::Uint32(n));
        w.g[0] = d;
        w.mg[0] = ref::arr(ref::sigOf(w.ms[0]), { w.ms[0], w.ms[0] });
        break;
    }
    case 26: { // a copy of the array grows, the array does not, then it does
        T::Array c = w.a;
        c.add(T::String("copy"));
        w.g[1] = c;
        w.mg[1] = w.ma;
        w.mg[1].k.push_back(ref::str("copy"));
        break;
    }
    case 27: { // a call copied from a list that goes on
        if (w.calls.empty())
            throw seq::Skip();
        M::MethodCall c = w.calls[0];
        w.calls.push_back(c);
        w.mcalls.push_back(MsgModel(w.mcalls[0]));
        break;
    }
    case 28:
        std::swap(w.g[0], w.g[1]);
        std::swap(w.mg[0], w.mg[1]);
        break;
    }
    if (weight(w.ms[0]) + weight(w.ms[1]) > 60 || ref::sigOf(w.ms[0]).size() > 100 || ref::sigOf(w.ms[1]).size() > 100)
        throw seq::Skip();
}
void histories()
{
    World w;
    int len = seq::thorough() ? 5 : 4;
    string ops;
    for (int k = 0; k < len; ++k) {
        int op = pick(NOPS);
        if (seq::verbose())
            seq::note("operation " + to_string(op));
        step(w, op);
    }
    judge(w);
    seq::observe(to_string(w.calls.size()) + to_string(w.mm[0].body.size()) + to_string(w.mm[1].body.size()));
}
// longer histories of structs, values and messages only
void longer()
{
    static const int OPS[] = { 0, 2, 3, 5, 6, 8, 10, 12, 9, 13, 14 };
    World w;
    int len = seq::thorough() ? 7 : 6;
    for (int k = 0; k < len; ++k) {
        int op = OPS[pick(11)];
        if (seq::verbose())
            seq::note("operation " + to_string(op));
        step(w, op);
    }
    judge(w);
    seq::observe(to_string(w.calls.size()) + to_string(w.mm[0].body.size()) + to_string(w.mm[1].body.size()));
}
// An element of a container, still inside it, is added to the same container, which may have to grow for it. (With the
// address sanitizer)
template <class At, class Size, class Add>
void again(At at, Size size, Add add, const vector<string>& before, size_t i)
{
    add(i);
    if (size() != before.size() + 1)
        fail("after element " + to_string(i) + " of " + to_string(before.size()) + " was added again there are " + to_string(size()));
    for (size_t k = 0; k <= before.size(); ++k)
        if (paramText(at(k)) != before[k < before.size() ? k : i])
            fail("after element " + to_string(i) + " of " + to_string(before.size()) + " was added again, element " + to_string(k) + " is " + paramText(at(k)) + " instead of " + before[k < before.size() ? k : i]);
}
void self()
{
    int kind = pick(6), times = 1 + pick(3);
    size_t n = 1 + pick(seq::thorough() ? 40 : 18), i = pick(n);
    vector<G> el;
    for (size_t k = 0; k < n; ++k) {
        if (kind >= 3 || k % 3 == 2) {
            T::Struct st;
            st.add(T::String("a text which is long enough " + to_string(k)));
            el.push_back(st);
        } else if (k % 3)
            el.push_back(T::Uint32(k));
        else
            el.push_back(T::String("a text that needs memory of its own " + to_string(k)));
    }
    auto go = [&](auto at, auto size, auto add) {
        for (int t = 0; t < times; ++t) {
            vector<string> before;
            for (size_t k = 0; k < size(); ++k)
                before.push_back(paramText(at(k)));
            again(at, size, add, before, i);
        }
    };
    if (kind == 0) {
        M::MethodCallParametersIn p;
        for (auto& e : el)
            p.add(e);
        go([&](size_t k) -> const G& { return p.getParameter(k); }, [&] { return p.getParameterCount(); }, [&](size_t k) { p.add(p.getParameter(k)); });
    } else if (kind == 1) {
        M::Signal m(M::MethodCallIdentifier("/a", "b.c", "D"));
        for (auto& e : el)
            m.addParameter(e);
        go([&](size_t k) -> const G& { return m.getParameter(k); }, [&] { return m.getParameterCount(); }, [&](size_t k) { m.addParameter(m.getParameter(k)); });
    } else if (kind == 2) {
        M::MethodReturn m(3);
        for (auto& e : el)
            m.addParameter(e);
        go([&](size_t k) -> const G& { return m.getParameter(k); }, [&] { return m.getParameterCount(); }, [&](size_t k) { m.addParameter(m.getParameter(k)); });
    } else if (kind == 3) {
        T::Struct c;
        for (auto& e : el)
            c.add(T::refStruct(e));
        go([&](size_t k) -> const G& { return c[k]; }, [&] { return c.getEntries(); }, [&](size_t k) { c.add(T::refStruct(c[k])); });
    } else if (kind == 4) {
        T::Array c;
        for (auto& e : el)
            c.add(T::refStruct(e));
        go([&](size_t k) -> const G& { return c.getContents()[k]; }, [&] { return c.size(); }, [&](size_t k) { c.add(T::refStruct(c.getContents()[k])); });
    } else {
        T::Array c;
        for (size_t k = 0; k < n; ++k)
            c.add(T::Variant(T::String("a text which is long enough " + to_string(k))));
        go([&](size_t k) -> const G& { return c.getContents()[k]; }, [&] { return c.size(); }, [&](size_t k) { c.add(T::refVariant(c.getContents()[k])); });
    }
    seq::observe(to_string(kind) + " " + to_string(times));
}
// shorter histories with the address sanitizer
void short_()
{
    World w;
    int len = seq::thorough() ? 4 : 3;
    for (int k = 0; k < len; ++k) {
        int op = pick(NOPS);
        if (seq::verbose())
            seq::note("operation " + to_string(op));
        step(w, op);
    }
    judge(w);
    seq::observe(to_string(w.calls.size()) + to_string(w.mm[0].body.size()) + to_string(w.mm[1].body.size()));
}
seq::Reg r3("C24", "c24_self", self);
seq::Reg r4("C24", "c24_short", short_);
seq::Reg r1("C24", "c24_histories", histories);
seq::Reg r2("C24", "c24_longer", longer);
}
