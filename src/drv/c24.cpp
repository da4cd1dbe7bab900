// C24: copies of one value or message are independent also when they are used by different threads.
#include "common.h"
#include "dbus_messageostream.h"
#include <mutex>
using namespace drv;
namespace T = DBus::Type;

namespace {
struct Things {
    SG m;
    T::Array a;
    T::Struct s;
    T::Variant v;
    DBus::Message::MethodCallParametersIn p;
};
T::Struct aStruct(int i)
{
    T::Struct s;
    s.add(T::Uint32(i));
    s.add(T::String("a text that is longer than any small buffer " + to_string(i)));
    return s;
}
Things* make(const SG* received)
{
    Things* t = new Things { received ? *received : SG(DBus::Message::MethodCallIdentifier("/o", "i.f", "S")), T::Array(), aStruct(7), T::Variant(T::String("within a variant, and also long")), {} };
    t->a.add(aStruct(1));
    t->a.add(aStruct(2));
    t->s.add(aStruct(8));
    t->s.add(t->v);
    t->m.addParameter(t->s);
    t->m.addParameter(t->a);
    t->m.addParameter(T::String("parameter"));
    t->p.add(t->v);
    t->p.add(t->a);
    return t;
}
template <class X>
string bytesOf(const X& x)
{
    DBus::MessageOStream s;
    T::marshallData(x, s);
    return T::getMarshallingSignature(x) + ":" + s.data;
}
string bytesOf(const SG& m)
{
    string b = m.marshall("d.e");
    return b.substr(0, 8) + b.substr(12); // without the serial
}
string everything(const Things& t)
{
    DBus::MessageOStream s;
    t.p.marshallData(s);
    return bytesOf(t.m) + "|" + bytesOf(T::Generic(t.a)) + "|" + bytesOf(T::Generic(t.s)) + "|" + bytesOf(T::Generic(t.v)) + "|" + s.data + "|" + T::toString(T::Generic(t.s), "");
}
const int NOPS = 10;
// what a thread does with its own copy
string work(std::unique_ptr<Things> t, int op)
{
    switch (op) {
    case 0:
        t->m.addParameter(T::Uint32(op));
        t->p.add(string("one more"));
        break;
    case 1:
        t->a.add(aStruct(3));
        t->s.add(aStruct(8));
        break;
    case 2:
        t->v = T::Variant(T::String("other"));
        t->s.add(t->v);
        break;
    case 3:
        return T::asString(t->m.getParameter(t->m.getParameterCount() - 1)) + T::asString(T::refStruct(t->m.getParameter(t->m.getParameterCount() - 3))[1]);
    case 4: {
        Things u(*t);
        u.a.add(aStruct(4));
        u.m.addParameter(u.a);
        return everything(u) + everything(*t);
    }
    case 5: {
        std::unique_ptr<Things> u(make(0));
        t->m = u->m;
        t->s = u->s;
        u->s.add(T::Byte(1));
        u.reset();
        break;
    }
    case 6: {
        T::Struct x = T::refStruct(t->m.getParameter(t->m.getParameterCount() - 3));
        x.add(T::Byte(9));
        t->m.addParameter(x);
        break;
    }
    case 7:
        t.reset();
        return "gone";
    case 8:
        t->s.clear();
        t->s.add(T::Byte(3));
        break;
    case 9: {
        T::Generic g(t->a), h(g);
        t->a = T::refArray(h);
        t->a.add(aStruct(5));
        break;
    }
    }
    return everything(*t);
}
// where: 0 both copies are made beforehand, 1 by the threads themselves, 2 one thread has the original
void threads()
{
    int a = vt::pick(NOPS, "what A does"), b = a + vt::pick(NOPS - a, "what B does"), where = vt::pick(3, "copies");
    bool received = vt::pick(2, "received");
    NativeP n;
    std::unique_ptr<SG> in;
    std::mutex mutex;
    if (received) {
        n = ready();
        n->registerSignalHandler("i.f.S", [&](const SG& s) { std::lock_guard<std::mutex> l(mutex); if (!in) in.reset(new SG(s)); });
        vt::deliver(0, inSignal(5, "what has been received"));
        vt::idle();
        std::lock_guard<std::mutex> l(mutex);
        VT_CHECK(in, "the signal was not delivered");
    }
    string wantA, wantB;
    {
        // each on objects that share nothing with any other
        std::unique_ptr<Things> x(make(in.get()));
        wantA = work(std::move(x), a);
        std::unique_ptr<Things> y(make(in.get()));
        wantB = work(std::move(y), b);
    }
    std::unique_ptr<Things> o(make(in.get())), ca, cb;
    string before = everything(*o);
    if (where == 0 || where == 2)
        ca.reset(new Things(*o));
    if (where == 0)
        cb.reset(new Things(*o));
    if (where == 2)
        cb = std::move(o);
    string gotA, gotB;
    int t1 = vt::spawn("A", [&] { gotA = work(where == 1 ? std::unique_ptr<Things>(new Things(*o)) : std::move(ca), a); });
    int t2 = vt::spawn("B", [&] { gotB = work(where == 1 ? std::unique_ptr<Things>(new Things(*o)) : std::move(cb), b); });
    if (received) // the reader goes on meanwhile
        vt::deliver(0, inSignal(6, "what comes afterwards"));
    vt::join(t1);
    vt::join(t2);
    VT_CHECK(gotA == wantA, "the copy of thread A was affected by thread B");
    VT_CHECK(gotB == wantB, "the copy of thread B was affected by thread A");
    if (o)
        VT_CHECK(everything(*o) == before, "the original was affected by its copies");
    if (n) {
        vt::idle();
        n.reset();
    }
    vt::observe(to_string(where));
}
vt::Reg r1("C24", "c24_threads", 1, 2, threads, vt::F_FREE, -1, -1);
vt::Reg r2("C24", "c24_threads_race", 0, 0, threads, vt::F_FREE | vt::F_RACEFAIL, 0, 1);
}
