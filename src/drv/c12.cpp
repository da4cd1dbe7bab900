// C12: serials of created messages.
#include "common.h"
using namespace drv;
extern "C" char __data_start, _end;

namespace {
uint32_t create(int kind)
{
    switch (kind % 4) {
    case 0:
        return MC(MID("/o", "i.f", "M")).getSerial();
    case 1:
        return SG(MID("/o", "i.f", "S")).getSerial();
    case 2:
        return MR(5).getSerial();
    default:
        return ER(5, "e.x", "t").getSerial();
    }
}

void distinct(const vector<vector<uint32_t>>& v)
{
    std::set<uint32_t> seen;
    for (auto& t : v)
        for (uint32_t s : t) {
            if (s == 0)
                vt::fail("a message got serial 0");
            if (!seen.insert(s).second)
                vt::fail("two messages got the serial " + to_string(s));
        }
}

void threads(int nt, int per)
{
    vector<vector<uint32_t>> got(nt);
    vector<int> ids;
    for (int t = 0; t < nt; ++t)
        ids.push_back(vt::spawn(string(1, 'A' + t), [&got, t, per] {
            for (int i = 0; i < per; ++i)
                got[t].push_back(create(t + i));
        }));
    for (int i : ids)
        vt::join(i);
    distinct(got);
    vt::observe("distinct");
}

// Locates the counter by watching which word of the program's static data follows the serials. Null when there is none.
uint32_t* counter(int& delta)
{
    static uint32_t* found = 0;
    static int foundDelta = 0;
    static bool searched = false;
    if (!searched) {
        searched = true;
        uint32_t* lo = (uint32_t*)(((uintptr_t)&__data_start + 3) & ~3ul);
        uint32_t* hi = (uint32_t*)((uintptr_t)&_end & ~3ul);
        vector<std::pair<uint32_t*, int>> cand;
        for (int round = 0; round < 5; ++round) {
            for (int i = 0; i < round % 3; ++i)
                vt::point("decouple"); // from the engine's own counters
            uint32_t s = create(round);
            vector<std::pair<uint32_t*, int>> next;
            if (round == 0) {
                for (uint32_t* p = lo; p < hi; ++p)
                    for (int d = 0; d <= 1; ++d)
                        if (*p == s + d)
                            next.push_back({ p, d });
            } else
                for (auto& c : cand)
                    if (*c.first == s + c.second)
                        next.push_back(c);
            cand.swap(next);
        }
        if (cand.size() == 1) {
            found = cand[0].first;
            foundDelta = cand[0].second;
        }
    }
    delta = foundDelta;
    return found;
}

void wrap(int nt, int per)
{
    int d;
    uint32_t* c = counter(d);
    if (!c) {
        vt::observe("counter not located");
        return;
    }
    // the k-th next message would wrap
    uint32_t start = (uint32_t)(0u - (uint32_t)vt::pick(6, "distance to the wrap")) - 2; // as if this serial was the last
    uint32_t before = *c;
    *c = start + d;
    vector<vector<uint32_t>> got(nt + 1);
    // serials that were handed out just before
    vector<int> ids;
    for (int t = 0; t < nt; ++t)
        ids.push_back(vt::spawn(string(1, 'A' + t), [&got, t, per] {
            for (int i = 0; i < per; ++i)
                got[t].push_back(create(t + i));
        }));
    for (int i = 0; i < per; ++i)
        got[nt].push_back(create(i));
    for (int i : ids)
        vt::join(i);
    *c = before;
    distinct(got);
    vt::observe("wrapped " + to_string(got[nt].size() ? got[nt][0] : 0));
}

// the serials on the wire are the ones of the messages, also for messages sent by several connections of the process
void wire()
{
    NativeP n = ready("/p1"), k = ready("/p2");
    int t1 = vt::spawn("A", [&] { n->sendSignal("", mkSignal("a")); n->sendMethodCall("d", mkCall("b")); });
    int t2 = vt::spawn("B", [&] { k->sendSignal("", mkSignal("c")); n->callListNames([](const MR&) {}, [](const ER&) {}); });
    vt::join(t1);
    vt::join(t2);
    vt::idle();
    vector<vector<uint32_t>> got(2);
    for (int c = 0; c < 2; ++c)
        for (auto& m : parseSent(c, false).msgs)
            got[c].push_back(m.serial);
    VT_CHECK(got[0].size() == 3 && got[1].size() == 1, "messages are missing");
    distinct(got);
    vt::observe("distinct");
}

vt::Reg r1("C12", "c12_two", 8, 12, [] { threads(2, 5); }, 0, 3, 6);
vt::Reg r2("C12", "c12_three", 5, 8, [] { threads(3, 3); }, 0, 2, 4);
vt::Reg r3("C12", "c12_wrap", 0, 0, [] { wrap(0, 12); }, vt::F_FREE);
vt::Reg r4("C12", "c12_wrap_threads", 6, 9, [] { wrap(1, 5); }, vt::F_FREE);
vt::Reg r5("C12", "c12_wire", 2, 2, wire, vt::F_SLOWTOO);
}
