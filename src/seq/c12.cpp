// C12: every serial of a whole cycle of the counter, by creating that many messages.
#include "dbus.h"
#include "seq.h"

using namespace DBus::Message;

namespace {
uint32_t create(uint64_t i)
{
    if (i & 0xfff)
        return MethodReturn(5).getSerial();
    switch ((i >> 12) % 3) {
    case 0:
        return MethodCall(MethodCallIdentifier("/o", "i.f", "M")).getSerial();
    case 1:
        return Signal(MethodCallIdentifier("/o", "i.f", "S")).getSerial();
    default:
        return Error(5, "e.x", "t").getSerial();
    }
}

void cycle()
{
    seq::mayTake(500);
    seq::split(1);
    seq::pick(1); // one worker
    const uint64_t all = 0xffffffffull; // values other than zero
    const size_t again = 1u << 22; // messages created after the cycle
    std::vector<uint64_t> seen(1u << 26);
    std::vector<uint32_t> first(again);
    for (uint64_t i = 0; i < all; ++i) {
        uint32_t s = create(i);
        if (s == 0)
            seq::fail("message " + std::to_string(i) + " of the process got serial 0");
        uint64_t& w = seen[s >> 6];
        uint64_t b = 1ull << (s & 63);
        if (w & b)
            seq::fail("message " + std::to_string(i) + " of the process got the serial " + std::to_string(s) + " of an earlier one");
        w |= b;
        if (i < again)
            first[i] = s;
    }
    // Every value is in use by one of the preceding 2^32-2 messages but one
    for (size_t i = 0; i < again; ++i) {
        uint32_t s = create(i);
        if (s == 0)
            seq::fail("message " + std::to_string(all + i) + " of the process got serial 0");
        if (s != first[i])
            seq::fail("message " + std::to_string(all + i) + " of the process got the serial " + std::to_string(s) + " of an earlier one, created less than 2^32-1 messages before");
    }
    seq::observe("2^32-1 distinct serials");
}
seq::Reg r("C12", "c12_cycle", cycle);
}
