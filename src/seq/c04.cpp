// C04: fragmentation of the byte stream. C05: bad messages and failing handlers.
#include "msg.h"
using namespace br;

namespace {
struct Stream {
    string bytes;
    vector<size_t> ends; // of the messages
    vector<string> want;
    void add(const ref::Msg& m)
    {
        bytes += ref::encMsg(m);
        ends.push_back(bytes.size());
        want.push_back(seen(m).str());
    }
};

// after 'upTo' bytes exactly the complete messages have been delivered
void promptly(const Recorder& r, const Stream& s, size_t upTo, const vector<size_t>& cuts)
{
    size_t n = 0;
    while (n < s.ends.size() && s.ends[n] <= upTo)
        ++n;
    string c;
    for (auto x : cuts)
        c += to_string(x) + " ";
    if (r.got.size() != n)
        fail("cut at " + c + ": " + to_string(r.got.size()) + " messages delivered after " + to_string(upTo) + " bytes, when " + to_string(n) + " are complete (message ends: " + [&] {
            string e;
            for (auto x : s.ends)
                e += to_string(x) + " ";
            return e;
        }() + ")");
    for (size_t i = 0; i < n; ++i)
        if (r.got[i] != s.want[i])
            fail("cut at " + c + ": message " + to_string(i) + " delivered as " + r.got[i] + " instead of " + s.want[i]);
}

void feedCut(const Stream& s, const vector<size_t>& cuts, bool checkAll = true)
{
    Recorder r;
    size_t at = 0;
    for (size_t i = 0; i <= cuts.size(); ++i) {
        size_t to = i < cuts.size() ? cuts[i] : s.bytes.size();
        if (!r.feed(s.bytes.substr(at, to - at)))
            fail("well-formed bytes were refused");
        at = to;
        if (checkAll || i == cuts.size())
            promptly(r, s, at, cuts);
    }
}

const int NS = 12;
Stream stream(int k)
{
    Stream s;
    auto z = zoo(), z2 = zoo(100);
    switch (k) {
    case 0:
        s.add(z[8]), s.add(z[9]), s.add(z[8]), s.add(z[9]);
        break;
    case 1:
        s.add(z[0]), s.add(z[4]);
        break;
    case 2:
        s.add(z[4]), s.add(z[0]);
        break;
    case 3:
        s.add(z[1]), s.add(z[2]);
        break;
    case 4:
        s.add(z[2]), s.add(z[1]);
        break;
    case 5:
        s.add(z[3]), s.add(z[8]), s.add(z[7]);
        break;
    case 6:
        s.add(z[5]), s.add(z[6]), s.add(z[5]);
        break;
    case 7:
        s.add(z[0]), s.add(z2[0]), s.add(z[9]);
        break;
    case 8:
        s.add(z[7]), s.add(z2[7]), s.add(z[8]);
        break;
    case 9:
        s.add(z[6]), s.add(z[3]);
        break;
    case 10: { // bodies whose bytes look like messages
        ref::Msg m = ref::signalMsg(3, "/o", "i.f", "S", { ref::str(ref::encMsg(z[8])) });
        s.add(m), s.add(z[8]);
        break;
    }
    case 11:
        for (auto& m : z)
            s.add(m);
        break;
    }
    return s;
}
const Stream& cached(int k)
{
    static Stream c[NS];
    if (c[k].bytes.empty())
        c[k] = stream(k);
    return c[k];
}

// every choice of up to n cuts, ascending
void cuts()
{
    const Stream& s = cached(pick(NS));
    int n = s.bytes.size() > 400 ? (seq::thorough() ? 2 : 1) : s.bytes.size() > 180 ? 2 : seq::thorough() ? 3 : 2;
    vector<size_t> c;
    size_t from = 0;
    for (int i = 0; i < n; ++i) {
        size_t room = s.bytes.size() - 1 - from;
        if (!room)
            break;
        size_t k = pick(room + 1);
        if (k == room)
            break;
        c.push_back(from + 1 + k);
        from = c.back();
    }
    feedCut(s, c);
    seq::observe("cuts");
}
// every subset of the critical positions
void subsets()
{
    const Stream& s = cached(pick(NS - 1));
    vector<size_t> pos;
    size_t begin = 0;
    int quick = seq::thorough() ? 20 : 16;
    vector<vector<size_t>> cand;
    for (size_t e : s.ends) {
        size_t h = 16 + *(const uint32_t*)(s.bytes.data() + begin + 12);
        if (s.bytes[begin] == 'B')
            h = 16 + __builtin_bswap32(h - 16);
        h = (h + 7) / 8 * 8;
        for (size_t p : { begin + 1, begin + 4, begin + 8, begin + 12, begin + 15, begin + 16, begin + 17, begin + h - 1, begin + h, begin + h + 1, e - 1, e })
            if (p < s.bytes.size())
                pos.push_back(p);
        begin = e;
    }
    std::sort(pos.begin(), pos.end());
    pos.erase(std::unique(pos.begin(), pos.end()), pos.end());
    // a window of that many positions
    int n = pos.size(), w = std::min(n, quick);
    int start = n > w ? pick((n - w) / 4 + 2) * 4 : 0;
    start = std::min(start, n - w);
    vector<size_t> c;
    for (int i = 0; i < w; ++i)
        if (pick(2))
            c.push_back(pos[start + i]);
    feedCut(s, c);
    seq::observe("subsets");
}
// chunks of equal size, with large messages among small ones
void sizes()
{
    int k = pick(4);
    static Stream big[4];
    Stream& s = big[k];
    if (s.bytes.empty()) {
        auto z = zoo();
        for (int round = 0; round < 3; ++round)
            for (size_t i = 0; i < z.size(); ++i) {
                s.add(z[(i * 3 + k) % z.size()]);
                if (i == (size_t)k * 2) {
                    int n = round == 0 ? 900 + k * 40 : round == 1 ? 5000 : k == 3 ? 70000 : 2030;
                    s.add(ref::signalMsg(99, "/big/" + string(n % 1000, 'p'), "i.f", "S", { ref::str(string(n, 'x')), ref::num('u', n) }, round & 1));
                }
            }
    }
    static const int N[] = { 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4096, 65536 };
    int i = pick(300 + 9);
    size_t n = i < 300 ? i + 1 : N[i - 300];
    size_t first = pick(seq::thorough() ? 17 : 3); // shifts all cuts
    vector<size_t> c;
    for (size_t at = first ? first : n; at < s.bytes.size(); at += n)
        c.push_back(at);
    Recorder r;
    size_t at = 0, done = 0;
    for (size_t j = 0; j <= c.size(); ++j) {
        size_t to = j < c.size() ? c[j] : s.bytes.size();
        if (!r.feed(s.bytes.substr(at, to - at)))
            fail("well-formed bytes were refused");
        at = to;
        while (done < s.ends.size() && s.ends[done] <= at)
            ++done;
        if (r.got.size() != done)
            fail("chunks of " + to_string(n) + " bytes: " + to_string(r.got.size()) + " messages delivered after " + to_string(at) + " bytes, when " + to_string(done) + " are complete");
    }
    promptly(r, s, s.bytes.size(), { n });
    seq::observe("sizes");
}
// all pairs and triples of messages x one cut, and byte by byte
void pairs()
{
    auto z = zoo();
    Stream s;
    s.add(z[pick(z.size())]);
    s.add(z[pick(z.size())]);
    if (seq::thorough())
        s.add(z[pick(z.size())]);
    int mode = pick(s.bytes.size() + 1);
    vector<size_t> c;
    if (mode == 0)
        for (size_t i = 1; i < s.bytes.size(); ++i)
            c.push_back(i);
    else if ((size_t)mode < s.bytes.size())
        c.push_back(mode);
    feedCut(s, c);
    seq::observe("pairs");
}
// every way to write a message in three parts where every length of string and padding occurs
void shapes()
{
    int a = pick(9), b = pick(9), c = pick(3);
    bool big = pick(2);
    Stream s;
    VV body;
    for (int i = 0; i < c; ++i)
        body.push_back(i ? ref::num('y', 1) : ref::str(string(b, 'b')));
    ref::Msg m = ref::signalMsg(3, "/" + string(a, 'o'), "i.f", "S", body, big);
    s.add(m);
    m.serial = 4;
    m.big = !big;
    s.add(m);
    int mode = pick(s.bytes.size());
    feedCut(s, mode ? vector<size_t> { (size_t)mode } : vector<size_t> {});
    seq::observe("shapes");
}

// ---- C05 ----
enum { GOOD_SIGNAL,
    GOOD_CALL,
    GOOD_RETURN,
    GOOD_ERROR,
    BIG_CALL,
    THROW_STD,
    THROW_INT,
    SHORT_BODY,
    SHORT_ARRAY,
    BAD_SIG,
    BAD_SIG2,
    UNKNOWN0,
    UNKNOWN5,
    UNKNOWN255,
    NO_BODY,
    SHORT_STRING,
    SHORT_VARIANT,
    BAD_VARIANT,
    KINDS };
string messageOf(int kind, uint32_t serial, bool& delivered, string& want)
{
    using namespace ref;
    Msg m = signalMsg(serial, "/o", "i.f", "S", { str("abc"), num('u', serial) });
    delivered = true;
    auto raw = [&](const string& sig, const string& body) {
        delivered = false;
        Msg b = signalMsg(serial, "/o", "i.f", "S", {}, serial & 1);
        b.type = 1 + serial % 4;
        if (b.type == 2 || b.type == 3)
            b.fields.push_back({ 5, num('u', 3) });
        b.fields.push_back({ 8, str(sig, 'g') });
        return encHeader(b, body.size()) + body;
    };
    switch (kind) {
    case GOOD_SIGNAL:
        break;
    case GOOD_CALL:
        m = callMsg(serial, "/o", "i.f", "M", { arr("u", { num('u', serial) }) });
        break;
    case GOOD_RETURN:
        m = returnMsg(serial, serial + 5, { var(str("x")) });
        break;
    case GOOD_ERROR:
        m = errorMsg(serial, serial + 5, "e.E", { str("oops") });
        break;
    case BIG_CALL:
        m = callMsg(serial, "/o", "i.f", "M", { str("throw nothing") }, true);
        break;
    case THROW_STD:
        m = mk(1 + serial % 4, serial);
        m.fields = { { 1, str("/o", 'o') }, { 2, str("i.f") }, { 3, str("ThrowStd") }, { 5, num('u', 4) } };
        m.body = { num('u', 1) };
        break;
    case THROW_INT:
        m = mk(1 + serial % 4, serial);
        m.fields = { { 1, str("/o", 'o') }, { 2, str("i.f") }, { 3, str("ThrowInt") }, { 5, num('u', 4) } };
        break;
    case SHORT_BODY:
        return raw("ut", string("\1\0\0\0\2\0", 6));
    case SHORT_ARRAY:
        return raw("au", string("\x20\0\0\0\2\0\0\0", 8));
    case BAD_SIG:
        return raw("(u", string(8, 0));
    case BAD_SIG2:
        return raw("a", string(8, 0));
    case UNKNOWN0:
    case UNKNOWN5:
    case UNKNOWN255:
        delivered = false;
        m.type = kind == UNKNOWN0 ? 0 : kind == UNKNOWN5 ? 5 : 255;
        m.fields.push_back({ 5, num('u', 3) });
        break;
    case NO_BODY:
        return raw("s", "");
    case SHORT_STRING:
        return raw("s", string("\xff\xff\xff\xff\0\0\0\0", 8));
    case SHORT_VARIANT:
        return raw("v", string("\5a{sv}\0", 7));
    case BAD_VARIANT:
        return raw("v", string("\2a{\0\0\0\0\0", 8));
    }
    if (delivered)
        want = seen(m).str();
    return encMsg(m);
}
void histories()
{
    int n = seq::thorough() ? 5 : 4;
    vector<string> parts, want;
    vector<size_t> due;
    for (int i = 0; i < n; ++i) {
        int k = pick(i == n - 1 ? 4 : KINDS);
        bool d;
        string w;
        parts.push_back(messageOf(k, 10 + 3 * i + pick(i == 1 ? 4 : 1), d, w));
        if (seq::verbose())
            seq::note("message kind " + to_string(k) + ": " + ref::hex(parts.back()));
        if (d)
            want.push_back(w);
        due.push_back(want.size());
    }
    // always a good one at the end
    bool d;
    string w;
    parts.push_back(messageOf(GOOD_CALL, 77, d, w));
    want.push_back(w);
    due.push_back(want.size());
    Recorder r;
    r.after = [](const Seen& s) {
        if (s.member == "ThrowStd")
            throw std::runtime_error("handler");
        if (s.member == "ThrowInt")
            throw 5;
    };
    auto feed = [&](const string& x) {
        try {
            r.p.feed(x);
        } catch (const std::exception& e) {
            fail(string("a well-framed message made the whole input be refused: ") + e.what());
        }
    };
    int mode = pick(4);
    if (mode == 0) {
        for (size_t i = 0; i < parts.size(); ++i) {
            feed(parts[i]);
            SEQ_CHECK(r.got.size() == due[i], "after message " + to_string(i) + " " + to_string(r.got.size()) + " messages are delivered instead of " + to_string(due[i]));
        }
    } else {
        string all;
        for (auto& p : parts)
            all += p;
        size_t step = mode == 1 ? all.size() : mode == 2 ? 1 : 23;
        for (size_t i = 0; i < all.size(); i += step)
            feed(all.substr(i, step));
    }
    string g, x;
    for (auto& s : r.got)
        g += s + "\n";
    for (auto& s : want)
        x += s + "\n";
    SEQ_CHECK(g == x, "delivered:\n" + g + "instead of:\n" + x);
    seq::observe(to_string(want.size()) + " delivered");
}
// handlers missing for some kinds
void missing()
{
    int mask = pick(16);
    Recorder r;
    if (mask & 1)
        r.p.p.setMethodCallHandler(nullptr);
    if (mask & 2)
        r.p.p.setMethodReturnHandler(nullptr);
    if (mask & 4)
        r.p.p.setErrorHandler(nullptr);
    if (mask & 8)
        r.p.p.setSignalHandler(nullptr);
    vector<string> want;
    string all;
    int n = 3;
    for (int i = 0; i < n; ++i) {
        int type = 1 + pick(4);
        ref::Msg m = ref::mk(type, 20 + i);
        m.big = i & 1;
        m.fields = { { 1, ref::str("/o", 'o') }, { 2, ref::str("i.f") }, { 3, ref::str("M") }, { 5, ref::num('u', 4) } };
        m.body = { ref::str("t" + to_string(i)) };
        all += ref::encMsg(m);
        if (!(mask >> (type - 1) & 1))
            want.push_back(seen(m).str());
    }
    size_t step = pick(2) ? all.size() : 7;
    for (size_t i = 0; i < all.size(); i += step)
        SEQ_CHECK(r.feed(all.substr(i, step)), "a message without handler made the input be refused");
    SEQ_CHECK(r.got == want, "with handlers missing (mask " + to_string(mask) + "), " + to_string(r.got.size()) + " messages were delivered instead of " + to_string(want.size()) + " or with different contents");
    seq::observe(to_string(mask));
}
string head(bool big, uint32_t body, uint32_t array, uint8_t type = 4)
{
    string h;
    h.push_back(big ? 'B' : 'l');
    h.push_back((char)type);
    h.push_back(0);
    h.push_back(1);
    ref::putInt(h, body, 4, big);
    ref::putInt(h, 9, 4, big);
    ref::putInt(h, array, 4, big);
    return h;
}
const uint32_t MI = 1 << 20;
// announced sizes at the limits; the refusal comes with the byte that makes the size known
void limits()
{
    bool big = pick(2);
    int kind = pick(3);
    string before;
    size_t nBefore = pick(3);
    auto z = zoo();
    vector<string> want;
    for (size_t i = 0; i < nBefore; ++i)
        before += ref::encMsg(z[i * 3]), want.push_back(seen(z[i * 3]).str());
    string h;
    bool refuse;
    size_t decided; // bytes of h with which the decision is due
    if (kind == 0) {
        static const uint32_t L[] = { 64 * MI, 64 * MI - 1, 64 * MI - 8, 64 * MI + 1, 64 * MI + 8, 65 * MI, 128 * MI, 128 * MI + 1, 0x7fffffff, 0x80000000, 0xfffffff0, 0xffffffff, 0xfffffff8 };
        uint32_t l = L[pick(13)];
        uint32_t body = pick(2) ? 0 : 100;
        h = head(big, body, l);
        decided = 16;
        refuse = l > 64 * MI;
    } else {
        // with and without header fields
        ref::Msg m = ref::mk(4, 9);
        m.big = big;
        if (kind == 2)
            m.fields = { { 1, ref::str("/ob", 'o') }, { 3, ref::str("S") } };
        size_t hs = ref::encHeader(m, 0).size();
        static const uint64_t B[] = { 128ull * MI, 128ull * MI - 1, 128ull * MI + 1, 128ull * MI + 8, 129ull * MI, 0x80000000ull, 0xffffffffull, 0xfffffff0ull, 256ull * MI };
        uint64_t total = B[pick(9)];
        if (total < 0xf0000000ull)
            total -= hs;
        h = ref::encHeader(m, (uint32_t)total);
        decided = hs;
        refuse = total + hs > 128ull * MI;
    }
    int chunk = pick(3); // how what precedes and the head are cut
    Recorder r;
    bool refused = false;
    if (chunk == 0) {
        refused = !r.feed(before + h);
    } else if (chunk == 1) {
        SEQ_CHECK(r.feed(before), "well-formed bytes were refused");
        for (size_t i = 0; i < h.size() && !refused; ++i) {
            refused = !r.feed(h.substr(i, 1));
            SEQ_CHECK(!refused || refuse, "an acceptable size was refused");
        }
    } else {
        SEQ_CHECK(r.feed((before + h).substr(0, before.size() + 5)), "5 bytes of a header were refused");
        refused = !r.feed(h.substr(5));
    }
    SEQ_CHECK(refused == refuse, string(refuse ? "an excessive size was not refused" : "an acceptable size was refused") + " after " + to_string(decided) + " bytes: " + ref::hex(h));
    SEQ_CHECK(r.got == want, "the messages before were not delivered exactly");
    if (refused) {
        // as the connection does
        r.p.p.reset();
        vector<ref::Msg> later = { z[pick(4)], z[6] };
        string bytes;
        for (auto& m : later)
            want.push_back(seen(m).str()), bytes += ref::encMsg(m);
        int step = pick(2) ? 9 : (int)bytes.size();
        for (size_t i = 0; i < bytes.size(); i += step)
            SEQ_CHECK(r.feed(bytes.substr(i, step)), "well-formed bytes were refused after a refusal");
        SEQ_CHECK(r.got == want, "after a refusal " + to_string(r.got.size()) + " messages are delivered instead of " + to_string(want.size()) + " or with different contents");
    }
    seq::observe(refuse ? "refused" : "accepted");
}
// header that cannot be decoded, cut anywhere; reset; good messages
void poison()
{
    string bad;
    auto z = zoo();
    switch (pick(4)) {
    case 0: { // a field whose variant has no signature
        string f = string("\1\0\0\0\0\0\0\0", 8);
        bad = head(false, 0, f.size()) + f;
        break;
    }
    case 1: {
        string f = string("\1\1s\0\xff\xff\xff\x7f", 8);
        bad = head(pick(2), 24, f.size()) + f;
        break;
    }
    case 2:
        bad = head(false, 12, 64 * MI + 1) + string(30, 1);
        break;
    case 3: {
        string f = string("\1\1(\0\0\0\0\0", 8);
        bad = head(true, 3, f.size()) + f;
        break;
    }
    }
    string rest = pick(2) ? string(pick(40), 'l') : ref::encMsg(z[0]).substr(0, pick(60));
    string pre = pick(2) ? ref::encMsg(z[1]) : "";
    string all = pre + bad + rest;
    size_t cut = pick(2) ? pre.size() + pick(bad.size()) : 0;
    Recorder r;
    bool refused = !r.feed(all.substr(0, cut));
    SEQ_CHECK(!refused || cut >= pre.size() + 16, "the beginning of a header was refused");
    if (!refused && cut < all.size())
        refused = !r.feed(all.substr(cut));
    SEQ_CHECK(refused, "an undecodable header was not refused: " + ref::hex(all));
    size_t n = r.got.size();
    r.p.p.reset();
    SEQ_CHECK(r.feed(ref::encMsg(z[2]) + ref::encMsg(z[0])), "well-formed bytes were refused after a reset");
    SEQ_CHECK(r.got.size() == n + 2 && r.got[n] == seen(z[2]).str() && r.got[n + 1] == seen(z[0]).str(), "messages after a reset are not delivered exactly");
    seq::observe("poison");
}
// messages as large as allowed really are delivered
void largest()
{
    seq::split(4);
    int kind = pick(2);
    bool big = pick(2);
    Recorder r;
    ref::Msg m = ref::signalMsg(3, "/o", "i.f", "S", {}, big);
    size_t n = kind ? 128 * MI : 64 * MI;
    string bytes;
    if (kind) {
        m.fields.push_back({ 8, ref::str("s", 'g') });
        size_t body = n - ref::encHeader(m, 0).size();
        bytes = ref::encHeader(m, body);
        ref::putInt(bytes, body - 5, 4, big);
        bytes.append(body - 5, 'x');
        bytes.push_back(0);
    } else { // header array of 64 MiB: an unknown field that holds a string
        m.fields.push_back({ 200, ref::str("") });
        string h = ref::encHeader(m, 0);
        uint32_t len = 0;
        for (int i = 0; i < 4; ++i)
            len |= (uint32_t)(uint8_t)h[12 + (big ? 3 - i : i)] << (8 * i);
        m.fields.back().v.s = string(n - len, 'h');
        bytes = ref::encHeader(m, 0);
    }
    int got = 0;
    r.p.p.setSignalHandler([&](const DBus::Message::Signal& s) {
        ++got;
        SEQ_CHECK(s.getHeaderMember() == "S", "wrong member");
        if (kind)
            SEQ_CHECK(s.getParameterCount() == 1 && T::asString(s.getParameter(0)).size() > 128 * MI - 4096, "the parameter of the largest message is wrong");
    });
    for (size_t i = 0; i < bytes.size(); i += MI) {
        SEQ_CHECK(!got, "delivered before it was complete");
        SEQ_CHECK(r.feed(bytes.substr(i, MI)), "a message of the greatest allowed size was refused");
    }
    SEQ_CHECK(got == 1, "a message of the greatest allowed size was not delivered");
    seq::observe("largest");
}

seq::Reg a1("C04", "c04_cuts", cuts);
seq::Reg a2("C04", "c04_subsets", subsets);
seq::Reg a3("C04", "c04_sizes", sizes);
seq::Reg a4("C04", "c04_pairs", pairs);
seq::Reg a5("C04", "c04_shapes", shapes);
seq::Reg b1("C05", "c05_histories", histories);
seq::Reg b2("C05", "c05_missing", missing);
seq::Reg b3("C05", "c05_limits", limits);
seq::Reg b4("C05", "c05_poison", poison);
seq::Reg b5("C05", "c05_largest", largest);
}
