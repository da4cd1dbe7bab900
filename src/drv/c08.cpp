// C08: the authentication handshake against an automaton written from the specification.
#include "common.h"
using namespace drv;

namespace {
const char* const LINES[] = { "OK 1234deadbeef", "AGREE_UNIX_FD", "REJECTED EXTERNAL", "OKAY 12", "AGREE_UNIX_FDS", "OK", "ERROR \"no\"", "", "DATA 3030", "NEGOTIATE_UNIX_FD", " OK 12", "ok 12", "AUTH EXTERNAL 30", "CANCEL", "BEGIN", "FOO OK", "AGREE_UNIX_FD x", "ERROR", "OK\t12", "DATA", "OK\n12", "X\rOK 12", "OKOK", "REJECTED", "\nOK 12", "OK 12\r\r" };
const int NLINES = sizeof LINES / sizeof *LINES;

string word(const string& l) { return l.substr(0, l.find(' ')); }

// Lines with control characters inside are not valid handshake lines; all that is required of them is that they
// complete nothing unless their first word is the command itself.
struct Automaton {
    bool fd;
    bool authSent = false, negotiated = false, done = false;
    int refused = 0; // attempts before the current one
    void line(const string& l)
    {
        if (!authSent || done)
            return;
        if (!fd || !negotiated) {
            if (word(l) == "OK") {
                if (fd)
                    negotiated = true;
                else
                    done = true;
            }
        } else if (word(l) == "AGREE_UNIX_FD")
            done = true;
    }
};

void verify(const Automaton& a, const string& authLine, const string& when)
{
    Stream s = parseSent(0, false);
    VT_CHECK(s.nul, "no NUL byte was sent");
    vector<string> expect(a.refused, authLine);
    if (a.authSent)
        expect.push_back(authLine);
    if (a.negotiated)
        expect.push_back("NEGOTIATE_UNIX_FD");
    if (a.done)
        expect.push_back("BEGIN");
    if (s.lines != expect) {
        string e, g;
        for (auto& l : expect)
            e += l + "|";
        for (auto& l : s.lines)
            g += l + "|";
        vt::fail(when + ": handshake lines sent are " + g + " instead of " + e);
    }
}

// alphabet: how many of LINES; depth: how many lines; the message bytes follow the last line in the same delivery
void script(int alphabet, int depth, bool cuts)
{
    bool fd = vt::pick(2, "mode");
    long uids[] = { 0, 1000, 4294967294L };
    vt::kcfg().uid = cuts ? uids[vt::pick(3, "uid")] : 1000;
    string authLine = "AUTH EXTERNAL " + hexUid(vt::kcfg().uid);
    Automaton a { fd };
    vector<string> got;
    NativeP n = open();
    n->registerSignalHandler("i.f.S", [&](const SG& s) { got.push_back(argOf(s)); });
    vt::idle();
    verify(a, authLine, "before BeginAuth");
    // something the server says before it has been asked must not complete anything
    if (!cuts && vt::pick(2, "early line")) {
        vt::deliver(0, "OK 12\r\n");
        vt::idle();
        verify(a, authLine, "after a line that precedes AUTH");
    }
    n->BeginAuth(fd ? AP::AUTH_NEGOTIATE_UNIX_FD : AP::AUTH_BASIC);
    vt::idle();
    a.authSent = true;
    verify(a, authLine, "after BeginAuth");
    string sc;
    int tagSent = 0;
    size_t expectMsgs = 0;
    int cutLine = cuts ? vt::pick(depth + 1, "fragmented line") : -1; // depth: all of them, byte by byte
    for (int i = 0; i < depth && !a.done; ++i) {
        string l = LINES[vt::pick(alphabet, "line")];
        sc += l + "|";
        string bytes = l + "\r\n";
        Automaton after = a;
        // embedded line ends split the text into several lines
        size_t p = 0, e;
        vector<string> ls;
        while ((e = bytes.find("\r\n", p)) != string::npos) {
            ls.push_back(bytes.substr(p, e - p));
            p = e + 2;
        }
        for (auto& x : ls)
            after.line(x);
        size_t own = bytes.size();
        bool trailing = after.done && !a.done;
        if (trailing) {
            bytes += inSignal(5, "t0") + inSignal(6, "t1");
            tagSent = 2;
        }
        // how the bytes reach the client
        int mode = !cuts ? 0 : cutLine == depth ? 2 : cutLine == i ? 1 : 0;
        if (mode == 0) {
            vt::deliver(0, bytes);
            vt::idle();
        } else if (mode == 1) {
            size_t c = 1 + vt::pick(bytes.size() - 1, "cut");
            vt::deliver(0, bytes.substr(0, c));
            vt::idle();
            verify(c < own ? a : after, authLine, "after a part of '" + printable(sc) + "'");
            vt::deliver(0, bytes.substr(c));
            vt::idle();
        } else {
            for (size_t k = 0; k < bytes.size(); ++k) {
                vt::deliver(0, bytes.substr(k, 1));
                vt::idle();
                if (k + 1 < own)
                    verify(a, authLine, "after a part of '" + printable(sc) + "'");
            }
        }
        a = after;
        verify(a, authLine, "after '" + printable(sc) + "'");
        if (a.done)
            expectMsgs = tagSent;
    }
    VT_CHECK(got.size() == expectMsgs, "after '" + printable(sc) + "' " + to_string(got.size()) + " of the " + to_string(expectMsgs) + " messages that follow the handshake were delivered");
    for (size_t i = 0; i < got.size(); ++i)
        VT_CHECK(got[i] == "t" + to_string(i), "message content changed");
    // handshake text has no meaning any more
    if (a.done) {
        string junk = inSignal(7, "t2");
        vt::deliver(0, junk);
        vt::idle();
        VT_CHECK(got.size() == expectMsgs + 1, "a message after the handshake was not delivered");
        verify(a, authLine, "after the handshake");
    }
    vt::observe(sc + (a.done ? "done" : a.negotiated ? "negotiated" : "open"));
}

// several lines in one delivery, cut at every position
void multi()
{
    static const char* const S[] = { "REJECTED EXTERNAL\r\nOK 12\r\n", "ERROR\r\nDATA\r\nOK\r\n", "OK 12\r\nAGREE_UNIX_FD\r\n", "OK 12\r\nERROR \"no fds\"\r\nAGREE_UNIX_FD\r\n", "OK 1\r\nOK 2\r\nAGREE_UNIX_FD\r\n", "AGREE_UNIX_FD\r\nOK 1\r\nAGREE_UNIX_FD\r\n", "OKAY\r\nAGREE\r\nNOT OK\r\nOK 5\r\nAGREE_UNIX_FD\r\n" };
    string text = S[vt::pick(7, "script")];
    bool fd = vt::pick(2, "mode");
    vt::kcfg().uid = 77;
    string authLine = "AUTH EXTERNAL " + hexUid(77);
    vector<string> got;
    NativeP n = open();
    n->registerSignalHandler("i.f.S", [&](const SG& s) { got.push_back(argOf(s)); });
    n->BeginAuth(fd ? AP::AUTH_NEGOTIATE_UNIX_FD : AP::AUTH_BASIC);
    vt::idle();
    // the automaton reads line by line; everything after the completing line is message data, so send only up to there
    auto upTo = [&](size_t bytes) {
        Automaton a { fd };
        a.authSent = true;
        size_t p = 0, e;
        while ((e = text.find("\r\n", p)) != string::npos && e + 2 <= bytes) {
            a.line(text.substr(p, e - p));
            p = e + 2;
            if (a.done)
                break;
        }
        return std::make_pair(a, p);
    };
    auto full = upTo(text.size());
    if (full.first.done)
        text = text.substr(0, full.second);
    string bytes = text;
    if (full.first.done)
        bytes += inSignal(5, "t0");
    size_t c1 = vt::pick(bytes.size(), "cut 1");
    size_t c2 = vt::thorough() ? c1 + vt::pick(bytes.size() - c1, "cut 2") : c1;
    size_t at[] = { c1, c2, bytes.size() };
    size_t pos = 0;
    for (size_t e : at) {
        if (e == pos)
            continue;
        vt::deliver(0, bytes.substr(pos, e - pos));
        pos = e;
        vt::idle();
        verify(upTo(pos).first, authLine, "after '" + printable(bytes.substr(0, pos)) + "'");
    }
    VT_CHECK(got.size() == (full.first.done ? 1u : 0u), "the message after '" + printable(text) + "' was delivered " + to_string(got.size()) + " times");
    vt::observe(text);
}

// authentication begun again after it has been refused, in either mode, with a message waiting
void retries()
{
    static const char* const REFUSALS[] = { "REJECTED EXTERNAL\r\n", "ERROR \"no\"\r\n", "REJECTED\r\n", "DATA\r\nREJECTED EXTERNAL ANONYMOUS\r\n", "OKAY\r\nERROR\r\n", "AGREE_UNIX_FD\r\nREJECTED EXTERNAL\r\n" };
    int attempts = vt::pick(4, "refusals");
    bool waiting = vt::pick(2, "message waiting"), pieces = vt::pick(2, "in pieces");
    vt::kcfg().uid = 1000;
    string authLine = "AUTH EXTERNAL " + hexUid(1000);
    int calls = 0;
    NativeP n = open();
    n->registerSignalHandler("i.f.S", [&](const SG& s) { ++calls; });
    if (waiting)
        n->broadcastSignal(mkSignal("w"));
    Automaton a;
    auto say = [&](const string& text) {
        for (size_t i = 0; i < text.size(); i += pieces ? 3 : text.size()) {
            vt::deliver(0, pieces ? text.substr(i, 3) : text);
            vt::idle();
        }
    };
    for (int i = 0; i <= attempts; ++i) {
        a.fd = vt::pick(2, "mode");
        n->BeginAuth(a.fd ? AP::AUTH_NEGOTIATE_UNIX_FD : AP::AUTH_BASIC);
        vt::idle();
        a.authSent = true;
        a.refused = i;
        verify(a, authLine, "after beginning for the " + to_string(i + 1) + ". time");
        if (i < attempts) {
            say(REFUSALS[vt::pick(6, "refusal")]);
            verify(a, authLine, "after " + to_string(i + 1) + " refusals");
        }
    }
    if (a.fd) {
        say("OK 12\r\n");
        a.negotiated = true;
        verify(a, authLine, "after OK");
    }
    say((a.fd ? "AGREE_UNIX_FD\r\n" : "OK 12\r\n") + inSignal(5, "x"));
    a.done = true;
    verify(a, authLine, "after " + to_string(attempts) + " refusals and success");
    Stream s = parseSent(0);
    VT_CHECK(s.msgs.size() == (waiting ? 1u : 0u), "after the handshake " + to_string(s.msgs.size()) + " messages were sent");
    VT_CHECK(calls == 1, "the message behind the handshake was delivered " + to_string(calls) + " times");
    n->broadcastSignal(mkSignal("v"));
    vt::idle();
    VT_CHECK(parseSent(0).msgs.size() == s.msgs.size() + 1, "a message sent after the handshake was not transmitted");
    vt::observe(to_string(attempts));
}

// with the server answering at once, every interleaving of the caller, the reader thread and the server
void live()
{
    bool fd = vt::pick(2, "mode");
    vt::kcfg().uid = 4321;
    string authLine = "AUTH EXTERNAL " + hexUid(4321);
    int calls = 0;
    NativeP n = open();
    n->registerSignalHandler("i.f.S", [&](const SG& s) { ++calls; });
    vt::kcfg().shortReads = true;
    spawnBus(0);
    vt::spawnEnv("talk", [] {
        vt::await([] { return parseSent(0).begun; }, "BEGIN");
        vt::deliver(0, inSignal(9, "x"));
    });
    n->BeginAuth(fd ? AP::AUTH_NEGOTIATE_UNIX_FD : AP::AUTH_BASIC);
    vt::idle();
    Automaton a { fd };
    a.authSent = a.done = true;
    a.negotiated = fd;
    verify(a, authLine, "at the end");
    VT_CHECK(calls == 1, "the message after the handshake was delivered " + to_string(calls) + " times");
    vt::observe("done");
}

vt::Reg r1("C08", "c08_lines", 0, 0, [] { script(NLINES, 3, false); }, vt::F_FREE | vt::F_SLOWTOO, -1, -1);
vt::Reg r1b("C08", "c08_longer", 0, 0, [] { script(NLINES, 4, false); }, vt::F_FREE, -1, -1);
vt::Reg r2("C08", "c08_cuts", 0, 0, [] { script(NLINES, 2, true); }, vt::F_FREE, -1, -1);
vt::Reg r3("C08", "c08_multi", 0, 0, multi, vt::F_FREE, -1, -1);
vt::Reg r5("C08", "c08_retries", 0, 0, retries, vt::F_FREE, -1, -1);
vt::Reg r4("C08", "c08_live", 3, 5, live, vt::F_FREE);
}
