// C18: introspection documents. C19: bus addresses. C22: logging.
#include "dbus_introspectable.h"
#include "dbus_platform.h"
#include "msg.h"
#include <cstdlib>
using namespace br;
namespace I = DBus::Introspectable;

namespace {
// ---- a strict reader for the XML subset that documents may use ----
struct Node {
    string name;
    std::map<string, string> attr;
    vector<Node> kids;
};
struct Xml {
    const string& s;
    size_t p = 0;
    [[noreturn]] void bad(const char* why) { fail(string("document is not well-formed (") + why + " at " + to_string(p) + "): " + s); }
    void ws()
    {
        while (p < s.size() && strchr(" \t\r\n", s[p]))
            ++p;
    }
    static bool nameChar(char c) { return isalnum((unsigned char)c) || c == '_' || c == '-' || c == '.' || c == ':'; }
    string name()
    {
        string r;
        if (p >= s.size() || !(isalpha((unsigned char)s[p]) || s[p] == '_'))
            bad("name");
        while (p < s.size() && nameChar(s[p]))
            r += s[p++];
        return r;
    }
    string value()
    {
        if (p >= s.size() || (s[p] != '\'' && s[p] != '"'))
            bad("attribute value");
        char q = s[p++];
        string r;
        while (p < s.size() && s[p] != q) {
            if (s[p] == '<')
                bad("< in attribute");
            if (s[p] == '&') {
                static const char* E[][2] = { { "&lt;", "<" }, { "&gt;", ">" }, { "&amp;", "&" }, { "&apos;", "'" }, { "&quot;", "\"" } };
                bool ok = false;
                for (auto& e : E)
                    if (s.compare(p, strlen(e[0]), e[0]) == 0) {
                        r += e[1];
                        p += strlen(e[0]);
                        ok = true;
                        break;
                    }
                if (!ok)
                    bad("entity");
                continue;
            }
            r += s[p++];
        }
        if (p >= s.size())
            bad("unterminated value");
        ++p;
        return r;
    }
    bool starts(const char* t) { return s.compare(p, strlen(t), t) == 0; }
    void misc()
    {
        for (;;) {
            ws();
            if (starts("<?")) {
                p = s.find("?>", p);
                if (p == string::npos)
                    bad("processing instruction");
                p += 2;
            } else if (starts("<!--")) {
                p = s.find("-->", p + 4);
                if (p == string::npos)
                    bad("comment");
                p += 3;
            } else if (starts("<!DOCTYPE")) {
                p += 9;
                char q = 0;
                while (p < s.size() && (q || s[p] != '>')) {
                    if (q ? s[p] == q : s[p] == '"' || s[p] == '\'')
                        q = q ? 0 : s[p];
                    ++p;
                }
                if (p >= s.size())
                    bad("doctype");
                ++p;
            } else
                return;
        }
    }
    Node element()
    {
        Node n;
        if (p >= s.size() || s[p] != '<')
            bad("element expected");
        ++p;
        n.name = name();
        for (;;) {
            size_t before = p;
            ws();
            if (p >= s.size())
                bad("unterminated tag");
            if (s[p] == '/') {
                ++p;
                if (p >= s.size() || s[p] != '>')
                    bad("/");
                ++p;
                return n;
            }
            if (s[p] == '>') {
                ++p;
                break;
            }
            if (before == p)
                bad("no space before attribute");
            string a = name();
            ws();
            if (p >= s.size() || s[p] != '=')
                bad("=");
            ++p;
            ws();
            if (n.attr.count(a))
                bad("attribute twice");
            n.attr[a] = value();
        }
        for (;;) {
            misc();
            if (starts("</")) {
                p += 2;
                if (name() != n.name)
                    bad("end tag");
                ws();
                if (p >= s.size() || s[p] != '>')
                    bad("end tag");
                ++p;
                return n;
            }
            n.kids.push_back(element());
        }
    }
    Node document()
    {
        misc();
        Node n = element();
        misc();
        if (p != s.size())
            bad("text after the document");
        return n;
    }
};

vector<string> split(const string& sig)
{
    vector<string> r;
    for (size_t i = 0; i < sig.size();) {
        size_t n = ref::oneType(sig, i);
        r.push_back(sig.substr(i, n));
        i += n;
    }
    return r;
}

// what is declared, and the document as one line per item
struct Decl {
    I::Introspection doc;
    string want;
};
struct Face {
    I::Interface face;
    string props, methods, signals, name;
    Face(const string& n)
        : face(n)
        , name(n)
    {
    }
    void prop(const string& n, const string& type, int access)
    {
        static const char* const A[] = { "read", "write", "readwrite" };
        if (access == 0 && n.size() == 1)
            face.addProperty(I::Property(n, type)); // the default
        else
            face.addProperty(I::Property(n, type, access == 0 ? I::Property::PROPERTY_READ : access == 1 ? I::Property::PROPERTY_WRITE : I::Property::PROPERTY_READWRITE));
        props += " property " + n + " " + type + " " + A[access] + "\n";
    }
    void method(const string& n, const string& in, const string& out)
    {
        face.addMethod(I::Method(n, in, out));
        methods += " method " + n + " in";
        for (auto& s : split(in))
            methods += " " + s;
        methods += " out";
        for (auto& s : split(out))
            methods += " " + s;
        methods += "\n";
    }
    void signal(const string& n, const string& type)
    {
        face.addSignal(I::Signal(n, type));
        signals += " signal " + n;
        for (auto& s : split(type))
            signals += " " + s;
        signals += "\n";
    }
    string text() const { return "interface " + name + "\n" + props + methods + signals; }
};
string described(const string& doc)
{
    Xml x { doc };
    Node n = x.document();
    SEQ_CHECK(n.name == "node", "the document's element is " + n.name);
    string r;
    auto attr = [&](const Node& k, const char* a) {
        auto it = k.attr.find(a);
        if (it == k.attr.end())
            fail("element " + k.name + " without " + a + ": " + doc);
        return it->second;
    };
    for (auto& f : n.kids) {
        SEQ_CHECK(f.name == "interface", "element " + f.name + " in node: " + doc);
        r += "interface " + attr(f, "name") + "\n";
        string props, methods, signals;
        for (auto& k : f.kids) {
            if (k.name == "property") {
                props += " property " + attr(k, "name") + " " + attr(k, "type") + " " + attr(k, "access") + "\n";
                SEQ_CHECK(k.kids.empty(), "element inside of a property");
            } else if (k.name == "method" || k.name == "signal") {
                bool m = k.name == "method";
                string in, out;
                for (auto& a : k.kids) {
                    if (a.name == "annotation")
                        continue;
                    SEQ_CHECK(a.name == "arg", "element " + a.name + " in " + k.name + ": " + doc);
                    string dir = a.attr.count("direction") ? a.attr.at("direction") : m ? "in" : "out";
                    SEQ_CHECK(dir == "in" || dir == "out", "direction " + dir);
                    SEQ_CHECK(m || dir == "out", "signal argument with direction in");
                    (dir == "in" ? in : out) += " " + attr(a, "type");
                }
                if (m)
                    methods += " method " + attr(k, "name") + " in" + in + " out" + out + "\n";
                else
                    signals += " signal " + attr(k, "name") + out + "\n";
            } else
                fail("element " + k.name + " in interface: " + doc);
        }
        r += props + methods + signals;
    }
    return r;
}
void compare(const I::Introspection& doc, const string& want)
{
    string d = doc.serialize();
    if (seq::verbose())
        seq::note(d);
    string got = described(d);
    SEQ_CHECK(got == want, "the document says\n" + got + "instead of\n" + want);
    SEQ_CHECK(doc.serialize() == d, "serializing again gives something else");
}

const char LEAVES[] = "ybnqiuxtdsogvh";
// signatures of up to n complete types, each with up to 'size' further type codes
string sigs(int n, int size)
{
    GenCfg c;
    c.leaves = LEAVES;
    c.fields = 3;
    string r;
    for (int k = pick(n + 1); k > 0; --k) {
        int s = size;
        r += genSig(c, s);
    }
    return r;
}
void signatures()
{
    Face f("a.b");
    int kind = pick(4);
    // one complicated, or several simple types
    string s;
    switch (pick(3)) {
    case 0:
        s = sigs(1, seq::thorough() ? 5 : 4);
        break;
    case 1:
        s = sigs(2, 2);
        break;
    default:
        s = sigs(seq::thorough() ? 4 : 3, 0);
        break;
    }
    if (kind == 0)
        f.method("M", s, "");
    else if (kind == 1)
        f.method("M", "", s);
    else if (kind == 2)
        f.signal("S", s);
    else {
        auto t = split(s);
        f.prop("P", t.empty() ? "s" : t[0], pick(3));
    }
    I::Introspection d;
    d.addInterface(f.face);
    compare(d, f.text());
    seq::observe(s);
}
// declarations in all orders and counts
void declarations()
{
    I::Introspection d;
    string want;
    int faces = pick(3), swapped = faces == 2 ? pick(2) : 0;
    int ops = faces == 2 ? 3 : seq::thorough() ? 5 : 4;
    static const char* const NAMES[] = { "Ab", "a1_", "Ab2" };
    static const char* const SIG[] = { "", "s", "a{sv}(ii)", "uas" };
    for (int i = 0; i < faces; ++i) {
        Face f(i == swapped ? "org.x.Y" : "a.b");
        for (int n = pick(ops + 1); n > 0; --n) {
            string name = NAMES[(n + 2 * swapped) % 3];
            switch (pick(3)) {
            case 0:
                f.prop(name, n % 2 ? "as" : "(ys)", pick(3));
                break;
            case 1:
                f.method(name, SIG[pick(n == 1 ? 4 : 2)], SIG[2 * pick(2)]);
                break;
            case 2:
                f.signal(name, SIG[pick(3)]);
                break;
            }
        }
        d.addInterface(f.face);
        want += f.text();
        if (pick(2)) { // the document has taken a copy
            f.face.addMethod(I::Method("later", "s", ""));
        }
    }
    compare(d, want);
    seq::observe(to_string(want.size()));
}
// many of each, deep signatures
void bulk()
{
    static const int N[] = { 0, 1, 2, 3, 10, 31, 32, 33, 64, 100, 200 };
    I::Introspection d;
    string want;
    int nf = N[pick(5)], n = N[pick(11)], depth = N[pick(7)];
    for (int i = 0; i < nf; ++i) {
        Face f("a.b" + to_string(i));
        for (int k = 0; k < n; ++k) {
            string sig = string(std::min(depth, 31), 'a') + "(" + string(k % 5, 'i') + "s)" + string(depth % 30, '(') + "y" + string(depth % 30, ')');
            f.method("M" + to_string(k), sig, sig + "a{s" + sig.substr(0, ref::oneType(sig, 0)) + "}");
            f.signal("S" + to_string(k), sig);
            f.prop("P" + to_string(k), "a{s" + sig.substr(0, ref::oneType(sig, 0)) + "}", k % 3);
        }
        d.addInterface(f.face);
        want += f.text();
    }
    compare(d, want);
    seq::observe(to_string(want.size()));
}

// ---- C19 ----
void resolve(const char* addr, bool session, bool viaEnv, const string& want)
{
    string got;
    const char* var = session ? "DBUS_SESSION_BUS_ADDRESS" : "DBUS_SYSTEM_BUS_ADDRESS";
    const char* other = session ? "DBUS_SYSTEM_BUS_ADDRESS" : "DBUS_SESSION_BUS_ADDRESS";
    if (viaEnv) {
        setenv(other, "unix:path=/the/other/one", 1);
        if (addr)
            setenv(var, addr, 1);
        else
            unsetenv(var);
        got = session ? DBus::Platform::getSessionBus() : DBus::Platform::getSystemBus();
    } else
        got = session ? DBus::Platform::getSessionBus(addr) : DBus::Platform::getSystemBus(addr);
    auto show = [](const string& s) {
        string r;
        for (char c : s)
            r += c ? string(1, c) : "\\0";
        return "'" + r + "'";
    };
    if (seq::verbose())
        seq::note(string(addr ? addr : "(absent)") + " -> " + show(got));
    SEQ_CHECK(got == want, "address " + string(addr ? addr : "(absent)") + " gives " + show(got) + " instead of " + show(want));
}
string word(const char* alphabet, int n)
{
    string r;
    int a = strlen(alphabet);
    for (int k = pick(n + 1); k > 0; --k)
        r += alphabet[pick(a)];
    return r;
}
void addresses()
{
    bool session = pick(2), env = pick(2);
    int form = pick(4);
    if (form == 3) {
        resolve(0, session, env, session ? "" : "/var/run/dbus/system_bus_socket");
        return;
    }
    string path;
    switch (pick(4)) {
    case 0:
        path = word("/ag,=:u.-_", seq::thorough() ? 6 : 5);
        break;
    case 1: { // pieces that look like parameters
        static const char* const P[] = { "/tmp/dbus-XyZ", ",", "guid", "=", ",guid", "guid=", "unix:path=", "unix:abstract=", "/", ";", ",gui", "%20", " " };
        for (int n = pick(seq::thorough() ? 5 : 4); n > 0; --n)
            path += P[pick(13)];
        break;
    }
    case 2: { // all bytes
        path = string("/x") + (char)(1 + pick(255)) + "y" + (pick(2) ? string(1, (char)(1 + pick(255))) : "");
        break;
    }
    case 3:
        path = "/" + string(pick(300), 'p');
        break;
    }
    if (form == 2) { // any other string
        string pre = "";
        switch (pick(9)) {
        case 0:
            break;
        case 1:
            pre = "unix:path";
            if (path.size() && path[0] == '=')
                return;
            break;
        case 2:
            pre = "unix:";
            break;
        case 3:
            pre = " unix:path=";
            break;
        case 4:
            pre = "UNIX:path=";
            break;
        case 5:
            pre = "/run/x,guid=";
            break;
        case 6:
            pre = "tcp:host=localhost,port=1,guid=0123";
            break;
        case 7:
            pre = "unix:abstrac=";
            break;
        case 8:
            pre = "xunix:abstract=";
            break;
        }
        string a = pre + path;
        if (a.find("unix:path=") == 0 || a.find("unix:abstract=") == 0)
            return;
        resolve(a.c_str(), session, env, a);
        seq::observe("other");
        return;
    }
    if (path.find(",guid=") != string::npos)
        return; // ambiguous
    string guid;
    switch (pick(4)) {
    case 0:
        break;
    case 1:
        guid = ",guid=";
        break;
    case 2:
        guid = ",guid=0123456789abcdef0123456789abcdef";
        break;
    case 3:
        guid = ",guid=f";
        break;
    }
    if ((path + ",guid=").find(",guid=") != path.size())
        return;
    string want = form ? string(1, '\0') + path : path;
    resolve(((form ? "unix:abstract=" : "unix:path=") + path + guid).c_str(), session, env, want);
    seq::observe(form ? "abstract" : "path");
}

// ---- C22 ----
struct Capture {
    FILE* old = stderr;
    char* buf = 0;
    size_t n = 0;
    FILE* f = 0;
    bool done = false;
    Capture()
    {
        f = open_memstream(&buf, &n);
        stderr = f;
    }
    string take()
    {
        fflush(f);
        stderr = old;
        fclose(f);
        done = true;
        string s(buf, n);
        free(buf);
        return s;
    }
    ~Capture()
    {
        if (!done)
            take();
        DBus::Log::setLevel(DBus::Log::ERROR + 1);
    }
};
const size_t SEV[] = { DBus::Log::TRACE, DBus::Log::INFO, DBus::Log::WARNING, DBus::Log::ERROR };
void levels()
{
    int l = pick(5), s = pick(4);
    size_t level = l == 4 ? DBus::Log::ERROR + 1 : SEV[l];
    int what = pick(5);
    DBus::Log::setLevel(pick(2) ? SEV[pick(4)] : level); // an earlier choice is forgotten
    DBus::Log::setLevel(level);
    bool want = s >= l;
    SEQ_CHECK(DBus::Log::isActive(SEV[s]) == want, "severity " + to_string(s) + " active at level " + to_string(l));
    Capture c;
    string expect;
    switch (what) {
    case 0:
        DBus::Log::write(SEV[s], "plain\n");
        expect = "plain\n";
        break;
    case 1:
        DBus::Log::write(SEV[s], "%d %s %zu %%\n", -5, "x%sy", (size_t)7);
        expect = "-5 x%sy 7 %\n";
        break;
    case 2:
        DBus::Log::write(SEV[s], "%s", string(100000, 'z').c_str());
        expect = string(100000, 'z');
        break;
    case 3:
        DBus::Log::write(SEV[s], "");
        break;
    case 4:
        DBus::Log::write(SEV[s], "a");
        DBus::Log::write(SEV[s], "b\n");
        expect = "ab\n";
        break;
    }
    string got = c.take();
    SEQ_CHECK(got == (want ? expect : ""), "level " + to_string(l) + ", severity " + to_string(s) + ": the log has '" + got.substr(0, 60) + "'");
    seq::observe(want ? "shown" : "hidden");
}
void longLines()
{
    int l = pick(5), s = pick(4), bits = 6 + pick(seq::thorough() ? 16 : 12), form = pick(3);
    string text((1u << bits) + pick(5) - 2, 'x');
    for (size_t i = 0; i < text.size(); ++i)
        text[i] = 'a' + i % 23;
    DBus::Log::setLevel(l == 4 ? DBus::Log::ERROR + 1 : SEV[l]);
    Capture c;
    if (form == 0)
        DBus::Log::write(SEV[s], "%s\n", text.c_str());
    else if (form == 1)
        DBus::Log::write(SEV[s], text.c_str());
    else
        DBus::Log::write(SEV[s], "<%s|%d|%s>", text.c_str(), 7, text.c_str());
    string want = s < l ? "" : form == 0 ? text + "\n" : form == 1 ? text : "<" + text + "|7|" + text + ">";
    string got = c.take();
    SEQ_CHECK(got == want, "a log message of " + to_string(want.size()) + " bytes appears as " + to_string(got.size()) + " bytes");
    seq::observe(want.empty() ? "hidden" : "shown");
}
void hexdumps(bool large)
{
    int l = pick(5), s = pick(4);
    static const char* const PRE[] = { "P: ", "", "%s %n: ", "a long prefix that says what it is : " };
    string pre = PRE[pick(4)];
    string data;
    if (large) {
        // around the sizes at which buffers may end
        int bits = 8 + pick(seq::thorough() ? 12 : 10);
        size_t n = (1u << bits) + pick(5) - 2;
        if (pick(2))
            n = n / 2 * 3;
        for (size_t i = 0; i < n; ++i)
            data.push_back((char)(i * 7 + i / 256));
    } else if (pick(2)) {
        int n = pick(seq::thorough() ? 1100 : 200);
        for (int i = 0; i < n; ++i)
            data.push_back((char)(i * 7 + 3));
    } else {
        data = string(pick(3), 'x') + (char)pick(256) + string(31 * pick(3), (char)0xf0);
    }
    DBus::Log::setLevel(l == 4 ? DBus::Log::ERROR + 1 : SEV[l]);
    Capture c;
    DBus::Log::writeHex(SEV[s], pre, data);
    string got = c.take();
    if (s < l) {
        SEQ_CHECK(got.empty(), "a hidden hex dump appeared");
        seq::observe("hidden");
        return;
    }
    SEQ_CHECK(got.compare(0, pre.size(), pre) == 0, "the hex dump does not begin with its prefix: " + got);
    string digits;
    size_t p = pre.size();
    while (p < got.size()) {
        if (strchr(" \n\t:|", got[p])) {
            ++p;
            continue;
        }
        SEQ_CHECK(isxdigit((unsigned char)got[p]) && p + 1 < got.size() && isxdigit((unsigned char)got[p + 1]), "not a hex dump: " + got);
        digits += got.substr(p, 2);
        p += 2;
    }
    string want;
    for (unsigned char b : data) {
        char t[3];
        snprintf(t, 3, "%02x", b);
        want += t;
    }
    for (auto& ch : digits)
        ch = tolower(ch);
    SEQ_CHECK(digits == want, "the hex dump of " + to_string(data.size()) + " bytes shows " + digits.substr(0, 600) + " instead of " + want.substr(0, 600));
    seq::observe("shown");
}
// traffic is treated alike at all levels
string traffic(const vector<string>& chunks)
{
    Recorder r;
    string out;
    for (auto& c : chunks) {
        size_t before = r.got.size();
        bool ok = r.feed(c);
        for (size_t i = before; i < r.got.size(); ++i)
            out += r.got[i] + "\n";
        if (!ok) {
            out += "refused\n";
            r.p.p.reset();
        }
    }
    return out;
}
void sameAtAllLevels(const vector<string>& chunks)
{
    DBus::Log::setLevel(DBus::Log::ERROR + 1);
    string want = traffic(chunks);
    for (int l = 0; l < 4; ++l) {
        Capture c;
        DBus::Log::setLevel(SEV[l]);
        string got = traffic(chunks);
        c.take();
        SEQ_CHECK(got == want, "at log level " + to_string(l) + " the outcome is\n" + got + "instead of\n" + want);
    }
    seq::observe(want.empty() ? "dropped" : want.find("refused") != string::npos ? "refused" : "delivered");
}
void inertGood()
{
    GenCfg c;
    static const char* const VAR[] = { "s", "t", "a{yv}", "(sx)" };
    c.variants = VAR;
    c.nvariants = 4;
    int n = 3;
    ref::Msg m = ref::mk(1 + pick(4), 7);
    m.big = pick(2);
    m.fields = { { 1, ref::str("/o", 'o') }, { 2, ref::str("i.f") }, { 3, ref::str("M") }, { 5, ref::num('u', 3) }, { 77, ref::str("?") } };
    string sig = genSig(c, n);
    m.body = { genVal(c, sig, 0) };
    sameAtAllLevels({ ref::encMsg(m), ref::encMsg(zoo()[0]) });
}
void inertBytes() // strings of all bytes
{
    ref::Msg m = ref::mk(1 + pick(4), 7);
    string s = string(1, (char)pick(256)) + (char)(pick(2) ? '%' : 'n') + "s%n%s%s";
    int f = pick(4);
    m.fields = { { 1, ref::str(f == 0 ? s : "/o", 'o') }, { 2, ref::str(f == 1 ? s : "i") }, { 3, ref::str(f == 2 ? s : "M") }, { 5, ref::num('u', 3) } };
    m.body = { ref::str(s), ref::str(s) };
    sameAtAllLevels({ ref::encMsg(m), ref::encMsg(zoo()[0]) });
}
void inertMutated()
{
    auto z = zoo();
    string w = ref::encMsg(z[pick(8)]);
    static const int FEW[] = { 0, 1, 2, 3, 4, 8, 0x10, 0x28, 0x61, 0x67, 0x73, 0x76, 0x7b, 0x80, 0xfe, 0xff };
    size_t i = pick(w.size());
    w[i] = seq::thorough() ? pick(256) : FEW[pick(16)];
    sameAtAllLevels({ w, ref::encMsg(z[0]) });
}
void inertShort()
{
    auto z = zoo();
    ref::Msg m = z[pick(8)];
    string b = ref::encBody(m.body, m.big);
    if (m.body.size())
        m.fields.push_back({ 8, ref::str(ref::sigsOf(m.body), 'g') });
    size_t n = pick(b.size() + 9);
    b.resize(n, 'e');
    sameAtAllLevels({ ref::encHeader(m, n) + b, ref::encMsg(z[0]) });
}
void inertUnknown()
{
    ref::Msg m = ref::signalMsg(7, "/o", "i.f", "S", { ref::str("x") });
    m.type = pick(256);
    m.flags = pick(256);
    m.version = pick(3);
    sameAtAllLevels({ ref::encMsg(m), ref::encMsg(zoo()[0]) });
}

seq::Reg a1("C18", "c18_signatures", signatures);
seq::Reg a2("C18", "c18_declarations", declarations);
seq::Reg a3("C18", "c18_bulk", bulk);
seq::Reg b1("C19", "c19_addresses", addresses);
seq::Reg c1("C22", "c22_levels", levels);
seq::Reg c2("C22", "c22_hexdumps", [] { hexdumps(false); });
seq::Reg c8("C22", "c22_longdumps", [] { hexdumps(true); });
seq::Reg c9("C22", "c22_longlines", longLines);
seq::Reg c3("C22", "c22_good", inertGood);
seq::Reg c4("C22", "c22_bytes", inertBytes);
seq::Reg c5("C22", "c22_mutated", inertMutated);
seq::Reg c6("C22", "c22_short", inertShort);
seq::Reg c7("C22", "c22_unknown", inertUnknown);
}
