// Extended attribute values: arbitrary values, buffers and stored bytes, in both formats.
#include "xattr_ops.h"
// what a reader with every kind of buffer gets
template <class O>
static void reads(O& o, const std::string& name, const std::string& v)
{
    if (sym_fork_flag("query"))
    {
        CHECK(o.get(name, nullptr, 0) == (int)v.size(), "size query wrong");
        sym_reach("query");
        return;
    }
    size_t n = sym_choice(1, v.size() + 5, "bufsize");
    std::unique_ptr<char[]> b(new char[n]);
    memset(b.get(), 0x5a, n);
    int rc = o.get(name, b.get(), n);
    if (n < v.size())
    {
        CHECK(rc == -ERANGE, "too small a buffer not refused");
        sym_reach("range");
        return;
    }
    CHECK(rc == (int)v.size(), "length of the value wrong");
    CHECK(same(std::string(b.get(), rc < 0 ? 0 : (size_t)rc), v), "value differs");
    sym_reach("value");
}
template <class O>
static void round(O& o)
{
    std::string v = sym_bytes(sym_choice(0, 5, "len"), "value"), w = sym_bytes(sym_choice(0, 3, "len2"), "value2");
    int flags = sym_fork_flag("create") ? XATTR_CREATE : 0;
    CHECK(o.set("abc", v, flags) == 0, "value not stored");
    if (sym_fork_flag("other"))
        CHECK(o.set("xyz", w) == 0, "value not stored");
    switch (sym_choice(0, 4, "then"))
    {
    case 0:
        return reads(o, "abc", v);
    case 1:    // overwrite
        CHECK(o.set("abc", w, sym_fork_flag("replace") ? XATTR_REPLACE : 0) == 0, "value not replaced");
        sym_reach("replaced");
        return reads(o, "abc", w);
    case 2:
        CHECK(o.set("abc", w, XATTR_CREATE) == -EEXIST, "existing attribute created again");
        return reads(o, "abc", v);
    case 3:
        CHECK(o.remove("abc") == 0, "attribute not removed");
        CHECK(o.get("abc", nullptr, 0) == -ENODATA, "attribute still there");
        CHECK(o.remove("abc") == -ENODATA, "missing attribute removed");
        sym_reach("removed");
        return;
    default:
        CHECK(o.set("ab", w, XATTR_REPLACE) == -ENODATA, "missing attribute replaced");
        char c;
        CHECK(o.get("ab", &c, 1) == -ENODATA && o.get("ab", nullptr, 0) == -ENODATA, "attribute out of nowhere");
        return reads(o, "abc", v);
    }
}
extern "C" void h_full()
{
    FullOps o;
    round(o);
}
extern "C" void h_lite()
{
    LiteOps o;
    o.iv = (unsigned)sym_choice(0, 1, "iv") * 4 + 12;
    round(o);
}
// stored bytes replaced by arbitrary other ones of any length
static bool alter(std::string& s, size_t maxlen, const char* tag)
{
    size_t n = sym_choice(0, maxlen, tag);
    std::string t = sym_bytes(n, "stored");
    bool eq = same(t, s);
    s = t;
    return !eq;
}
template <class O>
static void altered(O& o, const std::string& v, bool changed)
{
    size_t n = sym_choice(0, v.size() + 2, "bufsize");
    std::unique_ptr<char[]> b(new char[n]);
    memset(b.get(), 0x5a, n);
    int rc = o.get("abc", n ? b.get() : nullptr, n);
    sym_reach("altered");
    if (!n)    // a size query reads no content
        return;
    if (rc < 0)
        return;
    CHECK(!changed, "modified stored value accepted");
    CHECK(rc == (int)v.size() && n >= v.size() && same(std::string(b.get(), v.size()), v), "value differs");
    sym_reach("genuine");
}
extern "C" void h_tamper_lite()
{
    LiteOps o;
    std::string v = sym_bytes(sym_choice(0, 3, "len"), "value");
    CHECK(o.set("abc", v) == 0, "value not stored");
    bool c = alter(o.data->xattr.at(0).second, 34, "storedlen");
    altered(o, v, c);
}
extern "C" void h_tamper_full()
{
    FullOps o;
    std::string v = sym_bytes(sym_choice(0, 3, "len"), "value");
    CHECK(o.set("abc", v) == 0, "value not stored");
    bool c;
    switch (sym_choice(0, 2, "what"))
    {
    case 0:
        c = alter(o.data->xattr[0].second, 6, "storedlen");
        break;
    case 1:
        c = alter(o.meta->xattr[0].second, 36, "storedlen");
        break;
    default:
        c = alter(o.data->xattr[0].second, 4, "storedlen");
        c |= alter(o.meta->xattr[0].second, 33, "storedlen2");
    }
    altered(o, v, c);
}
// full format: a value moved to another attribute or another file is not accepted there
extern "C" void h_move_full()
{
    FullOps o, p;
    p.seed = 1;
    std::string v = sym_bytes(3, "value"), w = sym_bytes(3, "value2");
    CHECK(o.set("abc", v) == 0 && o.set("xyz", w) == 0 && p.set("abc", w) == 0, "value not stored");
    char b[3];
    if (sym_fork_flag("file"))
    {
        o.data->xattr[0].second = p.data->xattr[0].second;
        o.meta->xattr[0].second = p.meta->xattr[0].second;
    }
    else
    {
        o.data->xattr[0].second = o.data->xattr[1].second;
        o.meta->xattr[0].second = o.meta->xattr[1].second;
    }
    CHECK(o.get("abc", b, 3) < 0, "value of another attribute accepted");
    sym_reach("moved");
}
// without verification nothing is refused, but nothing is overrun either
extern "C" void h_unverified()
{
    bool full = sym_fork_flag("full");
    FullOps o;
    LiteOps p;
    o.verify = p.verify = false;
    std::string v = sym_bytes(sym_choice(0, 3, "len"), "value");
    size_t n = sym_choice(1, v.size() + 2, "bufsize");
    std::unique_ptr<char[]> b(new char[n]);
    if (full)
    {
        o.set("abc", v);
        alter(o.data->xattr[0].second, 6, "storedlen");
        o.get("abc", b.get(), n);
    }
    else
    {
        p.set("abc", v);
        alter(p.data->xattr.at(0).second, 34, "storedlen");
        p.get("abc", b.get(), n);
    }
    sym_reach("unverified");
}

// values of every order of magnitude
template <class O>
static void sizes(O& o)
{
    static const size_t L[] = {6, 12, 16, 17, 28, 100, 255, 256, 4095, 4097, 65535, 65536};
    auto make = [](size_t n, unsigned seed)
    {
        std::string v(n, 0);
        for (size_t i = 0; i < n; ++i)
            v[i] = (char)(i * 5 + i / 256 + seed);
        v[0] = (char)sym_u8("first");
        v[n - 1] = (char)sym_u8("last");
        return v;
    };
    size_t n = pick(L, "length");
    std::string v = make(n, 1);
    CHECK(o.set("abc", v) == 0, "value not stored");
    if (sym_fork_flag("again"))
    {
        n = pick(L, "length2");
        v = make(n, 9);
        CHECK(o.set("abc", v) == 0, "value not replaced");
    }
    CHECK(o.get("abc", nullptr, 0) == (int)n, "size query wrong");
    std::string b(n + 3, '\x5a');
    CHECK(o.get("abc", &b[0], n - 1) == -ERANGE, "too small a buffer not refused");
    CHECK(o.get("abc", &b[0], n / 2) == -ERANGE, "too small a buffer not refused");
    b.assign(n + 3, '\x5a');
    CHECK(o.get("abc", &b[0], n) == (int)n && same(b.substr(0, n), v), "value differs");
    CHECK(same(b.substr(n), std::string(3, '\x5a')), "buffer overrun");
    b.assign(n + 3, '\x5a');
    CHECK(o.get("abc", &b[0], n + 3) == (int)n && same(b.substr(0, n), v), "value differs");
    sym_reach("sizes");
}
extern "C" void h_sizes()
{
    if (sym_fork_flag("full"))
    {
        FullOps o;
        sizes(o);
        return;
    }
    LiteOps o;
    o.iv = (unsigned)sym_choice(0, 1, "iv") * 4 + 12;
    sizes(o);
}
