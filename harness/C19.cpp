// Lists of extended attribute names: an arbitrary stored list, an arbitrary caller's buffer.
#include "xattr_ops.h"
#include "xattr_name.h"
static std::string nonul(size_t n, const char* name)
{
    std::string s = sym_bytes(n, name);
    int ok = 1;
    for (char c : s)
        ok &= c != 0;
    sym_assume(ok);
    return s;
}
// One stored name. visible: what the user must see of it, empty if nothing.
static std::string stored(AES_SIV& siv, std::string& visible, unsigned kinds)
{
    visible.clear();
    switch (sym_choice(0, kinds, "kind"))
    {
    case 0:
        visible = nonul(sym_choice(1, 3, "len"), "name");
        return generic_xattr::encrypt_xattr_name(siv, visible);
    case 1:    // someone else's
        return "user." + nonul(sym_choice(0, 4, "len"), "foreign");
    case 2:
    {
        std::string s = generic_xattr::encrypt_xattr_name(siv, "abc");
        return s.substr(0, s.size() - sym_choice(1, 8, "cut"));
    }
    case 3:    // right content, wrong name space
    {
        std::string s = generic_xattr::encrypt_xattr_name(siv, "abc");
        return (sym_fork_flag("sys") ? "trusted." : "") + s.substr(5);
    }
    case 4:    // one character altered
    {
        std::string s = generic_xattr::encrypt_xattr_name(siv, "abc");
        size_t i = sym_choice(5, s.size() - 1, "at");
        char c = (char)sym_u8("char");
        sym_assume((c != 0) & (c != s[i]) & (c != '=') & (c != '.'));
        s[i] = c;
        return s;
    }
    default:    // of another repository
    {
        byte key[32];
        memset(key, 0x33, 32);
        AES_SIV other(key, 32);
        return generic_xattr::encrypt_xattr_name(other, "abc");
    }
    }
}
static std::string visible_list(const std::vector<std::string>& v)
{
    std::string r;
    for (auto& s : v)
        if (!s.empty())
            r += s + '\0';
    return r;
}
// list(buffer, size) for every buffer size from null to larger than needed
template <class L>
static void judge(L&& list, const std::string& want)
{
    unsigned how = (unsigned)sym_choice(0, 2, "buffer");
    if (how == 0)
    {
        int rc = list(nullptr, sym_choice(0, 1, "n") * 5);
        CHECK(rc == (int)want.size(), "needed size wrong");
        sym_reach("query");
        return;
    }
    size_t n = how == 1 ? 0 : sym_choice(1, want.size() + 3, "size");
    std::unique_ptr<char[]> buf(new char[n]);
    memset(buf.get(), 0x5a, n);
    int rc = list(buf.get(), n);
    if (n == 0)
    {
        CHECK(rc == (int)want.size(), "needed size wrong for size 0");
        sym_reach("query");
    }
    else if (n < want.size())
    {
        CHECK(rc == -ERANGE, "too small a buffer not refused");
        sym_reach("range");
    }
    else
    {
        CHECK(rc == (int)want.size(), "size of the list wrong");
        CHECK(same(std::string(buf.get(), rc < 0 ? 0 : (size_t)rc), want), "list differs from the stored names");
        sym_reach("list");
    }
}
extern "C" void h_list()
{
    byte key[32];
    memset(key, 0x77, 32);
    AES_SIV siv(key, 32);
    unsigned n = (unsigned)sym_choice(0, sym_param("names", 2), "names");
    std::vector<std::string> vis(n);
    std::string raw;
    for (unsigned i = 0; i < n; ++i)
    {
        // names from the second on: only the essential kinds
        raw += stored(siv, vis[i], i ? 1 : 5);
        raw.push_back('\0');
    }
    std::string want = visible_list(vis);
    int calls = 0;
    judge(
        [&](char* b, size_t s)
        {
            return generic_xattr::wrapped_listxattr(
                [&](char* o, size_t k) -> int
                {
                    ++calls;
                    if (!k)
                        return (int)raw.size();
                    CHECK(k >= raw.size(), "stored list asked for with too small a buffer");
                    memcpy(o, raw.data(), raw.size());
                    return (int)raw.size();
                },
                siv,
                b,
                s);
        },
        want);
}
// errors of the underlying call, and a list that changes between the two calls
extern "C" void h_errors()
{
    byte key[32];
    memset(key, 0x77, 32);
    AES_SIV siv(key, 32);
    std::string raw = generic_xattr::encrypt_xattr_name(siv, "abc") + '\0';
    int first = (int)sym_u16("first") - 200, second = -(int)sym_range(0, 200, "second");
    unsigned mode = (unsigned)sym_choice(0, 2, "mode");
    if (mode == 0)
        sym_assume(first < 0 && first >= -200);
    int calls = 0;
    char buf[8];
    memset(buf, 0x5a, 8);
    int rc = generic_xattr::wrapped_listxattr(
        [&](char* o, size_t k) -> int
        {
            ++calls;
            if (mode == 0)
                return first;
            if (calls == 1)
                return (int)raw.size() + 7;
            if (mode == 1)
                return second;
            memcpy(o, raw.data(), raw.size());
            return (int)raw.size();
        },
        siv,
        buf,
        8);
    if (mode == 0)
        CHECK(rc == first, "error of the underlying file system not reported");
    else if (mode == 1)
        CHECK(rc == second, "error of the underlying file system not reported");
    else
        CHECK(rc == 4 && !memcmp(buf, "abc", 4), "list that became shorter not returned");
    sym_reach("errors");
}
// name -> stored name -> name, and distinct names stay distinct
extern "C" void h_names()
{
    byte key[32];
    memset(key, 0x77, 32);
    AES_SIV siv(key, 32);
    size_t n = sym_choice(1, 6, "n"), m = sym_choice(1, 6, "m");
    std::string a = nonul(n, "a"), b = nonul(m, "b");
    std::string ea = generic_xattr::encrypt_xattr_name(siv, a), eb = generic_xattr::encrypt_xattr_name(siv, b);
    CHECK(ea.substr(0, 5) == "user.", "stored name outside the user name space");
    for (char c : ea)
        CHECK(c > ' ' && c != '/' && c < 127, "stored name contains special characters");
    CHECK(same(a, b) == same(ea, eb), "stored names of different attributes collide");
    auto da = generic_xattr::decrypt_xattr_name(siv, ea);
    CHECK(da && same(*da, a), "name does not survive");
    sym_reach("names");
}
// whole stack: names set through the file system are the names listed
template <class F>
static void whole(F&& op)
{
    std::string a = nonul(2, "a"), b = nonul(3, "b");
    bool rm = sym_fork_flag("remove");
    CHECK(op.set(a, "v") == 0 && op.set(b, "v") == 0, "attribute not set");
    if (rm)
        CHECK(op.remove(a) == 0, "attribute not removed");
    judge([&](char* p, size_t s) { return op.list(p, s); }, (rm ? "" : a + '\0') + b + '\0');
    sym_reach(rm ? "removed" : "both");
}
extern "C" void h_full() { whole(FullOps()); }
extern "C" void h_lite() { whole(LiteOps()); }

// many names, long names
extern "C" void h_many()
{
    byte key[32];
    memset(key, 0x77, 32);
    AES_SIV siv(key, 32);
    static const size_t C[] = {1, 3, 40}, L[] = {1, 7, 16, 17, 64, 100, 170};
    size_t n = pick(C, "names"), len = pick(L, "length");
    std::string raw, want;
    for (size_t i = 0; i < n; ++i)
    {
        std::string name(len + (i % 3), (char)('a' + i % 20));
        if (i == 0 || i + 1 == n)
        {
            char c = (char)sym_u8("char");
            sym_assume(c != 0);
            name[name.size() - 1] = c;
        }
        if (i % 4 == 1)
            raw += "user.foreign" + std::string(1, '\0');
        std::string e = generic_xattr::encrypt_xattr_name(siv, name);
        auto d = generic_xattr::decrypt_xattr_name(siv, e);
        CHECK(d && same(*d, name), "name does not survive");
        raw += e + '\0';
        want += name + '\0';
    }
    auto under = [&](char* o, size_t k) -> int
    {
        if (!k)
            return (int)raw.size();
        CHECK(k >= raw.size(), "stored list asked for with too small a buffer");
        memcpy(o, raw.data(), raw.size());
        return (int)raw.size();
    };
    std::string b(want.size() + 3, '\x5a');
    auto list = [&](size_t k)
    {
        b.assign(want.size() + 3, '\x5a');
        return generic_xattr::wrapped_listxattr(under, siv, k ? &b[0] : nullptr, k);
    };
    CHECK(list(0) == (int)want.size(), "needed size wrong");
    CHECK(list(want.size() - 1) == -ERANGE && list(1) == (want.size() == 1 ? 1 : -ERANGE), "too small a buffer not refused");
    CHECK(list(want.size()) == (int)want.size() && same(b.substr(0, want.size()), want), "list differs from the stored names");
    CHECK(same(b.substr(want.size()), std::string(3, '\x5a')), "buffer overrun");
    CHECK(list(want.size() + 3) == (int)want.size() && same(b.substr(0, want.size()), want), "list differs from the stored names");
    sym_reach("many");
}
