// Symbolic links of the lite format.
#include "lite_fs.h"
static int read_link(LiteFs& f, size_t size, std::string& got)
{
    std::unique_ptr<char[]> b(new char[size]);
    memset(b.get(), 0x5a, size);
    int rc = LiteFs::rc([&] { return f.o->vreadlink("/l", b.get(), size, &f.ctx); });
    if (rc != 0)
        return rc;
    got.clear();
    size_t i = 0;
    while (i < size && b[i])
        got.push_back(b[i++]);
    if (size)
        CHECK(i < size, "link target not terminated");
    return 0;
}
static std::string any_target(size_t n)
{
    std::string t;
    for (size_t i = 0; i < n; ++i)
        t.push_back(i % 5 == 3 ? '/' : (char)('a' + i % 20));
    std::string s = sym_bytes(n < 3 ? n : 3, "target");
    for (size_t i = 0; i < s.size(); ++i)
    {
        sym_assume(s[i] != 0);
        t[i == 2 ? n - 1 : i] = s[i];
    }
    return t;
}
extern "C" void h_round()
{
    int kind = (int)sym_choice(0, KINDS - 1, "kind");
    LiteFs f(kind);
    static const size_t L[] = {1, 2, 3, 4, 43, 44, 45, 60, 61, 104, 105, 300};
    std::string t = any_target(sym_fork_flag("few") ? sym_choice(1, 5, "len") : pick(L, "len"));
    CHECK(LiteFs::rc([&] { return f.o->vsymlink(t.c_str(), "/l", &f.ctx); }) == 0, "link not created");
    CHECK(mos::fs().root->kids.size() == 1, "link not stored");
    if (kind != PLAIN)
    {    // nothing of the target shows; every stored component is short enough for a file system
        auto& d = mos::fs().root->kids[0].second->d;
        size_t run = 0;
        for (unsigned char c : d)
        {
            run = c == '/' ? 0 : run + 1;
            CHECK(run <= 255 || kind == LEGACY, "stored link component too long");
        }
    }
    std::string got;
    CHECK(read_link(f, 4097, got) == 0, "link not readable");
    CHECK(same(got, t), "link target differs");
    sym_reach("round");
    fuse_stat st{};
    CHECK(LiteFs::rc([&] { return f.o->vgetattr("/l", &st, &f.ctx); }) == 0, "link has no attributes");
    CHECK((size_t)st.st_size == t.size() && (st.st_mode & S_IFMT) == S_IFLNK, "size of the link");
    LiteFs other(kind);
    CHECK(read_link(other, 4097, got) == 0 && same(got, t), "link target differs after mounting again");
}
// buffers of every size: a prefix, always terminated
extern "C" void h_buffer()
{
    int kind = (int)sym_choice(0, KINDS - 1, "kind");
    LiteFs f(kind);
    size_t n = sym_choice(1, 6, "len");
    std::string t = any_target(n), got;
    for (char c : t)
        if (kind == LEGACY)
            sym_assume(c != '/');
    CHECK(LiteFs::rc([&] { return f.o->vsymlink(t.c_str(), "/l", &f.ctx); }) == 0, "link not created");
    size_t s = sym_choice(1, n + 3, "size");
    CHECK(read_link(f, s, got) == 0, "link not readable");
    CHECK(same(got, t.substr(0, s - 1)), "not a prefix of the target");
    sym_reach(s > n ? "whole" : "cut");
}
// arbitrary stored targets
extern "C" void h_hostile()
{
    int kind = (int)sym_choice(0, KINDS - 1, "kind");
    LiteFs f(kind);
    std::string s, t, got;
    bool changed = true;
    t = any_target(sym_choice(1, 2, "len"));
    CHECK(LiteFs::rc([&] { return f.o->vsymlink(t.c_str(), "/l", &f.ctx); }) == 0, "link not created");
    auto& d = mos::fs().root->kids[0].second->d;
    int how = (int)sym_choice(0, 2, "how");
    if (how == 0)    // anything
        s = sym_bytes(sym_choice(1, sym_param("n", 5), "n"), "stored");
    else
    {
        s.assign(d.begin(), d.end());
        if (how == 1)    // one character changed
            s[sym_choice(0, s.size() - 1, "at")] = (char)sym_u8("byte");
        else
        {    // cut or extended
            size_t n = sym_choice(1, s.size() + 3, "n");
            s = n <= s.size() ? s.substr(0, n) : s + sym_bytes(n - s.size(), "extra");
        }
    }
    for (char c : s)
        sym_assume(c != 0);
    d.assign(s.begin(), s.end());
    int rc = read_link(f, 4097, got);
    sym_reach("hostile");
    if (kind == PLAIN)
        CHECK(rc == 0 && same(got, s), "plain target differs");
    if (rc == 0)
        sym_reach("accepted");
    if (rc == 0 && kind == MODERN)
        CHECK(got.empty() || same(got, t), "modified link shows another target");
    fuse_stat st{};
    int rc2 = LiteFs::rc([&] { return f.o->vgetattr("/l", &st, &f.ctx); });
    CHECK((rc2 == 0) == (rc == 0), "attributes and target disagree");
    if (rc2 == 0)
        CHECK((size_t)st.st_size == got.size(), "size of the link");
}
