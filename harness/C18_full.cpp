// Symbolic links of the full format.
#include "full_fs.h"
static int read_link(FullFs& f, size_t size, std::string& got)
{
    std::unique_ptr<char[]> b(new char[size]);
    memset(b.get(), 0x5a, size);
    int rc = FullFs::rc([&] { return f.o->vreadlink("/l", b.get(), size, &f.ctx); });
    if (rc != 0)
        return rc;
    got.clear();
    size_t i = 0;
    while (i < size && b[i])
        got.push_back(b[i++]);
    if (size)
        CHECK(i < size, "link target not terminated");
    return 0;
}
static std::string any_target(size_t n)
{
    std::string t;
    for (size_t i = 0; i < n; ++i)
        t.push_back(i % 5 == 3 ? '/' : (char)('a' + i % 20));
    std::string s = sym_bytes(n < 3 ? n : 3, "target");
    for (size_t i = 0; i < s.size(); ++i)
    {
        sym_assume(s[i] != 0);
        t[i == 2 ? n - 1 : i] = s[i];
    }
    return t;
}
static void size_is(FullFs& f, size_t n)
{
    fuse_stat st{};
    CHECK(FullFs::rc([&] { return f.o->vgetattr("/l", &st, &f.ctx); }) == 0, "link has no attributes");
    CHECK((size_t)st.st_size == n && (st.st_mode & S_IFMT) == S_IFLNK, "size of the link");
}
extern "C" void h_round()
{
    FullFs f(sym_fork_flag("legacy"));
    static const size_t L[] = {1, 2, 3, 4, 60, 255, 256, 300, 1024, 4094, 4095};
    std::string t = any_target(pick(L, "len")), got;
    CHECK(FullFs::rc([&] { return f.o->vsymlink(t.c_str(), "/l", &f.ctx); }) == 0, "link not created");
    if (sym_fork_flag("remount"))
        f.remount();
    CHECK(read_link(f, 4097, got) == 0, "link not readable");
    CHECK(same(got, t), "link target differs");
    size_is(f, t.size());
    static const long D[] = {-2, -1, 0, 1, 2};
    long s = (long)t.size() + pick(D, "size");
    if (s < 1)
        return;
    CHECK(read_link(f, (size_t)s, got) == 0, "link not readable");
    CHECK(same(got, t.substr(0, (size_t)s - 1)), "not a prefix of the target");
    sym_reach("round");
    // a new link of the same name, shorter or longer
    if (sym_fork_flag("again"))
    {
        std::string u = any_target(t.size() / 2 + 1);
        CHECK(FullFs::rc([&] { return f.o->vsymlink(u.c_str(), "/l", &f.ctx); }) == -EEXIST, "existing name taken for a link");
        CHECK(read_link(f, 4097, got) == 0 && same(got, t), "link target differs after a refused creation");
        CHECK(FullFs::rc([&] { return f.o->vunlink("/l", &f.ctx); }) == 0, "link not removed");
        CHECK(FullFs::rc([&] { return f.o->vsymlink(u.c_str(), "/l", &f.ctx); }) == 0, "link not created");
        CHECK(read_link(f, 4097, got) == 0 && same(got, u), "link target differs");
        size_is(f, u.size());
        sym_reach("again");
    }
}
static void files(mos::InodeP d, std::vector<mos::InodeP>& v)
{
    for (auto& k : d->kids)
        if ((k.second->mode & S_IFMT) == S_IFDIR)
            files(k.second, v);
        else
            v.push_back(k.second);
}
// arbitrary stored targets and metadata
extern "C" void h_hostile()
{
    FullFs f;
    std::string t = any_target(sym_choice(1, 4, "len")), got;
    std::vector<mos::InodeP> before, after;
    f.unmount();
    files(mos::fs().root, before);
    f.mount();
    CHECK(FullFs::rc([&] { return f.o->vsymlink(t.c_str(), "/l", &f.ctx); }) == 0, "link not created");
    f.unmount();
    files(mos::fs().root, after);
    std::vector<mos::InodeP> own;
    for (auto& x : after)
        if (std::find(before.begin(), before.end(), x) == before.end())
            own.push_back(x);
    CHECK(own.size() == 2, "files of a link");
    bool data0 = own[0]->d.size() == t.size();
    auto& d = own[sym_fork_flag("meta") == data0]->d;
    std::string s(d.begin(), d.end()), o = s;
    switch (sym_choice(0, 2, "how"))
    {
    case 0:
        s = sym_bytes(sym_choice(0, 6, "n"), "stored");
        break;
    case 1:
    {
        static const size_t P[] = {0, 1, 2, 31, 32, 40, 60, 75, 76, 77, 90};
        size_t i = pick(P, "at");
        if (i < s.size())
            s[i] = (char)sym_u8("byte");
        break;
    }
    default:
    {
        static const long N[] = {-3, -1, 1, 40};
        long n = (long)s.size() + pick(N, "by");
        if (n < 0)
            n = 0;
        s = (size_t)n <= s.size() ? s.substr(0, n) : s + sym_bytes(1, "extra") + std::string((size_t)n - s.size() - 1, 0);
    }
    }
    d.assign(s.begin(), s.end());
    bool eq = same(s, o);
    f.mount();
    int rc = read_link(f, 4097, got);
    sym_reach("hostile");
    if (eq)
        CHECK(rc == 0 && same(got, t), "link target differs");
    if (rc == 0)
    {
        CHECK(got.empty() || same(got, t), "modified link shows another target");
        sym_reach("accepted");
    }
    fuse_stat st{};
    FullFs::rc([&] { return f.o->vgetattr("/l", &st, &f.ctx); });
    CHECK(FullFs::rc([&] { return f.o->vgetattr("/", &st, &f.ctx); }) == 0, "the directory became unusable");
}
