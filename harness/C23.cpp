// Path resolution of the full format against a POSIX-like resolver.
// The tree, the targets of its links and the path are chosen while the reference resolver walks, so
// only choices which matter are told apart; then the real file system is built and asked.
#include "full_fs.h"
#include <deque>
namespace
{
inline unsigned pick_of(const char* what, unsigned n) { return n < 2 ? 0 : (unsigned)sym_choice(0, n - 1, what); }
struct Obj
{
    unsigned kind = S_IFREG;
    std::string name;
    Obj* parent = nullptr;
    std::map<std::string, Obj*> kids;
    std::vector<std::string> target;
    size_t len = 0;    // components of the target; chosen when the link is first followed
    bool slashes = false;
    std::string path() const
    {
        return parent == this ? std::string() : parent->path() + "/" + name;
    }
};
const char* kNames[] = {"a", "b", "f", "l", "m", "x", ".", ".."};
std::string any(const char* what, unsigned n = 8) { return kNames[pick_of(what, n)]; }
enum
{
    OK = 0,
    ANY = -1000,    // some error
    OPEN = -1001    // unspecified ("f/.." where f is a file)
};
struct Tree
{
    std::deque<Obj> all;
    Obj* root;
    size_t maxt = (size_t)sym_param("t", 2);
    Obj* add(Obj* d, const std::string& n, unsigned kind)
    {
        all.emplace_back();
        Obj* o = &all.back();
        o->kind = kind;
        o->name = n;
        o->parent = d ? d : o;
        if (d)
            d->kids[n] = o;
        return o;
    }
    void choose(Obj* l)
    {
        if (!l->len)
            l->len = 1 + pick_of("target length", (unsigned)maxt);
    }
    std::string target_of(Obj* l)
    {
        choose(l);
        std::string r;
        for (size_t i = 0; i < l->len; ++i)
        {
            if (i)
                r += l->slashes ? "//" : "/";
            r += i < l->target.size() ? l->target[i] : "x";
        }
        return r;
    }
    // walks the first n components, choosing those which are not there yet
    int walk(Obj*& at, std::vector<std::string>& c, size_t n, std::vector<Obj*>& active, bool target)
    {
        for (size_t i = 0; i < n; ++i)
        {
            if (c.size() <= i)
                c.push_back(any(target ? "t" : "p"));
            if (c[i] == "." || c[i] == "..")
            {
                if (at->kind != S_IFDIR)
                    return OPEN;
                if (c[i] == "..")
                    at = at->parent;
                continue;
            }
            int r = step(at, c[i], active, true);
            if (r)
                return r;
        }
        return OK;
    }
    int step(Obj*& at, const std::string& c, std::vector<Obj*>& active, bool follow)
    {
        if (at->kind != S_IFDIR)
            return ANY;
        auto it = at->kids.find(c);
        if (it == at->kids.end())
            return -ENOENT;
        Obj* o = it->second;
        if (o->kind != S_IFLNK || !follow)
            return at = o, OK;
        for (Obj* x : active)
            if (x == o)
                return -ELOOP;
        choose(o);
        active.push_back(o);
        sym_reach("link");
        if (active.size() > 1)
            sym_reach("nested");
        int r = walk(at, o->target, o->len, active, true);
        active.pop_back();
        return r;
    }
};
unsigned long long ino(FullFs& f, const std::string& p, unsigned* mode = nullptr)
{
    fuse_stat st{};
    CHECK(FullFs::rc([&] { return f.o->vgetattr(p.c_str(), &st, &f.ctx); }) == 0, "object not found by its own path");
    if (mode)
        *mode = st.st_mode & S_IFMT;
    return st.st_ino;
}
void expect(int got, int want)
{
    sym_reach(want == -ENOENT ? "missing" : want == -ELOOP ? "loop" : "not a directory");
    if (want == ANY)
        CHECK(got < 0, "component below a file resolved");
    else
        CHECK(got == want, want == -ELOOP ? "no ELOOP for a cycle of links" : "no ENOENT for a missing component");
}
}    // namespace
extern "C" void h_resolve()
{
    // the real thing, up to the links
    FullFs f(sym_param("legacy", 0) != 0);
    auto ok = [&](int x) { CHECK(x == 0, "building the tree"); };
    bool moved = sym_param("moved", 0) != 0;
    ok(FullFs::rc([&] { return f.o->vmkdir("/a", 0755, &f.ctx); }));
    ok(FullFs::rc([&] { return f.o->vmkdir(moved ? "/q" : "/a/b", 0755, &f.ctx); }));
    ok(f.create("/f", "1"));
    if (moved)
    {
        ok(f.create("/q/f", "2"));    // the directory has been used under its old parent
        ok(FullFs::rc([&] { return f.o->vrename("/q", "/a/b", &f.ctx); }));
    }
    else
        ok(f.create("/a/b/f", "2"));
    Tree t;
    Obj* root = t.root = t.add(nullptr, "", S_IFDIR);
    Obj* a = t.add(root, "a", S_IFDIR);
    Obj* b = t.add(a, "b", S_IFDIR);
    t.add(root, "f", S_IFREG);
    t.add(b, "f", S_IFREG);
    unsigned place = (unsigned)sym_param("place", -1);
    if (place > 3)
        place = pick_of("place", 4);
    Obj* l = t.add(place & 1 ? a : root, "l", S_IFLNK);
    Obj* m = t.add(place & 2 ? b : root, "m", S_IFLNK);
    m->slashes = true;
    // the path
    size_t n = 1 + pick_of("path length", (unsigned)sym_param("p", 3));
    std::vector<std::string> c;
    std::vector<Obj*> active;
    Obj* at = root;
    unsigned op = pick_of("op", 3);    // 0: look, 1: open, 2: make
    int r = t.walk(at, c, n - 1, active, false);
    sym_assume(r != OPEN);
    Obj* base = at;
    if (!r)
    {
        if (op == 2)
        {
            if (at->kind != S_IFDIR)
                r = ANY;
            c.push_back("n");
        }
        else
        {
            c.push_back(any("p", 6));
            r = t.step(at, c.back(), active, op == 1);
            sym_assume(r != OPEN);
        }
    }
    std::string path;
    for (size_t i = 0; i < n; ++i)
        path += "/" + (i < c.size() ? c[i] : std::string("x"));
    for (Obj* x : {l, m})
        ok(FullFs::rc([&] { return f.o->vsymlink(t.target_of(x).c_str(), x->path().c_str(), &f.ctx); }));
    if (sym_param("remount", 0))
        f.remount();
    const size_t before = FullFs::stored();
    if (op == 0)
    {
        fuse_stat st{};
        int g = FullFs::rc([&] { return f.o->vgetattr(path.c_str(), &st, &f.ctx); });
        if (r)
            return expect(g, r);
        sym_reach("look");
        CHECK(g == 0, "existing object not found");
        CHECK((st.st_mode & S_IFMT) == at->kind, "kind of the object");
        CHECK(st.st_ino == ino(f, at->path()), "path leads to another object");
        if (at->kind == S_IFLNK)
        {
            char buf[64];
            CHECK(FullFs::rc([&] { return f.o->vreadlink(path.c_str(), buf, sizeof buf, &f.ctx); }) == 0
                      && t.target_of(at) == buf,
                  "target of the link");
            sym_reach("readlink");
        }
    }
    else if (op == 1)
    {
        fuse_file_info fi{};
        if (!r && at->kind == S_IFDIR)
        {
            int g = FullFs::rc([&] { return f.o->vopendir(path.c_str(), &fi, &f.ctx); });
            CHECK(g == 0, "existing directory not opened");
            fuse_stat st{};
            CHECK(FullFs::rc([&] { return f.o->vfgetattr(path.c_str(), &st, &fi, &f.ctx); }) == 0, "vfgetattr");
            CHECK(st.st_ino == ino(f, at->path()), "path leads to another directory");
            CHECK(FullFs::rc([&] { return f.o->vreleasedir(path.c_str(), &fi, &f.ctx); }) == 0, "releasedir");
            std::vector<std::pair<std::string, unsigned>> v;
            CHECK(f.list(path, v) == 0 && v.size() == at->kids.size() + 2, "listing of the directory");
            sym_reach("opendir");
        }
        else
        {
            std::string s;
            int g = f.read(path, s);
            if (r)
                return expect(g, r);
            CHECK(g == 0 && s == (at->parent == root ? "1" : "2"), "path leads to another file");
            sym_reach("open");
        }
    }
    else
    {
        int g = f.create(path, "3");
        if (r)
        {
            expect(g, r);
            CHECK(FullFs::stored() == before || r == ANY, "failed creation left a file");
            return;
        }
        CHECK(g == 0, "file not created");
        std::string s;
        CHECK(f.read(base->path() + "/n", s) == 0 && s == "3", "file created in another directory");
        sym_reach("make");
    }
    // '..' entries of listings stay right whichever way a directory was reached
    for (Obj* d : {root, a, b})
    {
        fuse_file_info fi{};
        std::string p = d == root ? "/" : d->path();
        CHECK(FullFs::rc([&] { return f.o->vopendir(p.c_str(), &fi, &f.ctx); }) == 0, "opendir");
        CHECK(to_inode_number(((FileBase*)fi.fh)->get_parent_id()) == ino(f, d->parent == root ? "/" : d->parent->path()),
              "parent directory");
        CHECK(FullFs::rc([&] { return f.o->vreleasedir(p.c_str(), &fi, &f.ctx); }) == 0, "releasedir");
    }
}
// Chains of links, with and without a cycle.
extern "C" void h_chain()
{
    FullFs f(sym_param("legacy", 0) != 0);
    size_t n = 1 + pick_of("links", (unsigned)sym_param("n", 20));
    auto name = [](size_t i) { return std::string(1, (char)('A' + i)); };
    CHECK(FullFs::rc([&] { return f.o->vmkdir("/d", 0755, &f.ctx); }) == 0, "mkdir");
    CHECK(f.create("/d/f", "1") == 0, "create");
    bool cycle = sym_fork_flag("cycle"), mid = sym_fork_flag("middle");    // links to the directory, in the middle of the path
    size_t back = cycle ? pick_of("back to", (unsigned)n) : 0;
    for (size_t i = 0; i < n; ++i)
    {
        std::string to = i + 1 < n ? name(i + 1) : cycle ? name(back) : mid ? "d" : "d/f";
        CHECK(FullFs::rc([&] { return f.o->vsymlink(to.c_str(), ("/" + name(i)).c_str(), &f.ctx); }) == 0, "symlink");
    }
    std::string s;
    int r = f.read(mid ? "/A/f" : "/A", s);
    if (cycle)
    {
        sym_reach("cycle");
        CHECK(r == -ELOOP, "no ELOOP for a cycle of links");
    }
    else if (n <= 8)
    {
        sym_reach("chain");    // what POSIX guarantees
        CHECK(r == 0 && s == "1", "chain of links not followed");
    }
    else
    {
        sym_reach("long");
        CHECK((r == 0 && s == "1") || r == -ELOOP, "long chain of links");
    }
}
// Deep trees, long paths and long targets.
extern "C" void h_long()
{
    FullFs f(sym_param("legacy", 0) != 0);
    static const size_t D[] = {4, 9, 16, 17, 31, 32, 33, 40, 41, 63, 64, 65, 100};
    auto ok = [&](int x) { CHECK(x == 0, "building the tree"); };
    std::string path, s;
    fuse_stat a{}, b{};
    auto file = [&](const std::string& p, const char* what)
    {
        std::string t;
        CHECK(f.read(p, t) == 0 && t == "1", what);
    };
    switch (pick_of("shape", 5))
    {
    case 0:    // many directories
    {
        size_t n = pick(D, "depth");
        for (size_t i = 0; i < n; ++i)
            path += i % 3 ? "/d" : "/e", ok(FullFs::rc([&] { return f.o->vmkdir(path.c_str(), 0755, &f.ctx); }));
        ok(f.create(path + "/f", "1"));
        if (sym_fork_flag("remount"))
            f.remount();
        file(path + "/f", "file below many directories");
        std::string up = path;
        for (size_t i = 0; i < n; ++i)
            up += "/..";
        CHECK(ino(f, up + "/e") == ino(f, "/e"), "back through the parents");
        CHECK(FullFs::rc([&] { return f.o->vgetattr((path + "/g").c_str(), &a, &f.ctx); }) == -ENOENT, "missing file below many directories");
        CHECK(f.create(path + "/g", "2") == 0 && f.read(path + "/g", s) == 0 && s == "2", "creation below many directories");
        sym_reach("deep");
        break;
    }
    case 1:    // many components which lead nowhere
    {
        size_t n = pick(D, "components");
        static const char* C[] = {"/.", "//", "/d/..", "/d/./../d/.."};
        std::string c = pick(C, "component");
        ok(FullFs::rc([&] { return f.o->vmkdir("/d", 0755, &f.ctx); }));
        ok(f.create("/d/f", "1"));
        for (size_t i = 0; i < n; ++i)
            path += c;
        file(path + "/d/f", "file at the end of a long path");
        sym_reach("path");
        break;
    }
    case 2:    // a link which is followed many times, one after the other
    {
        size_t n = pick(D, "times");
        ok(FullFs::rc([&] { return f.o->vmkdir("/d", 0755, &f.ctx); }));
        ok(FullFs::rc([&] { return f.o->vsymlink(".", "/d/l", &f.ctx); }));
        ok(FullFs::rc([&] { return f.o->vsymlink("../d/f", "/d/m", &f.ctx); }));
        ok(f.create("/d/f", "1"));
        path = "/d";
        for (size_t i = 0; i < n; ++i)
            path += "/l";
        int r = f.read(path + (sym_fork_flag("m") ? "/m" : "/f"), s);
        CHECK((r == 0 && s == "1") || (n > 8 && r == -ELOOP), "a link followed many times");
        sym_reach("again");
        break;
    }
    case 3:    // a long target
    {
        static const size_t T[] = {100, 255, 256, 257, 1000, 1023, 1024, 1025, 2047, 4000, 4095};
        size_t n = pick(T, "target");
        ok(FullFs::rc([&] { return f.o->vmkdir("/d", 0755, &f.ctx); }));
        ok(f.create("/d/f", "1"));
        std::string t = n % 2 ? "d/f" : "d//f";
        while (t.size() < n)
            t = "./" + t;
        ok(FullFs::rc([&] { return f.o->vsymlink(t.c_str(), "/l", &f.ctx); }));
        if (sym_fork_flag("remount"))
            f.remount();
        std::string buf(4097, '\x5c');
        CHECK(FullFs::rc([&] { return f.o->vreadlink("/l", &buf[0], buf.size(), &f.ctx); }) == 0 && buf.c_str() == t, "target of the link");
        file("/l", "a link with a long target");
        sym_reach("target");
        break;
    }
    default:    // long names
    {
        static const size_t L[] = {100, 127, 128, 200, 254, 255};
        size_t n = pick(L, "name");
        std::string x(n, 'x'), y = x;
        y.back() = 'y';
        ok(FullFs::rc([&] { return f.o->vmkdir(("/" + x).c_str(), 0755, &f.ctx); }));
        ok(FullFs::rc([&] { return f.o->vmkdir(("/" + y).c_str(), 0755, &f.ctx); }));
        ok(f.create("/" + y + "/" + x, "1"));
        if (sym_fork_flag("remount"))
            f.remount();
        file("/" + y + "/" + x, "file of a long name");
        CHECK(FullFs::rc([&] { return f.o->vgetattr(("/" + x + "/" + x).c_str(), &a, &f.ctx); }) == -ENOENT, "another directory of a similar name");
        ok(FullFs::rc([&] { return f.o->vrename(("/" + y + "/" + x).c_str(), ("/" + x + "/" + y).c_str(), &f.ctx); }));
        file("/" + x + "/" + y, "file of a long name after a move");
        CHECK(FullFs::rc([&] { return f.o->vgetattr(("/" + y + "/" + x).c_str(), &b, &f.ctx); }) == -ENOENT, "moved file still there");
        sym_reach("name");
    }
    }
}
// Case-insensitive mounts: the path as it is stored.
namespace
{
int ci_cmp(std::string_view a, std::string_view b)
{
    for (size_t i = 0; i < a.size() && i < b.size(); ++i)
    {
        int x = (unsigned char)a[i] | 32, y = (unsigned char)b[i] | 32;
        if (x != y)
            return x - y;
    }
    return (int)a.size() - (int)b.size();
}
std::string cased(const char* what, std::string s)
{
    for (auto& c : s)
        if (sym_fork_flag(what))
            c ^= 32;
    return s;
}
}    // namespace
extern "C" void h_getpath()
{
    FullFs f(sym_param("legacy", 0) != 0, &ci_cmp);
    std::string d = cased("stored", "dx"), e = cased("stored", "e"), file = cased("stored", "f");
    CHECK(FullFs::rc([&] { return f.o->vmkdir(("/" + d).c_str(), 0755, &f.ctx); }) == 0, "mkdir");
    CHECK(f.create("/" + e, "other") == 0, "create");
    CHECK(f.create("/" + d + "/" + file, "1") == 0, "create");
    CHECK(f.o->has_getpath(), "case-insensitive mounts canonicalise paths");
    std::string asked, want;
    int rc = 0;
    switch (pick_of("path", 5))
    {
    case 0:
        asked = want = "/";
        break;
    case 1:
        asked = "/" + cased("asked", "dx");
        want = "/" + d;
        break;
    case 2:
        asked = "/" + cased("asked", "dx") + "/" + cased("asked", "f");
        want = "/" + d + "/" + file;
        break;
    case 3:
        asked = "/" + cased("asked", "dx") + "/e";
        rc = -ENOENT;
        break;
    case 4:
        asked = "/x/" + cased("asked", "f");
        rc = -ENOENT;
        break;
    }
    char buf[16];
    memset(buf, 'z', sizeof buf);
    size_t size = 1 + pick_of("size", 9);
    int g = FullFs::rc([&] { return f.o->vgetpath(asked.c_str(), buf, size, nullptr, &f.ctx); });
    for (size_t i = size; i < sizeof buf; ++i)
        CHECK(buf[i] == 'z', "wrote beyond the buffer");
    if (rc)
    {
        sym_reach("missing");
        CHECK(g == rc, "missing path");
    }
    else if (want.size() >= size)
    {
        sym_reach("short");
        CHECK(g == -ENAMETOOLONG, "path cut off");
    }
    else
    {
        sym_reach("path");
        CHECK(g == 0 && memchr(buf, 0, size) && want == buf, "path differs from the stored one");
    }
    std::string s;
    CHECK(f.read("/" + cased("asked again", "dx") + "/f", s) == 0 && s == "1", "file not found by another case");
}
