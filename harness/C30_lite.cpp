// Operations of a mounted lite-format file system that run at the same time.
#include "lite_fs.h"
#include "sqlite_model.h"
namespace
{
std::string num(long v)
{
    std::string r;
    bool n = v < 0;
    if (n)
        v = -v;
    do
        r.insert(r.begin(), (char)('0' + v % 10));
    while (v /= 10);
    return n ? "-" + r : r;
}
const std::string LONG(24, 'x'), LONG2(25, 'y');
int fill(void* b, const char* n, const fuse_stat* st, fuse_off_t)
{
    ((std::vector<std::pair<std::string, unsigned>>*)b)->push_back({n, st ? st->st_mode & S_IFMT : 0});
    return 0;
}
// /a "one" (also /d/h), /d/b "two", /d/xxx.. "long", /d/e/ empty, /l -> d/b
struct Sys
{
    LiteFs f{MODERN};
    fuse_file_info h[2]{}, dir{};
    template <class F>
    static int rc(F&& g)
    {
        return LiteFs::rc(g);
    }
    int create(const std::string& p, const std::string& c)
    {
        fuse_file_info i{};
        int r = rc([&] { return f.o->vcreate(p.c_str(), 0644, &i, &f.ctx); });
        if (r)
            return r;
        r = rc([&] { return f.o->vwrite(p.c_str(), c.data(), c.size(), 0, &i, &f.ctx); });
        CHECK(rc([&] { return f.o->vrelease(p.c_str(), &i, &f.ctx); }) == 0, "release");
        return r;
    }
    int read(const std::string& p, std::string& out)
    {
        fuse_file_info i{};
        i.flags = O_RDONLY;
        int r = rc([&] { return f.o->vopen(p.c_str(), &i, &f.ctx); });
        if (r)
            return r;
        out.assign(8, '.');
        r = rc([&] { return f.o->vread(p.c_str(), &out[0], 8, 0, &i, &f.ctx); });
        CHECK(r <= 8, "more read than asked for");
        out.resize(std::max(r, 0));
        CHECK(rc([&] { return f.o->vrelease(p.c_str(), &i, &f.ctx); }) == 0, "release");
        return r;
    }
    Sys()
    {
        CHECK(create("/a", "one") == 3, "create");
        CHECK(rc([&] { return f.o->vmkdir("/d", 0755, &f.ctx); }) == 0, "mkdir");
        CHECK(rc([&] { return f.o->vmkdir("/d/e", 0755, &f.ctx); }) == 0, "mkdir");
        CHECK(create("/d/b", "two") == 3, "create");
        CHECK(create("/d/" + LONG, "long") == 4, "create");
        CHECK(rc([&] { return f.o->vlink("/a", "/d/h", &f.ctx); }) == 0, "link");
        CHECK(rc([&] { return f.o->vsymlink("d/b", "/l", &f.ctx); }) == 0, "symlink");
        for (int i = 0; i < 2; ++i)
        {
            h[i].flags = O_RDWR;
            CHECK(rc([&] { return f.o->vopen(i ? "/d/h" : "/a", &h[i], &f.ctx); }) == 0, "open");
        }
        CHECK(rc([&] { return f.o->vopendir("/d", &dir, &f.ctx); }) == 0, "opendir");
    }
    std::string stat(const std::string& p)
    {
        fuse_stat st{};
        int r = rc([&] { return f.o->vgetattr(p.c_str(), &st, &f.ctx); });
        return num(r) + (r ? "" : ":" + num(st.st_mode) + "," + num(st.st_nlink) + "," + (S_ISREG(st.st_mode) ? num(st.st_size) : ""));
    }
    void tree(const std::string& p, std::string& out)
    {
        out += p + "=" + stat(p);
        fuse_stat st{};
        if (rc([&] { return f.o->vgetattr(p.c_str(), &st, &f.ctx); }))
            return;
        if (S_ISREG(st.st_mode))
        {
            std::string c;
            CHECK(read(p, c) >= 0, "read");
            out += "'" + c + "'";
            char x[8] = {};
            int r = rc([&] { return f.o->vgetxattr(p.c_str(), "user.x", x, sizeof x, 0, &f.ctx); });
            out += num(r) + std::string(x, x + std::max(r, 0));
        }
        else if (S_ISDIR(st.st_mode))
        {
            std::vector<std::pair<std::string, unsigned>> v;
            fuse_file_info i{};
            CHECK(rc([&] { return f.o->vopendir(p.c_str(), &i, &f.ctx); }) == 0, "opendir");
            CHECK(rc([&] { return f.o->vreaddir(p.c_str(), &v, (fuse_fill_dir_t)&fill, 0, &i, &f.ctx); }) == 0, "readdir");
            CHECK(rc([&] { return f.o->vreleasedir(p.c_str(), &i, &f.ctx); }) == 0, "releasedir");
            std::sort(v.begin(), v.end());
            for (auto& n : v)
                if (n.first != "." && n.first != "..")
                    tree((p == "/" ? "" : p) + "/" + n.first, out);
        }
        out += "\n";
    }
    std::string finish()
    {
        for (int i = 0; i < 2; ++i)
            CHECK(rc([&] { return f.o->vrelease("/a", &h[i], &f.ctx); }) == 0, "release");
        CHECK(rc([&] { return f.o->vreleasedir("/d", &dir, &f.ctx); }) == 0, "releasedir");
        std::string r;
        tree("/", r);
        return r;
    }
};
void fresh()
{
    delete mos::fsp();
    mos::fsp() = nullptr;
    msql::dbs().clear();
    mos::fs().tick = false;
}
enum Op
{
    GETATTR,
    FGETATTR,
    OPEN,
    READ,
    READ2,
    WRITE,
    WRITE2,
    TRUNCATE,
    FTRUNCATE,
    SYNC,
    CHMOD,
    GETXATTR,
    SETXATTR,
    READLINK,
    READ_LONG,
    READDIR,
    CREATE,
    CREATE_LONG,
    LINK,
    SYMLINK,
    UNLINK_LONG,
    RMDIR,
    RENAME,
    RENAME_LONG,
    OPS
};
std::string run(Sys& s, int op, int who)
{
    auto& f = s.f;
    auto& o = *f.o;
    std::string out;
    int r = 0;
    auto rc = [](auto&& g) { return LiteFs::rc(g); };
    auto& h = s.h[op == READ2 || op == WRITE2];
    switch (op)
    {
    case GETATTR:
        return s.stat("/d/h");
    case FGETATTR:
    {
        fuse_stat st{};
        r = rc([&] { return o.vfgetattr("/a", &st, &s.h[0], &f.ctx); });
        return num(r) + ":" + num(st.st_size) + "," + num(st.st_nlink) + "," + num(st.st_mode);
    }
    case OPEN:
        r = s.read("/d/h", out);
        break;
    case READ:
    case READ2:
        out.assign(4, '.');
        r = rc([&] { return o.vread("/a", &out[0], 4, 0, &h, &f.ctx); });
        break;
    case WRITE:
    case WRITE2:
        r = rc([&] { return o.vwrite("/a", who ? "PQ" : "XY", 2, who ? 2 : 0, &h, &f.ctx); });
        break;
    case TRUNCATE:
        r = rc([&] { return o.vtruncate("/d/h", who ? 1 : 5, &f.ctx); });
        break;
    case FTRUNCATE:
        r = rc([&] { return o.vftruncate("/d/h", who ? 2 : 6, &s.h[1], &f.ctx); });
        break;
    case SYNC:
        r = rc([&] { return o.vfsync("/a", 0, &s.h[0], &f.ctx); });
        break;
    case CHMOD:
        r = rc([&] { return o.vchmod("/d/h", who ? 0600 : 0640, &f.ctx); });
        break;
    case GETXATTR:
        out.assign(4, '.');
        r = rc([&] { return o.vgetxattr("/a", "user.x", &out[0], 4, 0, &f.ctx); });
        break;
    case SETXATTR:
        r = rc([&] { return o.vsetxattr("/d/h", "user.x", who ? "1" : "22", who ? 1 : 2, 0, 0, &f.ctx); });
        break;
    case READLINK:
        out.assign(8, 0);
        r = rc([&] { return o.vreadlink("/l", &out[0], 8, &f.ctx); });
        break;
    case READ_LONG:
        r = s.read("/d/" + LONG, out);
        break;
    case READDIR:
    {
        std::vector<std::pair<std::string, unsigned>> v;
        r = rc([&] { return o.vreaddir("/d", &v, (fuse_fill_dir_t)&fill, 0, &s.dir, &f.ctx); });
        for (auto& n : v)
            out += n.first + num(n.second) + ";";
        break;
    }
    case CREATE:
        r = s.create("/d/n", "new");
        break;
    case CREATE_LONG:
        r = s.create("/d/" + LONG2, "new");
        break;
    case LINK:
        r = rc([&] { return o.vlink("/a", "/d/k", &f.ctx); });
        break;
    case SYMLINK:
        r = rc([&] { return o.vsymlink("b", ("/d/" + LONG2).c_str(), &f.ctx); });
        break;
    case UNLINK_LONG:
        r = rc([&] { return o.vunlink(("/d/" + LONG).c_str(), &f.ctx); });
        break;
    case RMDIR:
        r = rc([&] { return o.vrmdir("/d/e", &f.ctx); });
        break;
    case RENAME:
        r = rc([&] { return o.vrename("/a", "/d/z", &f.ctx); });
        break;
    case RENAME_LONG:
        r = rc([&] { return o.vrename(("/d/" + LONG).c_str(), ("/d/e/" + LONG2).c_str(), &f.ctx); });
        break;
    }
    return num(r) + out;
}
struct Job
{
    Sys* s;
    int op, who;
    std::string result;
};
void job(void* p)
{
    auto& j = *(Job*)p;
    j.result = run(*j.s, j.op, j.who);
}
}    // namespace
extern "C" void h_pair()
{
    int a = (int)sym_choice(sym_param("a0", 0), sym_param("a1", OPS - 1), "a"), b = (int)sym_choice(sym_param("b0", 0), sym_param("b1", OPS - 1), "b");
    sym_assume(a <= b);
    // the kernel runs those of one directory one after the other
    sym_assume(a < READDIR || b < READDIR || (a == READDIR && b == READDIR));
    std::string ra[2], rb[2], end[2];
    for (int order = 0; order < 2; ++order)
    {
        fresh();
        Sys s;
        if (order)
            rb[1] = run(s, b, 1);
        ra[order] = run(s, a, 0);
        if (!order)
            rb[0] = run(s, b, 1);
        end[order] = s.finish();
    }
    fresh();
    Sys s;
    Job x{&s, a, 0}, y{&s, b, 1};
    sched::w.watch = true;
    mos::io_points = sym_param("io", 1);
    sched::run({&job, &job}, {&x, &y}, (int)sym_param("preemptions", 1));
    std::string e = s.finish();
    bool ok = false;
    for (int i = 0; i < 2; ++i)
        ok |= same(x.result, ra[i]) && same(y.result, rb[i]) && same(e, end[i]);
    if (!ok && sym_param("show", 0))
    {
        printf("%d %d\n%s | %s\n%s\n-- or\n%s | %s\n%s\n-- but\n%s | %s\n%s\n", a, b, ra[0].c_str(), rb[0].c_str(), end[0].c_str(), ra[1].c_str(), rb[1].c_str(), end[1].c_str(), x.result.c_str(), y.result.c_str(), e.c_str());
        fflush(stdout);
    }
    CHECK(ok, "result of concurrent operations differs from every order of them");
    sym_reach(b >= READDIR ? "names" : "contents");
}
