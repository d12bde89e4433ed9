// Operations of a mounted full-format file system that run at the same time.
#include "full_fs.h"
namespace
{
std::string num(long v)
{
    std::string r;
    bool n = v < 0;
    if (n)
        v = -v;
    do
        r.insert(r.begin(), (char)('0' + v % 10));
    while (v /= 10);
    return n ? "-" + r : r;
}
id_type ids()
{
    static int k = 0;
    id_type r;
    memset(r.data(), 0, r.size());
    ++k;
    r.data()[0] = 0xe0;
    r.data()[1] = (unsigned char)k;
    r.data()[2] = (unsigned char)(k >> 8);
    return r;
}
void rng(void* p, size_t n)
{
    memset(p, 0x37, n);
    if (n == id_type::size())
    {
        id_type i = ids();
        memcpy(p, i.data(), n);
    }
}
// /a "one" (also /d/h), /d/b "two", /d/e/ empty, /l -> d/b
struct Sys
{
    FullFs f;
    fuse_file_info a{}, dir{};
    Sys()
    {
        CHECK(f.create("/a", "one") == 0, "create");
        CHECK(FullFs::rc([&] { return f.o->vmkdir("/d", 0755, &f.ctx); }) == 0, "mkdir");
        CHECK(FullFs::rc([&] { return f.o->vmkdir("/d/e", 0755, &f.ctx); }) == 0, "mkdir");
        CHECK(f.create("/d/b", "two") == 0, "create");
        CHECK(FullFs::rc([&] { return f.o->vlink("/a", "/d/h", &f.ctx); }) == 0, "link");
        CHECK(FullFs::rc([&] { return f.o->vsymlink("d/b", "/l", &f.ctx); }) == 0, "symlink");
        CHECK(FullFs::rc([&] { return f.o->vopen("/a", &a, &f.ctx); }) == 0, "open");
        CHECK(FullFs::rc([&] { return f.o->vopendir("/d", &dir, &f.ctx); }) == 0, "opendir");
    }
    std::string stat(const char* p)
    {
        fuse_stat st{};
        int r = FullFs::rc([&] { return f.o->vgetattr(p, &st, &f.ctx); });
        return num(r) + (r ? "" : ":" + num(st.st_mode) + "," + num(st.st_nlink) + "," + ((st.st_mode & S_IFMT) == S_IFREG ? num(st.st_size) : ""));
    }
    void tree(const std::string& p, std::string& out)
    {
        out += p + "=" + stat(p.c_str());
        fuse_stat st{};
        if (FullFs::rc([&] { return f.o->vgetattr(p.c_str(), &st, &f.ctx); }))
            return;
        if (S_ISREG(st.st_mode))
        {
            std::string c;
            CHECK(f.read(p, c) == 0, "read");
            out += "'" + c + "'";
            char x[8] = {};
            int r = FullFs::rc([&] { return f.o->vgetxattr(p.c_str(), "user.x", x, sizeof x, 0, &f.ctx); });
            out += num(r) + std::string(x, x + std::max(r, 0));
        }
        else if (S_ISLNK(st.st_mode))
        {
            char x[8] = {};
            CHECK(FullFs::rc([&] { return f.o->vreadlink(p.c_str(), x, sizeof x, &f.ctx); }) == 0, "readlink");
            out += x;
        }
        else if (S_ISDIR(st.st_mode))
        {
            std::vector<std::pair<std::string, unsigned>> v;
            CHECK(f.list(p, v) == 0, "list");
            for (auto& n : v)
                if (n.first != "." && n.first != "..")
                    tree((p == "/" ? "" : p) + "/" + n.first, out);
        }
        out += "\n";
    }
    std::string finish()
    {
        CHECK(FullFs::rc([&] { return f.o->vrelease("/a", &a, &f.ctx); }) == 0, "release");
        CHECK(FullFs::rc([&] { return f.o->vreleasedir("/d", &dir, &f.ctx); }) == 0, "releasedir");
        f.remount();
        std::string r;
        tree("/", r);
        r += num((long)FullFs::stored());
        f.unmount();
        return r;
    }
};
void fresh()
{
    delete mos::fsp();
    mos::fsp() = nullptr;
    mos::fs().tick = false;
}
enum Op
{
    GETATTR,
    FGETATTR,
    OPEN,
    READ,
    WRITE,
    TRUNCATE,
    FLUSH,
    CHMOD,
    GETXATTR,
    SETXATTR,
    READDIR,
    READLINK,
    THROUGH,
    GETPATH,
    OPEN_TRUNC,
    FTRUNCATE,
    CLOSING,
    UTIMENS,
    CHOWN,
    LISTXATTR,
    REMOVEXATTR,
    CREATE,
    MKDIR,
    SYMLINK,
    LINK,
    UNLINK,
    RMDIR,
    RENAME,
    RENAME_OVER,
    RENAME_UP,
    OPS
};
// operations that take away names, or move them
bool removes(int op) { return op >= UNLINK; }
std::string run(Sys& s, int op, int who)
{
    auto& f = s.f;
    auto& o = *f.o;
    std::string out;
    int r = 0;
    auto rc = [](auto&& g) { return FullFs::rc(g); };
    switch (op)
    {
    case GETATTR:
        return s.stat("/d/h");
    case FGETATTR:
    {
        fuse_stat st{};
        r = rc([&] { return o.vfgetattr("/a", &st, &s.a, &f.ctx); });
        return num(r) + ":" + num(st.st_size) + "," + num(st.st_nlink) + "," + num(st.st_mode);
    }
    case OPEN:
        r = f.read("/d/h", out);
        break;
    case READ:
        out.assign(4, '.');
        r = rc([&] { return o.vread("/a", &out[0], 4, 0, &s.a, &f.ctx); });
        break;
    case WRITE:
        r = rc([&] { return o.vwrite("/a", who ? "PQ" : "XY", 2, who ? 2 : 0, &s.a, &f.ctx); });
        break;
    case TRUNCATE:
        r = rc([&] { return o.vtruncate("/d/h", who ? 1 : 5, &f.ctx); });
        break;
    case FLUSH:
        r = rc([&] { return o.vfsync("/a", 0, &s.a, &f.ctx); });
        break;
    case CHMOD:
        r = rc([&] { return o.vchmod("/d/h", who ? 0600 : 0640, &f.ctx); });
        break;
    case GETXATTR:
        out.assign(4, '.');
        r = rc([&] { return o.vgetxattr("/a", "user.x", &out[0], 4, 0, &f.ctx); });
        break;
    case SETXATTR:
        r = rc([&] { return o.vsetxattr("/d/h", "user.x", who ? "1" : "22", who ? 1 : 2, 0, 0, &f.ctx); });
        break;
    case READDIR:
    {
        std::vector<std::pair<std::string, unsigned>> v;
        r = rc([&] { return o.vreaddir("/d", &v, (fuse_fill_dir_t)&FullFs::fill, 0, &s.dir, &f.ctx); });
        for (auto& n : v)
            out += n.first + num(n.second) + ";";
        break;
    }
    case READLINK:
        out.assign(8, 0);
        r = rc([&] { return o.vreadlink("/l", &out[0], 8, &f.ctx); });
        break;
    case THROUGH:
        r = f.read("/l", out);
        break;
    case GETPATH:
        out.assign(16, 0);
        r = rc([&] { return o.vgetpath("/d/b", &out[0], 16, nullptr, &f.ctx); });
        break;
    case OPEN_TRUNC:
    {
        fuse_file_info i{};
        i.flags = O_RDWR | O_TRUNC;
        r = rc([&] { return o.vopen("/d/h", &i, &f.ctx); });
        if (!r)
            r = rc([&] { return o.vrelease("/d/h", &i, &f.ctx); });
        break;
    }
    case FTRUNCATE:
        r = rc([&] { return o.vftruncate("/a", who ? 3 : 6, &s.a, &f.ctx); });
        break;
    case CLOSING:
        r = rc([&] { return o.vflush("/a", &s.a, &f.ctx); });
        break;
    case UTIMENS:
    {
        fuse_timespec t[2] = {{100, 0}, {who ? 200 : 300, 0}};
        r = rc([&] { return o.vutimens("/d/h", t, &f.ctx); });
        break;
    }
    case CHOWN:
        r = rc([&] { return o.vchown("/d/h", 5, who, &f.ctx); });
        break;
    case LISTXATTR:
        out.assign(16, '.');
        r = rc([&] { return o.vlistxattr("/a", &out[0], 16, &f.ctx); });
        break;
    case REMOVEXATTR:
        r = rc([&] { return o.vremovexattr("/d/h", "user.x", &f.ctx); });
        break;
    case CREATE:
        r = f.create(who ? "/d/n" : "/d/g", "new");
        break;
    case MKDIR:
        r = rc([&] { return o.vmkdir(who ? "/d/n" : "/d/m", 0700, &f.ctx); });
        break;
    case SYMLINK:
        r = rc([&] { return o.vsymlink("b", "/d/c", &f.ctx); });
        break;
    case LINK:
        r = rc([&] { return o.vlink("/a", "/d/k", &f.ctx); });
        break;
    case UNLINK:
        r = rc([&] { return o.vunlink(who ? "/a" : "/d/b", &f.ctx); });
        break;
    case RMDIR:
        r = rc([&] { return o.vrmdir("/d/e", &f.ctx); });
        break;
    case RENAME:
        r = rc([&] { return o.vrename("/a", "/d/z", &f.ctx); });
        break;
    case RENAME_OVER:
        r = rc([&] { return o.vrename("/d/h", "/d/b", &f.ctx); });
        break;
    case RENAME_UP:
        r = rc([&] { return o.vrename("/d/b", "/y", &f.ctx); });
        break;
    }
    return num(r) + out;
}
struct Job
{
    Sys* s;
    int op, who;
    std::string result;
};
void job(void* p)
{
    auto& j = *(Job*)p;
    j.result = run(*j.s, j.op, j.who);
}
}    // namespace
extern "C" void h_pair()
{
    symc::st().rng = &rng;
    store_times() = sym_param("times", 1);
    int a = (int)sym_choice(sym_param("a0", 0), sym_param("a1", OPS - 1), "a"), b = (int)sym_choice(sym_param("b0", 0), sym_param("b1", OPS - 1), "b");
    sym_assume(a <= b);
    // libfuse locks the path of a name that is replaced against operations that use it
    sym_assume(!(b == RENAME_OVER && (a == THROUGH || a == GETPATH)));
    std::string ra[2], rb[2], end[2];
    for (int order = 0; order < 2; ++order)
    {
        fresh();
        Sys s;
        if (order)
            rb[1] = run(s, b, 1);
        ra[order] = run(s, a, 0);
        if (!order)
            rb[0] = run(s, b, 1);
        end[order] = s.finish();
    }
    fresh();
    Sys s;
    Job x{&s, a, 0}, y{&s, b, 1};
    sched::w.watch = true;
    mos::io_points = sym_param("io", 1);
    sched::run({&job, &job}, {&x, &y}, (int)sym_param("preemptions", 1));
    std::string e = s.finish();
    bool ok = false;
    for (int i = 0; i < 2; ++i)
        ok |= same(x.result, ra[i]) && same(y.result, rb[i]) && same(e, end[i]);
    if (!ok && sym_param("show", 0))
    {
        printf("%d %d\n%s | %s\n%s\n-- or\n%s | %s\n%s\n-- but\n%s | %s\n%s\n", a, b, ra[0].c_str(), rb[0].c_str(), end[0].c_str(), ra[1].c_str(), rb[1].c_str(), end[1].c_str(), x.result.c_str(), y.result.c_str(), e.c_str());
        fflush(stdout);
    }
    CHECK(ok, "result of concurrent operations differs from every order of them");
    sym_reach(removes(a) || removes(b) ? "names" : "contents");
}
