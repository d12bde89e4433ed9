// What was completed, or reported as stored, survives an abrupt end of the process or a loss of power.
#ifdef LITE
#include "lite_fs.h"
using Fs = LiteFs;
#else
#include "full_fs.h"
using Fs = FullFs;
#endif
namespace
{
struct World
{
#ifdef LITE
    std::unique_ptr<Fs> f = std::make_unique<Fs>((int)PLAIN);
    static constexpr size_t B = 64;
#else
    std::unique_ptr<Fs> f = std::make_unique<Fs>(false);
    static constexpr size_t B = 4096;
#endif
    void end(bool power)
    {
        auto& w = *f;
#ifdef LITE
        (void)f.release();    // nothing in memory is written back
        f = std::make_unique<Fs>((int)PLAIN);
#else
        w.kill();
#endif
        (void)w;
        if (power)
            mos::lose_power();
    }
    template <class F>
    int rc(F&& g)
    {
        return Fs::rc(g);
    }
};
struct Ref_
{
    std::string content;
    unsigned mode = 0644, uid = 1000, gid = 1001;
    fuse_timespec at{}, mt{};
    bool timed = false;
    std::string x;
    bool has_x = false;
};
void make(World& w, const char* path, const std::string& c)
{
    fuse_file_info fi{};
    fi.flags = O_RDWR;
    CHECK(w.rc([&] { return w.f->o->vcreate(path, 0644, &fi, &w.f->ctx); }) == 0, "create");
    if (!c.empty())
        CHECK(w.rc([&] { return w.f->o->vwrite(path, c.data(), c.size(), 0, &fi, &w.f->ctx); }) == (int)c.size(), "write");
    CHECK(w.rc([&] { return w.f->o->vrelease(path, &fi, &w.f->ctx); }) == 0, "release");
}
void compare(World& w, const char* path, const Ref_& r)
{
    fuse_file_info fi{};
    auto& o = *w.f->o;
    auto* c = &w.f->ctx;
    fuse_stat st{};
    CHECK(w.rc([&] { return o.vgetattr(path, &st, c); }) == 0, "name lost");
    CHECK(w.rc([&] { return o.vopen(path, &fi, c); }) == 0, "file cannot be opened");
    std::string b(r.content.size() + 3, '\x5c');
    int n = w.rc([&] { return o.vread(path, &b[0], b.size(), 0, &fi, c); });
    CHECK(n >= 0, "file cannot be read");
    CHECK(n == (int)r.content.size(), "size lost");
    b.resize(n);
    CHECK(same(b, r.content), "content lost");
    CHECK(w.rc([&] { return o.vrelease(path, &fi, c); }) == 0, "release");
    CHECK((st.st_mode & 0777) == r.mode, "mode lost");
#ifndef LITE
    CHECK(st.st_uid == r.uid && st.st_gid == r.gid, "owner lost");
#endif
    CHECK((size_t)st.st_size == r.content.size(), "size lost");
    if (r.timed)
        CHECK(st.st_mtim.tv_sec == r.mt.tv_sec && st.st_mtim.tv_nsec == r.mt.tv_nsec, "time lost");
    if (r.has_x)
    {
        std::string v(r.x.size() + 1, 0);
        int k = w.rc([&] { return o.vgetxattr(path, "user.n", &v[0], v.size(), 0, c); });
        CHECK(k == (int)r.x.size(), "attribute lost");
        v.resize(k);
        CHECK(same(v, r.x), "attribute value lost");
    }
}
}    // namespace
extern "C" void h_files()
{
#ifndef LITE
    store_times() = sym_choice(0, 1, "times");
#endif
    World w;
    Ref_ a, other;
    a.content = sym_bytes(sym_choice(0, 2, "size") * 2, "a");
    other.content = "o";
    make(w, "/a", a.content);
    make(w, "/o", other.content);
    mos::sync_all();
    fuse_file_info fi{};
    fi.flags = O_RDWR;
    auto& o = *w.f->o;
    auto* c = &w.f->ctx;
    CHECK(w.rc([&] { return o.vopen("/a", &fi, c); }) == 0, "open");
    long ops = sym_param("ops", 1);
    bool another = false;
    for (long i = 0; i < ops; ++i)
        switch (sym_choice(0, 7, "op"))
        {
        case 0:
        case 1:
        {
            size_t off = std::array<size_t, 4>{0, 1, 5, World::B - 1}[sym_choice(0, 3, "offset")];
            std::string v = sym_bytes(2, "v");
            CHECK(w.rc([&] { return o.vwrite("/a", v.data(), v.size(), off, &fi, c); }) == 2, "write");
            if (a.content.size() < off + 2)
                a.content.resize(off + 2, 0);
            a.content.replace(off, 2, v);
            a.timed = false;
            break;
        }
        case 2:
        {
            size_t k = std::array<size_t, 4>{0, 1, 3, World::B + 1}[sym_choice(0, 3, "length")];
            if (sym_fork_flag("path"))
                CHECK(w.rc([&] { return o.vtruncate("/a", k, c); }) == 0, "truncate");
            else
                CHECK(w.rc([&] { return o.vftruncate("/a", k, &fi, c); }) == 0, "ftruncate");
            a.content.resize(k, 0);
            a.timed = false;
            break;
        }
        case 3:
            a.mode = sym_range(0600, 0677, "mode");
            CHECK(w.rc([&] { return o.vchmod("/a", a.mode, c); }) == 0, "chmod");
            break;
        case 4:
        {
            fuse_timespec t[2]{};
            t[0].tv_sec = sym_range(1, 1 << 20, "atime");
            t[1].tv_sec = sym_range(1, 1 << 20, "mtime");
            t[1].tv_nsec = sym_range(0, 999999999, "ns");
            CHECK(w.rc([&] { return o.vutimens("/a", t, c); }) == 0, "utimens");
            a.mt = t[1];
            a.timed = true;
            break;
        }
        case 5:
            a.x = sym_bytes(1, "x");
            a.has_x = true;
            CHECK(w.rc([&] { return o.vsetxattr("/a", "user.n", a.x.data(), a.x.size(), 0, 0, c); }) == 0, "setxattr");
            break;
        case 7:    // another object, while this one is open
            sym_assume(!another);
            another = true;
            make(w, "/n", "new");
            CHECK(w.rc([&] { return o.vrename("/o", "/p", c); }) == 0, "rename");
            break;
        case 6:
            a.uid = 1234;
            a.gid = 4321;
            w.rc([&] { return o.vchown("/a", a.uid, a.gid, c); });
            break;
        }
    bool power = false, stored = true;
    switch (sym_choice(0, 4, "barrier"))
    {
    case 0:
        CHECK(w.rc([&] { return o.vflush("/a", &fi, c); }) == 0, "flush");
        sym_reach("flushed");
        break;
    case 1:
        CHECK(w.rc([&] { return o.vfsync("/a", (int)sym_choice(0, 1, "datasync"), &fi, c); }) == 0, "fsync");
        sym_reach("synchronised");
        break;
    case 2:
        CHECK(w.rc([&] { return o.vfsync("/a", 0, &fi, c); }) == 0, "fsync");
        power = true;
        sym_reach("power lost");
        break;
    case 3:
        CHECK(w.rc([&] { return o.vrelease("/a", &fi, c); }) == 0, "release");
        sym_reach("closed");
        break;
    case 4:
        stored = false;
        sym_reach("open");
        break;
    }
    if (power && another)
        return;    // the directory is not synchronised with the file
    w.end(power);
    if (stored)
        compare(w, "/a", a);
    compare(w, another ? "/p" : "/o", other);
    if (another)
    {
        Ref_ n;
        n.content = "new";
        compare(w, "/n", n);
        fuse_stat st{};
        CHECK(w.rc([&] { return w.f->o->vgetattr("/o", &st, &w.f->ctx); }) == -ENOENT, "renamed file still there");
    }
}
