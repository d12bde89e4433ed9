// Operations on one file while calls to the underlying storage fail: success means done, failure leaves the rest alone.
#ifdef LITE
#include "lite_fs.h"
using Fs = LiteFs;
#else
#include "full_fs.h"
using Fs = FullFs;
#endif
namespace
{
#ifdef LITE
constexpr size_t B = 64;
#else
constexpr size_t B = 4096;
#endif
struct World
{
    std::unique_ptr<Fs> f = [] {
#ifdef LITE
        return std::make_unique<Fs>((int)PLAIN);
#else
        return std::make_unique<Fs>(false);
#endif
    }();
    void kill()
    {
#ifdef LITE
        (void)f.release();
        f = std::make_unique<Fs>((int)PLAIN);
#else
        f->kill();
#endif
    }
    template <class F>
    int rc(F&& g)
    {
        return Fs::rc(g);
    }
};
}    // namespace
extern "C" void h_data()
{
    World w;
    auto* c = &w.f->ctx;
    auto* o = w.f->o.get();
    // two blocks and a part of a third: bytes at their edges are arbitrary, the others fixed
    std::string content;
    for (size_t i = 0; i < 2 * B + 3; ++i)
        content.push_back((char)('a' + i % 26));
    std::string edge = sym_bytes(4, "edge");
    content[0] = edge[0], content[B - 1] = edge[1], content[B] = edge[2], content[2 * B] = edge[3];
    fuse_file_info fi{}, fo{};
    fi.flags = fo.flags = O_RDWR;
    CHECK(w.rc([&] { return o->vcreate("/a", 0644, &fi, c); }) == 0, "create");
    CHECK(w.rc([&] { return o->vwrite("/a", content.data(), content.size(), 0, &fi, c); }) == (int)content.size(), "write");
    CHECK(w.rc([&] { return o->vrelease("/a", &fi, c); }) == 0, "release");
    CHECK(w.rc([&] { return o->vcreate("/o", 0644, &fo, c); }) == 0, "create");
    CHECK(w.rc([&] { return o->vwrite("/o", "other", 5, 0, &fo, c); }) == 5, "write");
    CHECK(w.rc([&] { return o->vrelease("/o", &fo, c); }) == 0, "release");
    auto& s = mos::fs();
    fi = {};
    fi.flags = O_RDWR;
    CHECK(w.rc([&] { return o->vopen("/a", &fi, c); }) == 0, "open");
    s.io_fail_after = (long)sym_choice(0, sym_param("calls", 8), "calls");
    s.io_once = sym_fork_flag("once");
    std::string before = content;
    size_t from = 0, to = 0;    // the bytes it may change
    int op = (int)sym_choice(0, 4, "op"), got = 0;
    switch (op)
    {
    case 0:
    {
        static const size_t OFF[] = {0, B - 1, B, 2 * B + 2, 2 * B + 3, 2 * B + 9};
        size_t off = pick(OFF, "offset"), n = sym_fork_flag("two") ? 2 : B;
        std::string v = sym_bytes(2, "v");
        v.resize(n, 'v');
        got = w.rc([&] { return o->vwrite("/a", v.data(), n, off, &fi, c); });
        CHECK(got < 0 || got == (int)n, "result of a write");
        if (content.size() < off + n)
            content.resize(off + n, 0);
        content.replace(off, n, v);
        from = std::min(off, before.size());
        to = off + n;
        break;
    }
    case 1:
    {
        static const size_t L[] = {0, 1, B, B + 1, 2 * B + 4, 3 * B + 1};
        size_t k = pick(L, "length");
        got = w.rc([&] { return o->vftruncate("/a", k, &fi, c); });
        content.resize(k, 0);
        from = std::min(k, before.size());
        to = std::max(k, before.size());
        break;
    }
    case 2:
    {
        std::string b(3 * B, '\x5c');
        got = w.rc([&] { return o->vread("/a", &b[0], b.size(), 0, &fi, c); });
        if (got >= 0)
        {
            CHECK(got == (int)content.size(), "short read");
            b.resize(got);
            CHECK(same(b, content), "content read");
            got = 0;
        }
        break;
    }
    case 3:
        got = w.rc([&] { return o->vchmod("/a", 0600, c); });
        break;
    case 4:
        break;
    }
    CHECK(got <= 0 || op == 0, "positive result");
    bool did = got >= 0;
    // making it durable fails, or means that it is
    int fl = sym_fork_flag("fsync") ? w.rc([&] { return o->vfsync("/a", 0, &fi, c); }) : w.rc([&] { return o->vflush("/a", &fi, c); });
    CHECK(fl <= 0, "result of a flush");
    bool failed = s.io_failures > 0;
    CHECK(failed || (did && fl == 0), "fails without a reason");
    bool killed = fl == 0 && sym_fork_flag("killed");
    s.io_fail_after = -1;
    if (!killed)
    {
        // it works again: what had not been stored is
        w.rc([&] { return o->vflush("/a", &fi, c); });
        CHECK(w.rc([&] { return o->vrelease("/a", &fi, c); }) == 0, "release");
    }
    w.kill();
    o = w.f->o.get();
    c = &w.f->ctx;
    fi = {};
    fi.flags = O_RDONLY;
    fuse_stat st{};
    CHECK(w.rc([&] { return o->vgetattr("/a", &st, c); }) == 0, "name lost");
    CHECK(w.rc([&] { return o->vopen("/a", &fi, c); }) == 0, "file cannot be opened again");
    std::string b(4 * B, '\x5c');
    if (did)
    {
        if (op == 3)
            CHECK((st.st_mode & 0777) == 0600, "mode lost");
        CHECK((size_t)st.st_size == content.size(), "size lost");
        int n = w.rc([&] { return o->vread("/a", &b[0], b.size(), 0, &fi, c); });
        CHECK(n == (int)content.size(), "content not readable");
        b.resize(n);
        CHECK(same(b, content), "content lost");
        sym_reach(failed ? "done in spite of a failure" : "done");
    }
    else
    {
        // blocks it did not concern: in the full format padding moves them by an unknown number of bytes
#ifdef LITE
        const size_t shift = 0;
#else
        const size_t shift = sym_param("pad", 0);
#endif
        for (size_t i = 0; i < before.size(); i += B)
        {
            size_t e = std::min(i + B - shift, before.size());
            if (from < to && i < to + shift && from < i + B)
                continue;
            int n = w.rc([&] { return o->vread("/a", &b[0], e - i, i, &fi, c); });
            CHECK(n == (int)(e - i), "another part of the file is not readable");
            CHECK(same(b.substr(0, n), before.substr(i, n)), "another part of the file differs");
            sym_reach("rest");
        }
        sym_reach("failed");
    }
    CHECK(w.rc([&] { return o->vrelease("/a", &fi, c); }) == 0, "release");
    fo = {};
    CHECK(w.rc([&] { return o->vopen("/o", &fo, c); }) == 0, "another file cannot be opened");
    b.assign(16, 0);
    int n = w.rc([&] { return o->vread("/o", &b[0], 9, 0, &fo, c); });
    CHECK(n == 5 && b.substr(0, 5) == "other", "another file differs");
    CHECK(w.rc([&] { return o->vrelease("/o", &fo, c); }) == 0, "release");
}
