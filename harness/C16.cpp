// File attributes: an arbitrary attribute state, one or more operations, flush, reopen; against a plain record.
#include "os.h"
#include "btree_dir.h"
#include "files.h"
using namespace model;
using F = RegularFile;
static const unsigned BS = 64;
struct Att
{
    uint32_t mode, uid, gid, nlink;
    fuse_timespec a, m, c, b;
};
struct Store
{
    std::shared_ptr<mos::Inode> data = std::make_shared<mos::Inode>(), meta = std::make_shared<mos::Inode>();
    bool timed;
    unsigned pad;
    std::unique_ptr<F> open()
    {
        id_type id{};
        id.data()[0] = 5;
        return std::make_unique<F>(std::make_shared<mos::File>(data),
                                   std::make_shared<mos::File>(meta),
                                   StrongType<key_type, tMasterKey>(test_key()),
                                   id,
                                   StrongType<bool, tVerify>(true),
                                   StrongType<unsigned, tBlockSize>(BS),
                                   StrongType<unsigned, tIvSize>(12),
                                   StrongType<unsigned, tMaxPaddingSize>(pad),
                                   StrongType<bool, tStoreTimeWithinFs>(timed));
    }
};
static fuse_timespec ts(const char* n)
{
    fuse_timespec t;
    t.tv_sec = (time_t)sym_u64(n);
    t.tv_nsec = (long)sym_range(0, 999999999, "nsec");
    return t;
}
static bool eq(const fuse_timespec& a, const fuse_timespec& b) { return ((a.tv_sec ^ b.tv_sec) | (a.tv_nsec ^ b.tv_nsec)) == 0; }
static void agree(FileBase& f, const Att& r, bool timed)
{
    CHECK(f.get_mode() == r.mode, "mode differs");
    CHECK(f.get_uid() == r.uid, "owner differs");
    CHECK(f.get_gid() == r.gid, "group differs");
    CHECK(f.get_nlink() == r.nlink, "link count differs");
    if (!timed)
        return;
    CHECK(eq(f.get_atime(), r.a), "access time differs");
    CHECK(eq(f.get_mtime(), r.m), "modification time differs");
    CHECK(eq(f.get_ctime(), r.c), "change time differs");
    CHECK(eq(f.get_birthtime(), r.b), "birth time differs");
}
static void le(const unsigned char* p, unsigned n, uint64_t v, const char* msg)
{
    uint64_t x = 0;
    for (unsigned i = 0; i < n; ++i)
        x |= (uint64_t)p[i] << (8 * i);
    CHECK(x == v, msg);
}
// the layout described in files.cpp
static void stored(Store& s, const Att& r)
{
    byte keys[64];
    auto k = test_key();
    id_type id{};
    id.data()[0] = 5;
    hkdf(k.data(), 32, nullptr, 0, id.data(), 32, keys, 64);
    key_type dk(keys, 32), mk(keys + 32, 32);
    size_t n = s.timed ? 80 : 32;
    auto c = make_cryptstream_aes_gcm(std::make_shared<mos::File>(s.data), std::make_shared<mos::File>(s.meta), dk, mk, id, true, BS, 12, n);
    unsigned char h[80];
    bool ok = c.second->read_header(h, n);
    CHECK(ok, "no header stored");
    le(h, 4, r.mode, "stored mode differs");
    le(h + 4, 4, r.uid, "stored owner differs");
    le(h + 8, 4, r.gid, "stored group differs");
    le(h + 12, 4, r.nlink, "stored link count differs");
    if (!s.timed)
        return;
    const fuse_timespec* t[] = {&r.a, &r.m, &r.c, &r.b};
    for (int i = 0; i < 4; ++i)
    {
        le(h + 28 + 12 * i, 8, t[i]->tv_sec, "stored time differs");
        le(h + 36 + 12 * i, 4, t[i]->tv_nsec, "stored time differs");
    }
}
// now or as before, as the caller knows
static void ticked(const fuse_timespec& got, const fuse_timespec& before, const char* msg)
{
    // the clock advances by a second with every reading
    CHECK(got.tv_nsec == before.tv_nsec && got.tv_sec > before.tv_sec && got.tv_sec <= mos::fs().now.tv_sec, msg);
}
static void one(F& f, Store& s, Att& r)
{
    auto t0 = mos::fs().now;
    auto old_at = s.data->at, old_mt = s.data->mt;
    uint32_t v;
    fuse_timespec t[2];
    bool changed = true;
    unsigned op = (unsigned)sym_choice(0, 12, "op");
    switch (op)
    {
    case 0:
        v = sym_u32("mode");
        changed = v != r.mode;
        f.set_mode(r.mode = v);
        break;
    case 1:
        v = sym_u32("uid");
        changed = v != r.uid;
        f.set_uid(r.uid = v);
        break;
    case 2:
        v = sym_u32("gid");
        changed = v != r.gid;
        f.set_gid(r.gid = v);
        break;
    case 3:
        v = sym_u32("nlink");
        changed = v != r.nlink;
        f.set_nlink(r.nlink = v);
        break;
    case 4:
        f.unlink();
        --r.nlink;
        r.c = f.get_ctime();
        break;
    case 5:
        t[0] = ts("atime");
        f.set_atime(r.a = t[0]);
        break;
    case 6:
        t[0] = ts("mtime");
        f.set_mtime(r.m = t[0]);
        break;
    case 7:
        t[0] = ts("ctime");
        f.set_ctime(r.c = t[0]);
        break;
    case 8:
        t[0] = ts("atime");
        t[1] = ts("mtime");
        f.utimens(t);
        r.a = t[0], r.m = t[1];
        break;
    case 9:
        f.utimens(nullptr);
        break;
    case 10:
    {
        char b[4];
        f.read(b, 0, 4);
        break;
    }
    case 11:
        f.write("data", 1, 3);
        break;
    case 12:
        f.truncate(2);
        break;
    }
    if (!s.timed)
    {
        if (op == 8)
            CHECK(eq(s.data->at, t[0]) && eq(s.data->mt, t[1]), "times not handed to the underlying file");
        else if (op == 9)
            CHECK(eq(s.data->at, t0) && eq(s.data->mt, t0), "times of the underlying file not set to the current time");
        else if (op < 9)
            CHECK(eq(s.data->at, old_at) && eq(s.data->mt, old_mt), "times of the underlying file changed");
        return;
    }
    if (op <= 3)
    {
        if (sym_conc(changed))
            ticked(f.get_ctime(), t0, "change time not updated");
        else
            CHECK(eq(f.get_ctime(), r.c) || f.get_ctime().tv_sec == mos::fs().now.tv_sec, "change time neither kept nor set to the current time");
        r.c = f.get_ctime();
    }
    if (op == 8 || op == 9)
    {
        CHECK(sym_defined(&f.m_ctime, sizeof f.m_ctime), "change time set to an undefined value");
        ticked(f.get_ctime(), t0, "change time not set to the current time");
        r.c = f.get_ctime();
    }
    if (op == 9)
    {
        ticked(f.get_atime(), t0, "access time not set to the current time");
        ticked(f.get_mtime(), t0, "modification time not set to the current time");
        r.a = f.get_atime();
        r.m = f.get_mtime();
    }
    if (op == 10)
    {
        auto a = f.get_atime();
        bool kept = eq(a, r.a);
        if (!sym_conc(kept))
            ticked(a, t0, "access time neither kept nor set to the current time");
        else
            CHECK(!(r.a.tv_sec < r.m.tv_sec || r.a.tv_sec < r.c.tv_sec) || eq(a, mos::fs().now), "access time older than the last modification after a read");
        r.a = a;
    }
    if (op >= 11)
    {
        ticked(f.get_mtime(), t0, "modification time not set to the current time");
        ticked(f.get_ctime(), t0, "change time not set to the current time");
        r.m = f.get_mtime();
        r.c = f.get_ctime();
    }
}
static void check_stat(F& f, Store& s, const Att& r)
{
    fuse_stat st;
    memset(&st, 0x5a, sizeof st);
    f.stat(&st);
    CHECK(st.st_mode == r.mode && st.st_uid == r.uid && st.st_gid == r.gid && st.st_nlink == r.nlink, "reported attributes differ");
    CHECK((uint64_t)st.st_size == f.size(), "reported size differs");
    CHECK(st.st_ino == to_inode_number(f.get_id()), "reported file number differs");
    if (s.timed)
        CHECK(eq(st.st_atim, r.a) && eq(st.st_mtim, r.m) && eq(st.st_ctim, r.c), "reported times differ");
    else
        CHECK(eq(st.st_atim, s.data->at) && eq(st.st_mtim, s.data->mt), "times of the underlying file not reported");
}
extern "C" void h_attr()
{
    Store s;
    s.timed = sym_fork_flag("timed");
    s.pad = (unsigned)sym_param("pad", 0);
    Att r{};
    auto f = s.open();
    // a new file
    auto t0 = mos::fs().now;
    bool defaults = sym_fork_flag("defaults");
    r.mode = sym_u32("mode0");
    r.uid = defaults ? ~0u : sym_u32("uid0");
    r.gid = defaults ? ~0u : sym_u32("gid0");
    if (!defaults)
        sym_assume(r.uid != ~0u && r.gid != ~0u);
    f->initialize_empty(r.mode, r.uid, r.gid);
    if (defaults)
        r.uid = r.gid = 1000;
    r.nlink = 1;
    if (s.timed)
    {
        ticked(f->get_atime(), t0, "access time of a new file is not the current time");
        ticked(f->get_mtime(), t0, "modification time of a new file is not the current time");
        ticked(f->get_ctime(), t0, "change time of a new file is not the current time");
        ticked(f->get_birthtime(), t0, "birth time of a new file is not the current time");
        r.a = f->get_atime(), r.m = f->get_mtime(), r.c = f->get_ctime(), r.b = f->get_birthtime();
    }
    agree(*f, r, s.timed);
    f->flush();
    f = s.open();
    agree(*f, r, s.timed);
    sym_reach("new");
    if (!defaults)
    {
        // any state
        if (s.timed)
        {
            r.a = ts("a0"), r.m = ts("m0"), r.c = ts("c0");
            f->set_atime(r.a), f->set_mtime(r.m), f->set_ctime(r.c);
        }
        f->write("abcdefg", 0, 7);
        if (s.timed)
        {
            f->set_mtime(r.m), f->set_ctime(r.c);
            // the birth time is set through the header only
            r.b = ts("b0");
            f->m_birthtime = r.b;
        }
        if (sym_fork_flag("flush"))
        {
            f->flush();
            agree(*f, r, s.timed);
            if (sym_fork_flag("reopen"))
                f = s.open();
            agree(*f, r, s.timed);
        }
        for (long n = sym_param("ops", 1); n; --n)
        {
            one(*f, s, r);
            agree(*f, r, s.timed);
        }
        check_stat(*f, s, r);
        f->flush();
        agree(*f, r, s.timed);
        stored(s, r);
        f = s.open();
        agree(*f, r, s.timed);
        check_stat(*f, s, r);
        sym_reach(s.timed ? "timed" : "untimed");
    }
}
// an object is used as a regular file, directory or symbolic link only if its class and its stored mode agree on it
template <class C, class T>
static void cast(uint32_t mode)
{
    mos::InodeP d = std::make_shared<mos::Inode>(), m = std::make_shared<mos::Inode>();
    auto make = [&](auto&&... first)
    {
        return std::make_unique<C>(first...,
                                   std::shared_ptr<FileStream>(std::make_shared<mos::File>(d)),
                                   std::shared_ptr<FileStream>(std::make_shared<mos::File>(m)),
                                   StrongType<key_type, tMasterKey>(test_key()),
                                   id_type{},
                                   StrongType<bool, tVerify>(true),
                                   StrongType<unsigned, tBlockSize>(BS),
                                   StrongType<unsigned, tIvSize>(12),
                                   StrongType<unsigned, tMaxPaddingSize>(0),
                                   StrongType<bool, tStoreTimeWithinFs>(false));
    };
    std::unique_ptr<C> c;
    if constexpr (std::is_same_v<C, BtreeDirectory>)
        c = make(Directory::DirNameComparison{&binary_compare});
    else
        c = make();
    c->initialize_empty(mode, 0, 0);
    T* got = nullptr;
    bool threw = throws([&] { got = static_cast<FileBase&>(*c).template cast_as<T>(); });
    bool want = std::is_base_of_v<T, C> && (mode & S_IFMT) == FileBase::mode_for_type(T::class_type());
    CHECK(!want == threw, "file object used as another type than its own");
    if (!threw)
        CHECK(got == static_cast<T*>(static_cast<FileBase*>(c.get())), "cast yields another object");
    sym_reach(threw ? "refused" : "cast");
}
extern "C" void h_type()
{
    static const uint32_t fmt[] = {S_IFREG, S_IFDIR, S_IFLNK, S_IFIFO, S_IFSOCK, 0};
    uint32_t mode = pick(fmt, "format") | (sym_u16("perm") & 07777);
    switch (sym_choice(0, 8, "pair"))
    {
    case 0: return cast<RegularFile, RegularFile>(mode);
    case 1: return cast<RegularFile, Directory>(mode);
    case 2: return cast<RegularFile, Symlink>(mode);
    case 3: return cast<Symlink, RegularFile>(mode);
    case 4: return cast<Symlink, Directory>(mode);
    case 5: return cast<Symlink, Symlink>(mode);
    case 6: return cast<BtreeDirectory, RegularFile>(mode);
    case 7: return cast<BtreeDirectory, Directory>(mode);
    case 8: return cast<BtreeDirectory, Symlink>(mode);
    }
}

// adding, removing and looking at the entries of a directory, and reading a link, keep the times of the object
template <class C>
struct Obj
{
    mos::InodeP d = std::make_shared<mos::Inode>(), m = std::make_shared<mos::Inode>();
    bool timed;
    template <class... A>
    std::unique_ptr<C> make(A&&... first)
    {
        return std::make_unique<C>(first...,
                                   std::shared_ptr<FileStream>(std::make_shared<mos::File>(d)),
                                   std::shared_ptr<FileStream>(std::make_shared<mos::File>(m)),
                                   StrongType<key_type, tMasterKey>(test_key()),
                                   id_type{},
                                   StrongType<bool, tVerify>(true),
                                   StrongType<unsigned, tBlockSize>(4096),
                                   StrongType<unsigned, tIvSize>(12),
                                   StrongType<unsigned, tMaxPaddingSize>(0),
                                   StrongType<bool, tStoreTimeWithinFs>(timed));
    }
    std::unique_ptr<C> open()
    {
        if constexpr (std::is_same_v<C, BtreeDirectory>)
            return make(Directory::DirNameComparison{&binary_compare});
        else
            return make();
    }
};
static void any_times(FileBase& f, Att& r)
{
    r.a = ts("a0"), r.m = ts("m0"), r.c = ts("c0");
    f.set_atime(r.a), f.set_mtime(r.m), f.set_ctime(r.c);
}
static void looked(FileBase& f, Att& r, const fuse_timespec& t0)
{
    auto a = f.get_atime();
    bool kept = eq(a, r.a);
    if (!sym_conc(kept))
        ticked(a, t0, "access time neither kept nor set to the current time");
    else
        CHECK(!(r.a.tv_sec < r.m.tv_sec || r.a.tv_sec < r.c.tv_sec) || eq(a, mos::fs().now), "access time older than the last modification after a look-up");
    r.a = a;
}
static void changed(FileBase& f, Att& r, const fuse_timespec& t0)
{
    ticked(f.get_mtime(), t0, "modification time not set to the current time");
    ticked(f.get_ctime(), t0, "change time not set to the current time");
    r.m = f.get_mtime(), r.c = f.get_ctime();
}
extern "C" void h_dir()
{
    Att r{};
    r.mode = S_IFDIR | 0755, r.uid = 1, r.gid = 2, r.nlink = 1;
    id_type id{};
    int type;
    Obj<BtreeDirectory> o;
    o.timed = sym_fork_flag("timed");
    auto f = o.open();
    f->initialize_empty(r.mode, r.uid, r.gid);
    r.b = f->get_birthtime();
    id.data()[0] = 7;
    for (auto n : {"a", "b"})
        CHECK(f->add_entry(n, id, FileBase::REGULAR_FILE), "entry not added");
    r.a = f->get_atime(), r.m = f->get_mtime(), r.c = f->get_ctime();
    if (o.timed)
        any_times(*f, r);
    for (int n = (int)sym_param("ops", 1); n; --n)
    {
        if (sym_fork_flag("reopen"))
        {
            f->flush();
            f = o.open();
        }
        auto t0 = mos::fs().now;
        switch (sym_choice(0, 3, "op"))
        {
        case 0:
            if (f->add_entry(n == 1 ? "x" : "y", id, FileBase::REGULAR_FILE) && o.timed)
                changed(*f, r, t0);
            break;
        case 1:
            if (f->remove_entry(n == 1 ? "a" : "b", id, type) && o.timed)
                changed(*f, r, t0);
            break;
        case 2:
            f->get_entry("b", id, type);
            if (o.timed)
                looked(*f, r, t0);
            break;
        case 3:
            f->iterate_over_entries([](auto&&...) { return true; });
            if (o.timed)
                looked(*f, r, t0);
            break;
        }
        agree(*f, r, o.timed);
    }
    f->flush();
    f = o.open();
    agree(*f, r, o.timed);
    sym_reach(o.timed ? "timed" : "untimed");
}
extern "C" void h_link()
{
    Att r{};
    r.mode = S_IFLNK | 0777, r.uid = 1, r.gid = 2, r.nlink = 1;
    Obj<Symlink> o;
    o.timed = sym_fork_flag("timed");
    auto f = o.open();
    f->initialize_empty(r.mode, r.uid, r.gid);
    r.b = f->get_birthtime();
    f->set("target");
    r.a = f->get_atime(), r.m = f->get_mtime(), r.c = f->get_ctime();
    if (o.timed)
        any_times(*f, r);
    if (sym_fork_flag("reopen"))
    {
        f->flush();
        f = o.open();
        agree(*f, r, o.timed);
    }
    auto t0 = mos::fs().now;
    if (sym_fork_flag("set"))
    {
        f->set("other");
        if (o.timed)
            changed(*f, r, t0);
    }
    else
    {
        f->get();
        if (o.timed)
            looked(*f, r, t0);
    }
    agree(*f, r, o.timed);
    f->flush();
    f = o.open();
    agree(*f, r, o.timed);
    sym_reach(o.timed ? "timed" : "untimed");
}
