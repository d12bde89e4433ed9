// Files opened in every way the kernel opens them.
#pragma once
template <class F>
void open_flags(F& f)
{
    static const size_t S[] = {0, 1, 63, 64, 65, 130}, O[] = {0, 1, 62, 64, 129, 200};
    auto ok = [&](auto&& g) { return F::rc(g); };
    unsigned mode = (unsigned)sym_u16("mode") & 0777;
    fuse_file_info a{}, b{};
    CHECK(ok([&] { return f.o->vcreate("/f", mode, &a, &f.ctx); }) == 0, "create");
    fuse_stat st{};
    CHECK(ok([&] { return f.o->vgetattr("/f", &st, &f.ctx); }) == 0 && (st.st_mode & 0377) == (mode & 0377) && (st.st_mode & S_IFMT) == S_IFREG, "permissions of a new file");
    Ref ref;
    auto put = [&](fuse_file_info& fi, size_t at, size_t n, const char* tag)
    {
        std::string v = sym_bytes(n, tag);
        CHECK(ok([&] { return f.o->vwrite("/f", v.data(), n, (fuse_off_t)at, &fi, &f.ctx); }) == (int)n, "write");
        ref.write(v, at);
    };
    auto check = [&](fuse_file_info& fi)
    {
        std::string r(400, '\x5c');
        int n = ok([&] { return f.o->vread("/f", &r[0], r.size(), 0, &fi, &f.ctx); });
        CHECK(n == (int)ref.d.size() && same(r.substr(0, n), ref.d), "content");
        fuse_stat x{};
        CHECK(ok([&] { return f.o->vgetattr("/f", &x, &f.ctx); }) == 0 && (size_t)x.st_size == ref.d.size(), "size");
    };
    if (size_t n = pick(S, "size"))
        put(a, 0, n, "content");
    bool both = sym_fork_flag("both");
    auto flush = [&] { CHECK(ok([&] { return f.o->vfsync("/f", 0, &a, &f.ctx); }) == 0, "fsync"); };
    if (both)
        flush();
    else
        CHECK(ok([&] { return f.o->vrelease("/f", &a, &f.ctx); }) == 0, "release");
    static const int A[] = {O_RDONLY, O_WRONLY, O_RDWR};
    int access = pick(A, "access"), fl = access;
    if (access != O_RDONLY && sym_fork_flag("append"))
        fl |= O_APPEND;
    if (access != O_RDONLY && sym_fork_flag("trunc"))
        fl |= O_TRUNC;
    b.flags = fl;
    CHECK(ok([&] { return f.o->vopen("/f", &b, &f.ctx); }) == 0, "open");
    if (fl & O_TRUNC)
        ref.d.clear();
    check(b);
    if (access != O_RDONLY)
    {
        put(b, fl & O_APPEND && !sym_fork_flag("offset") ? ref.d.size() : pick(O, "at"), sym_fork_flag("one") ? 1 : 70, "new");
        sym_reach("written");
    }
    else
        sym_reach("read");
    if (both && sym_fork_flag("close"))
    {
        CHECK(ok([&] { return f.o->vrelease("/f", &a, &f.ctx); }) == 0, "release");
        both = false;
    }
    check(b);
    CHECK(ok([&] { return f.o->vrelease("/f", &b, &f.ctx); }) == 0, "release");
    fuse_file_info c{};
    c.flags = O_RDONLY;
    CHECK(ok([&] { return f.o->vopen("/f", &c, &f.ctx); }) == 0, "open");
    check(c);
    if (both)
        check(a);
}
// Open files whose names are removed, moved or taken over go on as they are.
template <class F>
void open_moved(F& f)
{
    auto ok = [&](auto&& g) { return F::rc(g); };
    auto done = [&](int r, const char* w) { CHECK(r == 0, w); };
    fuse_file_info a{}, b{}, g{};
    a.flags = b.flags = g.flags = O_RDWR;
    Ref ra, rb;
    done(ok([&] { return f.o->vmkdir("/d", 0755, &f.ctx); }), "mkdir");
    done(ok([&] { return f.o->vcreate("/f", 0644, &a, &f.ctx); }), "create");
    done(ok([&] { return f.o->vcreate("/d/g", 0644, &g, &f.ctx); }), "create");
    auto put = [&](fuse_file_info& fi, Ref& ref, size_t at, size_t n, const char* tag)
    {
        std::string v = sym_bytes(n, tag);
        CHECK(ok([&] { return f.o->vwrite("/f", v.data(), n, (fuse_off_t)at, &fi, &f.ctx); }) == (int)n, "write");
        ref.write(v, at);
    };
    auto check = [&](fuse_file_info& fi, const Ref& ref, const char* what)
    {
        std::string r(300, '\x5c');
        int n = ok([&] { return f.o->vread("/f", &r[0], r.size(), 0, &fi, &f.ctx); });
        CHECK(n == (int)ref.d.size() && same(r.substr(0, n), ref.d), what);
        fuse_stat x{};
        CHECK(ok([&] { return f.o->vfgetattr("/f", &x, &fi, &f.ctx); }) == 0 && (size_t)x.st_size == ref.d.size(), "size of an open file");
    };
    put(a, ra, 0, 70, "first");
    put(g, rb, 0, 3, "second");
    // the names by which the files are reached afterwards
    const char *na = nullptr, *nb = "/d/g";
    bool fresh = false;
    switch (sym_choice(0, 5, "what"))
    {
    case 0:
        done(ok([&] { return f.o->vunlink("/f", &f.ctx); }), "unlink");
        sym_reach("unlinked");
        break;
    case 1:
        done(ok([&] { return f.o->vrename("/f", "/d/h", &f.ctx); }), "rename");
        na = "/d/h";
        sym_reach("moved");
        break;
    case 2:
        done(ok([&] { return f.o->vrename("/d/g", "/f", &f.ctx); }), "rename");
        nb = "/f";
        sym_reach("replaced");
        break;
    case 3:
        done(ok([&] { return f.o->vunlink("/f", &f.ctx); }), "unlink");
        done(ok([&] { return f.o->vcreate("/f", 0644, &b, &f.ctx); }), "create");
        fresh = true;
        sym_reach("again");
        break;
    case 4:
        done(ok([&] { return f.o->vlink("/f", "/d/h", &f.ctx); }), "link");
        done(ok([&] { return f.o->vunlink("/f", &f.ctx); }), "unlink");
        na = "/d/h";
        sym_reach("linked");
        break;
    default:
        done(ok([&] { return f.o->vrename("/d", "/e", &f.ctx); }), "rename");
        na = "/f";
        nb = "/e/g";
        sym_reach("directory");
    }
    Ref rn;
    if (fresh)
        put(b, rn, 1, 66, "new");
    check(a, ra, "content of an open file");
    switch (sym_choice(0, 2, "then"))
    {
    case 0:
        put(a, ra, 65, 3, "third");
        break;
    case 1:
        put(a, ra, 200, 2, "third");
        break;
    default:
        done(ok([&] { return f.o->vftruncate("/f", 66, &a, &f.ctx); }), "truncate");
        ra.resize(66);
    }
    put(g, rb, 1, 4, "fourth");
    check(a, ra, "content of an open file after a change");
    check(g, rb, "content of the other open file");
    if (fresh)
    {
        check(b, rn, "content of a new file of the same name");
        done(ok([&] { return f.o->vrelease("/f", &b, &f.ctx); }), "release");
    }
    done(ok([&] { return f.o->vrelease("/f", &a, &f.ctx); }), "release");
    done(ok([&] { return f.o->vrelease("/d/g", &g, &f.ctx); }), "release");
    auto reopen = [&](const char* p, const Ref& ref, const char* what)
    {
        fuse_file_info c{};
        c.flags = O_RDONLY;
        done(ok([&] { return f.o->vopen(p, &c, &f.ctx); }), "open");
        check(c, ref, what);
        done(ok([&] { return f.o->vrelease(p, &c, &f.ctx); }), "release");
    };
    if (na)
        reopen(na, ra, "content of a file whose name changed");
    reopen(nb, rb, "content of the other file");
    if (fresh)
        reopen("/f", rn, "content of the new file");
}
