// Attributes of files, directories and links through the callbacks.
#pragma once
template <class F, class Remount>
void attr_ops(F& f, bool chowns, Remount&& remount)
{
    auto ok = [&](auto&& g) { return F::rc(g); };
    auto done = [&](int r, const char* w) { CHECK(r == 0, w); };
    struct Want
    {
        std::string path;
        unsigned mode = 0, uid = 0, gid = 0, nlink = 1;
        size_t size = 0;
        bool sized = true, timed = false;
        fuse_timespec t[2] = {};
    };
    std::vector<Want> w(5);
    const char* P[] = {"/d/f", "/d", "/l", "/g", "/d/e"};
    const unsigned T[] = {S_IFREG, S_IFDIR, S_IFLNK, S_IFREG, S_IFDIR};
    unsigned fm = (unsigned)sym_u16("file mode") & 0777, dm = (unsigned)sym_u16("directory mode") & 0777;
    fuse_file_info fi{};
    done(ok([&] { return f.o->vmkdir("/d", dm, &f.ctx); }), "mkdir");
    done(ok([&] { return f.o->vmkdir("/d/e", 0700, &f.ctx); }), "mkdir");
    done(ok([&] { return f.o->vcreate("/d/f", fm, &fi, &f.ctx); }), "create");
    CHECK(ok([&] { return f.o->vwrite("/d/f", "abcde", 5, 0, &fi, &f.ctx); }) == 5, "write");
    done(ok([&] { return f.o->vsymlink("d/f", "/l", &f.ctx); }), "symlink");
    fuse_file_info gi{};
    done(ok([&] { return f.o->vcreate("/g", 0640, &gi, &f.ctx); }), "create");
    done(ok([&] { return f.o->vrelease("/g", &gi, &f.ctx); }), "release");
    auto look = [&](const char* p)
    {
        fuse_stat st{};
        done(ok([&] { return f.o->vgetattr(p, &st, &f.ctx); }), "getattr");
        return st;
    };
    for (size_t i = 0; i < 5; ++i)
    {
        fuse_stat st = look(P[i]);
        w[i].path = P[i];
        w[i].mode = st.st_mode;
        w[i].uid = st.st_uid;
        w[i].gid = st.st_gid;
        w[i].nlink = st.st_nlink;
        CHECK((st.st_mode & S_IFMT) == T[i], "kind of a new object");
        if (chowns)
            CHECK(st.st_uid == f.ctx.uid && st.st_gid == f.ctx.gid, "owner of a new object");
        if (T[i] == S_IFDIR)
            w[i].sized = false;
        w[i].size = i == 0 ? 5 : i == 2 ? 3 : 0;
    }
    CHECK((w[0].mode & 0377) == (fm & 0377) && (w[1].mode & 0777) == dm && (w[3].mode & 0777) == 0640, "permissions of a new object");
    CHECK(w[0].nlink == 1 && w[3].nlink == 1, "links of a new file");
    bool open = true;
    auto same_as = [&](const fuse_stat& st, const Want& x)
    {
        CHECK(st.st_mode == x.mode, "mode");
        CHECK(st.st_uid == x.uid && st.st_gid == x.gid, "owner");
        CHECK(st.st_nlink == x.nlink, "number of links");
        CHECK(!x.sized || (size_t)st.st_size == x.size, "size");
        if (x.timed)
        {
            // the time of access of a directory moves on as names are looked up
            CHECK((x.mode & S_IFMT) == S_IFDIR || (st.st_atim.tv_sec == x.t[0].tv_sec && st.st_atim.tv_nsec == x.t[0].tv_nsec), "time of access");
            CHECK(st.st_mtim.tv_sec == x.t[1].tv_sec && st.st_mtim.tv_nsec == x.t[1].tv_nsec, "time of modification");
        }
    };
    auto check = [&]
    {
        for (auto& x : w)
            same_as(look(x.path.c_str()), x);
        if (open)
        {
            fuse_stat st{};
            done(ok([&] { return f.o->vfgetattr("/d/f", &st, &fi, &f.ctx); }), "fgetattr");
            same_as(st, w[0]);
        }
    };
    size_t at = sym_choice(0, 2, "object");
    for (int n = (int)sym_param("ops", 2); n--;)
    {
        Want& x = w[at];
        const char* p = x.path.c_str();
        switch (sym_choice(0, 5, "op"))
        {
        case 0:
        {
            sym_assume(at != 2);
            unsigned m = (unsigned)sym_u16("mode") & 0777;
            done(ok([&] { return f.o->vchmod(p, (x.mode & S_IFMT) | m, &f.ctx); }), "chmod");
            x.mode = (x.mode & ~0777u) | m;
            sym_reach("mode");
            break;
        }
        case 1:
        {
            unsigned u = sym_fork_flag("keep uid") ? (unsigned)-1 : sym_u32("uid"), g = sym_fork_flag("keep gid") ? (unsigned)-1 : sym_u32("gid");
            done(ok([&] { return f.o->vchown(p, u, g, &f.ctx); }), "chown");
            x.uid = u == (unsigned)-1 ? x.uid : u;
            x.gid = g == (unsigned)-1 ? x.gid : g;
            sym_reach("owner");
            break;
        }
        case 2:
            for (auto& t : x.t)
            {
                t.tv_sec = (int64_t)sym_u64("sec");
                t.tv_nsec = sym_u32("nsec");
                sym_assume(t.tv_nsec < 1000000000);
            }
            done(ok([&] { return f.o->vutimens(p, x.t, &f.ctx); }), "utimens");
            x.timed = true;
            sym_reach("times");
            break;
        case 3:
            sym_assume(at == 0);
            done(ok([&] { return f.o->vlink(p, (std::string("/d/h") + char('0' + n)).c_str(), &f.ctx); }), "link");
            ++x.nlink;
            sym_reach("link");
            break;
        case 4:
        {
            std::string to = (at == 0 ? "/d/e/n" : "/n") + std::string(1, char('0' + n));
            done(ok([&] { return f.o->vrename(p, to.c_str(), &f.ctx); }), "rename");
            x.path = to;
            if (at == 1)
                for (size_t i : {0, 4})
                    w[i].path = to + std::string(P[i] + 2);
            sym_reach("renamed");
            break;
        }
        default:
            sym_assume(at == 0);
            if (open && sym_fork_flag("handle"))
                done(ok([&] { return f.o->vftruncate(p, 9, &fi, &f.ctx); }), "truncate");
            else
                done(ok([&] { return f.o->vtruncate(p, 9, &f.ctx); }), "truncate");
            x.size = 9;
            x.timed = false;
            sym_reach("resized");
        }
        check();
    }
    done(ok([&] { return f.o->vrelease("/d/f", &fi, &f.ctx); }), "release");
    open = false;
    check();
    remount();
    check();
}
