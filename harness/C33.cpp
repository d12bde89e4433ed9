// Mounting through the command line: what is stored, what the options do, and who may mount.
#include "cli.h"
#include "lite_format.h"
#include "params_io.h"
#include "ref.h"
#include <uni_algo/all.h>
static fuse_context g_ctx;
extern "C" fuse_context* fuse_get_context() { return &g_ctx; }
namespace
{
using ref::str;
str key(unsigned char seed)
{
    auto k = test_key(seed);
    return str((const char*)k.data(), k.size());
}
ref::Sizes pick_sizes()
{
    static const ref::Sizes Z[] = {{4096, 12, 0}, {8192, 16, 77}, {4096, 32, 5}};
    return Z[sym_choice(0, sym_param("sizes", 2), "sizes")];
}
struct Repo
{
    DecryptedSecurefsParams p;
    ref::Sizes z;
    bool full;
    Repo(bool f, ref::Sizes s, bool times = false, bool legacy = false, bool fold = false, bool norm = false, unsigned threshold = 128,
         const char* suffix = ".ll")
        : z(s), full(f)
    {
        p.mutable_size_params()->set_block_size(z.block);
        p.mutable_size_params()->set_iv_size(z.iv);
        p.mutable_size_params()->set_max_padding_size(z.pad);
        if (f)
        {
            auto* x = p.mutable_full_format_params();
            x->set_master_key(key(50));
            x->set_store_time(times);
            x->set_legacy_file_table_io(legacy);
            x->set_case_insensitive(fold);
            x->set_unicode_normalization_agnostic(norm);
        }
        else
        {
            auto* x = p.mutable_lite_format_params();
            x->set_name_key(key(61));
            x->set_content_key(key(72));
            x->set_xattr_key(key(83));
            if (z.pad)
                x->set_padding_key(key(94));
            x->set_long_name_threshold(threshold);
            x->set_long_name_suffix(suffix);
        }
        EncryptedSecurefsParams::Argon2idParams a;
        a.set_time_cost(1);
        a.set_memory_cost(8);
        a.set_parallelism(1);
        mkdirat(AT_FDCWD, "/r", 0755);
        cli::put("/r/.config.pb", encrypt(p, a, {(const unsigned char*)"pw", 2}, nullptr).SerializeAsString());
    }
};
struct Mounted
{
    fuse_operations* op;
    std::vector<str> argv;
    int getattr(const char* path, fuse_stat& st) { return op->getattr(path, &st); }
    int mkdir(const char* p) { return op->mkdir(p, 0755); }
    int create(const char* p, unsigned mode, fuse_file_info& fi)
    {
        fi = {};
        fi.flags = O_RDWR | O_CREAT | O_EXCL;
        return op->create(p, mode, &fi);
    }
    int write(fuse_file_info& fi, const str& s, off_t off) { return op->write(nullptr, s.data(), s.size(), off, &fi); }
    int make(const char* p, const str& s)
    {
        fuse_file_info fi;
        int rc = create(p, 0640, fi);
        if (rc)
            return rc;
        CHECK(write(fi, s, 0) == (int)s.size(), "write");
        return op->release(p, &fi);
    }
    // the content of a file, or the error
    int read(const char* p, str& out, size_t n = 16, off_t off = 0)
    {
        fuse_file_info fi{};
        fi.flags = O_RDONLY;
        int rc = op->open(p, &fi);
        if (rc)
            return rc;
        out.assign(n, '\0');
        rc = op->read(p, &out[0], n, off, &fi);
        out.resize(rc < 0 ? 0 : rc);
        int c = op->release(p, &fi);
        return rc < 0 ? rc : c;
    }
    std::vector<str> list(const char* p)
    {
        static std::vector<str> v;
        v.clear();
        fuse_file_info fi{};
        CHECK(op->opendir(p, &fi) == 0, "opendir");
        fuse_fill_dir_t f = [](void*, const char* n, const fuse_stat*, fuse_off_t) -> int
        {
            v.push_back(n);
            return 0;
        };
        CHECK(op->readdir(p, nullptr, f, 0, &fi) == 0 && op->releasedir(p, &fi) == 0, "readdir");
        std::sort(v.begin(), v.end());
        return v;
    }
};
int g_mounts;
int mount(std::vector<str> options, std::function<void(Mounted&)> f)
{
    cli::mounted() = [&](int argc, char** argv, fuse_operations* op, void* data)
    {
        ++g_mounts;
        g_ctx = {};
        g_ctx.uid = 1000;
        g_ctx.gid = 1001;
        g_ctx.private_data = data;
        fuse_conn_info info{};
        CHECK(op->init(&info) == data, "data of the file system");
        Mounted m{op, {}};
        for (int i = 0; i < argc; ++i)
            m.argv.push_back(argv[i]);
        f(m);
        op->destroy(data);
        return 0;
    };
    std::vector<str> a{"mount", "/r", "/m", "--pass", "pw"};
    a.insert(a.end(), options.begin(), options.end());
    int rc = cli::run(a);
    cli::mounted() = nullptr;
    CHECK(ks::k().opened == ks::k().closed, "a file is left open");
    return rc;
}
// the objects of a full-format repository by path
mos::InodeP at(const str& path) { return cli::file("/r/" + path); }
void count(const mos::InodeP& d, int& n)
{
    for (auto& x : d->kids)
        if (x.second->dir())
            count(x.second, n);
        else
            ++n;
}
const fuse_timespec TS[2] = {{-5, 6}, {1234567890123, 999999999}};
}    // namespace
// what a file system stores is what its format says, under each kind of parameters, and is read again
extern "C" void h_full()
{
    bool times = sym_choice(0, 1, "times"), legacy = sym_choice(0, 1, "legacy");
    Repo r(true, pick_sizes(), times, legacy);
    size_t B = r.z.block;
    str a = sym_bytes(3, "a"), b = sym_bytes(2, "b"), v = sym_bytes(2, "v");
    size_t off = sym_choice(0, 1, "hole") ? B + 5 : 7;
    auto expect = [&]
    {
        str s(off + 2, '\0');
        s.replace(0, 3, a);
        s.replace(off, 2, b);
        return s;
    }();
    CHECK(mount({}, [&](Mounted& m)
                {
                    CHECK(m.mkdir("/dir") == 0, "mkdir");
                    fuse_file_info fi;
                    CHECK(m.create("/dir/f", 0640, fi) == 0 && m.write(fi, a, 0) == 3 && m.write(fi, b, (off_t)off) == 2, "write");
                    CHECK(m.op->release(nullptr, &fi) == 0, "release");
                    CHECK(m.op->symlink("dir/f", "/l") == 0 && m.op->link("/dir/f", "/h") == 0, "links");
                    CHECK(m.op->setxattr("/dir/f", "user.k", v.data(), 2, 0) == 0, "attribute");
                    CHECK(m.op->chown("/dir/f", 70000, 70001) == 0, "chown");
                    if (times)
                        CHECK(m.op->utimens("/dir/f", TS) == 0, "utimens");
                })
              == 0,
          "mount");
    CHECK(!at(".securefs.lock"), "the lock is left behind");
    auto get = [&](const str& id) { return ref::full_object(at, id, key(50), r.z, legacy, times); };
    auto entries = [](const ref::Object& d)
    {
        std::vector<ref::Entry> e;
        ref::full_entries(d, d.root, e);
        return e;
    };
    auto root = get(str(32, '\0'));
    auto e = entries(root);
    CHECK((root.mode & S_IFMT) == S_IFDIR && e.size() == 3, "the root directory");
    CHECK(e[0].name == "dir" && e[1].name == "h" && e[2].name == "l", "names in order");
    CHECK(e[0].type == 4 && e[1].type == 8 && e[2].type == 10, "types");
    auto d = get(e[0].id), l = get(e[2].id), f = get(e[1].id);
    auto de = entries(d);
    CHECK(de.size() == 1 && de[0].name == "f" && de[0].id == e[1].id && de[0].type == e[1].type, "two names of a file");
    CHECK((d.mode & 07777) == 0755 && (d.mode & S_IFMT) == S_IFDIR && d.uid == 1000 && d.gid == 1001 && d.nlink == 1, "stored directory");
    CHECK(f.mode == (S_IFREG | 0640) && f.uid == 70000 && f.gid == 70001 && f.nlink == 2, "stored file");
    CHECK((l.mode & S_IFMT) == S_IFLNK && same(l.content, "dir/f"), "stored link");
    CHECK(same(f.content, expect), "stored content");
    CHECK(same(f.xattr("user.k"), v), "stored attribute");
    if (times)
        CHECK(f.t[0].sec == TS[0].tv_sec && f.t[0].nsec == (uint32_t)TS[0].tv_nsec && f.t[1].sec == TS[1].tv_sec
                  && f.t[1].nsec == (uint32_t)TS[1].tv_nsec,
              "stored times");
    int n = 0;
    count(cli::file("/r"), n);
    CHECK(n == 1 + 2 * 4, "stored files");
    CHECK(mount({}, [&](Mounted& m)
                {
                    fuse_stat st;
                    CHECK(m.getattr("/dir/f", st) == 0 && st.st_mode == (S_IFREG | 0640) && st.st_uid == 70000 && st.st_nlink == 2
                              && (size_t)st.st_size == off + 2,
                          "metadata");
                    if (times)
                        CHECK(st.st_mtim.tv_sec == TS[1].tv_sec && st.st_mtim.tv_nsec == TS[1].tv_nsec && st.st_atim.tv_sec == TS[0].tv_sec,
                              "times");
                    str s;
                    CHECK(m.read("/h", s, off + 9) == 0 && same(s, expect), "content");
                    char x[5];
                    CHECK(m.op->getxattr("/h", "user.k", x, 5) == 2 && same(str(x, 2), v), "attribute");
                    CHECK(m.op->getxattr("/l", "user.k", x, 5) < 0, "attribute of another file");
                })
              == 0,
          "mount");
    sym_reach(legacy ? "legacy" : "current");
}
extern "C" void h_lite()
{
    int kind = (int)sym_choice(0, 2, "long names");    // none, default, others
    static const unsigned TH[] = {0, 128, 20};
    static const char* const SUFFIX[] = {"", ".ll", "~~"};
    Repo r(false, pick_sizes(), false, false, false, false, TH[kind], SUFFIX[kind]);
    size_t B = r.z.block;
    static const size_t LEN[] = {1, 16, 20, 21, 128, 129, 255};
    str name(LEN[sym_choice(0, kind ? 6 : 4, "length")], 'q');
    str a = sym_bytes(3, "a"), b = sym_bytes(2, "b"), v = sym_bytes(2, "v");
    size_t off = sym_choice(0, 1, "hole") ? B + 5 : 7;
    auto expect = [&]
    {
        str s(off + 2, '\0');
        s.replace(0, 3, a);
        s.replace(off, 2, b);
        return s;
    }();
    str path = "/dir/" + name, to = "dir/other";
    if (kind && sym_choice(0, 1, "long target"))
        to += str(60, 'z');
    CHECK(mount({}, [&](Mounted& m)
                {
                    CHECK(m.mkdir("/dir") == 0, "mkdir");
                    fuse_file_info fi;
                    CHECK(m.create(path.c_str(), 0640, fi) == 0 && m.write(fi, a, 0) == 3 && m.write(fi, b, (off_t)off) == 2, "write");
                    CHECK(m.op->release(nullptr, &fi) == 0, "release");
                    CHECK(m.op->symlink(to.c_str(), "/l") == 0, "links");
                    CHECK(m.op->setxattr(path.c_str(), "user.k", v.data(), 2, 0) == 0, "attribute");
                })
              == 0,
          "mount");
    str nk = key(61);
    auto stored = [&](const str& n) { return ref::lite_name(n, nk, TH[kind], SUFFIX[kind]); };
    str dir = "/r/" + stored("dir");
    auto f = cli::file(dir + "/" + stored(name));
    CHECK(cli::file(dir) && cli::file(dir)->dir() && f && f->mode == (S_IFREG | 0640), "stored name");
    CHECK(same(ref::lite_file(ref::data(f), key(72), r.z.pad ? key(94) : str(), r.z), expect), "stored content");
    CHECK(same(ref::lite_xattr(f, key(83), "user.k", r.z), v), "stored attribute");
    auto l = mos::child(cli::file("/r"), stored("l"));
    CHECK(!!l && same(ref::data(l), ref::lite_target(to, nk, TH[kind] > 0)), "stored link");
    bool is_long = TH[kind] && name.size() > TH[kind];
    auto db = cli::file(dir + "/.long_names.db");
    CHECK(!!db == is_long, "table of long names");
    if (db)
    {
        auto& rows = msql::rows_of(db)->v;
        CHECK(rows.size() == 1 && same(rows[0].first, stored(name)) && same(rows[0].second, ref::base32(ref::siv(nk, name))), "row of a long name");
    }
    CHECK(mount({}, [&](Mounted& m)
                {
                    str s;
                    CHECK(m.read(path.c_str(), s, off + 9) == 0 && same(s, expect), "content");
                    char x[5], t[100] = {};
                    CHECK(m.op->getxattr(path.c_str(), "user.k", x, 5) == 2 && same(str(x, 2), v), "attribute");
                    CHECK(m.op->readlink("/l", t, 100) == 0 && same(t, to), "link");
                    CHECK(m.list("/dir") == (std::vector<str>{".", "..", name}), "names");
                })
              == 0,
          "mount");
    sym_reach(is_long ? "long" : "short");
}

// every option has its effect and no other
extern "C" void h_options()
{
    using namespace securefs;
    bool full = sym_choice(0, 1, "full");
    ref::Sizes z{4096, 12, 0};
    Repo r(full, z);
    str body = "0123456789";
    auto names = [&](const str& n) { return ref::lite_name(n, key(61), 128, ".ll"); };
    CHECK(mount({}, [&](Mounted& m)
                {
                    CHECK(m.make("/f", body) == 0 && m.op->chmod("/f", 0604) == 0, "create");
                    CHECK(m.op->setxattr("/f", "user.k", "v", 1, 0) == 0, "attribute");
                })
              == 0,
          "mount");
    int before = g_mounts;
    absl::sym_formats() = true;
    auto has = [](Mounted& m, const char* opt)
    {
        for (size_t i = 1; i < m.argv.size(); ++i)
            if (m.argv[i] == opt && m.argv[i - 1] == "-o")
                return true;
        return false;
    };
    auto flag = [](Mounted& m, const char* f) { return std::find(m.argv.begin(), m.argv.end(), f) != m.argv.end(); };
    // options of every kind at once: each is given or not
    int ino = (int)sym_choice(0, 3, "use ino");    // not given, auto, true, false
    static const long TYPES[] = {0xEF53, 0x6969};
    int type = (int)sym_choice(0, 1, "file system");
    ks::k().fs_type = TYPES[type];
    static const std::vector<std::vector<str>> OPTS = {{"--attr-timeout", "7"}, {"--fsname", "name"}, {"--fssubtype", "sub"}, {"-s"},
                                                       {"-o", "ro,x=y", "--opt", "allow_other"}, {"--insecure"}, {"--noxattr"},
                                                       {"--uid-override", "1234"}, {"--gid-override", "4321"}, {"--noflock"}};
    enum { TIMEOUT, NAME, SUB, SINGLE, OPT, INSECURE, NOXATTR, UID, GID, NOFLOCK };
    int given = (int)sym_choice(0, OPTS.size() + 1, "given");    // none, one of them, all
    auto on = [&](int i) { return given == i + 1 || given == (int)OPTS.size() + 1; };
    std::vector<str> o;
    static const char* const INO[] = {"", "auto", "true", "false"};
    if (ino)
        o = {"--use-ino", INO[ino]};
    for (size_t i = 0; i < OPTS.size(); ++i)
        if (on((int)i))
            o.insert(o.end(), OPTS[i].begin(), OPTS[i].end());
    fuse_stat st;
    ks::k().flocks = 0;
    int dir = (int)sym_choice(0, 1, "mount point exists");
    if (!cli::file("/m"))
        CHECK(false, "the mount point is not created");
    CHECK(cli::file("/m")->dir() && cli::file("/m")->kids.empty(), "the mount point");
    if (!dir)
    {
        ks::Active active_;
        unlinkat(AT_FDCWD, "/m", AT_REMOVEDIR);
    }
    CHECK(mount(o, [&](Mounted& m)
                {
                    CHECK(m.argv.size() > 2 && m.argv[0] == "securefs" && m.argv.back() == "/m", "mount point");
                    CHECK(flag(m, "-f") && flag(m, "-s") == on(SINGLE), "flags");
                    CHECK(has(m, on(NAME) ? "fsname=name" : "fsname=securefs") && has(m, on(SUB) ? "subtype=sub" : "subtype=securefs"), "names");
                    for (auto x : {"attr_timeout=", "entry_timeout=", "negative_timeout="})
                        CHECK(has(m, (str(x) + (on(TIMEOUT) ? "7" : "30")).c_str()), "timeouts");
                    CHECK(has(m, "ro,x=y") == on(OPT) && has(m, "allow_other") == on(OPT), "other options");
                    bool want = ino == 2 || (ino < 2 && (full || type == 0));
                    CHECK(has(m, "use_ino") == want, "inode numbers of the file system");
                    char buf[16];
                    int rc = m.op->getxattr ? m.op->getxattr("/f", "user.k", buf, 16) : -ENOTSUP;
                    CHECK(on(NOXATTR) ? rc < 0 : rc == 1 && buf[0] == 'v', "attributes");
                    CHECK(m.getattr("/f", st) == 0 && (st.st_mode & 07777) == 0604 && st.st_size == 10, "metadata");
                    if (full)
                        CHECK(st.st_uid == (on(UID) ? 1234u : 1000u) && st.st_gid == (on(GID) ? 4321u : 1001u), "owner");
                    str s;
                    CHECK(m.read("/f", s) == 0 && same(s, body), "content");
                })
              == 0,
          "mount");
    CHECK(!on(NOFLOCK) || ks::k().flocks == 0, "files are locked");
    CHECK(full || on(NOFLOCK) || ks::k().flocks > 0, "files are not locked");
    CHECK(g_mounts == before + 1, "mounted once");
    sym_reach(full ? "full" : "lite");
    sym_reach(!given ? "default" : given <= (int)OPTS.size() ? "one" : "all");
}
// nothing is mounted, and nothing is changed, without the right secret or an intact configuration
extern "C" void h_refuse()
{
    bool full = sym_choice(0, 1, "full");
    Repo r(full, {4096, 12, 0});
    int how = (int)sym_choice(0, 4, "how");    // password, no configuration, changed configuration, bad option, option without sense
    str stored = cli::content("/r/.config.pb");
    std::vector<str> a{"mount", "/r", "/m", "--pass", "pw"};
    if (how == 0)
    {
        a[4] = sym_bytes(2, "password");
        for (unsigned char c : a[4])
            sym_assume(c != 0 && c != '-' && c != '\n');
        sym_assume(!same(a[4], "pw"));
    }
    else if (how == 1)
    {
        ks::Active active_;
        unlinkat(AT_FDCWD, "/r/.config.pb", 0);
    }
    else if (how == 2)
    {
        auto n = cli::file("/r/.config.pb");
        // salt, initialisation vector, tag, ciphertext: one byte of each, changed in any way
        size_t last = stored.size() - 1;
        size_t from[] = {8, 8 + 32 + 8, 8 + 32 + 8 + 12 + 8, 8 + 32 + 8 + 12 + 8 + 16 + 8, last - 60};
        size_t i = from[sym_choice(0, 4, "where")] + (sym_choice(0, 1, "later") ? 5 : 0);
        unsigned char x = sym_u8("change");
        sym_assume(x != 0);
        n->d[i] ^= x;
    }
    else if (how == 3)
    {
        a.push_back("--use-ino");
        a.push_back("perhaps");
    }
    else
        a.push_back("--no-such-option");
    int mounts = 0;
    cli::mounted() = [&](int, char**, fuse_operations*, void*)
    {
        ++mounts;
        return 0;
    };
    int n = 0, before = 0;
    count(cli::file("/r"), before);
    int rc = cli::run(a);
    CHECK(rc != 0 && !mounts, "mounted");
    count(cli::file("/r"), n);
    CHECK(n == before && ks::k().opened == ks::k().closed, "files are left behind");
    sym_reach(how == 0 ? "password" : how == 1 ? "missing" : how == 2 ? "changed" : "option");
}
// without verification what was changed is read, with it it is not
extern "C" void h_insecure()
{
    bool full = sym_choice(0, 1, "full"), insecure = sym_choice(0, 1, "insecure"), attr = sym_choice(0, 1, "attribute");
    ref::Sizes z{4096, 12, 0};
    Repo r(full, z);
    CHECK(mount({}, [&](Mounted& m)
                {
                    CHECK(m.make("/f", "0123456789") == 0, "create");
                    CHECK(m.op->setxattr("/f", "user.k", "value", 5, 0) == 0, "attribute");
                })
              == 0,
          "mount");
    // any other bytes in place of the authentication tag
    mos::InodeP n;
    str tag = sym_bytes(16, "tag");
    if (full)
    {
        auto o = ref::full_object([&](const str& id) { return at(id); }, str(32, '\0'), key(50), z, false, false);
        std::vector<ref::Entry> e;
        ref::full_entries(o, o.root, e);
        auto p = ref::full_path(e.at(0).id, false);
        n = at(p);
        str xk = ref::hkdf(key(50), e[0].id, 96).substr(64, 32);
        auto m = at(p + ".meta");
        if (attr)
        {
            for (auto& x : m->xattr)
                if (x.first == ref::xattr_name(xk, "user.k"))
                {
                    sym_assume(!same(x.second.substr(16), tag));
                    x.second.replace(16, 16, tag);
                }
        }
        else
        {
            size_t at = m->d.size() - 16;
            sym_assume(!same(str(m->d.begin() + at, m->d.end()), tag));
            memcpy(m->d.data() + at, tag.data(), 16);
        }
    }
    else
    {
        n = cli::file("/r/" + ref::lite_name("f", key(61), 128, ".ll"));
        if (attr)
            for (auto& x : n->xattr)
            {
                sym_assume(!same(x.second.substr(x.second.size() - 16), tag));
                x.second.replace(x.second.size() - 16, 16, tag);
            }
        else
        {
            size_t at = n->d.size() - 16;
            sym_assume(!same(str(n->d.begin() + at, n->d.end()), tag));
            memcpy(n->d.data() + at, tag.data(), 16);
        }
    }
    std::vector<str> o;
    if (insecure)
        o.push_back("--insecure");
    CHECK(mount(o, [&](Mounted& m)
                {
                    str s;
                    int rc = m.read("/f", s);
                    char x[8];
                    int xrc = m.op->getxattr("/f", "user.k", x, 8);
                    CHECK((rc == 0) == (insecure || attr) && (xrc >= 0) == (insecure || (!attr && !full)), "verification");
                    if (rc == 0)
                        CHECK(same(s, "0123456789"), "content");
                    if (xrc >= 0)
                        CHECK(xrc == 5 && same(str(x, 5), "value"), "attribute");
                    sym_reach(insecure ? "insecure" : "verified");
                })
              == 0,
          "mount");
}
// which names are the same, by the parameters of a full-format repository and the options for a lite-format one
extern "C" void h_names()
{
    una::norm::composing() = true;
    bool full = sym_choice(0, 1, "full"), fold = sym_choice(0, 1, "fold"), norm = sym_choice(0, 1, "normalize"), plain = !full && sym_choice(0, 1, "plain");
    ref::Sizes z{4096, 12, 0};
    Repo r(full, z, false, false, full && fold, full && norm);
    std::vector<str> o;
    if (!full && (fold || norm))
        o = {"--normalization", fold && norm ? "casefold+nfc" : fold ? "casefold" : "nfc"};
    else if (!full && sym_choice(0, 1, "none"))
        o = {"--normalization", "none"};
    if (plain)
        o.push_back("--plain-text-names");
    bool f = fold && !plain, n = norm && !plain;
    static const char* const NAMES[] = {"e\xcc\x81-Name", "\xc3\xa9-Name", "e\xcc\x81-nAME", "\xc3\xa9-nAME"};
    int a = (int)sym_choice(0, 3, "first"), b = (int)sym_choice(0, 3, "second");
    bool same_name = (f || a / 2 == b / 2) && (n || a % 2 == b % 2);
    str pa = str("/") + NAMES[a], pb = str("/") + NAMES[b];
    CHECK(mount(o, [&](Mounted& m)
                {
                    CHECK(m.make(pa.c_str(), "1") == 0, "create");
                    fuse_stat st;
                    int rc = m.getattr(pb.c_str(), st);
                    CHECK(rc == (same_name ? 0 : -ENOENT), "names that are the same");
                    auto l = m.list("/");
                    auto in = [&](const char* x) { return std::find(l.begin(), l.end(), x) != l.end(); };
                    CHECK(l.size() == (plain ? 4 : 3), "listing");
                    if (full || (!f && !n))
                        CHECK(in(NAMES[a]), "the name is kept");
                })
              == 0,
          "mount");
    if (plain)
        CHECK(!!mos::child(cli::file("/r"), NAMES[a]), "a plain name");
    else if (!full)
        CHECK(!mos::child(cli::file("/r"), NAMES[a]), "a name in the clear");
    sym_reach(same_name ? "same" : "different");
    if (plain)
        sym_reach("plain");
}
// a full-format repository is mounted by one process at a time
extern "C" void h_lock()
{
    bool full = sym_choice(0, 1, "full");
    Repo r(full, {4096, 12, 0});
    int old = (int)sym_choice(0, 4, "lock");    // none, of a running process, of one that is gone, nonsense, of someone else's process
    static const char* const TEXT[] = {"", "5151", "5152", "rubbish", "5153"};
    if (old)
        cli::put("/r/.securefs.lock", TEXT[old]);
    ks::k().running = 5151;
    if (old == 4)
        ks::k().kill_error = EPERM;
    bool refuse = full && (old == 1 || old == 4);
    bool mounted = false;
    auto body = [&](Mounted& m)
    {
        mounted = true;
        auto l = at(".securefs.lock");
        CHECK(!!l == (full || old), "lock file");
        CHECK(m.make("/f", "x") == 0, "create");
        if (full)
        {
            str pid(l->d.begin(), l->d.end());
            CHECK(!pid.empty() && pid != "5151" && pid != "5152" && pid.find_first_not_of("0123456789") == str::npos, "process in the lock file");
            ks::k().running = atoi(pid.c_str());
        }
    };
    int rc = mount({}, body);
    CHECK(mounted == !refuse && (rc == 0) == !refuse, "mounted although another process has the repository, or refused although none has");
    if (full)
        CHECK(!!at(".securefs.lock") == refuse, "the lock file is left behind, or removed from under another process");
    if (refuse)
    {
        str s = cli::content("/r/.securefs.lock");
        CHECK(same(s, TEXT[old]), "the lock of another process is changed");
    }
    sym_reach(refuse ? "refused" : "mounted");
}

#ifdef SYM_SCHED
// a file system without activity is unmounted after the time asked for, and only if asked for
namespace
{
int64_t g_time;
int64_t g_exit_at = -1;
bool g_timed = false;
bool passes()
{
    if (securefs::g_exits && g_exit_at < 0)
        g_exit_at = g_time;
    __int128 t = 0;
    if (!sched::wakes(g_time, t))
        return false;
    g_time = (int64_t)t;
    return true;
}
bool reached(void* t) { return g_time >= *(int64_t*)t; }
void sleep(int64_t t)
{
    sched::block_until(&reached, &t, t);
    if (securefs::g_exits && g_exit_at < 0)
        g_exit_at = g_time;
}
}    // namespace
absl::Time absl::sym_now_hook() { return absl::Time(g_time); }
extern "C" void h_idle()
{
    bool full = sym_choice(0, 1, "full");
    Repo r(full, {4096, 12, 0});
    int64_t n = (int64_t)sym_choice(0, 3, "seconds"), S = 1000000000;
    std::vector<str> o;
    if (n)
        o = {"--max-idle-seconds", str(1, '0' + n - 1)};
    n = n ? (n - 1) * S : 0;
    int64_t t = 0, last = 0;
    int ops = 0;
    sched::w.idle = &passes;
    sched::begin(0);
    CHECK(mount(o, [&](Mounted& m)
                {
                    for (int i = 0; i < 2; ++i)
                    {
                        t += (int64_t)sym_range(0, 4 * (uint64_t)S, "gap");
                        sleep(t);
                        if (g_exit_at >= 0)
                            break;
                        last = t;
                        fuse_stat st;
                        CHECK(m.getattr("/", st) == 0, "getattr");
                        ++ops;
                    }
                    sleep(t + 100 * S);
                })
              == 0,
          "mount");
    if (!n)
        CHECK(!securefs::g_exits, "unmounts unasked");
    else
        CHECK(securefs::g_exits == 1 && g_exit_at == last + n, "unmounts at another time");
    sym_reach(!n ? "stays" : ops == 2 ? "used" : "unused");
}
#endif
