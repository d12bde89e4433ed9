// A full-format file system (real file table, B-tree directories, crypto streams) on the in-memory operating system.
#pragma once
#include "os.h"
#include "btree_dir.h"
#include "files.h"
#include "full_format.h"
using namespace model;
using namespace full_format;
inline int name_cmp(std::string_view a, std::string_view b) { return a.compare(b); }
inline bool& store_times()
{
    static bool b = false;
    return b;
}
struct FullFs
{
    std::shared_ptr<OSService> os = std::make_shared<OSService>("/");
    std::shared_ptr<FileTable> ft;
    std::unique_ptr<full_format::FuseHighLevelOps> o;
    fuse_context ctx{};
    bool legacy;
    int (*cmp)(std::string_view, std::string_view);
    explicit FullFs(bool legacy_ = false, int (*c)(std::string_view, std::string_view) = &name_cmp) : legacy(legacy_), cmp(c)
    {
        ctx.uid = 1000;
        ctx.gid = 1001;
        mount();
    }
    template <class T, class... A>
    std::unique_ptr<T> make(std::shared_ptr<FileStream> d, std::shared_ptr<FileStream> m, const id_type& id, A... a)
    {
        return std::make_unique<T>(a...,
                                   std::move(d),
                                   std::move(m),
                                   StrongType<key_type, tMasterKey>(test_key()),
                                   id,
                                   StrongType<bool, tVerify>(true),
                                   StrongType<unsigned, tBlockSize>(4096),
                                   StrongType<unsigned, tIvSize>(12),
                                   StrongType<unsigned, tMaxPaddingSize>((unsigned)sym_param("pad", 0)),
                                   StrongType<bool, tStoreTimeWithinFs>(store_times()));
    }
    void mount()
    {
        using S = std::shared_ptr<FileStream>;
        ft = std::make_shared<FileTable>(
            make_table_io(os, StrongType<bool, tLegacy>(legacy), StrongType<bool, tReadOnly>(false)),
            [this](S d, S m, const id_type& id) { return make<RegularFile>(d, m, id); },
            [this](S d, S m, const id_type& id)
            { return make<BtreeDirectory>(d, m, id, Directory::DirNameComparison{cmp}); },
            [this](S d, S m, const id_type& id) { return make<Symlink>(d, m, id); });
        o = std::make_unique<full_format::FuseHighLevelOps>(os,
                                                            ft,
                                                            nullptr,
                                                            OwnerOverride{},
                                                            StrongType<bool, tCaseInsensitive>(cmp != &name_cmp),
                                                            StrongType<bool, tEnableXattr>(true));
    }
    void unmount()
    {
        o.reset();
        ft.reset();
    }
    // the process dies: nothing in memory is written back
    void kill()
    {
        (void)o.release();
        new std::shared_ptr<FileTable>(std::move(ft));
        ft.reset();
        mount();
    }
    void remount()
    {
        unmount();
        mount();
    }
    // result of a callback as the kernel would see it
    template <class F>
    static int rc(F&& f)
    {
        try
        {
            return (int)f();
        }
        catch (const ExceptionBase& e)
        {
            return -e.error_number();
        }
        catch (const std::exception&)
        {
            return -EPERM;
        }
    }
    int create(const std::string& p, const std::string& content, unsigned mode = 0644)
    {
        fuse_file_info fi{};
        int r = rc([&] { return o->vcreate(p.c_str(), mode, &fi, &ctx); });
        if (r)
            return r;
        if (!content.empty())
        {
            int k = rc([&] { return o->vwrite(p.c_str(), content.data(), content.size(), 0, &fi, &ctx); });
            if (k < 0 && mos::fs().io_failures)
                r = k;
            else
                CHECK(k == (int)content.size(), "write to a new file");
        }
        CHECK(rc([&] { return o->vrelease(p.c_str(), &fi, &ctx); }) == 0, "release of a new file");
        return r;
    }
    int read(const std::string& p, std::string& out, size_t max = 16)
    {
        fuse_file_info fi{};
        int r = rc([&] { return o->vopen(p.c_str(), &fi, &ctx); });
        if (r)
            return r;
        out.assign(max, '\x5c');
        r = rc([&] { return o->vread(p.c_str(), &out[0], max, 0, &fi, &ctx); });
        CHECK(r <= (int)max, "read returned more than asked for");
        if (r >= 0)
            out.resize(r);
        CHECK(rc([&] { return o->vrelease(p.c_str(), &fi, &ctx); }) == 0, "release");
        return r < 0 ? r : 0;
    }
    static int fill(void* b, const char* n, const fuse_stat* st, fuse_off_t)
    {
        ((std::vector<std::pair<std::string, unsigned>>*)b)->push_back({n, st ? st->st_mode & S_IFMT : 0});
        return 0;
    }
    int list(const std::string& p, std::vector<std::pair<std::string, unsigned>>& out)
    {
        fuse_file_info fi{};
        int r = rc([&] { return o->vopendir(p.c_str(), &fi, &ctx); });
        if (r)
            return r;
        r = rc([&] { return o->vreaddir(p.c_str(), &out, (fuse_fill_dir_t)&fill, 0, &fi, &ctx); });
        CHECK(rc([&] { return o->vreleasedir(p.c_str(), &fi, &ctx); }) == 0, "releasedir");
        return r;
    }
    // files in the data directory
    static size_t stored(const mos::InodeP& d = mos::fs().root)
    {
        size_t n = 0;
        for (auto& k : d->kids)
            n += k.second->dir() ? stored(k.second) : 1;
        return n;
    }
};
