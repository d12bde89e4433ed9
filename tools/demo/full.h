// A full-format file system over a scratch directory.
#include "btree_dir.h"
#include "files.h"
#include "full_format.h"
#include "platform.h"
#include <cstdio>
#include <cstdlib>
#include <memory>
#include <string>
#include <unistd.h>
#include <vector>
using namespace securefs;
using namespace securefs::full_format;
struct Full
{
    std::shared_ptr<OSService> os;
    std::shared_ptr<FileTable> ft;
    std::unique_ptr<full_format::FuseHighLevelOps> o;
    fuse_context ctx{};
    bool legacy = false, store_time = false;
    unsigned padding = 0;
    std::string dir;
    explicit Full(bool legacy_ = false, bool store_time_ = false, unsigned padding_ = 0)
        : legacy(legacy_), store_time(store_time_), padding(padding_)
    {
        char t[] = "/tmp/demo.XXXXXX";
        dir = mkdtemp(t);
        os = std::make_shared<OSService>(dir);
        ctx.uid = getuid();
        ctx.gid = getgid();
        mount();
    }
    ~Full()
    {
        unmount();
        os.reset();
        (void)!system(("rm -rf '" + dir + "'").c_str());
    }
    static key_type key()
    {
        key_type k;
        for (size_t i = 0; i < k.size(); ++i)
            k.data()[i] = (byte)(i * 37 + 11);
        return k;
    }
    template <class T, class... A>
    std::unique_ptr<T> make(std::shared_ptr<FileStream> d, std::shared_ptr<FileStream> m, const id_type& id, A... a)
    {
        return std::make_unique<T>(a..., std::move(d), std::move(m), StrongType<key_type, tMasterKey>(key()), id,
                                   StrongType<bool, tVerify>(true), StrongType<unsigned, tBlockSize>(4096),
                                   StrongType<unsigned, tIvSize>(12), StrongType<unsigned, tMaxPaddingSize>(padding),
                                   StrongType<bool, tStoreTimeWithinFs>(store_time));
    }
    static int cmp(std::string_view a, std::string_view b) { return a.compare(b); }
    void mount()
    {
        using S = std::shared_ptr<FileStream>;
        ft = std::make_shared<FileTable>(
            make_table_io(os, StrongType<bool, tLegacy>(legacy), StrongType<bool, tReadOnly>(false)),
            [this](S d, S m, const id_type& id) { return make<RegularFile>(d, m, id); },
            [this](S d, S m, const id_type& id)
            { return make<BtreeDirectory>(d, m, id, Directory::DirNameComparison{&cmp}); },
            [this](S d, S m, const id_type& id) { return make<Symlink>(d, m, id); });
        o = std::make_unique<full_format::FuseHighLevelOps>(os, ft, nullptr, OwnerOverride{},
                                                            StrongType<bool, tCaseInsensitive>(false),
                                                            StrongType<bool, tEnableXattr>(true));
    }
    void unmount()
    {
        o.reset();
        ft.reset();
    }
    void remount()
    {
        unmount();
        mount();
    }
    template <class F>
    static int rc(F&& f)
    {
        try
        {
            return (int)f();
        }
        catch (const ExceptionBase& e)
        {
            return -e.error_number();
        }
        catch (const std::exception& e)
        {
            fprintf(stderr, "%s\n", e.what());
            return -EPERM;
        }
    }
    int create(const std::string& p, const std::string& content, unsigned mode = 0644)
    {
        fuse_file_info fi{};
        int r = rc([&] { return o->vcreate(p.c_str(), mode, &fi, &ctx); });
        if (r)
            return r;
        if (!content.empty())
            r = rc([&] { return o->vwrite(p.c_str(), content.data(), content.size(), 0, &fi, &ctx); });
        rc([&] { return o->vrelease(p.c_str(), &fi, &ctx); });
        return r < 0 ? r : 0;
    }
    int read(const std::string& p, std::string& out)
    {
        fuse_file_info fi{};
        int r = rc([&] { return o->vopen(p.c_str(), &fi, &ctx); });
        if (r)
            return r;
        out.assign(1 << 16, 0);
        r = rc([&] { return o->vread(p.c_str(), &out[0], out.size(), 0, &fi, &ctx); });
        if (r >= 0)
            out.resize(r);
        rc([&] { return o->vrelease(p.c_str(), &fi, &ctx); });
        return r < 0 ? r : 0;
    }
};
#define EXPECT(c) do { if (!(c)) { printf("FAILED line %d: %s\n", __LINE__, #c); exit(1); } } while (0)
