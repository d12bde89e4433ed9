// Extended attribute operations of one file in each format.
#pragma once
#include "os.h"
#include "files.h"
#include "lite_format.h"
using namespace model;
struct FullOps
{
    mos::InodeP data = std::make_shared<mos::Inode>(), meta = std::make_shared<mos::Inode>();
    unsigned char seed = 0;
    bool verify = true;
    std::unique_ptr<RegularFile> f_;
    RegularFile& f()
    {
        if (!f_)
        {
            id_type id{};
            id.data()[0] = seed;
            f_ = std::make_unique<RegularFile>(std::make_shared<mos::File>(data),
                                               std::make_shared<mos::File>(meta),
                                               StrongType<key_type, tMasterKey>(test_key()),
                                               id,
                                               StrongType<bool, tVerify>(verify),
                                               StrongType<unsigned, tBlockSize>(64),
                                               StrongType<unsigned, tIvSize>(12),
                                               StrongType<unsigned, tMaxPaddingSize>(0),
                                               StrongType<bool, tStoreTimeWithinFs>(false));
        }
        return *f_;
    }
    // as seen through the callbacks: negative error numbers
    template <class F>
    static int rc(F&& f)
    {
        try
        {
            return (int)f();
        }
        catch (const ExceptionBase& e)
        {
            return -e.error_number();
        }
        catch (const std::exception&)
        {
            return -EPERM;
        }
    }
    int set(const std::string& n, const std::string& v, int flags = 0)
    {
        return rc([&] { return f().setxattr(n.c_str(), v.data(), v.size(), flags), 0; });
    }
    int get(const std::string& n, char* b, size_t s)
    {
        return rc([&] { return f().getxattr(n.c_str(), b, s); });
    }
    int remove(const std::string& n)
    {
        return rc([&] { return f().removexattr(n.c_str()), 0; });
    }
    int list(char* p, size_t s)
    {
        return rc([&] { return f().listxattr(p, s); });
    }
};
struct LiteOps
{
    std::unique_ptr<lite_format::FuseHighLevelOps> o;
    fuse_context ctx{};
    mos::InodeP data;
    unsigned iv = 12;
    bool verify = true;
    lite_format::FuseHighLevelOps& ops()
    {
        if (!o)
        {
            auto os = std::make_shared<OSService>("/");
            data = mos::add(mos::fs().root, "f", S_IFREG | 0644);
            lite_format::NameNormalizationFlags fl{};
            fl.no_op = true;
            StrongType<key_type, tXattrMasterKey> xk(test_key(9));
            o = std::make_unique<lite_format::FuseHighLevelOps>(
                os,
                nullptr,
                lite_format::make_name_translator(fl, StrongType<key_type, tNameMasterKey>(test_key(4))),
                std::make_shared<lite_format::XattrCryptor>(xk, StrongType<unsigned, tIvSize>(iv), StrongType<bool, tVerify>(verify)),
                xk,
                StrongType<bool, tEnableXattr>(true));
        }
        return *o;
    }
    int set(const std::string& n, const std::string& v, int flags = 0)
    {
        return FullOps::rc([&] { return ops().vsetxattr("/f", n.c_str(), v.data(), v.size(), flags, 0, &ctx); });
    }
    int get(const std::string& n, char* b, size_t s)
    {
        return FullOps::rc([&] { return ops().vgetxattr("/f", n.c_str(), b, s, 0, &ctx); });
    }
    int remove(const std::string& n)
    {
        return FullOps::rc([&] { return ops().vremovexattr("/f", n.c_str(), &ctx); });
    }
    int list(char* p, size_t s)
    {
        return FullOps::rc([&] { return ops().vlistxattr("/f", p, s, &ctx); });
    }
};
