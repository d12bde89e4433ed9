// A lite-format file system on the in-memory operating system.
#pragma once
#include "os.h"
#include "lite_format.h"
using namespace model;
using namespace lite_format;
enum
{
    LEGACY,
    MODERN,
    PLAIN,
    KINDS
};
struct LiteFs
{
    std::shared_ptr<OSService> os = std::make_shared<OSService>("/");
    std::shared_ptr<NameTranslator> names;
    std::shared_ptr<StreamOpener> opener;
    std::unique_ptr<lite_format::FuseHighLevelOps> o;
    fuse_context ctx{};
    explicit LiteFs(int kind, unsigned threshold = 20, const char* suffix = "", bool fold = false)
    {
        NameNormalizationFlags f{};
        f.no_op = kind == PLAIN;
        f.should_case_fold = fold;
        f.long_name_threshold = kind == MODERN ? threshold : 0;
        f.long_name_suffix = suffix;
        names = make_name_translator(f, StrongType<key_type, tNameMasterKey>(test_key(4)));
        opener = std::make_shared<StreamOpener>(StrongType<key_type, tContentMasterKey>(test_key(21)),
                                                StrongType<key_type, tPaddingMasterKey>(test_key(22)),
                                                StrongType<unsigned, tBlockSize>(64),
                                                StrongType<unsigned, tIvSize>(12),
                                                StrongType<unsigned, tMaxPaddingSize>((unsigned)sym_param("pad", 0)),
                                                StrongType<bool, tVerify>(true));
        StrongType<key_type, tXattrMasterKey> xk(test_key(9));
        o = std::make_unique<lite_format::FuseHighLevelOps>(
            os,
            opener,
            names,
            std::make_shared<XattrCryptor>(xk, StrongType<unsigned, tIvSize>(12), StrongType<bool, tVerify>(true)),
            xk,
            StrongType<bool, tEnableXattr>(true));
    }
    // result of a callback as the kernel would see it
    template <class F>
    static int rc(F&& f)
    {
        try
        {
            return (int)f();
        }
        catch (const ExceptionBase& e)
        {
            return -e.error_number();
        }
        catch (const std::exception&)
        {
            return -EPERM;
        }
    }
};
