// Hand written model of the classes protoc generates from protos/params.proto (same accessors).
// Serialisation is an injective private format instead of the protobuf wire format.
#pragma once
#include "../rt/sym.h"
#include <cstdint>
#include <cstring>
#include <string>
#include <string_view>
#include <vector>
namespace google::protobuf
{
template <class T>
class RepeatedPtrField : public std::vector<T>
{
public:
    template <class I>
    void Assign(I a, I b)
    {
        this->assign(a, b);
    }
    void Add(T t) { this->push_back(std::move(t)); }
};
}    // namespace google::protobuf
namespace securefs
{
namespace pbm
{
    struct W
    {
        std::string s;
        void u(uint64_t v) { s.append((const char*)&v, 8); }
        void b(const std::string& x)
        {
            u(x.size());
            s += x;
        }
    };
    struct R
    {
        const char* p;
        size_t n;
        bool ok = true;
        uint64_t u()
        {
            if (n < 8)
            {
                ok = false;
                return 0;
            }
            uint64_t v;
            memcpy(&v, p, 8);
            p += 8;
            n -= 8;
            return v;
        }
        std::string b()
        {
            uint64_t k = u();
            if (!ok || k > n)
            {
                ok = false;
                return {};
            }
            k = sym_conc(k);
            std::string r(p, k);
            p += k;
            n -= k;
            return r;
        }
    };
}    // namespace pbm
#define PB_SCALAR(T, n)                                                                            \
private:                                                                                           \
    T n##_ = T();                                                                                  \
                                                                                                   \
public:                                                                                            \
    T n() const { return n##_; }                                                                   \
    void set_##n(T v) { n##_ = v; }                                                                \
    void clear_##n() { n##_ = T(); }
#define PB_OPT(T, n)                                                                               \
private:                                                                                           \
    T n##_ = T();                                                                                  \
    bool has_##n##_ = false;                                                                       \
                                                                                                   \
public:                                                                                            \
    T n() const { return n##_; }                                                                   \
    bool has_##n() const { return has_##n##_; }                                                    \
    void set_##n(T v)                                                                              \
    {                                                                                              \
        n##_ = v;                                                                                  \
        has_##n##_ = true;                                                                         \
    }                                                                                              \
    void clear_##n()                                                                               \
    {                                                                                              \
        n##_ = T();                                                                                \
        has_##n##_ = false;                                                                        \
    }
#define PB_STR(n)                                                                                  \
private:                                                                                           \
    std::string n##_;                                                                              \
                                                                                                   \
public:                                                                                            \
    const std::string& n() const { return n##_; }                                                  \
    std::string* mutable_##n() { return &n##_; }                                                   \
    void clear_##n() { n##_.clear(); }                                                             \
    template <class... A>                                                                          \
    void set_##n(A&&... a)                                                                         \
    {                                                                                              \
        n##_ = std::string(std::forward<A>(a)...);                                                 \
    }
#define PB_MSG(T, n)                                                                               \
private:                                                                                           \
    T n##_;                                                                                        \
    bool has_##n##_ = false;                                                                       \
                                                                                                   \
public:                                                                                            \
    const T& n() const                                                                             \
    {                                                                                              \
        static const T d{};                                                                        \
        return has_##n##_ ? n##_ : d;                                                              \
    }                                                                                              \
    bool has_##n() const { return has_##n##_; }                                                    \
    T* mutable_##n()                                                                               \
    {                                                                                              \
        has_##n##_ = true;                                                                         \
        return &n##_;                                                                              \
    }                                                                                              \
    void clear_##n()                                                                               \
    {                                                                                              \
        has_##n##_ = false;                                                                        \
        n##_ = T();                                                                                \
    }
#define PB_ONEOF(T, n, other)                                                                      \
public:                                                                                            \
    const T& n() const                                                                             \
    {                                                                                              \
        static const T d{};                                                                        \
        return has_##n##_ ? n##_ : d;                                                              \
    }                                                                                              \
    bool has_##n() const { return has_##n##_; }                                                    \
    T* mutable_##n()                                                                               \
    {                                                                                              \
        if (!has_##n##_)                                                                           \
            n##_ = T();                                                                            \
        has_##n##_ = true;                                                                         \
        has_##other##_ = false;                                                                    \
        return &n##_;                                                                              \
    }                                                                                              \
    void clear_##n() { has_##n##_ = false; }                                                       \
                                                                                                   \
private:                                                                                           \
    T n##_;                                                                                        \
    bool has_##n##_ = false;
#define PB_COMMON(cls)                                                                             \
public:                                                                                            \
    void CopyFrom(const cls& o) { *this = o; }                                                     \
    void Clear() { *this = cls(); }                                                                \
    std::string SerializeAsString() const                                                          \
    {                                                                                              \
        pbm::W w;                                                                                  \
        put(w);                                                                                    \
        return w.s;                                                                                \
    }                                                                                              \
    bool SerializeToString(std::string* o) const                                                   \
    {                                                                                              \
        *o = SerializeAsString();                                                                  \
        return true;                                                                               \
    }                                                                                              \
    size_t ByteSizeLong() const { return SerializeAsString().size(); }                             \
    bool ParseFromArray(const void* p, int n)                                                      \
    {                                                                                              \
        if (n < 0)                                                                                 \
            return false;                                                                          \
        *this = cls();                                                                             \
        pbm::R r{(const char*)p, (size_t)n};                                                       \
        take(r);                                                                                   \
        return r.ok && r.n == 0;                                                                   \
    }                                                                                              \
    bool ParseFromString(const std::string& s) { return ParseFromArray(s.data(), (int)s.size()); }

class LegacySecurefsJsonParams_EncryptedMasterKey
{
    PB_STR(iv)
    PB_STR(mac)
    PB_STR(ciphertext)
};
class LegacySecurefsJsonParams
{
public:
    using EncryptedMasterKey = LegacySecurefsJsonParams_EncryptedMasterKey;
    PB_SCALAR(uint32_t, version)
    PB_OPT(uint32_t, block_size)
    PB_OPT(uint32_t, iv_size)
    PB_STR(salt)
    PB_MSG(EncryptedMasterKey, encrypted_key)
    PB_SCALAR(uint32_t, iterations)
    PB_STR(pbkdf)
    PB_SCALAR(uint32_t, scrypt_r)
    PB_SCALAR(uint32_t, scrypt_p)
    PB_SCALAR(uint32_t, argon2_m_cost)
    PB_SCALAR(uint32_t, argon2_p)
    PB_SCALAR(uint32_t, max_padding)
    PB_SCALAR(bool, long_name_component)
};
class DecryptedSecurefsParams_SizeParams
{
    PB_SCALAR(uint32_t, block_size)
    PB_SCALAR(uint32_t, iv_size)
    PB_SCALAR(uint32_t, max_padding_size)
};
class DecryptedSecurefsParams_LiteFormatParams
{
    PB_STR(name_key)
    PB_STR(content_key)
    PB_STR(xattr_key)
    PB_STR(padding_key)
    PB_OPT(uint32_t, long_name_threshold)
    PB_STR(long_name_suffix)
};
class DecryptedSecurefsParams_FullFormatParams
{
    PB_STR(master_key)
    PB_SCALAR(bool, store_time)
    PB_SCALAR(bool, legacy_file_table_io)
    PB_SCALAR(bool, case_insensitive)
    PB_SCALAR(bool, unicode_normalization_agnostic)
};
class DecryptedSecurefsParams
{
public:
    using SizeParams = DecryptedSecurefsParams_SizeParams;
    using LiteFormatParams = DecryptedSecurefsParams_LiteFormatParams;
    using FullFormatParams = DecryptedSecurefsParams_FullFormatParams;
    enum FormatSpecificParamsCase
    {
        FORMAT_SPECIFIC_PARAMS_NOT_SET = 0,
        kLiteFormatParams = 2,
        kFullFormatParams = 3
    };
    FormatSpecificParamsCase format_specific_params_case() const
    {
        return has_lite_format_params_  ? kLiteFormatParams
            : has_full_format_params_ ? kFullFormatParams
                                      : FORMAT_SPECIFIC_PARAMS_NOT_SET;
    }
    PB_MSG(SizeParams, size_params)
    PB_ONEOF(LiteFormatParams, lite_format_params, full_format_params)
    PB_ONEOF(FullFormatParams, full_format_params, lite_format_params)
    PB_COMMON(DecryptedSecurefsParams)
    void put(pbm::W& w) const
    {
        w.s.push_back('D');
        w.u(has_size_params());
        w.u(size_params().block_size());
        w.u(size_params().iv_size());
        w.u(size_params().max_padding_size());
        w.u(format_specific_params_case());
        if (has_lite_format_params())
        {
            auto& l = lite_format_params();
            w.b(l.name_key());
            w.b(l.content_key());
            w.b(l.xattr_key());
            w.b(l.padding_key());
            w.u(l.has_long_name_threshold());
            w.u(l.long_name_threshold());
            w.b(l.long_name_suffix());
        }
        if (has_full_format_params())
        {
            auto& f = full_format_params();
            w.b(f.master_key());
            w.u(f.store_time());
            w.u(f.legacy_file_table_io());
            w.u(f.case_insensitive());
            w.u(f.unicode_normalization_agnostic());
        }
    }
    void take(pbm::R& r)
    {
        if (!r.n || *r.p != 'D')
        {
            r.ok = false;
            return;
        }
        ++r.p;
        --r.n;
        uint64_t has = r.u(), a = r.u(), b = r.u(), c = r.u();
        if (has)
        {
            mutable_size_params()->set_block_size((uint32_t)a);
            mutable_size_params()->set_iv_size((uint32_t)b);
            mutable_size_params()->set_max_padding_size((uint32_t)c);
        }
        uint64_t k = r.u();
        if (k == kLiteFormatParams)
        {
            auto* l = mutable_lite_format_params();
            *l->mutable_name_key() = r.b();
            *l->mutable_content_key() = r.b();
            *l->mutable_xattr_key() = r.b();
            *l->mutable_padding_key() = r.b();
            uint64_t h = r.u(), t = r.u();
            if (h)
                l->set_long_name_threshold((uint32_t)t);
            *l->mutable_long_name_suffix() = r.b();
        }
        if (k == kFullFormatParams)
        {
            auto* f = mutable_full_format_params();
            *f->mutable_master_key() = r.b();
            f->set_store_time(r.u() != 0);
            f->set_legacy_file_table_io(r.u() != 0);
            f->set_case_insensitive(r.u() != 0);
            f->set_unicode_normalization_agnostic(r.u() != 0);
        }
    }
};
class EncryptedSecurefsParams_Argon2idParams
{
    PB_SCALAR(uint32_t, time_cost)
    PB_SCALAR(uint32_t, memory_cost)
    PB_SCALAR(uint32_t, parallelism)
public:
    void CopyFrom(const EncryptedSecurefsParams_Argon2idParams& o) { *this = o; }
};
class EncryptedSecurefsParams
{
public:
    using Argon2idParams = EncryptedSecurefsParams_Argon2idParams;
    PB_STR(salt)
    PB_STR(iv)
    PB_STR(mac)
    PB_STR(ciphertext)
    PB_MSG(Argon2idParams, argon2id_params)
    PB_COMMON(EncryptedSecurefsParams)
    enum PbkdfParamsCase
    {
        PBKDF_PARAMS_NOT_SET = 0,
        kArgon2IdParams = 5
    };
    PbkdfParamsCase pbkdf_params_case() const
    {
        return has_argon2id_params() ? kArgon2IdParams : PBKDF_PARAMS_NOT_SET;
    }
    void put(pbm::W& w) const
    {
        w.s.push_back('E');
        w.b(salt());
        w.b(iv());
        w.b(mac());
        w.b(ciphertext());
        w.u(has_argon2id_params());
        w.u(argon2id_params().time_cost());
        w.u(argon2id_params().memory_cost());
        w.u(argon2id_params().parallelism());
    }
    void take(pbm::R& r)
    {
        if (!r.n || *r.p != 'E')
        {
            r.ok = false;
            return;
        }
        ++r.p;
        --r.n;
        *mutable_salt() = r.b();
        *mutable_iv() = r.b();
        *mutable_mac() = r.b();
        *mutable_ciphertext() = r.b();
        uint64_t h = r.u(), a = r.u(), b = r.u(), c = r.u();
        if (h)
        {
            auto* p = mutable_argon2id_params();
            p->set_time_cost((uint32_t)a);
            p->set_memory_cost((uint32_t)b);
            p->set_parallelism((uint32_t)c);
        }
    }
};
class MountOptions
{
    PB_SCALAR(bool, read_only)
    PB_SCALAR(bool, disable_verification)
    PB_OPT(int32_t, uid_override)
    PB_OPT(int32_t, gid_override)
    PB_SCALAR(bool, enable_xattr)
    PB_SCALAR(bool, case_fold)
    PB_SCALAR(bool, unicode_normalize_nfc)
    PB_SCALAR(bool, plain_text_names)
    PB_SCALAR(bool, allow_sensitive_logging)
    PB_SCALAR(int64_t, max_idle_seconds)
public:
    void put(pbm::W& w) const
    {
        w.u(read_only());
        w.u(disable_verification());
        w.u(has_uid_override());
        w.u((uint64_t)(int64_t)uid_override());
        w.u(has_gid_override());
        w.u((uint64_t)(int64_t)gid_override());
        w.u(enable_xattr());
        w.u(case_fold());
        w.u(unicode_normalize_nfc());
        w.u(plain_text_names());
        w.u(allow_sensitive_logging());
        w.u((uint64_t)max_idle_seconds());
    }
    void take(pbm::R& r)
    {
        set_read_only(r.u() != 0);
        set_disable_verification(r.u() != 0);
        uint64_t h = r.u(), v = r.u();
        if (h)
            set_uid_override((int32_t)v);
        h = r.u(), v = r.u();
        if (h)
            set_gid_override((int32_t)v);
        set_enable_xattr(r.u() != 0);
        set_case_fold(r.u() != 0);
        set_unicode_normalize_nfc(r.u() != 0);
        set_plain_text_names(r.u() != 0);
        set_allow_sensitive_logging(r.u() != 0);
        set_max_idle_seconds((int64_t)r.u());
    }
};
enum InternalMountData_LogLevel
{
    kLogTrace_ = 0,
    kLogVerbose_,
    kLogInfo_,
    kLogWarning_,
    kLogError_
};
class InternalMountData_BackgroundLogging
{
    PB_OPT(int64_t, logger_handle)
    PB_OPT(InternalMountData_LogLevel, log_level)
};
class InternalMountData
{
public:
    using LogLevel = InternalMountData_LogLevel;
    using BackgroundLogging = InternalMountData_BackgroundLogging;
    static constexpr LogLevel kLogTrace = kLogTrace_, kLogVerbose = kLogVerbose_, kLogInfo = kLogInfo_,
                              kLogWarning = kLogWarning_, kLogError = kLogError_;
    PB_MSG(DecryptedSecurefsParams, decrypted_params)
    PB_MSG(MountOptions, mount_options)
    PB_MSG(BackgroundLogging, background_logging)
    PB_STR(data_dir)
    PB_COMMON(InternalMountData)
    const google::protobuf::RepeatedPtrField<std::string>& fuse_args() const { return args_; }
    const std::string& fuse_args(int i) const { return args_[i]; }
    google::protobuf::RepeatedPtrField<std::string>* mutable_fuse_args() { return &args_; }
    int fuse_args_size() const { return (int)args_.size(); }
    bool ParseFromFileDescriptor(int)
    {
        extern std::string sym_stdin();
        return ParseFromString(sym_stdin());
    }
    void put(pbm::W& w) const
    {
        decrypted_params().put(w);
        mount_options().put(w);
        w.u(args_.size());
        for (auto& a : args_)
            w.b(a);
        w.b(data_dir());
        w.u(has_background_logging());
        auto& b = background_logging();
        w.u(b.has_logger_handle());
        w.u((uint64_t)b.logger_handle());
        w.u(b.has_log_level());
        w.u(b.log_level());
    }
    void take(pbm::R& r)
    {
        mutable_decrypted_params()->take(r);
        mutable_mount_options()->take(r);
        for (uint64_t n = r.u(); r.ok && n; --n)
            args_.push_back(r.b());
        *mutable_data_dir() = r.b();
        if (r.u())
            mutable_background_logging();
        uint64_t h = r.u(), v = r.u();
        if (h)
            mutable_background_logging()->set_logger_handle((int64_t)v);
        h = r.u(), v = r.u();
        if (h)
            mutable_background_logging()->set_log_level((LogLevel)v);
    }

private:
    google::protobuf::RepeatedPtrField<std::string> args_;
};
}    // namespace securefs
// the JSON parser is replaced by a hook which a harness provides
namespace google::protobuf::util
{
struct Status_
{
    bool v;
    bool ok() const { return v; }
    std::string ToString() const { return v ? "OK" : "error"; }
};
struct JsonPrintOptions
{
    bool add_whitespace = false, always_print_primitive_fields = false, preserve_proto_field_names = false;
};
template <class M>
Status_ MessageToJsonString(const M& m, std::string* out, const JsonPrintOptions&)
{
    extern bool sym_json_out_hook(const M&, std::string*);
    return {sym_json_out_hook(m, out)};
}
template <class M>
Status_ JsonStringToMessage(std::string_view s, M* m)
{
    extern bool sym_json_hook(std::string_view, securefs::LegacySecurefsJsonParams*);
    return {sym_json_hook(s, m)};
}
}    // namespace google::protobuf::util
