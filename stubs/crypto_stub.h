// Ideal-functionality models of the Crypto++ primitives securefs uses.
//  * AEAD (GCM): a log of encryptions; a ciphertext/MAC is a unique token that carries no
//    information about the plaintext; decryption verifies iff (key, iv, aad, ciphertext, mac) is in
//    the log. A failed decryption leaves "keystream xor" output like the real mode.
//  * Hashes / MACs / block cipher / KDF: injective functions given by a log of queries.
//  * The random generator returns unique non-zero tokens unless a harness installs a hook.
#pragma once
#include "../rt/sym.h"
#include <algorithm>
#include <cstdint>
#include <cstring>
#include <stdexcept>
#include <string>
#include <vector>

namespace symc
{
struct Entry
{
    int alg;
    std::string key, iv, aad, pt, ct, mac;
};
struct State
{
    std::vector<Entry> gcm;
    std::vector<Entry> fn;
    uint64_t counter = 1;
    bool abstract_mod = false;   // Integer::Modulo is an arbitrary function with values below the modulus
    bool symbolic = false;       // function outputs are symbolic bytes instead of concrete tokens
    int iv_reuse = 0;            // GCM: same (key, iv) with a different message
    int encryptions = 0, decryptions = 0, failed_decryptions = 0;
    int zero_iv = 0;             // GCM encryptions under an all zero IV
    void (*rng)(void* p, size_t n) = nullptr;
    int rng_calls = 0;
    bool verify_fresh = false;   // set while verifying; cleared when the MAC had not been computed before
};
State& st();
void token(void* p, size_t n);              // unique bytes, never zero
// value of the ideal function alg(key, msg), n bytes
std::string fn(int alg, const std::string& key, const std::string& msg, size_t n);
std::string fn_sym(int alg, const std::string& key, const std::string& msg, size_t n);   // always symbolic
inline std::string S(const void* p, size_t n)
{
    // the real primitive would run through memory where std::string only throws
    if (n > (size_t(1) << 30))
        sym_fail("a primitive is handed an impossible length");
    return n ? std::string((const char*)p, n) : std::string();
}
inline bool eq(const std::string& a, const std::string& b)
{
    return a.size() == b.size() && sym_eq(a.data(), b.data(), a.size());
}
void gcm_enc(const std::string& key, const std::string& iv, const std::string& aad, const std::string& pt, std::string& ct, std::string& mac);
bool gcm_dec(const std::string& key, const std::string& iv, const std::string& aad, const std::string& ct, const std::string& mac, std::string& pt);
enum
{
    ALG_HMAC_SHA256 = 1,
    ALG_SHA256,
    ALG_CMAC,
    ALG_BLAKE2B,
    ALG_CTR,
    ALG_ECB,
    ALG_PBKDF2,
    ALG_SCRYPT,
    ALG_ARGON2,
    ALG_SHA512,
    ALG_OTHER
};
}    // namespace symc

namespace CryptoPP
{
typedef unsigned char byte;
typedef uint32_t word32;
typedef uint64_t word64;
typedef uint64_t word;
typedef uint64_t lword;
class Exception : public std::exception
{
    std::string m_;

public:
    explicit Exception(const std::string& s) : m_(s) {}
    const char* what() const noexcept override { return m_.c_str(); }
    const std::string& GetWhat() const { return m_; }
};
class InvalidArgument : public Exception
{
public:
    using Exception::Exception;
};

template <class T>
inline void SecureWipeBuffer(T* p, size_t n)
{
    for (size_t i = 0; i < n; ++i)
        p[i] = 0;
}
template <class T>
inline void SecureWipeArray(T* p, size_t n)
{
    memset((void*)p, 0, n * sizeof(T));
}
inline void xorbuf(byte* b, const byte* m, size_t n)
{
    for (size_t i = 0; i < n; ++i)
        b[i] ^= m[i];
}
inline void xorbuf(byte* o, const byte* a, const byte* m, size_t n)
{
    for (size_t i = 0; i < n; ++i)
        o[i] = a[i] ^ m[i];
}
inline bool VerifyBufsEqual(const byte* a, const byte* b, size_t n) { return sym_eq(a, b, n) != 0; }
inline void memset_z(void* p, int v, size_t n) { memset(p, v, n); }
inline void memcpy_s(void* d, size_t dn, const void* s, size_t n)
{
    if (n > dn)
        throw InvalidArgument("memcpy_s");
    memcpy(d, s, n);
}

template <class T, class A = void>
class SecBlock
{
    T* p_ = nullptr;
    size_t n_ = 0;

public:
    typedef T value_type;
    typedef T* iterator;
    typedef const T* const_iterator;
    explicit SecBlock(size_t n = 0) : p_(n ? new T[n] : nullptr), n_(n) {}
    SecBlock(const T* p, size_t n) : p_(n ? new T[n] : nullptr), n_(n)
    {
        if (n)
        {
            if (p)
                memcpy(p_, p, n * sizeof(T));
            else
                memset(p_, 0, n * sizeof(T));
        }
    }
    SecBlock(const SecBlock& o) : SecBlock(o.p_, o.n_) {}
    ~SecBlock() { delete[] p_; }
    SecBlock& operator=(const SecBlock& o)
    {
        Assign(o);
        return *this;
    }
    operator const T*() const { return p_; }
    operator T*() { return p_; }
    T* data() { return p_; }
    const T* data() const { return p_; }
    T* BytePtr() { return p_; }
    T* begin() { return p_; }
    T* end() { return p_ + n_; }
    const T* begin() const { return p_; }
    const T* end() const { return p_ + n_; }
    size_t size() const { return n_; }
    size_t SizeInBytes() const { return n_ * sizeof(T); }
    bool empty() const { return n_ == 0; }
    void Assign(const T* p, size_t n)
    {
        New(n);
        if (n && p)
            memcpy(p_, p, n * sizeof(T));
    }
    void Assign(const SecBlock& o)
    {
        if (this != &o)
            Assign(o.p_, o.n_);
    }
    void New(size_t n)
    {
        T* q = n ? new T[n] : nullptr;
        delete[] p_;
        p_ = q;
        n_ = n;
    }
    void CleanNew(size_t n)
    {
        New(n);
        if (n)
            memset(p_, 0, n * sizeof(T));
    }
    void resize(size_t n)
    {
        T* q = n ? new T[n] : nullptr;
        size_t m = n < n_ ? n : n_;
        if (m)
            memcpy(q, p_, m * sizeof(T));
        delete[] p_;
        p_ = q;
        n_ = n;
    }
    void Grow(size_t n)
    {
        if (n > n_)
            resize(n);
    }
    void CleanGrow(size_t n)
    {
        size_t o = n_;
        Grow(n);
        if (n > o)
            memset(p_ + o, 0, (n - o) * sizeof(T));
    }
    void swap(SecBlock& o)
    {
        std::swap(p_, o.p_);
        std::swap(n_, o.n_);
    }
    bool operator==(const SecBlock& o) const { return n_ == o.n_ && sym_eq(p_, o.p_, n_ * sizeof(T)); }
    bool operator!=(const SecBlock& o) const { return !(*this == o); }
};
typedef SecBlock<byte> SecByteBlock;
typedef SecBlock<byte, int> AlignedSecByteBlock;
template <class T, unsigned N>
class FixedSizeSecBlock
{
    T a_[N];

public:
    T* data() { return a_; }
    const T* data() const { return a_; }
    static constexpr size_t size() { return N; }
    T* begin() { return a_; }
    T* end() { return a_ + N; }
    const T* begin() const { return a_; }
    const T* end() const { return a_ + N; }
    operator T*() { return a_; }
    operator const T*() const { return a_; }
};
template <class T, unsigned N, bool X = true>
class FixedSizeAlignedSecBlock : public FixedSizeSecBlock<T, N>
{
};

class RandomNumberGenerator
{
public:
    virtual ~RandomNumberGenerator() {}
    void GenerateBlock(byte* p, size_t n)
    {
        sched::Quiet q_;
        ++symc::st().rng_calls;
        if (symc::st().rng)
            symc::st().rng(p, n);
        else
            symc::token(p, n);
    }
};
class AutoSeededRandomPool : public RandomNumberGenerator
{
};
class OS_RNG_Stub
{
};

class AES
{
public:
    enum
    {
        BLOCKSIZE = 16,
        DEFAULT_KEYLENGTH = 16,
        MAX_KEYLENGTH = 32
    };
    static void check_key_(size_t n)
    {
        if (n != 16 && n != 24 && n != 32)
            throw InvalidArgument("AES: invalid key length");
    }
};
typedef AES Rijndael;

template <class C>
class GCM
{
    class Base_
    {
    protected:
        std::string key_, iv_;

    public:
        Base_() = default;
        void SetKeyWithIV(const byte* k, size_t n, const byte* iv, size_t ivn)
        {
            AES::check_key_(n);
            key_ = symc::S(k, n);
            iv_ = symc::S(iv, ivn);
        }
        void SetKeyWithIV(const byte* k, size_t n, const byte* iv) { SetKeyWithIV(k, n, iv, 12); }
        void SetKey(const byte* k, size_t n) { key_ = symc::S(k, n); }
        void SpecifyDataLengths(lword, lword, lword = 0) {}
        void Resynchronize(const byte* iv, int n) { iv_ = symc::S(iv, n); }
        static unsigned DigestSize() { return 16; }
    };

public:
    class Encryption : public Base_
    {
    public:
        void EncryptAndAuthenticate(byte* ct, byte* mac, size_t macn, const byte* iv, int ivn, const byte* aad, size_t aadn, const byte* m, size_t mn)
        {
            if (macn > 16)
                throw InvalidArgument("GCM: MAC too long");
            std::string c, t;
            this->iv_ = symc::S(iv, ivn);
            symc::gcm_enc(this->key_, this->iv_, symc::S(aad, aadn), symc::S(m, mn), c, t);
            if (mn)
                memcpy(ct, c.data(), mn);
            if (macn)
                memcpy(mac, t.data(), macn);
        }
    };
    class Decryption : public Base_
    {
    public:
        bool DecryptAndVerify(byte* m, const byte* mac, size_t macn, const byte* iv, int ivn, const byte* aad, size_t aadn, const byte* ct, size_t cn)
        {
            if (macn > 16)
                throw InvalidArgument("GCM: MAC too long");
            std::string p;
            this->iv_ = symc::S(iv, ivn);
            bool r = symc::gcm_dec(this->key_, this->iv_, symc::S(aad, aadn), symc::S(ct, cn), symc::S(mac, macn), p);
            if (cn)
                memcpy(m, p.data(), cn);
            return r;
        }
    };
};

class HashTransformation
{
public:
    virtual ~HashTransformation() {}
    virtual void Update(const byte* p, size_t n) = 0;
    virtual void TruncatedFinal(byte* d, size_t n) = 0;
    virtual unsigned DigestSize() const = 0;
    void Final(byte* d) { TruncatedFinal(d, DigestSize()); }
    virtual void Restart() = 0;
    bool TruncatedVerify(const byte* d, size_t n)
    {
        std::string t(n, 0);
        if (unforgeable_() && n >= 4)
        {
            // a MAC nobody computed before cannot be presented by an adversary
            {
                sched::Quiet q_;
                symc::st().verify_fresh = true;
            }
            TruncatedFinal((byte*)&t[0], n);
            sched::Quiet q_;
            bool known = symc::st().verify_fresh;
            symc::st().verify_fresh = false;
            return known && sym_eq(t.data(), d, n) != 0;
        }
        TruncatedFinal((byte*)&t[0], n);
        return sym_eq(t.data(), d, n) != 0;
    }
    virtual bool unforgeable_() const { return false; }
    bool Verify(const byte* d) { return TruncatedVerify(d, DigestSize()); }
    void CalculateDigest(byte* d, const byte* p, size_t n)
    {
        Update(p, n);
        Final(d);
    }
    void CalculateTruncatedDigest(byte* d, size_t dn, const byte* p, size_t n)
    {
        Update(p, n);
        TruncatedFinal(d, dn);
    }
    bool VerifyDigest(const byte* d, const byte* p, size_t n)
    {
        Update(p, n);
        return Verify(d);
    }
};
class MessageAuthenticationCode : public HashTransformation
{
public:
    bool unforgeable_() const override { return true; }
    virtual void SetKey(const byte* k, size_t n) = 0;
};
template <int ALG, unsigned DS, class BASE>
class Hash_ : public BASE
{
protected:
    std::string key_, msg_;

public:
    enum
    {
        DIGESTSIZE = DS
    };
    void Update(const byte* p, size_t n) override
    {
        if (n)
            msg_.append((const char*)p, n);
    }
    unsigned DigestSize() const override { return DS; }
    void Restart() override { msg_.clear(); }
    void TruncatedFinal(byte* d, size_t n) override
    {
        if (n > DS)
            throw InvalidArgument("HashTransformation: can't truncate a digest to more bytes");
        std::string r = symc::fn(ALG, key_, msg_, DS);
        msg_.clear();
        if (n)
            memcpy(d, r.data(), n);
    }
};
class SHA256 : public Hash_<symc::ALG_SHA256, 32, HashTransformation>
{
};
class SHA512 : public Hash_<symc::ALG_SHA512, 64, HashTransformation>
{
};
template <class H>
class HMAC : public Hash_<symc::ALG_HMAC_SHA256, 32, MessageAuthenticationCode>
{
public:
    enum
    {
        DIGESTSIZE = 32,
        BLOCKSIZE = 64
    };
    HMAC() = default;
    HMAC(const byte* k, size_t n) { SetKey(k, n); }
    void SetKey(const byte* k, size_t n) override
    {
        // HMAC pads the key with zeros to the block size
        key_ = symc::S(k, n);
        if (n < 64)
            key_.append(64 - n, '\0');
        msg_.clear();
    }
};
template <class C>
class CMAC : public Hash_<symc::ALG_CMAC, 16, MessageAuthenticationCode>
{
public:
    CMAC() = default;
    CMAC(const byte* k, size_t n) { SetKey(k, n); }
    void SetKey(const byte* k, size_t n) override
    {
        AES::check_key_(n);
        key_ = symc::S(k, n);
        msg_.clear();
    }
};
class BLAKE2b : public Hash_<symc::ALG_BLAKE2B, 64, MessageAuthenticationCode>
{
public:
    BLAKE2b() = default;
    BLAKE2b(const byte* k, size_t n, const byte* = nullptr, size_t = 0, const byte* = nullptr, size_t = 0, bool = false, unsigned = 64)
    {
        SetKey(k, n);
    }
    void SetKey(const byte* k, size_t n) override
    {
        if (n > 64)
            throw InvalidArgument("BLAKE2b key too long");
        key_ = symc::S(k, n);
        msg_.clear();
    }
};

template <class C>
class CTR_Mode
{
public:
    class Encryption
    {
        std::string key_, iv_;
        size_t pos_ = 0;

    public:
        Encryption() = default;
        Encryption(const byte* k, size_t n, const byte* iv) { SetKeyWithIV(k, n, iv, 16); }
        void SetKeyWithIV(const byte* k, size_t n, const byte* iv, size_t ivn = 16)
        {
            AES::check_key_(n);
            key_ = symc::S(k, n);
            iv_ = symc::S(iv, ivn);
            pos_ = 0;
        }
        void Resynchronize(const byte* iv, int n = -1)
        {
            iv_ = symc::S(iv, n < 0 ? 16 : n);
            pos_ = 0;
        }
        void ProcessData(byte* o, const byte* in, size_t n)
        {
            std::string x = symc::S(in, n);
            for (size_t i = 0; i < n; ++i)
            {
                uint64_t blk = (pos_ + i) / 16;
                if (ks_.empty() || blk != ksblk_)
                {
                    ks_ = symc::fn(symc::ALG_CTR, key_, iv_ + std::string((const char*)&blk, 8), 16);
                    ksblk_ = blk;
                }
                o[i] = (byte)(x[i] ^ ks_[(pos_ + i) % 16]);
            }
            pos_ += n;
            ks_.clear();
        }
        void ProcessString(byte* o, const byte* in, size_t n) { ProcessData(o, in, n); }
        void ProcessString(byte* o, size_t n) { ProcessData(o, o, n); }

    private:
        std::string ks_;
        uint64_t ksblk_ = 0;
    };
    typedef Encryption Decryption;
};
template <class C>
class ECB_Mode
{
public:
    class Encryption
    {
        std::string key_;

    public:
        Encryption() = default;
        Encryption(const byte* k, size_t n) { SetKey(k, n); }
        void SetKey(const byte* k, size_t n)
        {
            AES::check_key_(n);
            key_ = symc::S(k, n);
        }
        void ProcessData(byte* o, const byte* in, size_t n)
        {
            std::string x = symc::S(in, n);
            if (n % 16)
                sym_fail("ECB_Mode: data length is not a multiple of the block size");
            for (size_t i = 0; i < n; i += 16)
            {
                std::string r = symc::fn(symc::ALG_ECB, key_, x.substr(i, 16), 16);
                memcpy(o + i, r.data(), 16);
            }
        }
    };
};
enum ByteOrder
{
    LITTLE_ENDIAN_ORDER,
    BIG_ENDIAN_ORDER
};
class Integer
{
    std::string v_;    // big endian

public:
    enum Signedness
    {
        UNSIGNED,
        SIGNED
    };
    class DivideByZero : public Exception
    {
    public:
        DivideByZero() : Exception("Integer: division by zero") {}
    };
    Integer(const byte* p, size_t n, Signedness = UNSIGNED, ByteOrder o = BIG_ENDIAN_ORDER) : v_(symc::S(p, n))
    {
        if (o == LITTLE_ENDIAN_ORDER)
            std::reverse(v_.begin(), v_.end());
    }
    word Modulo(word m) const
    {
        if (!m)
            throw DivideByZero();
        // dividing 128 symbolic bits is beyond the solver: an arbitrary remainder below m that is a function
        // of the number and the modulus
        if (symc::st().abstract_mod)
        {
            std::string r = symc::fn_sym(symc::ALG_OTHER + 1, symc::S(&m, 8), v_, m <= 256 ? 1 : m <= (1ull << 32) ? 4 : 8);
            word x = 0;
            memcpy(&x, r.data(), r.size());
            sym_assume(x < m);
            return m <= 16 ? sym_conc(x) : x;
        }
        unsigned __int128 r = 0;
        for (unsigned char c : v_)
            r = (r * 256 + c) % m;
        return (word)r;
    }
    word operator%(word m) const { return Modulo(m); }
};
template <class H>
class PKCS5_PBKDF2_HMAC
{
public:
    size_t DeriveKey(byte* out, size_t n, byte purpose, const byte* pw, size_t pn, const byte* salt, size_t sn, unsigned it, double = 0) const
    {
        uint64_t q[2] = {it, sn};
        std::string r = symc::fn(symc::ALG_PBKDF2, symc::S(pw, pn), symc::S(q, 16) + symc::S(salt, sn), n);
        memcpy(out, r.data(), n);
        return it;
    }
};
class Scrypt
{
public:
    size_t DeriveKey(byte* out, size_t n, const byte* pw, size_t pn, const byte* salt, size_t sn, word64 c = 2, word64 b = 8, word64 p = 1) const
    {
        uint64_t q[4] = {c, b, p, sn};
        std::string r = symc::fn(symc::ALG_SCRYPT, symc::S(pw, pn), symc::S(q, 32) + symc::S(salt, sn), n);
        memcpy(out, r.data(), n);
        return 1;
    }
};
inline bool HasAESNI() { return true; }
inline bool HasCLMUL() { return true; }
}    // namespace CryptoPP
