#include "model.h"
#include "crypto.h"
using namespace model;
typedef CryptoPP::CMAC<CryptoPP::AES> Cmac;
typedef std::array<byte, 16> Blk;
static Blk cmac(const std::string& k, const std::string& m)
{
    Cmac c((const byte*)k.data(), k.size());
    Blk r;
    c.CalculateDigest(r.data(), (const byte*)m.data(), m.size());
    return r;
}
static Blk dbl(const Blk& b)
{
    uint64_t hi = 0, lo = 0;
    for (int i = 0; i < 8; ++i)
        hi = hi << 8 | b[i], lo = lo << 8 | b[8 + i];
    uint64_t carry = hi >> 63;
    hi = hi << 1 | lo >> 63;
    lo = (lo << 1) ^ (carry * 0x87);
    Blk r;
    for (int i = 0; i < 8; ++i)
        r[i] = (byte)(hi >> (56 - 8 * i)), r[8 + i] = (byte)(lo >> (56 - 8 * i));
    return r;
}
static std::string x(const Blk& a, const std::string& b)
{
    std::string r(16, '\0');
    for (int i = 0; i < 16; ++i)
        r[i] = (char)(a[i] ^ (byte)b[i]);
    return r;
}
// RFC 5297 section 2.4
static std::string s2v(const std::string& k1, const std::string& header, bool has_header, const std::string& p)
{
    Blk d = cmac(k1, std::string(16, '\0'));
    if (has_header)
    {
        Blk h = cmac(k1, header);
        std::string t = x(dbl(d), std::string((char*)h.data(), 16));
        memcpy(d.data(), t.data(), 16);
    }
    std::string t;
    if (p.size() >= 16)
        t = p.substr(0, p.size() - 16) + x(d, p.substr(p.size() - 16));
    else
    {
        std::string pad = p + '\x80';
        pad.resize(16, '\0');
        t = x(dbl(d), pad);
    }
    Blk v = cmac(k1, t);
    return std::string((char*)v.data(), 16);
}
static std::string ctr(const std::string& k2, std::string v, const std::string& in)
{
    v[8] &= 0x7f;
    v[12] &= 0x7f;
    CryptoPP::CTR_Mode<CryptoPP::AES>::Encryption e((const byte*)k2.data(), k2.size(), (const byte*)v.data());
    std::string o(in.size(), '\0');
    if (!in.empty())
        e.ProcessData((byte*)&o[0], (const byte*)in.data(), in.size());
    return o;
}
static const std::string KEY = "0123456789abcdef0123456789abcdefFEDCBA9876543210fedcba9876543210";
static std::string key(size_t n) { return KEY.substr(0, n); }
extern "C" void h_encrypt()
{
    symc::st().symbolic = true;
    size_t ks = sym_fork_flag("longkey") ? 64 : 32;
    std::string k = key(ks), k1 = k.substr(0, ks / 2), k2 = k.substr(ks / 2);
    size_t n = sym_choice(0, sym_param("n", 33), "n"), hn = sym_choice(0, 2, "hn");
    std::string p = sym_bytes(n, "plain"), h = sym_bytes(hn, "header");
    std::string v = s2v(k1, h, hn > 0, p), c = ctr(k2, v, p);
    AES_SIV siv(k.data(), k.size());
    std::string keep = p;
    std::string iv(16, '\0');
    std::unique_ptr<char[]> out(new char[n]);
    siv.encrypt_and_authenticate(p.data(), n, hn ? h.data() : nullptr, hn, out.get(), &iv[0]);
    CHECK(same(iv, v), "synthetic IV differs from RFC 5297");
    CHECK(same(std::string(out.get(), n), c), "ciphertext differs from RFC 5297");
    CHECK(same(p, keep), "plaintext modified");
    std::unique_ptr<char[]> back(new char[n]);
    AES_SIV siv2(k.data(), k.size());
    CHECK(siv2.decrypt_and_verify(out.get(), n, hn ? h.data() : nullptr, hn, back.get(), iv.data()), "own ciphertext rejected");
    CHECK(same(std::string(back.get(), n), p), "decryption differs from the plaintext");
    sym_reach("encrypt");
}
// any ciphertext, any IV: accepted iff the recomputed IV is equal in all 16 bytes
extern "C" void h_decrypt()
{
    symc::st().symbolic = true;
    std::string k = key(32), k1 = k.substr(0, 16), k2 = k.substr(16);
    size_t n = sym_choice(0, sym_param("n", 20), "n"), hn = sym_choice(0, 1, "hn");
    std::string c = sym_bytes(n, "cipher"), h = sym_bytes(hn, "header"), v = sym_bytes(16, "iv");
    std::string p = ctr(k2, v, c), w = s2v(k1, h, hn > 0, p);
    std::unique_ptr<char[]> out(new char[n]);
    AES_SIV siv(k.data(), k.size());
    bool ok = siv.decrypt_and_verify(c.data(), n, hn ? h.data() : nullptr, hn, out.get(), v.data());
    bool want = same(w, v);
    CHECK(ok == want, "authentication result differs from comparing all 16 bytes of the IV");
    if (ok)
    {
        CHECK(same(std::string(out.get(), n), p), "plaintext");
        sym_reach("accept");
    }
    else
        sym_reach("reject");
}
// state of one object does not leak between calls
extern "C" void h_repeat()
{
    symc::st().symbolic = true;
    std::string k = key(32), k1 = k.substr(0, 16), k2 = k.substr(16);
    AES_SIV siv(k.data(), k.size());
    for (int i = 0; i < 3; ++i)
    {
        static const size_t N[] = {0, 5, 16, 20};
        size_t n = pick(N, "n");
        std::string p(n, 'a' + i), v = s2v(k1, "", false, p), c = ctr(k2, v, p), out(n, '\0'), iv(16, '\0');
        if (sym_fork_flag("dec"))
        {
            CHECK(siv.decrypt_and_verify(c.data(), n, nullptr, 0, &out[0], v.data()), "rejected");
            CHECK(same(out, p), "decryption depends on earlier calls");
        }
        else
        {
            siv.encrypt_and_authenticate(p.data(), n, nullptr, 0, &out[0], &iv[0]);
            CHECK(same(out, c) && same(iv, v), "encryption depends on earlier calls");
        }
    }
    sym_reach("repeat");
}
// longer texts
extern "C" void h_sizes()
{
    symc::st().symbolic = true;
    std::string k = key(32), k1 = k.substr(0, 16), k2 = k.substr(16);
    static const size_t N[] = {34, 48, 63, 64, 128, 255, 256, 257, 700}, H[] = {0, 3, 16, 17, 40};
    size_t n = pick(N, "n"), hn = pick(H, "hn");
    std::string p(n, 'p'), h(hn, 'h');
    p[0] = (char)sym_u8("first");
    p[n - 1] = (char)sym_u8("last");
    if (hn)
        h[hn - 1] = (char)sym_u8("header");
    std::string v = s2v(k1, h, hn > 0, p), c = ctr(k2, v, p), iv(16, '\0');
    AES_SIV siv(k.data(), k.size());
    std::unique_ptr<char[]> out(new char[n]), back(new char[n]);
    siv.encrypt_and_authenticate(p.data(), n, hn ? h.data() : nullptr, hn, out.get(), &iv[0]);
    CHECK(same(iv, v), "synthetic IV differs from RFC 5297");
    CHECK(same(std::string(out.get(), n), c), "ciphertext differs from RFC 5297");
    CHECK(siv.decrypt_and_verify(out.get(), n, hn ? h.data() : nullptr, hn, back.get(), iv.data()), "own ciphertext rejected");
    CHECK(same(std::string(back.get(), n), p), "decryption differs from the plaintext");
    sym_reach("sizes");
}
