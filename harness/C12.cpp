#include "model.h"
#include "crypto.h"
using namespace model;
static std::string hm(const std::string& k, const std::string& m)
{
    CryptoPP::HMAC<CryptoPP::SHA256> h((const byte*)k.data(), k.size());
    std::string r(32, '\0');
    h.CalculateDigest((byte*)&r[0], (const byte*)m.data(), m.size());
    return r;
}
// RFC 5869; an absent salt skips the extraction step (documented deviation, kept since version 0.1)
static std::string ref(const std::string& ikm, const std::string& salt, const std::string& info, size_t n)
{
    std::string prk = salt.empty() ? ikm : hm(salt, ikm), t, okm;
    for (unsigned i = 1; okm.size() < n; ++i)
    {
        t = hm(prk, t + info + std::string(1, (char)i));
        okm += t;
    }
    return okm.substr(0, n);
}
static const size_t LEN[] = {0, 1, 16, 31, 32, 33, 63, 64, 65, 96, 97, 128, 8160, 8161, 20000, 8159};
extern "C" void h_hkdf()
{
    size_t n = LEN[sym_choice(0, sym_param("lens", 12) - 1, "len") + sym_param("first", 0)];
    size_t kn, sn, in;
    if (sym_param("inputs", 0))
    {
        static const size_t K[] = {16, 32, 64, 65, 200}, S[] = {16, 31, 32, 33, 64, 65, 130}, I[] = {9, 22, 33, 100, 300};
        kn = pick(K, "kn");
        sn = pick(S, "sn");
        in = pick(I, "in");
    }
    else
        kn = sym_choice(1, 2, "kn") * 16, sn = sym_choice(0, 2, "sn"), in = sym_choice(0, 3, "in");
    std::string k = sym_bytes(kn, "key"), s = sym_bytes(sn, "salt"), i = sym_bytes(in, "info");
    std::unique_ptr<char[]> out(new char[n]);
    bool failed = throws([&] { hkdf(k.data(), kn, sn ? s.data() : nullptr, sn, i.data(), in, out.get(), n); });
    if (n > 255 * 32)
    {
        CHECK(failed, "output longer than 255 blocks accepted");
        sym_reach("toolong");
        return;
    }
    CHECK(!failed, "permitted length refused");
    std::string want = ref(k, s, i, n);
    CHECK(same(std::string(out.get(), n), want), "output differs from RFC 5869");
    sym_reach("hkdf");
}
// shorter request = prefix, for every pair of lengths
extern "C" void h_prefix()
{
    std::string k = sym_bytes(32, "key"), s = sym_bytes(4, "salt"), i = "info";
    size_t n = sym_choice(0, sym_param("n", 100), "n");
    std::string a(100, '\0'), b(n, '\0');
    hkdf(k.data(), 32, s.data(), 4, i.data(), 4, &a[0], 100);
    hkdf(k.data(), 32, s.data(), 4, i.data(), 4, &b[0], n);
    CHECK(same(a.substr(0, n), b), "shorter output is not a prefix of the longer one");
    sym_reach("prefix");
}
// different info, salt or key never give related output (in the ideal model: different output)
extern "C" void h_separate()
{
    std::string k = sym_bytes(16, "key"), s = sym_bytes(2, "salt"), i = sym_bytes(2, "info");
    std::string k2 = sym_bytes(16, "key2"), s2 = sym_bytes(2, "salt2"), i2 = sym_bytes(2, "info2");
    std::string a(32, '\0'), b(32, '\0');
    hkdf(k.data(), 16, s.data(), 2, i.data(), 2, &a[0], 32);
    hkdf(k2.data(), 16, s2.data(), 2, i2.data(), 2, &b[0], 32);
    bool eqin = same(k, k2) && same(s, s2) && same(i, i2);
    // HMAC pads keys with zeros: salts that differ in trailing zeros only are the same key
    CHECK(same(a, b) == eqin, "two different derivations collide");
    sym_reach("separate");
}
extern "C" void h_hmac()
{
    static const size_t N[] = {0, 1, 16, 31, 32};
    size_t n = pick(N, "maclen");
    std::string m = sym_bytes(3, "m"), k = sym_bytes(4, "k");
    std::string mac(n, '\0');
    hmac_sha256_calculate(m.data(), 3, k.data(), 4, &mac[0], n);
    CHECK(same(mac, hm(k, m).substr(0, n)), "HMAC");
    CHECK(hmac_sha256_verify(m.data(), 3, k.data(), 4, mac.data(), n), "own MAC rejected");
    if (n >= 4)
    {
        size_t p = sym_choice(0, n - 1, "pos");
        unsigned char d = sym_u8("delta");
        sym_assume(d != 0);
        mac[p] ^= d;
        CHECK(!hmac_sha256_verify(m.data(), 3, k.data(), 4, mac.data(), n), "wrong MAC accepted");
    }
    sym_reach("hmac");
}
