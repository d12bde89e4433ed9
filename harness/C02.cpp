#include "far.h"
#include "lite_stream.h"
#include <cryptopp/modes.h>
using namespace model;
using lite::AESGCMCryptStream;
static const size_t EDGE[] = {0, 1, 31, 32, 33, 63, 64, 65};
static const size_t EDGE_LEN[] = {0, 1, 2, 31, 32, 33, 64, 66};
static const size_t EDGE_OFF[] = {0, 1, 31, 32, 33, 64, 65, 97};
static const size_t FEW[] = {0, 5, 32, 69};
struct Setup
{
    std::shared_ptr<MemStream> m = std::make_shared<MemStream>();
    key_type key = test_key();
    unsigned bs, iv, maxpad;
    CryptoPP::ECB_Mode<CryptoPP::AES>::Encryption pad_aes;
    Setup() : bs(sym_param("bs", 32)), iv(sym_param("iv", 12)), maxpad(sym_param("pad", 0))
    {
        auto pk = test_key(99);
        pad_aes.SetKey(pk.data(), 32);
        m->sparse = sym_fork_flag("sparse");
    }
    std::unique_ptr<AESGCMCryptStream> open()
    {
        return std::make_unique<AESGCMCryptStream>(m, key, bs, iv, true, maxpad, &pad_aes);
    }
};
static void compare(Setup& s, AESGCMCryptStream& a, Ref& ref, const char* what)
{
    CHECK(a.size() == ref.d.size(), "reported size is not the plaintext size");
    if (!s.maxpad)
        CHECK(AESGCMCryptStream::calculate_real_size(s.m->d.size(), s.bs, s.iv) == ref.d.size(),
              "size computed from the stored size is not the plaintext size");
    CHECK(same(read_all(a), ref.d), what);
}
extern "C" void h_op()
{
    Setup s;
    unsigned mode = sym_param("mode", 0);
    Ref ref;
    auto a = s.open();
    // arbitrary reachable state: contiguous data, or a gap followed by data in a file with holes
    size_t S = mode >= 5 ? pick(FEW, "size") : mode == 0 ? sym_choice(0, 2 * s.bs + 2, "size") : pick(EDGE, "size");
    if (sym_param("holes", 0))
    {
        a->resize(S);
        ref.resize(S);
        size_t p = mode >= 5 ? pick(FEW, "hole") : pick(EDGE_OFF, "hole");
        std::string c = sym_bytes(5, "content");
        a->write(c.data(), p, c.size());
        ref.write(c, p);
    }
    else
    {
        std::string c = sym_bytes(S, "content");
        a->write(c.data(), 0, S);
        ref.write(c, 0);
    }
    if (mode == 0 || mode == 4 || mode == 6)
    {
        size_t n = mode == 6 ? pick(EDGE_OFF, "newsize") : sym_choice(0, 3 * s.bs + 1, "newsize");
        a->resize(n);
        ref.resize(n);
        sym_reach("resize");
    }
    else
    {
        size_t off = mode == 1 ? sym_choice(0, 3 * s.bs + 1, "off") : mode == 5 ? pick(FEW, "off") : pick(EDGE_OFF, "off");
        size_t len = mode == 2 ? sym_choice(0, 2 * s.bs + 2, "len") : pick(EDGE_LEN, "len");
        if (mode == 3)
        {
            // partial read
            std::unique_ptr<char[]> buf(new char[len]);
            length_type k = a->read(buf.get(), off, len);
            CHECK(same(std::string(buf.get(), k), ref.read(off, len)), "partial read");
            sym_reach("read");
            return;
        }
        std::string data = sym_bytes(len, "data");
        a->write(data.data(), off, len);
        ref.write(data, off);
        sym_reach("write");
    }
    compare(s, *a, ref, "content after the operation");
    a->flush();
    a.reset();
    a = s.open();
    compare(s, *a, ref, "content after reopening");
}

// a block anywhere in a large file
extern "C" void h_far()
{
    unsigned bs = 32, iv = 12, ub = bs + iv + 16;
    auto m = std::make_shared<FarStream>();
    auto open = [&] { return std::make_unique<AESGCMCryptStream>(m, test_key(), bs, iv, true, 0, nullptr); };
    auto a = open();
    uint64_t K = sym_u64("block");
    uint64_t max = (1ull << 31) - 4;
    sym_assume(K >= 1 && K <= max);
    m->sz = 16 + (max + 2) * ub;
    static const size_t R[] = {0, 1, 31};
    size_t r = pick(R, "within"), n = sym_choice(1, 3, "length");
    std::string v = sym_bytes(n, "v");
    a->write(v.data(), K * bs + r, n);
    for (int i = 0; i < 2; ++i)
    {
        std::string b(bs * 2, '\x5c'), want(bs * 2, '\0');
        want.replace(r, n, v);
        CHECK(a->read(&b[0], K * bs, bs * 2) == bs * 2, "distant block not readable");
        CHECK(same(b, want), "distant block differs");
        CHECK(a->size() == (max + 2) * bs, "size");
        a = open();
    }
    sym_reach("far");
}
// the default block size and lengths of several blocks and more than 64 KiB
extern "C" void h_big()
{
    Setup s;
    s.bs = 4096;
    static const unsigned IV[] = {12, 16, 32};
    s.iv = pick(IV, "iv");
    auto a = s.open();
    static const size_t N[] = {1, 4096, 5000, 8192, 65535, 65536, 70000}, O[] = {0, 1, 4095, 4096, 66000};
    size_t n = pick(N, "length"), off = pick(O, "offset");
    std::string v(n, 0);
    for (size_t i = 0; i < n; ++i)
        v[i] = (char)(i * 7 + i / 256 + 1);
    v[0] = (char)sym_u8("first");
    v[n - 1] = (char)sym_u8("last");
    Ref ref;
    a->write(v.data(), off, n);
    ref.write(v, off);
    if (sym_fork_flag("cut"))
    {
        size_t k = pick(O, "cut");
        a->resize(k);
        ref.resize(k);
    }
    compare(s, *a, ref, "content of a large write");
    a = s.open();
    compare(s, *a, ref, "content of a large write after reopening");
    sym_reach("big");
}
