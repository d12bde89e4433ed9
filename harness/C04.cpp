#include "far.h"
#include "lite_stream.h"
#include <cryptopp/modes.h>
using namespace model;
using lite::AESGCMCryptStream;
struct Lite
{
    std::shared_ptr<MemStream> m = std::make_shared<MemStream>();
    key_type key = test_key();
    unsigned bs = sym_param("bs", 32), iv = sym_param("iv", 12), maxpad = sym_param("pad", 0);
    CryptoPP::ECB_Mode<CryptoPP::AES>::Encryption pad_aes;
    std::string content;
    Lite()
    {
        auto pk = test_key(99);
        pad_aes.SetKey(pk.data(), 32);
    }
    std::unique_ptr<AESGCMCryptStream> open(bool check = true)
    {
        return std::make_unique<AESGCMCryptStream>(m, key, bs, iv, check, maxpad, &pad_aes);
    }
    void build(size_t n, const char* name)
    {
        content = sym_bytes(n, name);
        auto a = open();
        a->write(content.data(), 0, n);
    }
    size_t head()
    {
        return open()->get_header_size();
    }
    size_t ub() { return bs + iv + 16; }
};
static std::unique_ptr<AESGCMCryptStream> try_open(Lite& f)
{
    try
    {
        return f.open();
    }
    catch (const std::exception&)
    {
        return nullptr;
    }
}
// Every block read separately: an error, or bytes genuinely written at that place, or a whole-block hole
static void judge(Lite& f, const std::string& old, const char* what)
{
    auto a = try_open(f);
    if (!a)
    {
        sym_reach("openfail");
        return;
    }
    size_t n = (size_t)a->size();
    CHECK(n <= f.m->d.size(), "size larger than the stored data");
    for (size_t b = 0; b * f.bs < n + 1 && b < 5; ++b)
    {
        std::string buf(f.bs, '\x11');
        length_type k = 0;
        if (throws([&] { k = a->read(&buf[0], b * f.bs, f.bs); }))
        {
            sym_reach("rejected");
            continue;
        }
        CHECK(k <= f.bs, "too many bytes");
        buf.resize(k);
        if (k == 0)
            continue;
        std::string gen = Ref{f.content}.read(b * f.bs, k), gold = Ref{old}.read(b * f.bs, k);
        size_t lo = a->get_header_size() + b * f.ub(), hi = std::min<size_t>(lo + f.ub(), f.m->d.size());
        std::string stored(f.m->d.begin() + lo, f.m->d.begin() + hi);
        bool zero = same(buf, std::string(k, '\0')) && same(stored, std::string(stored.size(), '\0'));
        bool ok = zero || (gen.size() == k && same(buf, gen)) || (gold.size() == k && same(buf, gold));
        CHECK(ok, what);
        sym_reach("accepted");
    }
}
// any bytes anywhere over one stored block replaced
extern "C" void h_block()
{
    Lite f;
    size_t n = sym_choice(0, 2, "size");
    static const size_t N[] = {20, 64, 70};
    n = N[n];
    f.build(n, "content");
    size_t b = sym_choice(0, (n - 1) / f.bs, "block");
    size_t lo = f.head() + b * f.ub(), hi = std::min<size_t>(lo + f.ub(), f.m->d.size());
    std::string x = sym_bytes(hi - lo, "x");
    memcpy(f.m->d.data() + lo, x.data(), x.size());
    judge(f, "", "arbitrary stored block produced forged plaintext");
}
// header (id and padding) replaced by arbitrary bytes
extern "C" void h_header()
{
    Lite f;
    f.build(40, "content");
    size_t h = f.head();
    size_t p = sym_choice(0, h - 1, "pos"), w = sym_choice(1, 2, "width");
    std::string x = sym_bytes(w, "x");
    std::string orig(f.m->d.begin(), f.m->d.end());
    for (size_t i = 0; i < w && p + i < h; ++i)
        f.m->d[p + i] = (unsigned char)x[i];
    bool changed = !same(orig, std::string(f.m->d.begin(), f.m->d.end()));
    auto a = try_open(f);
    if (!a)
        return;
    std::string buf(40, '\0');
    bool failed = throws([&] { a->read(&buf[0], 0, 40); });
    if (changed)
    {
        // without padding the key changes, with padding the authenticated data changes
        CHECK(failed, "file with an altered header was readable");
        sym_reach("changed");
    }
    else
    {
        CHECK(!failed && same(buf, f.content), "unchanged header");
        sym_reach("unchanged");
    }
}
// truncation at any length and extension by any bytes
extern "C" void h_length()
{
    Lite f;
    f.build(40, "content");
    size_t s = f.m->d.size();
    if (sym_fork_flag("extend"))
    {
        size_t k = sym_choice(1, sym_param("ext", 70), "extra");
        std::string x = sym_bytes(k, "x");
        for (char c : x)
            f.m->d.push_back((unsigned char)c);
        sym_reach("extend");
    }
    else
    {
        f.m->d.resize(sym_choice(0, s - 1, "trunc"));
        if (f.m->d.empty())
            return;    // an empty file is a new file
        sym_reach("trunc");
    }
    judge(f, "", "file of altered length produced forged plaintext");
}
// blocks moved within a file, copied between files, and old versions kept by the attacker
extern "C" void h_splice()
{
    Lite f, g;
    f.build(3 * f.bs, "content");
    std::string old = f.content;
    auto oldimage = f.m->d;
    f.content = sym_bytes(3 * f.bs, "content2");
    f.open()->write(f.content.data(), 0, f.content.size());
    g.build(3 * g.bs, "other");
    size_t hf = f.head(), hg = g.head();
    // every stored block of f is chosen from: itself, its old version, any block of f, its old version or of g
    for (size_t b = 0; b < 3; ++b)
    {
        size_t src = sym_choice(0, 9, "src");
        const unsigned char* p;
        static std::vector<unsigned char> cur;
        if (b == 0)
            cur = f.m->d;
        if (src < 3)
            p = cur.data() + hf + src * f.ub();
        else if (src < 6)
            p = oldimage.data() + hf + (src - 3) * f.ub();
        else if (src < 9)
            p = g.m->d.data() + hg + (src - 6) * f.ub();
        else
            p = nullptr;
        if (p)
            memcpy(f.m->d.data() + hf + b * f.ub(), p, f.ub());
        else
            memset(f.m->d.data() + hf + b * f.ub(), 0, f.ub());
    }
    judge(f, old, "moved block accepted at another position");
}

// a block moved to any other position of a large file
extern "C" void h_far()
{
    unsigned bs = 32, iv = 12, ub = bs + iv + 16;
    auto m = std::make_shared<FarStream>();
    auto open = [&] { return std::make_unique<AESGCMCryptStream>(m, test_key(), bs, iv, true, 0, nullptr); };
    auto a = open();
    uint64_t K = sym_u64("block"), L = sym_u64("other");
    uint64_t max = (1ull << 31) - 4;
    sym_assume(K <= max && L <= max && L != K);
    m->sz = 16 + (max + 2) * ub;
    std::string v = sym_bytes(2, "v");
    a->write(v.data(), K * bs, 2);
    auto& c = m->chunks.back();
    CHECK(c.off == 16 + K * ub && c.d.size() >= 12 + 2 + 16, "stored position of a block");
    c.off = 16 + L * ub;
    if (sym_fork_flag("reopened"))
        a = open();
    std::string b(bs, '\x5c');
    CHECK(throws([&] { a->read(&b[0], L * bs, bs); }), "block moved to another position accepted");
    sym_reach("far");
}

// many blocks read at once, any of them altered
extern "C" void h_many()
{
    Lite f;
    const size_t N = 40;
    f.content.assign(N * f.bs, 0);
    for (size_t i = 0; i < f.content.size(); ++i)
        f.content[i] = (char)(i * 3 + i / 256);
    f.open()->write(f.content.data(), 0, f.content.size());
    static const size_t B[] = {0, 1, 7, 8, 9, 15, 16, 17, 31, 32, 33, 39}, P[] = {0, 11, 12, 13, 43, 44, 59};
    size_t b = pick(B, "block"), at = f.head() + b * f.ub() + pick(P, "at");
    unsigned char x = sym_u8("x");
    bool same_ = x == f.m->d[at];
    f.m->d[at] = x;
    auto a = f.open();
    static const size_t S[] = {0, 5, 16}, L[] = {40, 24, 33};
    size_t s = pick(S, "from"), e = s + pick(L, "blocks");
    if (e > N)
        e = N;
    std::string buf((e - s) * f.bs, '\x11');
    length_type k = 0;
    bool failed = throws([&] { k = a->read(&buf[0], s * f.bs, buf.size()); });
    if (same_ || b < s || b >= e)
        CHECK(!failed && k == buf.size() && same(buf, f.content.substr(s * f.bs, buf.size())), "intact blocks not readable");
    else
        CHECK(failed, "altered block read together with others");
    sym_reach(failed ? "rejected" : "accepted");
}
