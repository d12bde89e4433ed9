#include "model.h"
#include "lite_stream.h"
#include "lite_format.h"
#include "crypto.h"
#include <cryptopp/modes.h>
using namespace model;
// Random generator: unique tokens, except that the first draws may come out all zero, or all zero but
// for one byte (a choice of the solver), as a true generator may.
static std::vector<std::string> g_draws;
static int g_weird;
static void rng(void* p, size_t n)
{
    symc::token(p, n);
    if (g_weird > 0)
    {
        --g_weird;
        unsigned k = sym_choice(0, 2, "rngzero");
        if (k)
        {
            memset(p, 0, n);
            if (k == 2 && n)
                ((unsigned char*)p)[n - 1] = (unsigned char)(0x40 + g_weird);
        }
    }
    g_draws.emplace_back((const char*)p, n);
}
static void check_ivs(size_t iv_size, size_t nonzero_from, const char*)
{
    auto& s = symc::st();
    std::vector<bool> used(g_draws.size(), false);
    for (size_t i = 0; i < s.gcm.size(); ++i)
    {
        auto& e = s.gcm[i];
        CHECK(e.iv.size() == iv_size, "IV length differs from the configured length");
        bool fresh = false;
        for (size_t j = 0; j < g_draws.size(); ++j)
            if (!used[j] && same(g_draws[j], e.iv))
            {
                used[j] = true;
                fresh = true;
                break;
            }
        CHECK(fresh, "IV is not a fresh full-length random draw of its own");
        if (e.pt.size() != nonzero_from)
            CHECK(!same(e.iv, std::string(iv_size, '\0')), "data block encrypted under an all zero IV");
    }
    CHECK(s.iv_reuse == 0, "IV reused");
}
static void history(StreamBase& s)
{
    unsigned bs = (unsigned)s.optimal_block_size();
    std::string c = sym_bytes(2 * bs + 3, "content");
    s.write(c.data(), 0, 2 * bs + 3);
    unsigned ops = sym_param("ops", 1);
    for (unsigned i = 0; i < ops; ++i)
    {
        unsigned op = sym_choice(0, 4, "op");
        if (op == 0)
            s.write(c.data(), 0, bs);    // rewrite the same plaintext
        else if (op == 1)
            s.write(c.data(), bs - 1, 3);
        else if (op == 2)
            s.resize(bs + 2);
        else if (op == 3)
            s.write(c.data(), 4 * bs + 1, 2);
        else
            s.resize(3 * bs + 1);
    }
    sym_reach("history");
}
extern "C" void h_lite()
{
    symc::st().rng = rng;
    auto m = std::make_shared<MemStream>();
    m->sparse = sym_fork_flag("sparse");
    key_type key = test_key();
    unsigned iv = sym_param("iv", 12);
    {
        lite::AESGCMCryptStream a(m, key, 32, iv, true);
        g_weird = 2;
        history(a);
    }
    check_ivs(iv, (size_t)-1, "lite");
    // the key of a file is made from its id
    bool fresh = false;
    for (auto& d : g_draws)
        fresh = fresh || (m->d.size() >= 16 && same(d, std::string(m->d.begin(), m->d.begin() + 16)));
    CHECK(fresh, "id of a new file is not a fresh random draw");
    // each block is stored as iv, ciphertext, mac of one encryption
    for (size_t p = 16; p < m->d.size(); p += 32 + iv + 16)
    {
        size_t n = std::min<size_t>(32 + iv + 16, m->d.size() - p);
        std::string st(m->d.begin() + p, m->d.begin() + p + n);
        bool found = same(st, std::string(n, '\0'));
        for (auto& e : symc::st().gcm)
            if (!found && e.iv.size() + e.ct.size() + 16 == n)
                found = same(st, e.iv + e.ct + e.mac);
        CHECK(found, "stored block is not iv, ciphertext and mac of an encryption");
    }
}
extern "C" void h_full()
{
    symc::st().rng = rng;
    auto d = std::make_shared<MemStream>(), m = std::make_shared<MemStream>();
    d->sparse = m->sparse = sym_fork_flag("sparse");
    id_type id;
    memset(id.data(), 3, id.size());
    unsigned iv = sym_param("iv", 12), bs = 4;
    std::string head = sym_bytes(7, "head");
    {
        auto p = make_cryptstream_aes_gcm(d, m, test_key(3), test_key(4), id, true, bs, iv, 7);
        p.second->write_header(head.data(), 7);
        g_weird = 2;
        history(*p.first);
        g_weird = 0;
        p.second->write_header(head.data(), 7);    // unchanged header: still a new IV
    }
    check_ivs(iv, 7, "full");
    CHECK(symc::st().encryptions >= 2, "header not encrypted");
}
extern "C" void h_xattr()
{
    symc::st().rng = rng;
    unsigned iv = sym_choice(12, 16, "iv");
    StrongType<key_type, tXattrMasterKey> k(test_key(9));
    lite_format::XattrCryptor x(k, StrongType<unsigned, tIvSize>(iv), StrongType<bool, tVerify>(true));
    std::string v = sym_bytes(5, "v");
    auto a = x.encrypt(v.data(), v.size()), b = x.encrypt(v.data(), v.size());
    CHECK(a.size() == 5 + iv + 16 && b.size() == a.size(), "stored xattr size");
    check_ivs(iv, (size_t)-1, "xattr");
    CHECK(!sym_eq(a.data(), b.data(), a.size()), "same value stored twice identically");
    sym_reach("xattr");
}
// Non-interference: two runs that differ only in the plaintext leave identical bytes in storage when the
// cipher's outputs are the same, i.e. plaintext reaches storage only through the cipher.
template <class F>
static std::string run(F&& f)
{
    symc::st() = symc::State();
    return f();
}
extern "C" void h_noleak()
{
    std::string c1 = sym_bytes(70, "c1"), c2 = sym_bytes(70, "c2"), h1 = sym_bytes(6, "h1"), h2 = sym_bytes(6, "h2");
    bool lite = sym_fork_flag("lite");
    static const size_t OFF[] = {0, 1, 15, 16, 33}, LEN[] = {1, 15, 16, 17, 40}, NEW[] = {0, 10, 16, 50, 90};
    size_t off = pick(OFF, "off"), len = pick(LEN, "len"), n = pick(NEW, "newsize");
    auto go = [&](const std::string& c, const std::string& h)
    {
        auto d = std::make_shared<MemStream>(), m = std::make_shared<MemStream>();
        std::shared_ptr<StreamBase> s;
        std::shared_ptr<HeaderBase> hb;
        if (lite)
            s = std::make_shared<lite::AESGCMCryptStream>(d, test_key(), 32, 12, true);
        else
        {
            id_type id;
            memset(id.data(), 3, id.size());
            auto p = make_cryptstream_aes_gcm(d, m, test_key(3), test_key(4), id, true, 16, 12, 6);
            s = p.first;
            hb = p.second;
            hb->write_header(h.data(), h.size());
        }
        s->write(c.data(), off, len);
        s->write(c.data() + len, off + 5, 7);
        s->resize(n);
        s->flush();
        s.reset();
        hb.reset();
        return std::string(d->d.begin(), d->d.end()) + "|" + std::string(m->d.begin(), m->d.end());
    };
    std::string r1 = run([&] { return go(c1, h1); }), r2 = run([&] { return go(c2, h2); });
    CHECK(same(r1, r2), "stored bytes depend on the plaintext other than through the cipher");
    sym_reach("noleak");
}

// one write of many blocks, and holes of many blocks
extern "C" void h_many()
{
    symc::st().rng = rng;
    bool lite = sym_fork_flag("lite");
    unsigned bs = lite ? 32 : 4;
    auto d = std::make_shared<MemStream>(), m = std::make_shared<MemStream>();
    d->sparse = m->sparse = sym_fork_flag("sparse");
    static const size_t N[] = {9, 17, 40};
    size_t n = pick(N, "blocks");
    std::string c(n * bs + 1, 'c');
    c[0] = (char)sym_u8("first");
    id_type id;
    memset(id.data(), 3, id.size());
    auto go = [&](StreamBase& s)
    {
        s.write(c.data(), 0, c.size());
        s.write(c.data(), 0, c.size());
        s.resize((n + 12) * bs + 1);
        s.write(c.data(), (n + 20) * bs + 1, 2);
    };
    if (lite)
    {
        lite::AESGCMCryptStream a(d, test_key(), 32, 16, true);
        go(a);
    }
    else
    {
        auto p = make_cryptstream_aes_gcm(d, m, test_key(3), test_key(4), id, true, bs, 16, 7);
        go(*p.first);
    }
    check_ivs(16, (size_t)-1, "many");
    CHECK(symc::st().gcm.size() >= 2 * n, "blocks not encrypted one by one");
    sym_reach("many");
}
