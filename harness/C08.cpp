#include "model.h"
#include "lite_stream.h"
#include "lite_format.h"
#include "crypto.h"
#include <cryptopp/modes.h>
using namespace model;
// the block cipher output is arbitrary: every padding amount the formula can produce is covered
extern "C" void h_compute()
{
    symc::st().symbolic = symc::st().abstract_mod = true;
    static const unsigned MAXP[] = {1, 2, 5, 15, 255, 4096, 65536, 1u << 30};
    unsigned maxp = MAXP[sym_choice(0, 7, "maxp")];
    auto k = test_key();
    CryptoPP::ECB_Mode<CryptoPP::AES>::Encryption e1(k.data(), 32), e2(k.data(), 32);
    std::string id = sym_bytes(16, "id");
    unsigned p = lite::default_compute_padding(maxp, e1, (const byte*)id.data(), 16);
    CHECK(p <= maxp, "padding larger than configured");
    unsigned q = lite::default_compute_padding(maxp, e2, (const byte*)id.data(), 16);
    CHECK(p == q, "padding is not a function of key and identity");
    CHECK(lite::default_compute_padding(0, e1, (const byte*)id.data(), 16) == 0, "padding although disabled");
    sym_reach("compute");
}
static std::shared_ptr<lite_format::StreamOpener> opener(unsigned maxp, unsigned iv, unsigned bs = 32)
{
    return std::make_shared<lite_format::StreamOpener>(StrongType<key_type, tContentMasterKey>(test_key(1)),
                                                       StrongType<key_type, tPaddingMasterKey>(test_key(90)),
                                                       StrongType<unsigned, tBlockSize>(bs),
                                                       StrongType<unsigned, tIvSize>(iv),
                                                       StrongType<unsigned, tMaxPaddingSize>(maxp),
                                                       StrongType<bool, tVerify>(true));
}
extern "C" void h_stable()
{
    unsigned maxp = sym_choice(0, sym_param("maxp", 6), "maxp"), iv = sym_param("iv", 12);
    auto o = opener(maxp, iv);
    auto m = std::make_shared<MemStream>();
    Ref ref;
    // only the padding cipher is symbolic, so that all remainders occur
    symc::st().abstract_mod = true;
    unsigned pad;
    {
        auto a = o->open(m);
        pad = sym_conc(a->get_padding_size());
        CHECK(pad <= maxp, "padding larger than configured");
        CHECK(a->size() == 0, "size of a new padded file");
        CHECK(m->d.size() == 16 + pad, "stored size of a new padded file");
        static const size_t SZ[] = {0, 1, 31, 32, 40, 64};
        size_t n = pick(SZ, "size");
        std::string c = sym_bytes(n, "content");
        a->write(c.data(), 0, n);
        ref.write(c, 0);
        if (sym_fork_flag("resize"))
        {
            size_t k = sym_choice(0, 3, "to") * 16;
            a->resize(k);
            ref.resize(k);
        }
        CHECK(a->size() == ref.d.size(), "padding visible in the size");
        CHECK(same(read_all(*a), ref.d), "padding visible in the content");
        // the stored size is exactly header, padding and the encrypted blocks
        size_t full = ref.d.size() / 32, res = ref.d.size() % 32;
        CHECK(m->d.size() == 16 + pad + full * (32 + iv + 16) + (res ? res + iv + 16 : 0), "stored size");
        if (!maxp)
        {
            CHECK(o->can_compute_virtual_size(), "size should be computable without opening");
            CHECK(o->compute_virtual_size(m->d.size()) == ref.d.size(), "size computed without opening");
        }
        else
            CHECK(!o->can_compute_virtual_size(), "padded size cannot be computed without opening");
    }
    // another instance with the same configuration
    auto o2 = opener(maxp, iv);
    auto b = o2->open(m);
    CHECK(b->get_padding_size() == pad, "padding changed on reopening");
    CHECK(b->size() == ref.d.size(), "size changed on reopening");
    CHECK(same(read_all(*b), ref.d), "content changed on reopening");
    std::string img(m->d.begin(), m->d.end());
    b.reset();
    CHECK(same(img, std::string(m->d.begin(), m->d.end())), "opening and reading changed the stored file");
    sym_reach(pad == 0 ? "nopad" : "pad");
    if (pad == maxp && maxp > 1)
        sym_reach("maxpad");
}
// a file cut within its header or padding is refused (or, when empty, new), never misread
extern "C" void h_cut()
{
    auto o = opener(8, 12);
    auto m = std::make_shared<MemStream>();
    size_t n = sym_choice(0, 30, "n");
    std::string c = sym_bytes(n, "bytes");
    m->d.assign(c.begin(), c.end());
    symc::st().abstract_mod = true;
    std::unique_ptr<lite::AESGCMCryptStream> a;
    bool failed = throws([&] { a = o->open(m); });
    if (n == 0)
        CHECK(!failed, "empty file not accepted as new");
    else if (n < 16)
        CHECK(failed, "incomplete file id accepted");
    else if (!failed)
    {
        CHECK(a->get_header_size() <= n, "file shorter than its padding accepted");
        sym_reach("ok");
        std::string out = read_all(*a);
        CHECK(out.size() == a->size(), "size and content disagree");
    }
}
