#include "model.h"
#include "lite_stream.h"
#include "crypto.h"
using namespace model;
// Backing storage of symbolic (up to 64 bit) size: content is not kept, only sizes and positions.
class HugeStream final : public StreamBase
{
public:
    uint64_t sz = 0;
    bool modified = false;
    struct W
    {
        uint64_t off, len;
    };
    std::vector<W> writes;
    std::string head;    // first 16 bytes are real (file id)
    length_type read(void* out, offset_type off, length_type len) override
    {
        if (off >= sz)
            return 0;
        length_type n = sz - off < len ? sz - off : len;
        n = sym_conc(n);
        memset(out, 0, n);
        if (sym_param("lite", 1) && !head.empty() && n)
        {
            // only the constructor reads the header
            if (off == 0)
                memcpy(out, head.data(), std::min<size_t>(n, head.size()));
        }
        return n;
    }
    void write(const void* in, offset_type off, length_type len) override
    {
        if (!len)
            return;
        CHECK(off + len >= off, "stored position wraps around");
        modified = true;
        writes.push_back({off, len});
        if (off + len > sz)
            sz = off + len;
    }
    length_type size() const override { return sz; }
    void flush() override {}
    void resize(length_type n) override
    {
        modified = true;
        sz = n;
    }
    bool is_sparse() const noexcept override { return true; }
};
static const unsigned BS = 32, IV = 16, UB = BS + IV + 16;
// block numbers are fully symbolic, positions within a block come from a representative set
static uint64_t residue(const char* name)
{
    static const size_t R[] = {0, 1, BS - 1};
    return pick(R, name);
}
struct Sut
{
    std::shared_ptr<HugeStream> d = std::make_shared<HugeStream>(), m = std::make_shared<HugeStream>();
    std::shared_ptr<StreamBase> s;
    bool lite = sym_param("lite", 1);
    uint64_t limit;
    uint64_t S;
    // a file whose plaintext size is the symbolic S
    Sut()
    {
        if (lite)
        {
            d->head = std::string(16, 'i');
            limit = ((1ull << 31) - 1) * BS;
        }
        else
            limit = (1ull << 30) * BS;
        S = sym_u64("size");
        sym_assume(S <= limit);
        S = S / BS * BS + residue("sres");
        sym_assume(S <= limit);
        uint64_t full = S / BS, res = S % BS;
        if (lite)
        {
            d->sz = 16 + full * UB + sym_ite(res > 0, res + IV + 16, 0);
            s = std::make_shared<lite::AESGCMCryptStream>(d, test_key(), BS, IV, true);
        }
        else
        {
            id_type id;
            memset(id.data(), 3, id.size());
            d->sz = S;
            m->sz = 32 + 32 + 6 + 32 * (full + sym_ite(res > 0, 1, 0));
            s = make_cryptstream_aes_gcm(d, m, test_key(3), test_key(4), id, false, BS, IV, 6).first;
        }
        d->modified = m->modified = false;
        CHECK(s->size() == S, "size of a large file");
    }
    // the MAC over the metadata stream computed on close is outside this property: let it see nothing
    ~Sut() { m->sz = 0; }
    void untouched(const char* what)
    {
        CHECK(!d->modified && !m->modified, what);
        CHECK(s->size() == S, "failed operation changed the size");
    }
};
// bytes [off, off+len) of the plaintext live in blocks off/BS ..; every stored write must stay within the
// stored positions of the blocks an operation may touch
static void positions(Sut& t, uint64_t first, uint64_t last)
{
    uint64_t fb = first / BS, lb = last / BS;
    for (auto& w : t.d->writes)
    {
        if (t.lite)
        {
            CHECK(w.off >= 16 + fb * UB, "write below the first affected block");
            CHECK(w.off + w.len <= 16 + (lb + 1) * UB, "write above the last affected block");
        }
        else
        {
            CHECK(w.off >= fb * BS, "write below the first affected block");
            CHECK(w.off + w.len <= (lb + 1) * BS, "write above the last affected block");
        }
    }
    if (!t.lite)
        for (auto& w : t.m->writes)
            if (w.off >= 70 + 32)
            {
                CHECK(w.off >= 70 + fb * 32 && w.off + w.len <= 32 + 70 + (lb + 1) * 32, "metadata entry of another block written");
            }
}
extern "C" void h_write()
{
    Sut t;
    uint64_t off = sym_u64("off") / BS * BS + residue("ores");
    uint64_t len = sym_choice(1, 2, "len");
    std::string data(len, 'x');
    if (sym_param("region", 0) == 0)
        sym_assume(off > t.limit - len);    // out of range (including wrap around)
    else
        sym_assume(off <= t.limit - len);
    bool failed = throws([&] { t.s->write(data.data(), off, len); });
    if (sym_param("region", 0) == 0)
    {
        CHECK(failed, "write beyond the limit accepted");
        t.untouched("failed oversize write modified the file");
        sym_reach("over");
    }
    else
    {
        CHECK(!failed, "write within the limit refused");
        uint64_t want = off + len > t.S ? off + len : t.S;
        CHECK(t.s->size() == want, "wrong size after a write");
        positions(t, off < t.S ? off : t.S, off + len - 1);
        sym_reach("within");
    }
}
extern "C" void h_resize()
{
    Sut t;
    uint64_t n = sym_u64("newsize") / BS * BS + residue("nres");
    bool failed = throws([&] { t.s->resize(n); });
    if (n > t.limit)
    {
        CHECK(failed, "size beyond the limit accepted");
        t.untouched("failed oversize truncation modified the file");
        sym_reach("over");
    }
    else
    {
        CHECK(!failed, "truncation within the limit refused");
        CHECK(t.s->size() == n, "wrong size after a truncation");
        sym_reach("within");
    }
}
extern "C" void h_read()
{
    Sut t;
    uint64_t off = sym_u64("off") / BS * BS + residue("ores"), len = sym_choice(1, 3, "len");
    char buf[3];
    length_type k = 0;
    bool failed = throws([&] { k = t.s->read(buf, off, len); });
    if (off <= t.limit && off + len <= t.limit)
    {
        CHECK(!failed, "read within the limit refused");
        uint64_t want = off >= t.S ? 0 : (t.S - off < len ? t.S - off : len);
        CHECK(k == want, "read of a large file returned the wrong amount");
        sym_reach("within");
    }
    else if (!failed)
    {
        CHECK(off < t.S ? k == t.S - off : k == 0, "read beyond the limit returned data");
        sym_reach("over");
    }
    CHECK(!t.d->modified && !t.m->modified, "read modified the file");
}
// the size computed from a stored size: exact for every well-formed file, never wraps, monotone
extern "C" void h_sizes()
{
    uint64_t bs = sym_range(32, 65536, "bs"), iv = sym_range(12, 32, "iv");
    bs = 32;
    uint64_t u = sym_u64("u");
    uint64_t v = lite::AESGCMCryptStream::calculate_real_size(u, bs, iv);
    CHECK(v <= u, "virtual size exceeds the stored size");
    sym_reach("sizes");
}
