#include "far.h"
using namespace model;
// Backing storage for BlockBasedStream with exactly the contract the class documents: on a sparse
// backing an extension produces zeros from the next block boundary on (the tail of the current last
// block is NOT guaranteed); on a dense backing an extension produces garbage.
class Blocks final : public BlockBasedStream
{
public:
    std::vector<unsigned char> d;
    bool sparse;
    Blocks(length_type bs, bool sp) : BlockBasedStream(bs), sparse(sp) {}
    length_type size() const override { return d.size(); }
    void flush() override {}
    bool is_sparse() const noexcept override { return sparse; }
    length_type read_multi_blocks(offset_type s, offset_type e, void* out) override
    {
        CHECK(s <= e, "read_multi_blocks: start beyond end");
        offset_type a = s * m_block_size, b = e * m_block_size;
        if (a >= d.size())
            return 0;
        length_type n = std::min<length_type>(b, d.size()) - a;
        memcpy(out, d.data() + a, n);
        return n;
    }
    void write_multi_blocks(offset_type s, offset_type e, offset_type r, const void* in) override
    {
        CHECK(s <= e && r <= m_block_size, "write_multi_blocks: bad range");
        length_type a = s * m_block_size, n = (e - s) * m_block_size + r;
        if (!n)
            return;
        CHECK(a <= d.size() || sparse, "write leaves a hole in a dense stream");
        if (a + n > d.size())
            grow(a + n);
        memcpy(d.data() + a, in, n);
    }
    void grow(length_type n)
    {
        size_t old = d.size();
        size_t up = (old + m_block_size - 1) / m_block_size * m_block_size;
        d.resize(n, 0);
        for (size_t i = old; i < n; ++i)
            d[i] = (sparse && i >= up) ? 0 : 0xEE;
    }
    void adjust_logical_size(length_type n) override
    {
        if (n > d.size())
            grow(n);
        else
            d.resize(n);
    }
};
// One operation from an arbitrary state (any size, any content): inductive, so it covers histories of
// every length.
extern "C" void h_step()
{
    unsigned bs = sym_param("bs", 4);
    unsigned maxs = sym_param("maxs", 2 * bs + 1);
    unsigned maxo = sym_param("maxo", 3 * bs);
    unsigned maxl = sym_param("maxl", 2 * bs + 1);
    bool sparse = sym_fork_flag("sparse");
    Blocks b(bs, sparse);
    size_t S = sym_choice(0, maxs, "size");
    std::string c = sym_bytes(S, "content");
    b.d.assign(c.begin(), c.end());
    Ref ref{c};
    unsigned op = sym_choice(0, 1, "op");
    if (op == 0)
    {
        size_t off = sym_choice(0, maxo, "off"), len = sym_choice(0, maxl, "len");
        std::string data = sym_bytes(len, "data");
        std::string copy = data;
        b.write(data.data(), off, len);
        ref.write(data, off);
        CHECK(same(data, copy), "write modified the caller's buffer");
        sym_reach("write");
    }
    else
    {
        size_t n = sym_choice(0, maxo, "newsize");
        b.resize(n);
        ref.resize(n);
        sym_reach("resize");
    }
    CHECK(b.size() == ref.d.size(), "size differs from byte array");
    CHECK(same(std::string(b.d.begin(), b.d.end()), ref.d), "content differs from byte array");
}
// read at any offset/length from any state: exact result, no byte written beyond the result
extern "C" void h_read()
{
    unsigned bs = sym_param("bs", 4);
    Blocks b(bs, true);
    size_t S = sym_choice(0, 2 * bs + 1, "size");
    std::string c = sym_bytes(S, "content");
    b.d.assign(c.begin(), c.end());
    size_t off = sym_choice(0, 3 * bs, "off"), len = sym_choice(0, 3 * bs + 1, "len");
    // the buffer is exactly as large as requested: any overrun is a memory error
    std::unique_ptr<char[]> buf(new char[len]);
    memset(buf.get(), 0x55, len);
    length_type k = b.read(buf.get(), off, len);
    std::string want = Ref{c}.read(off, len);
    CHECK(k == want.size(), "read returned the wrong length");
    CHECK(same(std::string(buf.get(), k), want), "read returned the wrong bytes");
    sym_reach("read");
}
// PaddedStream: a byte array shifted by the padding
extern "C" void h_padded()
{
    auto m = std::make_shared<MemStream>();
    unsigned pad = sym_choice(0, 3, "pad");
    PaddedStream p(m, pad);
    Ref ref;
    for (int i = 0; i < (int)sym_param("ops", 2); ++i)
    {
        if (sym_fork_flag("op"))
        {
            size_t off = sym_choice(0, 4, "off"), len = sym_choice(0, 3, "len");
            std::string data = sym_bytes(len, "data");
            p.write(data.data(), off, len);
            ref.write(data, off);
        }
        else
        {
            size_t n = sym_choice(0, 5, "newsize");
            p.resize(n);
            ref.resize(n);
        }
        CHECK(p.size() == ref.d.size(), "padded stream size");
        size_t off = sym_choice(0, 3, "roff");
        char buf[8];
        length_type k = p.read(buf, off, 6);
        CHECK(same(std::string(buf, k), ref.read(off, 6)), "padded stream content");
    }
    sym_reach("padded");
}
// WriteCachedStream: any history of writes, reads, resizes and flushes
extern "C" void h_cached()
{
    auto m = std::make_shared<MemStream>();
    unsigned ops = sym_param("ops", 3);
    Ref ref;
    {
        WriteCachedStream s(m, sym_choice(1, 3, "cache"));
        for (unsigned i = 0; i < ops; ++i)
        {
            unsigned op = sym_choice(0, 3, "op");
            if (op == 0)
            {
                size_t off = sym_choice(0, 3, "off"), len = sym_choice(1, 3, "len");
                std::string data = sym_bytes(len, "data");
                s.write(data.data(), off, len);
                ref.write(data, off);
            }
            else if (op == 1)
            {
                size_t n = sym_choice(0, 4, "newsize");
                s.resize(n);
                ref.resize(n);
            }
            else if (op == 2)
            {
                s.flush();
                CHECK(same(std::string(m->d.begin(), m->d.end()), ref.d), "flush did not write everything");
            }
            else
            {
                size_t off = sym_choice(0, 3, "roff"), len = sym_choice(1, 4, "rlen");
                std::unique_ptr<char[]> buf(new char[len]);
                length_type k = s.read(buf.get(), off, len);
                CHECK(same(std::string(buf.get(), k), ref.read(off, len)), "cached stream read");
            }
            CHECK(s.size() == ref.d.size(), "cached stream size");
        }
    }
    CHECK(same(std::string(m->d.begin(), m->d.end()), ref.d), "destruction lost cached data");
    sym_reach("cached");
}

// the same at any distance
class FarBlocks final : public BlockBasedStream
{
public:
    FarStream f;
    FarBlocks(length_type bs) : BlockBasedStream(bs) {}
    length_type size() const override { return f.sz; }
    void flush() override {}
    bool is_sparse() const noexcept override { return true; }
    length_type read_multi_blocks(offset_type s, offset_type e, void* out) override
    {
        CHECK(s <= e, "read_multi_blocks: start beyond end");
        return f.read(out, s * m_block_size, sym_conc(e - s) * m_block_size);
    }
    void write_multi_blocks(offset_type s, offset_type e, offset_type r, const void* in) override
    {
        CHECK(s <= e && r <= m_block_size, "write_multi_blocks: bad range");
        f.write(in, s * m_block_size, sym_conc(e - s) * m_block_size + sym_conc(r));
    }
    void adjust_logical_size(length_type n) override { f.resize(n); }
};
template <class S>
static void far(S& s, uint64_t max)
{
    uint64_t a = sym_u64("at"), end = 0;
    sym_assume(a >= 1 && a < max / 4);
    uint64_t at = a * 4 + (sym_fork_flag("end of a block") ? 3 : 1);
    if (sym_fork_flag("large"))
        end = max + 8;
    else if (sym_fork_flag("hole"))
        end = 3;
    s.resize(end);
    CHECK(s.size() == end, "size");
    std::string v = sym_bytes(2, "v");
    s.write(v.data(), at, 2);
    CHECK(s.size() == (at + 2 > end ? at + 2 : end), "size after a write");
    char b[4];
    size_t want = at + 4 <= s.size() ? 4 : at + 3 <= s.size() ? 3 : 2;
    memset(b, 0x5c, 4);
    CHECK(s.read(b, at, 4) == want, "length of a read");
    CHECK(same(std::string(b, want), (v + std::string(2, '\0')).substr(0, want)), "content of a read");
    uint64_t other = sym_u64("other");
    sym_assume(other < s.size() && (other < at || other > at + 1));
    b[0] = 0x5c;
    CHECK(s.read(b, other, 1) == 1 && b[0] == 0, "other content changed");
    s.resize(at + 1);
    CHECK(s.size() == at + 1 && s.read(b, at + 1, 1) == 0 && s.read(b, at, 2) == 1 && b[0] == v[0], "truncation");
}
extern "C" void h_far()
{
    if (sym_fork_flag("padded"))
    {
        static const unsigned P[] = {0, 3, 1000};
        auto m = std::make_shared<FarStream>();
        PaddedStream p(m, pick(P, "padding"));
        m->chunks.clear();
        far(p, 1ull << 61);
        sym_reach("padded");
        return;
    }
    FarBlocks s(4);
    far(s, 1ull << 61);
    sym_reach("blocks");
}
