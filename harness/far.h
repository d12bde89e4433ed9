// Backing storage of up to 2^63 bytes which keeps what is written at symbolic positions; the rest is a hole.
#pragma once
#include "model.h"
namespace model
{
class FarStream final : public StreamBase
{
public:
    uint64_t sz = 0;
    struct Chunk
    {
        uint64_t off;
        std::string d;
    };
    std::vector<Chunk> chunks;
    length_type read(void* out, offset_type off, length_type len) override
    {
        if (off >= sz)
            return 0;
        length_type n = sz - off < len ? sz - off : len;
        n = sym_conc(n);
        memset(out, 0, n);
        for (auto& c : chunks)
            if (off < c.off + c.d.size() && c.off < off + n)
            {
                int64_t k = (int64_t)sym_conc(c.off - off);    // where it begins in what is read
                for (size_t i = 0; i < c.d.size(); ++i)
                    if (k + (int64_t)i >= 0 && k + (int64_t)i < (int64_t)n)
                        ((char*)out)[k + i] = c.d[i];
            }
        return n;
    }
    void write(const void* in, offset_type off, length_type len) override
    {
        if (!len)
            return;
        chunks.push_back({off, std::string((const char*)in, len)});
        if (off + len > sz)
            sz = off + len;
    }
    length_type size() const override { return sz; }
    void flush() override {}
    void resize(length_type n) override
    {
        sz = n;
        for (auto& c : chunks)    // what is cut off does not come back
            if (c.off + c.d.size() > n)
                c.d.resize(n > c.off ? sym_conc(n - c.off) : 0);
    }
    bool is_sparse() const noexcept override { return true; }
};
}    // namespace model
