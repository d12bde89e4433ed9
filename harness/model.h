// In-memory streams used as backing storage, and small helpers.
#pragma once
#include "platform.h"
#include "streams.h"
#include "sym.h"
#include "crypto_stub.h"
#include <memory>
#include <string>
#include <vector>
namespace model
{
using namespace securefs;
// A plain growable byte array, as an underlying file.
class MemStream : public StreamBase
{
public:
    std::vector<unsigned char> d;
    bool sparse = true;
    length_type limit = 1 << 22;
    int writes = 0, reads = 0, resizes = 0, flushes = 0;
    long fail_after = -1;    // number of modifying operations that still succeed, -1: never fail
    void may_fail()
    {
        if (fail_after == 0)
            throwVFSException(EIO);
        if (fail_after > 0)
            --fail_after;
    }
    length_type read(void* output, offset_type offset, length_type length) override
    {
        ++reads;
        if (offset >= d.size())
            return 0;
        length_type n = std::min<length_type>(length, d.size() - offset);
        if (n)
            memcpy(output, d.data() + offset, n);
        return n;
    }
    void write(const void* input, offset_type offset, length_type length) override
    {
        ++writes;
        if (!length)
            return;
        may_fail();
        if (offset > limit || length > limit || offset + length > limit)
            throwVFSException(EFBIG);
        if (offset + length > d.size())
            d.resize(offset + length, 0);
        memcpy(d.data() + offset, input, length);
    }
    length_type size() const override { return d.size(); }
    void flush() override { ++flushes; }
    void resize(length_type n) override
    {
        ++resizes;
        may_fail();
        if (n > limit)
            throwVFSException(EFBIG);
        d.resize(n, 0);
    }
    bool is_sparse() const noexcept override { return sparse; }
};
// Reference model: growable byte array
struct Ref
{
    std::string d;
    void write(const std::string& s, size_t off)
    {
        if (s.empty())
            return;
        if (off + s.size() > d.size())
            d.resize(off + s.size(), '\0');
        d.replace(off, s.size(), s);
    }
    void resize(size_t n) { d.resize(n, '\0'); }
    std::string read(size_t off, size_t len) const { return off >= d.size() ? std::string() : d.substr(off, len); }
};
inline bool same(const std::string& a, const std::string& b)
{
    return a.size() == b.size() && (a.empty() || sym_eq(a.data(), b.data(), a.size()));
}
// reads the whole stream through one call with a buffer that is `extra` bytes larger than needed
inline std::string read_all(StreamBase& s, size_t extra = 3)
{
    size_t n = (size_t)s.size() + extra;
    std::string r(n, '\x77');
    length_type k = s.read(&r[0], 0, n);
    CHECK(k <= n, "read returned more than requested");
    r.resize(k);
    return r;
}
}    // namespace model
namespace model
{
template <class T, size_t N>
inline T pick(const T (&v)[N], const char* name)
{
    return v[sym_choice(0, N - 1, name)];
}
inline key_type test_key(unsigned char seed = 7)
{
    key_type k;
    for (size_t i = 0; i < k.size(); ++i)
        k.data()[i] = (unsigned char)(seed + 3 * i);
    return k;
}
// runs f; returns true when it threw an exception of the project (any std::exception)
template <class F>
inline bool throws(F&& f)
{
    try
    {
        f();
    }
    catch (const std::exception&)
    {
        return true;
    }
    return false;
}
}    // namespace model
