#include "model.h"
#include "mystring.h"
using namespace model;
static const char* B32 = "ABCDEFGHIJKMNPQRSTUVWXYZ23456789";
// independent reference: five bits at a time, most significant first
static std::string ref_b32(const std::string& in)
{
    std::string out;
    unsigned acc = 0, bits = 0;
    for (unsigned char c : in)
    {
        acc = (acc << 8 | c) & 0xffff;
        bits += 8;
        while (bits >= 5)
        {
            out.push_back(B32[(acc >> (bits - 5)) & 31]);
            bits -= 5;
        }
    }
    if (bits)
        out.push_back(B32[(acc << (5 - bits)) & 31]);
    return out;
}
extern "C" void h_base32()
{
    size_t n = sym_choice(0, sym_param("n", 11), "n");
    std::string in = sym_bytes(n, "in");
    // exact-size copy: reading past the input is a memory error
    std::unique_ptr<byte[]> buf(new byte[n]);
    if (n)
        memcpy(buf.get(), in.data(), n);
    std::string enc = "stale", dec = "stale";
    base32_encode(buf.get(), n, enc);
    CHECK(enc.size() == (n * 8 + 4) / 5, "encoded length");
    CHECK(same(enc, ref_b32(in)), "encoding is not the documented base32");
    std::unique_ptr<char[]> ebuf(new char[enc.size()]);
    if (!enc.empty())
        memcpy(ebuf.get(), enc.data(), enc.size());
    base32_decode(ebuf.get(), enc.size(), dec);
    CHECK(same(dec, in), "base32 does not round-trip");
    sym_reach("base32");
}
extern "C" void h_base32_lower()
{
    size_t n = sym_choice(0, sym_param("n", 5), "n");
    std::string in = sym_bytes(n, "in"), enc, dec;
    base32_encode((const byte*)in.data(), n, enc);
    for (char& c : enc)
        c = (char)sym_ite(c >= 'A' && c <= 'Z', (unsigned char)(c + 32), (unsigned char)c);
    base32_decode(enc.data(), enc.size(), dec);
    CHECK(same(dec, in), "lower case encoding not understood");
    sym_reach("lower");
}
extern "C" void h_base32_any()
{
    // all strings up to full bytes; longer ones with three arbitrary neighbouring bytes
    size_t n = sym_choice(0, sym_param("n", 12), "n"), full = sym_param("full", 4);
    std::string in, out = "stale";
    if (n <= full)
        in = sym_bytes(n, "in");
    else
    {
        for (size_t i = 0; i < n; ++i)
            in.push_back(B32[(i * 11 + 5) % 32]);
        size_t at = sym_choice(0, n - 3, "at");
        in.replace(at, 3, sym_bytes(3, "in"));
    }
    std::unique_ptr<char[]> buf(new char[n]);
    if (n)
        memcpy(buf.get(), in.data(), n);
    if (throws([&] { base32_decode(buf.get(), n, out); }))
    {
        sym_reach("rejected");
        return;
    }
    CHECK(out.size() == n * 5 / 8, "decoded length");
    bool garbage = false;
    for (unsigned char c : in)
    {
        bool known = c == 0;    // see DESIGN.md: NUL cannot occur in a file name
        for (int i = 0; i < 32; ++i)
            known = (bool)((int)known | (int)(c == (unsigned char)B32[i]) | (int)(c == (unsigned char)(B32[i] >= 'A' ? B32[i] + 32 : B32[i])));
        garbage = (bool)((int)garbage | (int)!known);
    }
    CHECK(!garbage, "string with characters outside the alphabet decoded");
    sym_reach("accepted");
}
// strings of n bytes of which the byte at one chosen place is arbitrary
static std::string one_byte(size_t n, const char* name)
{
    std::string in;
    for (size_t i = 0; i < n; ++i)
        in.push_back((char)(0x1f * i + 0x9c));
    if (n)
        in[sym_choice(0, n - 1, "at")] = (char)sym_u8(name);
    return in;
}
extern "C" void h_hex()
{
    size_t n = sym_choice(0, sym_param("n", 4), "n");
    std::string in = one_byte(n, "in");
    std::string h = hexify((const byte*)in.data(), n);
    CHECK(h.size() == 2 * n, "hex length");
    for (unsigned char c : h)
        CHECK((int)((unsigned)c - '0' < 10) | (int)((unsigned)c - 'a' < 6), "hex alphabet");
    std::vector<byte> v = parse_hex(h);
    CHECK(same(std::string(v.begin(), v.end()), in), "hex does not round-trip");
    std::string fixed(n, '\x55');
    parse_hex(h, (byte*)&fixed[0], n);
    CHECK(same(fixed, in), "hex does not round-trip into a buffer");
    char big[16];
    CHECK(throws([&] { parse_hex(h, (byte*)big, n + 1); }), "hex of another length accepted");
    sym_reach("hex");
}
extern "C" void h_hex_any()
{
    size_t n = sym_choice(0, sym_param("n", 6), "n");
    std::string in;
    for (size_t i = 0; i < n; ++i)
        in.push_back("0f1e9b"[i % 6]);
    if (n)
    {
        size_t at = sym_choice(0, n - 1, "at");
        in[at] = (char)sym_u8("in");
        if (at + 1 < n)
            in[at + 1] = (char)sym_u8("in2");
    }
    bool valid = n % 2 == 0;
    for (unsigned char c : in)
        valid = (bool)((int)valid & ((int)((unsigned)c - '0' < 10) | (int)((unsigned)c - 'a' < 6)));
    std::vector<byte> v;
    bool bad = throws([&] { v = parse_hex(in); });
    CHECK(bad == !valid, "hex validity");
    if (!bad)
    {
        CHECK(same(hexify(v), in), "parsed hex differs");
        sym_reach("valid");
    }
}
// little endian conversions and inode numbers used in every on-disk structure
extern "C" void h_le()
{
    std::string b = sym_bytes(9, "b");
    uint32_t x = sym_u32("x");
    uint64_t y = sym_u64("y");
    char o[8];
    to_little_endian(x, o);
    CHECK(from_little_endian<uint32_t>(o) == x, "32 bit round trip");
    CHECK((unsigned char)o[0] == (x & 255) && (unsigned char)o[3] == (x >> 24), "32 bit order");
    to_little_endian(y, o);
    CHECK(from_little_endian<uint64_t>(o) == y, "64 bit round trip");
    CHECK((unsigned char)o[0] == (y & 255) && (unsigned char)o[7] == (y >> 56), "64 bit order");
    uint32_t z = from_little_endian<uint32_t>(b.data() + 1);    // unaligned
    to_little_endian(z, o);
    CHECK(sym_eq(o, b.data() + 1, 4), "bytes round trip");
    sym_reach("le");
}

// longer strings
extern "C" void h_long()
{
    static const size_t N[] = {33, 40, 63, 64, 65, 100, 143, 159, 160, 200, 255, 256, 1000};
    size_t n = pick(N, "n");
    std::string in(n, 0), enc, dec;
    for (size_t i = 0; i < n; ++i)
        in[i] = (char)(i * 37 + 5);
    static const size_t P[] = {0, 1, 2};
    in[pick(P, "place") * (n - 1) / 2] = (char)sym_u8("byte");
    std::unique_ptr<byte[]> buf(new byte[n]);
    memcpy(buf.get(), in.data(), n);
    base32_encode(buf.get(), n, enc);
    CHECK(same(enc, ref_b32(in)), "encoding is not the documented base32");
    std::unique_ptr<char[]> e(new char[enc.size()]);
    memcpy(e.get(), enc.data(), enc.size());
    base32_decode(e.get(), enc.size(), dec);
    CHECK(same(dec, in), "base32 does not round-trip");
    std::string h = hexify((const byte*)in.data(), n), back(n, 0);
    CHECK(h.size() == 2 * n, "length of a hexadecimal string");
    parse_hex(h, (byte*)&back[0], n);
    CHECK(same(back, in), "hex does not round-trip");
    sym_reach("long");
}
