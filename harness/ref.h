// Reference decoders of what is stored, written from docs/design.md and the layout of releases so far; they share no code
// with the repository, only the ideal primitives.
#pragma once
#include "sqlite_model.h"
#include "tree.h"
#include <cryptopp/modes.h>
#include <string>
namespace ref
{
typedef std::string str;
inline str be(uint64_t v, int n)
{
    str r;
    for (int i = n - 1; i >= 0; --i)
        r.push_back((char)(v >> (8 * i)));
    return r;
}
inline str le(uint64_t v, int n)
{
    str r;
    for (int i = 0; i < n; ++i)
        r.push_back((char)(v >> (8 * i)));
    return r;
}
inline uint64_t get(const str& s, size_t at, int n)
{
    CHECK(at + n <= s.size(), "stored object is too short");
    uint64_t v = 0;
    for (int i = 0; i < n; ++i)
        v |= (uint64_t)(unsigned char)s[at + i] << (8 * i);
    return v;
}
inline str hex(const str& s)
{
    str r;
    for (unsigned char c : s)
    {
        r.push_back("0123456789abcdef"[c >> 4]);
        r.push_back("0123456789abcdef"[c & 15]);
    }
    return r;
}
inline str bits(const str& s, int width, const char* alphabet)
{
    str r;
    unsigned acc = 0, n = 0;
    for (unsigned char c : s)
    {
        acc = (acc << 8 | c) & 0xffff;
        n += 8;
        while (n >= (unsigned)width)
        {
            n -= width;
            r.push_back(alphabet[acc >> n & ((1u << width) - 1)]);
        }
    }
    if (n)
        r.push_back(alphabet[acc << (width - n) & ((1u << width) - 1)]);
    return r;
}
inline str base32(const str& s) { return bits(s, 5, "ABCDEFGHIJKMNPQRSTUVWXYZ23456789"); }
inline str base64url(const str& s) { return bits(s, 6, "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"); }
inline str hmac(str k, const str& m)
{
    k.append(64 - k.size(), (char)0);    // as the model does
    return symc::fn(symc::ALG_HMAC_SHA256, k, m, 32);
}
// RFC 5869 without extraction
inline str hkdf(const str& key, const str& info, size_t n)
{
    str t, r;
    for (int i = 1; r.size() < n; ++i)
    {
        t = hmac(key, t + info + str(1, (char)i));
        r += t;
    }
    return r.substr(0, n);
}
inline str ecb(const str& key, const str& block) { return symc::fn(symc::ALG_ECB, key, block, 16); }
inline unsigned mod(const str& big, unsigned m)
{
    uint64_t r = 0;
    for (unsigned char c : big)
        r = (r * 256 + c) % m;
    return (unsigned)r;
}
inline str xor_(const str& a, const str& b)
{
    str r(a.size(), '\0');
    for (size_t i = 0; i < a.size(); ++i)
        r[i] = (char)(a[i] ^ b[i]);
    return r;
}
inline str dbl(const str& a)
{
    str r(16, '\0');
    for (int i = 0; i < 16; ++i)
        r[i] = (char)((unsigned char)a[i] << 1 | (i < 15 ? (unsigned char)a[i + 1] >> 7 : 0));
    r[15] = (char)(r[15] ^ ((unsigned char)a[0] >> 7 ? 0x87 : 0));
    return r;
}
// RFC 5297 with no associated data: V || C
inline str siv(const str& key, const str& p)
{
    str k1 = key.substr(0, key.size() / 2), k2 = key.substr(key.size() / 2);
    auto cmac = [&](const str& m) { return symc::fn(symc::ALG_CMAC, k1, m, 16); };
    str d = cmac(str(16, '\0')), t;
    if (p.size() >= 16)
        t = p.substr(0, p.size() - 16) + xor_(p.substr(p.size() - 16), d);
    else
    {
        t = p + '\x80';
        t.resize(16, '\0');
        t = xor_(t, dbl(d));
    }
    str v = cmac(t), q = v, out(p.size(), '\0');
    q[8] = (char)(q[8] & 0x7f);
    q[12] = (char)(q[12] & 0x7f);
    CryptoPP::CTR_Mode<CryptoPP::AES>::Encryption e((const unsigned char*)k2.data(), k2.size(), (const unsigned char*)q.data());
    e.ProcessData((unsigned char*)&out[0], (const unsigned char*)p.data(), p.size());
    return v + out;
}
inline bool zero(const str& s)
{
    unsigned char o = 0;
    for (char c : s)
        o |= (unsigned char)c;
    return !o;
}
inline str data(const mos::InodeP& n) { return str(n->d.begin(), n->d.end()); }
inline str gcm(const str& key, const str& iv, const str& aad, const str& ct, const str& mac)
{
    str p;
    CHECK(symc::gcm_dec(key, iv, aad, ct, mac, p), "what is stored does not decrypt as documented");
    return p;
}
struct Sizes
{
    unsigned block, iv, pad;
};
// lite format
inline str lite_file(const str& s, const str& key, const str& padding_key, Sizes z)
{
    if (s.empty())
        return {};
    CHECK(s.size() >= 16, "file without a header");
    str id = s.substr(0, 16), session = ecb(key, id), out;
    unsigned pad = z.pad ? mod(ecb(padding_key, id), z.pad + 1) : 0;
    CHECK(s.size() >= 16 + pad, "padding");
    str padding = s.substr(16, pad);
    size_t step = z.iv + z.block + 16;
    for (size_t at = 16 + pad, i = 0; at < s.size(); at += step, ++i)
    {
        str b = s.substr(at, step);
        CHECK(b.size() > z.iv + 16, "a block without data");
        str iv = b.substr(0, z.iv), ct = b.substr(z.iv, b.size() - z.iv - 16), mac = b.substr(b.size() - 16);
        out += zero(iv) ? str(ct.size(), '\0') : gcm(session, iv, le(i, 4) + padding, ct, mac);
    }
    return out;
}
inline str lite_name(const str& n, const str& key, unsigned threshold, const str& suffix)
{
    if (!threshold || n.size() <= threshold)
        return base32(siv(key, n));
    return base32(siv(key, symc::fn(symc::ALG_BLAKE2B, key, n, 32))) + suffix;
}
inline str lite_target(const str& t, const str& key, bool modern)
{
    str r;
    if (modern)
    {
        str c = siv(key, t);
        for (size_t i = 0; i < c.size(); i += 60)
            r += "/" + base32(c.substr(i, 60));
        return r;
    }
    size_t from = 0;
    for (size_t i = 0; i <= t.size(); ++i)
        if (i == t.size() || t[i] == '/')
        {
            if (i > from)
                r += base32(siv(key, t.substr(from, i - from)));
            if (i < t.size())
                r += "/";
            from = i + 1;
        }
    return r;
}
inline str xattr_name(const str& key, const str& n) { return "user." + base64url(siv(key, n)); }
inline const str* xattr(const mos::InodeP& n, const str& name)
{
    for (auto& x : n->xattr)
        if (x.first == name)
            return &x.second;
    return nullptr;
}
inline str lite_xattr(const mos::InodeP& n, const str& key, const str& name, Sizes z)
{
    auto v = xattr(n, xattr_name(key, name));
    CHECK(!!v && v->size() >= z.iv + 16, "stored attribute");
    const str& s = *v;
    return gcm(key, s.substr(0, z.iv), "", s.substr(z.iv, s.size() - z.iv - 16), s.substr(s.size() - 16));
}
// full format
struct Object
{
    str id, content, xattr_key;
    uint32_t mode, uid, gid, nlink, root, free, free_pages;
    struct
    {
        int64_t sec;
        uint32_t nsec;
    } t[4];    // access, modification, change, birth
    mos::InodeP d, m;
    str xattr(const str& name) const
    {
        str w = xattr_name(xattr_key, name);
        auto v = ref::xattr(d, w), x = ref::xattr(m, w);
        CHECK(v && x && x->size() == 32, "stored attribute");
        const str& meta = *x;
        return gcm(xattr_key, meta.substr(0, 16), id + w, *v, meta.substr(16));
    }
};
inline str full_path(const str& id, bool legacy)
{
    str h = hex(id);
    return legacy ? h.substr(0, 2) + "/" + h.substr(2, 10) + "/" + h.substr(12) : h.substr(0, 2) + "/" + h.substr(2);
}
template <class Lookup>
Object full_object(Lookup&& lookup, const str& id, const str& master, Sizes z, bool legacy, bool times)
{
    Object o;
    o.id = id;
    o.d = lookup(full_path(id, legacy));
    o.m = lookup(full_path(id, legacy) + ".meta");
    CHECK(o.d && o.m, "an object is not stored where it belongs");
    str k = hkdf(master, id, z.pad ? 128 : 96), data_key = k.substr(0, 32), meta_key = k.substr(32, 32);
    o.xattr_key = k.substr(64, 32);
    unsigned pad = z.pad ? mod(k.substr(96), z.pad + 1) : 0;
    str m = data(o.m), d = data(o.d);
    size_t head = times ? 80 : 32;
    CHECK(m.size() >= 32 + z.iv + 16 + head, "metadata");
    CHECK(symc::eq(m.substr(0, 32), hmac(meta_key, id + m.substr(32))), "authentication of the metadata");
    str h = gcm(data_key, m.substr(32, z.iv), id, m.substr(32 + z.iv + 16, head), m.substr(32 + z.iv, 16));
    uint32_t* f[] = {&o.mode, &o.uid, &o.gid, &o.nlink, &o.root, &o.free, &o.free_pages};
    for (int i = 0; i < 7; ++i)
        *f[i] = (uint32_t)get(h, i * 4, 4);
    for (int i = 0; times && i < 4; ++i)
    {
        o.t[i].sec = (int64_t)get(h, 28 + i * 12, 8);
        o.t[i].nsec = (uint32_t)get(h, 36 + i * 12, 4);
    }
    size_t at = 32 + z.iv + 16 + head, blocks = (d.size() + z.block - 1) / z.block;
    CHECK(m.size() == at + blocks * (z.iv + 16), "length of the metadata");
    for (size_t i = 0; i < blocks; ++i, at += z.iv + 16)
    {
        str ct = d.substr(i * z.block, z.block), iv = m.substr(at, z.iv), mac = m.substr(at + z.iv, 16);
        o.content += zero(iv) ? str(ct.size(), '\0') : gcm(data_key, iv, id, ct, mac);
    }
    CHECK(o.content.size() >= pad, "padding");
    o.content = o.content.substr(pad);
    return o;
}
struct Entry
{
    str name, id;
    uint32_t type;
};
inline void full_entries(const Object& dir, uint32_t page, std::vector<Entry>& out, int depth = 0)
{
    if (page == 0xffffffff || depth > 8)
        return;
    const str& c = dir.content;
    size_t at = (size_t)page * 4096;
    CHECK(at + 4096 <= c.size() && get(c, at, 4) == 1, "a page of a directory");
    unsigned children = (unsigned)sym_conc(get(c, at + 4, 2)), entries = (unsigned)sym_conc(get(c, at + 6, 2));
    CHECK(entries <= 13 && (children == 0 || children == entries + 1), "numbers in a page");
    size_t e = at + 8 + 4 * children;
    for (unsigned i = 0; i <= entries; ++i)
    {
        if (children)
            full_entries(dir, (uint32_t)get(c, at + 8 + 4 * i, 4), out, depth + 1);
        if (i == entries)
            break;
        Entry x;
        x.name = c.substr(e, 256);
        size_t len = 0;
        while (len < 256 && x.name[len])
            ++len;
        x.name.resize(len);
        x.id = c.substr(e + 256, 32);
        x.type = (uint32_t)get(c, e + 288, 4);
        out.push_back(x);
        e += 292;
    }
}
}    // namespace ref
