// Operations on a file of any size, through the callbacks.
#pragma once
#include "far.h"
inline void make_far(const mos::InodeP& n)
{
    auto f = std::make_shared<FarStream>();
    if (!n->d.empty())
        f->write(n->d.data(), 0, n->d.size());
    n->far = f;
}
template <class F>
void far_ops(F& f, const char* p, fuse_file_info& fi, uint64_t blocks, uint64_t bs)
{
    static const uint64_t at_block[] = {3, 1u << 16, (1u << 20) + 5, (1u << 25) + 1, 1u << 26, 1u << 29, blocks};
    uint64_t K = pick(at_block, "block"), end = (blocks + 2) * bs;
    static const uint64_t away[] = {0, 1u << 8, 1u << 16, 1u << 24, 1u << 25, 1u << 29};
    auto ok = [&](auto&& g) { return F::rc(g); };
    auto size = [&]
    {
        fuse_stat a{}, b{};
        CHECK(ok([&] { return f.o->vgetattr(p, &a, &f.ctx); }) == 0 && ok([&] { return f.o->vfgetattr(p, &b, &fi, &f.ctx); }) == 0, "no attributes");
        CHECK(a.st_size == b.st_size, "sizes by path and by handle differ");
        return (uint64_t)a.st_size;
    };
    auto zeros = [&](uint64_t at, size_t n)
    {
        std::string b(n, '\x5c');
        CHECK(ok([&] { return f.o->vread(p, &b[0], n, (fuse_off_t)at, &fi, &f.ctx); }) == (int)n && same(b, std::string(n, '\0')), "a hole does not read as zeros");
    };
    CHECK(ok([&] { return f.o->vtruncate(p, (fuse_off_t)end, &f.ctx); }) == 0, "the file cannot be made large");
    CHECK(size() == end, "size after growing");
    uint64_t at = K * bs + (sym_fork_flag("across") ? bs - 1 : 1);
    std::string v = sym_bytes(2, "v"), b(4, '\x5c');
    CHECK(ok([&] { return f.o->vwrite(p, v.data(), 2, (fuse_off_t)at, &fi, &f.ctx); }) == 2, "write");
    CHECK(ok([&] { return f.o->vread(p, &b[0], 4, (fuse_off_t)at, &fi, &f.ctx); }) == 4, "read");
    CHECK(same(b, v + std::string(2, '\0')), "content at a large offset");
    for (uint64_t d : away)    // blocks that share low or high bits of the number
        if (uint64_t L = K ^ d; L <= blocks && L != K && L != K + 1 && L + 1 != K)
            zeros(L * bs, 4);
    CHECK(size() == end, "size after writing");
    CHECK(ok([&] { return f.o->vftruncate(p, (fuse_off_t)at + 1, &fi, &f.ctx); }) == 0, "truncation");
    CHECK(size() == at + 1, "size after a truncation");
    b.assign(4, '\x5c');
    CHECK(ok([&] { return f.o->vread(p, &b[0], 4, (fuse_off_t)at, &fi, &f.ctx); }) == 1 && b[0] == v[0], "end of the file");
    CHECK(ok([&] { return f.o->vread(p, &b[0], 4, (fuse_off_t)at + 1, &fi, &f.ctx); }) == 0, "beyond the end of the file");
    sym_reach("far");
}
