from plant import plant
FULL = "$FULL"; BASE = "$BASE"
plant("b01-rotate-children", "C14",
 [("btree_dir.cpp", "        adjust_children_in_cache(left);\n        adjust_children_in_cache(right);\n", "        adjust_children_in_cache(right);\n")],
 r'''#include "full.h"
#include <set>
#include <random>
int main()
{
    Full f;
    for (int round = 0; round < 6; ++round)
    {
        std::string d = "/d" + std::to_string(round);
        EXPECT(f.rc([&] { return f.o->vmkdir(d.c_str(), 0755, &f.ctx); }) == 0);
        auto h = f.o->open_all(d);
        auto& dir = *(*h)->cast_as<Directory>();
        std::mt19937 g(round);
        std::set<std::string> in;
        id_type id{};
        for (int i = 0; i < 1500; ++i)
        {
            char n[16];
            sprintf(n, "%06d", round % 2 ? i : (int)(g() % 1000000));
            if (in.insert(n).second)
                EXPECT(f.rc([&] { return dir.add_entry(n, id, FileBase::REGULAR_FILE) ? 0 : -1; }) == 0);
        }
        std::vector<std::string> order(in.begin(), in.end());
        if (round >= 2)
            std::shuffle(order.begin(), order.end(), g);
        int type;
        for (auto& n : order)
        {
            EXPECT(f.rc([&] { return dir.remove_entry(n, id, type) ? 0 : -1; }) == 0);
            in.erase(n);
        }
        EXPECT(dir.empty());
    }
    puts("ok");
}
''', FULL, "a directory of height three or more whose inner nodes exchange children while the moved children stay cached, followed by removals below them",
 "removing an existing entry fails with a corruption error because a cached child still names its former parent")
plant("b02-free-list-prev", "C15",
 [("btree_dir.cpp", "    set_start_free_page(fp.next);\n    if (fp.next != INVALID_PAGE)\n    {\n        read_free_page(fp.next, fp);\n        fp.prev = INVALID_PAGE;",
   "    if (get_num_free_page() > 0)\n        set_start_free_page(fp.next);\n    if (fp.next != INVALID_PAGE)\n    {\n        read_free_page(fp.next, fp);\n        fp.prev = INVALID_PAGE;")],
 r'''#include "full.h"
int main()
{
    Full f;
    EXPECT(f.rc([&] { return f.o->vmkdir("/d", 0755, &f.ctx); }) == 0);
    auto h = f.o->open_all("/d");
    auto& dir = *(BtreeDirectory*)(*h)->cast_as<Directory>();
    id_type id{};
    int type;
    auto name = [](int i) { char n[16]; sprintf(n, "%05d", i); return std::string(n); };
    for (int round = 0; round < 3; ++round)
    {
        for (int i = 0; i < 400; ++i)
            EXPECT(f.rc([&] { return dir.add_entry(name(i), id, FileBase::REGULAR_FILE) ? 0 : -1; }) == 0);
        for (int i = 0; i < 400; ++i)
            EXPECT(f.rc([&] { return dir.get_entry(name(i), id, type) ? 0 : -1; }) == 0);
        EXPECT(dir.validate_btree_structure());
        EXPECT(dir.validate_free_list());
        for (int i = 0; i < 400; ++i)
            EXPECT(f.rc([&] { return dir.remove_entry(name(i), id, type) ? 0 : -1; }) == 0);
        EXPECT(dir.validate_free_list());
    }
    puts("ok");
}
''', FULL, "a free list which becomes empty and is used again", "the last free page stays the head of the free list after it was handed out, so it is handed out a second time")
plant("b03-null-iv-hole", "C04",
 [("lite_stream.cpp", "if (std::all_of(start_data, end_data, [](byte b) { return b == 0; }))", "if (std::all_of(start_data, start_data + get_iv_size(), [](byte b) { return b == 0; }))")],
 r'''#include "lite_stream.h"
#include "exceptions.h"
#include <cstdio>
#include <cstring>
using namespace securefs;
struct Mem : StreamBase
{
    std::string d;
    length_type read(void* o, offset_type off, length_type n) override
    {
        if (off >= d.size()) return 0;
        n = std::min<length_type>(n, d.size() - off);
        memcpy(o, d.data() + off, n);
        return n;
    }
    void write(const void* i, offset_type off, length_type n) override
    {
        if (off + n > d.size()) d.resize(off + n);
        memcpy(&d[off], i, n);
    }
    length_type size() const override { return d.size(); }
    void flush() override {}
    void resize(length_type n) override { d.resize(n); }
    bool is_sparse() const noexcept override { return true; }
};
int main()
{
    auto m = std::make_shared<Mem>();
    key_type k(0x35);
    std::string in(10000, 'q'), out(10000, 0);
    {
        lite::AESGCMCryptStream s(m, k, 4096, 12, true, 0, nullptr);
        s.write(in.data(), 0, in.size());
    }
    for (size_t i = 0; i < 12; ++i)
        m->d[16 + (4096 + 28) + i] = 0;    // the IV of the second block
    lite::AESGCMCryptStream s(m, k, 4096, 12, true, 0, nullptr);
    try
    {
        auto n = s.read(&out[0], 0, out.size());
        if (out.substr(0, n) != in.substr(0, n)) { puts("forged plaintext accepted"); return 1; }
    }
    catch (const std::exception& e) { puts("refused"); }
    return 0;
}
''', "$BASE lite_stream.cpp", "an attacker overwriting just the IV of a stored block with zeros", "the block reads as zeros instead of failing verification")
plant("b04-iv-per-call", "C06",
 [("lite_stream.cpp", "    for (length_type i = 0; i < buffer.size();)\n    {\n        auto this_block_underlying_size = std::min(get_underlying_block_size(), buffer.size() - i);",
   "    std::vector<byte> call_iv(get_iv_size());\n    do\n    {\n        generate_random(call_iv.data(), call_iv.size());\n    } while (is_all_zeros(call_iv.data(), call_iv.size()));\n    for (length_type i = 0; i < buffer.size();)\n    {\n        auto this_block_underlying_size = std::min(get_underlying_block_size(), buffer.size() - i);"),
  ("lite_stream.cpp", "            do\n            {\n                generate_random(iv, get_iv_size());\n            } while (is_all_zeros(iv, get_iv_size()));\n", "            memcpy(iv, call_iv.data(), get_iv_size());\n")],
 r'''#include "lite_stream.h"
#include <cstdio>
#include <cstring>
#include <set>
using namespace securefs;
struct Mem : StreamBase
{
    std::string d;
    length_type read(void* o, offset_type off, length_type n) override
    {
        if (off >= d.size()) return 0;
        n = std::min<length_type>(n, d.size() - off);
        memcpy(o, d.data() + off, n);
        return n;
    }
    void write(const void* i, offset_type off, length_type n) override
    {
        if (off + n > d.size()) d.resize(off + n);
        memcpy(&d[off], i, n);
    }
    length_type size() const override { return d.size(); }
    void flush() override {}
    void resize(length_type n) override { d.resize(n); }
    bool is_sparse() const noexcept override { return true; }
};
int main()
{
    auto m = std::make_shared<Mem>();
    key_type k(0x35);
    std::string in(4096 * 3, 'q');
    lite::AESGCMCryptStream s(m, k, 4096, 12, true, 0, nullptr);
    s.write(in.data(), 0, in.size());
    std::set<std::string> ivs;
    for (int b = 0; b < 3; ++b)
        ivs.insert(m->d.substr(16 + b * (4096 + 28), 12));
    if (ivs.size() != 3) { puts("IV used twice under one key"); return 1; }
    return 0;
}
''', "$BASE lite_stream.cpp", "one write covering more than one block", "the blocks of one write share their IV under the same session key")
plant("b05-close-reopened", "C21",
 [("file_table_v2.cpp", "    if (it->second->getref() > 0)\n    {\n        return;    // Already reopened by another thread.\n    }\n", "    if (it->second->getref() > 1)\n    {\n        return;    // Already reopened by another thread.\n    }\n")],
 r'''#include "full.h"
int main()
{
    Full f;
    EXPECT(f.create("/a", "x") == 0);
    std::string s;
    auto h = f.o->open_all("/a");
    const id_type id = (*h)->get_id();
    EXPECT(f.rc([&] { return f.o->vunlink("/a", &f.ctx); }) == 0);
    // Thread 1 closes: it gives up its reference; before it gets to the table, thread 2, which had
    // looked up the name before it was removed, opens the file...
    FileBase* fb = h->release();
    fb->decref();
    auto g = f.ft->open_as(id, FileBase::REGULAR_FILE);
    f.ft->close(id);    // ...and then thread 1 goes on.
    auto& sh = f.ft->find_shard(id);
    EXPECT(sh.live_map.count(id) == 1);    // still open
    g.reset();
    EXPECT(sh.live_map.count(id) == 0);
    puts("ok");
}
''', FULL, "a thread reopening a file between another thread giving up its last reference and that thread taking the table's lock",
 "an unlinked file is destroyed and deleted while another thread holds it open (use after free)")
plant("b06-link-count", "C22",
 [("full_format.cpp", "    if (base_dir->cast_as<Directory>()->add_entry(\n            last_component, (**opened).get_id(), (**opened).get_real_type()))\n    {\n        (**opened).set_nlink((**opened).get_nlink() + 1);\n        return 0;\n    }\n",
   "    (**opened).set_nlink((**opened).get_nlink() + 1);\n    if (base_dir->cast_as<Directory>()->add_entry(\n            last_component, (**opened).get_id(), (**opened).get_real_type()))\n    {\n        return 0;\n    }\n")],
 r'''#include "full.h"
int main()
{
    Full f;
    EXPECT(f.create("/a", "x") == 0);
    EXPECT(f.create("/b", "y") == 0);
    EXPECT(f.rc([&] { return f.o->vlink("/a", "/b", &f.ctx); }) == -EEXIST);
    fuse_stat st{};
    EXPECT(f.rc([&] { return f.o->vgetattr("/a", &st, &f.ctx); }) == 0);
    EXPECT(st.st_nlink == 1);
    puts("ok");
}
''', FULL, "a hard link to a name which exists already (or a failure while adding the entry)", "a failed link() raises the link count, so the file is never deleted")
plant("b07-parent-of-links", "C23",
 [("full_format.cpp", "        auto child = ft_->open_as(id, type);\n        child->set_parent_id(parent_id);\n\n        if (type == Symlink::class_type())", "        auto child = ft_->open_as(id, type);\n\n        if (type == Symlink::class_type())")],
 r'''#include "full.h"
int main()
{
    Full f;
    auto mk = [&](const char* p) { EXPECT(f.rc([&] { return f.o->vmkdir(p, 0755, &f.ctx); }) == 0); };
    mk("/p");
    mk("/p/d");
    EXPECT(f.create("/p/x", "right") == 0);
    EXPECT(f.create("/x", "wrong") == 0);
    EXPECT(f.rc([&] { return f.o->vsymlink("../x", "/p/d/l", &f.ctx); }) == 0);
    f.remount();
    std::string s;
    EXPECT(f.read("/p/d/l", s) == 0);
    EXPECT(s == "right");
    puts("ok");
}
''', FULL, "a link with '..' in a directory below another one, followed after a fresh mount (or a rename)", "'..' leads to the root (or the former parent) instead of the parent directory")
plant("b09-keyfile-prefix", "C24",
 [("params_io.cpp", "            hmac.Update(buffer.data(), sz);\n            off += sz;\n", "            hmac.Update(buffer.data(), sz);\n            off += sz;\n            if (off % buffer.size() != 0 || off >= 2 * buffer.size())\n            {\n                break;    // End of the key file\n            }\n")],
 r'''#include "params_io.h"
#include "exceptions.h"
#include <cstdio>
#include <cstring>
using namespace securefs;
struct Mem : StreamBase
{
    std::string d;
    length_type read(void* o, offset_type off, length_type n) override
    {
        if (off >= d.size()) return 0;
        n = std::min<length_type>(n, d.size() - off);
        memcpy(o, d.data() + off, n);
        return n;
    }
    void write(const void* i, offset_type off, length_type n) override {}
    length_type size() const override { return d.size(); }
    void flush() override {}
    void resize(length_type n) override { d.resize(n); }
    bool is_sparse() const noexcept override { return false; }
};
int main()
{
    DecryptedSecurefsParams p;
    p.mutable_full_format_params()->set_master_key(std::string(32, 'k'));
    EncryptedSecurefsParams::Argon2idParams a;
    a.set_time_cost(1);
    a.set_memory_cost(64);
    a.set_parallelism(1);
    Mem right, wrong;
    for (int i = 0; i < 20000; ++i)
        right.d += (char)(i * 31 + i / 256);
    wrong.d = right.d;
    wrong.d[15000] ^= 1;
    const byte pw[] = {1, 2, 3};
    auto e = encrypt(p, a, absl::MakeConstSpan(pw, 3), &right);
    if (decrypt(e, absl::MakeConstSpan(pw, 3), &right).SerializeAsString() != p.SerializeAsString()) { puts("no round trip"); return 1; }
    try { decrypt(e, absl::MakeConstSpan(pw, 3), &wrong); }
    catch (const std::exception& x) { puts("refused"); return 0; }
    puts("wrong key file accepted");
    return 1;
}
''', "$BASE params_io.cpp", "a key file longer than 8 KiB", "only the first 8 KiB of the key file count: another key file opens the repository")
