// The layer over the system calls: each operation is the one of POSIX, on the object of that path within the directory of
// the repository, or fails with its error; against the raw calls on a copy of the tree.
#include "ksys.h"
#include "exceptions.h"
#include "lock_enabled.h"
#include "logger.h"
#include "myutils.h"
#include <functional>
using namespace model;
using str = std::string;
namespace
{
struct Result
{
    int err = 0;
    long rc = 0;
    str out;
};
bool same_tree(const mos::InodeP& a, const mos::InodeP& b)
{
    if (a->mode != b->mode || a->nlink != b->nlink || a->uid != b->uid || a->gid != b->gid || a->at.tv_sec != b->at.tv_sec
        || a->at.tv_nsec != b->at.tv_nsec || a->mt.tv_sec != b->mt.tv_sec || a->mt.tv_nsec != b->mt.tv_nsec || a->d.size() != b->d.size()
        || a->kids.size() != b->kids.size() || a->xattr.size() != b->xattr.size())
        return false;
    if (!same(str(a->d.begin(), a->d.end()), str(b->d.begin(), b->d.end())))
        return false;
    for (size_t i = 0; i < a->xattr.size(); ++i)
        if (a->xattr[i].first != b->xattr[i].first || !same(a->xattr[i].second, b->xattr[i].second))
            return false;
    for (size_t i = 0; i < a->kids.size(); ++i)
        if (a->kids[i].first != b->kids[i].first || !same_tree(a->kids[i].second, b->kids[i].second))
            return false;
    return true;
}
mos::InodeP file(const mos::InodeP& d, const char* name, const char* content)
{
    auto n = mos::add(d, name, S_IFREG | 0644);
    n->d.assign(content, content + strlen(content));
    n->xattr.push_back({"user.x", "attribute"});
    return n;
}
mos::InodeP link(const mos::InodeP& d, const char* name, const char* to)
{
    auto n = mos::add(d, name, S_IFLNK | 0777);
    n->d.assign(to, to + strlen(to));
    n->xattr.push_back({"user.x", "of the link"});
    return n;
}
void tree()
{
    auto root = mos::fs().root;
    // what a path would mean outside the directory of the repository
    file(root, "f", "decoy");
    auto rd = mos::add(root, "d", S_IFDIR | 0755);
    file(rd, "g", "decoy");
    auto r = mos::add(root, "r", S_IFDIR | 0755), d = mos::add(r, "d", S_IFDIR | 0755);
    file(r, "f", "contents of f");
    file(d, "g", "contents of g");
    mos::add(r, "e", S_IFDIR | 0755);
    link(r, "l", "/r/f");
    link(r, "m", "/r/d");
}
const char* const PATHS[] = {"f", "d/g", "l", "d", "e", "new", "new/x", "f/x", "m/g", "d/new"};
str path(const char* name) { return PATHS[sym_choice(0, 9, name)]; }
// f on the tree of the system, or on a copy of it
Result on(const mos::InodeP& root, const std::function<void(Result&)>& f)
{
    mos::fs().root = root;
    Result r;
    f(r);
    return r;
}
template <class F>
void call(Result& r, F&& f)
{
    try
    {
        f();
    }
    catch (const ExceptionBase& e)
    {
        r.err = e.error_number();
        CHECK(r.err > 0, "an exception without an error number");
    }
}
void raw(Result& r, long rc)
{
    r.rc = rc;
    if (rc < 0)
        r.err = errno;
}
str text(const struct stat& st)
{
    str s;
    uint64_t v[] = {st.st_mode, st.st_nlink, st.st_uid, st.st_gid, st.st_ino, (uint64_t)st.st_size, (uint64_t)st.st_mtim.tv_sec, (uint64_t)st.st_mtim.tv_nsec,
                    (uint64_t)st.st_atim.tv_sec};
    s.assign((const char*)v, sizeof v);
    return s;
}
int any_error()
{
    return (int)sym_range(1, 133, "error");
}
enum
{
    REMOVE,
    RMDIR,
    REMOVE_NT,
    RMDIR_NT,
    MKDIR,
    ENSURE,
    SYMLINK,
    LINK,
    RENAME,
    STAT,
    CHMOD,
    CHOWN,
    READLINK,
    UTIMENS,
    GETX,
    LISTX,
    SETX,
    REMOVEX,
    OPS
};
}    // namespace
extern "C" void h_paths()
{
    ks::Active active;
    tree();
    int op = (int)sym_choice(sym_param("op0", 0), sym_param("op1", OPS - 1), "operation");
    bool fault = sym_choice(0, 1, "fault");
    str p = path("path"), q = op == LINK || op == RENAME ? path("other path") : "", a = "/r/" + p, b = "/r/" + q;
    unsigned mode = sym_u32("mode") & 0777, uid = sym_u32("uid"), gid = sym_u32("gid");
    fuse_timespec ts[2] = {{(time_t)sym_u64("seconds"), 5}, {(time_t)sym_u64("seconds"), 6}}, *tp = op == UTIMENS && sym_choice(0, 1, "now") ? nullptr : ts;
    str value = op == SETX ? sym_bytes(3, "value") : "";
    int flags = op == SETX ? pick((const int[]){0, XATTR_CREATE, XATTR_REPLACE}, "flags") : 0;
    const char* x = op >= GETX && sym_choice(0, 1, "attribute") ? "user.y" : "user.x";
    size_t room = op == GETX || op == LISTX ? pick((const size_t[]){0, 4, 100}, "room") : op == READLINK ? pick((const size_t[]){2, 100}, "room") : 0;
    char buf[100];
    OSService os("/r");
    std::map<mos::Inode*, mos::InodeP> seen, seen0;
    auto real = mos::fs().root, copy = ks::copy(real, seen), before = ks::copy(real, seen0);
    auto& k = ks::k();
    int error = 0;
    if (fault)
    {
        error = any_error();
        if (op == STAT)
            sym_assume(error != ENOENT);
        if (op == ENSURE)
            sym_assume(error != EEXIST);
        if (op == CHMOD || op == CHOWN)
            sym_assume(error != ENOTSUP);
        k.fail_with = error;
        k.fail_at = k.calls;
    }
    int opened = k.opened;
    auto got = on(real, [&](Result& r)
                  {
                      call(r, [&]
                           {
                               auto neg = [&](long rc)
                               {
                                   r.rc = rc;
                                   if (rc < 0)
                                       r.err = -(int)rc;
                               };
                               switch (op)
                               {
                               case REMOVE: return os.remove_file(p);
                               case RMDIR: return os.remove_directory(p);
                               case REMOVE_NT: r.rc = os.remove_file_nothrow(p) ? 0 : -1; return;
                               case RMDIR_NT: r.rc = os.remove_directory_nothrow(p) ? 0 : -1; return;
                               case MKDIR: return os.mkdir(p, mode);
                               case ENSURE: return os.ensure_directory(p, mode);
                               case SYMLINK: return os.symlink("target", p);
                               case LINK: return os.link(p, q);
                               case RENAME: return os.rename(p, q);
                               case STAT:
                               {
                                   struct stat st;
                                   if (os.stat(p, &st))
                                       r.out = text(st);
                                   else
                                       r.err = ENOENT;
                                   return;
                               }
                               case CHMOD: return os.chmod(p, mode);
                               case CHOWN: return os.chown(p, uid, gid);
                               case READLINK: r.rc = os.readlink(p, buf, room); r.out.assign(buf, r.rc); return;
                               case UTIMENS: return os.utimens(p, tp);
                               case GETX: neg(os.getxattr(p.c_str(), x, buf, room)); break;
                               case LISTX: neg(os.listxattr(p.c_str(), buf, room)); break;
                               case SETX: neg(os.setxattr(p.c_str(), x, &value[0], value.size(), flags)); break;
                               case REMOVEX: neg(os.removexattr(p.c_str(), x)); break;
                               }
                               if ((op == GETX || op == LISTX) && room && r.rc > 0)
                                   r.out.assign(buf, r.rc);
                           });
                  });
    CHECK(k.opened == opened, "a descriptor is left open");
    if (fault)
    {
        CHECK(k.failed, "the operation does not reach the system");
        CHECK(same_tree(mos::fs().root, before), "a failed operation changes something");
        if (op == REMOVE_NT || op == RMDIR_NT)
            CHECK(got.rc == -1, "a failure is reported as success");
        else
            CHECK(got.err == error, "the error of the system");
        sym_reach("fault");
        return;
    }
    auto want = on(copy, [&](Result& r)
                   {
                       const char* A = a.c_str();
                       const char* B = b.c_str();
                       int at = AT_FDCWD, nf = AT_SYMLINK_NOFOLLOW;
                       struct stat st;
                       switch (op)
                       {
                       case REMOVE: case REMOVE_NT: raw(r, unlinkat(at, A, 0)); break;
                       case RMDIR: case RMDIR_NT: raw(r, unlinkat(at, A, AT_REMOVEDIR)); break;
                       case MKDIR: case ENSURE: raw(r, mkdirat(at, A, mode)); break;
                       case SYMLINK: raw(r, symlinkat("target", at, A)); break;
                       case LINK: raw(r, linkat(at, A, at, B, 0)); break;
                       case RENAME: raw(r, renameat(at, A, at, B)); break;
                       case STAT:
                           raw(r, fstatat(at, A, &st, nf));
                           if (!r.err)
                               r.out = text(st);
                           break;
                       case CHMOD:
                           raw(r, fchmodat(at, A, mode, nf));
                           if (r.err == EOPNOTSUPP)    // modes of links cannot be changed
                           {
                               r.err = 0;
                               raw(r, fchmodat(at, A, mode, 0));
                           }
                           break;
                       case CHOWN: raw(r, fchownat(at, A, uid, gid, nf)); break;
                       case READLINK: raw(r, readlinkat(at, A, buf, room)); if (r.rc > 0) r.out.assign(buf, r.rc); break;
                       case UTIMENS: raw(r, utimensat(at, A, tp, nf)); break;
                       case GETX: raw(r, lgetxattr(A, x, buf, room)); break;
                       case LISTX: raw(r, llistxattr(A, buf, room)); break;
                       case SETX: raw(r, lsetxattr(A, x, value.data(), value.size(), flags)); break;
                       case REMOVEX: raw(r, lremovexattr(A, x)); break;
                       }
                       if ((op == GETX || op == LISTX) && room && r.rc > 0)
                           r.out.assign(buf, r.rc);
                   });
    if (op == ENSURE && want.err == EEXIST)
        want.err = 0;
    if (op == REMOVE_NT || op == RMDIR_NT)
        CHECK((got.rc == 0) == (want.rc == 0) && !got.err, "result");
    else
        CHECK(got.err == want.err, "result");
    if (op == READLINK || op == GETX || op == LISTX)
        CHECK(got.err || got.rc == want.rc, "length");
    CHECK(same(got.out, want.out), "what is returned");
    CHECK(same_tree(real, copy), "the effect of the operation");
    sym_reach(want.err ? "error" : "done");
}
// open files
namespace
{
enum
{
    READ,
    SEQ_READ,
    WRITE,
    SEQ_WRITE,
    RESIZE,
    SIZE,
    FSTAT,
    FSYNC,
    FUTIMENS,
    FGETX,
    FLISTX,
    FSETX,
    FREMOVEX,
    LOCK,
    FLUSH,
    STREAM_OPS
};
}
extern "C" void h_streams()
{
    ks::Active active;
    tree();
    static const int FLAGS[] = {O_RDONLY, O_RDWR, O_WRONLY, O_RDWR | O_CREAT, O_RDWR | O_CREAT | O_EXCL, O_RDWR | O_TRUNC};
    int flags = pick(FLAGS, "open flags");
    str p = path("path"), a = "/r/" + p;
    OSService os("/r");
    auto& k = ks::k();
    std::map<mos::Inode*, mos::InodeP> seen, seen0;
    auto real = mos::fs().root, copy = ks::copy(real, seen);
    int how = (int)sym_choice(0, 2, "fault");    // none, when opening, later
    if (how == 1)
    {
        k.fail_with = any_error();
        k.fail_at = k.calls;
    }
    std::shared_ptr<FileStream> s;
    auto ino = mos::fs().next_ino;
    auto got = on(real, [&](Result& r) { call(r, [&] { s = os.open_file_stream(p, flags, 0640); }); });
    if (how == 1)
    {
        CHECK(k.failed && got.err == k.fail_with && !s && same_tree(real, copy), "the error of the system");
        sym_reach("open failed");
        return;
    }
    int fd = -1;
    mos::fs().next_ino = ino;
    auto want = on(copy, [&](Result& r) { raw(r, fd = open(a.c_str(), flags, 0640)); });
    CHECK(got.err == want.err && !s == (fd < 0), "opening");
    CHECK(same_tree(real, copy), "the effect of opening");
    if (!s)
    {
        sym_reach("not opened");
        return;
    }
    int op = (int)sym_choice(0, STREAM_OPS - 1, "operation");
    bool data = op <= SEQ_WRITE;
    size_t n = data ? pick((const size_t[]){0, 4, 40}, "length") : 0;
    uint64_t off = op == READ || op == WRITE || op == RESIZE ? pick((const uint64_t[]){0, 3, 13, 100}, "offset") : 0;
    str in = op == WRITE || op == SEQ_WRITE ? sym_bytes(n, "data") : str(), out1(40, '\0'), out2 = out1;
    fuse_timespec ts[2] = {{(time_t)sym_u64("seconds"), 5}, {(time_t)sym_u64("seconds"), 6}};
    const char* x = op >= FGETX && op <= FREMOVEX && sym_choice(0, 1, "attribute") ? "user.y" : "user.x";
    size_t room = op == FGETX || op == FLISTX ? pick((const size_t[]){0, 4, 40}, "room") : 0;
    bool exclusive = op == LOCK && sym_choice(0, 1, "exclusive"), locking = op != LOCK || sym_choice(0, 1, "locking");
    set_lock_enabled(locking);
    auto before = ks::copy(real, seen0);
    bool less = false;
    if (how == 2)
    {
        less = (op == WRITE || op == SEQ_WRITE) && sym_choice(0, 1, "short");
        if (less)
            k.short_at = k.calls;
        else
        {
            k.fail_with = any_error();
            k.fail_at = k.calls;
        }
    }
    int syncs = k.fsyncs;
    k.last_flock = 0;
    got = on(real, [&](Result& r)
             {
                 call(r, [&]
                      {
                          switch (op)
                          {
                          case READ: r.rc = (long)s->read(&out1[0], off, n); break;
                          case SEQ_READ: r.rc = (long)s->sequential_read(&out1[0], n); break;
                          case WRITE: s->write(in.data(), off, n); break;
                          case SEQ_WRITE: s->sequential_write(in.data(), n); break;
                          case RESIZE: s->resize(off); break;
                          case SIZE: r.rc = (long)s->size(); break;
                          case FSTAT:
                          {
                              struct stat st;
                              s->fstat(&st);
                              r.out = text(st);
                              break;
                          }
                          case FSYNC: s->fsync(); break;
                          case FUTIMENS: s->utimens(ts); break;
                          case FGETX: r.rc = s->getxattr(x, &out1[0], room); break;
                          case FLISTX: r.rc = s->listxattr(&out1[0], room); break;
                          case FSETX: s->setxattr(x, (void*)"new", 3, 0); break;
                          case FREMOVEX: s->removexattr(x); break;
                          case LOCK: s->lock(exclusive); break;
                          case FLUSH: s->flush(); break;
                          }
                      });
             });
    if (how == 2)
    {
        if (!k.failed && !k.shortened)
        {
            CHECK(op == FLUSH || (op == LOCK && !locking) || less, "the operation does not reach the system");
            sym_assume(false);
        }
        if (less)
            CHECK(got.err > 0, "a part of the data is written and success is reported");
        else
            CHECK(got.err == k.fail_with && same_tree(real, before), "the error of the system");
        sym_reach("failed");
        return;
    }
    want = on(copy, [&](Result& r)
              {
                  struct stat st;
                  switch (op)
                  {
                  case READ: raw(r, pread(fd, &out2[0], n, (off_t)off)); break;
                  case SEQ_READ: raw(r, read(fd, &out2[0], n)); break;
                  case WRITE: raw(r, pwrite(fd, in.data(), n, (off_t)off)); r.rc = 0; break;
                  case SEQ_WRITE: raw(r, write(fd, in.data(), n)); r.rc = 0; break;
                  case RESIZE: raw(r, ftruncate(fd, (off_t)off)); break;
                  case SIZE: fstat(fd, &st); r.rc = st.st_size; break;
                  case FSTAT: raw(r, fstat(fd, &st)); r.out = text(st); break;
                  case FUTIMENS: raw(r, futimens(fd, ts)); break;
                  case FGETX: raw(r, fgetxattr(fd, x, &out2[0], room)); break;
                  case FLISTX: raw(r, flistxattr(fd, &out2[0], room)); break;
                  case FSETX: raw(r, fsetxattr(fd, x, "new", 3, 0)); break;
                  case FREMOVEX: raw(r, fremovexattr(fd, x)); break;
                  }
              });
    CHECK(got.err == want.err, "result");
    CHECK(got.err || (got.rc == want.rc && same(got.out, want.out)), "what is returned");
    CHECK(same(out1, out2), "what is read");
    CHECK(same_tree(real, copy), "the effect of the operation");
    if (op == FSYNC)
        CHECK(k.fsyncs == syncs + 1, "the data are not synchronised");
    if (op == LOCK)
    {
        CHECK(k.last_flock == (!locking ? 0 : exclusive ? LOCK_EX : LOCK_SH), "the lock that is taken");
        on(real, [&](Result&) { s->unlock(); });
        CHECK(k.last_flock == (locking ? LOCK_UN : 0), "the lock is not given up");
    }
    // the next ones in sequence
    if (op == SEQ_READ && !got.err)
    {
        on(real, [&](Result& r) { call(r, [&] { got.rc = (long)s->sequential_read(&out1[0], 3); }); });
        want.rc = read(fd, &out2[0], 3);
        CHECK(got.rc == want.rc && same(out1, out2), "reading on");
    }
    if (op == SEQ_WRITE && !got.err)
    {
        on(real, [&](Result& r) { call(r, [&] { s->sequential_write("end", 3); }); });
        on(copy, [&](Result&) { CHECK(write(fd, "end", 3) == 3, "write"); });
        CHECK(same_tree(real, copy), "writing on");
    }
    int closed = k.closed;
    s.reset();
    CHECK(k.closed == closed + 1, "the descriptor is closed");
    sym_reach(want.err ? "error" : "done");
}
// reading directories
extern "C" void h_traverse()
{
    ks::Active active;
    tree();
    OSService os("/r");
    auto& k = ks::k();
    str p = path("path");
    bool fault = sym_choice(0, 1, "fault");
    if (fault)
    {
        k.fail_with = any_error();
        k.fail_at = k.calls + sym_choice(0, 6, "call");
    }
    auto w = ks::walk(AT_FDCWD, ("/r/" + p).c_str(), true);
    int opened = k.opened - k.closed;
    std::vector<std::pair<str, std::pair<unsigned, uint64_t>>> v;
    bool again = !fault && sym_choice(0, 1, "again"), end = false;
    Result r;
    call(r, [&]
         {
             auto t = os.create_traverser(p);
             for (int i = 0; i < (again ? 2 : 1); ++i)
             {
                 v.clear();
                 if (i)
                     t->rewind();
                 str name;
                 fuse_stat st;
                 while (t->next(&name, &st))
                     v.push_back({name, {st.st_mode & S_IFMT, st.st_ino}});
             }
             end = true;
         });
    CHECK(k.opened - k.closed == opened, "a directory is left open");
    if (fault)
    {
        if (!k.failed)
            sym_assume(false);
        CHECK(!end && r.err == k.fail_with, "a failure is taken for the end of the directory");
        sym_reach("failed");
        return;
    }
    int err = w.err ? w.err : w.node->dir() ? 0 : ENOTDIR;
    CHECK(r.err == err, "result");
    if (err)
    {
        sym_reach("error");
        return;
    }
    size_t n = 0;
    for (auto& x : v)
    {
        if (x.first == "." || x.first == "..")
            continue;
        auto c = mos::child(w.node, x.first);
        CHECK(c && x.second.first == (c->mode & S_IFMT) && x.second.second == c->ino, "an entry");
        ++n;
    }
    CHECK(n == w.node->kids.size(), "number of entries");
    sym_reach("done");
}
// the directory of a repository
extern "C" void h_base()
{
    ks::Active active;
    tree();
    auto& k = ks::k();
    str p = path("path");
    bool fault = sym_choice(0, 1, "fault");
    if (fault)
    {
        k.fail_with = any_error();
        k.fail_at = k.calls + sym_choice(0, 1, "call");
    }
    auto w = ks::walk(AT_FDCWD, ("/r/" + p).c_str(), true);
    std::unique_ptr<OSService> os;
    int open = k.opened - k.closed;
    Result r;
    call(r, [&] { os = std::make_unique<OSService>("/r/" + p); });
    CHECK((r.err == 0) == !!os, "result");
    if (fault)
    {
        if (w.err && !k.failed)
            sym_assume(false);
        CHECK(k.failed && r.err == k.fail_with, "the error of the system");
        CHECK(k.opened - k.closed == open, "a descriptor is left open");
        sym_reach("failed");
        return;
    }
    CHECK(r.err == w.err, "result");
    if (os)
    {
        bool lock = sym_choice(0, 1, "lock"), fail = sym_choice(0, 1, "lock fails");
        set_lock_enabled(lock);
        k.last_flock = 0;
        if (fail)
        {
            k.fail_with = EWOULDBLOCK;
            k.fail_at = k.calls;
        }
        Result l;
        call(l, [&] { os->lock(); });
        CHECK(l.err == (lock && fail ? EWOULDBLOCK : 0) && k.last_flock == (lock ? LOCK_EX | LOCK_NB : 0), "lock");
        k.fail_at = -1;
        if (w.node->dir())
        {
            fuse_statvfs sv;
            os->statfs(&sv);
            CHECK(sv.f_bavail == 123, "statfs");
        }
        os.reset();
        CHECK(k.opened - k.closed == open, "a descriptor is left open");
    }
    sym_reach(w.err ? "error" : "done");
}

// offsets and sizes of every magnitude reach the system as they are
extern "C" void h_far()
{
    ks::Active active;
    tree();
    OSService os("/r");
    auto& k = ks::k();
    os.open_file_stream("far", O_RDWR | O_CREAT | O_EXCL, 0644)->close();
    auto s = os.open_file_stream("far", O_RDWR, 0);
    k.far_file = true;
    uint64_t off = sym_u64("offset");
    sym_assume(off < (1ull << 63) - 8192);
    static const size_t L[] = {1, 4, 4096};
    size_t len = pick(L, "length");
    std::string b(len, 'b');
    switch (sym_choice(0, 3, "operation"))
    {
    case 0:
        k.far_done = (long)sym_range(0, len, "done");
        CHECK(s->read(&b[0], off, len) == (uint64_t)k.far_done, "number of bytes read");
        CHECK(k.far_what == 1 && k.far_off == off && k.far_len == len, "place of a read");
        break;
    case 1:
    {
        k.far_done = (long)sym_range(0, len, "done");
        bool failed = throws([&] { s->write(b.data(), off, len); });
        CHECK(failed == (k.far_done != (long)len), "a part of the data is written and success is reported");
        CHECK(k.far_what == 2 && k.far_off == off && k.far_len == len, "place of a write");
        break;
    }
    case 2:
        s->resize(off);
        CHECK(k.far_what == 3 && k.far_off == off, "new size");
        break;
    default:
        k.far_size = (long)off;
        CHECK(s->size() == off, "size");
        struct stat st;
        s->fstat(&st);
        CHECK((uint64_t)st.st_size == off, "size");
    }
    k.far_file = false;
    s->close();
    sym_reach("far");
}
