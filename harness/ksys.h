// Model of the system calls that unix.cpp makes, on a tree of inodes: link the real unix.cpp with it. Included by exactly
// one translation unit per harness. Every call has a number: a chosen one fails, writes less than asked for, or is the
// point of a crash, for which a copy of the tree is kept.
#pragma once
#include "tree.h"
#include <dirent.h>
#include <fcntl.h>
#include <limits.h>
#include <sys/file.h>
#include <sys/ioctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/statfs.h>
#include <sys/statvfs.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <termios.h>
#include <unistd.h>
namespace ks
{
using mos::Inode;
using mos::InodeP;
struct Open
{
    InodeP n;
    int flags = 0;
    off_t pos = 0;
};
struct Kernel
{
    // a file of any size: what is asked for is only recorded
    bool far_file = false;
    long far_what = 0, far_size = 0, far_done = 0;
    uint64_t far_off = 0, far_len = 0;
    std::vector<std::shared_ptr<Open>> fds;
    std::map<Inode*, std::vector<unsigned char>> synced;    // data of the files whose last version is not on the disk
    long calls = 0, fail_at = -1, short_at = -1, crash_at = -1;
    int fail_with = EIO;
    bool failed = false, shortened = false;
    InodeP crash_root;
    std::map<Inode*, std::vector<unsigned char>> crash_synced;
    std::string input;    // on the standard input
    size_t input_pos = 0;
    int opened = 0, closed = 0, flocks = 0, last_flock = 0, fsyncs = 0;
    bool active = false;
    long fs_type = 0xEF53;
    int running = 0, kill_error = ESRCH;    // the process that is alive; what a signal to another one fails with
};
inline Kernel& k()
{
    static Kernel* p = new Kernel;
    return *p;
}
// paths mean those of the model
struct Active
{
    bool before = k().active;
    Active() { k().active = true; }
    ~Active() { k().active = before; }
};
constexpr int FD0 = 1000;
inline Open* get(int fd)
{
    int i = fd - FD0;
    if (i < 0 || i >= (int)k().fds.size() || !k().fds[i])
    {
        errno = EBADF;
        return nullptr;
    }
    return k().fds[i].get();
}
inline InodeP copy(const InodeP& n, std::map<Inode*, InodeP>& seen)
{
    auto& r = seen[n.get()];
    if (r)
        return r;
    r = std::make_shared<Inode>(*n);
    for (auto& c : r->kids)
        c.second = copy(c.second, seen);
    return r;
}
// true: the call fails
inline bool enter()
{
    auto& s = k();
    long i = s.calls++;
    if (i == s.crash_at)
    {
        std::map<Inode*, InodeP> seen;
        s.crash_root = copy(mos::fs().root, seen);
        for (auto& x : s.synced)
            if (seen.count(x.first))
                s.crash_synced[seen[x.first].get()] = x.second;
    }
    if (i == s.fail_at)
    {
        s.failed = true;
        errno = s.fail_with;
        return true;
    }
    return false;
}
inline int fail(int e)
{
    errno = e;
    return -1;
}
// the machine restarts after the crash: every file whose data were not synced has its old or its new data
inline bool restart()
{
    auto& s = k();
    if (!s.crash_root)
        return false;
    mos::fs().root = s.crash_root;
    for (auto& x : s.crash_synced)
        if (sym_fork_flag("lost"))
            x.first->d = x.second;
    s.synced.clear();
    s.fds.clear();
    s.crash_at = s.fail_at = s.short_at = -1;
    return true;
}
inline void changing(const InodeP& n)
{
    k().synced.insert({n.get(), n->d});
}
struct Walk
{
    InodeP dir, node;
    std::string last;
    int err = 0;
};
inline Walk walk(int at, const char* path, bool follow, int depth = 0)
{
    Walk w;
    if (!*path)
    {
        w.err = ENOENT;
        return w;
    }
    InodeP d = mos::fs().root;
    if (*path != '/' && at != AT_FDCWD)
    {
        auto o = get(at);
        if (!o || !o->n->dir())
        {
            w.err = o ? ENOTDIR : EBADF;
            return w;
        }
        d = o->n;
    }
    auto v = mos::split(path);
    bool must_dir = path[strlen(path) - 1] == '/';
    w.node = d;
    for (size_t i = 0; i < v.size(); ++i)
    {
        CHECK(v[i] != "..", "a path handed to the system goes up");
        if (!w.node->dir())
        {
            w.err = ENOTDIR;
            return w;
        }
        if (v[i].size() > 255)
        {
            w.err = ENAMETOOLONG;
            return w;
        }
        w.dir = w.node;
        w.last = v[i];
        w.node = mos::child(w.dir, v[i]);
        bool end = i + 1 == v.size();
        if (!w.node)
        {
            w.err = ENOENT;
            if (!end)
                w.dir = nullptr;
            return w;
        }
        if ((w.node->mode & S_IFMT) == S_IFLNK && (!end || follow || must_dir))
        {
            if (depth > 8)
            {
                w.err = ELOOP;
                return w;
            }
            std::string t(w.node->d.begin(), w.node->d.end());
            if (t[0] != '/')
            {
                std::string up = "/";    // the links of the harnesses are absolute or in the root
                t = up + t;
            }
            for (size_t j = i + 1; j < v.size(); ++j)
                t += "/" + v[j];
            return walk(AT_FDCWD, t.c_str(), follow, depth + 1);
        }
    }
    if (must_dir && !w.node->dir())
        w.err = ENOTDIR;
    return w;
}
inline int new_fd(const InodeP& n, int flags)
{
    auto o = std::make_shared<Open>();
    o->n = n;
    o->flags = flags;
    ++k().opened;
    for (size_t i = 0; i < k().fds.size(); ++i)
        if (!k().fds[i])
        {
            k().fds[i] = o;
            return FD0 + (int)i;
        }
    k().fds.push_back(o);
    return FD0 + (int)k().fds.size() - 1;
}
inline int open_at(int at, const char* path, int flags, unsigned mode)
{
    if (enter())
        return -1;
    auto w = walk(at, path, !(flags & O_NOFOLLOW) && !((flags & O_CREAT) && (flags & O_EXCL)));
    if (w.err && !(w.err == ENOENT && w.dir && (flags & O_CREAT)))
        return fail(w.err);
    if (!w.node)
        w.node = mos::add(w.dir, w.last, S_IFREG | (mode & 07777));
    else if ((flags & O_CREAT) && (flags & O_EXCL))
        return fail(EEXIST);
    else if ((w.node->mode & S_IFMT) == S_IFLNK)
        return fail(ELOOP);
    else if (w.node->dir() && ((flags & O_ACCMODE) != O_RDONLY || (flags & O_CREAT)))
        return fail(EISDIR);
    else if ((flags & O_DIRECTORY) && !w.node->dir())
        return fail(ENOTDIR);
    else if ((flags & O_TRUNC) && !w.node->dir())
    {
        changing(w.node);
        w.node->d.clear();
    }
    return new_fd(w.node, flags);
}
inline bool ours(int fd) { return fd >= FD0 || (k().active && fd == AT_FDCWD); }
struct Dir
{
    std::vector<std::pair<std::string, InodeP>> v;
    InodeP n;
    size_t i = 0;
    dirent e;
    void fill()
    {
        i = 0;
        v = {{".", n}, {"..", n}};
        for (auto& c : n->kids)
            v.push_back(c);
    }
};
inline ssize_t ret(ssize_t rc) { return rc < 0 ? fail((int)-rc) : rc; }
}    // namespace ks
#ifdef SYM_NATIVE
#define KS_ELSE(fd, ...)                                                                                               \
    if (!ks::ours(fd))                                                                                                 \
        return __VA_ARGS__;
#else
#define KS_ELSE(fd, ...)
#endif
namespace ks
{
inline ssize_t far_call(long what, uint64_t off, uint64_t len)
{
    k().far_what = what;
    k().far_off = off;
    k().far_len = len;
    return k().far_done;
}
}    // namespace ks
extern "C"
{
    int open(const char* path, int flags, ...)
    {
        unsigned mode = 0644;
        if (flags & O_CREAT)
        {
            va_list a;
            va_start(a, flags);
            mode = va_arg(a, unsigned);
            va_end(a);
        }
        KS_ELSE(AT_FDCWD, (int)syscall(SYS_openat, AT_FDCWD, path, flags, mode))
        return ks::open_at(AT_FDCWD, path, flags, mode);
    }
    int openat(int at, const char* path, int flags, ...)
    {
        unsigned mode = 0644;
        if (flags & O_CREAT)
        {
            va_list a;
            va_start(a, flags);
            mode = va_arg(a, unsigned);
            va_end(a);
        }
        KS_ELSE(at, (int)syscall(SYS_openat, at, path, flags, mode))
        return ks::open_at(at, path, flags, mode);
    }
    int close(int fd)
    {
        KS_ELSE(fd, (int)syscall(SYS_close, fd))
        if (!ks::get(fd))
            return -1;
        ks::k().fds[fd - ks::FD0] = nullptr;
        ++ks::k().closed;
        return 0;
    }
    int flock(int fd, int op) noexcept
    {
        KS_ELSE(fd, (int)syscall(SYS_flock, fd, op))
        ++ks::k().flocks;
        ks::k().last_flock = op;
        if (ks::enter() || !ks::get(fd))
            return -1;
        return 0;
    }
    int fsync(int fd)
    {
        KS_ELSE(fd, (int)syscall(SYS_fsync, fd))
        auto o = ks::get(fd);
        if (!o || ks::enter())
            return -1;
        ks::k().synced.erase(o->n.get());
        ++ks::k().fsyncs;
        return 0;
    }
    int fstat(int fd, struct stat* st) noexcept
    {
        KS_ELSE(fd, (int)syscall(SYS_fstat, fd, st))
        auto o = ks::get(fd);
        if (!o || ks::enter())
            return -1;
        mos::to_stat(o->n, st);
        if (ks::k().far_file)
            st->st_size = ks::k().far_size;
        return 0;
    }
    ssize_t pread(int fd, void* buf, size_t n, off_t off)
    {
        KS_ELSE(fd, (ssize_t)syscall(SYS_pread64, fd, buf, n, off))
        auto o = ks::get(fd);
        if (!o || ks::enter())
            return -1;
        if ((o->flags & O_ACCMODE) == O_WRONLY)
            return ks::fail(EBADF);
        if (o->n->dir())
            return ks::fail(EISDIR);
        if (off < 0)
            return ks::fail(EINVAL);
        if (ks::k().far_file)
            return ks::far_call(1, off, n);
        if ((size_t)off >= o->n->d.size())
            return 0;
        size_t c = std::min<size_t>(n, o->n->d.size() - off);
        if (c)
            memcpy(buf, o->n->d.data() + off, c);
        return c;
    }
    ssize_t read(int fd, void* buf, size_t n)
    {
        KS_ELSE(fd, (ssize_t)syscall(SYS_read, fd, buf, n))
        auto o = ks::get(fd);
        if (!o)
            return -1;
        ssize_t c = pread(fd, buf, n, o->pos);
        if (c > 0)
            o->pos += c;
        return c;
    }
    ssize_t pwrite(int fd, const void* buf, size_t n, off_t off)
    {
        KS_ELSE(fd, (ssize_t)syscall(SYS_pwrite64, fd, buf, n, off))
        auto o = ks::get(fd);
        if (!o)
            return -1;
        bool less = ks::k().calls == ks::k().short_at;
        if (ks::enter())
            return -1;
        if ((o->flags & O_ACCMODE) == O_RDONLY)
            return ks::fail(EBADF);
        if (off < 0)
            return ks::fail(EINVAL);
        if (ks::k().far_file)
            return ks::far_call(2, off, n);
        if (less && n)
        {
            ks::k().shortened = true;
            n /= 2;
        }
        if (!n)
            return 0;
        ks::changing(o->n);
        auto& d = o->n->d;
        if (off + n > d.size())
            d.resize(off + n, 0);
        memcpy(d.data() + off, buf, n);
        o->n->mt = mos::fs().now;
        return n;
    }
    ssize_t write(int fd, const void* buf, size_t n)
    {
        KS_ELSE(fd, (ssize_t)syscall(SYS_write, fd, buf, n))
        auto o = ks::get(fd);
        if (!o)
            return -1;
        ssize_t c = pwrite(fd, buf, n, o->pos);
        if (c > 0)
            o->pos += c;
        return c;
    }
    int ftruncate(int fd, off_t len) noexcept
    {
        KS_ELSE(fd, (int)syscall(SYS_ftruncate, fd, len))
        auto o = ks::get(fd);
        if (!o || ks::enter())
            return -1;
        if ((o->flags & O_ACCMODE) == O_RDONLY || len < 0)
            return ks::fail(EINVAL);
        if (ks::k().far_file)
            return ks::far_call(3, len, 0), 0;
        ks::changing(o->n);
        o->n->d.resize(len, 0);
        return 0;
    }
    int futimens(int fd, const struct timespec* ts) noexcept
    {
        auto o = ks::get(fd);
        if (!o || ks::enter())
            return -1;
        o->n->at = ts ? ts[0] : mos::fs().now;
        o->n->mt = ts ? ts[1] : mos::fs().now;
        return 0;
    }
    int fremovexattr(int fd, const char* name) noexcept
    {
        auto o = ks::get(fd);
        if (!o || ks::enter())
            return -1;
        return (int)ks::ret(mos::x_remove(o->n, name));
    }
    ssize_t fgetxattr(int fd, const char* name, void* v, size_t n) noexcept
    {
        auto o = ks::get(fd);
        if (!o || ks::enter())
            return -1;
        return ks::ret(mos::x_get(o->n, name, v, n));
    }
    ssize_t flistxattr(int fd, char* b, size_t n) noexcept
    {
        auto o = ks::get(fd);
        if (!o || ks::enter())
            return -1;
        return ks::ret(mos::x_list(o->n, b, n));
    }
    int fsetxattr(int fd, const char* name, const void* v, size_t n, int flags) noexcept
    {
        auto o = ks::get(fd);
        if (!o || ks::enter())
            return -1;
        return (int)ks::ret(mos::x_set(o->n, name, v, n, flags));
    }
    int lremovexattr(const char* path, const char* name) noexcept
    {
        if (ks::enter())
            return -1;
        auto w = ks::walk(AT_FDCWD, path, false);
        return w.err ? ks::fail(w.err) : (int)ks::ret(mos::x_remove(w.node, name));
    }
    ssize_t lgetxattr(const char* path, const char* name, void* v, size_t n) noexcept
    {
        if (ks::enter())
            return -1;
        auto w = ks::walk(AT_FDCWD, path, false);
        return w.err ? ks::fail(w.err) : ks::ret(mos::x_get(w.node, name, v, n));
    }
    ssize_t llistxattr(const char* path, char* b, size_t n) noexcept
    {
        if (ks::enter())
            return -1;
        auto w = ks::walk(AT_FDCWD, path, false);
        return w.err ? ks::fail(w.err) : ks::ret(mos::x_list(w.node, b, n));
    }
    int lsetxattr(const char* path, const char* name, const void* v, size_t n, int flags) noexcept
    {
        if (ks::enter())
            return -1;
        auto w = ks::walk(AT_FDCWD, path, false);
        return w.err ? ks::fail(w.err) : (int)ks::ret(mos::x_set(w.node, name, v, n, flags));
    }
    DIR* opendir(const char* path)
    {
        if (ks::enter())
            return nullptr;
        auto w = ks::walk(AT_FDCWD, path, true);
        if (!w.err && !w.node->dir())
            w.err = ENOTDIR;
        if (w.err)
        {
            errno = w.err;
            return nullptr;
        }
        auto d = new ks::Dir;
        d->n = w.node;
        d->fill();
        ++ks::k().opened;
        return (DIR*)d;
    }
    struct dirent* readdir(DIR* p)
    {
        auto d = (ks::Dir*)p;
        if (ks::enter())
            return nullptr;
        if (d->i >= d->v.size())
            return nullptr;
        memset(&d->e, 0, sizeof d->e);
        auto& x = d->v[d->i++];
        d->e.d_ino = x.second->ino;
        unsigned t = x.second->mode & S_IFMT;
        d->e.d_type = t == S_IFDIR ? DT_DIR : t == S_IFLNK ? DT_LNK : DT_REG;
        memcpy(d->e.d_name, x.first.c_str(), x.first.size() + 1);
        return &d->e;
    }
    int closedir(DIR* p)
    {
        ++ks::k().closed;
        delete (ks::Dir*)p;
        return 0;
    }
    void rewinddir(DIR* p) noexcept { ((ks::Dir*)p)->fill(); }
    char* realpath(const char* path, char* out) noexcept
    {
        if (ks::enter())
            return nullptr;
        auto w = ks::walk(AT_FDCWD, path, true);
        if (w.err)
        {
            errno = w.err;
            return nullptr;
        }
        std::string r;
        for (auto& c : mos::split(path))
            r += "/" + c;
        if (r.empty())
            r = "/";
        memcpy(out, r.c_str(), r.size() + 1);
        return out;
    }
    int unlinkat(int at, const char* path, int flags) noexcept
    {
        KS_ELSE(at, (int)syscall(SYS_unlinkat, at, path, flags))
        if (ks::enter())
            return -1;
        auto w = ks::walk(at, path, false);
        if (w.err)
            return ks::fail(w.err);
        if (!w.dir)
            return ks::fail(EBUSY);
        if (flags & AT_REMOVEDIR)
        {
            if (!w.node->dir())
                return ks::fail(ENOTDIR);
            if (!w.node->kids.empty())
                return ks::fail(ENOTEMPTY);
        }
        else if (w.node->dir())
            return ks::fail(EISDIR);
        mos::drop(w.dir, w.last);
        return 0;
    }
    int mkdirat(int at, const char* path, mode_t mode) noexcept
    {
        if (ks::enter())
            return -1;
        auto w = ks::walk(at, path, false);
        if (!w.err)
            return ks::fail(EEXIST);
        if (w.err != ENOENT || !w.dir)
            return ks::fail(w.err);
        mos::add(w.dir, w.last, S_IFDIR | (mode & 07777));
        return 0;
    }
    int symlinkat(const char* to, int at, const char* path) noexcept
    {
        if (ks::enter())
            return -1;
        if (!*to)
            return ks::fail(ENOENT);
        auto w = ks::walk(at, path, false);
        if (!w.err)
            return ks::fail(EEXIST);
        if (w.err != ENOENT || !w.dir)
            return ks::fail(w.err);
        auto n = mos::add(w.dir, w.last, S_IFLNK | 0777);
        n->d.assign(to, to + strlen(to));
        return 0;
    }
    int linkat(int a, const char* from, int b, const char* to, int flags) noexcept
    {
        if (ks::enter())
            return -1;
        auto w = ks::walk(a, from, flags & AT_SYMLINK_FOLLOW);
        if (w.err)
            return ks::fail(w.err);
        if (w.node->dir())
            return ks::fail(EPERM);
        auto x = ks::walk(b, to, false);
        if (!x.err)
            return ks::fail(EEXIST);
        if (x.err != ENOENT || !x.dir)
            return ks::fail(x.err);
        ++w.node->nlink;
        x.dir->kids.push_back({x.last, w.node});
        return 0;
    }
    int fstatvfs(int fd, struct statvfs* s) noexcept
    {
        if (ks::enter() || !ks::get(fd))
            return -1;
        memset(s, 0, sizeof *s);
        s->f_bsize = 4096;
        s->f_bavail = 123;
        return 0;
    }
    int statfs(const char* path, struct statfs* s) noexcept
    {
        KS_ELSE(AT_FDCWD, (int)syscall(SYS_statfs, path, s))
        if (ks::enter())
            return -1;
        memset(s, 0, sizeof *s);
        s->f_type = ks::k().fs_type;
        return 0;
    }
    int kill(pid_t pid, int sig) noexcept
    {
        CHECK(sig == 0, "a signal is sent");
        return pid > 0 && pid == ks::k().running ? 0 : ks::fail(ks::k().kill_error);
    }
    int renameat(int a, const char* from, int b, const char* to) noexcept
    {
        if (ks::enter())
            return -1;
        auto w = ks::walk(a, from, false);
        if (w.err)
            return ks::fail(w.err);
        auto x = ks::walk(b, to, false);
        if (x.err && !(x.err == ENOENT && x.dir))
            return ks::fail(x.err);
        if (w.node == x.node)
            return 0;
        if (x.node)
        {
            if (x.node->dir() != w.node->dir())
                return ks::fail(x.node->dir() ? EISDIR : ENOTDIR);
            if (!x.node->kids.empty())
                return ks::fail(ENOTEMPTY);
            mos::drop(x.dir, x.last);
        }
        mos::drop(w.dir, w.last);
        ++w.node->nlink;
        x.dir->kids.push_back({x.last, w.node});
        return 0;
    }
    int fstatat(int at, const char* path, struct stat* st, int flags) noexcept
    {
        KS_ELSE(at, (int)syscall(SYS_newfstatat, at, path, st, flags))
        if (ks::enter())
            return -1;
        auto w = ks::walk(at, path, !(flags & AT_SYMLINK_NOFOLLOW));
        if (w.err)
            return ks::fail(w.err);
        mos::to_stat(w.node, st);
        return 0;
    }
    int fchmodat(int at, const char* path, mode_t mode, int flags) noexcept
    {
        if (ks::enter())
            return -1;
        auto w = ks::walk(at, path, !(flags & AT_SYMLINK_NOFOLLOW));
        if (w.err)
            return ks::fail(w.err);
        if ((w.node->mode & S_IFMT) == S_IFLNK)
            return ks::fail(EOPNOTSUPP);
        w.node->mode = (w.node->mode & S_IFMT) | (mode & 07777);
        return 0;
    }
    int fchownat(int at, const char* path, uid_t u, gid_t g, int flags) noexcept
    {
        if (ks::enter())
            return -1;
        auto w = ks::walk(at, path, !(flags & AT_SYMLINK_NOFOLLOW));
        if (w.err)
            return ks::fail(w.err);
        if (u != (uid_t)-1)
            w.node->uid = u;
        if (g != (gid_t)-1)
            w.node->gid = g;
        return 0;
    }
    ssize_t readlinkat(int at, const char* path, char* out, size_t n) noexcept
    {
        KS_ELSE(at, (ssize_t)syscall(SYS_readlinkat, at, path, out, n))
        if (ks::enter())
            return -1;
        auto w = ks::walk(at, path, false);
        if (w.err)
            return ks::fail(w.err);
        if ((w.node->mode & S_IFMT) != S_IFLNK)
            return ks::fail(EINVAL);
        size_t c = std::min(n, w.node->d.size());
        if (c)
            memcpy(out, w.node->d.data(), c);
        return c;
    }
    int utimensat(int at, const char* path, const struct timespec* ts, int flags) noexcept
    {
        if (ks::enter())
            return -1;
        auto w = ks::walk(at, path, !(flags & AT_SYMLINK_NOFOLLOW));
        if (w.err)
            return ks::fail(w.err);
        w.node->at = ts ? ts[0] : mos::fs().now;
        w.node->mt = ts ? ts[1] : mos::fs().now;
        return 0;
    }
#ifdef SYM_NATIVE
    int isatty(int) noexcept { return 0; }
#endif
    int getc(FILE*)
    {
        auto& s = ks::k();
        return s.input_pos < s.input.size() ? (unsigned char)s.input[s.input_pos++] : EOF;
    }
#ifdef SYM_NATIVE
    int getchar() { return getc(stdin); }
#else
    int getrlimit(__rlimit_resource_t, struct rlimit* r) noexcept
    {
        r->rlim_cur = r->rlim_max = 1024;
        return 0;
    }
    int ioctl(int, unsigned long, ...) noexcept { return ks::fail(ENOTTY); }
#endif
}
