// In-memory operating system: files, directories, extended attributes, clock. Defines OSService, so link it instead of
// unix.cpp (together with the real common_platform.cpp). Included by exactly one translation unit per harness.
#pragma once
#include "tree.h"
namespace mos
{
class File : public FileStream
{
public:
    InodeP n;
    bool open = true;
    offset_type pos = 0;
    int flags;
    explicit File(InodeP i, int fl = O_RDWR) : n(std::move(i)), flags(fl)
    {
        sched::Quiet q_;
        ++fs().opened;
    }
    ~File()
    {
        sched::Quiet q_;
        if (open)
            ++fs().closed;
    }
    static ssize_t rcx(ssize_t rc)
    {
        if (rc < 0)
            throwVFSException((int)-rc);
        return rc;
    }
    void fsync() override
    {
        sched::Quiet q_;
        io_fails();
        n->unsynced = false;
    }
    static void io_fails()
    {
        if (int err = io())
            throwVFSException(err);
    }
    void change()
    {
        if (!n->unsynced)
            n->durable = n->d;
        n->unsynced = true;
    }
    void utimens(const fuse_timespec ts[2]) override
    {
        sched::Quiet q_;
        io_fails();
        n->at = ts ? ts[0] : fs().now;
        n->mt = ts ? ts[1] : fs().now;
    }
    void fstat(fuse_stat* st) const override { sched::Quiet q_; to_stat(n, st); }
    void close() noexcept override
    {
        sched::Quiet q_;
        if (open)
            ++fs().closed;
        open = false;
    }
    ssize_t listxattr(char* b, size_t s) override { sched::Quiet q_; io_fails(); return rcx(x_list(n, b, s)); }
    ssize_t getxattr(const char* k, void* b, size_t s) override { sched::Quiet q_; io_fails(); return rcx(x_get(n, k, b, s)); }
    void setxattr(const char* k, void* b, size_t s, int f) override { sched::Quiet q_; io_fails(); rcx(x_set(n, k, b, s, f)); }
    void removexattr(const char* k) override { sched::Quiet q_; io_fails(); rcx(x_remove(n, k)); }
#ifdef SYM_SCHED
    int held = 0;
    static bool none(void* p) { return ((Inode*)p)->locked == 0; }
    static bool no_writer(void* p) { return ((Inode*)p)->locked >= 0; }
    void lock(bool exclusive) override
    {
        sched::Quiet q_;
        point();
        if (held)
            return;    // would convert the lock it has
        sched::block(exclusive ? &none : &no_writer, n.get());
        held = exclusive ? -1 : 1;
        n->locked += held;
        sym_race(4, n.get());
        if (exclusive)
            sym_race(4, (char*)n.get() + 1);
    }
    void unlock() noexcept override
    {
        sched::Quiet q_;
        if (!held)
            return;
        sym_race(5, (char*)n.get() + (held > 0));
        n->locked -= held;
        held = 0;
        point();
    }
#else
    void lock(bool) override {}
    void unlock() noexcept override {}
#endif
    length_type sequential_read(void* o, length_type l) override
    {
        sched::Quiet q_;
        auto k = read(o, pos, l);
        pos += k;
        return k;
    }
    void sequential_write(const void* i, length_type l) override
    {
        sched::Quiet q_;
        write(i, pos, l);
        pos += l;
    }
    length_type read(void* output, offset_type offset, length_type length) override
    {
        sched::Quiet q_;
        io_point();
        if ((flags & O_ACCMODE) == O_WRONLY)
            throwVFSException(EBADF);
        io_fails();
        if (n->far)
            return n->far->read(output, offset, length);
        if (offset >= n->d.size())
            return 0;
        length_type k = std::min<length_type>(length, n->d.size() - offset);
        if (k)
            memcpy(output, n->d.data() + offset, k);
        return k;
    }
    void write(const void* input, offset_type offset, length_type length) override
    {
        sched::Quiet q_;
        io_point();
        if (!length)
            return;
        if ((flags & O_ACCMODE) == O_RDONLY)
            throwVFSException(EBADF);
        io_fails();
        if (flags & O_APPEND)
            offset = size();
        if (fs().write_fail_after == 0)
            throwVFSException(ENOSPC);
        if (fs().write_fail_after > 0)
            --fs().write_fail_after;
        if (n->far)
            return n->far->write(input, offset, length);
        change();
        if (offset + length > n->d.size())
            n->d.resize(offset + length, 0);
        memcpy(n->d.data() + offset, input, length);
    }
    length_type size() const override { sched::Quiet q_; io_point(); return n->far ? n->far->size() : n->d.size(); }
    void flush() override { sched::Quiet q_; }
    void resize(length_type k) override { sched::Quiet q_; io_point(); if ((flags & O_ACCMODE) == O_RDONLY) throwVFSException(EINVAL); io_fails(); if (n->far) return n->far->resize(k); change(); n->d.resize(k, 0); }
    bool is_sparse() const noexcept override { sched::Quiet q_; return true; }
};
// power is lost: of every file not synchronised since its last change, either state may be left
inline void sync_all(const InodeP& i = fs().root)
{
    i->unsynced = false;
    for (auto& k : i->kids)
        sync_all(k.second);
}
inline void lose_power(const InodeP& i = fs().root)
{
    if (i->unsynced && sym_fork_flag("lost"))
        i->d = i->durable;
    i->unsynced = false;
    for (auto& k : i->kids)
        lose_power(k.second);
}
inline std::shared_ptr<File> new_file() { return std::make_shared<File>(std::make_shared<Inode>()); }
class Traverser : public DirectoryTraverser
{
    InodeP d;
    std::vector<std::pair<std::string, unsigned>> v;
    size_t i = 0;

public:
    explicit Traverser(InodeP x) : d(std::move(x)) { rewind(); }
    bool next(std::string* name, fuse_stat* st) override
    {
        sched::Quiet q_;
        if (i >= v.size())
            return false;
        if (st)
        {
            memset(st, 0, sizeof *st);
            st->st_mode = v[i].second & S_IFMT;
            st->st_ino = 77 + i;
        }
        if (name)
            *name = v[i].first;
        ++i;
        return true;
    }
    void rewind() override
    {
        sched::Quiet q_;
        i = 0;
        v.clear();
        v.push_back({".", S_IFDIR});
        v.push_back({"..", S_IFDIR});
        for (auto& k : d->kids)
            v.push_back({k.first, k.second->mode});
    }
};
inline void raise(int e)
{
    if (e)
        throwVFSException(e);
}
inline int unlink_(const std::string& path)
{
    std::string last;
    int err;
    auto d = parent_of(path, last, err);
    if (!d)
        return err;
    auto n = child(d, last);
    if (!n)
        return ENOENT;
    if (n->dir())
        return EISDIR;
    if ((err = modify()))
        return err;
    drop(d, last);
    return 0;
}
inline int rmdir_(const std::string& path)
{
    std::string last;
    int err;
    auto d = parent_of(path, last, err);
    if (!d)
        return err;
    auto n = child(d, last);
    if (!n)
        return ENOENT;
    if (!n->dir())
        return ENOTDIR;
    if (!n->kids.empty())
        return ENOTEMPTY;
    if ((err = modify()))
        return err;
    drop(d, last);
    return 0;
}
inline int mkdir_(const std::string& path, unsigned mode)
{
    std::string last;
    int err;
    auto d = parent_of(path, last, err);
    if (!d)
        return err;
    if (last.empty() || child(d, last))
        return EEXIST;
    if ((err = modify()))
        return err;
    add(d, last, S_IFDIR | (mode & 07777));
    return 0;
}
}    // namespace mos
namespace securefs
{
const char* PATH_SEPARATOR_STRING = "/";
const char PATH_SEPARATOR_CHAR = '/';
OSService::OSService() { m_dir_fd = -1; }
OSService::OSService(const std::string&)
{
    m_dir_fd = -1;
    m_dir_name = "/";
}
OSService::~OSService() {}
bool OSService::is_absolute(std::string_view path) { sched::Quiet q_; return !path.empty() && path[0] == '/'; }
native_string_type OSService::concat_and_norm(std::string_view base, std::string_view path)
{
    sched::Quiet q_;
    if (base.empty() || is_absolute(path))
        return std::string(path);
    std::string r(base);
    if (r.back() != '/')
        r.push_back('/');
    r.append(path.data(), path.size());
    return r;
}
std::shared_ptr<FileStream> OSService::open_file_stream(const std::string& path, int flags, unsigned mode) const
{
    sched::Quiet q_;
    std::string last;
    int err;
    auto d = mos::parent_of(path, last, err);
    if (!d)
        throwVFSException(err);
    auto n = last.empty() ? d : mos::child(d, last);
    if (n)
        mos::File::io_fails();
    if (!n)
    {
        if (!(flags & O_CREAT))
            throwVFSException(ENOENT);
        mos::raise(mos::modify());
        n = mos::add(d, last, S_IFREG | (mode & 07777));
    }
    else if ((flags & O_CREAT) && (flags & O_EXCL))
        throwVFSException(EEXIST);
    else if ((n->mode & S_IFMT) == S_IFLNK)
        throwVFSException(ELOOP);
    else if (n->dir() && (flags & O_ACCMODE) != O_RDONLY)
        throwVFSException(EISDIR);
    else if (flags & O_TRUNC)
    {
        auto f = std::make_shared<mos::File>(n, flags);
        f->change();
        n->d.clear();
        return f;
    }
    return std::make_shared<mos::File>(n, flags);
}
bool OSService::remove_file_nothrow(const std::string& path) const noexcept { sched::Quiet q_; return mos::unlink_(path) == 0; }
bool OSService::remove_directory_nothrow(const std::string& path) const noexcept { sched::Quiet q_; return mos::rmdir_(path) == 0; }
void OSService::remove_file(const std::string& path) const { sched::Quiet q_; mos::raise(mos::unlink_(path)); }
void OSService::remove_directory(const std::string& path) const { sched::Quiet q_; mos::raise(mos::rmdir_(path)); }
void OSService::mkdir(const std::string& path, unsigned mode) const { sched::Quiet q_; mos::raise(mos::mkdir_(path, mode)); }
void OSService::ensure_directory(const std::string& path, unsigned mode) const
{
    sched::Quiet q_;
    int e = mos::mkdir_(path, mode);
    if (e != EEXIST)
        mos::raise(e);
}
void OSService::rename(const std::string& a, const std::string& b) const
{
    sched::Quiet q_;
    std::string la, lb;
    int err;
    auto da = mos::parent_of(a, la, err);
    mos::raise(err);
    auto db = mos::parent_of(b, lb, err);
    mos::raise(err);
    auto na = mos::child(da, la), nb = mos::child(db, lb);
    if (!na)
        throwVFSException(ENOENT);
    if (na == nb)
        return;
    if (nb)
    {
        if (nb->dir() && !na->dir())
            throwVFSException(EISDIR);
        if (!nb->dir() && na->dir())
            throwVFSException(ENOTDIR);
        if (nb->dir() && !nb->kids.empty())
            throwVFSException(ENOTEMPTY);
    }
    mos::raise(mos::modify());
    if (nb)
        mos::drop(db, lb);
    mos::drop(da, la);
    ++na->nlink;
    db->kids.push_back({lb, na});
}
void OSService::link(const std::string& a, const std::string& b) const
{
    sched::Quiet q_;
    int err;
    auto n = mos::lookup(a, err);
    mos::raise(err);
    std::string lb;
    auto db = mos::parent_of(b, lb, err);
    mos::raise(err);
    if (mos::child(db, lb))
        throwVFSException(EEXIST);
    if (n->dir())
        throwVFSException(EPERM);
    mos::raise(mos::modify());
    ++n->nlink;
    db->kids.push_back({lb, n});
}
void OSService::symlink(const std::string& to, const std::string& from) const
{
    sched::Quiet q_;
    std::string last;
    int err;
    auto d = mos::parent_of(from, last, err);
    mos::raise(err);
    if (mos::child(d, last))
        throwVFSException(EEXIST);
    if (to.empty())
        throwVFSException(ENOENT);
    mos::raise(mos::modify());
    auto n = mos::add(d, last, S_IFLNK | 0777);
    n->d.assign(to.begin(), to.end());
}
ssize_t OSService::readlink(const std::string& path, char* out, size_t size) const
{
    sched::Quiet q_;
    int err;
    auto n = mos::lookup(path, err);
    mos::raise(err);
    if ((n->mode & S_IFMT) != S_IFLNK)
        throwVFSException(EINVAL);
    size_t k = std::min(size, n->d.size());
    if (k)
        memcpy(out, n->d.data(), k);
    return k;
}
bool OSService::stat(const std::string& path, fuse_stat* st) const
{
    sched::Quiet q_;
    int err;
    auto n = mos::lookup(path, err);
    if (err == ENOENT)
        return false;
    mos::raise(err);
    mos::to_stat(n, st);
    return true;
}
void OSService::lock() const { sched::Quiet q_; }
void OSService::statfs(fuse_statvfs* s) const { sched::Quiet q_; memset(s, 0, sizeof *s); }
void OSService::utimens(const std::string& path, const fuse_timespec ts[2]) const
{
    sched::Quiet q_;
    int err;
    auto n = mos::lookup(path, err);
    mos::raise(err);
    mos::File(n).utimens(ts);
}
void OSService::chmod(const std::string& path, fuse_mode_t mode) const
{
    sched::Quiet q_;
    int err;
    auto n = mos::lookup(path, err);
    mos::raise(err);
    n->mode = (n->mode & S_IFMT) | (mode & 07777);
}
void OSService::chown(const std::string& path, fuse_uid_t uid, fuse_gid_t gid) const
{
    sched::Quiet q_;
    int err;
    auto n = mos::lookup(path, err);
    mos::raise(err);
    if (uid != (fuse_uid_t)-1)
        n->uid = uid;
    if (gid != (fuse_gid_t)-1)
        n->gid = gid;
}
std::unique_ptr<DirectoryTraverser> OSService::create_traverser(const std::string& dir) const
{
    sched::Quiet q_;
    int err;
    auto n = mos::lookup(dir, err);
    mos::raise(err);
    if (!n->dir())
        throwVFSException(ENOTDIR);
    return std::make_unique<mos::Traverser>(n);
}
ssize_t OSService::listxattr(const char* path, char* buf, size_t size) const noexcept
{
    sched::Quiet q_;
    int err;
    auto n = mos::lookup(path, err);
    return n ? mos::x_list(n, buf, size) : -err;
}
ssize_t OSService::getxattr(const char* path, const char* name, void* buf, size_t size) const noexcept
{
    sched::Quiet q_;
    int err;
    auto n = mos::lookup(path, err);
    return n ? mos::x_get(n, name, buf, size) : -err;
}
int OSService::setxattr(const char* path, const char* name, void* buf, size_t size, int flags) const noexcept
{
    sched::Quiet q_;
    int err;
    auto n = mos::lookup(path, err);
    return n ? mos::x_set(n, name, buf, size, flags) : -err;
}
int OSService::removexattr(const char* path, const char* name) const noexcept
{
    sched::Quiet q_;
    int err;
    auto n = mos::lookup(path, err);
    return n ? mos::x_remove(n, name) : -err;
}
uint32_t OSService::getuid() noexcept { sched::Quiet q_; return 1000; }
uint32_t OSService::getgid() noexcept { sched::Quiet q_; return 1000; }
void OSService::get_current_time(fuse_timespec& out)
{
    sched::Quiet q_;
    auto& f = mos::fs();
    ++f.time_calls;
    if (f.tick)
        ++f.now.tv_sec;
    out = f.now;
}
std::string OSService::stringify_system_error(int) { sched::Quiet q_; return "error"; }
bool OSService::is_process_running(pid_t) { sched::Quiet q_; return false; }
pid_t OSService::get_current_process_id() { sched::Quiet q_; return 4242; }
unsigned OSService::get_cmd_for_query_ioctl() noexcept { sched::Quiet q_; return 1; }
unsigned OSService::get_cmd_for_trigger_unmount_ioctl() noexcept { sched::Quiet q_; return 2; }
}    // namespace securefs
