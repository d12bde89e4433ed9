// Tree of inodes that the models of the operating system are made of.
#pragma once
#include "model.h"
#include "platform.h"
#include "mystring.h"
#include <algorithm>
#include <cerrno>
#include <map>
#include <sys/xattr.h>
namespace mos
{
using namespace securefs;
inline void point()    // another thread may run at an operating system call
{
#ifdef SYM_SCHED
    sched::point();
#endif
}
struct Inode
{
    unsigned mode = 0, nlink = 0, uid = 0, gid = 0;
    uint64_t ino = 0;
    std::vector<unsigned char> d;
    std::vector<std::pair<std::string, std::shared_ptr<Inode>>> kids;
    std::vector<std::pair<std::string, std::string>> xattr;
    fuse_timespec at{}, mt{};
    int locked = 0;    // by flock; -1: exclusively
    std::vector<unsigned char> durable;    // what a loss of power leaves, if `unsynced`
    bool unsynced = false;
    std::shared_ptr<StreamBase> far;    // content of any size, instead of `d`
    bool dir() const { return (mode & S_IFMT) == S_IFDIR; }
};
using InodeP = std::shared_ptr<Inode>;
#ifdef SYM_SCHED
inline bool io_points = false;    // threads may also switch at every access to a file's data
inline void io_point()
{
    if (io_points)
        point();
}
#else
inline void io_point() {}
#endif
struct FS
{
    InodeP root = std::make_shared<Inode>();
    uint64_t next_ino = 2;
    long fail_after = -1;    // namespace modifications that still succeed before EIO, -1: never fail
    long write_fail_after = -1;    // writes that still succeed before ENOSPC, -1: never fail
    long io_fail_after = -1;    // calls of any kind that still succeed before EIO, -1: never fail
    bool io_once = false;    // only one call fails
    int io_failures = 0;
    int modifications = 0, opened = 0, closed = 0;
    fuse_timespec now{1000, 1};
    int time_calls = 0;
    bool tick = true;
    FS()
    {
        root->mode = S_IFDIR | 0755;
        root->nlink = 1;
        root->ino = 1;
    }
};
inline FS*& fsp()
{
    static FS* f = nullptr;
    return f;
}
inline FS& fs()
{
    if (!fsp())
        fsp() = new FS;
    return *fsp();
}
inline std::vector<std::string> split(const std::string& p)
{
    std::vector<std::string> r;
    std::string cur;
    for (char c : p)
        if (c == '/')
        {
            if (!cur.empty() && cur != ".")
                r.push_back(cur);
            cur.clear();
        }
        else
            cur.push_back(c);
    if (!cur.empty() && cur != ".")
        r.push_back(cur);
    return r;
}
inline InodeP child(const InodeP& d, const std::string& n)
{
    for (auto& k : d->kids)
        if (k.first == n)
            return k.second;
    return nullptr;
}
// finds the directory of a path and its last component; err is set when the directory does not exist
inline InodeP parent_of(const std::string& path, std::string& last, int& err)
{
    point();
    auto v = split(path);
    err = 0;
    InodeP d = fs().root;
    last.clear();
    for (size_t i = 0; i < v.size(); ++i)
    {
        if (v[i].size() > 255)
        {
            err = ENAMETOOLONG;
            return nullptr;
        }
        if (i + 1 == v.size())
        {
            last = v[i];
            return d;
        }
        InodeP n = v[i] == ".." ? nullptr : child(d, v[i]);
        if (!n)
        {
            err = ENOENT;
            return nullptr;
        }
        if (!n->dir())
        {
            err = ENOTDIR;
            return nullptr;
        }
        d = n;
    }
    return d;    // the root itself, last empty
}
inline InodeP lookup(const std::string& path, int& err)
{
    std::string last;
    InodeP d = parent_of(path, last, err);
    if (!d)
        return nullptr;
    if (last.empty())
        return d;
    InodeP n = child(d, last);
    if (!n)
        err = ENOENT;
    return n;
}
inline int io()
{
    auto& f = fs();
    if (f.io_fail_after < 0)
        return 0;
    if (f.io_fail_after > 0)
    {
        --f.io_fail_after;
        return 0;
    }
    ++f.io_failures;
    if (f.io_once)
        f.io_fail_after = -1;
    return EIO;
}
inline int modify()
{
    auto& f = fs();
    ++f.modifications;
    if (int err = io())
        return err;
    if (f.fail_after == 0)
        return EIO;
    if (f.fail_after > 0)
        --f.fail_after;
    return 0;
}
inline InodeP add(const InodeP& d, const std::string& name, unsigned mode)
{
    auto n = std::make_shared<Inode>();
    n->mode = mode;
    n->nlink = 1;
    n->ino = fs().next_ino++;
    n->at = n->mt = fs().now;
    d->kids.push_back({name, n});
    return n;
}
inline void drop(const InodeP& d, const std::string& name)
{
    for (size_t i = 0; i < d->kids.size(); ++i)
        if (d->kids[i].first == name)
        {
            --d->kids[i].second->nlink;
            d->kids.erase(d->kids.begin() + i);
            return;
        }
}
inline void to_stat(const InodeP& n, fuse_stat* st)
{
    memset(st, 0, sizeof *st);
    st->st_mode = n->mode;
    st->st_nlink = n->nlink;
    st->st_uid = n->uid;
    st->st_gid = n->gid;
    st->st_ino = n->ino;
    st->st_size = n->far ? n->far->size() : n->d.size();
    st->st_atim = n->at;
    st->st_mtim = n->mt;
    st->st_ctim = n->mt;
}
inline ssize_t x_get(const InodeP& n, const char* name, void* buf, size_t size)
{
    for (auto& x : n->xattr)
        if (x.first == name)
        {
            if (!size)
                return x.second.size();
            if (size < x.second.size())
                return -ERANGE;
            if (!x.second.empty())
                memcpy(buf, x.second.data(), x.second.size());
            return x.second.size();
        }
    return -ENODATA;
}
inline ssize_t x_list(const InodeP& n, char* buf, size_t size)
{
    size_t need = 0;
    for (auto& x : n->xattr)
        need += x.first.size() + 1;
    if (!size)
        return need;
    if (size < need)
        return -ERANGE;
    for (auto& x : n->xattr)
    {
        memcpy(buf, x.first.c_str(), x.first.size() + 1);
        buf += x.first.size() + 1;
    }
    return need;
}
inline int x_set(const InodeP& n, const char* name, const void* v, size_t size, int flags)
{
    std::string val((const char*)v, size);
    for (auto& x : n->xattr)
        if (x.first == name)
        {
            if (flags & XATTR_CREATE)
                return -EEXIST;
            x.second = val;
            return 0;
        }
    if (flags & XATTR_REPLACE)
        return -ENODATA;
    n->xattr.push_back({name, val});
    return 0;
}
inline int x_remove(const InodeP& n, const char* name)
{
    for (size_t i = 0; i < n->xattr.size(); ++i)
        if (n->xattr[i].first == name)
        {
            n->xattr.erase(n->xattr.begin() + i);
            return 0;
        }
    return -ENODATA;
}
}    // namespace mos
