// The operations of a file system: name, parameters, arguments (the context first).
#pragma once
#define OPS(X) \
    X(statfs, (const char* a, fuse_statvfs* b, const fuse_context* c), (c, a, b)) \
    X(getattr, (const char* a, fuse_stat* b, const fuse_context* c), (c, a, b)) \
    X(fgetattr, (const char* a, fuse_stat* b, fuse_file_info* d, const fuse_context* c), (c, a, b, d)) \
    X(opendir, (const char* a, fuse_file_info* d, const fuse_context* c), (c, a, d)) \
    X(releasedir, (const char* a, fuse_file_info* d, const fuse_context* c), (c, a, d)) \
    X(readdir, (const char* a, void* b, fuse_fill_dir_t f, fuse_off_t o, fuse_file_info* d, const fuse_context* c), (c, a, b, f, o, d)) \
    X(create, (const char* a, fuse_mode_t m, fuse_file_info* d, const fuse_context* c), (c, a, m, d)) \
    X(open, (const char* a, fuse_file_info* d, const fuse_context* c), (c, a, d)) \
    X(release, (const char* a, fuse_file_info* d, const fuse_context* c), (c, a, d)) \
    X(read, (const char* a, char* b, size_t n, fuse_off_t o, fuse_file_info* d, const fuse_context* c), (c, a, b, n, o, d)) \
    X(write, (const char* a, const char* b, size_t n, fuse_off_t o, fuse_file_info* d, const fuse_context* c), (c, a, b, n, o, d)) \
    X(flush, (const char* a, fuse_file_info* d, const fuse_context* c), (c, a, d)) \
    X(ftruncate, (const char* a, fuse_off_t o, fuse_file_info* d, const fuse_context* c), (c, a, o, d)) \
    X(unlink, (const char* a, const fuse_context* c), (c, a)) \
    X(mkdir, (const char* a, fuse_mode_t m, const fuse_context* c), (c, a, m)) \
    X(rmdir, (const char* a, const fuse_context* c), (c, a)) \
    X(chmod, (const char* a, fuse_mode_t m, const fuse_context* c), (c, a, m)) \
    X(chown, (const char* a, fuse_uid_t u, fuse_gid_t g, const fuse_context* c), (c, a, u, g)) \
    X(symlink, (const char* a, const char* b, const fuse_context* c), (c, a, b)) \
    X(link, (const char* a, const char* b, const fuse_context* c), (c, a, b)) \
    X(readlink, (const char* a, char* b, size_t n, const fuse_context* c), (c, a, b, n)) \
    X(rename, (const char* a, const char* b, const fuse_context* c), (c, a, b)) \
    X(fsync, (const char* a, int m, fuse_file_info* d, const fuse_context* c), (c, a, m, d)) \
    X(truncate, (const char* a, fuse_off_t o, const fuse_context* c), (c, a, o)) \
    X(utimens, (const char* a, const fuse_timespec* t, const fuse_context* c), (c, a, t)) \
    X(listxattr, (const char* a, char* b, size_t n, const fuse_context* c), (c, a, b, n)) \
    X(getxattr, (const char* a, const char* b, char* v, size_t n, uint32_t p, const fuse_context* c), (c, a, b, v, n, p)) \
    X(setxattr, (const char* a, const char* b, const char* v, size_t n, int m, uint32_t p, const fuse_context* c), (c, a, b, v, n, m, p)) \
    X(removexattr, (const char* a, const char* b, const fuse_context* c), (c, a, b)) \
    X(ioctl, (const char* a, int m, void* v, fuse_file_info* d, unsigned f, void* w, const fuse_context* c), (c, a, m, v, d, f, w))
