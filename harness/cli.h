// The command line program on the model of the system calls: real commands.cpp, internal_mount.cpp, unix.cpp and below.
#pragma once
#include "ksys.h"
#include "sqlite_model.h"
#include "commands.h"
#include "fuse2_workaround.h"
#include "fuse_high_level_ops_base.h"
#include "internal_mount.h"
#include "logger.h"
#include "params.pb.h"
#include <functional>
using namespace model;
namespace cli
{
inline DecryptedSecurefsParams& printed()
{
    static DecryptedSecurefsParams p;
    return p;
}
inline int& prints()
{
    static int n;
    return n;
}
// what happens while a file system is mounted
inline std::function<int(int, char**, fuse_operations*, void*)>& mounted()
{
    static std::function<int(int, char**, fuse_operations*, void*)> f;
    return f;
}
inline int run(std::vector<std::string> a, const std::string& input = "")
{
    auto& k = ks::k();
    k.input = input;
    k.input_pos = 0;
    a.insert(a.begin(), "securefs");
    std::vector<const char*> v;
    for (auto& x : a)
        v.push_back(x.c_str());
    k.active = true;
    int rc = commands_main((int)v.size(), v.data());
    k.active = false;
    return rc;
}
// the file at a path, with links followed
inline mos::InodeP file(const std::string& path) { return ks::walk(AT_FDCWD, path.c_str(), true).node; }
inline void put(const std::string& path, const std::string& content)
{
    auto w = ks::walk(AT_FDCWD, path.c_str(), true);
    if (!w.node)
        w.node = mos::add(w.dir, w.last, S_IFREG | 0644);
    w.node->d.assign(content.begin(), content.end());
}
inline std::string content(const std::string& path)
{
    auto n = file(path);
    CHECK(n && !n->dir(), "file is missing");
    return std::string(n->d.begin(), n->d.end());
}
inline bool same_params(const DecryptedSecurefsParams& a, const DecryptedSecurefsParams& b)
{
    return same(a.SerializeAsString(), b.SerializeAsString());
}
}    // namespace cli
namespace google::protobuf::util
{
bool sym_json_hook(std::string_view, securefs::LegacySecurefsJsonParams*) { return false; }
bool sym_json_out_hook(const securefs::DecryptedSecurefsParams& p, std::string* out)
{
    cli::printed() = p;
    ++cli::prints();
    *out = "{}";
    return true;
}
}    // namespace google::protobuf::util
namespace securefs
{
std::string sym_stdin() { return ks::k().input; }
static int g_exits;
void clean_exit_fuse() { ++g_exits; }
int my_fuse_main(int argc, char** argv, fuse_operations* op, void* data)
{
    CHECK(!!cli::mounted(), "unexpected mount");
    return cli::mounted()(argc, argv, op, data);
}
#ifndef SYM_LOG_CAPTURE    // otherwise the real logger is used
std::unique_ptr<Logger> Logger::create_file_logger(const std::string&) { return {}; }
std::unique_ptr<Logger> Logger::create_logger_from_native_handle(int64_t) { return {}; }
int64_t Logger::get_native_handle() const { return 2; }
#endif
}    // namespace securefs
extern "C" int fuse_version() { return 29; }
