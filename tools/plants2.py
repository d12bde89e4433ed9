from plant import plant
FULL = "$FULL"; BASE = "$BASE"
plant("b10-cancelled-request", "C37",
 [("fuse2_workaround.cpp", "            if (res == 0)\n            {\n                return;\n            }\n            fuse_session_process_buf(session, &fbuf, channel);\n",
   "            if (res == 0)\n            {\n                return;\n            }\n            pthread_setcancelstate(PTHREAD_CANCEL_ENABLE, nullptr);\n            fuse_session_process_buf(session, &fbuf, channel);\n")],
 r'''// libfuse is replaced by a session that hands out one slow request
#include "fuse2_workaround.h"
#include <atomic>
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <fuse_lowlevel.h>
#include <thread>
#include <unistd.h>
static int ends[2];
static std::atomic<bool> exited{false}, begun{false}, done{false};
static bool torn;
static int dummy;
extern "C"
{
    struct fuse* fuse_setup(int, char**, const fuse_operations*, size_t, char** m, int* mt, void*)
    {
        *m = nullptr;
        *mt = 0;
        return (struct fuse*)&dummy;
    }
    void fuse_teardown(struct fuse*, char*) { torn = true; }
    int fuse_start_cleanup_thread(struct fuse*) { return 0; }
    void fuse_stop_cleanup_thread(struct fuse*) {}
    struct fuse_session* fuse_get_session(struct fuse*) { return (struct fuse_session*)&dummy; }
    struct fuse_chan* fuse_session_next_chan(struct fuse_session*, struct fuse_chan*) { return (struct fuse_chan*)&dummy; }
    size_t fuse_chan_bufsize(struct fuse_chan*) { return 64; }
    int fuse_session_exited(struct fuse_session*) { return exited; }
    void fuse_session_exit(struct fuse_session*) { exited = true; }
    int fuse_session_receive_buf(struct fuse_session*, struct fuse_buf* b, struct fuse_chan**)
    {
        ssize_t n = read(ends[0], b->mem, 1);
        return n < 0 ? -errno : (int)n;
    }
    void fuse_session_process_buf(struct fuse_session*, const struct fuse_buf*, struct fuse_chan*)
    {
        begun = true;
        for (int i = 0; i < 50; ++i)
            usleep(10000);    // the system calls of an operation
        done = true;
    }
}
int main()
{
    if (pipe(ends) || write(ends[1], "r", 1) != 1)
        return 96;
    std::thread killer(
        []
        {
            sigset_t s;
            sigfillset(&s);
            pthread_sigmask(SIG_BLOCK, &s, nullptr);
            while (!begun)
                usleep(1000);
            usleep(100000);
            kill(getpid(), SIGTERM);
        });
    char a[] = "demo";
    char* argv[] = {a, nullptr};
    fuse_operations op{};
    int rc = securefs::my_fuse_main(1, argv, &op, nullptr);
    killer.join();
    printf("rc=%d finished=%d torn down=%d\n", rc, (int)done, torn);
    return rc == 0 && done && torn ? 0 : 1;
}
''', BASE + " fuse2_workaround.cpp", "a signal which arrives while a request is being processed", "the request is abandoned half way: its thread is cancelled at the next system call")
plant("b11-pid-of-others", "C35",
 [("unix.cpp", "    return errno != ESRCH;\n", "    return errno != ESRCH && errno != EPERM;\n")],
 r'''#include "platform.h"
#include <cstdio>
#include <sys/wait.h>
#include <unistd.h>
using securefs::OSService;
int main()
{
    pid_t me = getpid(), c = fork();
    if (!c)
    {
        if (getuid() == 0 && setuid(65534))
            _exit(96);
        // a process of another user runs; one which has ended does not
        if (getuid() == 65534 && !OSService::is_process_running(me))
            _exit(1);
        pid_t d = fork();
        if (!d)
            _exit(0);
        waitpid(d, nullptr, 0);
        _exit(OSService::is_process_running(d) ? 2 : OSService::is_process_running(getpid()) ? 0 : 3);
    }
    int s = 0;
    waitpid(c, &s, 0);
    printf("status %d\n", WEXITSTATUS(s));
    return WIFEXITED(s) ? WEXITSTATUS(s) : 4;
}
''', BASE, "a repository whose lock file names a running process of another user", "the lock of a running process of another user is taken over, so that two processes write the same repository")
plant("b12-short-write", "C36",
 [("unix.cpp", "            THROW_POSIX_EXCEPTION(errno, \"pwrite\");\n        if (static_cast<length_type>(rc) != length)\n", "            THROW_POSIX_EXCEPTION(errno, \"pwrite\");\n        if (rc == 0 && length > 0)\n")],
 r'''#include "platform.h"
#include "exceptions.h"
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <fcntl.h>
#include <string>
#include <sys/resource.h>
#include <unistd.h>
using namespace securefs;
int main()
{
    char t[] = "/tmp/demo.XXXXXX";
    std::string dir = mkdtemp(t);
    int bad = 0;
    {
        OSService os(dir);
        auto f = os.open_file_stream("f", O_RDWR | O_CREAT, 0600);
        signal(SIGXFSZ, SIG_IGN);
        rlimit r{8192, 8192};
        setrlimit(RLIMIT_FSIZE, &r);
        std::string data(10000, 'x');
        try
        {
            f->write(data.data(), 0, data.size());
            puts("a write that stored 8192 of 10000 bytes succeeded");
            bad = 1;
        }
        catch (const ExceptionBase& e)
        {
            printf("refused: %d\n", e.error_number());
        }
    }
    (void)!system(("rm -rf '" + dir + "'").c_str());
    return bad;
}
''', BASE, "the file system below becomes full, or a limit is reached, in the middle of a write", "the part which was not stored is lost without an error")

plant("b13-padding-order", "C34",
 [("lite_stream.cpp", "CryptoPP::BIG_ENDIAN_ORDER", "CryptoPP::LITTLE_ENDIAN_ORDER")],
 r'''#include "lite_stream.h"
#include "exceptions.h"
#include <cstdio>
#include <cstring>
#include <string>
using namespace securefs;
struct Mem : StreamBase
{
    std::string d;
    length_type read(void* o, offset_type off, length_type n) override
    {
        if (off >= d.size()) return 0;
        n = std::min<length_type>(n, d.size() - off);
        memcpy(o, d.data() + off, n);
        return n;
    }
    void write(const void* i, offset_type off, length_type n) override
    {
        if (off + n > d.size()) d.resize(off + n);
        memcpy(&d[off], i, n);
    }
    length_type size() const override { return d.size(); }
    void flush() override {}
    void resize(length_type n) override { d.resize(n); }
    bool is_sparse() const noexcept override { return true; }
};
// written by an earlier release: 100 bytes, blocks of 64, up to 40 bytes of padding
static const char* STORED[] = {
    "a500e3422dc4bfc75653828daf6ba53ddac4618d54d7aa11468a24d0b2186e0f577ee51ed0ca914ebc33c8d152c5f90ed5e6ca0f770822642dfc3b5ef6dac04cc441ee105e6986ad03fae8390594fa2bbd1ab66f66242874b2bbc096e0667c3a28a48a46318dd7427bb65412a67f5e445aee9c837600f888d1f7814acdaa5442b6b1f4d53df071adf135be8c394e1535f72a2fc76d539c81f365d0db8e0022fee9cf03722002ebdffdc9d0a5b5192be8ac0b",
    "0ae2aacf7d9a31cbad99cb00183e7340ba77c693a55427af6cc60d4a1a0944a0d9746cacb2ce8ced216d9183073bca93d34fa57823d056dcae2aa0fb874f4fb0ee7f972acf433d06bff5ab5bfc4ea910985df23a142c7126af47ce7596e660f906d44044fe7db956208a83b3cf65368ab69ee2a60eecf4237378cbb5f54477d27a3993d03af2f69da5f33d24193c27c3edb7a4de55ceab344bab04168cb62e69ba5bc96977be9888fc878ef3974767fdcb345e4cbcbf4233c89000f5b0724d99c731886db383",
    "924cd4f3d15b9f59734a81df6d6025cd2de3e8252f874757a3940ce9437773b7ea993017462670db56567765ba67c6056cc54f6e1cb6ff5616899ab446516cb51bc3b43e78d7cfbf49a20670477509d81bcc4ce25fdb28ef3a2418f17689ed58e62e79cf11a96be3928b0b5703a4a56cfae0fca59efee19c66b565bdc7cfc52106d6d45a3f78a7f0527e2cac605d526b9d17d7ace099e6dee5542302748f51ee495b974d427095d7eb79cc47a4cd93cfe05a258e51f93652d33de9719747562f8918ab86d093d7",
};
int main()
{
    key_type k(0x35);
    byte pk[32];
    memset(pk, 0x61, sizeof pk);
    CryptoPP::ECB_Mode<CryptoPP::AES>::Encryption pad(pk, sizeof pk);
    std::string in;
    for (int i = 0; i < 100; ++i)
        in.push_back((char)('a' + i % 23));
    int n = 0;
    for (const char* h : STORED)
    {
        auto m = std::make_shared<Mem>();
        for (; *h; h += 2)
        {
            unsigned c;
            sscanf(h, "%2x", &c);
            m->d.push_back((char)c);
        }
        try
        {
            lite::AESGCMCryptStream s(m, k, 64, 12, true, 40, &pad);
            std::string out(200, 0);
            out.resize(s.read(&out[0], 0, out.size()));
            if (out != in || s.size() != in.size())
            {
                puts("other content");
                return 1;
            }
            ++n;
        }
        catch (const std::exception& e)
        {
            printf("not readable: %s\n", e.what());
            return 1;
        }
    }
    printf("%d files read\n", n);
    return n ? 0 : 1;
}
''', BASE + " lite_stream.cpp", "a padded repository written by another release", "the amount of padding of a file is computed in another way, so that files written before are not readable (while new ones are)")
