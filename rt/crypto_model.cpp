#include "../stubs/crypto_stub.h"
namespace symc
{
State& st()
{
    static State s;
    return s;
}
static uint64_t mix(uint64_t z)
{
    z += 0x9E3779B97F4A7C15ull;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
void token(void* p, size_t n)
{
    sched::Quiet q_;
    unsigned char* b = (unsigned char*)p;
    uint64_t c = st().counter++;
    for (size_t i = 0; i < n; ++i)
    {
        unsigned char v = (unsigned char)mix(c * 4096 + i);
        b[i] = v ? v : 0x5a;
    }
}
std::string fn(int alg, const std::string& key, const std::string& msg, size_t n)
{
    sched::Quiet q_;
    for (auto& e : st().fn)
        if (e.alg == alg && e.pt.size() == msg.size() && e.key.size() == key.size() && e.ct.size() >= n)
            if (eq(e.key, key) && eq(e.pt, msg))
                return e.ct.substr(0, n);
    st().verify_fresh = false;
    Entry e;
    e.alg = alg;
    e.key = key;
    e.pt = msg;
    e.ct.assign(n, '\0');
    if (st().symbolic)
        sym_make(&e.ct[0], n, "fn");
    else
        token(&e.ct[0], n);
    st().fn.push_back(e);
    return e.ct;
}
std::string fn_sym(int alg, const std::string& key, const std::string& msg, size_t n)
{
    sched::Quiet q_;
    bool old = st().symbolic;
    st().symbolic = true;
    std::string r = fn(alg, key, msg, n);
    st().symbolic = old;
    return r;
}
void gcm_enc(const std::string& key, const std::string& iv, const std::string& aad, const std::string& pt, std::string& ct, std::string& mac)
{
    sched::Quiet q_;
    State& s = st();
    ++s.encryptions;
    {
        std::string z(iv.size(), '\0');
        if (eq(z, iv))
            ++s.zero_iv;
    }
    for (auto& e : s.gcm)
        if (e.iv.size() == iv.size() && e.key.size() == key.size() && eq(e.iv, iv) && eq(e.key, key))
        {
            if (eq(e.aad, aad) && eq(e.pt, pt))
            {
                ct = e.ct;
                mac = e.mac;
                return;
            }
            ++s.iv_reuse;
        }
    Entry e;
    e.alg = 0;
    e.key = key;
    e.iv = iv;
    e.aad = aad;
    e.pt = pt;
    e.ct.assign(pt.size(), '\0');
    e.mac.assign(16, '\0');
    if (!pt.empty())
        token(&e.ct[0], pt.size());
    token(&e.mac[0], 16);
    s.gcm.push_back(e);
    ct = e.ct;
    mac = e.mac;
}
bool gcm_dec(const std::string& key, const std::string& iv, const std::string& aad, const std::string& ct, const std::string& mac, std::string& pt)
{
    sched::Quiet q_;
    State& s = st();
    ++s.decryptions;
    if (mac.size() >= 4)
        for (auto& e : s.gcm)
            if (e.iv.size() == iv.size() && e.ct.size() == ct.size() && e.aad.size() == aad.size()
                && eq(e.iv, iv) && sym_eq(e.mac.data(), mac.data(), mac.size()) && eq(e.key, key)
                && eq(e.aad, aad) && eq(e.ct, ct))
            {
                pt = e.pt;
                return true;
            }
    ++s.failed_decryptions;
    pt.assign(ct.size(), '\0');
    bool found = false;
    for (auto& e : s.gcm)
        if (!found && e.iv.size() == iv.size() && eq(e.iv, iv) && eq(e.key, key))
        {
            found = true;
            for (size_t i = 0; i < ct.size() && i < e.ct.size(); ++i)
                pt[i] = e.pt[i] ^ e.ct[i] ^ ct[i];
        }
    if (!found && !ct.empty())
        token(&pt[0], pt.size());
    // a MAC truncated to nothing verifies trivially; a very short one can be guessed
    return mac.size() < 4;
}
}    // namespace symc
