// The stored configuration: encrypting, decrypting, wrong secrets and modified configurations.
#include "model.h"
#include "exceptions.h"
#include "mystring.h"
#include "params.pb.h"
#include "params_io.h"
#include <argon2.h>
#include <google/protobuf/util/json_util.h>
using namespace securefs;
using namespace model;
static LegacySecurefsJsonParams* parsed_json = nullptr;
namespace google::protobuf::util
{
bool sym_json_hook(std::string_view s, securefs::LegacySecurefsJsonParams* m)
{
    if (!parsed_json || s != "{json}")
        return false;
    *m = *parsed_json;
    return true;
}
}    // namespace google::protobuf::util
static absl::Span<const byte> span(const std::string& s) { return absl::Span<const byte>((const byte*)s.data(), s.size()); }
static std::string bytes_of(const key_type& k) { return std::string((const char*)k.data(), k.size()); }
// a key file: absent, short, or around the size of the read buffer
struct KeyFile
{
    MemStream s;
    bool present;
    static size_t place;
    KeyFile(const char* tag, bool big)
    {
        static const size_t L[] = {0, 1, 3}, B[] = {4095, 4096, 4097, 8192, 8193, 16384, 16500};
        present = sym_fork_flag(tag);
        if (!present)
            return;
        size_t n = big ? pick(B, tag) : pick(L, tag);
        s.d.assign(n, 0x31);
        std::string t = sym_bytes(std::min<size_t>(n, 2), tag);
        for (size_t i = 0; i < t.size(); ++i)
            s.d[i ? 0 : n - 1] = (unsigned char)t[i];    // the last and the first byte
        if (big)
        {
            // and one in between, at the same place in all key files
            static const size_t P[] = {1, 2048, 4095, 4096, 8191, 8192, 16383, 16384};
            if (!place)
                place = pick(P, "place");
            if (place < n)
                s.d[place] = sym_u8(tag);
        }
    }
    StreamBase* get() { return present ? &s : nullptr; }
    std::string str() const { return std::string(s.d.begin(), s.d.end()); }
    bool same_as(const KeyFile& o) const { return present == o.present && same(str(), o.str()); }
};
size_t KeyFile::place = 0;
static std::string key_bytes(const char* tag)
{
    static const size_t L[] = {32, 0, 3};
    return sym_bytes(pick(L, tag), tag);
}
static DecryptedSecurefsParams any_params(bool small)
{
    DecryptedSecurefsParams p;
    if (small || sym_fork_flag("sizes"))
    {
        p.mutable_size_params()->set_block_size(sym_u32("block"));
        p.mutable_size_params()->set_iv_size(sym_u32("iv"));
        p.mutable_size_params()->set_max_padding_size(sym_u32("padding"));
    }
    switch (small ? 1 : (int)sym_choice(0, 2, "format"))
    {
    case 0:
    {
        auto* l = p.mutable_lite_format_params();
        *l->mutable_name_key() = key_bytes("name_key");
        *l->mutable_content_key() = sym_bytes(2, "content_key");
        *l->mutable_xattr_key() = sym_bytes(2, "xattr_key");
        *l->mutable_padding_key() = key_bytes("padding_key");
        if (sym_fork_flag("threshold"))
            l->set_long_name_threshold(sym_u32("long_name_threshold"));
        *l->mutable_long_name_suffix() = sym_bytes(sym_choice(0, 2, "suffix_len"), "suffix");
        sym_reach("lite");
        break;
    }
    case 1:
    {
        auto* f = p.mutable_full_format_params();
        *f->mutable_master_key() = small ? sym_bytes(1, "master_key") : key_bytes("master_key");
        f->set_store_time(sym_flag("store_time"));
        f->set_legacy_file_table_io(sym_flag("legacy"));
        f->set_case_insensitive(sym_flag("ci"));
        f->set_unicode_normalization_agnostic(sym_flag("uni"));
        sym_reach("full");
        break;
    }
    default:
        sym_reach("none");
    }
    return p;
}
static bool equal(const DecryptedSecurefsParams& a, const DecryptedSecurefsParams& b)
{
    return same(a.SerializeAsString(), b.SerializeAsString());
}
static EncryptedSecurefsParams::Argon2idParams costs()
{
    EncryptedSecurefsParams::Argon2idParams a;
    a.set_time_cost(sym_u32("time"));
    a.set_memory_cost(sym_u32("memory"));
    a.set_parallelism(sym_u32("lanes"));
    sym_assume(a.time_cost() != 0);
    sym_assume(a.memory_cost() != 0);
    sym_assume(a.parallelism() != 0);
    return a;
}
// 0: refused for wrong secrets, 1: other exception, 2: decrypted
template <class F>
static int attempt(F&& f, DecryptedSecurefsParams& out)
{
    try
    {
        out = f();
        return 2;
    }
    catch (const PasswordOrKeyfileIncorrectException&)
    {
        return 0;
    }
    catch (const std::exception&)
    {
        return 1;
    }
}
extern "C" void h_round()
{
    DecryptedSecurefsParams p = any_params(false), q;
    std::string pw = sym_bytes(sym_choice(0, 3, "pwlen"), "password");
    KeyFile k("keyfile", sym_param("big", 0));
    auto a = costs();
    EncryptedSecurefsParams e = encrypt(p, a, span(pw), k.get());
    CHECK(e.iv().size() == 12 && e.mac().size() == 16 && e.salt().size() == 32, "sizes of the stored fields");
    CHECK(e.ciphertext().size() == p.SerializeAsString().size(), "ciphertext length");
    CHECK(e.argon2id_params().time_cost() == a.time_cost() && e.argon2id_params().memory_cost() == a.memory_cost()
              && e.argon2id_params().parallelism() == a.parallelism(),
          "key derivation costs not recorded");
    if (sym_fork_flag("text"))
        q = decrypt(std::string_view(e.SerializeAsString()), span(pw), k.get());
    else
        q = decrypt(e, span(pw), k.get());
    CHECK(equal(p, q), "decrypted parameters differ");
    EncryptedSecurefsParams e2 = encrypt(p, a, span(pw), k.get());
    CHECK(!same(e2.salt(), e.salt()) && !same(e2.iv(), e.iv()) && symc::st().iv_reuse == 0, "salt or nonce used twice");
    sym_reach("round");
}
extern "C" void h_wrong()
{
    DecryptedSecurefsParams p = any_params(true), q;
    bool big = sym_param("big", 0);
    std::string pw = sym_bytes(sym_choice(0, 2, "pwlen"), "password"), pw2 = sym_bytes(sym_choice(0, 3, "pwlen2"), "password2");
    KeyFile k("keyfile", big), k2("keyfile2", big);
    EncryptedSecurefsParams e = encrypt(p, costs(), span(pw), k.get());
    int r = attempt([&] { return decrypt(e, span(pw2), k2.get()); }, q);
    if (same(pw, pw2) && k.same_as(k2))
    {
        CHECK(r == 2 && equal(p, q), "the right secrets are refused");
        sym_reach("right");
        return;
    }
    CHECK(r == 0, "wrong password or key file not refused");
    sym_reach("wrong");
}
static void change(std::string& s, size_t maxlen, const char* tag)
{
    if (sym_fork_flag(tag))    // another length
    {
        size_t n = sym_choice(0, maxlen, tag);
        s = n <= s.size() ? s.substr(0, n) : s + sym_bytes(n - s.size(), "extra");
        return;
    }
    if (s.empty())
        return;
    size_t i = sym_choice(0, s.size() - 1, "pos");
    s[i] = (char)sym_u8("byte");
}
extern "C" void h_tamper()
{
    DecryptedSecurefsParams p = any_params(true), q;
    std::string pw = sym_bytes(1, "password");
    KeyFile k("keyfile", false);
    EncryptedSecurefsParams e = encrypt(p, costs(), span(pw), k.get());
    const EncryptedSecurefsParams o = e;
    switch (sym_choice(0, 6, "field"))
    {
    case 0:
        change(*e.mutable_iv(), 14, "iv");
        break;
    case 1:
        change(*e.mutable_salt(), 34, "salt");
        break;
    case 2:
        change(*e.mutable_mac(), 18, "mac");
        break;
    case 3:
        change(*e.mutable_ciphertext(), e.ciphertext().size() + 2, "ciphertext");
        break;
    case 4:
        e.mutable_argon2id_params()->set_time_cost(sym_u32("time2"));
        e.mutable_argon2id_params()->set_memory_cost(sym_u32("memory2"));
        e.mutable_argon2id_params()->set_parallelism(sym_u32("lanes2"));
        break;
    case 5:
        change(*e.mutable_ciphertext(), e.ciphertext().size() + 1, "ciphertext");
        change(*e.mutable_mac(), 17, "mac");
        break;
    default:
        e.clear_argon2id_params();
    }
    int r = attempt([&] { return decrypt(e, span(pw), k.get()); }, q);
    sym_reach("tampered");
    CHECK(r != 2 || equal(p, q), "modified configuration yields other parameters");
    // With a key file the salt is an HMAC key, which zeros at its end do not change.
    std::string salt = e.salt();
    if (k.present && salt.size() > 32)
        if (same(salt.substr(32), std::string(salt.size() - 32, '\0')))
            salt.resize(32);
    auto &a = e.argon2id_params(), &b = o.argon2id_params();
    bool genuine = same(e.iv(), o.iv()) && same(salt, o.salt()) && same(e.mac(), o.mac()) && same(e.ciphertext(), o.ciphertext())
        && a.time_cost() == b.time_cost() && a.memory_cost() == b.memory_cost() && a.parallelism() == b.parallelism();
    CHECK(genuine || r != 2, "modified configuration accepted");
    CHECK(!genuine || e.salt().size() != 32 || r == 2, "genuine configuration refused");
}
// Long secrets: which differ in one byte, or of which one begins with the other.
static std::string long_secret(const std::string& base, const char* tag, unsigned kind, size_t n)
{
    std::string s = base;
    unsigned char c = sym_u8(tag);
    switch (kind)
    {
    case 0:
        s[0] = (char)c;
        break;
    case 1:
        s[n / 2] = (char)c;
        break;
    case 2:
        s[n - 1] = (char)c;
        break;
    case 3:    // another byte at the end
        s += (char)c;
        break;
    case 4:    // the last byte is missing
        s.pop_back();
        break;
    default:    // a NUL in the middle, and a change after it
        s[n / 2] = 0;
        s[n - 1] = (char)c;
    }
    return s;
}
extern "C" void h_long()
{
    static const size_t L[] = {15, 16, 17, 31, 32, 33, 55, 56, 63, 64, 65, 72, 73, 100, 127, 128, 129, 255, 256, 257, 1000, 4097};
    size_t n = pick(L, "length");
    std::string base(n, 'p'), pw, pw2;
    unsigned kind = (unsigned)sym_choice(0, 5, "difference");
    pw = kind < 3 || kind == 5 ? long_secret(base, "byte", kind, n) : base;
    pw2 = long_secret(base, "byte2", kind, n);
    KeyFile k("keyfile", false);
    DecryptedSecurefsParams p = any_params(true), q;
    EncryptedSecurefsParams e = encrypt(p, costs(), span(pw), k.get());
    int r = attempt([&] { return decrypt(e, span(pw2), k.get()); }, q);
    if (same(pw, pw2))
    {
        CHECK(r == 2 && equal(p, q), "the right secrets are refused");
        sym_reach("right");
    }
    else
    {
        CHECK(r == 0, "wrong password not refused");
        sym_reach("wrong");
    }
}

extern "C" void h_garbage()
{
    DecryptedSecurefsParams p, q;
    parsed_json = nullptr;
    std::string s = "E" + sym_bytes(sym_choice(0, 20, "len"), "content");
    if (sym_fork_flag("other"))
        s[0] = (char)sym_u8("first");
    int r = attempt([&] { return decrypt(std::string_view(s), span("x"), nullptr); }, q);
    CHECK(r != 2, "garbage accepted as a configuration");
    sym_reach("refused");
}
// ---------------------------------------------------------------- legacy configurations
static std::string hmac(const std::string& key, const std::string& msg)
{
    return symc::fn(symc::ALG_HMAC_SHA256, key + std::string(64 - key.size(), '\0'), msg, 32);
}
static std::string kdf(const LegacySecurefsJsonParams& l, const std::string& pw, const std::string& salt)
{
    std::string r(32, '\0');
    if (l.pbkdf() == "scrypt")
        CryptoPP::Scrypt().DeriveKey((byte*)&r[0], 32, (const byte*)pw.data(), pw.size(), (const byte*)salt.data(), salt.size(), l.iterations(), l.scrypt_r(), l.scrypt_p());
    else if (l.pbkdf() == "argon2id")
    {
        if (argon2id_hash_raw(l.iterations(), l.argon2_m_cost(), l.argon2_p(), pw.data(), pw.size(), salt.data(), salt.size(), &r[0], 32))
            sym_fail("argon2");
    }
    else
        CryptoPP::PKCS5_PBKDF2_HMAC<CryptoPP::SHA256>().DeriveKey(
            (byte*)&r[0], 32, 0, (const byte*)pw.data(), pw.size(), (const byte*)salt.data(), salt.size(), l.iterations());
    return r;
}
static std::string hex(const std::string& s)
{
    std::string r;
    for (unsigned char c : s)
    {    // key bytes never reach this place, so every byte is concrete
        r += "0123456789abcdef"[c >> 4];
        r += "0123456789abcdef"[c & 15];
    }
    return r;
}
// The key which protects the parameters, and the encryption under it.
extern "C" void h_format()
{
    DecryptedSecurefsParams p = any_params(false);
    std::string pw = sym_bytes(sym_choice(0, 2, "pwlen"), "password");
    KeyFile k("keyfile", sym_param("big", 0));
    auto a = costs();
    EncryptedSecurefsParams e = encrypt(p, a, span(pw), k.get());
    std::string salt = k.present ? hmac(e.salt(), k.str()) : e.salt(), key(32, '\0'), text;
    CHECK(argon2id_hash_raw(a.time_cost(), a.memory_cost(), a.parallelism(), pw.data(), pw.size(), salt.data(), salt.size(), &key[0], 32) == 0, "argon2");
    CHECK(symc::gcm_dec(key, e.iv(), "", e.ciphertext(), e.mac(), text), "not encrypted under the key of the documented format");
    CHECK(same(text, p.SerializeAsString()), "encrypted parameters");
    sym_reach("format");
}
struct Legacy
{
    LegacySecurefsJsonParams l;
    std::string master;
    // order: 0 salt = HMAC(salt, key file), 1 key = HMAC(derived key, key file)
    Legacy(unsigned version, size_t keys, const std::string& pw, KeyFile& k, unsigned order, bool plain)
    {
        static const char* A[] = {"pkcs5-pbkdf2-hmac-sha256", "", "scrypt", "argon2id"};
        l.set_version(version);
        std::string salt(32, '\0');
        symc::token(&salt[0], 32);
        *l.mutable_salt() = hex(salt);
        *l.mutable_pbkdf() = plain ? A[0] : pick(A, "pbkdf");
        l.set_iterations(sym_u32("iterations"));
        l.set_scrypt_r(sym_u32("scrypt_r"));
        l.set_scrypt_p(sym_u32("scrypt_p"));
        l.set_argon2_m_cost(sym_u32("m_cost"));
        l.set_argon2_p(sym_u32("p"));
        sym_assume(l.iterations() && l.argon2_m_cost() && l.argon2_p());
        std::string wk = !k.present ? kdf(l, pw, salt) : order == 0 ? kdf(l, pw, hmac(salt, k.str())) : hmac(kdf(l, pw, salt), k.str());
        master = std::string(keys * 32, '\0');
        symc::token(&master[0], master.size());
        std::string iv(32, '\0'), ct, mac;
        symc::token(&iv[0], 32);
        symc::gcm_enc(wk, iv, version == 4 ? "version=4" : "version=1", master, ct, mac);
        *l.mutable_encrypted_key()->mutable_iv() = hex(iv);
        *l.mutable_encrypted_key()->mutable_mac() = hex(mac);
        *l.mutable_encrypted_key()->mutable_ciphertext() = hex(ct);
    }
    void check(const DecryptedSecurefsParams& q) const
    {
        CHECK(q.size_params().block_size() == (l.has_block_size() ? l.block_size() : 4096u), "block size");
        CHECK(q.size_params().iv_size() == (l.has_iv_size() ? l.iv_size() : 32u), "nonce size");
        CHECK(q.size_params().max_padding_size() == l.max_padding(), "padding");
        if (l.version() != 4)
        {
            CHECK(q.has_full_format_params() && !q.has_lite_format_params(), "format");
            CHECK(same(q.full_format_params().master_key(), master), "master key differs");
            CHECK(q.full_format_params().legacy_file_table_io() == (l.version() == 1), "layout of the store");
            CHECK(q.full_format_params().store_time() == (l.version() == 3), "stored times");
            CHECK(!q.full_format_params().case_insensitive() && !q.full_format_params().unicode_normalization_agnostic(), "name comparison");
            return;
        }
        auto& t = q.lite_format_params();
        CHECK(q.has_lite_format_params() && !q.has_full_format_params(), "format");
        CHECK(same(t.name_key(), master.substr(0, 32)), "name key differs");
        CHECK(same(t.content_key(), master.substr(32, 32)), "content key differs");
        CHECK(same(t.xattr_key(), master.substr(64, 32)), "xattr key differs");
        CHECK(same(t.padding_key(), master.size() > 96 ? master.substr(96, 32) : std::string()), "padding key differs");
        CHECK(t.has_long_name_threshold() == l.long_name_component(), "long names");
        CHECK(!t.has_long_name_threshold() || t.long_name_threshold() == 128, "long name threshold");
        CHECK(t.long_name_suffix().empty(), "suffix");
    }
};
extern "C" void h_legacy()
{
    unsigned version = (unsigned)sym_choice(1, 4, "version");
    size_t keys = version == 4 ? sym_choice(2, 5, "keys") : 1;
    std::string pw = sym_bytes(sym_choice(0, 2, "pwlen"), "password");
    KeyFile k("keyfile", sym_param("big", 0));
    Legacy g(version, keys, pw, k, k.present ? (unsigned)sym_choice(0, 1, "order") : 0, false);
    if (sym_fork_flag("sized"))
    {
        g.l.set_block_size(sym_u32("block"));
        g.l.set_iv_size(sym_u32("iv"));
    }
    g.l.set_max_padding(sym_u32("padding"));
    g.l.set_long_name_component(sym_fork_flag("long"));
    DecryptedSecurefsParams q;
    parsed_json = &g.l;
    int r = attempt([&] { return decrypt(std::string_view("{json}"), span(pw), k.get()); }, q);
    if (version == 4 && keys != 3 && keys != 4)
    {
        CHECK(r == 1, "wrong number of keys accepted");
        sym_reach("keys");
        return;
    }
    CHECK(r == 2, "legacy configuration refused");
    g.check(q);
    sym_reach("legacy");
}
extern "C" void h_legacy_wrong()
{
    unsigned version = sym_fork_flag("lite") ? 4 : 2;
    std::string pw = sym_bytes(sym_choice(0, 1, "pwlen"), "password"), pw2 = sym_bytes(sym_choice(0, 2, "pwlen2"), "password2");
    KeyFile k("keyfile", false), k2("keyfile2", false);
    Legacy g(version, version == 4 ? 3 : 1, pw, k, (unsigned)sym_choice(0, 1, "order"), true);
    DecryptedSecurefsParams q;
    int r = attempt([&] { return decrypt(g.l, span(pw2), k2.get()); }, q);
    if (same(pw, pw2) && k.same_as(k2))
    {
        CHECK(r == 2, "the right secrets are refused");
        g.check(q);
        sym_reach("right");
        return;
    }
    CHECK(r == 0, "wrong password or key file not refused");
    sym_reach("wrong");
}
// a hex string replaced at one position or cut or extended
static void change_hex(std::string* s, const char* tag)
{
    switch (sym_choice(0, 2, tag))
    {
    case 0:
        s->resize(sym_choice(0, s->size() / 2, "len") * 2);
        break;
    case 1:
        *s += "a0";
        break;
    default:
    {
        static const size_t P[] = {0, 1, 17};
        size_t i = sym_fork_flag("last") ? s->size() - 1 : pick(P, "pos");
        unsigned char d = (unsigned char)sym_choice(0, 15, "digit");
        (*s)[i] = "0123456789abcdef"[d];
    }
    }
}
extern "C" void h_legacy_tamper()
{
    unsigned version = sym_fork_flag("lite") ? 4 : 2;
    std::string pw = sym_bytes(1, "password");
    KeyFile k("keyfile", false);
    Legacy g(version, version == 4 ? 3 : 1, pw, k, (unsigned)sym_choice(0, 1, "order"), sym_param("plain", 1));
    DecryptedSecurefsParams q;
    auto* e = g.l.mutable_encrypted_key();
    switch (sym_choice(0, 6, "field"))
    {
    case 0:
        change_hex(e->mutable_iv(), "iv");
        break;
    case 1:
        change_hex(e->mutable_mac(), "mac");
        break;
    case 2:
        change_hex(e->mutable_ciphertext(), "ct");
        break;
    case 3:
        change_hex(g.l.mutable_salt(), "salt");
        break;
    case 4:
        if (sym_param("plain", 1))
            e->mutable_ciphertext()->back() ^= 1;
        else
            change_hex(e->mutable_ciphertext(), "ct");
        change_hex(e->mutable_mac(), "mac");
        break;
    case 5:    // the key changes its kind; versions 1 to 3 share one header
        g.l.set_version(version == 4 ? (unsigned)sym_choice(1, 3, "version2") : 4);
        break;
    default:
        g.l.set_iterations(sym_u32("iterations2"));
        g.l.set_version(sym_u32("version2"));
        sym_assume(g.l.version() == version || g.l.version() == 0 || g.l.version() > 4);
    }
    int r = attempt([&] { return decrypt(g.l, span(pw), k.get()); }, q);
    sym_reach("tampered");
    if (r == 2)
    {
        CHECK(g.l.version() == version, "configuration of another version accepted");
        g.check(q);
        sym_reach("genuine");
    }
}
