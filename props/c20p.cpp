//@provider
// C20, through the OpenSSL provider: one of the library's own allocations fails inside an operation the application makes
// with OpenSSL calls. The operation fails or is right, no key or context stays behind, and repeated it succeeds.
#include "ops.hpp"
#include "sa_provider.h"
#include <climits>
#include <memory>
#include <openssl/core_names.h>
#include <openssl/err.h>
#include <openssl/evp.h>
#include <openssl/kdf.h>
#include <openssl/rsa.h>
#include <thread>
using namespace sec;
using std::string;
namespace {
struct Fail {};   // an OpenSSL call failed
#define MUST(x)               \
    do {                      \
        if (!(x)) throw Fail(); \
    } while (0)
template <class T, void (*F)(T*)>
struct Own {
    T* p;
    explicit Own(T* q = nullptr) : p(q) {}
    ~Own() { F(p); }
    Own(const Own&) = delete;
    void swap(Own& o) { std::swap(p, o.p); }
};
typedef Own<EVP_PKEY, EVP_PKEY_free> Pk;
typedef Own<EVP_PKEY_CTX, EVP_PKEY_CTX_free> PkCtx;
typedef Own<EVP_MD_CTX, EVP_MD_CTX_free> MdCtx;
typedef Own<EVP_CIPHER_CTX, EVP_CIPHER_CTX_free> CiCtx;
typedef Own<EVP_MAC_CTX, EVP_MAC_CTX_free> MacCtx;
typedef Own<EVP_KDF_CTX, EVP_KDF_CTX_free> KdfCtx;
typedef Own<EVP_CIPHER, EVP_CIPHER_free> Ci;
typedef Own<EVP_MD, EVP_MD_free> Md;
typedef Own<EVP_MAC, EVP_MAC_free> Mc;
typedef Own<EVP_KDF, EVP_KDF_free> Kd;
struct Handle {   // of the application
    sa_key h = INVALID_HANDLE;
    ~Handle() {
        if (h != INVALID_HANDLE) sa_key_release(h);
    }
};
string hexs(const Bytes& b) { return pbt::hex(b, 5000); }
const char* pkey_name(const Mat& m) {
    if (m.type == SA_KEY_TYPE_RSA) return "RSA";
    return m.curve == SA_ELLIPTIC_CURVE_ED25519 ? "ED25519" : m.curve == SA_ELLIPTIC_CURVE_X25519 ? "X25519" : "EC";
}
void import_sym(Handle& k, const Bytes& b) {
    sa_rights all = rights_all();
    sa_import_parameters_symmetric ip = {&all};
    MUST(sa_key_import(&k.h, SA_KEY_FORMAT_SYMMETRIC_BYTES, (void*) b.data(), b.size(), &ip) == SA_STATUS_OK);
}
void import_mat(Handle& k, const Mat& m) {
    sa_rights all = rights_all();
    sa_import_parameters_ec_private_bytes ep = {&all, m.curve};
    sa_import_parameters_rsa_private_key_info rp = {&all};
    MUST((m.type == SA_KEY_TYPE_RSA ? sa_key_import(&k.h, SA_KEY_FORMAT_RSA_PRIVATE_KEY_INFO, m.clear.data(), m.clear.size(), &rp)
                                    : sa_key_import(&k.h, SA_KEY_FORMAT_EC_PRIVATE_BYTES, m.clear.data(), m.clear.size(), &ep)) == SA_STATUS_OK);
}
EVP_PKEY* from(const char* name, OSSL_PARAM* p, int sel) {
    PkCtx c(EVP_PKEY_CTX_new_from_name(sa_get_provider(), name, nullptr));
    EVP_PKEY* k = nullptr;
    MUST(c.p && EVP_PKEY_fromdata_init(c.p) == 1);
    if (EVP_PKEY_fromdata(c.p, &k, sel, p) != 1) {
        EVP_PKEY_free(k);
        throw Fail();
    }
    return k;
}
// the EVP_PKEY owns the key when `own`
EVP_PKEY* wrap(const Mat& m, Handle& h, bool own) {
    uint64_t v = h.h;
    int del = own;
    OSSL_PARAM p[3] = {OSSL_PARAM_construct_uint64(OSSL_PARAM_SA_KEY, &v), OSSL_PARAM_construct_int(OSSL_PARAM_SA_KEY_DELETE, &del), OSSL_PARAM_construct_end()};
    return from(pkey_name(m), p, EVP_PKEY_KEYPAIR);
}
string of_handle(const void* p) {
    Handle h;
    memcpy(&h.h, p, sizeof h.h);
    Bytes d(32);
    size_t n = 32;
    MUST(sa_key_digest(d.data(), &n, h.h, SA_DIGEST_ALGORITHM_SHA256) == SA_STATUS_OK);
    return hexs(d);
}

struct Operation {
    string name;
    std::function<string()> run;   // throws Fail when a call fails; the result otherwise
};
Operation cipher(Src& src) {
    static const struct { const char* n; size_t key, iv; bool aead; } A[] = {{"AES-128-CBC", 16, 16, false}, {"AES-256-ECB", 32, 0, false}, {"AES-128-CTR", 16, 16, false},
            {"AES-256-GCM", 32, 12, true}, {"ChaCha20", 32, 16, false}, {"ChaCha20-Poly1305", 32, 12, true}};
    auto a = A[src.below(6)];
    Bytes key = src.bytes(a.key), iv = src.bytes(a.iv), data = src.bytes(src.size(1, 60));
    bool handle = src.coin(), again = src.coin();
    return {string("cipher ") + a.n + (handle ? " by handle" : ""), [=] {
        Ci ci(EVP_CIPHER_fetch(sa_get_provider(), a.n, nullptr));
        CiCtx c(EVP_CIPHER_CTX_new());
        MUST(ci.p && c.p);
        Handle k;
        string r;
        for (int i = 0; i <= again; i++) {
            int n = 0, f = 0;
            if (handle) {
                if (k.h == INVALID_HANDLE) import_sym(k, key);
                uint64_t v = k.h;
                int del = 0;
                OSSL_PARAM p[3] = {OSSL_PARAM_construct_uint64(OSSL_PARAM_SA_KEY, &v), OSSL_PARAM_construct_int(OSSL_PARAM_SA_KEY_DELETE, &del), OSSL_PARAM_construct_end()};
                MUST(EVP_EncryptInit_ex2(c.p, ci.p, nullptr, a.iv ? iv.data() : nullptr, p) == 1);
            } else
                MUST(EVP_EncryptInit_ex2(c.p, ci.p, key.data(), a.iv ? iv.data() : nullptr, nullptr) == 1);
            Bytes out(data.size() + 32);
            if (a.aead) MUST(EVP_EncryptUpdate(c.p, nullptr, &n, iv.data(), (int) iv.size()) == 1);
            MUST(EVP_EncryptUpdate(c.p, out.data(), &n, data.data(), (int) data.size()) == 1 && EVP_EncryptFinal_ex(c.p, out.data() + n, &f) == 1);
            out.resize(n + f);
            r += hexs(out);
            Bytes tag(16);
            if (a.aead) {
                MUST(EVP_CIPHER_CTX_ctrl(c.p, EVP_CTRL_AEAD_GET_TAG, 16, tag.data()) == 1);
                r += hexs(tag);
            }
        }
        return r;
    }};
}
Operation digest(Src& src) {
    Bytes data = src.bytes(src.size(1, 60));
    bool copy = src.coin();
    const char* n = src.pick({"SHA1", "SHA2-256", "SHA2-384", "SHA2-512"});
    return {string("digest ") + n, [=] {
        Md md(EVP_MD_fetch(sa_get_provider(), n, nullptr));
        MdCtx c(EVP_MD_CTX_new()), d(EVP_MD_CTX_new());
        Bytes out(64);
        unsigned k = 0;
        MUST(md.p && c.p && d.p && EVP_DigestInit_ex2(c.p, md.p, nullptr) == 1 && EVP_DigestUpdate(c.p, data.data(), data.size()) == 1);
        if (copy) {
            MUST(EVP_MD_CTX_copy_ex(d.p, c.p) == 1);
            c.swap(d);
        }
        MUST(EVP_DigestFinal_ex(c.p, out.data(), &k) == 1);
        out.resize(k);
        return hexs(out);
    }};
}
Operation mac(Src& src) {
    bool hmac = src.coin(), handle = src.coin(), again = src.coin();
    Bytes key = src.bytes(hmac ? src.range(16, 60) : 16), data = src.bytes(src.size(1, 60));
    return {string(hmac ? "HMAC" : "CMAC") + (handle ? " by handle" : ""), [=] {
        Mc m(EVP_MAC_fetch(sa_get_provider(), hmac ? "HMAC" : "CMAC", nullptr));
        MacCtx c(m.p ? EVP_MAC_CTX_new(m.p) : nullptr);
        MUST(c.p);
        Handle k;
        char dn[] = "SHA256";
        string r;
        for (int i = 0; i <= again; i++) {
            std::vector<OSSL_PARAM> p;
            if (hmac) p.push_back(OSSL_PARAM_construct_utf8_string(OSSL_MAC_PARAM_DIGEST, dn, 0));
            uint64_t v;
            if (handle) {
                if (k.h == INVALID_HANDLE) import_sym(k, key);
                v = k.h;
                p.push_back(OSSL_PARAM_construct_uint64(OSSL_PARAM_SA_KEY, &v));
            }
            p.push_back(OSSL_PARAM_construct_end());
            Bytes out(64);
            size_t n = 0;
            MUST(EVP_MAC_init(c.p, handle ? nullptr : key.data(), handle ? 0 : key.size(), p.data()) == 1);
            MUST(EVP_MAC_update(c.p, data.data(), data.size()) == 1 && EVP_MAC_final(c.p, out.data(), &n, out.size()) == 1);
            out.resize(n);
            r += hexs(out);
        }
        return r;
    }};
}
Operation kdf(Src& src) {
    static const struct { const char* n; bool cmac, salt; } A[] = {{"HKDF", false, true}, {"CONCAT", false, false}, {"ANSI_X963", false, false}, {"CMAC", true, true}};
    auto a = A[src.below(4)];
    Bytes key = src.bytes(16), salt = src.bytes(20), info = src.bytes(src.range(1, 30));
    bool dup = src.coin(), parts = src.coin(), own = src.coin();
    return {string("kdf ") + a.n + (dup ? " with a copy" : ""), [=] {
        Handle k;   // outlives the contexts
        Kd f(EVP_KDF_fetch(sa_get_provider(), a.n, nullptr));
        KdfCtx c(f.p ? EVP_KDF_CTX_new(f.p) : nullptr), d;
        MUST(c.p);
        import_sym(k, key);
        char dn[] = "SHA256";
        std::vector<OSSL_PARAM> p;
        uint64_t v = k.h;
        int del = 1;
        if (own) {   // the context releases it, however the operation ends; should it not have taken it, k does
            p.push_back(OSSL_PARAM_construct_uint64(OSSL_PARAM_SA_KEY, &v));
            p.push_back(OSSL_PARAM_construct_int(OSSL_PARAM_SA_KEY_DELETE, &del));
        } else
            p.push_back(OSSL_PARAM_construct_octet_string(OSSL_KDF_PARAM_KEY, &k.h, sizeof k.h));
        if (!a.cmac) p.push_back(OSSL_PARAM_construct_utf8_string(OSSL_KDF_PARAM_DIGEST, dn, 0));
        if (a.salt) p.push_back(OSSL_PARAM_construct_octet_string(OSSL_KDF_PARAM_SALT, (void*) salt.data(), salt.size()));
        p.push_back(OSSL_PARAM_construct_octet_string(OSSL_KDF_PARAM_INFO, (void*) info.data(), info.size()));
        if (parts && !strcmp(a.n, "HKDF")) p.push_back(OSSL_PARAM_construct_octet_string(OSSL_KDF_PARAM_INFO, (void*) salt.data(), salt.size()));
        p.push_back(OSSL_PARAM_construct_end());
        if (dup) {
            MUST(EVP_KDF_CTX_set_params(c.p, p.data()) == 1);
            KdfCtx e(EVP_KDF_CTX_dup(c.p));
            MUST(e.p);
            d.swap(e);
        }
        uint8_t out[32];
        MUST(EVP_KDF_derive(dup ? d.p : c.p, out, sizeof out, dup ? nullptr : p.data()) == 1);
        return of_handle(out);
    }};
}
Mat pair(Src& src, bool sign) {
    switch (src.below(3)) {
        case 0: return sign ? mat_rsa(src, 128) : mat_ec(src, SA_ELLIPTIC_CURVE_X25519);
        case 1: return mat_ec(src, SA_ELLIPTIC_CURVE_NIST_P256);
        default: return mat_ec(src, sign ? SA_ELLIPTIC_CURVE_ED25519 : SA_ELLIPTIC_CURVE_X25519);
    }
}
// An EVP_PKEY for m from the provider, its key owned by it or by h.
EVP_PKEY* supply(const Mat& m, Handle& h, bool own, bool raw = false) {
    if (raw) {   // from the private numbers
        OSSL_PARAM* p = nullptr;
        MUST(EVP_PKEY_todata(m.pkey, EVP_PKEY_KEYPAIR, &p) == 1);
        std::unique_ptr<OSSL_PARAM, void (*)(OSSL_PARAM*)> free_p(p, OSSL_PARAM_free);
        return from(pkey_name(m), p, EVP_PKEY_KEYPAIR);
    }
    import_mat(h, m);
    EVP_PKEY* k = wrap(m, h, own);
    if (own) h.h = INVALID_HANDLE;
    return k;
}
Operation object(Src& src) {
    auto m = std::make_shared<Mat>(pair(src, src.coin()));
    int what = (int) src.below(5);
    bool own = src.coin(), raw = src.coin();
    static const char* N[] = {"copied", "compared", "described", "encoded", "measured"};
    return {string(pkey_name(*m)) + " key " + N[what] + (raw ? ", from numbers" : own ? ", owned" : ""), [=] {
        Handle h;
        Pk k(supply(*m, h, own, raw));
        string r;
        if (what == 0) {
            Pk d(EVP_PKEY_dup(k.p));
            MUST(d.p);
            k.swap(d);
        }
        if (what == 2) {
            OSSL_PARAM* p = nullptr;
            MUST(EVP_PKEY_todata(k.p, EVP_PKEY_PUBLIC_KEY, &p) == 1);
            OSSL_PARAM_free(p);
        }
        if (what == 3) {
            size_t n = 0;
            if (m->type == SA_KEY_TYPE_EC) {
                MUST(EVP_PKEY_get_octet_string_param(k.p, OSSL_PKEY_PARAM_PUB_KEY, nullptr, 0, &n) == 1);
                Bytes b(n);
                MUST(EVP_PKEY_get_octet_string_param(k.p, OSSL_PKEY_PARAM_PUB_KEY, b.data(), b.size(), &n) == 1);
                r = hexs(b);
            }
        }
        if (what == 4) {
            int b = 0, c = 0;
            MUST(EVP_PKEY_get_int_param(k.p, OSSL_PKEY_PARAM_BITS, &b) == 1 && EVP_PKEY_get_int_param(k.p, OSSL_PKEY_PARAM_MAX_SIZE, &c) == 1);
            r = std::to_string(b) + " " + std::to_string(c);
        }
        int e = EVP_PKEY_eq(k.p, m->pkey);
        MUST(e == 1);
        return r;
    }};
}
Operation sign(Src& src) {
    auto m = std::make_shared<Mat>(pair(src, true));
    bool own = src.coin(), copy = src.coin(), ed = m->type == SA_KEY_TYPE_EC && m->curve == SA_ELLIPTIC_CURVE_ED25519, pss = m->type == SA_KEY_TYPE_RSA && src.coin();
    bool oneshot = ed || src.coin();
    Bytes data = src.bytes(src.size(1, 60));
    return {string(pkey_name(*m)) + (pss ? " PSS" : "") + " signature" + (copy ? " with a copy" : ""), [=] {
        Handle h;
        Pk k(supply(*m, h, own));
        MdCtx c(EVP_MD_CTX_new()), d(EVP_MD_CTX_new());
        EVP_PKEY_CTX* x = nullptr;
        MUST(c.p && d.p && EVP_DigestSignInit_ex(c.p, &x, ed ? nullptr : "SHA256", sa_get_provider(), nullptr, k.p, nullptr) == 1);
        if (pss) MUST(EVP_PKEY_CTX_set_rsa_padding(x, RSA_PKCS1_PSS_PADDING) == 1 && EVP_PKEY_CTX_set_rsa_pss_saltlen(x, 20) == 1);
        if (!oneshot) MUST(EVP_DigestSignUpdate(c.p, data.data(), data.size()) == 1);
        if (copy) {
            MUST(EVP_MD_CTX_copy_ex(d.p, c.p) == 1);
            c.swap(d);
        }
        Bytes s(600);
        size_t n = s.size();
        MUST((oneshot ? EVP_DigestSign(c.p, s.data(), &n, data.data(), data.size()) : EVP_DigestSignFinal(c.p, s.data(), &n)) == 1);
        s.resize(n);
        // OpenSSL judges the signature
        MdCtx v(EVP_MD_CTX_new());
        MUST(v.p && EVP_DigestVerifyInit_ex(v.p, &x, ed ? nullptr : "SHA256", nullptr, nullptr, m->pkey, nullptr) == 1);
        if (pss) MUST(EVP_PKEY_CTX_set_rsa_padding(x, RSA_PKCS1_PSS_PADDING) == 1 && EVP_PKEY_CTX_set_rsa_pss_saltlen(x, 20) == 1);
        int ok = EVP_DigestVerify(v.p, s.data(), s.size(), data.data(), data.size());
        REQUIRE(ok == 1, "a signature that does not verify was returned");
        // and the provider, too
        MdCtx w(EVP_MD_CTX_new());
        MUST(w.p && EVP_DigestVerifyInit_ex(w.p, &x, ed ? nullptr : "SHA256", sa_get_provider(), nullptr, k.p, nullptr) == 1);
        if (pss) MUST(EVP_PKEY_CTX_set_rsa_padding(x, RSA_PKCS1_PSS_PADDING) == 1 && EVP_PKEY_CTX_set_rsa_pss_saltlen(x, 20) == 1);
        MUST(EVP_DigestVerify(w.p, s.data(), s.size(), data.data(), data.size()) == 1);
        return string("verified");
    }};
}
Operation decrypt(Src& src) {
    auto m = std::make_shared<Mat>(mat_rsa(src, 128));
    bool own = src.coin(), oaep = src.coin(), dup = src.coin();
    Bytes data = src.bytes(src.size(1, 20)), label = oaep && src.coin() ? src.bytes(9) : Bytes(), enc(128);
    auto opt = [=](EVP_PKEY_CTX* c) {
        if (EVP_PKEY_CTX_set_rsa_padding(c, oaep ? RSA_PKCS1_OAEP_PADDING : RSA_PKCS1_PADDING) != 1) return false;
        if (label.empty()) return true;
        OSSL_PARAM p[2] = {OSSL_PARAM_construct_octet_string(OSSL_ASYM_CIPHER_PARAM_OAEP_LABEL, (void*) label.data(), label.size()), OSSL_PARAM_construct_end()};
        return EVP_PKEY_CTX_set_params(c, p) == 1;
    };
    {
        PkCtx c(EVP_PKEY_CTX_new_from_pkey(nullptr, m->pkey, nullptr));
        size_t n = enc.size();
        if (EVP_PKEY_encrypt_init(c.p) != 1 || !opt(c.p) || EVP_PKEY_encrypt(c.p, enc.data(), &n, data.data(), data.size()) != 1) pbt::fail("harness: encrypt");
    }
    return {string("RSA ") + (oaep ? label.empty() ? "OAEP" : "OAEP with a label" : "PKCS1") + " decryption" + (dup ? " with a copy" : ""), [=] {
        Handle h;
        Pk k(supply(*m, h, own));
        PkCtx c(EVP_PKEY_CTX_new_from_pkey(sa_get_provider(), k.p, nullptr));
        MUST(c.p && EVP_PKEY_decrypt_init(c.p) == 1 && opt(c.p));
        if (dup) {
            PkCtx d(EVP_PKEY_CTX_dup(c.p));
            MUST(d.p);
            c.swap(d);
        }
        Bytes out(128);
        size_t n = out.size();
        MUST(EVP_PKEY_decrypt(c.p, out.data(), &n, enc.data(), enc.size()) == 1);
        out.resize(n);
        return hexs(out);
    }};
}
Operation agree(Src& src) {
    auto m = std::make_shared<Mat>(pair(src, false));
    auto peer = std::make_shared<Mat>(mat_ec(src, m->curve));
    bool own = src.coin(), dup = src.coin();
    return {string(pkey_name(*m)) + " exchange" + (dup ? " with a copy" : ""), [=] {
        Handle h;
        Pk k(supply(*m, h, own));
        OSSL_PARAM* p = nullptr;
        MUST(EVP_PKEY_todata(peer->pkey, EVP_PKEY_PUBLIC_KEY, &p) == 1);
        std::unique_ptr<OSSL_PARAM, void (*)(OSSL_PARAM*)> free_p(p, OSSL_PARAM_free);
        Pk pub(from(pkey_name(*m), p, EVP_PKEY_PUBLIC_KEY));
        PkCtx c(EVP_PKEY_CTX_new_from_pkey(sa_get_provider(), k.p, nullptr));
        MUST(c.p && EVP_PKEY_derive_init(c.p) == 1 && EVP_PKEY_derive_set_peer(c.p, pub.p) == 1);
        if (dup) {
            PkCtx d(EVP_PKEY_CTX_dup(c.p));
            MUST(d.p);
            c.swap(d);
        }
        Bytes out(sizeof(sa_key));
        size_t n = out.size();
        MUST(EVP_PKEY_derive(c.p, out.data(), &n) == 1);
        return of_handle(out.data());
    }};
}
Operation generate(Src& src) {
    const char* g = src.pick({"P-256", "P-384"});
    bool x = src.coin();
    return {x ? "X25519 generation" : "EC generation", [=] {
        PkCtx c(EVP_PKEY_CTX_new_from_name(sa_get_provider(), x ? "X25519" : "EC", nullptr));
        OSSL_PARAM p[2] = {OSSL_PARAM_construct_utf8_string(OSSL_PKEY_PARAM_GROUP_NAME, (char*) g, 0), OSSL_PARAM_construct_end()};
        MUST(c.p && EVP_PKEY_keygen_init(c.p) == 1 && (x || EVP_PKEY_CTX_set_params(c.p, p) == 1));
        EVP_PKEY* k = nullptr;
        bool ok = EVP_PKEY_generate(c.p, &k) == 1;
        Pk own(k);
        MUST(ok);
        return std::to_string(EVP_PKEY_get_bits(k));
    }};
}
Operation any(Src& src) {
    switch (src.below(9)) {
        case 0: return cipher(src);
        case 1: return digest(src);
        case 2: return mac(src);
        case 3: return kdf(src);
        case 4: return object(src);
        case 5: return sign(src);
        case 6: return decrypt(src);
        case 7: return agree(src);
        default: return generate(src);
    }
}
size_t room(int what) {
    std::vector<uint64_t> h;
    sa_rights all = rights_all();
    sa_import_parameters_symmetric ip = {&all};
    uint8_t kb[16] = {1};
    sa_key base = INVALID_HANDLE;
    if (what) REQUIRE(sa_key_import(&base, SA_KEY_FORMAT_SYMMETRIC_BYTES, kb, 16, &ip) == SA_STATUS_OK, "no key slot left");
    for (;;) {
        uint64_t x = INVALID_HANDLE;
        sa_status s = what == 0   ? sa_key_import((sa_key*) &x, SA_KEY_FORMAT_SYMMETRIC_BYTES, kb, 16, &ip)
                      : what == 1 ? sa_crypto_cipher_init((sa_crypto_cipher_context*) &x, SA_CIPHER_ALGORITHM_AES_ECB, SA_CIPHER_MODE_ENCRYPT, base, nullptr)
                                  : sa_crypto_mac_init((sa_crypto_mac_context*) &x, SA_MAC_ALGORITHM_CMAC, base, nullptr);
        if (s != SA_STATUS_OK) break;
        h.push_back(x);
    }
    for (auto x : h) what == 0 ? sa_key_release(x) : what == 1 ? sa_crypto_cipher_release(x) : sa_crypto_mac_release(x);
    if (what) sa_key_release(base);
    return h.size();
}
// The n-th allocation of the library fails while the operation runs; empty when a call failed.
string attempt(const Operation& o, long n, bool* hit, size_t* left, string* report) {
    ERR_clear_error();
    track_begin(true);
    g_alloc_count = 0;
    g_alloc_fail_at = n;
    g_alloc_failed = false;
    g_alloc_spare_release = true;
    g_alloc_armed = true;
    string r;
    try {
        r = o.run() + ".";
    } catch (Fail&) {
    }
    g_alloc_armed = false;
    *hit = g_alloc_failed;
    ERR_clear_error();
    OPENSSL_thread_stop();
    *left = track_live(true);
    if (*left) *report = track_report(true);
    track_end();
    return r;
}
}  // namespace

PROP(c20_provider, "an allocation failed inside an operation made through the provider", 30) {
    g_no_autoclean = true;
    g_det_rand = false;
    Operation o = any(src);
    bool hit;
    size_t left;
    string report;
    string want = attempt(o, LONG_MAX, &hit, &left, &report);   // and everything made on first use is there
    REQUIRE(!want.empty(), "harness: %s does not work", o.name.c_str());
    size_t before[3];
    for (int i = 0; i < 3; i++) before[i] = room(i);
    want = attempt(o, LONG_MAX, &hit, &left, &report);
    REQUIRE(!left, "%s: memory is still allocated after everything was freed:\n%s", o.name.c_str(), report.c_str());
    long total = g_alloc_count;
    std::vector<long> todo;
    long start = total <= 20 ? 1 : 1 + (long) src.below(total);
    for (long n = start; n < start + 20 && n <= total; n++) todo.push_back(n);
    unsigned hits = 0, refused = 0;
    string tried;
    for (long n : todo) {
        string got = attempt(o, n, &hit, &left, &report);
        if (!hit) continue;
        hits++;
        tried += " " + std::to_string(n) + (got.empty() ? "" : "(ok)");
        REQUIRE(got.empty() || got == want, "%s: allocation %ld failed, and the result is another one\nwanted %s\ngot %s", o.name.c_str(), n, want.c_str(), got.c_str());
        REQUIRE(!left, "%s: allocation %ld failed, and memory is still allocated after everything was freed:\n%s", o.name.c_str(), n, report.c_str());
        refused += got.empty();
        if (n % 3 && n != todo.back()) continue;
        bool h2;
        string again = attempt(o, LONG_MAX, &h2, &left, &report);
        REQUIRE(again == want, "%s: allocation %ld failed; repeated with memory available: %s", o.name.c_str(), n, again.empty() ? "refused" : "another result");
    }
    for (int i = 0; i < 3; i++) {
        static const char* names[] = {"keys", "cipher contexts", "MAC contexts"};
        size_t now = room(i);
        REQUIRE(now == before[i], "%s: after allocations failed (%s) only %zu %s can be created, %zu before", o.name.c_str(), tried.c_str(), now, names[i], before[i]);
    }
    pbt::trace("%s: %ld allocations, failed:%s", o.name.c_str(), total, tried.c_str());
    pbt::label("%s", o.name.substr(0, o.name.find(' ')).c_str());
    if (refused) pbt::nontrivial();
}

// The first use of all: nothing is set up yet, and one of the library's allocations fails in it.
PROP(c20_first, "an allocation failed inside the first use of the library in its process", 30, 1) {
    g_no_autoclean = true;
    g_det_rand = false;
    bool provider = src.coin();
    Operation o = provider ? any(src) : Operation{"import", [] {
        Handle k;
        import_sym(k, Bytes(16, 1));
        return of_handle([&] { static sa_key h; h = k.h; k.h = INVALID_HANDLE; return &h; }());
    }};
    long n = 1 + (long) (src.coin() ? src.below(8) : src.below(60));
    bool hit = false;
    string first;
    auto once = [&](long at) {
        g_alloc_count = 0;
        g_alloc_fail_at = at;
        g_alloc_failed = false;
        g_alloc_spare_release = true;
        g_alloc_armed = true;
        string r;
        try {
            r = o.run() + ".";
        } catch (Fail&) {
        }
        g_alloc_armed = false;
        return r;
    };
    std::thread([&] {
        first = once(n);
        hit = g_alloc_failed;
    }).join();
    pbt::trace("%s, allocation %ld%s: %s", o.name.c_str(), n, hit ? " failed" : " (none)", first.empty() ? "refused" : "done");
    string second;   // from another thread: no lock may be held
    std::thread([&] { second = once(LONG_MAX); }).join();
    REQUIRE(!second.empty(), "%s: allocation %ld of the first use failed; repeated with memory available it is refused", o.name.c_str(), n);
    REQUIRE(first.empty() || first == second, "%s: another result the second time", o.name.c_str());
    REQUIRE(room(0) == 256, "capacity");
    pbt::label("%s %s", provider ? "provider" : "library", hit ? first.empty() ? "refused" : "done" : "not reached");
    if (hit) pbt::nontrivial();
}
