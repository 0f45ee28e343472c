//@provider
// C24, through the OpenSSL provider: threads that share the provider, its keys and one session get what each would get alone.
// The threads run freely: OpenSSL's own locks are not the harness's to schedule. ThreadSanitizer judges the library's accesses.
#include "ops.hpp"
#include "sched.hpp"
#include "sa_provider.h"
#include <atomic>
#include <openssl/core_names.h>
#include <openssl/err.h>
#include <openssl/evp.h>
#include <openssl/kdf.h>
#include <openssl/x509.h>
using namespace sec;
namespace {
const char* pkey_name(const Mat& m) {
    if (m.type == SA_KEY_TYPE_RSA) return "RSA";
    return m.curve == SA_ELLIPTIC_CURVE_ED25519 ? "ED25519" : m.curve == SA_ELLIPTIC_CURVE_X25519 ? "X25519" : "EC";
}
struct Key {
    Mat m;
    Mat peer;          // for a key exchange
    sa_key h = INVALID_HANDLE;
    bool owned = false;
    EVP_PKEY *pkey = nullptr, *peer_pub = nullptr;
    Bytes secret;      // shared with peer
};
EVP_PKEY* from_params(const char* name, OSSL_PARAM* p, int sel) {
    EVP_PKEY_CTX* c = EVP_PKEY_CTX_new_from_name(sa_get_provider(), name, nullptr);
    EVP_PKEY* k = nullptr;
    if (!c || EVP_PKEY_fromdata_init(c) != 1 || EVP_PKEY_fromdata(c, &k, sel, p) != 1) k = nullptr;
    EVP_PKEY_CTX_free(c);
    return k;
}
sa_key bring(const Mat& m) {
    sa_key h = INVALID_HANDLE;
    sa_rights all = rights_all();
    sa_import_parameters_ec_private_bytes ep = {&all, m.curve};
    sa_import_parameters_rsa_private_key_info rp = {&all};
    sa_status st = m.type == SA_KEY_TYPE_RSA ? sa_key_import(&h, SA_KEY_FORMAT_RSA_PRIVATE_KEY_INFO, m.clear.data(), m.clear.size(), &rp)
                                             : sa_key_import(&h, SA_KEY_FORMAT_EC_PRIVATE_BYTES, m.clear.data(), m.clear.size(), &ep);
    return st == SA_STATUS_OK ? h : INVALID_HANDLE;
}
EVP_PKEY* by_handle(const Mat& m, sa_key k, bool owned) {
    uint64_t h = k;
    int del = owned;
    OSSL_PARAM p[3] = {OSSL_PARAM_construct_uint64(OSSL_PARAM_SA_KEY, &h), OSSL_PARAM_construct_int(OSSL_PARAM_SA_KEY_DELETE, &del), OSSL_PARAM_construct_end()};
    return from_params(pkey_name(m), p, EVP_PKEY_KEYPAIR);
}
bool can_sign(const Mat& m) { return m.type == SA_KEY_TYPE_RSA || m.curve != SA_ELLIPTIC_CURVE_X25519; }
bool can_exchange(const Mat& m) { return m.type == SA_KEY_TYPE_EC && m.curve != SA_ELLIPTIC_CURVE_ED25519; }
Bytes sign(OSSL_LIB_CTX* lib, const Mat& m, EVP_PKEY* k, const Bytes& data) {
    EVP_MD_CTX* c = EVP_MD_CTX_new();
    Bytes out(600);
    size_t n = out.size();
    bool ed = m.type == SA_KEY_TYPE_EC && m.curve == SA_ELLIPTIC_CURVE_ED25519;
    bool ok = EVP_DigestSignInit_ex(c, nullptr, ed ? nullptr : "SHA256", lib, nullptr, k, nullptr) == 1 && EVP_DigestSign(c, out.data(), &n, data.data(), data.size()) == 1;
    EVP_MD_CTX_free(c);
    out.resize(ok ? n : 0);
    return out;
}
bool verify(OSSL_LIB_CTX* lib, const Mat& m, EVP_PKEY* k, const Bytes& data, const Bytes& sig) {
    EVP_MD_CTX* c = EVP_MD_CTX_new();
    bool ed = m.type == SA_KEY_TYPE_EC && m.curve == SA_ELLIPTIC_CURVE_ED25519;
    bool ok = EVP_DigestVerifyInit_ex(c, nullptr, ed ? nullptr : "SHA256", lib, nullptr, k, nullptr) == 1 && EVP_DigestVerify(c, sig.data(), sig.size(), data.data(), data.size()) == 1;
    EVP_MD_CTX_free(c);
    return ok;
}
Bytes agree(OSSL_LIB_CTX* lib, EVP_PKEY* k, EVP_PKEY* peer) {
    EVP_PKEY_CTX* c = EVP_PKEY_CTX_new_from_pkey(lib, k, nullptr);
    Bytes out(64);
    size_t n = out.size();
    bool ok = c && EVP_PKEY_derive_init(c) == 1 && EVP_PKEY_derive_set_peer(c, peer) == 1 && EVP_PKEY_derive(c, out.data(), &n) == 1;
    EVP_PKEY_CTX_free(c);
    out.resize(ok ? n : 0);
    return out;
}
enum Code { SIGN, VERIFY, DUP, REF, PUB, AGREE, CIPHER, DIGEST, MAC, KDF, GET, OWN, OTHER, CODES };
const char* NAME[] = {"sign", "verify", "duplicate", "reference", "public", "agree", "cipher", "digest", "mac", "kdf", "get", "own key", "raw"};
struct Op {
    Code code;
    int key = 0, times = 0;
    Bytes data, bytes;
    Bytes want;
    Bytes sig;
    std::string bad;
    uint64_t t0 = 0, t1 = 0;
};
std::atomic<uint64_t> g_clock{1};
OSSL_LIB_CTX* g_lib;     // what every thread must be given
void execute(Op& o, std::vector<Key>& keys, OSSL_LIB_CTX** seen) {
    OSSL_LIB_CTX* lib = sa_get_provider();
    if (!lib) { o.bad = "sa_get_provider returned NULL"; return; }
    *seen = lib;
    Key* k = keys.empty() ? nullptr : &keys[o.key];
    switch (o.code) {
        case SIGN: {
            Bytes s = sign(lib, k->m, k->pkey, o.data);
            if (s.empty()) o.bad = "a signature was refused";
            else if (!verify(nullptr, k->m, k->m.pkey, o.data, s)) o.bad = "a signature does not verify";
            break;
        }
        case VERIFY:
            if (!verify(lib, k->m, k->pkey, o.data, o.sig)) o.bad = "a good signature was refused";
            else {
                Bytes d = o.data;
                d.push_back(1);
                if (verify(lib, k->m, k->pkey, d, o.sig)) o.bad = "a signature of other data was accepted";
            }
            break;
        case DUP: {
            EVP_PKEY* d = EVP_PKEY_dup(k->pkey);
            if (!d) { o.bad = "EVP_PKEY_dup"; break; }
            if (can_sign(k->m)) {
                Bytes s = sign(lib, k->m, d, o.data);
                if (s.empty() || !verify(nullptr, k->m, k->m.pkey, o.data, s)) o.bad = "signing with a duplicate";
            }
            EVP_PKEY_free(d);
            for (int i = 0; i < o.times; i++) {   // lost counts show in what is left afterwards
                EVP_PKEY* e = EVP_PKEY_dup(k->pkey);
                EVP_PKEY_free(e);
            }
            break;
        }
        case REF:
            EVP_PKEY_up_ref(k->pkey);
            if (EVP_PKEY_get_bits(k->pkey) != EVP_PKEY_get_bits(k->m.pkey)) o.bad = "bits";
            EVP_PKEY_free(k->pkey);
            break;
        case PUB: {
            int e = EVP_PKEY_eq(k->pkey, k->m.pkey);
            if (e != 1) o.bad = "the public key is another one";
            break;
        }
        case AGREE: {
            Bytes b = agree(lib, k->pkey, k->peer_pub);
            sa_key h;
            Bytes d(32);
            size_t n = 32;
            if (b.size() != sizeof h) { o.bad = "the exchange was refused"; break; }
            memcpy(&h, b.data(), sizeof h);
            if (sa_key_digest(d.data(), &n, h, SA_DIGEST_ALGORITHM_SHA256) != SA_STATUS_OK || d != k->secret) o.bad = "the shared secret is another one";
            if (sa_key_release(h) != SA_STATUS_OK) o.bad = "no release of the shared secret";
            break;
        }
        case CIPHER: {
            EVP_CIPHER* ci = EVP_CIPHER_fetch(lib, "AES-128-CTR", nullptr);
            EVP_CIPHER_CTX* c = EVP_CIPHER_CTX_new();
            Bytes out(o.data.size() + 16);
            int a = 0, b = 0;
            bool ok = ci && EVP_EncryptInit_ex2(c, ci, o.bytes.data(), o.bytes.data() + 16, nullptr) == 1 &&
                      EVP_EncryptUpdate(c, out.data(), &a, o.data.data(), (int) o.data.size()) == 1 && EVP_EncryptFinal_ex(c, out.data() + a, &b) == 1;
            EVP_CIPHER_CTX_free(c);
            EVP_CIPHER_free(ci);
            out.resize(ok ? (size_t) (a + b) : 0);
            if (out != o.want) o.bad = ok ? "the ciphertext is another one" : "encryption refused";
            break;
        }
        case DIGEST: {
            EVP_MD* md = EVP_MD_fetch(lib, "SHA256", nullptr);
            Bytes out(32);
            unsigned n = 0;
            bool ok = md && EVP_Digest(o.data.data(), o.data.size(), out.data(), &n, md, nullptr) == 1;
            EVP_MD_free(md);
            if (!ok || out != o.want) o.bad = "digest";
            break;
        }
        case MAC: {
            EVP_MAC* m = EVP_MAC_fetch(lib, "HMAC", nullptr);
            EVP_MAC_CTX* c = m ? EVP_MAC_CTX_new(m) : nullptr;
            char dn[] = "SHA256";
            OSSL_PARAM p[2] = {OSSL_PARAM_construct_utf8_string(OSSL_MAC_PARAM_DIGEST, dn, 0), OSSL_PARAM_construct_end()};
            Bytes out(64);
            size_t n = 0;
            bool ok = c && EVP_MAC_init(c, o.bytes.data(), o.bytes.size(), p) == 1 && EVP_MAC_update(c, o.data.data(), o.data.size()) == 1 && EVP_MAC_final(c, out.data(), &n, out.size()) == 1;
            EVP_MAC_CTX_free(c);
            EVP_MAC_free(m);
            out.resize(ok ? n : 0);
            if (out != o.want) o.bad = ok ? "the MAC is another one" : "MAC refused";
            break;
        }
        case KDF: {
            EVP_KDF* f = EVP_KDF_fetch(lib, "HKDF", nullptr);
            EVP_KDF_CTX* c = f ? EVP_KDF_CTX_new(f) : nullptr;
            char dn[] = "SHA256";
            sa_key raw = INVALID_HANDLE;
            sa_rights all = rights_all();
            sa_import_parameters_symmetric ip = {&all};
            if (sa_key_import(&raw, SA_KEY_FORMAT_SYMMETRIC_BYTES, o.bytes.data(), o.bytes.size(), &ip) != SA_STATUS_OK) { o.bad = "import"; break; }
            OSSL_PARAM p[5] = {OSSL_PARAM_construct_utf8_string(OSSL_KDF_PARAM_DIGEST, dn, 0), OSSL_PARAM_construct_octet_string(OSSL_KDF_PARAM_KEY, &raw, sizeof raw),
                    OSSL_PARAM_construct_octet_string(OSSL_KDF_PARAM_SALT, o.data.data(), o.data.size()), OSSL_PARAM_construct_octet_string(OSSL_KDF_PARAM_INFO, o.data.data(), o.data.size()),
                    OSSL_PARAM_construct_end()};
            uint8_t out[32];
            bool ok = c && EVP_KDF_derive(c, out, sizeof out, p) == 1;
            EVP_KDF_CTX_free(c);
            EVP_KDF_free(f);
            sa_key_release(raw);
            if (!ok) { o.bad = "derivation refused"; break; }
            sa_key h;
            memcpy(&h, out, sizeof h);
            Bytes d(32);
            size_t n = 32;
            if (sa_key_digest(d.data(), &n, h, SA_DIGEST_ALGORITHM_SHA256) != SA_STATUS_OK || d != o.want) o.bad = "the derived key is another one";
            if (sa_key_release(h) != SA_STATUS_OK) o.bad = "no release of the derived key";
            break;
        }
        case GET: break;
        case OWN: {   // a key of this thread
            sa_key h = bring(k->m);
            EVP_PKEY* p = h == INVALID_HANDLE ? nullptr : by_handle(k->m, h, true);
            if (!p) { o.bad = "a key of one's own"; break; }
            EVP_PKEY* q = EVP_PKEY_dup(p);
            EVP_PKEY_free(p);
            if (!q || EVP_PKEY_eq(q, k->m.pkey) != 1) o.bad = "a key of one's own is another one";
            EVP_PKEY_free(q);
            break;
        }
        default: {    // the session itself meanwhile
            sa_header x;
            if (k->h != INVALID_HANDLE && sa_key_header(&x, k->h) != SA_STATUS_OK) o.bad = "header";
        }
    }
    ERR_clear_error();
}
size_t room() {
    std::vector<sa_key> v;
    sa_rights all = rights_all();
    sa_import_parameters_symmetric ip = {&all};
    uint8_t b[16] = {1};
    sa_key k;
    while (sa_key_import(&k, SA_KEY_FORMAT_SYMMETRIC_BYTES, b, 16, &ip) == SA_STATUS_OK) v.push_back(k);
    for (auto x : v) sa_key_release(x);
    return v.size();
}
}  // namespace
PROP(c24_provider, "two threads used the provider at the same time", 30, 1, 40) {
    g_no_autoclean = true;
    g_det_rand = false;
    bool fresh = src.chance(1, 3);      // the very first use is made by the threads
    std::vector<Key> keys(fresh ? 0 : src.range(1, 3));
    size_t before = fresh ? 0 : room();
    for (auto& k : keys) {
        switch (src.below(4)) {
            case 0: k.m = mat_rsa(src, 128); break;
            case 1: k.m = mat_ec(src, SA_ELLIPTIC_CURVE_NIST_P256); break;
            case 2: k.m = mat_ec(src, SA_ELLIPTIC_CURVE_ED25519); break;
            default: k.m = mat_ec(src, SA_ELLIPTIC_CURVE_X25519); break;
        }
        k.h = bring(k.m);
        k.owned = src.coin();
        k.pkey = by_handle(k.m, k.h, k.owned);
        REQUIRE(k.pkey != nullptr, "the provider does not take %s", k.m.show().c_str());
        if (can_exchange(k.m)) {
            k.peer = mat_ec(src, k.m.curve);
            k.secret = ref_digest(SA_DIGEST_ALGORITHM_SHA256, agree(nullptr, k.m.pkey, k.peer.pkey));
            OSSL_PARAM* p = nullptr;
            if (EVP_PKEY_todata(k.peer.pkey, EVP_PKEY_PUBLIC_KEY, &p) != 1) pbt::fail("harness: todata");
            k.peer_pub = from_params(pkey_name(k.m), p, EVP_PKEY_PUBLIC_KEY);
            OSSL_PARAM_free(p);
            REQUIRE(k.peer_pub && !k.secret.empty(), "peer");
        }
    }
    unsigned n = (unsigned) src.range(2, 4);
    std::vector<std::vector<Op>> plan(n);
    for (auto& p : plan)
        for (unsigned i = (unsigned) src.range(1, 5); i > 0; i--) {
            Op o;
            o.code = (Code) src.below(CODES);
            if (fresh && o.code != CIPHER && o.code != DIGEST && o.code != MAC && o.code != KDF) o.code = GET;
            o.data = src.bytes(src.size(1, 60));
            o.bytes = src.bytes(32);
            if (o.code == DUP && src.coin()) o.times = 400;
            if (!keys.empty()) {
                o.key = (int) src.below(keys.size());
                Key& k = keys[o.key];
                if ((o.code == SIGN || o.code == VERIFY) && !can_sign(k.m)) o.code = AGREE;
                if (o.code == AGREE && !can_exchange(k.m)) o.code = SIGN;
                if (o.code == VERIFY) o.sig = sign(nullptr, k.m, k.m.pkey, o.data);
            }
            if (o.code == CIPHER) {
                EVP_CIPHER_CTX* c = EVP_CIPHER_CTX_new();
                o.want.resize(o.data.size());
                int a;
                EVP_EncryptInit_ex(c, EVP_aes_128_ctr(), nullptr, o.bytes.data(), o.bytes.data() + 16);
                EVP_EncryptUpdate(c, o.want.data(), &a, o.data.data(), (int) o.data.size());
                EVP_CIPHER_CTX_free(c);
            }
            if (o.code == DIGEST) o.want = ref_digest(SA_DIGEST_ALGORITHM_SHA256, o.data);
            if (o.code == KDF) o.want = ref_digest(SA_DIGEST_ALGORITHM_SHA256, ref_hkdf(SA_DIGEST_ALGORITHM_SHA256, o.bytes, o.data, o.data, 32));
            if (o.code == MAC) o.want = ref_hmac(SA_DIGEST_ALGORITHM_SHA256, o.bytes, o.data);
            p.push_back(o);
        }
    std::vector<OSSL_LIB_CTX*> seen(n, nullptr);
    std::vector<std::thread> t;
    std::atomic<unsigned> waiting{0};
    for (unsigned i = 0; i < n; i++)
        t.emplace_back([&, i] {
            waiting.fetch_add(1, std::memory_order_relaxed);
            while (waiting.load(std::memory_order_relaxed) < n) {}
            for (auto& o : plan[i]) {
                o.t0 = g_clock.fetch_add(1, std::memory_order_relaxed);
                execute(o, keys, &seen[i]);
                o.t1 = g_clock.fetch_add(1, std::memory_order_relaxed);
            }
            OPENSSL_thread_stop();
        });
    for (auto& x : t) x.join();
    unsigned overlap = 0;
    for (unsigned i = 0; i < n; i++)
        for (auto& o : plan[i]) {
            pbt::trace("thread %u: %s of key %d %s", i, NAME[o.code], o.key, o.bad.empty() ? "" : o.bad.c_str());
            pbt::label("%s%s", fresh ? "first: " : "", NAME[o.code]);
            for (unsigned j = 0; j < i; j++)
                for (auto& b : plan[j]) overlap += o.t0 < b.t1 && b.t0 < o.t1;
        }
    for (unsigned i = 0; i < n; i++) {
        for (auto& o : plan[i]) REQUIRE(o.bad.empty(), "thread %u, %s: %s", i, NAME[o.code], o.bad.c_str());
        REQUIRE(seen[i] == sa_get_provider(), "threads were given different providers");
    }
    for (auto& k : keys) {
        EVP_PKEY_free(k.pkey);
        EVP_PKEY_free(k.peer_pub);
        sa_header x;
        bool there = sa_key_header(&x, k.h) == SA_STATUS_OK;
        REQUIRE(there == !k.owned, "after the EVP_PKEY was freed its key is %s", there ? "still there" : "gone");
        if (there) sa_key_release(k.h);
    }
    if (!fresh) {
        size_t after = room();
        REQUIRE(after == before, "%zu keys could be created before, %zu after", before, after);
    } else
        REQUIRE(room() == 256, "capacity");
    if (overlap) pbt::nontrivial();
}
