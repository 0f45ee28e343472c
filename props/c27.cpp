//@provider
// C27: operations through the SecAPI OpenSSL provider give what OpenSSL's default provider gives.
#include "ops.hpp"
#include "sa_provider.h"
#include <openssl/core_names.h>
#include <openssl/ec.h>
#include <openssl/err.h>
#include <openssl/evp.h>
#include <openssl/kdf.h>
#include <openssl/rsa.h>
using namespace pbt;
using namespace sec;
using std::string;

namespace {
OSSL_LIB_CTX* P() {
    static OSSL_LIB_CTX* p = nullptr;
    if (!p) {
        p = sa_get_provider();
        REQUIRE(p != nullptr, "sa_get_provider returned NULL");
    }
    return p;
}

// a private copy that address sanitizer guards; never NULL
struct Buf {
    uint8_t* p;
    explicit Buf(const Bytes& b) : p(new uint8_t[b.size() ? b.size() : 1]) {
        if (!b.empty()) memcpy(p, b.data(), b.size());
    }
    explicit Buf(size_t n) : p(new uint8_t[n ? n : 1]) { memset(p, 0xa5, n ? n : 1); }
    ~Buf() { delete[] p; }
    Buf(const Buf&) = delete;
};

std::vector<size_t> gen_chunks(Src& src, size_t n, bool zero = true) {
    std::vector<size_t> r;
    int style = src.weighted({3, 2, 2, 2});
    size_t at = 0;
    while (at < n) {
        size_t k;
        switch (style) {
            case 0: k = n - at; break;
            case 1: k = src.range(1, 5); break;
            case 2: k = src.range(1, 40); break;
            default: k = src.chance(1, 2) ? 16 * src.range(1, 3) : src.range(1, 33);
        }
        if (style && n > 4000) k *= n / 100;
        if (zero && src.chance(1, 16)) k = 0;
        k = std::min(k, n - at);
        r.push_back(k);
        at += k;
    }
    if (zero && src.chance(1, 8)) r.push_back(0);
    return r;
}
string chunks_str(const std::vector<size_t>& c) {
    string s = "[";
    for (size_t i = 0; i < c.size() && i < 24; i++) s += (i ? "," : "") + std::to_string(c[i]);
    if (c.size() > 24) s += ",..";
    return s + "]";
}

// number of keys, cipher contexts and MAC contexts that can still be created
size_t room(int what) {
    auto c = Caller::ree();
    std::vector<uint64_t> h;
    sa_rights all = rights_all();
    sa_import_parameters_symmetric ip = {&all};
    uint8_t kb[16] = {1};
    sa_key base = INVALID_HANDLE;
    if (what) REQUIRE(sa_key_import(&base, SA_KEY_FORMAT_SYMMETRIC_BYTES, kb, 16, &ip) == SA_STATUS_OK, "no key slot left");
    for (;;) {
        uint64_t x = INVALID_HANDLE;
        sa_status s = what == 0   ? sa_key_import((sa_key*) &x, SA_KEY_FORMAT_SYMMETRIC_BYTES, kb, 16, &ip)
                      : what == 1 ? sa_crypto_cipher_init((sa_crypto_cipher_context*) &x, SA_CIPHER_ALGORITHM_AES_ECB, SA_CIPHER_MODE_ENCRYPT, base, nullptr)
                                  : sa_crypto_mac_init((sa_crypto_mac_context*) &x, SA_MAC_ALGORITHM_CMAC, base, nullptr);
        if (s != SA_STATUS_OK) break;
        h.push_back(x);
    }
    for (auto x : h) what == 0 ? sa_key_release(x) : what == 1 ? sa_crypto_cipher_release(x) : sa_crypto_mac_release(x);
    if (what) sa_key_release(base);
    return h.size();
}
struct Room {
    bool on;
    size_t n[3];
    explicit Room(bool o) : on(o) {
        if (on)
            for (int i = 0; i < 3; i++) n[i] = room(i);
    }
    void check() {
        static const char* names[] = {"keys", "cipher contexts", "MAC contexts"};
        if (!on) return;
        for (int i = 0; i < 3; i++) {
            size_t m = room(i);
            REQUIRE(m == n[i], "after everything was freed only %zu %s can be created, %zu before", m, names[i], n[i]);
        }
    }
};

bool alive(sa_key k) {
    sa_header h;
    return sa_key_header(&h, k) == SA_STATUS_OK;
}
sa_key raw_key(const Bytes& b) {
    sa_rights all = rights_all();
    sa_import_parameters_symmetric ip = {&all};
    sa_key k = INVALID_HANDLE;
    sa_status s = sa_key_import(&k, SA_KEY_FORMAT_SYMMETRIC_BYTES, (void*) b.data(), b.size(), &ip);
    REQUIRE(s == SA_STATUS_OK, "sa_key_import: %s", sname(s));
    return k;
}

// How a symmetric key gets into a provider context, and what must become of the handle.
struct KeySupply {
    int how;   // 0 bytes, 1 SA_KEY, 2 SA_KEY delete=0, 3 SA_KEY delete=1
    Bytes bytes;
    sa_key h = INVALID_HANDLE;
    int del = 0;
    uint64_t h64 = 0;
    void params(std::vector<OSSL_PARAM>& v) {
        if (how == 0) return;
        if (h == INVALID_HANDLE) h = raw_key(bytes);
        h64 = h;
        del = how == 3;
        v.push_back(OSSL_PARAM_construct_uint64(OSSL_PARAM_SA_KEY, &h64));
        if (how >= 2) v.push_back(OSSL_PARAM_construct_int(OSSL_PARAM_SA_KEY_DELETE, &del));
    }
    string str() const { return how == 0 ? "bytes" : how == 1 ? "handle" : how == 2 ? "handle(keep)" : "handle(delete)"; }
};
void settle(std::vector<KeySupply>& ks) {
    for (size_t i = 0; i < ks.size(); i++) {
        auto& k = ks[i];
        if (k.how == 0 || k.h == INVALID_HANDLE) continue;
        bool reused = false;   // a handle given back can be given out again
        for (size_t j = i + 1; j < ks.size(); j++) reused = reused || (ks[j].how && ks[j].h == k.h);
        if (reused && k.how == 3) continue;
        bool a = alive(k.h);
        if (k.how == 3) REQUIRE(!a, "a key given with SA_KEY_DELETE=1 is still there after the context was freed");
        else {
            REQUIRE(a, "the provider released a key it was not given ownership of (%s)", k.str().c_str());
            sa_key_release(k.h);
        }
    }
}

// ---------------------------------------------------------------------------------------------------------------
struct Alg {
    const char* name;
    size_t key, iv, block;
    bool aead;
};
const Alg ALGS[] = {{"AES-128-ECB", 16, 0, 16, false}, {"AES-256-ECB", 32, 0, 16, false}, {"AES-128-CBC", 16, 16, 16, false},
        {"AES-256-CBC", 32, 16, 16, false}, {"AES-128-CTR", 16, 16, 1, false}, {"AES-256-CTR", 32, 16, 1, false},
        {"AES-128-GCM", 16, 12, 1, true}, {"AES-256-GCM", 32, 12, 1, true}, {"ChaCha20", 32, 16, 1, false},
        {"ChaCha20-Poly1305", 32, 12, 1, true}};

struct Msg {
    bool enc, pad, null_final, inplace, tag_first;
    std::vector<Bytes> aad;
    Bytes data, tag;
    std::vector<size_t> chunks;
};
struct Res {
    bool ok = false;
    int stage = 0;
    Bytes out, tag;
};
Res run(EVP_CIPHER_CTX* c, const Alg& a, const Msg& m) {
    Res r;
    int n = 0;
    if (a.aead && !m.enc && m.tag_first) {
        Buf t(m.tag);
        if (EVP_CIPHER_CTX_ctrl(c, EVP_CTRL_AEAD_SET_TAG, (int) m.tag.size(), t.p) != 1) return r.stage = 1, r;
    }
    for (auto& x : m.aad) {
        Buf b(x);
        if (EVP_CipherUpdate(c, nullptr, &n, b.p, (int) x.size()) != 1) return r.stage = 2, r;
    }
    size_t at = 0;
    for (size_t k : m.chunks) {
        Buf in(Bytes(m.data.begin() + at, m.data.begin() + at + k));
        at += k;
        n = -1;
        if (m.inplace) {
            if (EVP_CipherUpdate(c, in.p, &n, in.p, (int) k) != 1) return r.stage = 3, r;
            REQUIRE(n >= 0 && (size_t) n <= k, "update of %zu bytes in place reported %d bytes of output", k, n);
            r.out.insert(r.out.end(), in.p, in.p + n);
            continue;
        }
        size_t cap = k + (a.block > 1 ? a.block : 0);
        Buf out(cap);
        if (EVP_CipherUpdate(c, out.p, &n, in.p, (int) k) != 1) return r.stage = 3, r;
        REQUIRE(n >= 0 && (size_t) n <= cap, "update of %zu bytes reported %d bytes of output", k, n);
        r.out.insert(r.out.end(), out.p, out.p + n);
    }
    if (a.aead && !m.enc && !m.tag_first) {
        Buf t(m.tag);
        if (EVP_CIPHER_CTX_ctrl(c, EVP_CTRL_AEAD_SET_TAG, (int) m.tag.size(), t.p) != 1) return r.stage = 4, r;
    }
    {
        Buf out((size_t) 16);
        n = -1;
        if (EVP_CipherFinal_ex(c, m.null_final ? nullptr : out.p, &n) != 1) return r.stage = 5, r;
        REQUIRE(n >= 0 && n <= 16, "final reported %d bytes of output", n);
        REQUIRE(!(m.null_final && n > 0), "final without output buffer reported %d bytes", n);
        if (!m.null_final) r.out.insert(r.out.end(), out.p, out.p + n);
    }
    if (a.aead && m.enc) {
        r.tag.resize(16);
        if (EVP_CIPHER_CTX_ctrl(c, EVP_CTRL_AEAD_GET_TAG, 16, r.tag.data()) != 1) return r.stage = 6, r;
    }
    r.ok = true;
    return r;
}
struct CipherCtx {
    EVP_CIPHER_CTX* c = EVP_CIPHER_CTX_new();
    ~CipherCtx() { EVP_CIPHER_CTX_free(c); }
};
Bytes default_encrypt(const Alg& a, const Bytes& key, const Bytes& iv, bool pad, const std::vector<Bytes>& aad, const Bytes& pt, Bytes* tag) {
    CipherCtx d;
    EVP_CIPHER* ci = EVP_CIPHER_fetch(nullptr, a.name, nullptr);
    Msg m;
    m.enc = true;
    m.pad = pad;
    m.null_final = m.inplace = m.tag_first = false;
    m.aad = aad;
    m.data = pt;
    m.chunks = {pt.size()};
    EVP_CipherInit_ex2(d.c, ci, nullptr, nullptr, 1, nullptr);
    if (a.aead) EVP_CIPHER_CTX_ctrl(d.c, EVP_CTRL_AEAD_SET_IVLEN, (int) iv.size(), nullptr);
    EVP_CipherInit_ex2(d.c, nullptr, key.data(), a.iv ? iv.data() : nullptr, 1, nullptr);
    EVP_CIPHER_CTX_set_padding(d.c, pad);
    Res r = run(d.c, a, m);
    EVP_CIPHER_free(ci);
    if (!r.ok) pbt::fail("harness: default encryption failed at %d", r.stage);
    if (tag) *tag = r.tag;
    return r.out;
}
}  // namespace

PROP(c27_cipher, "at least one message processed by the provider, with more than one update or another message on the same context") {
    Room room_before(src.chance(1, 6));
    P();
    std::vector<KeySupply> keys;
    keys.reserve(8);
    bool any_multi = false, any_ok = false;
    {
        CipherCtx p, d;
        const Alg* a = nullptr;
        int messages = src.weighted({5, 3, 2}) + 1;
        bool pad = true, dir = true;
        Bytes key, iv;
        for (int i = 0; i < messages; i++) {
            // what the initialization changes
            bool new_cipher = i == 0 || src.chance(1, 4);
            bool enc = src.coin();
            bool new_key = new_cipher || enc != dir || src.chance(1, 2);
            dir = enc;
            if (new_cipher) {
                a = &ALGS[src.below(10)];
                pad = true;
            }
            // only CBC defines what happens to the IV when none is given: it starts again at the original one
            bool new_iv = a->iv && (new_cipher || a->block == 1 || src.chance(3, 4));
            if (new_key) key = src.bytes(a->key);
            if (new_iv) {
                iv = src.bytes(a->iv);
                if (src.chance(1, 3) && a->iv == 16) std::fill(iv.begin() + (src.coin() ? 0 : 12), iv.end(), 0xff);
            }
            bool split = src.chance(1, 5);   // key, IV and cipher in separate calls
            string trace_how;
            EVP_CIPHER* pc = EVP_CIPHER_fetch(P(), a->name, nullptr);
            EVP_CIPHER* dc = EVP_CIPHER_fetch(nullptr, a->name, nullptr);
            REQUIRE(pc && dc, "%s cannot be fetched", a->name);
            int how = src.weighted({3, 2, 2, 2});
            std::vector<OSSL_PARAM> prm;
            const uint8_t* kb = nullptr;
            if (new_key) {
                keys.push_back({how, key});
                keys.back().params(prm);
                if (how == 0) kb = key.data();
                trace_how = keys.back().str();
            }
            prm.push_back(OSSL_PARAM_construct_end());
            // requests beyond what the provider offers: it may refuse, but what it does must be right
            size_t odd_iv = a->aead && src.chance(1, 12) ? src.range(1, 16) : 0;
            if (odd_iv) iv = src.bytes(odd_iv), new_iv = true, split = true;
            Buf ivb(iv);
            const uint8_t* ivp = new_iv ? ivb.p : nullptr;
            int r1, r2;
            bool odd_refused = false;
            if (odd_iv) {
                r2 = EVP_CipherInit_ex2(d.c, new_cipher ? dc : nullptr, nullptr, nullptr, enc, nullptr);
                if (r2 == 1 && EVP_CIPHER_CTX_ctrl(d.c, EVP_CTRL_AEAD_SET_IVLEN, (int) odd_iv, nullptr) != 1) {
                    EVP_CIPHER_free(pc);
                    EVP_CIPHER_free(dc);
                    discard();
                }
                r2 = EVP_CipherInit_ex2(d.c, nullptr, new_key ? key.data() : nullptr, ivp, enc, nullptr);
            } else
                r2 = EVP_CipherInit_ex2(d.c, new_cipher ? dc : nullptr, new_key ? key.data() : nullptr, ivp, enc, nullptr);
            bool params_later = new_key && how && src.chance(1, 3);
            if (split) {
                r1 = new_cipher ? EVP_CipherInit_ex2(p.c, pc, nullptr, nullptr, enc, nullptr) : 1;
                if (r1 == 1 && (kb || !params_later)) r1 = EVP_CipherInit_ex2(p.c, nullptr, kb, nullptr, enc, params_later ? nullptr : prm.data());
                if (r1 == 1 && odd_iv) odd_refused = EVP_CIPHER_CTX_ctrl(p.c, EVP_CTRL_AEAD_SET_IVLEN, (int) odd_iv, nullptr) != 1;
                if (r1 == 1 && !odd_refused) r1 = EVP_CipherInit_ex2(p.c, nullptr, nullptr, ivp, enc, nullptr);
            } else
                r1 = EVP_CipherInit_ex2(p.c, new_cipher ? pc : nullptr, kb, ivp, enc, params_later ? nullptr : prm.data());
            if (r1 == 1 && params_later) r1 = EVP_CIPHER_CTX_set_params(p.c, prm.data());
            EVP_CIPHER_free(pc);
            EVP_CIPHER_free(dc);
            if (odd_iv) trace("IV length %zu%s", odd_iv, odd_refused ? " refused" : "");
            trace("init %s %s key=%s iv=%s%s%s", a->name, enc ? "encrypt" : "decrypt", new_key ? trace_how.c_str() : "same", new_iv ? hex(iv).c_str() : "same",
                    split ? " split" : "", params_later ? " key after init" : "");
            REQUIRE((r1 == 1 || odd_iv) && r2 == 1, "initialization: provider %d, OpenSSL %d", r1, r2);
            if (odd_iv && (odd_refused || r1 != 1)) {
                label("IV length refused");
                any_ok = any_multi = true;
                break;
            }
            if (a->block > 1 && (src.coin() || i)) {
                pad = src.coin();
                REQUIRE(EVP_CIPHER_CTX_set_padding(p.c, pad) == 1, "set_padding refused");
                EVP_CIPHER_CTX_set_padding(d.c, pad);
            }
            if (!odd_iv && src.chance(1, 3)) {   // what the context says about itself
                unsigned pd = 77;
                OSSL_PARAM q[] = {OSSL_PARAM_construct_uint(OSSL_CIPHER_PARAM_PADDING, &pd), OSSL_PARAM_construct_end()};
                int kl = EVP_CIPHER_CTX_get_key_length(p.c), il = EVP_CIPHER_CTX_get_iv_length(p.c);
                REQUIRE(kl == (int) a->key && il == (int) a->iv, "%s reports a key of %d and an IV of %d bytes", a->name, kl, il);
                int f1 = EVP_CIPHER_get_flags(EVP_CIPHER_CTX_get0_cipher(p.c)) & EVP_CIPH_FLAG_AEAD_CIPHER ? 1 : 0;
                int m1 = EVP_CIPHER_CTX_get_mode(p.c), m2 = EVP_CIPHER_CTX_get_mode(d.c);
                int b1 = EVP_CIPHER_CTX_get_block_size(p.c), e1 = EVP_CIPHER_CTX_is_encrypting(p.c);
                REQUIRE(b1 == (int) a->block && m1 == m2 && f1 == (int) a->aead, "%s reports blocks of %d bytes, mode %d, aead %d; OpenSSL mode %d", a->name, b1, m1, f1, m2);
                REQUIRE(e1 == (int) enc, "direction reads back as %d", e1);
                if (a->block > 1) {
                    REQUIRE(EVP_CIPHER_CTX_get_params(p.c, q) == 1 && pd == (unsigned) pad, "padding %d reads back as %u", pad, pd);
                }
                if (a->iv) {
                    Bytes back(a->iv);
                    REQUIRE(EVP_CIPHER_CTX_get_original_iv(p.c, back.data(), back.size()) == 1, "the IV cannot be read back");
                    REQUIRE(back == iv, "the IV %s reads back as %s", hex(iv).c_str(), hex(back).c_str());
                }
                label("settings read back");
            }
            // the message
            Msg m;
            m.enc = enc;
            m.pad = pad;
            m.null_final = a->aead && src.chance(1, 4);
            m.tag_first = src.coin();
            if (a->aead)
                for (int k = src.weighted({2, 4, 2, 1}); k > 0; k--) m.aad.push_back(src.bytes(src.range(0, 40)));
            size_t n = src.chance(1, 8) ? 0 : src.chance(1, 80) ? src.large() : src.chance(1, 10) ? src.range(200, 1500) : src.range(1, 100);
            bool aligned = a->block > 1 && !(pad && enc) ? src.chance(7, 8) : src.chance(1, 4);
            if (aligned) n = (n + 15) / 16 * 16;
            Bytes pt = src.bytes(n);
            string mod = "";
            if (enc) m.data = pt;
            else {
                if (a->block > 1 && !pad) pt.resize((n + 15) / 16 * 16);
                m.data = default_encrypt(*a, key, iv, a->block > 1 ? pad : false, m.aad, pt, &m.tag);
                if (src.chance(1, 4)) {
                    int w = src.below(4);
                    if (w == 0 && !m.data.empty()) m.data[src.below(m.data.size())] ^= 1 << src.below(8), mod = " ciphertext changed";
                    else if (w == 1 && !m.tag.empty()) m.tag[src.below(m.tag.size())] ^= 1 << src.below(8), mod = " tag changed";
                    else if (w == 2 && !m.data.empty()) m.data.resize(src.below(m.data.size())), mod = " truncated";
                    else if (w == 3 && !m.aad.empty() && !m.aad[0].empty()) m.aad[0][0] ^= 1, mod = " AAD changed";
                }
            }
            bool short_tag = a->aead && !enc && src.chance(1, 10);
            if (short_tag) {
                m.tag.resize(src.range(1, 15));
                mod += " tag of " + std::to_string(m.tag.size());
            }
            m.chunks = gen_chunks(src, m.data.size());
            m.inplace = m.chunks.size() == 1 && !(a->block > 1 && pad) && src.chance(1, 3);
            string desc = string(a->name) + (enc ? " encrypt" : " decrypt") + (a->block > 1 ? (pad ? " padded" : " unpadded") : "") + mod;
            trace("message %s: %zu bytes in %s, %zu AAD parts%s%s", desc.c_str(), m.data.size(), chunks_str(m.chunks).c_str(), m.aad.size(),
                    m.null_final ? ", final without buffer" : "", m.inplace ? ", in place" : "");
            Res want = run(d.c, *a, m), got = run(p.c, *a, m);
            label("%s %s", a->name, enc ? "enc" : "dec");
            label("%s", want.ok ? "accepted" : "refused");
            if (want.ok != got.ok) {
                REQUIRE(got.ok || short_tag || odd_iv, "%s: OpenSSL succeeds, the provider fails at stage %d", desc.c_str(), got.stage);
                REQUIRE(want.ok, "%s: OpenSSL fails at stage %d, the provider succeeds", desc.c_str(), want.stage);
            }
            if (want.ok && got.ok) {
                REQUIRE(want.out == got.out, "%s: OpenSSL gives %s, the provider %s", desc.c_str(), hex(want.out).c_str(), hex(got.out).c_str());
                REQUIRE(want.tag == got.tag, "%s: OpenSSL's tag is %s, the provider's %s", desc.c_str(), hex(want.tag).c_str(), hex(got.tag).c_str());
                any_ok = true;
            }
            if (m.chunks.size() > 1 || i) any_multi = true;
        }
    }
    settle(keys);
    room_before.check();
    if (any_ok && any_multi) nontrivial();
}

// ---------------------------------------------------------------------------------------------------------------
namespace {
const char* const OTHER_DIGESTS[] = {"SHA512-256", "SHA512-224", "SHA2-512/256", "SHA2-512/224", "SHA2-224", "SHA3-256", "MD5", "SHA2-256x", "SHA10"};
const char* const DIGESTS[] = {"SHA1", "SHA2-256", "SHA2-384", "SHA2-512"};
Bytes default_mac(bool hmac, const char* md, const Bytes& key, const Bytes& data) {
    EVP_MAC* m = EVP_MAC_fetch(nullptr, hmac ? "HMAC" : "CMAC", nullptr);
    EVP_MAC_CTX* c = EVP_MAC_CTX_new(m);
    OSSL_PARAM p[2] = {hmac ? OSSL_PARAM_construct_utf8_string("digest", (char*) md, 0)
                            : OSSL_PARAM_construct_utf8_string("cipher", (char*) (key.size() == 16 ? "AES-128-CBC" : "AES-256-CBC"), 0),
            OSSL_PARAM_construct_end()};
    Bytes out(64);
    size_t n = 0;
    if (EVP_MAC_init(c, key.data(), key.size(), p) != 1 || (data.size() && EVP_MAC_update(c, data.data(), data.size()) != 1) ||
            EVP_MAC_final(c, out.data(), &n, out.size()) != 1)
        pbt::fail("harness: default %s", hmac ? "HMAC" : "CMAC");
    out.resize(n);
    EVP_MAC_CTX_free(c);
    EVP_MAC_free(m);
    return out;
}
}  // namespace

namespace {
size_t md_size(const char* md) { return !strcmp(md, "SHA1") ? 20 : !strcmp(md, "SHA2-256") ? 32 : !strcmp(md, "SHA2-384") ? 48 : 64; }
}  // namespace

PROP(c27_mac, "a MAC computed by the provider over several updates or as a further message on the same context") {
    Room room_before(src.chance(1, 6));
    P();
    std::vector<KeySupply> keys;
    keys.reserve(8);
    bool nt = false;
    {
        bool hmac = src.coin();
        EVP_MAC* m = EVP_MAC_fetch(P(), hmac ? "HMAC" : "CMAC", nullptr);
        REQUIRE(m != nullptr, "fetch");
        struct C {
            EVP_MAC_CTX* c;
            ~C() { EVP_MAC_CTX_free(c); }
        } ctx{EVP_MAC_CTX_new(m)};
        EVP_MAC_free(m);
        if (!hmac || src.coin()) {
            size_t s = EVP_MAC_CTX_get_mac_size(ctx.c);
            REQUIRE(s == 0 || (!hmac && s == 16), "MAC size before initialization is %zu", s);
        }
        const char* md = nullptr;
        Bytes key;
        if (hmac && src.chance(1, 10)) {   // no digest yet
            Bytes k = src.bytes(32);
            OSSL_PARAM none = OSSL_PARAM_construct_end();
            int r = EVP_MAC_init(ctx.c, k.data(), k.size(), src.coin() ? &none : nullptr);
            trace("init without digest: %d", r);
            REQUIRE(r != 1, "HMAC starts without a digest");
            label("no digest");
        }
        if (src.chance(1, 10)) {           // no key yet
            std::vector<OSSL_PARAM> v;
            if (hmac) v.push_back(OSSL_PARAM_construct_utf8_string("digest", (char*) (md = DIGESTS[src.below(4)]), 0));
            v.push_back(OSSL_PARAM_construct_end());
            if (key.empty()) {
                Buf one((size_t) 1);
                // after a refused start the key of that start may or may not have been kept, so only a fresh context is judged
                int r = EVP_MAC_init(ctx.c, nullptr, 0, v.data());
                trace("init without key: %d", r);
                label("no key");
            }
        }
        if (hmac && src.chance(1, 8)) {   // a digest SecAPI does not have
            const char* om = OTHER_DIGESTS[src.below(9)];
            Bytes k = src.bytes(32);
            EVP_MAC_CTX* other = EVP_MAC_CTX_new(EVP_MAC_CTX_get0_mac(ctx.c));
            OSSL_PARAM p[2] = {OSSL_PARAM_construct_utf8_string("digest", (char*) om, 0), OSSL_PARAM_construct_end()};
            int r = EVP_MAC_init(other, k.data(), k.size(), p);
            trace("init with %s: %d", om, r);
            EVP_MAC_CTX_free(other);
            REQUIRE(r != 1, "HMAC with %s accepted", om);
            label("other digest");
        }
        int messages = src.weighted({4, 3, 2, 1}) + 1;
        for (int i = 0; i < messages; i++) {
            std::vector<OSSL_PARAM> v;
            bool new_key = key.empty() || src.chance(1, 2), new_md = hmac && (!md || src.chance(1, 3));
            int how = src.weighted({3, 2, 2, 2});
            const uint8_t* kb = nullptr;
            if (new_key) {
                key = src.bytes(!hmac ? (src.coin() ? 16 : 32) : src.chance(1, 4) ? src.range(16, 512) : src.range(16, 80));
                keys.push_back({how, key});
                keys.back().params(v);
                if (how == 0) kb = key.data();
            }
            if (new_md) v.push_back(OSSL_PARAM_construct_utf8_string("digest", (char*) (md = DIGESTS[src.below(4)]), 0));
            if (v.size() > 1 && src.coin()) std::swap(v.front(), v.back());
            v.push_back(OSSL_PARAM_construct_end());
            bool early = v.size() > 1 && src.chance(1, 3);   // set on the context before it is initialized
            int r = 1;
            if (early) r = EVP_MAC_CTX_set_params(ctx.c, v.data());
            trace("init %s key=%s%s md=%s%s", hmac ? "HMAC" : "CMAC", new_key ? keys.back().str().c_str() : "same",
                    new_key ? (" of " + std::to_string(key.size())).c_str() : "", md ? md : "-", early ? " params set before" : "");
            REQUIRE(r == 1, "EVP_MAC_CTX_set_params: %d", r);
            OSSL_PARAM none = OSSL_PARAM_construct_end();
            r = EVP_MAC_init(ctx.c, kb, kb ? key.size() : 0, early ? (src.coin() ? nullptr : &none) : v.data());
            REQUIRE(r == 1, "EVP_MAC_init: %d", r);
            Bytes data = src.bytes(src.chance(1, 80) ? src.large() : src.chance(1, 10) ? src.range(200, 3000) : src.range(0, 150));
            auto chunks = gen_chunks(src, data.size());
            trace("%zu bytes in %s", data.size(), chunks_str(chunks).c_str());
            size_t at = 0;
            bool abandon = src.chance(1, 10);
            for (size_t k : chunks) {
                Buf b(Bytes(data.begin() + at, data.begin() + at + k));
                at += k;
                REQUIRE(EVP_MAC_update(ctx.c, b.p, k) == 1, "EVP_MAC_update of %zu bytes failed", k);
                if (abandon && src.chance(1, 3)) break;
            }
            if (abandon) continue;
            Bytes want = default_mac(hmac, md, key, data);
            size_t s = EVP_MAC_CTX_get_mac_size(ctx.c), n = 0;
            size_t bs = EVP_MAC_CTX_get_block_size(ctx.c);
            REQUIRE(bs == (!hmac ? 16 : md_size(md) > 32 ? 128 : 64), "the MAC reports blocks of %zu bytes", bs);
            REQUIRE(s == want.size(), "MAC size %zu, not %zu", s, want.size());
            if (src.chance(1, 4)) {
                n = 7;
                r = EVP_MAC_final(ctx.c, nullptr, &n, 0);
                REQUIRE(r == 1 && n == want.size(), "size query: %d, %zu bytes", r, n);
            }
            if (src.chance(1, 5)) {
                size_t small = src.below(want.size());
                Buf o(small);
                r = EVP_MAC_final(ctx.c, o.p, &n, small);
                trace("final into %zu bytes: %d", small, r);
                REQUIRE(r != 1, "a MAC of %zu bytes was returned in a buffer of %zu", want.size(), small);
                label("short buffer");
            }
            size_t room_out = want.size() + (src.coin() ? 0 : src.range(1, 20));
            Buf o(room_out);
            n = 0;
            r = EVP_MAC_final(ctx.c, o.p, &n, room_out);
            REQUIRE(r == 1, "EVP_MAC_final failed");
            REQUIRE(Bytes(o.p, o.p + n) == want, "OpenSSL gives %s, the provider %s", hex(want).c_str(), hex(o.p, n).c_str());
            label("%s", hmac ? md : "CMAC");
            if (chunks.size() > 1 || i) nt = true;
        }
    }
    settle(keys);
    room_before.check();
    if (nt) nontrivial();
}

// ---------------------------------------------------------------------------------------------------------------
namespace {
const char* pkey_name(const Mat& m) {
    switch (m.type) {
        case SA_KEY_TYPE_RSA: return "RSA";
        case SA_KEY_TYPE_DH: return "DH";
        default:
            switch (m.curve) {
                case SA_ELLIPTIC_CURVE_ED25519: return "ED25519";
                case SA_ELLIPTIC_CURVE_ED448: return "ED448";
                case SA_ELLIPTIC_CURVE_X25519: return "X25519";
                case SA_ELLIPTIC_CURVE_X448: return "X448";
                default: return "EC";
            }
    }
}
// A key pair brought to the provider in one of four ways, with what must become of the handle.
struct PkeySupply {
    int how;   // 0 key material, 1 handle, 2 handle to keep, 3 handle to delete
    sa_key h = INVALID_HANDLE;
    EVP_PKEY* pkey = nullptr;
    string str() const { return how == 0 ? "material" : how == 1 ? "handle" : how == 2 ? "handle(keep)" : "handle(delete)"; }
};
EVP_PKEY* from_params(const char* name, OSSL_PARAM* p, int sel = EVP_PKEY_KEYPAIR) {
    EVP_PKEY_CTX* c = EVP_PKEY_CTX_new_from_name(P(), name, nullptr);
    REQUIRE(c != nullptr, "no %s keys in the provider", name);
    EVP_PKEY* k = nullptr;
    if (EVP_PKEY_fromdata_init(c) != 1 || EVP_PKEY_fromdata(c, &k, sel, p) != 1) k = nullptr;
    EVP_PKEY_CTX_free(c);
    return k;
}
PkeySupply make_pkey(Src& src, const Mat& m) {
    PkeySupply s;
    s.how = m.type == SA_KEY_TYPE_DH ? src.range(1, 3) : src.below(4);
    if (s.how == 0) {
        OSSL_PARAM* p = nullptr;
        if (EVP_PKEY_todata(m.pkey, EVP_PKEY_KEYPAIR, &p) != 1) pbt::fail("harness: todata");
        s.pkey = from_params(pkey_name(m), p);
        OSSL_PARAM_free(p);
    } else {
        sa_rights all = rights_all();
        sa_import_parameters_ec_private_bytes ep = {&all, m.curve};
        sa_import_parameters_rsa_private_key_info rp = {&all};
        sa_status st = m.type == SA_KEY_TYPE_RSA ? sa_key_import(&s.h, SA_KEY_FORMAT_RSA_PRIVATE_KEY_INFO, m.clear.data(), m.clear.size(), &rp)
                                                 : sa_key_import(&s.h, SA_KEY_FORMAT_EC_PRIVATE_BYTES, m.clear.data(), m.clear.size(), &ep);
        if (st != SA_STATUS_OK) pbt::fail("harness: import %s: %s", m.show().c_str(), sname(st));
        uint64_t h = s.h;
        int del = s.how == 3;
        OSSL_PARAM p[3] = {OSSL_PARAM_construct_uint64(OSSL_PARAM_SA_KEY, &h), s.how == 1 ? OSSL_PARAM_construct_end() : OSSL_PARAM_construct_int(OSSL_PARAM_SA_KEY_DELETE, &del),
                OSSL_PARAM_construct_end()};
        s.pkey = from_params(pkey_name(m), p);
    }
    REQUIRE(s.pkey != nullptr, "the provider does not take %s as %s", m.show().c_str(), s.str().c_str());
    return s;
}
// after every user of the key was freed
void settle(PkeySupply& s) {
    EVP_PKEY_free(s.pkey);
    s.pkey = nullptr;
    if (s.how == 0) return;
    bool a = alive(s.h);
    if (s.how == 3) REQUIRE(!a, "a key given with SA_KEY_DELETE=1 is still there after the EVP_PKEY was freed");
    else {
        REQUIRE(a, "the provider released a key it was not given ownership of (%s)", s.str().c_str());
        sa_key_release(s.h);
    }
}
template <class T, void (*F)(T*)>
struct Own {
    T* p;
    explicit Own(T* x) : p(x) {}
    ~Own() { F(p); }
    Own(const Own&) = delete;
};
using MdCtx = Own<EVP_MD_CTX, EVP_MD_CTX_free>;
using PkCtx = Own<EVP_PKEY_CTX, EVP_PKEY_CTX_free>;
using Pk = Own<EVP_PKEY, EVP_PKEY_free>;

// Signature options, given the same way to both sides.
struct SigOpt {
    int pad = 0;                  // 0 leave it, RSA_PKCS1_PADDING, RSA_PKCS1_PSS_PADDING
    const char* mgf = nullptr;    // nullptr: leave it
    int salt = -100;              // -100: leave it
    bool text = false;            // given as strings rather than as numbers
    string str() const {
        string s = pad == 0 ? "" : pad == RSA_PKCS1_PADDING ? " pkcs1" : " pss";
        if (text) s += " as text";
        if (mgf) s += string(" mgf1=") + mgf;
        if (salt != -100) s += " salt=" + std::to_string(salt);
        return s;
    }
};
string salt_text(int salt) {
    return salt == RSA_PSS_SALTLEN_DIGEST ? "digest" : salt == RSA_PSS_SALTLEN_MAX ? "max" : salt == RSA_PSS_SALTLEN_AUTO ? "auto" : std::to_string(salt);
}
int set_opt(EVP_PKEY_CTX* c, const SigOpt& o) {
    if (o.text) {   // all of them in one call
        string pad = o.pad == RSA_PKCS1_PADDING ? "pkcs1" : "pss", mgf = o.mgf ? o.mgf : "", salt = salt_text(o.salt);
        OSSL_PARAM p[4];
        int n = 0;
        if (o.salt != -100) p[n++] = OSSL_PARAM_construct_utf8_string(OSSL_SIGNATURE_PARAM_PSS_SALTLEN, salt.data(), 0);
        if (o.mgf) p[n++] = OSSL_PARAM_construct_utf8_string(OSSL_SIGNATURE_PARAM_MGF1_DIGEST, mgf.data(), 0);
        if (o.pad) p[n++] = OSSL_PARAM_construct_utf8_string(OSSL_SIGNATURE_PARAM_PAD_MODE, pad.data(), 0);
        p[n] = OSSL_PARAM_construct_end();
        return n == 0 || EVP_PKEY_CTX_set_params(c, p) == 1 ? 0 : 4;
    }
    if (o.pad && EVP_PKEY_CTX_set_rsa_padding(c, o.pad) != 1) return 1;
    if (o.mgf && EVP_PKEY_CTX_set_rsa_mgf1_md_name(c, o.mgf, nullptr) != 1) return 2;
    if (o.salt != -100 && EVP_PKEY_CTX_set_rsa_pss_saltlen(c, o.salt) != 1) return 3;
    return 0;
}
// A setting of a context as a string; empty: not available.
string setting(EVP_PKEY_CTX* c, const char* name) {
    char t[80] = "";
    OSSL_PARAM p[] = {OSSL_PARAM_construct_utf8_string(name, t, sizeof t), OSSL_PARAM_construct_end()};
    int r = EVP_PKEY_CTX_get_params(c, p);
    ERR_clear_error();
    return r == 1 && OSSL_PARAM_modified(p) ? t : "";
}
int int_setting(EVP_PKEY_CTX* c, const char* name) {
    int n = -50;
    OSSL_PARAM p[] = {OSSL_PARAM_construct_int(name, &n), OSSL_PARAM_construct_end()};
    int r = EVP_PKEY_CTX_get_params(c, p);
    ERR_clear_error();
    return r == 1 && OSSL_PARAM_modified(p) ? n : -51;
}
bool same_md(const string& name, const char* md) {
    EVP_MD* f = EVP_MD_fetch(nullptr, md, nullptr);
    bool r = f && !name.empty() && EVP_MD_is_a(f, name.c_str());
    EVP_MD_free(f);
    return r;
}
// What a context says about the settings it was given; "" if all of them read back as they are.
string read_back(EVP_PKEY_CTX* c, const SigOpt& o, const char* md) {
    if (string d = setting(c, OSSL_SIGNATURE_PARAM_DIGEST); !same_md(d, md)) return string("the digest ") + md + " reads back as '" + d + "'";
    if (o.pad) {
        int n = int_setting(c, OSSL_SIGNATURE_PARAM_PAD_MODE);
        string t = setting(c, OSSL_SIGNATURE_PARAM_PAD_MODE);
        if (n != o.pad) return "the padding " + std::to_string(o.pad) + " reads back as " + std::to_string(n);
        if (t != (o.pad == RSA_PKCS1_PADDING ? "pkcs1" : "pss")) return "the padding " + std::to_string(o.pad) + " reads back as '" + t + "'";
    }
    if (o.mgf)
        if (string d = setting(c, OSSL_SIGNATURE_PARAM_MGF1_DIGEST); !same_md(d, o.mgf)) return string("the MGF1 digest ") + o.mgf + " reads back as '" + d + "'";
    if (o.salt != -100) {
        int n = int_setting(c, OSSL_SIGNATURE_PARAM_PSS_SALTLEN);
        if (n != o.salt) return "the salt length " + std::to_string(o.salt) + " reads back as " + std::to_string(n);
        if (string t = setting(c, OSSL_SIGNATURE_PARAM_PSS_SALTLEN); t != salt_text(o.salt)) return "the salt length " + std::to_string(o.salt) + " reads back as '" + t + "'";
    }
    return "";
}
Bytes digest_of(const char* md, const Bytes& b) {
    Bytes r(64);
    unsigned n = 0;
    uint8_t z = 0;
    EVP_MD* m = EVP_MD_fetch(nullptr, md, nullptr);
    if (EVP_Digest(b.empty() ? &z : b.data(), b.size(), r.data(), &n, m, nullptr) != 1) pbt::fail("harness: digest");
    EVP_MD_free(m);
    r.resize(n);
    return r;
}
// What OpenSSL's default provider makes of a signature: 1 valid.
int default_verify(EVP_PKEY* k, bool ed, const char* md, const SigOpt& o, const Bytes& msg, const Bytes& sig) {
    MdCtx c(EVP_MD_CTX_new());
    EVP_PKEY_CTX* x = nullptr;
    if (EVP_DigestVerifyInit_ex(c.p, &x, ed ? nullptr : md, nullptr, nullptr, k, nullptr) != 1 || set_opt(x, o)) pbt::fail("harness: default verify init");
    uint8_t z = 0;
    int r = EVP_DigestVerify(c.p, sig.data(), sig.size(), msg.empty() ? &z : msg.data(), msg.size());
    ERR_clear_error();
    return r == 1;
}
Bytes default_sign(EVP_PKEY* k, bool ed, const char* md, const SigOpt& o, const Bytes& msg) {
    MdCtx c(EVP_MD_CTX_new());
    EVP_PKEY_CTX* x = nullptr;
    if (EVP_DigestSignInit_ex(c.p, &x, ed ? nullptr : md, nullptr, nullptr, k, nullptr) != 1 || set_opt(x, o)) pbt::fail("harness: default sign init");
    uint8_t z = 0;
    size_t n = 0;
    Bytes s;
    if (EVP_DigestSign(c.p, nullptr, &n, msg.empty() ? &z : msg.data(), msg.size()) != 1) return s;
    s.resize(n);
    if (EVP_DigestSign(c.p, s.data(), &n, msg.empty() ? &z : msg.data(), msg.size()) != 1) n = 0;
    s.resize(n);
    ERR_clear_error();
    return s;
}
}  // namespace

namespace {
Bytes aid(EVP_PKEY_CTX* x) {
    Buf b((size_t) 128);
    OSSL_PARAM p[] = {OSSL_PARAM_construct_octet_string(OSSL_SIGNATURE_PARAM_ALGORITHM_ID, b.p, 128), OSSL_PARAM_construct_end()};
    int r = EVP_PKEY_CTX_get_params(x, p);
    ERR_clear_error();
    return r == 1 && p[0].return_size <= 128 ? Bytes(b.p, b.p + p[0].return_size) : Bytes();
}
}  // namespace

PROP(c27_sign, "a signature made or checked by the provider") {
    Room room_before(src.chance(1, 8));
    P();
    Mat m;
    int kind = src.weighted({4, 3, 2});   // RSA, ECDSA, EdDSA
    static const sa_elliptic_curve PC[] = {SA_ELLIPTIC_CURVE_NIST_P256, SA_ELLIPTIC_CURVE_NIST_P384, SA_ELLIPTIC_CURVE_NIST_P521, SA_ELLIPTIC_CURVE_NIST_P192, SA_ELLIPTIC_CURVE_NIST_P224};
    if (kind == 0) m = mat_rsa(src, src.pick({128, 256, 256, 384, 512}));
    else if (kind == 1) m = mat_ec(src, PC[src.below(5)]);
    else m = mat_ec(src, src.coin() ? SA_ELLIPTIC_CURVE_ED25519 : SA_ELLIPTIC_CURVE_ED448);
    bool ed = kind == 2;
    PkeySupply k = make_pkey(src, m);
    bool nt = false;
    {
        MdCtx c(EVP_MD_CTX_new());
        int messages = src.weighted({5, 3, 1}) + 1;
        bool again = false;
        for (int i = 0; i < messages; i++) {
            const char* md = ed ? nullptr : DIGESTS[src.below(4)];
            SigOpt o;
            if (kind == 0) {
                o.pad = src.pick({0, RSA_PKCS1_PADDING, RSA_PKCS1_PSS_PADDING, RSA_PKCS1_PSS_PADDING});
                if (o.pad == RSA_PKCS1_PSS_PADDING) {
                    if (src.coin()) o.mgf = DIGESTS[src.below(4)];
                    size_t max = m.size - 2 - md_size(md);
                    o.salt = src.weighted({4, 3, 3}) == 0 ? (int) src.below(std::min<size_t>(max, 70) + 1) : src.pick({RSA_PSS_SALTLEN_DIGEST, RSA_PSS_SALTLEN_AUTO, RSA_PSS_SALTLEN_MAX, (int) max, -100});
                }
                o.text = src.chance(1, 3);
            }
            // prehashed calls exist for RSA and ECDSA only; there the digest has to be named
            int api = ed ? 1 : src.below(3);   // 0 init/update/final, 1 one call, 2 prehashed
            bool sign = src.coin();
            Bytes msg = src.bytes(src.chance(1, 10) ? 0 : src.chance(1, 80) ? src.large() : src.chance(1, 8) ? src.range(200, 3000) : src.range(1, 100));
            auto chunks = gen_chunks(src, msg.size());
            trace("%s %s %s %s%s api %d, %zu bytes in %s", sign ? "sign" : "verify", pkey_name(m), k.str().c_str(), md ? md : "-", o.str().c_str(), api, msg.size(), chunks_str(chunks).c_str());
            Bytes made = default_sign(m.pkey, ed, md, o, msg);
            bool possible = !made.empty();
            label("%s%s %s", ed ? pkey_name(m) : kind ? "ECDSA" : o.pad == RSA_PKCS1_PSS_PADDING ? "PSS" : "PKCS1", possible ? "" : " impossible", sign ? "sign" : "verify");
            Bytes sig = made;
            bool changed = false;
            if (!sign) {
                if (!possible) sig = src.bytes(m.type == SA_KEY_TYPE_RSA ? m.size : 40);
                switch (src.below(6)) {
                    case 0: sig[src.below(sig.size())] ^= 1 << src.below(8), changed = true; break;
                    case 1: sig.resize(src.below(sig.size()) + (src.coin() ? 1 : 0)), changed = sig.size() != made.size(); break;
                    case 2: {
                        Bytes other = msg;
                        if (other.empty()) other.push_back(0);
                        else other[src.below(other.size())] ^= 1;
                        Bytes s2 = default_sign(m.pkey, ed, md, o, other);
                        if (!s2.empty()) sig = s2, changed = true;
                        break;
                    }
                    default: break;
                }
                if (sig.empty()) sig.push_back(0);
            }
            Buf b(msg), sb(sig);
            uint8_t* got = nullptr;
            std::unique_ptr<Buf> out;
            size_t n = 0;
            int r = 0;
            bool final_twice = false;
            if (api == 2) {
                Bytes dg = digest_of(md, msg);
                Buf d(dg);
                PkCtx x(EVP_PKEY_CTX_new_from_pkey(P(), k.pkey, nullptr));
                REQUIRE(x.p != nullptr, "EVP_PKEY_CTX_new_from_pkey");
                int rounds = src.chance(1, 4) ? 2 : 1;
                for (int q = 0; q < rounds; q++) {
                    r = sign ? EVP_PKEY_sign_init(x.p) : EVP_PKEY_verify_init(x.p);
                    REQUIRE(r == 1, "init: %d", r);
                }
                if (src.chance(1, 8)) {
                    aid(x.p);
                    label("identifier without digest");
                }
                EVP_MD* f = EVP_MD_fetch(P(), md, nullptr);
                r = EVP_PKEY_CTX_set_signature_md(x.p, f);
                EVP_MD_free(f);
                REQUIRE(r == 1, "set_signature_md: %d", r);
                int e = set_opt(x.p, o);
                REQUIRE(e == 0, "option %d refused", e);
                PkCtx dup(src.chance(1, 3) ? EVP_PKEY_CTX_dup(x.p) : nullptr);
                EVP_PKEY_CTX* use = x.p;
                if (dup.p && src.coin()) use = dup.p;
                if (src.chance(1, 3)) {
                    string b1 = read_back(use, o, md);
                    REQUIRE(b1.empty(), "%s", b1.c_str());
                    label("settings read back");
                }
                if (sign) {
                    size_t q = 0;
                    r = EVP_PKEY_sign(use, nullptr, &q, d.p, dg.size());
                    if (r == 1 && possible) {
                        REQUIRE(q >= made.size(), "size query reports %zu", q);
                        if (src.chance(1, 4)) {
                            size_t small = src.below(kind == 0 ? q : made.size() > 12 ? made.size() - 12 : 1);
                            Buf s(small);
                            n = small;
                            int r2 = EVP_PKEY_sign(use, s.p, &n, d.p, dg.size());
                            trace("into %zu bytes: %d", small, r2);
                            REQUIRE(r2 != 1, "a signature was returned in a buffer of %zu bytes", small);
                            label("short buffer");
                        }
                        size_t cap = q + (src.coin() ? 0 : src.range(1, 20));
                        out.reset(new Buf(cap));
                        n = cap;
                        r = EVP_PKEY_sign(use, out->p, &n, d.p, dg.size());
                        REQUIRE(r != 1 || n <= cap, "%zu bytes in a buffer of %zu", n, cap);
                    } else if (r == 1) {
                        out.reset(new Buf(q));
                        n = q;
                        r = EVP_PKEY_sign(use, out->p, &n, d.p, dg.size());
                    }
                } else
                    r = EVP_PKEY_verify(use, sb.p, sig.size(), d.p, dg.size());
            } else {
                if (again && src.coin()) EVP_MD_CTX_reset(c.p);
                EVP_PKEY_CTX* x = nullptr;
                if (!ed && src.chance(1, 12)) {   // an initialization that cannot succeed
                    const char* om = OTHER_DIGESTS[src.below(9)];
                    int r2 = sign ? EVP_DigestSignInit_ex(c.p, &x, om, P(), nullptr, k.pkey, nullptr) : EVP_DigestVerifyInit_ex(c.p, &x, om, P(), nullptr, k.pkey, nullptr);
                    trace("init with %s: %d", om, r2);
                    REQUIRE(r2 != 1, "%s accepted", om);
                    if (src.coin()) EVP_MD_CTX_reset(c.p);
                    label("refused init");
                }
                r = sign ? EVP_DigestSignInit_ex(c.p, &x, md, P(), nullptr, k.pkey, nullptr) : EVP_DigestVerifyInit_ex(c.p, &x, md, P(), nullptr, k.pkey, nullptr);
                REQUIRE(r == 1, "init: %d", r);
                int e = set_opt(x, o);
                REQUIRE(e == 0, "option %d refused", e);
                again = true;
                if (!ed && src.chance(1, 4)) {
                    MdCtx dc(EVP_MD_CTX_new());
                    EVP_PKEY_CTX* dx = nullptr;
                    if (EVP_DigestVerifyInit_ex(dc.p, &dx, md, nullptr, nullptr, m.pkey, nullptr) != 1 || set_opt(dx, o)) pbt::fail("harness: default init");
                    string b1 = read_back(dx, o, md), b2 = read_back(x, o, md);
                    if (!b1.empty()) pbt::fail("harness: OpenSSL: %s", b1.c_str());
                    REQUIRE(b2.empty(), "%s", b2.c_str());
                    label("settings read back");
                }
                if (src.chance(1, 4)) {
                    MdCtx dc(EVP_MD_CTX_new());
                    EVP_PKEY_CTX* dx = nullptr;
                    if (EVP_DigestSignInit_ex(dc.p, &dx, md, nullptr, nullptr, m.pkey, nullptr) != 1 || set_opt(dx, o)) pbt::fail("harness: default init");
                    Bytes a1 = aid(dx), a2 = aid(x);
                    if (!a2.empty()) REQUIRE(a1 == a2, "the signature algorithm identifier is %s, OpenSSL's is %s", hex(a2).c_str(), hex(a1).c_str());
                    if (o.pad != RSA_PKCS1_PSS_PADDING) REQUIRE(!a2.empty(), "no signature algorithm identifier");
                }
                MdCtx copy(EVP_MD_CTX_new());
                EVP_MD_CTX* use = c.p;
                if (ed && src.chance(1, 4)) {
                    int r2 = EVP_MD_CTX_copy_ex(copy.p, c.p);
                    trace("copy: %d", r2);
                    if (r2 == 1 && src.coin()) use = copy.p;
                }
                if (api == 0) {
                    size_t at = 0;
                    for (size_t q : chunks) {
                        Buf part(Bytes(msg.begin() + at, msg.begin() + at + q));
                        r = sign ? EVP_DigestSignUpdate(use, part.p, q) : EVP_DigestVerifyUpdate(use, part.p, q);
                        REQUIRE(r == 1, "update of %zu bytes: %d", q, r);
                        at += q;
                        if (use == c.p && src.chance(1, 6)) {
                            int r2 = EVP_MD_CTX_copy_ex(copy.p, c.p);
                            trace("copy after %zu bytes: %d", at, r2);
                            REQUIRE(r2 == 1, "copying a context after %zu bytes failed", at);
                            if (src.coin()) use = copy.p;
                        }
                        // a final in between works on a copy and does not end the message
                        if (src.chance(1, 10)) {
                            Buf t((size_t) 600);
                            size_t tn = 600;
                            int r2 = sign ? EVP_DigestSignFinal(use, t.p, &tn) : EVP_DigestVerifyFinal(use, sb.p, sig.size());
                            if (possible) trace("final after %zu bytes: %d", at, r2);
                            final_twice = true;
                            if (sign && possible) {
                                Bytes part_msg(msg.begin(), msg.begin() + at);
                                REQUIRE(r2 == 1, "final after %zu bytes: %d", at, r2);
                                REQUIRE(default_verify(m.pkey, ed, md, o, part_msg, Bytes(t.p, t.p + tn)), "signature of the first %zu bytes is not accepted by OpenSSL", at);
                            }
                        }
                    }
                }
                uint8_t* bp = b.p;
                if (sign) {
                    size_t q = 0;
                    r = api == 0 ? EVP_DigestSignFinal(use, nullptr, &q) : EVP_DigestSign(use, nullptr, &q, bp, msg.size());
                    if (r == 1) {
                        if (possible) REQUIRE(q >= made.size() - (kind == 1 ? 4 : 0), "size query reports %zu", q);
                        if (api == 0 && possible && src.chance(1, 4)) {
                            size_t small = src.below(kind == 0 ? q : made.size() > 12 ? made.size() - 12 : 1);
                            Buf s(small);
                            n = small;
                            int r2 = EVP_DigestSignFinal(use, s.p, &n);
                            trace("into %zu bytes: %d", small, r2);
                            REQUIRE(r2 != 1, "a signature was returned in a buffer of %zu bytes", small);
                            label("short buffer");
                        }
                        size_t cap = q + (src.coin() ? 0 : src.range(1, 20));
                        out.reset(new Buf(cap));
                        n = cap;
                        r = api == 0 ? EVP_DigestSignFinal(use, out->p, &n) : EVP_DigestSign(use, out->p, &n, bp, msg.size());
                        REQUIRE(r != 1 || n <= cap, "%zu bytes in a buffer of %zu", n, cap);
                    }
                } else
                    r = api == 0 ? EVP_DigestVerifyFinal(use, sb.p, sig.size()) : EVP_DigestVerify(use, sb.p, sig.size(), bp, msg.size());
            }
            if (sign) {
                REQUIRE((r == 1) == possible, "OpenSSL %s, the provider %s", possible ? "signs" : "cannot sign", r == 1 ? "signs" : "does not");
                if (r == 1) {
                    Bytes s(out->p, out->p + n);
                    if (ed || (kind == 0 && o.pad != RSA_PKCS1_PSS_PADDING)) REQUIRE(s == made, "OpenSSL gives %s, the provider %s", hex(made).c_str(), hex(s).c_str());
                    REQUIRE(default_verify(m.pkey, ed, md, o, msg, s), "OpenSSL does not accept the signature %s", hex(s, 600).c_str());
                    if (o.pad == RSA_PKCS1_PSS_PADDING && o.salt != -100) {
                        SigOpt exact = o;
                        if (o.salt == RSA_PSS_SALTLEN_DIGEST) exact.salt = md_size(md);
                        else if (o.salt < 0) exact.salt = m.size - 2 - md_size(md);
                        REQUIRE(default_verify(m.pkey, ed, md, exact, msg, s), "the salt of the signature is not %d bytes long", exact.salt);
                    }
                }
            } else {
                bool good = default_verify(m.pkey, ed, md, o, msg, sig);
                REQUIRE((r == 1) == good, "%ssignature %s: OpenSSL %s it, the provider %s", changed ? "changed " : "", hex(sig, 600).c_str(), good ? "accepts" : "refuses", r == 1 ? "accepts" : "refuses");
                label("%s", good ? "valid" : "invalid");
            }
            (void) got;
            (void) final_twice;
            nt = true;
        }
    }
    settle(k);
    room_before.check();
    if (nt) nontrivial();
}

// ---------------------------------------------------------------------------------------------------------------
namespace {
struct RsaOpt {
    int pad = 0;
    bool by_name = false;         // padding given as a string
    const char* md = nullptr;
    const char* mgf = nullptr;
    bool label = false;
    Bytes lab;
    string str() const {
        string s = pad == 0 ? "default" : pad == RSA_PKCS1_PADDING ? "pkcs1" : pad == RSA_PKCS1_OAEP_PADDING ? "oaep" : "padding " + std::to_string(pad);
        if (md) s += string(" md=") + md;
        if (mgf) s += string(" mgf1=") + mgf;
        if (label) s += " label of " + std::to_string(lab.size());
        return s;
    }
};
int set_opt(EVP_PKEY_CTX* c, const RsaOpt& o) {
    if (o.pad) {
        if (o.by_name) {
            const char* n = o.pad == RSA_PKCS1_PADDING ? "pkcs1" : o.pad == RSA_PKCS1_OAEP_PADDING ? "oaep" : o.pad == RSA_NO_PADDING ? "none" : "nonsense";
            OSSL_PARAM p[] = {OSSL_PARAM_construct_utf8_string(OSSL_ASYM_CIPHER_PARAM_PAD_MODE, (char*) n, 0), OSSL_PARAM_construct_end()};
            if (EVP_PKEY_CTX_set_params(c, p) != 1) return 1;
        } else if (EVP_PKEY_CTX_set_rsa_padding(c, o.pad) != 1)
            return 1;
    }
    if (o.md && EVP_PKEY_CTX_set_rsa_oaep_md_name(c, o.md, nullptr) != 1) return 2;
    if (o.mgf && EVP_PKEY_CTX_set_rsa_mgf1_md_name(c, o.mgf, nullptr) != 1) return 3;
    if (o.label) {
        uint8_t* l = (uint8_t*) OPENSSL_malloc(o.lab.size() + 1);
        if (!o.lab.empty()) memcpy(l, o.lab.data(), o.lab.size());
        if (EVP_PKEY_CTX_set0_rsa_oaep_label(c, l, (int) o.lab.size()) != 1) {
            OPENSSL_free(l);
            return 4;
        }
    }
    return 0;
}
string read_back(EVP_PKEY_CTX* c, const RsaOpt& o) {
    if (o.pad == RSA_PKCS1_PADDING || o.pad == RSA_PKCS1_OAEP_PADDING || o.pad == RSA_NO_PADDING) {
        int n = int_setting(c, OSSL_ASYM_CIPHER_PARAM_PAD_MODE);
        string t = setting(c, OSSL_ASYM_CIPHER_PARAM_PAD_MODE);
        if (n != o.pad) return "the padding " + std::to_string(o.pad) + " reads back as " + std::to_string(n);
        if (t != (o.pad == RSA_PKCS1_PADDING ? "pkcs1" : o.pad == RSA_NO_PADDING ? "none" : "oaep")) return "the padding " + std::to_string(o.pad) + " reads back as '" + t + "'";
    }
    if (o.md)
        if (string d = setting(c, OSSL_ASYM_CIPHER_PARAM_OAEP_DIGEST); !same_md(d, o.md)) return string("the OAEP digest ") + o.md + " reads back as '" + d + "'";
    if (o.mgf)
        if (string d = setting(c, OSSL_ASYM_CIPHER_PARAM_MGF1_DIGEST); !same_md(d, o.mgf)) return string("the MGF1 digest ") + o.mgf + " reads back as '" + d + "'";
    if (o.label) {
        // EVP_PKEY_CTX_get0_rsa_oaep_label of OpenSSL 3.0 does not work on a duplicated context
        unsigned char* l = nullptr;
        OSSL_PARAM p[] = {OSSL_PARAM_construct_octet_ptr(OSSL_ASYM_CIPHER_PARAM_OAEP_LABEL, (void**) &l, 0), OSSL_PARAM_construct_end()};
        int r = EVP_PKEY_CTX_get_params(c, p);
        size_t n = p[0].return_size;
        if (r != 1 || !l || n != o.lab.size()) return "the label of " + std::to_string(o.lab.size()) + " bytes cannot be read back";
        if (Bytes(l, l + n) != o.lab) return "the label reads back as " + hex(Bytes(l, l + n));
    }
    return "";
}
struct Crypt {
    int err = 0;    // option refused
    bool ok = false;
    Bytes out;
};
Crypt default_crypt(EVP_PKEY* k, bool enc, const RsaOpt& o, const Bytes& in) {
    Crypt r;
    PkCtx c(EVP_PKEY_CTX_new_from_pkey(nullptr, k, nullptr));
    if ((enc ? EVP_PKEY_encrypt_init(c.p) : EVP_PKEY_decrypt_init(c.p)) != 1) pbt::fail("harness: default init");
    r.err = set_opt(c.p, o);
    if (!r.err) {
        string b = read_back(c.p, o);
        if (!b.empty()) pbt::fail("harness: OpenSSL: %s", b.c_str());
        Bytes x = in;
        x.push_back(0);
        r.out.resize(600);
        size_t n = 600;
        r.ok = (enc ? EVP_PKEY_encrypt(c.p, r.out.data(), &n, x.data(), in.size()) : EVP_PKEY_decrypt(c.p, r.out.data(), &n, x.data(), in.size())) == 1;
        r.out.resize(r.ok ? n : 0);
    }
    ERR_clear_error();
    return r;
}
}  // namespace

PROP(c27_asym, "an RSA encryption or decryption by the provider that OpenSSL's default provider also performs") {
    Room room_before(src.chance(1, 8));
    P();
    Mat m = mat_rsa(src, src.pick({128, 256, 256, 384, 512}));
    PkeySupply k = make_pkey(src, m);
    bool nt = false;
    {
        PkCtx c(EVP_PKEY_CTX_new_from_pkey(P(), k.pkey, nullptr));
        REQUIRE(c.p != nullptr, "EVP_PKEY_CTX_new_from_pkey");
        int messages = src.weighted({5, 3, 1}) + 1;
        for (int i = 0; i < messages; i++) {
            RsaOpt o;
            o.pad = src.pick({0, RSA_PKCS1_PADDING, RSA_PKCS1_OAEP_PADDING, RSA_PKCS1_OAEP_PADDING, RSA_PKCS1_OAEP_PADDING});
            // every option of a context that is used again is given again
            if (i && !o.pad) o.pad = RSA_PKCS1_PADDING;
            o.by_name = src.coin();
            bool odd = src.chance(1, 10);
            if (odd) o.pad = src.pick({RSA_NO_PADDING, RSA_NO_PADDING, 7, 6, 99});
            if (o.pad == RSA_PKCS1_OAEP_PADDING) {
                if (src.chance(2, 3)) o.md = DIGESTS[src.below(4)];
                if (src.coin()) o.mgf = DIGESTS[src.below(4)];
                if (src.coin()) o.label = true, o.lab = src.bytes(src.chance(1, 8) ? 0 : src.range(1, 60));
                if (o.label && o.lab.empty()) o.label = false;   // an empty label is no label
            }
            bool fresh = i > 0 && (src.coin() || o.pad == RSA_PKCS1_OAEP_PADDING);
            if (fresh) {   // options are not carried over
                EVP_PKEY_CTX_free(c.p);
                c.p = EVP_PKEY_CTX_new_from_pkey(P(), k.pkey, nullptr);
            }
            bool enc = src.coin();
            size_t h = o.md ? md_size(o.md) : 20;
            size_t over = o.pad == RSA_PKCS1_OAEP_PADDING ? 2 * h + 2 : o.pad == RSA_NO_PADDING ? 0 : 11;
            size_t max = m.size > over ? m.size - over : 0;
            Bytes pt = src.bytes(o.pad == RSA_NO_PADDING ? m.size : src.chance(1, 8) ? max : src.chance(1, 12) ? max + 1 : src.range(0, max));
            if (o.pad == RSA_NO_PADDING && !pt.empty()) {
                pt[0] = 0;
                if (src.coin()) pt[1] = 2, pt[src.range(10, pt.size() - 1)] = 0;
            }
            trace("%s %s key of %zu %s%s, %zu bytes", enc ? "encrypt" : "decrypt", o.str().c_str(), m.size, k.str().c_str(), fresh ? " new context" : "", pt.size());
            Bytes in = pt;
            bool changed = false;
            if (!enc) {
                Crypt e = default_crypt(m.pkey, true, o, pt);
                if (e.ok) in = e.out;
                else in = src.bytes(m.size);
                if (src.chance(1, 4) && !odd) {
                    changed = true;
                    switch (src.below(4)) {
                        case 0: in[src.below(in.size())] ^= 1 << src.below(8); break;
                        case 1: in.resize(src.below(in.size())); break;
                        case 2: in.push_back(0); break;
                        default: {   // made under other options
                            RsaOpt o2 = o;
                            if (o.pad == RSA_PKCS1_OAEP_PADDING) {
                                int w = src.below(3);
                                if (w == 0) o2.md = DIGESTS[src.below(4)];
                                else if (w == 1) o2.mgf = DIGESTS[src.below(4)];
                                else o2.label = true, o2.lab = src.bytes(src.range(1, 20));
                            } else
                                o2.pad = RSA_PKCS1_OAEP_PADDING;
                            Crypt e2 = default_crypt(m.pkey, true, o2, Bytes(pt.begin(), pt.begin() + std::min<size_t>(pt.size(), 10)));
                            if (e2.ok) in = e2.out;
                        }
                    }
                }
            }
            Crypt want = default_crypt(m.pkey, enc, o, in);
            trace("%s, OpenSSL %s %zu", changed ? "changed input" : "input", want.ok ? "gives" : "refuses", want.out.size());
            int r = enc ? EVP_PKEY_encrypt_init(c.p) : EVP_PKEY_decrypt_init(c.p);
            REQUIRE(r == 1, "init: %d", r);
            int e = set_opt(c.p, o);
            label("%s %s", o.pad == RSA_PKCS1_OAEP_PADDING ? "oaep" : odd ? "odd" : "pkcs1", enc ? "enc" : "dec");
            if (!odd) REQUIRE(e == 0, "option %d refused", e);
            if (e) {
                label("refused padding");
                continue;
            }
            if (want.err) REQUIRE(odd, "harness: OpenSSL refuses option %d", want.err);
            PkCtx dup(src.chance(1, 3) ? EVP_PKEY_CTX_dup(c.p) : nullptr);
            EVP_PKEY_CTX* use = dup.p && src.chance(2, 3) ? dup.p : c.p;
            if (use == dup.p && src.coin()) {
                EVP_PKEY_CTX_free(c.p);   // the duplicate has to do without the original
                c.p = nullptr;
            }
            if (use == dup.p) label("duplicate");
            if (src.chance(1, 3)) {
                string b = read_back(use, o);
                REQUIRE(b.empty(), "%s", b.c_str());
                label("settings read back");
            }
            Buf b(in);
            size_t q = 0;
            r = enc ? EVP_PKEY_encrypt(use, nullptr, &q, b.p, in.size()) : EVP_PKEY_decrypt(use, nullptr, &q, b.p, in.size());
            if (r == 1) {
                if (want.ok) REQUIRE(q >= want.out.size(), "size query reports %zu, the result has %zu bytes", q, want.out.size());
                REQUIRE(q <= 4096, "size query reports %zu", q);
                if (want.ok && !enc && !want.out.empty() && src.chance(1, 4)) {   // OpenSSL itself does not look at the size when it encrypts
                    size_t small = src.below(want.out.size());
                    Buf s(small);
                    size_t n = small;
                    int r2 = enc ? EVP_PKEY_encrypt(use, s.p, &n, b.p, in.size()) : EVP_PKEY_decrypt(use, s.p, &n, b.p, in.size());
                    trace("into %zu bytes: %d", small, r2);
                    REQUIRE(r2 != 1, "%zu bytes were returned in a buffer of %zu", want.out.size(), small);
                    label("short buffer");
                }
                size_t n = q + (src.coin() ? 0 : src.range(1, 20)), cap = n;
                Buf out(n);
                r = enc ? EVP_PKEY_encrypt(use, out.p, &n, b.p, in.size()) : EVP_PKEY_decrypt(use, out.p, &n, b.p, in.size());
                if (r == 1) {
                    REQUIRE(n <= cap, "%zu bytes in a buffer of %zu", n, cap);
                    REQUIRE(want.ok, "OpenSSL refuses %s of %zu bytes, the provider does not%s", enc ? "encryption" : "decryption", in.size(), changed ? " (changed input)" : "");
                    Bytes got(out.p, out.p + n);
                    if (!enc) REQUIRE(got == want.out, "OpenSSL decrypts to %s, the provider to %s", hex(want.out).c_str(), hex(got).c_str());
                    else {
                        Crypt back = default_crypt(m.pkey, false, o, got);
                        REQUIRE(back.ok && back.out == in, "OpenSSL decrypts the provider's ciphertext to %s, not %s", back.ok ? hex(back.out).c_str() : "nothing", hex(in).c_str());
                    }
                    nt = true;
                }
            }
            // SecAPI takes only whole blocks, OpenSSL answers a PKCS #1 block of another length with a made-up message
            if (r != 1) REQUIRE(!want.ok || odd || (!enc && in.size() != m.size), "OpenSSL succeeds, the provider does not");
            label("%s", want.ok ? "accepted" : "refused");
            if (!c.p) c.p = EVP_PKEY_CTX_new_from_pkey(P(), k.pkey, nullptr);
        }
    }
    settle(k);
    room_before.check();
    if (nt) nontrivial();
}

// ---------------------------------------------------------------------------------------------------------------
// Key exchange and key derivation: the result is a key handle, compared through the digest of the key.
namespace {
Bytes sha256(const Bytes& b) { return ref_digest(SA_DIGEST_ALGORITHM_SHA256, b); }
Bytes digest_of_handle(sa_key k) {
    Bytes d(32);
    size_t n = 32;
    sa_status s = sa_key_digest(d.data(), &n, k, SA_DIGEST_ALGORITHM_SHA256);
    REQUIRE(s == SA_STATUS_OK && n == 32, "the derived handle is not a key: %s", sname(s));
    return d;
}
// The handle of a fresh EVP_PKEY of this provider.
sa_key handle_of(EVP_PKEY* k) {
    uint64_t h = INVALID_HANDLE;
    OSSL_PARAM* p = nullptr;
    REQUIRE(EVP_PKEY_todata(k, EVP_PKEY_KEYPAIR, &p) == 1, "the key cannot be exported as parameters");
    const OSSL_PARAM* q = OSSL_PARAM_locate_const(p, OSSL_PARAM_SA_KEY);
    bool ok = q && OSSL_PARAM_get_uint64(q, &h) == 1;
    OSSL_PARAM_free(p);
    REQUIRE(ok, "no handle among the parameters of the key");
    return h;
}
EVP_PKEY* default_keygen_dh(const DhGroup& g, Src& src) {
    Bytes x = src.bytes(32);
    x[0] |= 1;
    return dh_pkey(g.p, g.g, x);
}
// a peer public key in one of the forms in which it can come
EVP_PKEY* peer_form(Src& src, EVP_PKEY* other, const char* name, string* how) {
    switch (src.below(2)) {
        case 0:
            *how = "default provider's";
            if (EVP_PKEY_is_a(other, "DH")) return from_spki(spki(other));   // no DH private key can be brought in
            EVP_PKEY_up_ref(other);
            return other;
        default: {
            *how = "imported";
            OSSL_PARAM* p = nullptr;
            if (EVP_PKEY_todata(other, EVP_PKEY_PUBLIC_KEY, &p) != 1) pbt::fail("harness: todata");
            EVP_PKEY* k = from_params(name, p, EVP_PKEY_PUBLIC_KEY);
            OSSL_PARAM_free(p);
            REQUIRE(k != nullptr, "the provider does not take the peer's public key (%s)", name);
            return k;
        }
    }
}
}  // namespace

PROP(c27_exchange, "a shared secret derived through the provider, or a request that has to fail") {
    Room room_before(src.chance(1, 8));
    P();
    static const sa_elliptic_curve CC[] = {SA_ELLIPTIC_CURVE_NIST_P256, SA_ELLIPTIC_CURVE_NIST_P384, SA_ELLIPTIC_CURVE_NIST_P521, SA_ELLIPTIC_CURVE_NIST_P192,
            SA_ELLIPTIC_CURVE_NIST_P224, SA_ELLIPTIC_CURVE_X25519, SA_ELLIPTIC_CURVE_X448};
    bool dh = src.chance(1, 4);
    Mat m;
    PkeySupply k;
    size_t gi = 0;
    EVP_PKEY* dh_mine = nullptr;   // public part as OpenSSL sees it
    if (!dh) {
        m = mat_ec(src, CC[src.below(7)]);
        k = make_pkey(src, m);
    } else {
        const auto& gs = dh_groups();
        gi = src.below(gs.size());
        sa_rights all = rights_all();
        Exact p(gs[gi].p), g(gs[gi].g);
        sa_generate_parameters_dh gp = {p, p.n, g, g.n};
        m.type = SA_KEY_TYPE_DH;
        k.how = src.range(1, 3);
        sa_status st = sa_key_generate(&k.h, &all, SA_KEY_TYPE_DH, &gp);
        if (st != SA_STATUS_OK) discard();
        Bytes pub(2048);
        size_t pn = pub.size();
        REQUIRE(sa_key_get_public(pub.data(), &pn, k.h) == SA_STATUS_OK, "get_public");
        pub.resize(pn);
        dh_mine = from_spki(pub);
        if (!dh_mine) pbt::fail("harness: dh public");
        uint64_t h = k.h;
        int del = k.how == 3;
        OSSL_PARAM pr[3] = {OSSL_PARAM_construct_uint64(OSSL_PARAM_SA_KEY, &h), k.how == 1 ? OSSL_PARAM_construct_end() : OSSL_PARAM_construct_int(OSSL_PARAM_SA_KEY_DELETE, &del),
                OSSL_PARAM_construct_end()};
        k.pkey = from_params("DH", pr);
        REQUIRE(k.pkey != nullptr, "the provider does not take the DH key");
    }
    trace("%s key as %s", pkey_name(m), k.str().c_str());
    Pk mine_pub(dh_mine);
    {
        PkCtx x(EVP_PKEY_CTX_new_from_pkey(P(), k.pkey, nullptr));
        REQUIRE(x.p != nullptr, "EVP_PKEY_CTX_new_from_pkey");
        int rounds = src.weighted({4, 2, 1}) + 1;
        for (int i = 0; i < rounds; i++) {
            REQUIRE(EVP_PKEY_derive_init(x.p) == 1, "derive_init");
            bool have_peer = !src.chance(1, 8);
            Bytes want;
            if (have_peer) {
                int sets = src.chance(1, 4) ? 2 : 1;
                for (int j = 0; j < sets; j++) {
                    EVP_PKEY* other = dh ? default_keygen_dh(dh_groups()[gi], src) : nullptr;
                    Mat om;
                    if (!dh) {
                        om = mat_ec(src, m.curve);
                        other = om.pkey;
                        EVP_PKEY_up_ref(other);
                    }
                    Pk own(other);
                    string how;
                    Pk pk(peer_form(src, other, pkey_name(m), &how));
                    int r = EVP_PKEY_derive_set_peer(x.p, pk.p);
                    trace("peer %s: %d", how.c_str(), r);
                    REQUIRE(r == 1, "set_peer: %d", r);
                    want = dh ? ref_shared(other, mine_pub.p) : ref_shared(m.pkey, other);
                }
            } else
                label("no peer");
            PkCtx dup(src.chance(1, 4) ? EVP_PKEY_CTX_dup(x.p) : nullptr);
            EVP_PKEY_CTX* use = dup.p && src.coin() ? dup.p : x.p;
            if (src.coin()) {
                size_t q = 0;
                int r = EVP_PKEY_derive(use, nullptr, &q);
                if (r == 1) REQUIRE(q >= sizeof(sa_key), "size query: %zu", q);
            }
            if (src.chance(1, 5)) {
                size_t small = src.below(sizeof(sa_key));
                Buf b(small);
                size_t n = small;
                REQUIRE(EVP_PKEY_derive(use, b.p, &n) != 1, "a handle was returned in %zu bytes", small);
                label("short buffer");
            }
            size_t cap = sizeof(sa_key) + (src.coin() ? 0 : src.range(1, 100)), n = cap;
            Buf b(cap);
            int r = EVP_PKEY_derive(use, b.p, &n);
            trace("derive%s: %d", use == x.p ? "" : " (copy)", r);
            if (!have_peer) {
                REQUIRE(r != 1, "a secret was derived without a peer");
            } else {
                REQUIRE(r == 1 && n == sizeof(sa_key), "derive: %d, %zu bytes", r, n);
                sa_key s;
                memcpy(&s, b.p, sizeof s);
                Bytes d = digest_of_handle(s);
                sa_key_release(s);
                REQUIRE(!want.empty(), "the provider derived a secret where OpenSSL does not");
                REQUIRE(d == sha256(want), "the shared secret differs from OpenSSL's");
                label("%s", dh ? "DH" : pkey_name(m));
            }
            ERR_clear_error();
        }
    }
    settle(k);
    room_before.check();
    nontrivial();
}

namespace {
struct KdfAlg {
    const char *name, *alt;
    sa_kdf_algorithm a;
};
const KdfAlg KDFS[] = {{"HKDF", "HKDF", SA_KDF_ALGORITHM_HKDF}, {"SSKDF", "CONCAT", SA_KDF_ALGORITHM_CONCAT}, {"X963KDF", "ANSI_X963", SA_KDF_ALGORITHM_ANSI_X963},
        {"KBKDF", "CMAC", SA_KDF_ALGORITHM_CMAC}};
struct KdfModel {
    Bytes key, salt, info;
    int digest = -1, sep = 0, l = 0;
};
// What OpenSSL's default provider derives; empty when it refuses.
Bytes default_kdf(const KdfAlg& a, const KdfModel& m, size_t n) {
    EVP_KDF* f = EVP_KDF_fetch(nullptr, a.name, nullptr);
    EVP_KDF_CTX* c = EVP_KDF_CTX_new(f);
    EVP_KDF_free(f);
    Buf k(m.key), s(m.salt), i(m.info);
    std::vector<OSSL_PARAM> p;
    p.push_back(OSSL_PARAM_construct_octet_string(OSSL_KDF_PARAM_KEY, k.p, m.key.size()));
    if (m.digest >= 0) p.push_back(OSSL_PARAM_construct_utf8_string(OSSL_KDF_PARAM_DIGEST, (char*) DIGESTS[m.digest], 0));
    if (a.a == SA_KDF_ALGORITHM_HKDF && !m.salt.empty()) p.push_back(OSSL_PARAM_construct_octet_string(OSSL_KDF_PARAM_SALT, s.p, m.salt.size()));
    if (!m.info.empty()) p.push_back(OSSL_PARAM_construct_octet_string(OSSL_KDF_PARAM_INFO, i.p, m.info.size()));
    p.push_back(OSSL_PARAM_construct_end());
    Bytes out(n);
    int r = n ? EVP_KDF_derive(c, out.data(), n, p.data()) : 0;
    EVP_KDF_CTX_free(c);
    ERR_clear_error();
    if (r != 1) out.clear();
    return out;
}
struct KdfCtx {
    EVP_KDF_CTX* c;
    ~KdfCtx() { EVP_KDF_CTX_free(c); }
};
}  // namespace

PROP(c27_kdf, "a key derived through the provider") {
    Room room_before(src.chance(1, 8));
    P();
    std::vector<KeySupply> keys;
    keys.reserve(12);
    bool nt = false;
    {
        const KdfAlg& a = KDFS[src.below(4)];
        bool cmac = a.a == SA_KDF_ALGORITHM_CMAC, hkdf = a.a == SA_KDF_ALGORITHM_HKDF;
        EVP_KDF* f = EVP_KDF_fetch(P(), src.coin() ? a.name : a.alt, nullptr);
        REQUIRE(f != nullptr, "%s cannot be fetched", a.name);
        KdfCtx ctx{EVP_KDF_CTX_new(f)};
        EVP_KDF_free(f);
        REQUIRE(ctx.c != nullptr, "EVP_KDF_CTX_new");
        KdfModel m;
        bool have_key = false;
        int rounds = src.weighted({3, 3, 2}) + 1;
        for (int i = 0; i < rounds; i++) {
            if (i && src.chance(1, 3)) {
                EVP_KDF_CTX_reset(ctx.c);
                m = KdfModel();
                have_key = false;
                trace("reset");
            }
            // parameters of this round, part set beforehand, part with the derivation
            std::vector<OSSL_PARAM> pre, now;
            std::vector<std::unique_ptr<Buf>> store;
            KdfModel next = m;
            int ones[2] = {0, 0};
            auto put = [&](OSSL_PARAM p, bool first) { (first ? pre : now).push_back(p); };
            if (!have_key ? !src.chance(1, 12) : src.chance(1, 3)) {
                // only octet-string handles and SA_KEY exist: 1 SA_KEY, 2/3 with SA_KEY_DELETE, 4 KEY
                int how = src.range(1, 4);
                Bytes kb = src.bytes(cmac ? (src.coin() ? 16 : 32) : src.range(16, 80));
                bool first = src.coin();
                if (keys.size() < 10) {
                    keys.push_back({how == 4 ? 1 : how, kb});
                    auto& ks = keys.back();
                    if (how == 4) {
                        ks.h = raw_key(kb);
                        store.emplace_back(new Buf(Bytes((uint8_t*) &ks.h, (uint8_t*) &ks.h + sizeof(sa_key))));
                        put(OSSL_PARAM_construct_octet_string(OSSL_KDF_PARAM_KEY, store.back()->p, sizeof(sa_key)), first);
                    } else
                        ks.params(first ? pre : now);
                    next.key = kb;
                    have_key = true;
                    trace("key %zu bytes as %s%s", kb.size(), how == 4 ? "octets" : ks.str().c_str(), first ? " (set before)" : "");
                }
            }
            if (!cmac && (m.digest < 0 ? !src.chance(1, 12) : src.chance(1, 3))) {
                next.digest = src.below(4);
                static const char* ALT[4][3] = {{"SHA1", "SHA-1", "SHA1"}, {"SHA2-256", "SHA-256", "SHA256"}, {"SHA2-384", "SHA-384", "SHA384"}, {"SHA2-512", "SHA-512", "SHA512"}};
                const char* nm = ALT[next.digest][src.below(3)];
                put(OSSL_PARAM_construct_utf8_string(OSSL_KDF_PARAM_DIGEST, (char*) nm, 0), src.coin());
                trace("digest %s", nm);
            }
            if ((hkdf || cmac) && src.chance(2, 3)) {
                Bytes s = src.bytes(m.salt.empty() && src.chance(1, 6) ? 0 : src.range(1, 80));
                store.emplace_back(new Buf(s));
                put(OSSL_PARAM_construct_octet_string(OSSL_KDF_PARAM_SALT, store.back()->p, s.size()), src.coin());
                next.salt = s;
                trace("salt %zu bytes", s.size());
            }
            if (src.chance(2, 3)) {
                Bytes s = src.bytes(m.info.empty() && src.chance(1, 6) ? 0 : src.range(1, 120));
                store.emplace_back(new Buf(s));
                bool first = src.coin();
                put(OSSL_PARAM_construct_octet_string(OSSL_KDF_PARAM_INFO, store.back()->p, s.size()), first);
                next.info = s;
                if (hkdf && !s.empty() && src.chance(1, 6)) {   // several parts are joined
                    Bytes t = src.bytes(src.range(1, 30));
                    store.emplace_back(new Buf(t));
                    put(OSSL_PARAM_construct_octet_string(OSSL_KDF_PARAM_INFO, store.back()->p, t.size()), first);
                    next.info.insert(next.info.end(), t.begin(), t.end());
                    label("info in parts");
                }
                trace("info %zu bytes", next.info.size());
            }
            if (cmac) {
                if (src.coin()) {
                    next.sep = ones[0] = src.coin();
                    put(OSSL_PARAM_construct_int(OSSL_KDF_PARAM_KBKDF_USE_SEPARATOR, &ones[0]), src.coin());
                }
                if (src.coin()) {
                    next.l = ones[1] = src.coin();
                    put(OSSL_PARAM_construct_int(OSSL_KDF_PARAM_KBKDF_USE_L, &ones[1]), src.coin());
                }
                trace("separator %d, length %d", next.sep, next.l);
            }
            pre.push_back(OSSL_PARAM_construct_end());
            now.push_back(OSSL_PARAM_construct_end());
            if (src.chance(1, 8)) {   // refused parameters change nothing
                int what = src.below(3);
                Bytes junk = src.bytes(what == 0 ? src.below(8) : what == 1 ? src.range(9, 64) : 1);
                Buf jb(junk);
                const char* bm = OTHER_DIGESTS[src.below(9)];
                OSSL_PARAM p[2] = {what < 2 ? OSSL_PARAM_construct_octet_string(OSSL_KDF_PARAM_KEY, jb.p, junk.size()) : OSSL_PARAM_construct_utf8_string(OSSL_KDF_PARAM_DIGEST, (char*) bm, 0),
                        OSSL_PARAM_construct_end()};
                if (what < 2 || !cmac) {
                    int r = EVP_KDF_CTX_set_params(ctx.c, p);
                    trace("%s: %d", what < 2 ? (std::to_string(junk.size()) + " bytes as handle").c_str() : bm, r);
                    REQUIRE(r != 1, "%s accepted", what < 2 ? "a handle of a wrong size" : bm);
                    label("refused parameter");
                }
            }
            if (pre.size() > 1 || src.coin()) {
                int r = EVP_KDF_CTX_set_params(ctx.c, pre.size() > 1 ? pre.data() : src.coin() ? nullptr : pre.data());
                REQUIRE(r == 1, "set_params: %d", r);
            }
            m = next;
            size_t n = src.chance(1, 8) ? src.pick({0, 1, 7, 8, 15, 513, 600}) : cmac ? (src.chance(1, 6) ? src.range(16, 64) : 16 * src.range(1, 4)) : src.chance(1, 3) ? src.range(16, 512) : src.range(16, 80);
            if (cmac && src.chance(1, 10)) n = src.range(65, 80);
            KdfCtx dup{now.size() == 1 && src.chance(1, 3) ? EVP_KDF_CTX_dup(ctx.c) : nullptr};
            EVP_KDF_CTX* targets[2] = {ctx.c, dup.c};
            if (dup.c) label("copy");
            if (dup.c && src.chance(1, 3)) {   // the original goes on; the copy must not depend on it
                EVP_KDF_CTX_free(ctx.c);
                ctx.c = dup.c;
                dup.c = nullptr;
                targets[0] = ctx.c;
                targets[1] = nullptr;
            }
            for (auto t : targets) {
                if (!t) continue;
                Buf out(std::max<size_t>(n, sizeof(sa_key)));
                int r = EVP_KDF_derive(t, out.p, n, now.size() > 1 ? now.data() : src.coin() ? nullptr : now.data());
                bool can = have_key && (cmac || m.digest >= 0);
                trace("%s %zu bytes%s: %d", a.name, n, t == ctx.c ? "" : " (copy)", r);
                if (r == 1) {
                    sa_key s;
                    memcpy(&s, out.p, sizeof s);
                    Bytes d = digest_of_handle(s);
                    sa_header h;
                    REQUIRE(sa_key_header(&h, s) == SA_STATUS_OK, "header");
                    sa_key_release(s);
                    REQUIRE(can, "a key was derived without key or digest");
                    REQUIRE(h.size == n, "the derived key has %u bytes, not %zu", (unsigned) h.size, n);
                    Bytes want;
                    if (cmac) {
                        Bytes other = m.salt;
                        if (m.sep) other.push_back(0);
                        other.insert(other.end(), m.info.begin(), m.info.end());
                        if (m.l)
                            for (int q = 3; q >= 0; q--) other.push_back((uint8_t) (n >> (8 * q)));
                        want = ref_cmac_kdf(m.key, other, 1, n);
                    } else
                        want = default_kdf(a, m, n);
                    REQUIRE(!want.empty(), "the provider derived a key where OpenSSL does not");
                    REQUIRE(d == sha256(want), "the derived key differs from OpenSSL's");
                    label("%s", a.name);
                    nt = true;
                } else {
                    bool valid = can && n >= 16 && n <= (cmac ? 64 : 512) && (!cmac || n % 16 == 0);
                    REQUIRE(!valid, "the derivation was refused");
                    label("refused");
                }
            }
        }
    }
    settle(keys);
    room_before.check();
    if (nt) nontrivial();
}

PROP(c27_digest, "a digest computed by the provider in several parts or after a copy") {
    P();
    bool nt = false;
    MdCtx c(EVP_MD_CTX_new());
    int messages = src.weighted({3, 3, 2}) + 1;
    const char* md = nullptr;
    for (int i = 0; i < messages; i++) {
        bool fresh = !md || src.coin();
        if (fresh) md = DIGESTS[src.below(4)];
        EVP_MD* f = EVP_MD_fetch(P(), md, nullptr);
        REQUIRE(f != nullptr, "%s cannot be fetched", md);
        REQUIRE((size_t) EVP_MD_get_size(f) == md_size(md), "%s: size %d", md, EVP_MD_get_size(f));
        REQUIRE(EVP_MD_get_block_size(f) == (md_size(md) > 32 ? 128 : 64), "%s: blocks of %d bytes", md, EVP_MD_get_block_size(f));
        int r = EVP_DigestInit_ex2(c.p, fresh || src.coin() ? f : nullptr, nullptr);
        EVP_MD_free(f);
        REQUIRE(r == 1, "init: %d", r);
        Bytes data = src.bytes(src.chance(1, 10) ? 0 : src.chance(1, 80) ? src.large() : src.chance(1, 6) ? src.range(200, 3000) : src.range(1, 200));
        auto chunks = gen_chunks(src, data.size());
        trace("%s of %zu bytes in %s", md, data.size(), chunks_str(chunks).c_str());
        int at_copy = src.chance(1, 3) ? (int) src.below(chunks.size() + 1) : -1;
        bool use_copy = src.coin();
        MdCtx copy(EVP_MD_CTX_new());
        EVP_MD_CTX* use = c.p;
        Bytes other;   // what the context not followed sees
        size_t at = 0;
        auto fork = [&] {
            REQUIRE(EVP_MD_CTX_copy_ex(copy.p, c.p) == 1, "copy");
            EVP_MD_CTX* aside = use_copy ? c.p : copy.p;
            use = use_copy ? copy.p : c.p;
            other.assign(data.begin(), data.begin() + at);
            Bytes extra = src.bytes(src.below(40));
            Buf b(extra);
            REQUIRE(EVP_DigestUpdate(aside, b.p, extra.size()) == 1, "update");
            other.insert(other.end(), extra.begin(), extra.end());
            label("copy");
        };
        for (size_t j = 0; j < chunks.size(); j++) {
            if (at_copy == (int) j) fork();
            Buf part(Bytes(data.begin() + at, data.begin() + at + chunks[j]));
            REQUIRE(EVP_DigestUpdate(use, part.p, chunks[j]) == 1, "update");
            at += chunks[j];
        }
        if (at_copy == (int) chunks.size()) fork();
        auto finish = [&](EVP_MD_CTX* x, const Bytes& d) {
            Buf o(md_size(md));
            unsigned n = 0;
            REQUIRE(EVP_DigestFinal_ex(x, o.p, &n) == 1, "final");
            Bytes got(o.p, o.p + std::min<size_t>(n, md_size(md)));
            REQUIRE(n == md_size(md) && got == digest_of(md, d), "%s gives %s, OpenSSL %s", md, hex(got).c_str(), hex(digest_of(md, d)).c_str());
        };
        finish(use, data);
        if (at_copy >= 0) finish(use_copy ? c.p : copy.p, other);
        label("%s", md);
        if (chunks.size() > 1 || at_copy >= 0) nt = true;
        if (use == copy.p && src.coin()) {   // go on with the copy
            std::swap(c.p, copy.p);
        }
    }
    if (nt) nontrivial();
}

// ---------------------------------------------------------------------------------------------------------------
namespace {
// Does the private part answer for this public key?  Sign or derive with it and let OpenSSL judge.
void works(Src& src, EVP_PKEY* k, EVP_PKEY* pub, const char* name, const char* what) {
    if (!strcmp(name, "DH") || name[0] == 'X') {
        EVP_PKEY* other = nullptr;
        PkCtx g(EVP_PKEY_CTX_new_from_pkey(nullptr, pub, nullptr));
        if (EVP_PKEY_keygen_init(g.p) != 1 || EVP_PKEY_keygen(g.p, &other) != 1) pbt::fail("harness: peer keygen");
        Pk own(other);
        Pk peer(!strcmp(name, "DH") ? from_spki(spki(other)) : (EVP_PKEY_up_ref(other), other));
        PkCtx x(EVP_PKEY_CTX_new_from_pkey(P(), k, nullptr));
        sa_key s = INVALID_HANDLE;
        size_t n = sizeof s;
        REQUIRE(x.p && EVP_PKEY_derive_init(x.p) == 1 && EVP_PKEY_derive_set_peer(x.p, peer.p) == 1 && EVP_PKEY_derive(x.p, (uint8_t*) &s, &n) == 1, "%s: no shared secret", what);
        Bytes d = digest_of_handle(s), want = ref_shared(other, pub);
        sa_key_release(s);
        REQUIRE(d == sha256(want), "%s: the shared secret does not belong to its public key", what);
        return;
    }
    bool ed = name[0] == 'E' && name[1] == 'D';
    Bytes msg = src.bytes(src.range(1, 40)), sig(1024);
    MdCtx c(EVP_MD_CTX_new());
    size_t n = sig.size();
    REQUIRE(EVP_DigestSignInit_ex(c.p, nullptr, ed ? nullptr : "SHA2-256", P(), nullptr, k, nullptr) == 1 && EVP_DigestSign(c.p, sig.data(), &n, msg.data(), msg.size()) == 1,
            "%s: does not sign", what);
    sig.resize(n);
    REQUIRE(default_verify(pub, ed, "SHA2-256", SigOpt(), msg, sig), "%s: its signature does not belong to its public key", what);
}
EVP_PKEY* default_public(EVP_PKEY* k, const char* name, const char* what) {
    OSSL_PARAM* p = nullptr;
    REQUIRE(EVP_PKEY_todata(k, EVP_PKEY_PUBLIC_KEY, &p) == 1, "%s: the public key cannot be exported", what);
    EVP_PKEY_CTX* c = EVP_PKEY_CTX_new_from_name(nullptr, name, nullptr);
    EVP_PKEY* r = nullptr;
    int ok = EVP_PKEY_fromdata_init(c) == 1 && EVP_PKEY_fromdata(c, &r, EVP_PKEY_PUBLIC_KEY, p) == 1;
    EVP_PKEY_CTX_free(c);
    OSSL_PARAM_free(p);
    REQUIRE(ok && r, "%s: OpenSSL does not take the exported public key", what);
    return r;
}
// compares what the key management says about a key with what OpenSSL says about the same public key
void same_public(EVP_PKEY* k, EVP_PKEY* pub, const char* name, const char* what) {
    Pk d(default_public(k, name, what));
    REQUIRE(EVP_PKEY_eq(d.p, pub) == 1, "%s: the exported public key is another one", what);
    REQUIRE(EVP_PKEY_get_bits(k) == EVP_PKEY_get_bits(pub), "%s: %d bits, OpenSSL says %d", what, EVP_PKEY_get_bits(k), EVP_PKEY_get_bits(pub));
    REQUIRE(EVP_PKEY_get_size(k) == EVP_PKEY_get_size(pub), "%s: size %d, OpenSSL says %d", what, EVP_PKEY_get_size(k), EVP_PKEY_get_size(pub));
    REQUIRE(EVP_PKEY_get_security_bits(k) == EVP_PKEY_get_security_bits(pub), "%s: security bits", what);
}
Mat any_mat(Src& src) {
    switch (src.below(4)) {
        case 0: return mat_rsa(src, src.pick({128, 128, 256}));
        case 1: return mat_ec(src, src.pick({SA_ELLIPTIC_CURVE_ED25519, SA_ELLIPTIC_CURVE_ED448, SA_ELLIPTIC_CURVE_X25519, SA_ELLIPTIC_CURVE_X448}));
        default: return mat_ec(src, src.pick({SA_ELLIPTIC_CURVE_NIST_P256, SA_ELLIPTIC_CURVE_NIST_P384, SA_ELLIPTIC_CURVE_NIST_P521, SA_ELLIPTIC_CURVE_NIST_P192, SA_ELLIPTIC_CURVE_NIST_P224}));
    }
}
}  // namespace

PROP(c27_keys, "two keys compared, or a key whose duplicate was used after the original was freed") {
    Room room_before(src.chance(1, 8));
    P();
    Mat a = any_mat(src), b;
    bool same = src.coin();
    if (!same) b = a.type == SA_KEY_TYPE_RSA ? mat_rsa(src, src.chance(1, 3) ? 256 : a.size) : mat_ec(src, is_pcurve(a.curve) && src.chance(1, 4) ? SA_ELLIPTIC_CURVE_NIST_P256 : a.curve);
    const Mat& bm = same ? a : b;
    const char* name = pkey_name(a);
    bool equal = EVP_PKEY_eq(a.pkey, bm.pkey) == 1;
    PkeySupply ka = make_pkey(src, a), kb = make_pkey(src, bm);
    same_public(ka.pkey, a.pkey, name, "first key");
    works(src, ka.pkey, a.pkey, name, "first key");
    {
        // public keys, and OpenSSL's own key objects, on either side
        Pk pub(nullptr);
        EVP_PKEY *x = ka.pkey, *y = kb.pkey;
        int form = src.below(4);
        if (form == 1 || form == 2) {
            const Mat& m = form == 1 ? bm : a;
            OSSL_PARAM* p = nullptr;
            if (EVP_PKEY_todata(m.pkey, EVP_PKEY_PUBLIC_KEY, &p) != 1) pbt::fail("harness: todata");
            pub.p = from_params(name, p, EVP_PKEY_PUBLIC_KEY);
            OSSL_PARAM_free(p);
            REQUIRE(pub.p != nullptr, "the provider does not take the public key of %s", m.show().c_str());
            same_public(pub.p, m.pkey, name, "public key");
            REQUIRE(EVP_PKEY_missing_parameters(pub.p) == EVP_PKEY_missing_parameters(m.pkey), "parameters missing: %d", EVP_PKEY_missing_parameters(pub.p));
            (form == 1 ? y : x) = pub.p;
        } else if (form == 3)
            y = bm.pkey;
        int r = EVP_PKEY_eq(x, y), r2 = EVP_PKEY_eq(y, x);
        trace("%s and %s: %s (form %d): %d, %d", a.show().c_str(), bm.show().c_str(), equal ? "equal" : "different", form, r, r2);
        ERR_clear_error();
        REQUIRE((r == 1) == equal, "EVP_PKEY_eq of %s keys: %d", equal ? "equal" : "different", r);
        REQUIRE((r2 == 1) == equal, "EVP_PKEY_eq the other way of %s keys: %d", equal ? "equal" : "different", r2);
        if (form == 0) {
            int e = EVP_PKEY_parameters_eq(x, y);
            bool pe = a.type == SA_KEY_TYPE_RSA || a.curve == bm.curve;
            if (pe) REQUIRE(e == 1 || a.type == SA_KEY_TYPE_RSA || !is_pcurve(a.curve), "equal parameters reported as different: %d", e);
            else REQUIRE(e != 1, "different parameters reported as equal");
        }
        label("%s %s", name, equal ? "equal" : "different");
        nontrivial();
    }
    if (src.coin()) {
        Pk d(EVP_PKEY_dup(ka.pkey));
        REQUIRE(d.p != nullptr, "EVP_PKEY_dup");
        EVP_PKEY_free(ka.pkey);
        ka.pkey = d.p;
        d.p = nullptr;
        works(src, ka.pkey, a.pkey, name, "duplicate");
        label("duplicate");
    }
    if (src.chance(1, 4)) {   // no key
        uint64_t h = src.coin() ? INVALID_HANDLE : src.range(250, 100000);
        OSSL_PARAM p[2] = {OSSL_PARAM_construct_uint64(OSSL_PARAM_SA_KEY, &h), OSSL_PARAM_construct_end()};
        Pk k(from_params(name, p));
        if (h != INVALID_HANDLE) REQUIRE(k.p == nullptr, "a key was made from a handle that does not exist");
        label("no such handle");
    }
    settle(ka);
    settle(kb);
    room_before.check();
}

PROP(c27_keygen, "a generated key that was used, or a request that was refused") {
    Room room_before(src.chance(1, 4));
    P();
    {
        Pk k(nullptr), pub(nullptr);
        const char* name = nullptr;
        int kind = src.weighted({2, 4, 3, 3});
        if (kind == 0) {
            name = "RSA";
            static const int BITS[] = {1024, 2048, 1025, 1031, 2047, 1000, 512, 4104, 8192, 0, 7};
            size_t bits = BITS[src.weighted({8, 2, 1, 1, 1, 1, 1, 1, 1, 1, 1})];
            PkCtx g(EVP_PKEY_CTX_new_from_name(P(), name, nullptr));
            REQUIRE(g.p && EVP_PKEY_keygen_init(g.p) == 1, "keygen init");
            OSSL_PARAM p[2] = {OSSL_PARAM_construct_size_t(OSSL_PKEY_PARAM_RSA_BITS, &bits), OSSL_PARAM_construct_end()};
            int r = EVP_PKEY_CTX_set_params(g.p, p);
            if (r == 1) r = EVP_PKEY_generate(g.p, &k.p);
            trace("RSA %zu bits: %d", bits, r);
            bool supported = bits == 1024 || bits == 2048;
            if (supported) REQUIRE(r == 1, "RSA key of %zu bits refused", bits);
            if (r == 1) REQUIRE(EVP_PKEY_get_bits(k.p) == (int) bits, "asked for %zu bits, got a key of %d", bits, EVP_PKEY_get_bits(k.p));
            label("RSA %s", r == 1 ? "made" : "refused");
        } else if (kind == 1) {
            name = "EC";
            static const struct {
                const char *in, *out;
            } G[] = {{"P-256", "prime256v1"}, {"P-384", "secp384r1"}, {"P-521", "secp521r1"}, {"P-192", "prime192v1"}, {"P-224", "secp224r1"}, {"prime256v1", "prime256v1"},
                    {"prime192v1", "prime192v1"}, {"secp224r1", "secp224r1"}, {"secp384r1", "secp384r1"}, {"secp521r1", "secp521r1"}, {"secp256k1", nullptr}, {"brainpoolP256r1", nullptr},
                    {"X25519", nullptr}, {"P-25", nullptr}, {"", nullptr}};
            auto& g = G[src.below(15)];
            PkCtx c(EVP_PKEY_CTX_new_from_name(P(), name, nullptr));
            REQUIRE(c.p && EVP_PKEY_keygen_init(c.p) == 1, "keygen init");
            OSSL_PARAM p[2] = {OSSL_PARAM_construct_utf8_string(OSSL_PKEY_PARAM_GROUP_NAME, (char*) g.in, 0), OSSL_PARAM_construct_end()};
            int r = EVP_PKEY_CTX_set_params(c.p, p);
            if (r == 1) r = EVP_PKEY_generate(c.p, &k.p);
            trace("EC %s: %d", g.in, r);
            if (g.out) REQUIRE(r == 1, "EC key on %s refused", g.in);
            else if (r == 1) {
                Pk d(default_public(k.p, name, "generated key"));   // an EC key on some other curve is a wrong answer
                char have[64] = "";
                size_t hn = 0;
                EVP_PKEY_get_group_name(d.p, have, sizeof have, &hn);
                REQUIRE(!strcmp(have, g.in), "asked for %s, got %s", g.in, have);
            }
            if (r == 1 && g.out) {
                Pk d(default_public(k.p, name, "generated key"));
                char have[64] = "";
                size_t hn = 0;
                REQUIRE(EVP_PKEY_get_group_name(d.p, have, sizeof have, &hn) == 1, "group name");
                REQUIRE(!strcmp(have, g.out), "asked for %s, got %s", g.in, have);
            }
            label("EC %s", r == 1 ? "made" : "refused");
        } else if (kind == 2) {
            static const char* N[] = {"X25519", "X448", "ED25519", "ED448"};
            name = N[src.below(4)];
            PkCtx c(EVP_PKEY_CTX_new_from_name(P(), name, nullptr));
            REQUIRE(c.p && EVP_PKEY_keygen_init(c.p) == 1, "keygen init");
            int r = 1;
            bool other = false;
            if (src.chance(1, 3)) {   // only its own name is a group name
                const char* gn = src.chance(1, 3) ? name : src.pick({"X25519", "X448", "ED25519", "ED448", "P-256", "secp521r1"});
                other = strcmp(gn, name) != 0;
                OSSL_PARAM p[2] = {OSSL_PARAM_construct_utf8_string(OSSL_PKEY_PARAM_GROUP_NAME, (char*) gn, 0), OSSL_PARAM_construct_end()};
                r = EVP_PKEY_CTX_set_params(c.p, p);
                trace("%s with group %s: %d", name, gn, r);
                REQUIRE(r != 1 || !other, "the group %s was accepted for an %s key", gn, name);
            }
            if (!other) {
                r = EVP_PKEY_generate(c.p, &k.p);
                trace("%s: %d", name, r);
                REQUIRE(r == 1, "%s key refused", name);
            }
            label("%s", name);
        } else {
            name = "DH";
            const auto& gs = dh_groups();
            const DhGroup& g = gs[src.below(gs.size())];
            bool templ = !src.chance(1, 6), big = src.chance(1, 6);
            Bytes pb = g.p;
            if (big) {   // larger than any key SecAPI can hold
                pb.resize(src.range(513, 1100));
                src.fill(pb.data(), pb.size());
                pb[0] |= 0x80;
                pb.back() |= 1;
            }
            PkCtx c(nullptr);
            if (templ) {
                BIGNUM *bp = BN_bin2bn(pb.data(), pb.size(), nullptr), *bg = BN_bin2bn(g.g.data(), g.g.size(), nullptr);
                OSSL_PARAM_BLD* bld = OSSL_PARAM_BLD_new();
                OSSL_PARAM_BLD_push_BN(bld, OSSL_PKEY_PARAM_FFC_P, bp);
                OSSL_PARAM_BLD_push_BN(bld, OSSL_PKEY_PARAM_FFC_G, bg);
                OSSL_PARAM* p = OSSL_PARAM_BLD_to_param(bld);
                Pk t(from_params(name, p, EVP_PKEY_KEY_PARAMETERS));
                OSSL_PARAM_free(p);
                OSSL_PARAM_BLD_free(bld);
                BN_free(bp);
                BN_free(bg);
                trace("DH parameters of %zu bytes %s", pb.size(), t.p ? "taken" : "refused");
                if (!t.p) {
                    REQUIRE(big, "DH parameters refused");
                    label("DH parameters refused");
                    nontrivial();
                    return;
                }
                c.p = EVP_PKEY_CTX_new_from_pkey(P(), t.p, nullptr);
            } else
                c.p = EVP_PKEY_CTX_new_from_name(P(), name, nullptr);
            REQUIRE(c.p && EVP_PKEY_keygen_init(c.p) == 1, "keygen init");
            if (src.chance(1, 6)) {
                const char* gn = src.pick({"P-256", "secp521r1", "X25519", "ED448"});
                OSSL_PARAM p[2] = {OSSL_PARAM_construct_utf8_string(OSSL_PKEY_PARAM_GROUP_NAME, (char*) gn, 0), OSSL_PARAM_construct_end()};
                REQUIRE(EVP_PKEY_CTX_set_params(c.p, p) != 1, "the group %s was accepted for a DH key", gn);
            }
            int r = EVP_PKEY_generate(c.p, &k.p);
            trace("DH %s: %d", templ ? "of given parameters" : "of the default group", r);
            if (!(templ && big)) REQUIRE(r == 1, "DH key refused");
            if (r == 1) {
                BIGNUM* p = nullptr;
                Pk d(default_public(k.p, name, "generated key"));
                REQUIRE(EVP_PKEY_get_bn_param(d.p, OSSL_PKEY_PARAM_FFC_P, &p) == 1, "p");
                Bytes got(BN_num_bytes(p));
                BN_bn2bin(p, got.data());
                BN_free(p);
                if (templ) {
                    Bytes want = pb;
                    while (!want.empty() && !want[0]) want.erase(want.begin());
                    Bytes reversed(pb.rbegin(), pb.rend());
                    while (!reversed.empty() && !reversed[0]) reversed.erase(reversed.begin());
                    if (got != want && got == reversed && known_finding("C27-dh-parameters-reversed")) count_excluded("C27-dh-parameters-reversed");
                    else REQUIRE(got == want, "the key has the modulus %s, not %s", hex(got).c_str(), hex(want).c_str());
                }
            }
            label("DH %s", r == 1 ? "made" : "refused");
        }
        if (k.p) {
            sa_key h = handle_of(k.p);
            REQUIRE(alive(h), "the generated key has no key behind it");
            pub.p = default_public(k.p, name, "generated key");
            same_public(k.p, pub.p, name, "generated key");
            works(src, k.p, pub.p, name, "generated key");
            EVP_PKEY_free(k.p);
            k.p = nullptr;
            REQUIRE(!alive(h), "the generated key is still there after its EVP_PKEY was freed");
        }
        ERR_clear_error();
    }
    room_before.check();
    nontrivial();
}
