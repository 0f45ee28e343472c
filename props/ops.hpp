// Rights generators and a fingerprint of what a key does: every deterministic operation with its status and result.
#pragma once
#include "sec.hpp"
#include <cstring>
#include <openssl/core_names.h>
#include <openssl/param_build.h>
#include <openssl/rsa.h>
namespace sec {
inline Src fixed_src(uint64_t seed) {
    Src s;
    s.s[0] = seed * 0x9e3779b97f4a7c15ULL + 1;
    s.s[1] = seed ^ 0x1234567;
    return s;
}
inline const Mat& peer(sa_elliptic_curve c) {
    static std::map<int, Mat> m;
    auto it = m.find(c);
    if (it == m.end()) {
        Src s = fixed_src(77 + c);
        it = m.emplace((int) c, mat_ec(s, c)).first;
    }
    return it->second;
}
inline EVP_PKEY* dh_pkey(const Bytes& p, const Bytes& g, const Bytes& priv, const Bytes* pubv = nullptr) {
    BIGNUM *bp = BN_bin2bn(p.data(), p.size(), nullptr), *bg = BN_bin2bn(g.data(), g.size(), nullptr);
    BIGNUM* bx = BN_bin2bn(priv.data(), priv.size(), nullptr);
    BIGNUM* by = BN_new();
    BN_CTX* x = BN_CTX_new();
    if (pubv) BN_bin2bn(pubv->data(), pubv->size(), by);
    else BN_mod_exp(by, bg, bx, bp, x);
    OSSL_PARAM_BLD* b = OSSL_PARAM_BLD_new();
    OSSL_PARAM_BLD_push_BN(b, OSSL_PKEY_PARAM_FFC_P, bp);
    OSSL_PARAM_BLD_push_BN(b, OSSL_PKEY_PARAM_FFC_G, bg);
    if (!priv.empty()) OSSL_PARAM_BLD_push_BN(b, OSSL_PKEY_PARAM_PRIV_KEY, bx);
    OSSL_PARAM_BLD_push_BN(b, OSSL_PKEY_PARAM_PUB_KEY, by);
    OSSL_PARAM* ps = OSSL_PARAM_BLD_to_param(b);
    EVP_PKEY_CTX* k = EVP_PKEY_CTX_new_from_name(nullptr, "DH", nullptr);
    EVP_PKEY* r = nullptr;
    if (EVP_PKEY_fromdata_init(k) != 1 || EVP_PKEY_fromdata(k, &r, EVP_PKEY_KEYPAIR, ps) != 1) r = nullptr;
    EVP_PKEY_CTX_free(k);
    OSSL_PARAM_free(ps);
    OSSL_PARAM_BLD_free(b);
    BN_free(bp);
    BN_free(bg);
    BN_free(bx);
    BN_free(by);
    BN_CTX_free(x);
    return r;
}
inline Bytes spki(EVP_PKEY* p) {
    unsigned char* o = nullptr;
    int n = i2d_PUBKEY(p, &o);
    Bytes b(o, o + (n > 0 ? n : 0));
    OPENSSL_free(o);
    return b;
}
// Standard shared secret; empty when OpenSSL refuses.
inline Bytes ref_shared(EVP_PKEY* mine, EVP_PKEY* other, bool pad = true) {
    EVP_PKEY_CTX* c = EVP_PKEY_CTX_new(mine, nullptr);
    Bytes r;
    if (c && EVP_PKEY_derive_init(c) == 1) {
        if (pad && EVP_PKEY_is_a(mine, "DH")) {
            unsigned v = 1;
            OSSL_PARAM ps[] = {OSSL_PARAM_construct_uint(OSSL_EXCHANGE_PARAM_PAD, &v), OSSL_PARAM_construct_end()};
            EVP_PKEY_CTX_set_params(c, ps);
        }
        size_t n = 0;
        if (EVP_PKEY_derive_set_peer(c, other) == 1 && EVP_PKEY_derive(c, nullptr, &n) == 1) {
            r.resize(n);
            if (EVP_PKEY_derive(c, r.data(), &n) != 1) r.clear();
            else r.resize(n);
        }
    }
    EVP_PKEY_CTX_free(c);
    return r;
}
inline bool is_x(sa_elliptic_curve c) { return c == SA_ELLIPTIC_CURVE_X25519 || c == SA_ELLIPTIC_CURVE_X448; }
inline bool is_ed(sa_elliptic_curve c) { return c == SA_ELLIPTIC_CURVE_ED25519 || c == SA_ELLIPTIC_CURVE_ED448; }

// Rights: any combination; the identifier is always terminated (required of every rights structure).
inline sa_rights gen_rights(Src& src, uint64_t force = 0) {
    sa_rights r;
    memset(&r, 0, sizeof r);
    size_t idn = src.below(64);
    for (size_t i = 0; i < idn; i++) r.id[i] = (char) src.range(1, 255);
    switch (src.weighted({3, 3, 1})) {
        case 0: r.usage_flags = 0x3fff; break;
        case 1: r.usage_flags = src.any() & 0x3fff; break;
        default: r.usage_flags = src.any(); break;
    }
    r.usage_flags |= force;
    if (src.chance(1, 3)) r.child_usage_flags = src.any() & 0x3fff;
    switch (src.weighted({4, 2, 2})) {
        case 0: r.not_before = 0, r.not_on_or_after = UINT64_MAX; break;
        case 1: r.not_before = g_now - src.below(1000), r.not_on_or_after = g_now + 1 + src.below(1000); break;
        default: r.not_before = src.any(), r.not_on_or_after = src.any(); break;
    }
    switch (src.weighted({4, 2, 2})) {
        case 0: r.allowed_tas[src.below(32)] = ALL_MATCH; break;
        case 1: r.allowed_tas[src.below(32)] = src.coin() ? REE : TA_A; break;
        default:
            for (int i = 0; i < 32; i++)
                if (src.chance(1, 4)) src.fill(&r.allowed_tas[i], 16);
    }
    return r;
}
inline void put(std::string& o, const char* what, sa_status s, const Bytes& b = Bytes()) {
    o += what;
    o += '=';
    o += sname(s);
    if (s == SA_STATUS_OK && !b.empty()) o += ":" + pbt::hex(b, 1 << 20);
    o += '\n';
}
// Digest and header of a child key, then released.
inline void put_child(std::string& o, const char* what, const Caller& c, sa_status s, sa_key k) {
    put(o, what, s);
    if (s != SA_STATUS_OK) return;
    Bytes d(32);
    size_t n = 32;
    sa_status ds = c.key_digest(d.data(), &n, k, SA_DIGEST_ALGORITHM_SHA256);
    put(o, " child digest", ds, d);
    sa_header h;
    sa_status hs = c.key_header(&h, k);
    put(o, " child header", hs, Bytes((uint8_t*) &h.rights, (uint8_t*) (&h.rights + 1)));
    o += " size " + std::to_string(h.size) + " type " + std::to_string(h.type) + "\n";
    c.key_release(k);
}
inline std::string header_str(const sa_header& h) {
    std::string o = "type " + std::to_string(h.type) + " size " + std::to_string(h.size) + " magic " + pbt::hex(h.magic, 4) + "\n";
    if (h.type == SA_KEY_TYPE_EC) o += "curve " + std::to_string(h.type_parameters.curve) + "\n";
    if (h.type == SA_KEY_TYPE_DH) {
        auto& d = h.type_parameters.dh_parameters;
        o += "p " + pbt::hex(d.p, std::min<size_t>(d.p_length, 512), 600) + " g " + pbt::hex(d.g, std::min<size_t>(d.g_length, 512), 600) + "\n";
    }
    o += "rights " + pbt::hex(&h.rights, sizeof h.rights, 2000) + "\n";
    return o;
}
// What the key is and does. Two keys with the same material, type and rights have equal fingerprints.
inline std::string fingerprint(const Caller& c, sa_key k, bool deep = true) {
    std::string o;
    sa_header h;
    memset(&h, 0, sizeof h);
    sa_status s = c.key_header(&h, k);
    put(o, "header", s);
    if (s != SA_STATUS_OK) return o;
    o += header_str(h);
    for (auto d : ALL_DIGESTS) {
        Bytes b(64);
        size_t n = 64;
        s = c.key_digest(b.data(), &n, k, d);
        b.resize(std::min<size_t>(n, 64));
        put(o, "digest", s, b);
    }
    Bytes pub(2048);
    size_t pn = pub.size();
    s = c.key_get_public(pub.data(), &pn, k);
    pub.resize(std::min<size_t>(pn, 2048));
    put(o, "public", s, pub);
    if (!deep) return o;
    sa_rights all = rights_all();
    uint8_t msg[48];
    for (int i = 0; i < 48; i++) msg[i] = (uint8_t) (i * 7);
    if (h.type == SA_KEY_TYPE_SYMMETRIC) {
        for (auto mode : {SA_CIPHER_MODE_ENCRYPT, SA_CIPHER_MODE_DECRYPT}) {
            sa_crypto_cipher_context x = INVALID_HANDLE;
            s = c.cipher_init(&x, SA_CIPHER_ALGORITHM_AES_ECB, mode, k, nullptr);
            put(o, "ecb init", s);
            if (s == SA_STATUS_OK) {
                uint8_t out[32];
                size_t n = 32;
                sa_buffer ob = clear_buf(out, 32), ib = clear_buf(msg, 32);
                s = c.cipher_process(&ob, x, &ib, &n);
                put(o, "ecb", s, Bytes(out, out + 32));
                c.cipher_release(x);
            }
        }
        {
            sa_crypto_cipher_context x = INVALID_HANDLE;
            uint8_t ctr[4] = {1}, nonce[12] = {2};
            sa_cipher_parameters_chacha20 p = {ctr, 4, nonce, 12};
            s = c.cipher_init(&x, SA_CIPHER_ALGORITHM_CHACHA20, SA_CIPHER_MODE_ENCRYPT, k, &p);
            put(o, "chacha init", s);
            if (s == SA_STATUS_OK) {
                uint8_t out[40];
                size_t n = 40;
                sa_buffer ob = clear_buf(out, 40), ib = clear_buf(msg, 40);
                s = c.cipher_process(&ob, x, &ib, &n);
                put(o, "chacha", s, Bytes(out, out + 40));
                c.cipher_release(x);
            }
        }
        for (int i = 0; i < 2; i++) {
            sa_crypto_mac_context m = INVALID_HANDLE;
            sa_mac_parameters_hmac hp = {SA_DIGEST_ALGORITHM_SHA256};
            s = c.mac_init(&m, i ? SA_MAC_ALGORITHM_HMAC : SA_MAC_ALGORITHM_CMAC, k, i ? &hp : nullptr);
            put(o, i ? "hmac init" : "cmac init", s);
            if (s == SA_STATUS_OK) {
                uint8_t out[32];
                size_t n = 32;
                c.mac_process(m, msg, 33);
                s = c.mac_compute(out, &n, m);
                put(o, "mac", s, Bytes(out, out + std::min<size_t>(n, 32)));
                c.mac_release(m);
            }
        }
        sa_key ch = INVALID_HANDLE;
        sa_kdf_parameters_hkdf kp = {32, SA_DIGEST_ALGORITHM_SHA256, k, msg, 10, msg, 5};
        s = c.key_derive(&ch, &all, SA_KDF_ALGORITHM_HKDF, &kp);
        put_child(o, "hkdf", c, s, ch);
        s = c.key_unwrap(&ch, &all, SA_KEY_TYPE_SYMMETRIC, nullptr, SA_CIPHER_ALGORITHM_AES_ECB, nullptr, k, msg, 32);
        put_child(o, "unwrap", c, s, ch);
    } else if (h.type == SA_KEY_TYPE_RSA) {
        Bytes sig(512);
        size_t n = 512;
        sa_sign_parameters_rsa_pkcs1v15 sp = {SA_DIGEST_ALGORITHM_SHA256, false};
        s = c.sign(sig.data(), &n, SA_SIGNATURE_ALGORITHM_RSA_PKCS1V15, k, msg, 33, &sp);
        sig.resize(std::min<size_t>(n, 512));
        put(o, "pkcs1 sign", s, sig);
        // a fixed well-formed PKCS#1 v1.5 block, encrypted by raw exponentiation with the reported public key
        EVP_PKEY* p = from_spki(pub);
        if (p) {
            Bytes em(h.size, 0x41);
            em[0] = 0;
            em[1] = 2;
            em[h.size - 17] = 0;
            EVP_PKEY_CTX* x = EVP_PKEY_CTX_new(p, nullptr);
            Bytes ct(h.size);
            size_t cn = ct.size();
            if (x && EVP_PKEY_encrypt_init(x) == 1 && EVP_PKEY_CTX_set_rsa_padding(x, RSA_NO_PADDING) == 1 &&
                    EVP_PKEY_encrypt(x, ct.data(), &cn, em.data(), em.size()) == 1) {
                sa_crypto_cipher_context cc = INVALID_HANDLE;
                s = c.cipher_init(&cc, SA_CIPHER_ALGORITHM_RSA_PKCS1V15, SA_CIPHER_MODE_DECRYPT, k, nullptr);
                put(o, "rsa init", s);
                if (s == SA_STATUS_OK) {
                    Bytes out(512);
                    size_t bn = ct.size();
                    sa_buffer ob = clear_buf(out.data(), 512), ib = clear_buf(ct.data(), ct.size());
                    s = c.cipher_process(&ob, cc, &ib, &bn);
                    out.resize(std::min<size_t>(bn, 512));
                    put(o, "rsa decrypt", s, out);
                    c.cipher_release(cc);
                }
                sa_key ch = INVALID_HANDLE;
                s = c.key_unwrap(&ch, &all, SA_KEY_TYPE_SYMMETRIC, nullptr, SA_CIPHER_ALGORITHM_RSA_PKCS1V15, nullptr, k, ct.data(), ct.size());
                put_child(o, "rsa unwrap", c, s, ch);
            }
            EVP_PKEY_CTX_free(x);
            EVP_PKEY_free(p);
        }
    } else if (h.type == SA_KEY_TYPE_EC) {
        sa_elliptic_curve cv = h.type_parameters.curve;
        Bytes sig(256);
        size_t n = 256;
        if (is_ed(cv)) {
            s = c.sign(sig.data(), &n, SA_SIGNATURE_ALGORITHM_EDDSA, k, msg, 33, nullptr);
            sig.resize(std::min<size_t>(n, 256));
            put(o, "eddsa", s, sig);
        } else if (is_pcurve(cv)) {
            sa_sign_parameters_ecdsa sp = {SA_DIGEST_ALGORITHM_SHA256, false};
            s = c.sign(sig.data(), &n, SA_SIGNATURE_ALGORITHM_ECDSA, k, msg, 33, &sp);
            put(o, "ecdsa", s);
        }
        if (!is_ed(cv)) {
            Bytes op = peer(cv).pub();
            sa_key ch = INVALID_HANDLE;
            s = c.key_exchange(&ch, &all, SA_KEY_EXCHANGE_ALGORITHM_ECDH, k, op.data(), op.size(), nullptr);
            put_child(o, "ecdh", c, s, ch);
        }
    } else if (h.type == SA_KEY_TYPE_DH) {
        auto& d = h.type_parameters.dh_parameters;
        Bytes priv(40, 0x35);
        EVP_PKEY* q = dh_pkey(Bytes(d.p, d.p + d.p_length), Bytes(d.g, d.g + d.g_length), priv);
        if (q) {
            Bytes op = spki(q);
            sa_key ch = INVALID_HANDLE;
            s = c.key_exchange(&ch, &all, SA_KEY_EXCHANGE_ALGORITHM_DH, k, op.data(), op.size(), nullptr);
            put_child(o, "dh", c, s, ch);
            EVP_PKEY_free(q);
        }
    }
    return o;
}
inline std::string first_difference(const std::string& a, const std::string& b) {
    size_t i = 0, line = 0;
    while (i < a.size() && i < b.size() && a[i] == b[i]) {
        if (a[i] == '\n') line = i + 1;
        i++;
    }
    auto ln = [&](const std::string& s) { return s.substr(line, std::min<size_t>(s.find('\n', line) - line, 300)); };
    return "'" + ln(a) + "' vs '" + ln(b) + "'";
}
// A key of any type the API can hold; material is set when the harness knows it (everything except generated keys).
struct AnyKey {
    sa_key h = INVALID_HANDLE;
    Mat mat;
    bool known = true;
    std::string desc;
};
inline AnyKey gen_key(Src& src, const Caller& c, const sa_rights& r) {
    AnyKey k;
    switch (src.weighted({5, 3, 2, 1, 1, 1})) {
        case 0: k.mat = mat_sym(src, src.chance(2, 3) ? src.pick({16, 32, 24, 64}) : src.size(16, 512)); break;
        case 1: k.mat = mat_ec(src, ALL_CURVES[src.below(9)]); break;
        case 2: k.mat = mat_rsa(src, src.weighted({6, 3, 1}) == 0 ? 128 : src.coin() ? 256 : src.pick({384, 512})); break;
        case 3: {
            auto& g = dh_groups()[src.weighted({6, 4, 2, 1, 1, 1})];
            sa_generate_parameters_dh p = {g.p.data(), g.p.size(), g.g.data(), g.g.size()};
            sa_status s = c.key_generate(&k.h, &r, SA_KEY_TYPE_DH, &p);
            if (s != SA_STATUS_OK) pbt::fail("generate dh %s: %s", g.name, sname(s));
            k.known = false;
            k.desc = std::string("generated dh ") + g.name;
            return k;
        }
        case 4: {
            sa_generate_parameters_symmetric p = {src.size(16, 512)};
            sa_status s = c.key_generate(&k.h, &r, SA_KEY_TYPE_SYMMETRIC, &p);
            if (s != SA_STATUS_OK) pbt::fail("generate sym %zu: %s", p.key_length, sname(s));
            k.known = false;
            k.desc = "generated sym";
            return k;
        }
        case 5: {
            sa_elliptic_curve cv = ALL_CURVES[src.below(9)];
            sa_generate_parameters_ec p = {cv};
            sa_status s = c.key_generate(&k.h, &r, SA_KEY_TYPE_EC, &p);
            if (s != SA_STATUS_OK) pbt::fail("generate ec %s: %s", curve_name(cv), sname(s));
            k.known = false;
            k.desc = std::string("generated ec ") + curve_name(cv);
            return k;
        }
    }
    k.h = must_import(c, k.mat, r);
    k.desc = k.mat.show();
    return k;
}
inline sa_status export_key(const Caller& c, sa_key k, const Bytes* mixin, Bytes& out) {
    size_t n = 0;
    sa_status s = c.key_export(nullptr, &n, mixin ? mixin->data() : nullptr, mixin ? mixin->size() : 0, k);
    if (s != SA_STATUS_OK) return s;
    Guarded g(n);
    size_t m = n;
    s = c.key_export(g.data(), &m, mixin ? mixin->data() : nullptr, mixin ? mixin->size() : 0, k);
    if (s != SA_STATUS_OK) return s;
    REQUIRE(m == n, "export wrote %zu bytes, the query said %zu", m, n);
    REQUIRE(g.intact(), "export wrote outside the buffer");
    out = g.get(0, n);
    return s;
}
inline sa_status import_exported(const Caller& c, sa_key* k, const Bytes& b) {
    Exact e(b);
    return c.key_import(k, SA_KEY_FORMAT_EXPORTED, e.p, e.n, nullptr);
}
}  // namespace sec
