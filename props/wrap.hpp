// A key wrapped for sa_key_unwrap by the reference implementation.
#pragma once
#include "ops.hpp"
#include "stream.hpp"
namespace sec {
inline int mdpad(EVP_PKEY_CTX* x, bool oaep, sa_digest_algorithm d, sa_digest_algorithm m, const Bytes& label) {
    if (EVP_PKEY_CTX_set_rsa_padding(x, oaep ? RSA_PKCS1_OAEP_PADDING : RSA_PKCS1_PADDING) != 1) return 0;
    if (!oaep) return 1;
    if (EVP_PKEY_CTX_set_rsa_oaep_md(x, md_of(d)) != 1 || EVP_PKEY_CTX_set_rsa_mgf1_md(x, md_of(m)) != 1) return 0;
    if (!label.empty()) {
        void* l = OPENSSL_memdup(label.data(), label.size());
        if (EVP_PKEY_CTX_set0_rsa_oaep_label(x, l, (int) label.size()) != 1) return 0;
    }
    return 1;
}
inline Bytes rsa_encrypt(EVP_PKEY* p, bool oaep, sa_digest_algorithm d, sa_digest_algorithm m, const Bytes& label, const Bytes& in) {
    EVP_PKEY_CTX* x = EVP_PKEY_CTX_new(p, nullptr);
    Bytes o(EVP_PKEY_size(p));
    size_t n = o.size();
    uint8_t z = 0;
    if (EVP_PKEY_encrypt_init(x) != 1 || !mdpad(x, oaep, d, m, label) ||
            EVP_PKEY_encrypt(x, o.data(), &n, in.empty() ? &z : in.data(), in.size()) != 1)
        o.clear();
    EVP_PKEY_CTX_free(x);
    return o;
}
inline size_t rsa_room(size_t modulus, bool oaep, sa_digest_algorithm d) {
    size_t over = oaep ? 2 * md_len(d) + 2 : 11;
    return modulus > over ? modulus - over : 0;
}
// EC ElGamal of a point with the given x coordinate; false when x is not on the curve.
inline bool elgamal(EVP_PKEY* p, sa_elliptic_curve c, const Bytes& x, Src& src, Bytes& out) {
    size_t n = curve_size(c);
    EC_GROUP* g = EC_GROUP_new_by_curve_name(curve_nid(c));
    BN_CTX* bx = BN_CTX_new();
    EC_POINT *m = EC_POINT_new(g), *c1 = EC_POINT_new(g), *c2 = EC_POINT_new(g), *q = EC_POINT_new(g);
    BIGNUM* xx = BN_bin2bn(x.data(), x.size(), nullptr);
    bool ok = false;
    do {
        if (EC_POINT_set_compressed_coordinates(g, m, xx, src.coin(), bx) != 1) break;
        size_t pl = 0;
        unsigned char pb[256];
        if (EVP_PKEY_get_octet_string_param(p, OSSL_PKEY_PARAM_PUB_KEY, pb, sizeof pb, &pl) != 1) break;
        if (EC_POINT_oct2point(g, q, pb, pl, bx) != 1) break;
        Bytes kb = src.bytes(n);
        kb[0] = 0;
        kb[n - 1] |= 1;
        BIGNUM* k = BN_bin2bn(kb.data(), kb.size(), nullptr);
        EC_POINT_mul(g, c1, k, nullptr, nullptr, bx);
        EC_POINT_mul(g, c2, nullptr, q, k, bx);
        EC_POINT_add(g, c2, c2, m, bx);
        BN_free(k);
        if (EC_POINT_is_at_infinity(g, c2) || EC_POINT_is_at_infinity(g, c1)) break;
        out.clear();
        for (auto pt : {c1, c2}) {
            unsigned char b[256];
            size_t l = EC_POINT_point2oct(g, pt, POINT_CONVERSION_UNCOMPRESSED, b, sizeof b, bx);
            if (l != 1 + 2 * n) break;
            out.insert(out.end(), b + 1, b + l);
        }
        ok = out.size() == 4 * n;
    } while (false);
    EC_POINT_free(m);
    EC_POINT_free(c1);
    EC_POINT_free(c2);
    EC_POINT_free(q);
    BN_free(xx);
    EC_GROUP_free(g);
    BN_CTX_free(bx);
    return ok;
}
struct Wrapped {
    sa_cipher_algorithm alg;
    Mat key;                  // the wrapping key
    SymCfg s;
    Bytes label, tag, ct, plain;
    sa_digest_algorithm d = SA_DIGEST_ALGORITHM_SHA1, m = SA_DIGEST_ALGORITHM_SHA1;
    size_t offset = 0, len = 0;
    sa_status unwrap(const Caller& c, sa_key* out, const sa_rights* r, sa_key_type t, void* tp, sa_key w) const {
        Exact e(ct);
        switch (alg) {
            case SA_CIPHER_ALGORITHM_AES_CBC:
            case SA_CIPHER_ALGORITHM_AES_CBC_PKCS7: {
                sa_unwrap_parameters_aes_cbc p = {s.iv.data(), s.iv.size()};
                return c.key_unwrap(out, r, t, tp, alg, &p, w, e.p, e.n);
            }
            case SA_CIPHER_ALGORITHM_AES_CTR: {
                sa_unwrap_parameters_aes_ctr p = {s.iv.data(), s.iv.size()};
                return c.key_unwrap(out, r, t, tp, alg, &p, w, e.p, e.n);
            }
            case SA_CIPHER_ALGORITHM_AES_GCM: {
                Exact a(s.aad), g(tag);
                sa_unwrap_parameters_aes_gcm p = {s.iv.data(), s.iv.size(), s.aad.empty() ? nullptr : a.p, s.aad.size(), g.p, g.n};
                return c.key_unwrap(out, r, t, tp, alg, &p, w, e.p, e.n);
            }
            case SA_CIPHER_ALGORITHM_CHACHA20: {
                sa_unwrap_parameters_chacha20 p = {s.counter.data(), s.counter.size(), s.iv.data(), s.iv.size()};
                return c.key_unwrap(out, r, t, tp, alg, &p, w, e.p, e.n);
            }
            case SA_CIPHER_ALGORITHM_CHACHA20_POLY1305: {
                Exact a(s.aad), g(tag);
                sa_unwrap_parameters_chacha20_poly1305 p = {s.iv.data(), s.iv.size(), s.aad.empty() ? nullptr : a.p, s.aad.size(), g.p, g.n};
                return c.key_unwrap(out, r, t, tp, alg, &p, w, e.p, e.n);
            }
            case SA_CIPHER_ALGORITHM_RSA_OAEP: {
                Exact l(label);
                sa_unwrap_parameters_rsa_oaep p = {d, m, label.empty() ? nullptr : l.p, label.size()};
                return c.key_unwrap(out, r, t, tp, alg, &p, w, e.p, e.n);
            }
            case SA_CIPHER_ALGORITHM_EC_ELGAMAL: {
                sa_unwrap_parameters_ec_elgamal p = {offset, len};
                return c.key_unwrap(out, r, t, tp, alg, &p, w, e.p, e.n);
            }
            default: return c.key_unwrap(out, r, t, tp, alg, nullptr, w, e.p, e.n);
        }
    }
    std::string show() const {
        return std::string(alg_name(alg)) + " under " + key.show() + (alg == SA_CIPHER_ALGORITHM_RSA_OAEP ? " digest " + std::to_string(d) + " mgf1 " + std::to_string(m) + " label " + std::to_string(label.size()) : "") +
               (alg == SA_CIPHER_ALGORITHM_EC_ELGAMAL ? " offset " + std::to_string(offset) : "");
    }
};
// Wrap plain under a fresh key. Symmetric algorithms take anything (whole blocks for the unpadded block modes); RSA and
// ElGamal take what fits, and discard the case otherwise.
inline Wrapped make_wrapped(Src& src, sa_cipher_algorithm alg, const Bytes& plain, const Mat* key = nullptr) {
    Wrapped w;
    w.alg = alg;
    w.plain = plain;
    w.len = plain.size();
    if (alg == SA_CIPHER_ALGORITHM_RSA_OAEP || alg == SA_CIPHER_ALGORITHM_RSA_PKCS1V15) {
        bool oaep = alg == SA_CIPHER_ALGORITHM_RSA_OAEP;
        if (oaep) {
            w.d = ALL_DIGESTS[src.below(4)];
            w.m = src.coin() ? w.d : ALL_DIGESTS[src.below(4)];
            if (src.coin()) w.label = src.bytes(src.size(1, 40));
        }
        size_t mod = src.weighted({5, 4, 1}) == 0 ? 128 : src.coin() ? 256 : src.pick({384, 512});
        if (key) mod = key->size;
        while (!key && mod < 512 && rsa_room(mod, oaep, w.d) < plain.size()) mod = mod == 384 ? 512 : mod == 256 ? 384 : 256;
        if (rsa_room(mod, oaep, w.d) < plain.size() || rsa_room(mod, oaep, w.d) == 0) pbt::discard();
        w.key = key ? *key : mat_rsa(src, mod);
        w.ct = rsa_encrypt(w.key.pkey, oaep, w.d, w.m, w.label, plain);
        if (w.ct.empty()) pbt::fail("harness: rsa_encrypt %s plain %zu", w.show().c_str(), plain.size());
        return w;
    }
    if (alg == SA_CIPHER_ALGORITHM_EC_ELGAMAL) {
        std::vector<sa_elliptic_curve> ok;
        for (auto c : ALL_CURVES)
            if (is_pcurve(c) && curve_size(c) >= plain.size() + 2) ok.push_back(c);
        if (ok.empty()) pbt::discard();
        w.key = key ? *key : mat_ec(src, ok[src.below(ok.size())]);
        size_t n = curve_size(w.key.curve);
        if (n < plain.size() + 2) pbt::discard();
        w.offset = 1 + src.below(n - plain.size());
        if (w.offset + plain.size() > n) w.offset = n - plain.size();
        if (src.chance(1, 4) && n != 66) w.offset = 0;
        for (int i = 0; i < 200; i++) {
            Bytes x = src.bytes(n);
            if (i && n - plain.size() <= 4) {   // walk the free bytes
                size_t k = 0;
                for (size_t j = 0; j < n; j++)
                    if (j < w.offset || j >= w.offset + plain.size()) x[j] = (uint8_t) (i * (37 + 2 * k++) + i);
            }
            if (w.offset) x[0] = n == 66 ? x[0] & 1 : x[0] & 0x7f;
            if (n == 66) x[0] &= 1;
            memcpy(&x[w.offset], plain.data(), plain.size());
            if (elgamal(w.key.pkey, w.key.curve, x, src, w.ct)) return w;
        }
        pbt::discard();
    }
    w.s = gen_cfg(src, alg);
    w.s.mode = SA_CIPHER_MODE_DECRYPT;
    if (key) w.s.key = key->clear;
    w.key = mat_sym_bytes(w.s.key);
    w.ct = ref_encrypt(w.s, plain, w.s.iv, &w.tag);
    return w;
}
}  // namespace sec
