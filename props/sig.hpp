// Signature parameters, the call, and verification by OpenSSL.
#pragma once
#include "ops.hpp"
#include <openssl/ecdsa.h>
namespace sec {
struct Params {
    sa_signature_algorithm alg;
    sa_digest_algorithm d, m;
    bool pre = false;
    size_t salt = 0;
};
inline const char* alg_str(int a) {
    switch (a) {
        case SA_SIGNATURE_ALGORITHM_RSA_PKCS1V15: return "pkcs1";
        case SA_SIGNATURE_ALGORITHM_RSA_PSS: return "pss";
        case SA_SIGNATURE_ALGORITHM_ECDSA: return "ecdsa";
        case SA_SIGNATURE_ALGORITHM_EDDSA: return "eddsa";
    }
    return "?";
}
inline bool known_digest(sa_digest_algorithm d) {
    for (auto x : ALL_DIGESTS)
        if (x == d) return true;
    return false;
}
inline sa_status do_sign(const Caller& c, sa_key k, const Params& p, const Bytes& in, void* out, size_t* n) {
    sa_sign_parameters_rsa_pss pss = {p.d, p.m, p.pre, p.salt};
    sa_sign_parameters_rsa_pkcs1v15 pk = {p.d, p.pre};
    sa_sign_parameters_ecdsa ec = {p.d, p.pre};
    const void* pp = p.alg == SA_SIGNATURE_ALGORITHM_RSA_PSS ? (void*) &pss : p.alg == SA_SIGNATURE_ALGORITHM_RSA_PKCS1V15 ? (void*) &pk
                     : p.alg == SA_SIGNATURE_ALGORITHM_ECDSA ? (void*) &ec : nullptr;
    Exact e(in);
    return c.sign(out, n, p.alg, k, in.empty() ? nullptr : e.p, in.size(), pp);
}
inline bool verify(EVP_PKEY* pub, const Params& p, const Bytes& msg, Bytes sig) {
    if (p.alg == SA_SIGNATURE_ALGORITHM_ECDSA) {   // r || s to DER
        size_t h = sig.size() / 2;
        ECDSA_SIG* s = ECDSA_SIG_new();
        ECDSA_SIG_set0(s, BN_bin2bn(sig.data(), h, nullptr), BN_bin2bn(sig.data() + h, h, nullptr));
        unsigned char* o = nullptr;
        int n = i2d_ECDSA_SIG(s, &o);
        sig.assign(o, o + n);
        OPENSSL_free(o);
        ECDSA_SIG_free(s);
    }
    int ok = 0;
    if (p.pre) {
        EVP_PKEY_CTX* x = EVP_PKEY_CTX_new(pub, nullptr);
        if (EVP_PKEY_verify_init(x) == 1) {
            ok = 1;
            if (p.alg == SA_SIGNATURE_ALGORITHM_RSA_PSS)
                ok = EVP_PKEY_CTX_set_rsa_padding(x, RSA_PKCS1_PSS_PADDING) == 1 && EVP_PKEY_CTX_set_signature_md(x, md_of(p.d)) == 1 &&
                     EVP_PKEY_CTX_set_rsa_mgf1_md(x, md_of(p.m)) == 1 && EVP_PKEY_CTX_set_rsa_pss_saltlen(x, (int) p.salt) == 1;
            else if (p.alg == SA_SIGNATURE_ALGORITHM_RSA_PKCS1V15)
                ok = EVP_PKEY_CTX_set_rsa_padding(x, RSA_PKCS1_PADDING) == 1 && EVP_PKEY_CTX_set_signature_md(x, md_of(p.d)) == 1;
            else
                ok = EVP_PKEY_CTX_set_signature_md(x, md_of(p.d)) == 1;
            if (!ok) pbt::fail("harness: verify parameters");
            ok = EVP_PKEY_verify(x, sig.data(), sig.size(), msg.data(), msg.size()) == 1;
        }
        EVP_PKEY_CTX_free(x);
        return ok;
    }
    EVP_MD_CTX* md = EVP_MD_CTX_new();
    EVP_PKEY_CTX* x = nullptr;
    if (EVP_DigestVerifyInit(md, &x, p.alg == SA_SIGNATURE_ALGORITHM_EDDSA ? nullptr : md_of(p.d), nullptr, pub) == 1) {
        ok = 1;
        if (p.alg == SA_SIGNATURE_ALGORITHM_RSA_PSS)
            ok = EVP_PKEY_CTX_set_rsa_padding(x, RSA_PKCS1_PSS_PADDING) == 1 && EVP_PKEY_CTX_set_rsa_mgf1_md(x, md_of(p.m)) == 1 &&
                 EVP_PKEY_CTX_set_rsa_pss_saltlen(x, (int) p.salt) == 1;
        if (!ok) pbt::fail("harness: verify parameters");
        uint8_t z = 0;
        ok = EVP_DigestVerify(md, sig.data(), sig.size(), msg.empty() ? &z : msg.data(), msg.size()) == 1;
    }
    EVP_MD_CTX_free(md);
    return ok;
}
}  // namespace sec
