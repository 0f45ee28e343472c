// C13: unwrapping equals importing the plaintext key; what does not decrypt to a well-formed key gives no key.
#include "wrap.hpp"
#include <algorithm>
#include <memory>
using namespace sec;

static const sa_cipher_algorithm ALGS[] = {SA_CIPHER_ALGORITHM_AES_ECB, SA_CIPHER_ALGORITHM_AES_ECB_PKCS7, SA_CIPHER_ALGORITHM_AES_CBC,
        SA_CIPHER_ALGORITHM_AES_CBC_PKCS7, SA_CIPHER_ALGORITHM_AES_CTR, SA_CIPHER_ALGORITHM_AES_GCM, SA_CIPHER_ALGORITHM_CHACHA20,
        SA_CIPHER_ALGORITHM_CHACHA20_POLY1305, SA_CIPHER_ALGORITHM_RSA_PKCS1V15, SA_CIPHER_ALGORITHM_RSA_OAEP, SA_CIPHER_ALGORITHM_EC_ELGAMAL};
static bool asym(sa_cipher_algorithm a) {
    return a == SA_CIPHER_ALGORITHM_RSA_PKCS1V15 || a == SA_CIPHER_ALGORITHM_RSA_OAEP || a == SA_CIPHER_ALGORITHM_EC_ELGAMAL;
}
static bool whole_blocks(sa_cipher_algorithm a) { return a == SA_CIPHER_ALGORITHM_AES_ECB || a == SA_CIPHER_ALGORITHM_AES_CBC; }
static Mat gen_plain(Src& src, sa_cipher_algorithm a) {
    if (asym(a)) {
        size_t n = a == SA_CIPHER_ALGORITHM_EC_ELGAMAL ? src.size(16, 64) : src.coin() ? src.pick({16, 32}) : src.size(16, 200);
        return mat_sym(src, n);
    }
    switch (src.weighted({4, 3, 2})) {
        case 0: return mat_sym(src, whole_blocks(a) ? 16 * src.range(1, 32) : src.coin() ? src.pick({16, 32, 24, 512, 511, 64}) : src.size(16, 512));
        case 1: return mat_ec(src, ALL_CURVES[src.below(9)]);
        default: return mat_rsa(src, src.weighted({6, 3, 1}) == 0 ? 128 : src.coin() ? 256 : src.pick({384, 512}));
    }
}
static sa_status unwrap_as(const Caller& c, const Wrapped& w, const Mat& m, sa_key* k, const sa_rights& r, sa_key wk) {
    sa_unwrap_type_parameters_ec tp = {m.curve};
    return w.unwrap(c, k, &r, m.type, m.type == SA_KEY_TYPE_EC ? &tp : nullptr, wk);
}

PROP(c13_equal, "a key was unwrapped and compared with the imported plaintext") {
    Caller c = src.coin() ? Caller::ree() : Caller::open(TA_A);
    auto alg = ALGS[src.below(11)];
    Mat m = gen_plain(src, alg);
    if (whole_blocks(alg) && m.clear.size() % 16) pbt::discard();
    Wrapped w = make_wrapped(src, alg, m.clear);
    if (alg == SA_CIPHER_ALGORITHM_AES_GCM && src.chance(1, 4)) w.tag.resize(src.range(12, 16));
    sa_rights r = gen_rights(src);
    sa_key wk = must_import(c, w.key, rights_all());
    pbt::trace("%s %s", m.show().c_str(), w.show().c_str());
    sa_key a = INVALID_HANDLE, b = must_import(c, m, r);
    sa_status s = unwrap_as(c, w, m, &a, r, wk);
    REQUIRE(s == SA_STATUS_OK, "unwrap of %s, %s: %s", m.show().c_str(), w.show().c_str(), sname(s));
    bool deep = src.chance(1, 3);
    bool det = !(m.type == SA_KEY_TYPE_EC && is_pcurve(m.curve));
    std::string fa = fingerprint(c, a, deep && det), fb = fingerprint(c, b, deep && det);
    REQUIRE(fa == fb, "unwrapped differs from imported: %s", first_difference(fa, fb).c_str());
    // the same wrapped key again, and after the wrapping key was used otherwise
    if (src.chance(1, 3)) {
        sa_key k2 = INVALID_HANDLE;
        s = unwrap_as(c, w, m, &k2, r, wk);
        REQUIRE(s == SA_STATUS_OK, "second unwrap: %s", sname(s));
        std::string f2 = fingerprint(c, k2, false);
        REQUIRE(f2 == fingerprint(c, b, false), "second unwrap gives another key");
    }
    // usable with unrestricted rights, whatever the key is
    if (src.chance(1, 3)) {
        sa_key k3 = INVALID_HANDLE, k4 = must_import(c, m, rights_all());
        s = unwrap_as(c, w, m, &k3, rights_all(), wk);
        REQUIRE(s == SA_STATUS_OK, "third unwrap: %s", sname(s));
        std::string f3 = fingerprint(c, k3, true), f4 = fingerprint(c, k4, true);
        REQUIRE(f3 == f4, "unwrapped behaves differently from imported: %s", first_difference(f3, f4).c_str());
    }
    pbt::nontrivial();
    pbt::label("%s/%s", alg_name(alg), m.type == SA_KEY_TYPE_SYMMETRIC ? "sym" : m.type == SA_KEY_TYPE_EC ? curve_name(m.curve) : "rsa");
}

// The plaintext is arbitrary: unwrap must do exactly what import does with it.
static Bytes gen_bad_plain(Src& src, Mat& m, bool blocks) {
    Bytes p;
    m.type = src.pick({SA_KEY_TYPE_SYMMETRIC, SA_KEY_TYPE_EC, SA_KEY_TYPE_RSA});
    m.curve = ALL_CURVES[src.below(9)];
    switch (src.below(7)) {
        case 0: p = src.bytes(src.size(0, 40)); break;
        case 1: p = src.bytes(src.coin() ? src.pick({15, 16, 1, 0, 512, 513, 528, 1024}) : src.size(500, 1200)); break;
        case 2: p = mat_ec(src, src.coin() ? m.curve : ALL_CURVES[src.below(9)]).clear; break;
        case 3: p = mat_rsa(src, 128).clear; break;
        case 4: {   // edited PKCS#8
            p = src.coin() ? mat_ec(src, m.curve).clear : mat_rsa(src, 128).clear;
            unsigned n = 1 + (unsigned) src.below(3);
            for (unsigned i = 0; i < n && !p.empty(); i++) switch (src.below(4)) {
                    case 0: p[src.below(p.size())] ^= (uint8_t) (1u << src.below(8)); break;
                    case 1: p.erase(p.begin() + (long) src.below(p.size())); break;
                    case 2: p.insert(p.begin() + (long) src.below(p.size() + 1), (uint8_t) src.any()); break;
                    default: p.resize(src.below(p.size())); break;
                }
            break;
        }
        case 5: {   // scalars at the edge of the range
            if (!is_pcurve(m.curve)) m.curve = SA_ELLIPTIC_CURVE_NIST_P256;
            m.type = SA_KEY_TYPE_EC;
            Mat k = mat_ec(src, m.curve);
            size_t n = curve_size(m.curve);
            EC_GROUP* g = EC_GROUP_new_by_curve_name(curve_nid(m.curve));
            BIGNUM *o = BN_new(), *d = nullptr;
            EC_GROUP_get_order(g, o, nullptr);
            EVP_PKEY_get_bn_param(k.pkey, OSSL_PKEY_PARAM_PRIV_KEY, &d);
            Bytes old(n), v(n);
            BN_bn2binpad(d, old.data(), (int) n);
            switch (src.below(4)) {
                case 0: BN_zero(o); break;
                case 1: break;
                case 2: BN_add_word(o, 1); break;
                default: BN_sub_word(o, 1); break;
            }
            BN_bn2binpad(o, v.data(), (int) n);
            p = k.clear;
            auto at = std::search(p.begin(), p.end(), old.begin(), old.end());
            if (at == p.end()) pbt::discard();
            std::copy(v.begin(), v.end(), at);
            BN_free(o);
            BN_clear_free(d);
            EC_GROUP_free(g);
            break;
        }
        default: p = mat_ec(src, m.curve).clear; m.type = SA_KEY_TYPE_EC; m.curve = ALL_CURVES[src.below(9)]; break;
    }
    if (blocks) p.resize((p.size() + (src.coin() ? 15 : 0)) / 16 * 16);
    m.clear = p;
    return p;
}
PROP(c13_as_import, "the plaintext was not a fresh well-formed key of the requested type") {
    Caller c = Caller::ree();
    auto alg = ALGS[src.below(8)];
    Mat m;
    Bytes p = gen_bad_plain(src, m, whole_blocks(alg));
    Wrapped w = make_wrapped(src, alg, p);
    if (w.ct.empty()) w.ct.clear();
    sa_rights r = rights_all();
    sa_key wk = must_import(c, w.key, r), a = 0x1234, b = 0x1234;
    pbt::trace("type %d curve %s plaintext %s, %s", (int) m.type, curve_name(m.curve), pbt::hex(p, 80).c_str(), w.show().c_str());
    Exact e(p);
    sa_status si;
    if (m.type == SA_KEY_TYPE_SYMMETRIC) {
        sa_import_parameters_symmetric ip = {&r};
        si = c.key_import(&b, SA_KEY_FORMAT_SYMMETRIC_BYTES, e.p, e.n, &ip);
    } else if (m.type == SA_KEY_TYPE_EC) {
        sa_import_parameters_ec_private_bytes ip = {&r, m.curve};
        si = c.key_import(&b, SA_KEY_FORMAT_EC_PRIVATE_BYTES, e.p, e.n, &ip);
    } else {
        sa_import_parameters_rsa_private_key_info ip = {&r};
        si = c.key_import(&b, SA_KEY_FORMAT_RSA_PRIVATE_KEY_INFO, e.p, e.n, &ip);
    }
    sa_status su = unwrap_as(c, w, m, &a, r, wk);
    if (m.type == SA_KEY_TYPE_SYMMETRIC) REQUIRE((su == SA_STATUS_OK) == (p.size() >= 16 && p.size() <= 512), "a symmetric key of %zu bytes: %s", p.size(), sname(su));
    REQUIRE((su == SA_STATUS_OK) == (si == SA_STATUS_OK), "import of the plaintext: %s, unwrap: %s", sname(si), sname(su));
    pbt::nontrivial();
    pbt::label("type %d/%s", (int) m.type, su == SA_STATUS_OK ? "accepted by both" : "refused by both");
    if (su != SA_STATUS_OK) {
        REQUIRE(a == 0x1234 || a == INVALID_HANDLE, "refused, but a handle was returned");
        return;
    }
    std::string fa = fingerprint(c, a, false), fb = fingerprint(c, b, false);
    REQUIRE(fa == fb, "unwrapped differs from imported: %s", first_difference(fa, fb).c_str());
}

static bool unpad(Bytes& b) {
    if (b.empty() || b.size() % 16) return false;
    size_t v = b.back();
    if (v < 1 || v > 16) return false;
    for (size_t i = 0; i < v; i++)
        if (b[b.size() - 1 - i] != v) return false;
    b.resize(b.size() - v);
    return true;
}
// Arbitrary ciphertext under the unauthenticated and padded algorithms, and edited ciphertext under all of them.
PROP(c13_ciphertext, "the ciphertext was edited or arbitrary") {
    Caller c = src.coin() ? Caller::ree() : Caller::open(TA_A);
    auto alg = ALGS[src.below(11)];
    Mat m = asym(alg) || src.coin() ? mat_sym(src, alg == SA_CIPHER_ALGORITHM_EC_ELGAMAL ? 16 : 16 * src.range(1, 4)) : gen_plain(src, alg);
    if (whole_blocks(alg) && m.clear.size() % 16) pbt::discard();
    Wrapped w = make_wrapped(src, alg, m.clear);
    Wrapped o = w;
    const char* what;
    switch (src.below(asym(alg) ? 3 : 6)) {
        case 0: o.ct[src.below(o.ct.size())] ^= (uint8_t) (1u << src.below(8)); what = "bit flip"; break;
        case 1: o.ct = src.bytes(o.ct.size()); what = "arbitrary"; break;
        case 2: {
            size_t n = src.coin() ? src.below(o.ct.size()) : o.ct.size() + src.range(1, 40);
            o.ct.resize(n, (uint8_t) src.any());
            what = "length";
            break;
        }
        case 3: o.ct = src.bytes(16 * src.below(36)); what = "arbitrary blocks"; break;
        case 4: {   // a chosen last block
            Bytes p = src.bytes(16 * src.range(0, 4));
            Bytes last = src.bytes(16);
            last[15] = (uint8_t) (src.chance(1, 6) ? src.any() : src.range(0, 18));
            unsigned v = last[15];
            if (v >= 1 && v <= 16) {
                for (unsigned i = 1; i <= v; i++) last[16 - i] = (uint8_t) v;
                if (src.chance(2, 3) && v > 1) last[16 - 1 - src.range(1, v - 1)] ^= (uint8_t) src.range(1, 255);
            }
            p = cat({p, last});
            if (w.s.cbc()) o.ct = aes_cbc(w.s.key, w.s.iv, p, true);
            else if (alg == SA_CIPHER_ALGORITHM_AES_ECB || alg == SA_CIPHER_ALGORITHM_AES_ECB_PKCS7) o.ct = aes_ecb(w.s.key, p, true);
            else pbt::discard();
            what = "chosen padding";
            break;
        }
        default: {
            if (!w.s.iv.size() && !w.tag.size()) pbt::discard();
            bool aead_ = !w.tag.empty();
            switch (src.below(aead_ ? 3 : 1)) {
                case 0: o.s.iv[src.below(o.s.iv.size())] ^= (uint8_t) (1u << src.below(8)); break;
                case 1: o.tag[src.below(o.tag.size())] ^= (uint8_t) (1u << src.below(8)); break;
                default:
                    if (o.s.aad.empty()) o.s.aad = {0};
                    else if (src.coin()) o.s.aad[src.below(o.s.aad.size())] ^= (uint8_t) (1u << src.below(8));
                    else o.s.aad.pop_back();
            }
            what = "iv, tag or aad";
        }
    }
    if (o.ct == w.ct && o.s.iv == w.s.iv && o.tag == w.tag && o.s.aad == w.s.aad) pbt::discard();
    // what the reference makes of it
    bool ok = false;
    Bytes p;
    switch (alg) {
        case SA_CIPHER_ALGORITHM_AES_ECB:
        case SA_CIPHER_ALGORITHM_AES_ECB_PKCS7:
        case SA_CIPHER_ALGORITHM_AES_CBC:
        case SA_CIPHER_ALGORITHM_AES_CBC_PKCS7:
            if (o.ct.size() % 16 || o.ct.empty()) break;
            p = w.s.cbc() ? aes_cbc(o.s.key, o.s.iv, o.ct, false) : aes_ecb(o.s.key, o.ct, false);
            ok = !w.s.padded() || unpad(p);
            break;
        case SA_CIPHER_ALGORITHM_AES_CTR: p = aes_ctr(o.s.key, o.s.iv, o.ct), ok = true; break;
        case SA_CIPHER_ALGORITHM_CHACHA20: p = chacha(o.s.key, o.s.counter, o.s.iv, o.ct), ok = true; break;
        case SA_CIPHER_ALGORITHM_AES_GCM:
        case SA_CIPHER_ALGORITHM_CHACHA20_POLY1305: break;
        case SA_CIPHER_ALGORITHM_EC_ELGAMAL: break;   // checked below
        default: {
            EVP_PKEY_CTX* x = EVP_PKEY_CTX_new(w.key.pkey, nullptr);
            p.resize(600);
            size_t n = 600;
            ok = o.ct.size() == w.key.size && EVP_PKEY_decrypt_init(x) == 1 && mdpad(x, alg == SA_CIPHER_ALGORITHM_RSA_OAEP, w.d, w.m, w.label) &&
                 EVP_PKEY_decrypt(x, p.data(), &n, o.ct.data(), o.ct.size()) == 1;
            p.resize(ok ? n : 0);
            EVP_PKEY_CTX_free(x);
        }
    }
    bool exact = true;
    if (alg == SA_CIPHER_ALGORITHM_EC_ELGAMAL && o.ct.size() == w.ct.size()) {
        // C1 and C2 must be on the curve; then M = C2 - d C1
        size_t n = curve_size(w.key.curve);
        EC_GROUP* g = EC_GROUP_new_by_curve_name(curve_nid(w.key.curve));
        EC_POINT *c1 = EC_POINT_new(g), *c2 = EC_POINT_new(g);
        Bytes p1 = cat({{4}, sub(o.ct, 0, 2 * n)}), p2 = cat({{4}, sub(o.ct, 2 * n, 2 * n)});
        BN_CTX* bx = BN_CTX_new();
        if (EC_POINT_oct2point(g, c1, p1.data(), p1.size(), bx) == 1 && EC_POINT_oct2point(g, c2, p2.data(), p2.size(), bx) == 1) exact = false;
        EC_POINT_free(c1);
        EC_POINT_free(c2);
        EC_GROUP_free(g);
        BN_CTX_free(bx);
    }
    sa_rights r = rights_all();
    Mat t = m;
    t.clear = p;
    bool want = ok && m.type == SA_KEY_TYPE_SYMMETRIC && p.size() >= 16 && p.size() <= 512;
    sa_key ki = INVALID_HANDLE;
    if (ok && m.type != SA_KEY_TYPE_SYMMETRIC) {
        Exact e(p);
        if (m.type == SA_KEY_TYPE_EC) {
            sa_import_parameters_ec_private_bytes ip = {&r, m.curve};
            want = c.key_import(&ki, SA_KEY_FORMAT_EC_PRIVATE_BYTES, e.p, e.n, &ip) == SA_STATUS_OK;
        } else {
            sa_import_parameters_rsa_private_key_info ip = {&r};
            want = c.key_import(&ki, SA_KEY_FORMAT_RSA_PRIVATE_KEY_INFO, e.p, e.n, &ip) == SA_STATUS_OK;
        }
    }
    sa_key wk = must_import(c, w.key, r), k = 0x1234;
    pbt::trace("%s %s, %s: ciphertext of %zu bytes", m.show().c_str(), w.show().c_str(), what, o.ct.size());
    sa_status s = unwrap_as(c, o, m, &k, r, wk);
    pbt::nontrivial();
    if (!exact) return;
    REQUIRE((s == SA_STATUS_OK) == want, "%s with %s: %s, expected %s", w.show().c_str(), what, sname(s), want ? "a key" : "refusal");
    pbt::label("%s/%s/%s", alg_name(alg), what, want ? "accepted" : "refused");
    if (s != SA_STATUS_OK) {
        REQUIRE(k == 0x1234 || k == INVALID_HANDLE, "refused, but a handle was returned");
        return;
    }
    if (m.type == SA_KEY_TYPE_SYMMETRIC) REQUIRE(key_digest(c, k) == ref_digest(SA_DIGEST_ALGORITHM_SHA256, p), "another key than the decrypted plaintext");
    else REQUIRE(fingerprint(c, k, false) == fingerprint(c, ki, false), "another key than the decrypted plaintext");
}

PROP(c13_refused, "unsuitable parameters were refused") {
    Caller c = src.coin() ? Caller::ree() : Caller::open(TA_A);
    auto alg = ALGS[src.below(11)];
    Mat m = mat_sym(src, alg == SA_CIPHER_ALGORITHM_EC_ELGAMAL ? 16 : src.coin() ? 16 : 32);
    Wrapped w = make_wrapped(src, alg, m.clear);
    sa_rights r = rights_all();
    sa_key wk = INVALID_HANDLE, k = 0x1234;
    sa_key_type type = SA_KEY_TYPE_SYMMETRIC;
    sa_cipher_algorithm use = alg;
    std::string what;
    switch (src.below(7)) {
        case 0: {   // wrapping key of the wrong kind or size
            Mat b;
            if (asym(alg)) {
                bool rsa = w.key.type == SA_KEY_TYPE_RSA;
                switch (src.below(3)) {
                    case 0: b = mat_sym(src, src.coin() ? 16 : 128); break;
                    case 1: b = rsa ? mat_ec(src, ALL_CURVES[src.below(9)]) : mat_rsa(src, 128); break;
                    default:
                        if (rsa) {
                            b = mat_rsa(src, w.key.size == 128 ? 256 : 128);
                        } else {
                            do b = mat_ec(src, ALL_CURVES[src.below(9)]);
                            while (b.curve == w.key.curve);
                            if (src.coin()) w.ct = src.bytes(4 * b.size);
                        }
                }
                if (is_pcurve(b.curve) && b.type == SA_KEY_TYPE_EC && w.ct.size() == 4 * b.size && !rsa) pbt::discard();
            } else {
                bool chacha_ = w.s.chacha() || w.s.poly();
                switch (src.below(3)) {
                    case 0: do b = mat_sym(src, src.size(16, 200)); while (b.clear.size() == 32 || (!chacha_ && b.clear.size() == 16)); break;
                    case 1: b = mat_rsa(src, 128); break;
                    default: b = mat_ec(src, ALL_CURVES[src.below(9)]);
                }
            }
            wk = must_import(c, b, r);
            what = "wrapping key";
            break;
        }
        case 1: type = src.coin() ? SA_KEY_TYPE_DH : (sa_key_type) src.range(4, 1000); what = "key type"; break;
        case 2:
            if (!asym(alg)) pbt::discard();
            type = src.coin() ? SA_KEY_TYPE_EC : SA_KEY_TYPE_RSA;
            what = "key type with an asymmetric wrapping key";
            break;
        case 3: use = (sa_cipher_algorithm) (src.coin() ? 11 + src.below(20) : src.any() | 64); what = "algorithm"; break;
        case 4:
            if (alg == SA_CIPHER_ALGORITHM_EC_ELGAMAL) {
                size_t n = w.key.size;
                switch (src.below(4)) {
                    case 0: w.len = src.below(16), w.offset = src.below(n - w.len + 1); break;
                    case 1: w.offset = n - w.len + src.range(1, 100); break;
                    case 2: w.len = n - w.offset + src.range(1, 300); break;
                    default:
                        w.offset = src.pick<size_t>({SIZE_MAX, SIZE_MAX - 15, SIZE_MAX - 16, SIZE_MAX - w.len + 1, (size_t) 1 << 63});
                        w.len = src.coin() ? w.len : src.pick<size_t>({SIZE_MAX, SIZE_MAX - w.offset + 1 + 16, 16, 32, (size_t) 1 << 63});
                        if (w.offset + w.len >= w.offset && w.offset + w.len <= n) pbt::discard();
                }
                what = "elgamal offset or length";
            } else if (alg == SA_CIPHER_ALGORITHM_RSA_OAEP) {
                switch (src.below(3)) {
                    case 0:
                        do w.d = src.coin() ? ALL_DIGESTS[src.below(4)] : (sa_digest_algorithm) src.range(4, 99);
                        while (w.d == (sa_digest_algorithm) 0 && false);
                        if (w.d <= SA_DIGEST_ALGORITHM_SHA512) {
                            Bytes ct = rsa_encrypt(w.key.pkey, true, w.d, w.m, w.label, w.plain);
                            static_cast<void>(ct);
                        }
                        what = "oaep digest";
                        break;
                    case 1: w.m = (sa_digest_algorithm) src.range(4, 99); what = "mgf1 digest"; break;
                    default:
                        if (w.label.empty()) w.label = {0};
                        else w.label[src.below(w.label.size())] ^= 1;
                        what = "oaep label";
                }
            } else if (w.s.iv.size()) {
                size_t n = w.s.iv.size();
                do w.s.iv.resize(src.size(0, 40));
                while (w.s.iv.size() == n);
                what = "iv length";
            } else
                pbt::discard();
            break;
        case 5:
            if (w.s.chacha()) {
                do w.s.counter.resize(src.size(0, 20));
                while (w.s.counter.size() == 4);
                what = "counter length";
            } else if (!w.tag.empty()) {
                bool poly = w.s.poly();
                size_t n = src.coin() ? 0 : poly ? src.range(1, 15) : src.range(17, 40);
                if (src.chance(1, 3)) n = src.range(17, 40);
                w.tag.resize(n);
                what = "tag length";
            } else
                pbt::discard();
            break;
        default: {
            wk = src.coin() ? INVALID_HANDLE : must_import(c, w.key, r);
            if (wk != INVALID_HANDLE) c.key_release(wk);
            if (wk == INVALID_HANDLE) wk = 77;
            what = "wrapping key handle";
        }
    }
    if (wk == INVALID_HANDLE) wk = must_import(c, w.key, r);
    pbt::trace("%s: %s", w.show().c_str(), what.c_str());
    if (what == "oaep digest" && w.d <= SA_DIGEST_ALGORITHM_SHA512) {
        // a different known digest: the reference must refuse it too
        EVP_PKEY_CTX* x = EVP_PKEY_CTX_new(w.key.pkey, nullptr);
        Bytes p(600);
        size_t n = 600;
        bool ok = EVP_PKEY_decrypt_init(x) == 1 && mdpad(x, true, w.d, w.m, w.label) && EVP_PKEY_decrypt(x, p.data(), &n, w.ct.data(), w.ct.size()) == 1;
        EVP_PKEY_CTX_free(x);
        if (ok) pbt::discard();
    }
    w.alg = alg;
    sa_unwrap_type_parameters_ec tp = {SA_ELLIPTIC_CURVE_NIST_P256};
    sa_status s;
    if (use != alg) {
        Exact e(w.ct);
        uint8_t zero[128] = {0};
        s = c.key_unwrap(&k, &r, type, nullptr, use, zero, wk, e.p, e.n);
    } else
        s = w.unwrap(c, &k, &r, type, type == SA_KEY_TYPE_EC ? &tp : nullptr, wk);
    REQUIRE(s != SA_STATUS_OK, "%s: unsuitable %s accepted", w.show().c_str(), what.c_str());
    REQUIRE(k == 0x1234 || k == INVALID_HANDLE, "refused, but a handle was returned");
    pbt::nontrivial();
    pbt::label("%s/%s: %s", alg_name(alg), what.c_str(), sname(s));
}
