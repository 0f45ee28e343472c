// C12: key exchange gives both sides the standard secret; invalid peers give no key.
#include "optable.hpp"
#include <algorithm>
using namespace sec;

typedef std::unique_ptr<EVP_PKEY, void (*)(EVP_PKEY*)> Pk;
struct Bn {
    BIGNUM* b;
    explicit Bn(const Bytes& v = Bytes()) : b(BN_bin2bn(v.data(), (int) v.size(), nullptr)) {}
    ~Bn() { BN_free(b); }
    Bn(const Bn&) = delete;
    operator BIGNUM*() const { return b; }
    Bytes pad(size_t n) const {
        Bytes r(n);
        if (BN_bn2binpad(b, r.data(), (int) n) < 0) pbt::fail("harness: bignum does not fit");
        return r;
    }
};
static BN_CTX* bx() {
    static BN_CTX* x = BN_CTX_new();
    return x;
}
static void expect_key(const Caller& c, sa_key k, const Bytes& want, const char* what) {
    sa_header h;
    REQUIRE(c.key_header(&h, k) == SA_STATUS_OK, "header");
    REQUIRE(h.type == SA_KEY_TYPE_SYMMETRIC, "%s: type %d", what, (int) h.type);
    REQUIRE(h.size == want.size(), "%s: secret of %zu bytes, expected %zu", what, (size_t) h.size, want.size());
    REQUIRE(key_digest(c, k) == ref_digest(SA_DIGEST_ALGORITHM_SHA256, want), "%s: not the standard shared secret", what);
}
static Bytes api_pub(const Caller& c, sa_key k) {
    Bytes b(2048);
    size_t n = b.size();
    sa_status s = c.key_get_public(b.data(), &n, k);
    REQUIRE(s == SA_STATUS_OK, "get_public: %s", sname(s));
    b.resize(n);
    return b;
}
static sa_status exchange(const Caller& c, sa_key* out, sa_key_exchange_algorithm a, sa_key priv, const Bytes& pub, void* p = nullptr) {
    sa_rights r = rights_all();
    Exact e(pub);
    return c.key_exchange(out, &r, a, priv, e.p, e.n, p);
}
static sa_key gen_ec(const Caller& c, sa_elliptic_curve cv) {
    sa_generate_parameters_ec p = {cv};
    sa_rights r = rights_all();
    sa_key k = INVALID_HANDLE;
    sa_status s = c.key_generate(&k, &r, SA_KEY_TYPE_EC, &p);
    REQUIRE(s == SA_STATUS_OK, "generate %s: %s", curve_name(cv), sname(s));
    return k;
}
static sa_elliptic_curve dh_curve(Src& src) {
    sa_elliptic_curve cv;
    do cv = ALL_CURVES[src.below(9)];
    while (is_ed(cv));
    return cv;
}
// A public key Q = d^-1 R of the curve such that the secret shared with d is the given x coordinate; false when x is on no point.
static bool crafted_peer(const Mat& m, const Bytes& x, Bytes& pub) {
    EC_GROUP* g = EC_GROUP_new_by_curve_name(curve_nid(m.curve));
    BIGNUM *d = nullptr, *o = BN_new();
    EVP_PKEY_get_bn_param(m.pkey, OSSL_PKEY_PARAM_PRIV_KEY, &d);
    EC_GROUP_get_order(g, o, bx());
    BN_mod_inverse(d, d, o, bx());
    EC_POINT *r = EC_POINT_new(g), *q = EC_POINT_new(g);
    Bn bxv(x);
    bool ok = EC_POINT_set_compressed_coordinates(g, r, bxv, 0, bx()) == 1 && EC_POINT_mul(g, q, nullptr, r, d, bx()) == 1;
    if (ok) {
        size_t n = curve_size(m.curve);
        Bytes pt(2 * n + 1);
        ok = EC_POINT_point2oct(g, q, POINT_CONVERSION_UNCOMPRESSED, pt.data(), pt.size(), bx()) == pt.size();
        pub = peer(m.curve).pub();
        std::copy(pt.begin(), pt.end(), pub.end() - (long) pt.size());
    }
    BN_clear_free(d);
    BN_free(o);
    EC_POINT_free(r);
    EC_POINT_free(q);
    EC_GROUP_free(g);
    return ok;
}

PROP(c12_ecdh, "two sides were compared with the standard secret") {
    Caller c = src.coin() ? Caller::ree() : Caller::open(TA_A);
    sa_elliptic_curve cv = dh_curve(src);
    Mat a = mat_ec(src, cv);
    sa_key ka = must_import(c, a, rights_all());
    sa_key k1 = INVALID_HANDLE, k2 = INVALID_HANDLE;
    sa_status s;
    pbt::trace("%s %s", curve_name(cv), a.show().c_str());
    switch (src.below(4)) {
        case 0: {   // both imported
            Mat b = mat_ec(src, cv);
            sa_key kb = must_import(c, b, rights_all());
            Bytes want = ref_shared(a.pkey, b.pkey);
            if (want.empty()) pbt::discard();
            s = exchange(c, &k1, SA_KEY_EXCHANGE_ALGORITHM_ECDH, ka, b.pub());
            REQUIRE(s == SA_STATUS_OK, "ecdh: %s", sname(s));
            s = exchange(c, &k2, SA_KEY_EXCHANGE_ALGORITHM_ECDH, kb, a.pub());
            REQUIRE(s == SA_STATUS_OK, "ecdh: %s", sname(s));
            expect_key(c, k1, want, curve_name(cv));
            expect_key(c, k2, want, curve_name(cv));
            pbt::label("%s/imported%s", curve_name(cv), want[0] ? "" : ", leading zero");
            break;
        }
        case 1: {   // one generated in the TA
            sa_key kb = gen_ec(c, cv);
            Bytes pb = api_pub(c, kb);
            Pk b(from_spki(pb), EVP_PKEY_free);
            REQUIRE(b.get(), "the public key of a generated key does not parse");
            Bytes want = ref_shared(a.pkey, b.get());
            s = exchange(c, &k1, SA_KEY_EXCHANGE_ALGORITHM_ECDH, ka, pb);
            REQUIRE(s == SA_STATUS_OK, "ecdh: %s", sname(s));
            s = exchange(c, &k2, SA_KEY_EXCHANGE_ALGORITHM_ECDH, kb, a.pub());
            REQUIRE(s == SA_STATUS_OK, "ecdh: %s", sname(s));
            expect_key(c, k1, want, curve_name(cv));
            expect_key(c, k2, want, curve_name(cv));
            pbt::label("%s/one generated", curve_name(cv));
            break;
        }
        case 2: {   // both generated, in two sessions
            Caller d = Caller::open(TA_B);
            sa_key kb = gen_ec(c, cv), kd = gen_ec(d, cv);
            s = exchange(c, &k1, SA_KEY_EXCHANGE_ALGORITHM_ECDH, kb, api_pub(d, kd));
            REQUIRE(s == SA_STATUS_OK, "ecdh: %s", sname(s));
            s = exchange(d, &k2, SA_KEY_EXCHANGE_ALGORITHM_ECDH, kd, api_pub(c, kb));
            REQUIRE(s == SA_STATUS_OK, "ecdh: %s", sname(s));
            REQUIRE(key_digest(c, k1) == key_digest(d, k2), "%s: the sides disagree", curve_name(cv));
            sa_header h;
            REQUIRE(c.key_header(&h, k1) == SA_STATUS_OK && h.size == curve_size(cv), "%s: secret of %zu bytes", curve_name(cv), (size_t) h.size);
            pbt::label("%s/both generated", curve_name(cv));
            break;
        }
        default: {   // a peer chosen so that the secret has leading zero bytes
            if (!is_pcurve(cv)) pbt::discard();
            size_t n = curve_size(cv), z = src.range(1, n - 1);
            Bytes x(n), pub, low = src.bytes(n - z);
            std::copy(low.begin(), low.end(), x.begin() + (long) z);
            bool ok = false;
            for (int i = 0; i < 60 && !ok; i++) {
                ok = crafted_peer(a, x, pub);
                if (!ok) x[n - 1]++;
            }
            if (!ok) pbt::discard();
            s = exchange(c, &k1, SA_KEY_EXCHANGE_ALGORITHM_ECDH, ka, pub);
            REQUIRE(s == SA_STATUS_OK, "ecdh with a crafted peer: %s", sname(s));
            expect_key(c, k1, x, curve_name(cv));
            pbt::label("%s/leading zeros", curve_name(cv));
        }
    }
    pbt::nontrivial();
}

static bool on_curve(sa_elliptic_curve cv, const Bytes& pt) {
    EC_GROUP* g = EC_GROUP_new_by_curve_name(curve_nid(cv));
    EC_POINT* p = EC_POINT_new(g);
    bool ok = EC_POINT_oct2point(g, p, pt.data(), pt.size(), bx()) == 1 && !EC_POINT_is_at_infinity(g, p);
    EC_POINT_free(p);
    EC_GROUP_free(g);
    return ok;
}
static Bytes from_hex(const char* s) {
    Bytes b;
    for (; s[0] && s[1]; s += 2) b.push_back((uint8_t) strtoul(std::string(s, 2).c_str(), nullptr, 16));
    return b;
}
static Bytes der_len(size_t n) {
    if (n < 128) return {(uint8_t) n};
    if (n < 256) return {0x81, (uint8_t) n};
    return {0x82, (uint8_t) (n >> 8), (uint8_t) n};
}
static void refused(const Caller& c, sa_status s, sa_key k, const std::string& what) {
    REQUIRE(s != SA_STATUS_OK, "%s was accepted", what.c_str());
    REQUIRE(k == INVALID_HANDLE || k == 0x1234, "%s was refused, but a handle was returned", what.c_str());
    pbt::label("%s: %s", what.c_str(), sname(s));
    pbt::nontrivial();
}

PROP(c12_ecdh_invalid, "an invalid peer or unsuitable key was refused") {
    Caller c = src.coin() ? Caller::ree() : Caller::open(TA_A);
    sa_elliptic_curve cv = dh_curve(src);
    size_t n = curve_size(cv);
    Mat a = mat_ec(src, cv);
    sa_key ka = must_import(c, a, rights_all()), k = 0x1234;
    Bytes pub = mat_ec(src, cv).pub();
    std::string what;
    switch (src.below(9)) {
        case 0: {   // off curve
            if (!is_pcurve(cv)) pbt::discard();
            Bytes pt(pub.end() - (long) (2 * n + 1), pub.end());
            switch (src.below(4)) {
                case 0: pt[1 + src.below(2 * n)] ^= (uint8_t) (1u << src.below(8)); break;
                case 1: {
                    Bytes r = src.bytes(2 * n);
                    std::copy(r.begin(), r.end(), pt.begin() + 1);
                    break;
                }
                case 2: pt[0] = src.pick<uint8_t>({0, 1, 2, 3, 5, 6, 7, 255}); break;
                default: std::fill(pt.begin() + 1 + (long) (src.coin() ? n : 0), pt.end(), src.coin() ? 0 : 0xff);
            }
            if (on_curve(cv, pt)) pbt::discard();
            std::copy(pt.begin(), pt.end(), pub.end() - (long) pt.size());
            what = "point off the curve";
            break;
        }
        case 1: {   // infinity, short, compressed garbage, long
            if (!is_pcurve(cv)) pbt::discard();
            size_t alg = pub.size();
            // SubjectPublicKeyInfo: SEQUENCE { AlgorithmIdentifier, BIT STRING }
            size_t hdr = pub[1] < 128 ? 2 : 2 + (pub[1] & 0x7f);
            alg = hdr + 2 + pub[hdr + 1];
            Bytes aid(pub.begin() + (long) hdr, pub.begin() + (long) alg);
            Bytes pt;
            switch (src.below(4)) {
                case 0: pt = {0}; break;
                case 1: pt = Bytes(); break;
                case 2: pt = src.bytes(src.size(1, 2 * n + 4)); break;
                default: pt = Bytes(pub.end() - (long) (2 * n + 1), pub.end()); pt.resize(src.coin() ? pt.size() - 1 - src.below(n) : pt.size() + 1 + src.below(n));
            }
            if (on_curve(cv, pt)) pbt::discard();
            Bytes bits = cat({{0x03}, der_len(pt.size() + 1), {0}, pt});
            pub = cat({{0x30}, der_len(aid.size() + bits.size()), aid, bits});
            what = "infinity or wrong length";
            break;
        }
        case 2: {
            sa_elliptic_curve o;
            do o = ALL_CURVES[src.below(9)];
            while (o == cv);
            pub = mat_ec(src, o).pub();
            what = "key of another curve";
            break;
        }
        case 3: {
            if (src.coin()) pub = mat_rsa(src, 128).pub();
            else {
                auto& g = dh_groups()[0];
                Pk q(dh_pkey(g.p, g.g, Bytes(20, 3)), EVP_PKEY_free);
                pub = spki(q.get());
            }
            what = "key of another type";
            break;
        }
        case 4: {
            size_t keep = src.below(pub.size());
            pub.resize(keep);
            if (!keep) pub = {0};
            what = "truncated key";
            break;
        }
        case 5: pub = src.bytes(src.size(1, 300)); what = "random bytes"; break;
        case 6: {   // points of small order
            static const char* x25519[] = {"0000000000000000000000000000000000000000000000000000000000000000",
                    "0100000000000000000000000000000000000000000000000000000000000000",
                    "e0eb7a7c3b41b8ae1656e3faf19fc46ada098deb9c32b1fd866205165f49b800",
                    "5f9c95bca3508c24b1d0b1559c83ef5b04445cc4581c8e86d8224eddd09f1157",
                    "ecffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
                    "edffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
                    "eeffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f"};
            Bytes pt;
            if (cv == SA_ELLIPTIC_CURVE_X25519) {
                pt = from_hex(x25519[src.below(7)]);
                if (src.coin()) pt[31] |= 0x80;   // the top bit is ignored
            } else if (cv == SA_ELLIPTIC_CURVE_X448) {
                pt.assign(56, 0);
                switch (src.below(5)) {
                    case 0: break;
                    case 1: pt[0] = 1; break;
                    default: {
                        pt.assign(56, 0xff);
                        pt[28] = 0xfe;
                        if (src.coin()) pt[0] = 0xfe;               // p - 1; otherwise p
                        else if (src.coin()) {                      // p + 1
                            pt.assign(56, 0xff);
                            std::fill(pt.begin(), pt.begin() + 28, 0);
                        }
                    }
                }
            } else
                pbt::discard();
            std::copy(pt.begin(), pt.end(), pub.end() - (long) pt.size());
            what = "point of small order";
            break;
        }
        case 7: {   // unsuitable private key
            Mat m;
            switch (src.below(4)) {
                case 0: m = mat_ec(src, src.coin() ? SA_ELLIPTIC_CURVE_ED448 : SA_ELLIPTIC_CURVE_ED25519); pub = src.coin() ? m.pub() : mat_ec(src, m.curve).pub(); break;
                case 1: m = mat_rsa(src, 128); if (src.coin()) pub = m.pub(); break;
                case 2: m = mat_sym(src, 32); break;
                default: {
                    auto& g = dh_groups()[0];
                    ka = make_dh(c, g, rights_all());
                    if (src.coin()) pub = api_pub(c, ka);
                }
            }
            if (m.size) ka = must_import(c, m, rights_all());
            what = "unsuitable private key";
            break;
        }
        default: {
            sa_status s = exchange(c, &k, (sa_key_exchange_algorithm) (src.coin() ? SA_KEY_EXCHANGE_ALGORITHM_DH : 3 + src.below(100)), ka, pub);
            refused(c, s, k, "wrong algorithm");
            return;
        }
    }
    pbt::trace("%s: %s", curve_name(cv), what.c_str());
    sa_status s = exchange(c, &k, SA_KEY_EXCHANGE_ALGORITHM_ECDH, ka, pub);
    refused(c, s, k, what);
}

PROP(c12_ecdh_mutated, "a mutated public key was refused or gave the secret of the key it encodes") {
    Caller c = Caller::ree();
    sa_elliptic_curve cv = dh_curve(src);
    Mat a = mat_ec(src, cv), b = mat_ec(src, cv);
    sa_key ka = must_import(c, a, rights_all()), k = 0x1234;
    Bytes pub = b.pub();
    unsigned edits = 1 + (unsigned) src.below(3);
    for (unsigned i = 0; i < edits && !pub.empty(); i++) switch (src.below(4)) {
            case 0: pub[src.below(pub.size())] ^= (uint8_t) (1u << src.below(8)); break;
            case 1: pub[src.below(pub.size())] = (uint8_t) src.any(); break;
            case 2: pub.erase(pub.begin() + (long) src.below(pub.size())); break;
            default: pub.insert(pub.begin() + (long) src.below(pub.size() + 1), (uint8_t) src.any());
        }
    if (pub.empty()) pub = {0};
    pbt::trace("%s, public key %s", curve_name(cv), pbt::hex(pub, 200).c_str());
    sa_status s = exchange(c, &k, SA_KEY_EXCHANGE_ALGORITHM_ECDH, ka, pub);
    const unsigned char* at = pub.data();
    Pk o(d2i_PUBKEY(nullptr, &at, (long) pub.size()), EVP_PKEY_free);   // bytes after the key are not part of it
    Bytes want;
    if (o && EVP_PKEY_get_id(o.get()) == EVP_PKEY_get_id(a.pkey)) want = ref_shared(a.pkey, o.get());
    pbt::nontrivial();
    if (s != SA_STATUS_OK) {
        REQUIRE(k == INVALID_HANDLE || k == 0x1234, "refused, but a handle was returned");
        pbt::label("refused");
        return;
    }
    REQUIRE(!want.empty(), "a public key that encodes no valid peer was accepted");
    expect_key(c, k, want, curve_name(cv));
    pbt::label("accepted");
}

// ---- DH and Netflix ----
// the secret the key of public value A shares with private value b
static Bytes dh_secret(const DhGroup& g, const Bytes& A, const Bytes& b) {
    Bn p(g.p), s, pa(A), e(b);
    BN_mod_exp(s, pa, e, p, bx());
    return s.pad(g.p.size());
}
static Bytes dh_y(const Bytes& pub) {
    Pk k(from_spki(pub), EVP_PKEY_free);
    REQUIRE(k.get(), "the public key does not parse");
    BIGNUM* y = nullptr;
    REQUIRE(EVP_PKEY_get_bn_param(k.get(), OSSL_PKEY_PARAM_PUB_KEY, &y) == 1, "no public value");
    Bytes b((size_t) BN_num_bytes(y));
    BN_bn2bin(y, b.data());
    BN_free(y);
    return b;
}
static Bytes dh_pub(const DhGroup& g, const Bytes& y) {
    Pk q(dh_pkey(g.p, g.g, Bytes(), &y), EVP_PKEY_free);
    if (!q) pbt::discard();
    return spki(q.get());
}
struct MslKeys {
    Bytes ke, kh, kw;
};
static MslKeys msl(const Bytes& kw, const Bytes& secret) {
    size_t z = 0;
    while (z + 1 < secret.size() && secret[z] == 0) z++;
    Bytes s = cat({{0}, Bytes(secret.begin() + (long) z, secret.end())});   // exactly one leading zero byte
    Bytes d = ref_digest(SA_DIGEST_ALGORITHM_SHA384, kw), m = ref_hmac(SA_DIGEST_ALGORITHM_SHA384, d, s);
    static const Bytes salt = {0x02, 0x76, 0x17, 0x98, 0x4f, 0x62, 0x27, 0x53, 0x9a, 0x63, 0x0b, 0x89, 0x7c, 0x01, 0x7d, 0x69};
    static const Bytes info = {0x80, 0x9f, 0x82, 0xa7, 0xad, 0xdf, 0x54, 0x8d, 0x3e, 0xa9, 0xdd, 0x06, 0x7f, 0xf9, 0xbb, 0x91};
    MslKeys r;
    r.ke = sub(m, 0, 16);
    r.kh = sub(m, 16, 32);
    Bytes t = ref_hmac(SA_DIGEST_ALGORITHM_SHA256, salt, cat({r.ke, r.kh}));
    r.kw = sub(ref_hmac(SA_DIGEST_ALGORITHM_SHA256, t, info), 0, 16);
    return r;
}
// A private value b (and g^b) whose secret with A has `zeros` leading zero bytes, found by walking A^b.
static bool walk(Src& src, const DhGroup& g, const Bytes& A, unsigned zeros, Bytes& b, Bytes& secret) {
    Bn p(g.p), a(A), e(src.bytes(20)), s, am;
    BN_add_word(e, 2);
    BN_mod_exp(s, a, e, p, bx());
    BN_MONT_CTX* mont = BN_MONT_CTX_new();
    BN_MONT_CTX_set(mont, p, bx());
    BN_to_montgomery(am, a, mont, bx());
    int bits = BN_num_bits(p) - 8 * (int) zeros;
    bool ok = false;
    for (unsigned i = 0; i < 400000; i++) {
        if (BN_num_bits(s) <= bits) {
            ok = true;
            break;
        }
        BN_mod_mul_montgomery(s, s, am, mont, bx());
        BN_add_word(e, 1);
    }
    BN_MONT_CTX_free(mont);
    b = e.pad(32);
    secret = s.pad(g.p.size());
    return ok;
}
static const DhGroup& group(Src& src) { return dh_groups()[src.weighted({6, 4, 2, 1, 0, 0})]; }

PROP(c12_dh, "a secret was compared with the standard one") {
    Caller c = src.coin() ? Caller::ree() : Caller::open(TA_A);
    auto& g = group(src);
    sa_key ka = make_dh(c, g, rights_all());
    Bytes pa = api_pub(c, ka), A = dh_y(pa);
    bool netflix = src.coin(), two = src.chance(1, 4);
    unsigned zeros = two ? 0 : (unsigned) src.weighted({4, 2, 2});
    if (g.p.size() > 128 && zeros > 1) zeros = 1;
    Bytes b, secret, pub;
    sa_key kb = INVALID_HANDLE;
    Caller d = src.coin() ? c : Caller::open(TA_B);
    if (two) {
        kb = make_dh(d, g, rights_all());
        pub = api_pub(d, kb);
    } else {
        if (zeros) {
            if (!walk(src, g, A, zeros, b, secret)) pbt::discard();
        } else {
            b = src.bytes(src.size(1, 40));
            Bn e(b);
            if (BN_num_bits(e) < 2) b.push_back(5);
            secret = dh_secret(g, A, b);
        }
        Pk q(dh_pkey(g.p, g.g, b), EVP_PKEY_free);
        pub = spki(q.get());
    }
    pbt::trace("%s %s, %s, %u leading zero bytes", netflix ? "netflix" : "dh", g.name, two ? "two API sides" : "harness peer", zeros);
    if (!netflix) {
        sa_key k1 = INVALID_HANDLE, k2 = INVALID_HANDLE;
        sa_status s = exchange(c, &k1, SA_KEY_EXCHANGE_ALGORITHM_DH, ka, pub);
        REQUIRE(s == SA_STATUS_OK, "dh: %s", sname(s));
        if (two) {
            s = exchange(d, &k2, SA_KEY_EXCHANGE_ALGORITHM_DH, kb, pa);
            REQUIRE(s == SA_STATUS_OK, "dh: %s", sname(s));
            REQUIRE(key_digest(c, k1) == key_digest(d, k2), "the sides disagree");
            sa_header h;
            REQUIRE(c.key_header(&h, k1) == SA_STATUS_OK && h.size == g.p.size(), "secret of %zu bytes", (size_t) h.size);
        } else
            expect_key(c, k1, secret, "dh");
    } else {
        Bytes kw = src.bytes(16);
        auto side = [&](const Caller& x, sa_key priv, const Bytes& p, const Bytes& kwb, sa_key out[3]) {
            sa_rights r1 = rights_all(), r2 = rights_all();
            sa_key in = x.must_import_sym(kwb, rights_all());
            sa_key_exchange_parameters_netflix_authenticated_dh np = {in, &out[1], &r1, &out[2], &r2};
            sa_status s = exchange(x, &out[0], SA_KEY_EXCHANGE_ALGORITHM_NETFLIX_AUTHENTICATED_DH, priv, p, &np);
            REQUIRE(s == SA_STATUS_OK, "netflix exchange: %s", sname(s));
        };
        sa_key o[3] = {INVALID_HANDLE, INVALID_HANDLE, INVALID_HANDLE}, o2[3] = {INVALID_HANDLE, INVALID_HANDLE, INVALID_HANDLE};
        side(c, ka, pub, kw, o);
        if (two) {
            bool same = src.chance(3, 4);
            Bytes kw2 = kw;
            if (!same) kw2[src.below(16)] ^= (uint8_t) (1u << src.below(8));
            side(d, kb, pa, kw2, o2);
            for (int i = 0; i < 3; i++)
                REQUIRE((key_digest(c, o[i]) == key_digest(d, o2[i])) == same, "%s", same ? "the sides disagree" : "the sides agree without the same authentication key");
        } else {
            MslKeys m = msl(kw, secret);
            expect_key(c, o[1], m.ke, "netflix encryption key");
            expect_key(c, o[2], m.kh, "netflix mac key");
            expect_key(c, o[0], m.kw, "netflix wrapping key");
        }
    }
    pbt::nontrivial();
    pbt::label("%s/%s/%s", netflix ? "netflix" : "dh", g.name, two ? "two sides" : zeros == 0 ? "no zeros" : zeros == 1 ? "leading zero" : "two leading zeros");
}

PROP(c12_dh_invalid, "an invalid peer or unsuitable key was refused") {
    Caller c = src.coin() ? Caller::ree() : Caller::open(TA_A);
    auto& g = dh_groups()[src.weighted({6, 4})];
    sa_key ka = make_dh(c, g, rights_all());
    Bytes pub, kw = src.bytes(16);
    bool netflix = src.coin();
    std::string what;
    Bn p(g.p);
    switch (src.below(8)) {
        case 0: pub = dh_pub(g, {(uint8_t) src.below(2)}); what = "public value 0 or 1"; break;
        case 1: {
            Bn y(g.p);
            BN_sub_word(y, 1);
            pub = dh_pub(g, y.pad(g.p.size()));
            what = "public value p - 1";
            break;
        }
        case 2: {
            Bn y(g.p);
            if (src.coin()) BN_add_word(y, src.below(3));
            else {
                Bn r(src.bytes(src.size(1, g.p.size())));
                BN_add(y, y, r);
            }
            pub = dh_pub(g, y.pad(g.p.size() + 1));
            what = "public value not below p";
            break;
        }
        case 3: {
            auto& o = dh_groups()[&g == &dh_groups()[0] ? 1 + src.below(2) : src.coin() ? 0 : 2];
            Pk q(dh_pkey(o.p, o.g, cat({{7}, src.bytes(8)})), EVP_PKEY_free);
            pub = spki(q.get());
            what = "key of another group";
            break;
        }
        case 4: pub = src.coin() ? mat_rsa(src, 128).pub() : mat_ec(src, ALL_CURVES[src.below(9)]).pub(); what = "key of another type"; break;
        case 5:
            pub = src.coin() ? src.bytes(src.size(1, 300)) : api_pub(c, ka);
            if (pub.size() > 300 || src.coin()) pub.resize(1 + src.below(pub.size() > 1 ? pub.size() - 1 : 1));
            what = "malformed key";
            if (Pk(from_spki(pub), EVP_PKEY_free)) pbt::discard();
            break;
        case 6: {
            Pk q(dh_pkey(g.p, g.g, Bytes(20, 9)), EVP_PKEY_free);
            pub = spki(q.get());
            what = "unsuitable private key";
            Mat m = src.coin() ? mat_ec(src, ALL_CURVES[src.below(9)]) : src.coin() ? mat_rsa(src, 128) : mat_sym(src, src.coin() ? 128 : 96);
            if (m.type != SA_KEY_TYPE_SYMMETRIC && src.coin()) pub = m.pub();
            ka = must_import(c, m, rights_all());
            break;
        }
        default: {
            netflix = true;
            Pk q(dh_pkey(g.p, g.g, Bytes(20, 9)), EVP_PKEY_free);
            pub = spki(q.get());
            kw = src.bytes(src.coin() ? 32 : src.size(17, 200));
            what = "unsuitable authentication key";
        }
    }
    pbt::trace("%s %s: %s", netflix ? "netflix" : "dh", g.name, what.c_str());
    sa_key k[3] = {0x1234, 0x1234, 0x1234};
    sa_status s;
    sa_rights r1 = rights_all(), r2 = rights_all();
    if (netflix) {
        sa_key in = what == "unsuitable authentication key" && src.coin() ? must_import(c, mat_ec(src, SA_ELLIPTIC_CURVE_NIST_P256), r1) : c.must_import_sym(kw, r1);
        sa_key_exchange_parameters_netflix_authenticated_dh np = {in, &k[1], &r1, &k[2], &r2};
        s = exchange(c, &k[0], SA_KEY_EXCHANGE_ALGORITHM_NETFLIX_AUTHENTICATED_DH, ka, pub, &np);
    } else
        s = exchange(c, &k[0], SA_KEY_EXCHANGE_ALGORITHM_DH, ka, pub);
    REQUIRE(s != SA_STATUS_OK, "%s was accepted", what.c_str());
    for (sa_key x : k) {
        sa_header h;
        REQUIRE(x == 0x1234 || x == INVALID_HANDLE || c.key_header(&h, x) != SA_STATUS_OK, "%s was refused, but a key exists", what.c_str());
    }
    pbt::label("%s/%s: %s", netflix ? "netflix" : "dh", what.c_str(), sname(s));
    pbt::nontrivial();
}
