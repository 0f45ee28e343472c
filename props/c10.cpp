// C10: every signature returned as OK verifies under the key's public component.
#include "sig.hpp"
using namespace sec;

// Which key kinds the scheme works with, and with which parameters.
static bool servable(const Params& p, const Mat& m, size_t in_len, size_t* len) {
    if (p.alg == SA_SIGNATURE_ALGORITHM_RSA_PSS || p.alg == SA_SIGNATURE_ALGORITHM_RSA_PKCS1V15) {
        *len = m.size;
        if (m.type != SA_KEY_TYPE_RSA || !known_digest(p.d)) return false;
        if (p.alg == SA_SIGNATURE_ALGORITHM_RSA_PSS) {
            if (!known_digest(p.m)) return false;
            if (p.salt > m.size - md_len(p.d) - 2) return false;
        }
        return !p.pre || in_len == md_len(p.d);
    }
    if (m.type != SA_KEY_TYPE_EC) return false;
    *len = 2 * m.size;
    if (p.alg == SA_SIGNATURE_ALGORITHM_EDDSA) return is_ed(m.curve);
    return is_pcurve(m.curve) && known_digest(p.d) && (!p.pre || in_len == md_len(p.d));
}
static sa_key make_dh_key(const Caller& c) {
    auto& g = dh_groups()[0];
    sa_rights r = rights_all();
    sa_generate_parameters_dh p = {g.p.data(), g.p.size(), g.g.data(), g.g.size()};
    sa_key k = INVALID_HANDLE;
    sa_status s = c.key_generate(&k, &r, SA_KEY_TYPE_DH, &p);
    if (s != SA_STATUS_OK) pbt::fail("generate dh: %s", sname(s));
    return k;
}
static void one(Src& src, bool suitable) {
    Caller c = src.coin() ? Caller::ree() : Caller::open(TA_A);
    Params p;
    p.alg = src.pick({SA_SIGNATURE_ALGORITHM_RSA_PKCS1V15, SA_SIGNATURE_ALGORITHM_RSA_PSS, SA_SIGNATURE_ALGORITHM_ECDSA, SA_SIGNATURE_ALGORITHM_EDDSA});
    p.d = ALL_DIGESTS[src.below(4)];
    p.m = src.coin() ? p.d : ALL_DIGESTS[src.below(4)];
    p.pre = p.alg != SA_SIGNATURE_ALGORITHM_EDDSA && src.chance(2, 5);
    Mat m;
    bool rsa = p.alg == SA_SIGNATURE_ALGORITHM_RSA_PKCS1V15 || p.alg == SA_SIGNATURE_ALGORITHM_RSA_PSS, generated = false;
    sa_key k = INVALID_HANDLE;
    bool fit = suitable || src.coin();
    if (fit ? rsa : src.chance(1, 3)) m = mat_rsa(src, src.weighted({6, 4, 1}) == 0 ? 128 : src.coin() ? 256 : src.pick({384, 512}));
    else if (fit || src.coin()) {
        sa_elliptic_curve cv = ALL_CURVES[src.below(9)];
        if (fit && p.alg == SA_SIGNATURE_ALGORITHM_ECDSA && !is_pcurve(cv)) cv = SA_ELLIPTIC_CURVE_NIST_P256;
        if (fit && p.alg == SA_SIGNATURE_ALGORITHM_EDDSA && !is_ed(cv)) cv = src.coin() ? SA_ELLIPTIC_CURVE_ED448 : SA_ELLIPTIC_CURVE_ED25519;
        if (src.chance(1, 4)) {
            sa_rights r = rights_all();
            sa_generate_parameters_ec gp = {cv};
            sa_status s = c.key_generate(&k, &r, SA_KEY_TYPE_EC, &gp);
            REQUIRE(s == SA_STATUS_OK, "generate %s: %s", curve_name(cv), sname(s));
            m.type = SA_KEY_TYPE_EC;
            m.curve = cv;
            m.size = curve_size(cv);
            generated = true;
        } else
            m = mat_ec(src, cv);
    } else if (src.chance(3, 4))
        m = mat_sym(src, src.size(16, 512));
    else {
        m.type = SA_KEY_TYPE_DH;
        k = make_dh_key(c);
        generated = true;
    }
    if (k == INVALID_HANDLE) k = must_import(c, m, rights_all());
    size_t max_salt = rsa && m.type == SA_KEY_TYPE_RSA ? m.size - md_len(p.d) - 2 : 0;
    switch (src.below(6)) {
        case 0: p.salt = 0; break;
        case 1: p.salt = md_len(p.d); break;
        case 2: p.salt = max_salt; break;
        case 3: p.salt = src.below(max_salt + 1); break;
        case 4: p.salt = max_salt + (suitable ? 0 : 1 + src.below(8)); break;
        default:
            p.salt = suitable ? max_salt / 2
                              : src.pick<size_t>({0x7fffffff, 0x80000000, 0xffffffff, 0xfffffffe, 0xfffffffd, SIZE_MAX, SIZE_MAX - 1, SIZE_MAX - 2, 0x100000000ULL, 0x100000020ULL});
            break;
    }
    if (p.salt > max_salt && suitable) p.salt = max_salt;
    if (!suitable && src.chance(1, 4)) p.d = (sa_digest_algorithm) (src.coin() ? 4 + src.below(4) : src.any());
    if (!suitable && src.chance(1, 6)) p.m = (sa_digest_algorithm) (src.coin() ? 4 + src.below(4) : src.any());
    size_t n_in = p.pre && known_digest(p.d) ? md_len(p.d) : src.chance(1, 40) ? src.large() : src.size(0, 300);
    if (!suitable && p.pre && src.coin()) n_in = src.pick<size_t>({0, 1, 16, 20, 32, 48, 64, n_in + 1, n_in ? n_in - 1 : 0, 100, 200, 600});
    Bytes in = src.bytes(n_in);
    size_t len = 0;
    bool can = servable(p, m, n_in, &len);
    pbt::trace("%s d=%d mgf=%d pre=%d salt=%zu in=%zu key %s", alg_str(p.alg), (int) p.d, (int) p.m, p.pre, p.salt, n_in, generated ? "generated" : m.show().c_str());
    if (can) {
        size_t q = 0;
        sa_status s = do_sign(c, k, p, in, nullptr, &q);
        REQUIRE(s == SA_STATUS_OK && q == len, "length query gives %zu (%s), expected %zu", q, sname(s), len);
    }
    size_t room = len + (src.coin() ? 0 : src.below(30));
    if (!can) room = src.pick<size_t>({len, 512, 600});
    Guarded g(room);
    size_t n = room;
    sa_status s = do_sign(c, k, p, in, g.data(), &n);
    REQUIRE(g.intact(), "signature written outside the buffer");
    if (!can) {
        REQUIRE(s != SA_STATUS_OK, "%s reported success although key, digest or lengths cannot serve it", alg_str(p.alg));
        pbt::label("%s/rejected", alg_str(p.alg));
        if (!suitable) pbt::nontrivial();
        return;
    }
    REQUIRE(s == SA_STATUS_OK, "sign: %s", sname(s));
    REQUIRE(n == len, "signature length %zu, expected %zu", n, len);
    REQUIRE(g.untouched(len, room), "bytes after the signature were written");
    Bytes sig = g.get(0, n);
    Bytes pub(1024);
    size_t pn = 1024;
    s = c.key_get_public(pub.data(), &pn, k);
    REQUIRE(s == SA_STATUS_OK, "get_public: %s", sname(s));
    pub.resize(pn);
    if (!generated) REQUIRE(pub == m.pub(), "another public key");
    std::unique_ptr<EVP_PKEY, void (*)(EVP_PKEY*)> pk(from_spki(pub), EVP_PKEY_free);
    REQUIRE(pk.get(), "public key does not parse");
    REQUIRE(verify(pk.get(), p, in, sig), "the %s signature does not verify", alg_str(p.alg));
    // not for another message, nor as another scheme
    size_t ecdsa_order = p.alg == SA_SIGNATURE_ALGORITHM_ECDSA ? m.size : 0;
    Bytes other = in;
    if (other.empty() || (!p.pre && src.chance(1, 4))) {
        if (p.pre) other = Bytes(n_in, 0);
        else other.push_back(0);
    } else
        // (ECDSA signs the leading bits of a digest longer than the curve order)
        other[src.below(p.pre && ecdsa_order ? std::min(other.size(), ecdsa_order) : other.size())] ^= (uint8_t) (1u << src.below(8));
    REQUIRE(!verify(pk.get(), p, other, sig), "the signature verifies for another message");
    Params q = p;
    if (p.alg != SA_SIGNATURE_ALGORITHM_EDDSA && !p.pre) {
        do q.d = ALL_DIGESTS[src.below(4)];
        while (q.d == p.d);
        bool fits = p.alg != SA_SIGNATURE_ALGORITHM_RSA_PSS || p.salt + md_len(q.d) + 2 <= m.size;
        if (fits) REQUIRE(!verify(pk.get(), q, in, sig), "the signature verifies under another digest");
    }
    if (p.alg == SA_SIGNATURE_ALGORITHM_RSA_PSS) {
        q = p;
        q.salt = p.salt ? p.salt - 1 : 1;
        if (q.salt <= max_salt) REQUIRE(!verify(pk.get(), q, in, sig), "the signature verifies with another salt length");
        q = p;
        do q.m = ALL_DIGESTS[src.below(4)];
        while (q.m == p.m);
        REQUIRE(!verify(pk.get(), q, in, sig), "the signature verifies with another MGF1 digest");
    }
    // deterministic schemes give the same bytes again, signing a digest equals signing the message
    if (p.alg == SA_SIGNATURE_ALGORITHM_EDDSA || p.alg == SA_SIGNATURE_ALGORITHM_RSA_PKCS1V15) {
        Params p2 = p;
        Bytes in2 = in;
        if (p.alg == SA_SIGNATURE_ALGORITHM_RSA_PKCS1V15 && !p.pre) {
            p2.pre = true;
            in2 = ref_digest(p.d, in);
        }
        Guarded g2(len);
        n = len;
        s = do_sign(c, k, p2, in2, g2.data(), &n);
        REQUIRE(s == SA_STATUS_OK && g2.get(0, n) == sig, "signing again gives another signature (%s)", sname(s));
    }
    if (len) {
        size_t small = src.below(len);
        Guarded g3(small);
        n = small;
        s = do_sign(c, k, p, in, g3.data(), &n);
        REQUIRE(s == SA_STATUS_INVALID_PARAMETER, "a buffer of %zu of %zu bytes: %s", small, len, sname(s));
        REQUIRE(g3.intact(), "short buffer overrun");
    }
    pbt::label("%s%s", alg_str(p.alg), p.pre ? "/precomputed" : "");
    pbt::nontrivial();
}
PROP(c10_sign, "a signature was produced and verified against the reported public key") { one(src, true); }
PROP(c10_unsuitable, "the parameters or key cannot serve the scheme, or a signature was produced and verified") { one(src, false); }
