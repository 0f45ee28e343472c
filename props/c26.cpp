// C26: generated keys are fresh, have exactly the requested shape, and their header, digest, public component and private
// operations belong to one key; random output fills exactly the requested bytes; what is unsupported is refused.
#include "sig.hpp"
#include <openssl/core_names.h>
#include <openssl/dh.h>
#include <openssl/err.h>
#include <sys/mman.h>
using namespace sec;

namespace {
Bytes public_of(const Caller& c, sa_key k) {
    size_t n = 0;
    sa_status s = c.key_get_public(nullptr, &n, k);
    REQUIRE(s == SA_STATUS_OK, "get_public (length): %s", sname(s));
    Guarded g(n);
    size_t m = n;
    s = c.key_get_public(g.data(), &m, k);
    REQUIRE(s == SA_STATUS_OK && m == n, "get_public: %s, %zu of %zu bytes", sname(s), m, n);
    REQUIRE(g.intact(), "get_public wrote outside the buffer");
    return g.get(0, n);
}
Bytes param(EVP_PKEY* k, const char* name) {
    BIGNUM* n = nullptr;
    if (EVP_PKEY_get_bn_param(k, name, &n) != 1) {
        ERR_clear_error();
        return Bytes();
    }
    Bytes b((size_t) BN_num_bytes(n));
    BN_bn2bin(n, b.data());
    BN_free(n);
    return b;
}
Bytes stripped(Bytes b) {
    size_t i = 0;
    while (i < b.size() && !b[i]) i++;
    return sub(b, i, b.size() - i);
}
// The digest of the key is that of `want`, under every algorithm, and a MAC with the key is the MAC with `want`.
void check_sym(Src& src, const Caller& c, sa_key k, const Bytes& want) {
    for (auto d : ALL_DIGESTS) {
        size_t n = 0;
        REQUIRE(c.key_digest(nullptr, &n, k, d) == SA_STATUS_OK && n == md_len(d), "digest length %zu for algorithm %d", n, (int) d);
        Guarded g(n);
        REQUIRE(c.key_digest(g.data(), &n, k, d) == SA_STATUS_OK && n == md_len(d), "digest of %zu bytes", n);
        REQUIRE(g.intact() && g.get(0, n) == ref_digest(d, want), "digest %d is not that of the key", (int) d);
    }
    Bytes msg = src.bytes(src.size(0, 60));
    auto d = ALL_DIGESTS[src.below(4)];
    sa_crypto_mac_context m = INVALID_HANDLE;
    sa_mac_parameters_hmac hp = {d};
    Guarded g(md_len(d));
    size_t n = g.n;
    REQUIRE(c.mac_init(&m, SA_MAC_ALGORITHM_HMAC, k, &hp) == SA_STATUS_OK && c.mac_process(m, msg.data(), msg.size()) == SA_STATUS_OK &&
                    c.mac_compute(g.data(), &n, m) == SA_STATUS_OK, "hmac with the key");
    c.mac_release(m);
    REQUIRE(g.get(0, n) == ref_hmac(d, want, msg), "a MAC with the key is not the MAC with the key that was digested");
    if (want.size() == 16 || want.size() == 32) {
        sa_crypto_cipher_context x = INVALID_HANDLE;
        Bytes in = src.bytes(16);
        Guarded o(16);
        Exact e(in);
        sa_buffer ib = clear_buf(e.p, 16), ob = clear_buf(o.data(), 16);
        n = 16;
        REQUIRE(c.cipher_init(&x, SA_CIPHER_ALGORITHM_AES_ECB, SA_CIPHER_MODE_ENCRYPT, k, nullptr) == SA_STATUS_OK &&
                        c.cipher_process(&ob, x, &ib, &n) == SA_STATUS_OK, "encryption with the key");
        c.cipher_release(x);
        REQUIRE(o.get(0, 16) == aes_ecb(want, in, true), "encryption with the key is not encryption with the key that was digested");
    }
}
// The public component is of the requested kind, and private operations of the key match it.
void check_asym(Src& src, const Caller& c, sa_key k, sa_key_type t, sa_elliptic_curve cv, size_t modulus, const Bytes* p, const Bytes* gg) {
    Bytes der = public_of(c, k);
    EVP_PKEY* pub = from_spki(der);
    REQUIRE(pub != nullptr, "the public component is not a public key");
    std::shared_ptr<EVP_PKEY> own(pub, EVP_PKEY_free);
    EVP_PKEY_CTX* pc = EVP_PKEY_CTX_new(pub, nullptr);
    int ok = EVP_PKEY_public_check(pc);
    EVP_PKEY_CTX_free(pc);
    bool safe_group = t != SA_KEY_TYPE_DH;
    REQUIRE(ok == 1 || !safe_group, "the public component is not valid");
    ERR_clear_error();
    Bytes msg = src.bytes(src.size(0, 100));
    Params sp;
    sp.d = sp.m = ALL_DIGESTS[src.below(4)];
    if (t == SA_KEY_TYPE_RSA) {
        REQUIRE(EVP_PKEY_get_base_id(pub) == EVP_PKEY_RSA && (size_t) EVP_PKEY_get_bits(pub) == modulus * 8, "RSA key of %d bits", EVP_PKEY_get_bits(pub));
        sp.alg = src.coin() ? SA_SIGNATURE_ALGORITHM_RSA_PSS : SA_SIGNATURE_ALGORITHM_RSA_PKCS1V15;
        if (modulus == 128 && sp.alg == SA_SIGNATURE_ALGORITHM_RSA_PSS && sp.d == SA_DIGEST_ALGORITHM_SHA512) sp.salt = 20;
    } else if (t == SA_KEY_TYPE_EC) {
        if (is_pcurve(cv)) {
            REQUIRE(EVP_PKEY_get_base_id(pub) == EVP_PKEY_EC, "not an EC key");
            char name[80] = "";
            size_t nn;
            REQUIRE(EVP_PKEY_get_utf8_string_param(pub, OSSL_PKEY_PARAM_GROUP_NAME, name, sizeof name, &nn) == 1 && OBJ_sn2nid(name) == curve_nid(cv),
                    "key on curve %s", name);
            sp.alg = SA_SIGNATURE_ALGORITHM_ECDSA;
        } else {
            REQUIRE(EVP_PKEY_get_base_id(pub) == curve_nid(cv), "key on curve %d", EVP_PKEY_get_base_id(pub));
            sp.alg = SA_SIGNATURE_ALGORITHM_EDDSA;
        }
    }
    if (t != SA_KEY_TYPE_DH && !(t == SA_KEY_TYPE_EC && is_x(cv))) {
        Guarded g(600);
        size_t n = 600;
        sa_status s = do_sign(c, k, sp, msg, g.data(), &n);
        REQUIRE(s == SA_STATUS_OK, "signing with the key: %s", sname(s));
        REQUIRE(verify(pub, sp, msg, g.get(0, n)), "a signature of the key does not verify with its public component");
    }
    if (t == SA_KEY_TYPE_DH) {
        REQUIRE(param(pub, OSSL_PKEY_PARAM_FFC_P) == stripped(*p) && param(pub, OSSL_PKEY_PARAM_FFC_G) == stripped(*gg), "public component of another group");
        Bytes y = param(pub, OSSL_PKEY_PARAM_PUB_KEY);
        REQUIRE(!y.empty() && (y.size() > 1 || y[0] > 1), "public value 0 or 1");
    }
    if (t == SA_KEY_TYPE_DH || (t == SA_KEY_TYPE_EC && !is_ed(cv))) {
        EVP_PKEY* mine = t == SA_KEY_TYPE_DH ? dh_pkey(*p, *gg, src.bytes(32)) : nullptr;
        EVP_PKEY* other = mine ? mine : peer(cv).pkey;
        Bytes z = ref_shared(other, pub), pb = spki(other);
        EVP_PKEY_free(mine);
        sa_rights r = rights_all();
        sa_key sk = INVALID_HANDLE;
        sa_status s = c.key_exchange(&sk, &r, t == SA_KEY_TYPE_DH ? SA_KEY_EXCHANGE_ALGORITHM_DH : SA_KEY_EXCHANGE_ALGORITHM_ECDH, k, pb.data(),
                pb.size(), nullptr);
        REQUIRE(s == SA_STATUS_OK, "exchange with the key: %s", sname(s));
        REQUIRE(key_digest(c, sk) == ref_digest(SA_DIGEST_ALGORITHM_SHA256, z), "the shared secret is not the one of the public component");
        c.key_release(sk);
    }
    if (t == SA_KEY_TYPE_RSA) {
        // decryption
        EVP_PKEY_CTX* x = EVP_PKEY_CTX_new(pub, nullptr);
        Bytes plain = src.bytes(src.size(1, 40)), ct(modulus);
        size_t n = modulus;
        if (EVP_PKEY_encrypt_init(x) != 1 || EVP_PKEY_CTX_set_rsa_padding(x, RSA_PKCS1_PADDING) != 1 ||
                EVP_PKEY_encrypt(x, ct.data(), &n, plain.data(), plain.size()) != 1)
            pbt::fail("harness: encryption");
        EVP_PKEY_CTX_free(x);
        sa_crypto_cipher_context h = INVALID_HANDLE;
        Guarded o(modulus);
        sa_buffer ib = clear_buf(ct.data(), n), ob = clear_buf(o.data(), modulus);
        REQUIRE(c.cipher_init(&h, SA_CIPHER_ALGORITHM_RSA_PKCS1V15, SA_CIPHER_MODE_DECRYPT, k, nullptr) == SA_STATUS_OK, "decryption with the key");
        sa_status s = c.cipher_process(&ob, h, &ib, &n);
        REQUIRE(s == SA_STATUS_OK, "decryption with the key: %s", sname(s));
        c.cipher_release(h);
        REQUIRE(ob.context.clear.offset == plain.size() && o.get(0, plain.size()) == plain, "decryption with the key");
    }
}
void check_header(const Caller& c, sa_key k, sa_key_type t, size_t size, const sa_rights& r, sa_elliptic_curve cv, const Bytes* p, const Bytes* g) {
    sa_header h;
    memset(&h, 0x5a, sizeof h);
    sa_status s = c.key_header(&h, k);
    REQUIRE(s == SA_STATUS_OK, "header: %s", sname(s));
    REQUIRE(h.type == t && h.size == size, "header says type %d of %d bytes", (int) h.type, (int) h.size);
    REQUIRE(!memcmp(&h.rights, &r, sizeof r), "header says other rights");
    if (t == SA_KEY_TYPE_EC) REQUIRE(h.type_parameters.curve == cv, "header says curve %d", (int) h.type_parameters.curve);
    if (t == SA_KEY_TYPE_DH) {
        auto& d = h.type_parameters.dh_parameters;
        REQUIRE(d.p_length == p->size() && !memcmp(d.p, p->data(), p->size()), "header says another p");
        REQUIRE(d.g_length == g->size() && !memcmp(d.g, g->data(), g->size()), "header says another g");
    }
}
struct GenReq {
    sa_key_type t;
    size_t n = 0;
    sa_elliptic_curve cv = SA_ELLIPTIC_CURVE_NIST_P256;
    Bytes p, g;
    std::string show() const {
        char b[100];
        snprintf(b, sizeof b, "type %d, %zu bytes, curve %d, p of %zu bytes, g of %zu bytes", (int) t, n, (int) cv, p.size(), g.size());
        return b;
    }
};
sa_status generate(const Caller& c, const GenReq& q, const sa_rights& r, sa_key* k) {
    Exact p(q.p), g(q.g);
    sa_generate_parameters_symmetric ps = {q.n};
    sa_generate_parameters_rsa pr = {q.n};
    sa_generate_parameters_ec pe = {q.cv};
    sa_generate_parameters_dh pd = {p.p, q.p.size(), g.p, q.g.size()};
    void* pp = q.t == SA_KEY_TYPE_SYMMETRIC ? (void*) &ps : q.t == SA_KEY_TYPE_RSA ? (void*) &pr : q.t == SA_KEY_TYPE_EC ? (void*) &pe : (void*) &pd;
    return c.key_generate(k, &r, q.t, pp);
}
size_t size_of(const GenReq& q) {
    return q.t == SA_KEY_TYPE_EC ? curve_size(q.cv) : q.t == SA_KEY_TYPE_DH ? q.p.size() : q.n;
}
GenReq gen_req(Src& src) {
    GenReq q;
    switch (src.weighted({6, 8, 5, 2})) {
        case 0:
            q.t = SA_KEY_TYPE_SYMMETRIC;
            q.n = src.coin() ? src.pick({16, 32, 24, 64, 512, 511, 17}) : src.size(16, 512);
            break;
        case 1:
            q.t = SA_KEY_TYPE_EC;
            q.cv = ALL_CURVES[src.below(9)];
            break;
        case 2: {
            q.t = SA_KEY_TYPE_DH;
            auto& d = dh_groups()[src.weighted({6, 4, 2, 1, 1, 1})];
            q.p = d.p;
            q.g = d.g;
            if (src.chance(1, 4)) q.g = Bytes(1, (uint8_t) src.range(2, 255));
            if (src.chance(1, 4)) q.g = cat({Bytes(src.range(1, q.p.size() - q.g.size()), 0), q.g});   // the same number, written longer
            break;
        }
        default:
            q.t = SA_KEY_TYPE_RSA;
            q.n = src.weighted({30, 6, 1}) == 0 ? 128 : src.chance(4, 5) ? 256 : src.pick({384, 512});
    }
    return q;
}
// The key bytes, as they came out of the random source.
bool find_key(const Caller& c, sa_key k, size_t n, const Bytes& log, Bytes* out) {
    Bytes d = key_digest(c, k);
    for (size_t i = 0; i + n <= log.size(); i++)
        if (ref_digest(SA_DIGEST_ALGORITHM_SHA256, *out = sub(log, i, n)) == d) return true;
    return false;
}
sa_rights usable(Src& src) {
    sa_rights r = rights_all();
    r.usage_flags &= ~(bit(SA_USAGE_FLAG_CACHEABLE) * src.coin());
    for (size_t i = 0, n = src.below(64); i < n; i++) r.id[i] = (char) src.range(1, 255);
    return r;
}
}  // namespace

PROP(c26_generate, "a key was generated and its parts compared", 60) {
    Caller c = src.coin() ? Caller::ree() : Caller::open(TA_A);
    GenReq q = gen_req(src);
    pbt::trace("%s", q.show().c_str());
    size_t times = q.t == SA_KEY_TYPE_RSA && q.n > 128 ? 1 : src.range(1, 3);
    std::set<Bytes> seen;
    for (size_t i = 0; i < times; i++) {
        Bytes log;
        sa_rights r = usable(src);
        sa_key k = INVALID_HANDLE;
        g_rand_log = &log;
        sa_status s = generate(c, q, r, &k);
        g_rand_log = nullptr;
        REQUIRE(s == SA_STATUS_OK, "generating: %s", sname(s));
        check_header(c, k, q.t, size_of(q), r, q.cv, &q.p, &q.g);
        if (q.t == SA_KEY_TYPE_SYMMETRIC) {
            Bytes key;
            REQUIRE(find_key(c, k, q.n, log, &key), "the key is not output of the random source");
            check_sym(src, c, k, key);
            REQUIRE(seen.insert(key).second, "the same key again");
        } else {
            REQUIRE(log.size() >= 16, "only %zu bytes were drawn from the random source", log.size());
            check_asym(src, c, k, q.t, q.cv, q.n, &q.p, &q.g);
            REQUIRE(seen.insert(public_of(c, k)).second, "the same key again");
        }
        // the exported and imported key is the same key
        if (((r.usage_flags >> SA_USAGE_FLAG_CACHEABLE) & 1) && q.p.size() < 300) {
            Bytes b;
            sa_key k2 = INVALID_HANDLE;
            REQUIRE(export_key(c, k, nullptr, b) == SA_STATUS_OK && import_exported(c, &k2, b) == SA_STATUS_OK, "export and import");
            check_header(c, k2, q.t, size_of(q), r, q.cv, &q.p, &q.g);
            if (q.t == SA_KEY_TYPE_SYMMETRIC) REQUIRE(key_digest(c, k2) == key_digest(c, k), "the imported key is another one");
            else
                REQUIRE(public_of(c, k2) == public_of(c, k), "the imported key is another one");
            c.key_release(k2);
        }
        if (src.coin()) c.key_release(k);
    }
    pbt::nontrivial();
    static const char* const T[] = {"symmetric", "ec", "rsa", "dh"};
    pbt::label("%s %s", T[q.t & 3], q.t == SA_KEY_TYPE_EC ? curve_name(q.cv) : q.t == SA_KEY_TYPE_SYMMETRIC ? "" : std::to_string(size_of(q)).c_str());
}

PROP(c26_components, "a key of known material was compared with it") {
    Caller c = src.coin() ? Caller::ree() : Caller::open(TA_A);
    std::vector<std::pair<sa_key, Mat>> keys;
    size_t n = src.range(1, 4);
    auto check = [&](sa_key k, const Mat& m) {
        sa_header h;
        REQUIRE(c.key_header(&h, k) == SA_STATUS_OK && h.type == m.type && h.size == m.size, "%s: header says type %d of %d bytes", m.show().c_str(),
                (int) h.type, (int) h.size);
        if (m.type == SA_KEY_TYPE_SYMMETRIC) {
            check_sym(src, c, k, m.clear);
            size_t z = 0;
            REQUIRE(c.key_get_public(nullptr, &z, k) != SA_STATUS_OK, "a symmetric key has a public component");
            return;
        }
        if (m.type == SA_KEY_TYPE_EC) REQUIRE(h.type_parameters.curve == m.curve, "%s: header says curve %d", m.show().c_str(), (int) h.type_parameters.curve);
        REQUIRE(public_of(c, k) == m.pub(), "%s: the public component is another one", m.show().c_str());
        check_asym(src, c, k, m.type, m.curve, m.size, nullptr, nullptr);
        uint8_t d[64];
        size_t z = 64;
        REQUIRE(c.key_digest(d, &z, k, SA_DIGEST_ALGORITHM_SHA256) != SA_STATUS_OK, "the digest of a private key was given");
    };
    for (size_t i = 0; i < n; i++) {
        Mat m = src.coin() ? mat_sym(src, src.size(16, 512)) : src.chance(2, 3) ? mat_ec(src, ALL_CURVES[src.below(9)])
                : mat_rsa(src, src.pick({128, 128, 128, 256, 384, 512}));
        sa_key k = must_import(c, m, rights_all());
        if (src.coin() && m.clear.size() < 1000) {
            Bytes b;
            sa_key k2 = INVALID_HANDLE;
            REQUIRE(export_key(c, k, nullptr, b) == SA_STATUS_OK && import_exported(c, &k2, b) == SA_STATUS_OK, "export and import");
            c.key_release(k);
            k = k2;
        }
        keys.push_back({k, m});
    }
    for (size_t i = 0; i < n; i++) {
        auto& x = keys[src.below(n)];
        pbt::trace("%s", x.second.show().c_str());
        check(x.first, x.second);
    }
    pbt::nontrivial();
}

PROP(c26_refused, "a request that cannot be served was made") {
    Caller c = src.coin() ? Caller::ree() : Caller::open(TA_A);
    GenReq q;
    std::string what;
    sa_rights r = rights_all();
    sa_key k = 0xdead;
    sa_status s;
    sa_key other = c.must_import_sym(Bytes(24, 0x42), r);
    switch (src.below(6)) {
        case 0:
            q.t = SA_KEY_TYPE_SYMMETRIC;
            q.n = src.coin() ? src.below(16) : src.coin() ? src.range(513, 2000) : src.pick<size_t>({513, 1024, 65536, SIZE_MAX, ((size_t) 1 << 32) + 16,
                    ((size_t) 1 << 32) + 512, (size_t) 1 << 31, SIZE_MAX - 15});
            what = "symmetric size";
            s = generate(c, q, r, &k);
            break;
        case 1:
            q.t = SA_KEY_TYPE_RSA;
            do q.n = src.coin() ? src.below(1200) : src.pick<size_t>({0, 1, 16, 64, 96, 127, 129, 192, 255, 257, 320, 383, 385, 511, 513, 1024, 2048, 3072, 4096,
                    ((size_t) 1 << 32) + 128, ((size_t) 1 << 29) + 128, ((size_t) 1 << 61) + 256, SIZE_MAX});
            while (q.n == 128 || q.n == 256 || q.n == 384 || q.n == 512);
            what = "RSA size";
            s = generate(c, q, r, &k);
            break;
        case 2:
            q.t = SA_KEY_TYPE_EC;
            q.cv = (sa_elliptic_curve) src.pick<int64_t>({9, 10, 11, 16, 64, 127, 128, 255, 256, 258, 511, 65536, 65538, 0x7fffffff, -1, -256});
            what = "curve";
            s = generate(c, q, r, &k);
            break;
        case 3: {
            q.t = SA_KEY_TYPE_DH;
            auto& d = dh_groups()[src.below(3)];
            q.p = d.p;
            q.g = d.g;
            switch (src.below(4)) {
                case 0: q.p = cat({src.bytes(src.range(513 - q.p.size(), 700)), q.p}); break;
                case 1: q.g = cat({Bytes(q.p.size(), 1), q.g}); break;
                case 2: q.g.clear(); break;
                default: q.p.clear();
            }
            what = "DH group size";
            s = generate(c, q, r, &k);
            break;
        }
        case 4: {
            what = "key type";
            auto t = (sa_key_type) src.pick<int64_t>({4, 5, 7, 255, 256, 257, 65536, 0x7fffffff, -1});
            sa_generate_parameters_symmetric ps[8] = {{16}, {16}, {16}, {16}, {16}, {16}, {16}, {16}};
            s = c.key_generate(&k, &r, t, ps);
            q.t = t;
            break;
        }
        default: {
            what = "missing argument";
            GenReq v;
            v.t = src.coin() ? SA_KEY_TYPE_SYMMETRIC : SA_KEY_TYPE_EC;
            v.n = 16;
            q = v;
            sa_generate_parameters_symmetric ps = {16};
            sa_generate_parameters_ec pe = {SA_ELLIPTIC_CURVE_NIST_P256};
            auto& d = dh_groups()[0];
            Bytes p = d.p, g = d.g;
            sa_generate_parameters_dh pd = {p.data(), p.size(), g.data(), g.size()};
            switch (src.below(4)) {
                case 0: s = c.key_generate(&k, nullptr, v.t, v.t == SA_KEY_TYPE_SYMMETRIC ? (void*) &ps : &pe); break;
                case 1: s = c.key_generate(&k, &r, v.t, nullptr); break;
                case 2:
                    pd.p = nullptr;
                    s = c.key_generate(&k, &r, SA_KEY_TYPE_DH, &pd);
                    break;
                default:
                    pd.g = nullptr;
                    s = c.key_generate(&k, &r, SA_KEY_TYPE_DH, &pd);
            }
        }
    }
    pbt::trace("%s: %s: %s", what.c_str(), q.show().c_str(), sname(s));
    REQUIRE(s != SA_STATUS_OK, "%s accepted: %s", what.c_str(), q.show().c_str());
    REQUIRE(s == SA_STATUS_INVALID_PARAMETER || s == SA_STATUS_NULL_PARAMETER || s == SA_STATUS_OPERATION_NOT_SUPPORTED, "%s refused with %s",
            what.c_str(), sname(s));
    REQUIRE(k == INVALID_HANDLE || k == 0xdead, "the refused request gave a handle");
    check_sym(src, c, other, Bytes(24, 0x42));
    pbt::nontrivial();
    pbt::label("%s", what.c_str());
}

PROP(c26_random, "random bytes were requested") {
    bool direct = src.coin();
    Caller c = direct ? Caller::open(TA_A) : Caller::ree();
    if (direct && src.chance(1, 6)) {   // sizes at the edges of what one call of the random source can take
        std::vector<std::pair<uint8_t*, size_t>> spans;
        size_t edge = src.pick<size_t>({(size_t) 1 << 31, (size_t) 1 << 32, (size_t) 3 << 31, (size_t) 1 << 33});
        size_t n = edge - 20 + src.below(40);
        void* m = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (m == MAP_FAILED) pbt::discard();
        pbt::trace("%zu bytes", n);
        g_rand_spans = &spans;
        sa_status s = c.random(m, n);
        g_rand_spans = nullptr;
        munmap(m, n);
        std::sort(spans.begin(), spans.end());
        uint8_t* at = (uint8_t*) m;
        for (auto& x : spans) {
            REQUIRE(x.first >= (uint8_t*) m && x.first + x.second <= (uint8_t*) m + n, "memory outside the output was to be filled");
            if (x.first <= at && x.first + x.second > at) at = x.first + x.second;
        }
        if (s == SA_STATUS_OK) REQUIRE(at == (uint8_t*) m + n, "of %zu requested bytes only the first %zu were filled", n, (size_t) (at - (uint8_t*) m));
        pbt::nontrivial();
        pbt::label("huge: %s", sname(s));
        return;
    }
    Bytes log;
    size_t n = src.chance(1, 8) ? src.size(1, 100000) : src.size(1, 300);
    Guarded a(n), b(n);
    g_rand_log = &log;
    sa_status s = c.random(a.data(), n), s2 = c.random(b.data(), n);
    g_rand_log = nullptr;
    REQUIRE(s == SA_STATUS_OK && s2 == SA_STATUS_OK, "random: %s %s", sname(s), sname(s2));
    REQUIRE(a.intact() && b.intact(), "bytes outside the output were written");
    Bytes x = a.get(0, n), y = b.get(0, n);
    auto f = std::search(log.begin(), log.end(), x.begin(), x.end());
    REQUIRE(f != log.end(), "%zu bytes: the output is not what the random source gave", n);
    REQUIRE(std::search(f + (long) n, log.end(), y.begin(), y.end()) != log.end(), "%zu bytes: output of the random source was used twice", n);
    pbt::nontrivial();
    pbt::label(direct ? "trusted application" : "client");
}

PROP(c26_source, "the random source failed during the request") {
    Caller c = src.coin() ? Caller::ree() : Caller::open(TA_A);
    GenReq q = gen_req(src);
    if (q.t == SA_KEY_TYPE_RSA && q.n > 128) q.n = 128;
    sa_rights r = rights_all();
    sa_key other = c.must_import_sym(Bytes(24, 0x42), r);
    bool random = src.chance(1, 4);
    size_t n = src.size(16, 100);
    Guarded g(n);
    sa_key k = 0xdead;
    Bytes log;
    g_rand_fail_value = src.coin() ? 0 : -1;
    g_rand_calls = 0;
    g_rand_fail_at = 1 + (long) src.below(3);
    if (q.t == SA_KEY_TYPE_RSA) g_rand_fail_at = 1 + (long) src.below(40);
    g_rand_log = &log;
    sa_status s = random ? c.random(g.data(), n) : generate(c, q, r, &k);
    bool failed = g_rand_calls >= g_rand_fail_at;
    g_rand_fail_at = 0;
    g_rand_log = nullptr;
    ERR_clear_error();
    pbt::trace("%s: call %s of the random source %s: %s", random ? "random" : q.show().c_str(), std::to_string(g_rand_calls).c_str(),
            failed ? (g_rand_fail_value ? "returned -1" : "returned 0") : "was not made", sname(s));
    REQUIRE(g.intact(), "bytes outside the output were written");
    if (s == SA_STATUS_OK) {
        Bytes key;
        if (random) {
            Bytes x = g.get(0, n);
            REQUIRE(std::search(log.begin(), log.end(), x.begin(), x.end()) != log.end(), "random reported success, but the random source had failed");
        } else if (q.t == SA_KEY_TYPE_SYMMETRIC)
            REQUIRE(find_key(c, k, q.n, log, &key), "a key was generated although the random source had failed");
        else
            check_asym(src, c, k, q.t, q.cv, q.n, &q.p, &q.g);
    } else {
        REQUIRE(failed, "%s although the random source works", sname(s));
        REQUIRE(random || k == INVALID_HANDLE || k == 0xdead, "the failed request gave a handle");
    }
    check_sym(src, c, other, Bytes(24, 0x42));
    // once the source works again, so does the request
    sa_key k2 = INVALID_HANDLE;
    sa_status s2 = generate(c, q, r, &k2);
    REQUIRE(s2 == SA_STATUS_OK, "generating after the failure: %s", sname(s2));
    check_header(c, k2, q.t, size_of(q), r, q.cv, &q.p, &q.g);
    if (failed) pbt::nontrivial();
    pbt::label("%s, %s", random ? "random" : "generate", failed ? sname(s) : "not reached");
}
