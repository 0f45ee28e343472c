// C14: asymmetric decryption through a cipher context returns exactly the plaintext of a valid ciphertext, and nothing otherwise.
#include "wrap.hpp"
using namespace sec;
static const sa_cipher_algorithm ALGS[] = {SA_CIPHER_ALGORITHM_RSA_PKCS1V15, SA_CIPHER_ALGORITHM_RSA_OAEP, SA_CIPHER_ALGORITHM_EC_ELGAMAL};

// x, y of C2 - d C1, or failure when a point is not on the curve (or the result is at infinity)
static bool ref_elgamal_decrypt(const Mat& key, const Bytes& ct, Bytes& x) {
    size_t n = curve_size(key.curve);
    if (ct.size() != 4 * n) return false;
    EC_GROUP* g = EC_GROUP_new_by_curve_name(curve_nid(key.curve));
    EC_POINT *c1 = EC_POINT_new(g), *c2 = EC_POINT_new(g), *s = EC_POINT_new(g);
    BN_CTX* bx = BN_CTX_new();
    BIGNUM *d = nullptr, *xx = BN_new();
    Bytes p1 = cat({{4}, sub(ct, 0, 2 * n)}), p2 = cat({{4}, sub(ct, 2 * n, 2 * n)});
    bool ok = EVP_PKEY_get_bn_param(key.pkey, OSSL_PKEY_PARAM_PRIV_KEY, &d) == 1 && EC_POINT_oct2point(g, c1, p1.data(), p1.size(), bx) == 1 &&
              EC_POINT_oct2point(g, c2, p2.data(), p2.size(), bx) == 1 && EC_POINT_mul(g, s, nullptr, c1, d, bx) == 1 &&
              EC_POINT_invert(g, s, bx) == 1 && EC_POINT_add(g, s, s, c2, bx) == 1 && !EC_POINT_is_at_infinity(g, s) &&
              EC_POINT_get_affine_coordinates(g, s, xx, nullptr, bx) == 1;
    if (ok) {
        x.assign(n, 0);
        BN_bn2binpad(xx, x.data(), (int) n);
    }
    BN_free(xx);
    BN_clear_free(d);
    EC_POINT_free(c1);
    EC_POINT_free(c2);
    EC_POINT_free(s);
    BN_CTX_free(bx);
    EC_GROUP_free(g);
    return ok;
}
static bool ref_decrypt(const Wrapped& w, const Bytes& ct, Bytes& p) {
    if (w.alg == SA_CIPHER_ALGORITHM_EC_ELGAMAL) return ref_elgamal_decrypt(w.key, ct, p);
    if (ct.size() != w.key.size) return false;
    EVP_PKEY_CTX* x = EVP_PKEY_CTX_new(w.key.pkey, nullptr);
    p.assign(600, 0);
    size_t n = 600;
    bool ok = EVP_PKEY_decrypt_init(x) == 1 && mdpad(x, w.alg == SA_CIPHER_ALGORITHM_RSA_OAEP, w.d, w.m, w.label) &&
              EVP_PKEY_decrypt(x, p.data(), &n, ct.data(), ct.size()) == 1;
    p.resize(ok ? n : 0);
    EVP_PKEY_CTX_free(x);
    return ok;
}
// Fresh ciphertexts of generated plaintexts under one key (and one set of OAEP parameters).
static bool encrypt_more(Src& src, const Wrapped& w, Bytes& plain, Bytes& ct) {
    if (w.alg == SA_CIPHER_ALGORITHM_EC_ELGAMAL) {
        size_t n = curve_size(w.key.curve);
        for (int i = 0; i < 64; i++) {
            plain = src.bytes(n);
            for (size_t j = 0, z = src.chance(1, 3) ? src.range(1, 4) : 0; j < z; j++) plain[j] = 0;
            if (n == 66) plain[0] &= 1;
            if (i) plain[n - 1] ^= (uint8_t) i;
            if (elgamal(w.key.pkey, w.key.curve, plain, src, ct)) return true;
        }
        return false;
    }
    bool oaep = w.alg == SA_CIPHER_ALGORITHM_RSA_OAEP;
    size_t room = rsa_room(w.key.size, oaep, w.d);
    size_t n = src.weighted({3, 1, 2, 2}) == 0 ? src.size(0, room) : src.coin() ? room : src.pick({0, 1, 16, 32});
    if (n > room) n = room;
    plain = src.bytes(n);
    if (n && src.chance(1, 4)) plain[0] = 0;
    ct = rsa_encrypt(w.key.pkey, oaep, w.d, w.m, w.label, plain);
    return !ct.empty();
}
static Wrapped setup(Src& src) {
    Wrapped w;
    w.alg = ALGS[src.below(3)];
    if (w.alg == SA_CIPHER_ALGORITHM_EC_ELGAMAL) {
        sa_elliptic_curve c;
        do c = ALL_CURVES[src.below(9)];
        while (!is_pcurve(c));
        w.key = mat_ec(src, c);
        return w;
    }
    w.key = mat_rsa(src, src.weighted({6, 3, 1}) == 0 ? 128 : src.coin() ? 256 : src.pick({384, 512}));
    if (w.alg == SA_CIPHER_ALGORITHM_RSA_OAEP) {
        do w.d = ALL_DIGESTS[src.below(4)];
        while (rsa_room(w.key.size, true, w.d) == 0);
        w.m = src.coin() ? w.d : ALL_DIGESTS[src.below(4)];
        if (src.coin()) w.label = src.bytes(src.chance(1, 40) ? src.large() : src.size(1, 300));
    }
    return w;
}
static sa_status init(const Caller& c, const Wrapped& w, sa_key k, sa_crypto_cipher_context* x, sa_cipher_mode mode = SA_CIPHER_MODE_DECRYPT) {
    if (w.alg != SA_CIPHER_ALGORITHM_RSA_OAEP) return c.cipher_init(x, w.alg, mode, k, nullptr);
    // the label is the caller's: it may be changed or freed once init has returned
    Exact l(w.label);
    sa_cipher_parameters_rsa_oaep p = {w.d, w.m, w.label.empty() ? nullptr : l.p, w.label.size()};
    sa_status s = c.cipher_init(x, w.alg, mode, k, &p);
    if (l.n) memset(l.p, 0xee, l.n);
    return s;
}
static size_t out_size(const Wrapped& w) { return w.alg == SA_CIPHER_ALGORITHM_EC_ELGAMAL ? curve_size(w.key.curve) : w.key.size; }
PROP(c14_equal, "at least one valid ciphertext was decrypted and compared") {
    Caller c = src.coin() ? Caller::ree() : Caller::open(TA_A);
    Wrapped w = setup(src);
    pbt::trace("%s", w.show().c_str());
    sa_key k = must_import(c, w.key, rights_all());
    sa_crypto_cipher_context x = INVALID_HANDLE;
    sa_status s = init(c, w, k, &x);
    REQUIRE(s == SA_STATUS_OK, "init: %s", sname(s));
    bool released = false;
    unsigned n = 1 + (unsigned) src.below(3);
    for (unsigned i = 0; i < n; i++) {
        if (!released && src.chance(1, 4)) {
            REQUIRE(c.key_release(k) == SA_STATUS_OK, "release");
            released = true;
        }
        if (src.chance(1, 3)) {
            size_t q = 4 * out_size(w);
            Exact e(Bytes(q, 1));
            sa_buffer in = clear_buf(e.p, e.n);
            s = c.cipher_process(nullptr, x, &in, &q);
            REQUIRE(s == SA_STATUS_OK && q == out_size(w), "length query: %s %zu, expected %zu", sname(s), q, out_size(w));
            REQUIRE(in.context.clear.offset == 0, "a length query moved the input offset");
        }
        Bytes p, ct;
        if (!encrypt_more(src, w, p, ct)) pbt::discard();
        size_t oo = src.coin() ? 0 : src.size(0, 20), room = out_size(w) + (src.coin() ? 0 : src.size(0, 30));
        size_t io = src.coin() ? 0 : src.size(0, 20);
        bool inplace = src.chance(1, 5);
        Guarded g(oo + std::max(room, inplace ? ct.size() : 0));
        Bytes before = cat({Bytes(io, 0x77), ct});
        Exact e(before);
        sa_buffer in = clear_buf(e.p, e.n, io), out = clear_buf(g.data(), g.n, oo);
        if (inplace) {
            memcpy(g.data() + oo, ct.data(), ct.size());
            in = clear_buf(g.data(), g.n, oo);
            io = oo;
        }
        size_t len = ct.size();
        s = c.cipher_process(&out, x, &in, &len);
        REQUIRE(s == SA_STATUS_OK, "%s, plaintext of %zu bytes: %s", w.show().c_str(), p.size(), sname(s));
        REQUIRE(len == p.size(), "plaintext of %zu bytes, reported %zu", p.size(), len);
        REQUIRE(in.context.clear.offset - io == ct.size() && out.context.clear.offset - oo == p.size(), "offsets moved by %zu and %zu for %zu and %zu bytes",
                in.context.clear.offset - io, out.context.clear.offset - oo, ct.size(), p.size());
        REQUIRE(g.get(oo, p.size()) == p, "decrypted %s, expected %s", pbt::hex(g.get(oo, p.size())).c_str(), pbt::hex(p).c_str());
        REQUIRE(g.intact() && g.untouched(0, oo), "written outside the output buffer");
        if (!inplace) {
            REQUIRE(g.untouched(oo + out_size(w), g.n), "written after the largest possible plaintext");
            REQUIRE(memcmp(e.p, before.data(), before.size()) == 0, "the input was changed");
        }
        pbt::nontrivial();
        pbt::label("%s/%s", alg_name(w.alg), w.alg == SA_CIPHER_ALGORITHM_EC_ELGAMAL ? curve_name(w.key.curve) : p.empty() ? "empty" :
                p.size() == rsa_room(w.key.size, w.alg == SA_CIPHER_ALGORITHM_RSA_OAEP, w.d) ? "full" : "between");
    }
}

PROP(c14_invalid, "a ciphertext that may be invalid was processed and compared with the reference") {
    Caller c = src.coin() ? Caller::ree() : Caller::open(TA_A);
    Wrapped w = setup(src);
    sa_key k = must_import(c, w.key, rights_all());
    Wrapped used = w;       // what the context is set up with
    Bytes p, ct;
    if (!encrypt_more(src, w, p, ct)) pbt::discard();
    const char* what = "";
    size_t n = ct.size() / (w.alg == SA_CIPHER_ALGORITHM_EC_ELGAMAL ? 4 : 1);
    switch (src.below(8)) {
        case 0: ct[src.below(ct.size())] ^= (uint8_t) (1u << src.below(8)); what = "bit flip"; break;
        case 1: ct = src.bytes(ct.size()); if (w.key.type == SA_KEY_TYPE_RSA) ct[0] = 0; what = "arbitrary"; break;
        case 2: ct.resize(src.coin() ? src.below(ct.size()) : ct.size() + src.range(1, 40), (uint8_t) src.any()); what = "length"; break;
        case 3:
            if (w.alg != SA_CIPHER_ALGORITHM_RSA_OAEP) pbt::discard();
            switch (src.below(5)) {
                case 0: used.d = ALL_DIGESTS[src.below(4)]; break;
                case 1: used.m = ALL_DIGESTS[src.below(4)]; break;
                case 2: used.label.push_back((uint8_t) src.any()); break;
                case 3: if (used.label.empty()) pbt::discard(); used.label.pop_back(); break;
                default: if (used.label.empty()) pbt::discard(); used.label[src.below(used.label.size())] ^= 1; break;
            }
            what = "other OAEP parameters";
            break;
        case 4: {   // an encoded message with chosen padding
            if (w.key.type != SA_KEY_TYPE_RSA) {
                // points swapped, negated or repeated
                switch (src.below(4)) {
                    case 0: ct = cat({sub(ct, 2 * n, 2 * n), sub(ct, 0, 2 * n)}); break;
                    case 1: ct = cat({sub(ct, 0, 2 * n), sub(ct, 0, 2 * n)}); break;
                    case 2: ct = cat({sub(ct, 2 * n, 2 * n), sub(ct, 2 * n, 2 * n)}); break;
                    default: ct = cat({Bytes(2 * n, 0), sub(ct, 2 * n, 2 * n)}); break;
                }
                what = "other points";
                break;
            }
            Bytes em(n, 0);
            Bytes r = src.bytes(n);
            for (size_t i = 2; i < n; i++) em[i] = r[i] ? r[i] : 0x55;
            em[1] = (uint8_t) src.pick({2, 2, 2, 1, 0, 3});
            em[0] = src.chance(1, 8) ? 1 : 0;
            if (!src.chance(1, 5)) em[src.coin() ? src.range(2, 14) : src.range(2, n - 1)] = 0;   // the separator, perhaps too early or absent
            BIGNUM *b = BN_bin2bn(em.data(), (int) n, nullptr), *mod = nullptr, *e = nullptr;
            BN_CTX* bx = BN_CTX_new();
            EVP_PKEY_get_bn_param(w.key.pkey, OSSL_PKEY_PARAM_RSA_N, &mod);
            EVP_PKEY_get_bn_param(w.key.pkey, OSSL_PKEY_PARAM_RSA_E, &e);
            BN_mod_exp(b, b, e, mod, bx);
            BN_bn2binpad(b, ct.data(), (int) n);
            BN_free(b);
            BN_free(mod);
            BN_free(e);
            BN_CTX_free(bx);
            what = "chosen padding";
            break;
        }
        case 5: {   // values at and above the modulus
            if (w.key.type != SA_KEY_TYPE_RSA) pbt::discard();
            BIGNUM* mod = nullptr;
            EVP_PKEY_get_bn_param(w.key.pkey, OSSL_PKEY_PARAM_RSA_N, &mod);
            switch (src.below(4)) {
                case 0: BN_zero(mod); break;
                case 1: BN_one(mod); break;
                case 2: break;
                default: BN_sub_word(mod, 1); break;
            }
            BN_bn2binpad(mod, ct.data(), (int) n);
            BN_free(mod);
            what = "edge value";
            break;
        }
        case 6: {   // encrypted to somebody else
            Wrapped o = w;
            o.key = w.key.type == SA_KEY_TYPE_RSA ? mat_rsa(src, w.key.size) : mat_ec(src, w.key.curve);
            if (!encrypt_more(src, o, p, ct)) pbt::discard();
            what = "another key's";
            break;
        }
        default:
            if (w.key.type == SA_KEY_TYPE_RSA) {
                Wrapped o = w;
                o.alg = w.alg == SA_CIPHER_ALGORITHM_RSA_OAEP ? SA_CIPHER_ALGORITHM_RSA_PKCS1V15 : SA_CIPHER_ALGORITHM_RSA_OAEP;
                o.label.clear();
                o.d = o.m = SA_DIGEST_ALGORITHM_SHA1;
                if (!encrypt_more(src, o, p, ct)) pbt::discard();
                what = "the other padding's";
            } else {
                size_t at = src.below(4);
                Bytes prime(n, 0xff);
                std::copy(prime.begin(), prime.end(), ct.begin() + (long) (at * n));
                what = "coordinate out of range";
            }
    }
    Bytes want;
    bool ok = ref_decrypt(used, ct, want);
    sa_crypto_cipher_context x = INVALID_HANDLE;
    sa_status s = init(c, used, k, &x);
    REQUIRE(s == SA_STATUS_OK, "init: %s", sname(s));
    pbt::trace("%s, %s: ciphertext of %zu bytes", used.show().c_str(), what, ct.size());
    Guarded g(std::max<size_t>(out_size(w), 1));
    Exact e(ct);
    sa_buffer in = clear_buf(e.p, e.n), out = clear_buf(g.data(), g.n);
    size_t len = ct.size();
    s = c.cipher_process(&out, x, &in, &len);
    REQUIRE(g.intact(), "written outside the output buffer");
    pbt::nontrivial();
    pbt::label("%s/%s/%s", alg_name(w.alg), what, s == SA_STATUS_OK ? "decrypted" : "refused");
    REQUIRE((s == SA_STATUS_OK) == ok, "%s, %s: %s, the reference %s", used.show().c_str(), what, sname(s), ok ? "decrypts it" : "refuses it");
    if (ok) {
        REQUIRE(len == want.size() && g.get(0, len) == want, "another plaintext than the reference (%zu bytes, expected %zu)", len, want.size());
        REQUIRE(out.context.clear.offset == len && in.context.clear.offset == ct.size(), "offsets");
    } else {
        if (ct.size() == (w.alg == SA_CIPHER_ALGORITHM_EC_ELGAMAL ? 4 : 1) * out_size(w))
            REQUIRE(s == SA_STATUS_VERIFICATION_FAILED, "a ciphertext that does not decrypt: %s", sname(s));
        REQUIRE(out.context.clear.offset == 0 && in.context.clear.offset == 0, "refused, but an offset moved");
        Bytes o = g.get(0, g.n);
        bool changed = !g.untouched(0, g.n);
        if (changed) {
            bool zero = true;
            for (auto b : o) zero &= b == 0 || b == 0xa5;
            REQUIRE(zero, "refused, but the output was written: %s", pbt::hex(o).c_str());
        }
    }
    // the context still decrypts a good one
    if (src.chance(1, 3)) {
        if (!encrypt_more(src, used, p, ct)) return;
        Guarded g2(out_size(w));
        Exact e2(ct);
        in = clear_buf(e2.p, e2.n), out = clear_buf(g2.data(), g2.n);
        len = ct.size();
        s = c.cipher_process(&out, x, &in, &len);
        REQUIRE(s == SA_STATUS_OK && len == p.size() && g2.get(0, len) == p, "a valid ciphertext afterwards: %s", sname(s));
    }
}

PROP(c14_refused, "an unsuitable request was refused") {
    Caller c = src.coin() ? Caller::ree() : Caller::open(TA_A);
    Wrapped w = setup(src);
    sa_rights r = rights_all();
    sa_crypto_cipher_context x = 0x1234;
    sa_status s;
    Bytes p, ct;
    if (!encrypt_more(src, w, p, ct)) pbt::discard();
    sa_key k = INVALID_HANDLE;
    switch (src.below(6)) {
        case 0: {   // a key of another type, or a curve ElGamal is not defined for
            Mat b;
            if (w.alg == SA_CIPHER_ALGORITHM_EC_ELGAMAL) {
                switch (src.below(3)) {
                    case 0: b = mat_sym(src, 16 + 16 * src.below(3)); break;
                    case 1: b = mat_rsa(src, 128); break;
                    default: {
                        sa_elliptic_curve cv;
                        do cv = ALL_CURVES[src.below(9)];
                        while (is_pcurve(cv));
                        b = mat_ec(src, cv);
                    }
                }
            } else b = src.coin() ? mat_sym(src, src.pick({16, 32, 128, 256})) : mat_ec(src, ALL_CURVES[src.below(9)]);
            k = must_import(c, b, r);
            s = init(c, w, k, &x);
            REQUIRE(s != SA_STATUS_OK, "%s was set up with %s", alg_name(w.alg), b.show().c_str());
            REQUIRE(x == 0x1234 || x == INVALID_HANDLE, "refused, but a context was returned");
            pbt::label("%s/wrong key", alg_name(w.alg));
            break;
        }
        case 1: {
            k = must_import(c, w.key, r);
            s = init(c, w, k, &x, SA_CIPHER_MODE_ENCRYPT);
            if (s == SA_STATUS_OK) {
                Guarded g(out_size(w));
                Exact e(ct);
                sa_buffer in = clear_buf(e.p, e.n), out = clear_buf(g.data(), g.n);
                size_t len = ct.size();
                s = c.cipher_process(&out, x, &in, &len);
                REQUIRE(g.intact() && g.untouched(0, g.n), "written");
            }
            REQUIRE(s != SA_STATUS_OK, "%s to encrypt", alg_name(w.alg));
            pbt::label("%s/encrypt", alg_name(w.alg));
            break;
        }
        case 2: {   // too little room for the largest plaintext
            k = must_import(c, w.key, r);
            s = init(c, w, k, &x);
            REQUIRE(s == SA_STATUS_OK, "init: %s", sname(s));
            size_t room = out_size(w) - src.range(1, out_size(w)), off = src.coin() ? 0 : src.size(0, 40);
            Guarded g(room + off);
            Exact e(ct);
            sa_buffer in = clear_buf(e.p, e.n), out = clear_buf(g.data(), g.n, off);
            size_t len = ct.size();
            s = c.cipher_process(&out, x, &in, &len);
            REQUIRE(g.intact(), "written outside the output buffer");
            REQUIRE(s != SA_STATUS_OK, "%zu bytes of room for up to %zu", room, out_size(w));
            REQUIRE(g.untouched(0, g.n), "refused, but written");
            pbt::label("%s/short output", alg_name(w.alg));
            break;
        }
        case 3: {   // input shorter than it is said to be
            k = must_import(c, w.key, r);
            s = init(c, w, k, &x);
            REQUIRE(s == SA_STATUS_OK, "init: %s", sname(s));
            size_t have = src.below(ct.size());
            Guarded g(out_size(w));
            Exact e(sub(ct, 0, have));
            sa_buffer in = clear_buf(e.p, e.n), out = clear_buf(g.data(), g.n);
            if (src.coin()) in.context.clear.length = ct.size(), in.context.clear.offset = ct.size() - have, in.context.clear.buffer = e.p;
            size_t len = ct.size();
            s = c.cipher_process(&out, x, &in, &len);
            REQUIRE(g.intact() && g.untouched(0, g.n), "refused, but written");
            REQUIRE(s != SA_STATUS_OK, "%zu of %zu input bytes", have, ct.size());
            pbt::label("%s/short input", alg_name(w.alg));
            break;
        }
        case 4: {   // no block of an asymmetric cipher is the last one; there is no IV
            k = must_import(c, w.key, r);
            s = init(c, w, k, &x);
            REQUIRE(s == SA_STATUS_OK, "init: %s", sname(s));
            Guarded g(4 * out_size(w));
            Exact e(ct);
            sa_buffer in = clear_buf(e.p, e.n), out = clear_buf(g.data(), g.n);
            size_t len = ct.size();
            if (src.coin()) s = c.cipher_process_last(&out, x, &in, &len, nullptr);
            else s = c.cipher_update_iv(x, e.p, 16);
            REQUIRE(s != SA_STATUS_OK, "accepted");
            REQUIRE(g.intact() && g.untouched(0, g.n), "refused, but written");
            pbt::label("%s/last or iv", alg_name(w.alg));
            break;
        }
        default: {  // OAEP parameters
            if (w.alg != SA_CIPHER_ALGORITHM_RSA_OAEP) pbt::discard();
            k = must_import(c, w.key, r);
            Exact l(Bytes(8, 1));
            sa_cipher_parameters_rsa_oaep pr = {w.d, w.m, l.p, l.n};
            void* pp = &pr;
            switch (src.below(4)) {
                case 0: pp = nullptr; break;
                case 1: pr.digest_algorithm = (sa_digest_algorithm) src.range(4, 300); break;
                case 2: pr.mgf1_digest_algorithm = (sa_digest_algorithm) src.range(4, 300); break;
                default: pr.label = nullptr; break;
            }
            s = c.cipher_init(&x, w.alg, SA_CIPHER_MODE_DECRYPT, k, pp);
            if (s == SA_STATUS_OK) {   // a digest that does not exist may be noticed as late as the first use
                REQUIRE(pp && pr.label, "accepted");
                Guarded g(out_size(w));
                Exact e(ct);
                sa_buffer in = clear_buf(e.p, e.n), out = clear_buf(g.data(), g.n);
                size_t len = ct.size();
                s = c.cipher_process(&out, x, &in, &len);
                REQUIRE(s != SA_STATUS_OK, "decrypted with digest %d mgf1 %d", (int) pr.digest_algorithm, (int) pr.mgf1_digest_algorithm);
                REQUIRE(g.intact() && g.untouched(0, g.n), "refused, but written");
            } else
                REQUIRE(x == 0x1234 || x == INVALID_HANDLE, "refused, but a context was returned");
            pbt::label("oaep parameters");
        }
    }
    pbt::nontrivial();
}
