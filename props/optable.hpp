// Every way a key can be put to use, as data: the key material the operation needs, the condition under which it is
// allowed, and the calls. Shared by the checks about rights, allocation failure, leaks and erased memory.
#pragma once
#include "container.hpp"
#include <functional>
namespace sec {
struct Obs {
    Bytes out;                       // what was produced
    std::vector<sa_key> keys;        // keys created
    std::shared_ptr<void> hold;      // keeps buffers alive
    uint64_t ctx = INVALID_HANDLE;
    bool intact = true;              // output areas untouched by a refused call
    bool flag = false;
};
struct Phase {
    const char* name;
    bool need_flag = true;     // the role's usage flag
    bool need_clear = false;   // output into unprotected memory: SVP_OPTIONAL
    bool need_time = true, need_video = true, need_ta = true;
    std::function<sa_status(const Caller&, sa_key, Obs&)> fn;
};
typedef std::vector<std::pair<std::string, Bytes>> Stages;
struct Op {
    std::string name;
    int flag = -1;                   // usage flag of the key under test; -1: none
    Mat mat;                         // material of the key under test
    std::function<sa_key(const Caller&, const sa_rights&)> make;   // when it cannot be imported
    std::vector<Phase> phases;
    std::function<void(const Caller&)> setup;   // creates the other keys
    sa_status refused = SA_STATUS_OPERATION_NOT_ALLOWED;
    bool creates_key = false;
    bool keyless = false;            // there is no key under test
    Mat imports;                     // the material the operation brings in
    Stages stages;                   // secret values on the way to the result, by the published definitions
    std::function<void(const Caller&, sa_key, Stages&)> late_stages;   // those that depend on generated keys
};
inline sa_status out_phase(Guarded& g, Obs& o, sa_status s, size_t n) {
    if (s == SA_STATUS_OK) {
        REQUIRE(n <= g.n, "reported %zu of %zu bytes", n, g.n);
        Bytes b = g.get(0, n);
        o.out.insert(o.out.end(), b.begin(), b.end());
    } else if (!g.untouched(0, g.n))
        o.intact = false;
    REQUIRE(g.intact(), "bytes outside the output buffer were written");
    return s;
}
inline sa_status key_result(const Caller& c, Obs& o, sa_status s, sa_key k) {
    if (s == SA_STATUS_OK) o.keys.push_back(k);
    else if (k != INVALID_HANDLE && k != 0xdead)
        o.intact = false;
    return s;
}
inline Phase key_phase(const char* name, std::function<sa_status(const Caller&, sa_key, sa_key*)> f) {
    Phase p;
    p.name = name;
    p.fn = [f](const Caller& c, sa_key k, Obs& o) {
        sa_key n = 0xdead;
        sa_status s = f(c, k, &n);
        return key_result(c, o, s, n);
    };
    return p;
}
// Operations on a symmetric cipher key.
inline Op op_cipher(Src& src) {
    Op op;
    auto alg = sym_algs(true)[src.below(8)];
    auto s = std::make_shared<SymCfg>(gen_cfg(src, alg));
    op.name = std::string(alg_name(alg)) + (s->enc() ? " encrypt" : " decrypt");
    op.flag = s->enc() ? SA_USAGE_FLAG_ENCRYPT : SA_USAGE_FLAG_DECRYPT;
    op.mat = mat_sym_bytes(s->key);
    Bytes plain = src.bytes(s->block() && !s->padded() ? 16 * src.range(1, 4) : src.coin() ? 16 * src.range(1, 4) : src.size(1, 70)), tag;
    Bytes ct = ref_encrypt(*s, plain, s->iv, &tag);
    Bytes in = s->enc() ? plain : ct;
    size_t last = s->has_last() ? (!s->padded() ? src.below(17) : in.size() % 16 ? in.size() % 16 : src.chance(1, 3) && s->enc() ? 0 : 16) : 0;
    if (last > in.size()) last = in.size();
    auto first = std::make_shared<Bytes>(sub(in, 0, in.size() - last));
    auto rest = std::make_shared<Bytes>(sub(in, in.size() - last, last));
    if (s->block() && first->size() % 16) {
        *first = in;
        rest->clear();
    }
    auto tg = std::make_shared<Bytes>(tag.empty() ? Bytes(16) : tag);
    Phase init;
    init.name = "init";
    init.fn = [s](const Caller& c, sa_key k, Obs& o) {
        sa_crypto_cipher_context x = 0xdead;
        sa_status st = stream_init(c, &x, *s, k);
        if (st == SA_STATUS_OK) o.ctx = x;
        else if (x != INVALID_HANDLE && x != 0xdead)
            o.intact = false;
        return st;
    };
    op.phases.push_back(init);
    if (s->iv_updatable() && src.chance(1, 4)) {
        Phase u;
        u.name = "update_iv";
        u.need_flag = u.need_time = u.need_video = u.need_ta = false;
        u.fn = [s](const Caller& c, sa_key, Obs& o) { return c.cipher_update_iv(o.ctx, s->iv.data(), 16); };
        op.phases.push_back(u);
    }
    Phase p;
    p.name = "process";
    p.need_clear = true;
    p.need_ta = false;
    p.fn = [s, first](const Caller& c, sa_key, Obs& o) {
        Exact e(*first);
        Guarded g(first->size() + 16);
        sa_buffer ib = clear_buf(e.p, e.n), ob = clear_buf(g.data(), g.n);
        size_t n = first->size();
        sa_status st = c.cipher_process(&ob, o.ctx, &ib, &n);
        return out_phase(g, o, st, n);
    };
    op.phases.push_back(p);
    if (s->has_last()) {
        Phase l = p;
        l.name = "process_last";
        l.fn = [s, rest, tg](const Caller& c, sa_key, Obs& o) {
            Exact e(*rest);
            Guarded g(rest->size() + 16), t(16);
            memcpy(t.data(), tg->data(), 16);
            sa_buffer ib = clear_buf(e.p, e.n), ob = clear_buf(g.data(), g.n);
            size_t n = rest->size();
            sa_cipher_end_parameters_aes_gcm gp = {t.data(), 16};
            sa_cipher_end_parameters_chacha20_poly1305 pp = {t.data(), 16};
            void* ep = s->gcm() ? (void*) &gp : s->poly() ? (void*) &pp : nullptr;
            if (s->enc()) memset(t.data(), 0xa5, 16);
            sa_status st = c.cipher_process_last(&ob, o.ctx, &ib, &n, ep);
            if (s->aead_alg() && s->enc()) out_phase(t, o, st, 16);
            return out_phase(g, o, st, n);
        };
        op.phases.push_back(l);
    }
    return op;
}
inline Op op_asym_decrypt(Src& src) {
    Op op;
    auto alg = src.pick({SA_CIPHER_ALGORITHM_RSA_PKCS1V15, SA_CIPHER_ALGORITHM_RSA_OAEP, SA_CIPHER_ALGORITHM_EC_ELGAMAL});
    Bytes plain = src.bytes(src.range(16, 20));
    auto w = std::make_shared<Wrapped>(make_wrapped(src, alg, plain));
    op.name = std::string(alg_name(alg)) + " decrypt";
    op.flag = SA_USAGE_FLAG_DECRYPT;
    op.mat = w->key;
    Phase i;
    i.name = "init";
    i.fn = [w](const Caller& c, sa_key k, Obs& o) {
        sa_crypto_cipher_context x = 0xdead;
        sa_cipher_parameters_rsa_oaep p = {w->d, w->m, w->label.empty() ? nullptr : (void*) w->label.data(), w->label.size()};
        sa_status s = c.cipher_init(&x, w->alg, SA_CIPHER_MODE_DECRYPT, k, w->alg == SA_CIPHER_ALGORITHM_RSA_OAEP ? &p : nullptr);
        if (s == SA_STATUS_OK) o.ctx = x;
        else if (x != INVALID_HANDLE && x != 0xdead)
            o.intact = false;
        return s;
    };
    op.phases.push_back(i);
    Phase p;
    p.name = "process";
    p.need_clear = true;
    p.need_ta = p.need_video = false;
    p.fn = [w](const Caller& c, sa_key, Obs& o) {
        Exact e(w->ct);
        Guarded g(w->key.size);
        sa_buffer ib = clear_buf(e.p, e.n), ob = clear_buf(g.data(), g.n);
        size_t n = w->ct.size();
        sa_status s = c.cipher_process(&ob, o.ctx, &ib, &n);
        return out_phase(g, o, s, n);
    };
    op.phases.push_back(p);
    return op;
}
inline Op op_mac(Src& src) {
    Op op;
    bool hmac = src.coin();
    auto d = ALL_DIGESTS[src.below(4)];
    op.name = hmac ? "hmac" : "cmac";
    op.flag = SA_USAGE_FLAG_SIGN;
    op.mat = mat_sym(src, hmac ? (src.coin() ? 32 : src.size(16, 512)) : src.coin() ? 16 : 32);
    auto msg = std::make_shared<Bytes>(src.bytes(src.size(0, 200)));
    Phase i;
    i.name = "init";
    i.fn = [hmac, d](const Caller& c, sa_key k, Obs& o) {
        sa_crypto_mac_context x = 0xdead;
        sa_mac_parameters_hmac p = {d};
        sa_status s = c.mac_init(&x, hmac ? SA_MAC_ALGORITHM_HMAC : SA_MAC_ALGORITHM_CMAC, k, hmac ? &p : nullptr);
        if (s == SA_STATUS_OK) o.ctx = x;
        else if (x != INVALID_HANDLE && x != 0xdead)
            o.intact = false;
        return s;
    };
    op.phases.push_back(i);
    Phase p;
    p.name = "mac_process";
    p.need_flag = p.need_time = p.need_video = p.need_ta = false;
    p.fn = [msg](const Caller& c, sa_key, Obs& o) {
        Exact e(*msg);
        return c.mac_process(o.ctx, e.p, e.n);
    };
    op.phases.push_back(p);
    p.name = "mac_compute";
    p.fn = [hmac, d](const Caller& c, sa_key, Obs& o) {
        size_t n = hmac ? md_len(d) : 16;
        Guarded g(n);
        sa_status s = c.mac_compute(g.data(), &n, o.ctx);
        return out_phase(g, o, s, n);
    };
    op.phases.push_back(p);
    return op;
}
inline Op op_mac_key(Src& src) {   // the key as data of a MAC: no usage flag, everything else applies
    Op op;
    bool hmac = src.coin();
    op.name = "mac_process_key";
    op.mat = mat_sym(src, src.coin() ? 32 : src.size(16, 512));
    Phase p;
    p.name = "mac_process_key";
    p.need_flag = false;
    auto mk = std::make_shared<sa_key>(INVALID_HANDLE);
    Bytes kb = src.bytes(32);
    op.stages = {{"the MAC key", kb}};
    op.setup = [mk, kb](const Caller& c) { *mk = c.must_import_sym(kb, rights_all()); };
    p.fn = [mk, hmac](const Caller& c, sa_key k, Obs& o) {
        sa_crypto_mac_context x;
        sa_mac_parameters_hmac hp = {SA_DIGEST_ALGORITHM_SHA256};
        sa_status i = c.mac_init(&x, hmac ? SA_MAC_ALGORITHM_HMAC : SA_MAC_ALGORITHM_CMAC, *mk, hmac ? &hp : nullptr);
        if (i != SA_STATUS_OK) return i;
        sa_status s = c.mac_process_key(x, k);
        Guarded g(32);
        size_t n = 32;
        sa_status e = c.mac_compute(g.data(), &n, x);
        if (s == SA_STATUS_OK && e == SA_STATUS_OK) out_phase(g, o, e, n);
        if (c.mac_release(x) != SA_STATUS_OK) c.mac_release(x);   // C20 lets any call fail once
        return s == SA_STATUS_OK ? e : s;
    };
    op.phases.push_back(p);
    return op;
}
inline Op op_sign(Src& src) {
    Op op;
    op.flag = SA_USAGE_FLAG_SIGN;
    auto msg = std::make_shared<Bytes>(src.bytes(src.size(0, 200)));
    auto d = ALL_DIGESTS[src.below(4)];
    sa_signature_algorithm a;
    switch (src.below(4)) {
        case 0: a = SA_SIGNATURE_ALGORITHM_RSA_PKCS1V15; break;
        case 1: a = SA_SIGNATURE_ALGORITHM_RSA_PSS; break;
        case 2: a = SA_SIGNATURE_ALGORITHM_ECDSA; break;
        default: a = SA_SIGNATURE_ALGORITHM_EDDSA; break;
    }
    if (a == SA_SIGNATURE_ALGORITHM_RSA_PKCS1V15 || a == SA_SIGNATURE_ALGORITHM_RSA_PSS) {
        op.mat = mat_rsa(src, src.weighted({6, 3, 1}) == 0 ? 128 : src.coin() ? 256 : src.pick({384, 512}));
        op.name = a == SA_SIGNATURE_ALGORITHM_RSA_PSS ? "rsa-pss sign" : "rsa-pkcs1 sign";
    } else if (a == SA_SIGNATURE_ALGORITHM_ECDSA) {
        op.mat = mat_ec(src, ALL_CURVES[src.below(5)]);
        while (!is_pcurve(op.mat.curve)) op.mat = mat_ec(src, ALL_CURVES[src.below(9)]);
        op.name = "ecdsa sign";
    } else {
        op.mat = mat_ec(src, src.coin() ? SA_ELLIPTIC_CURVE_ED448 : SA_ELLIPTIC_CURVE_ED25519);
        op.name = "eddsa sign";
    }
    bool random = a == SA_SIGNATURE_ALGORITHM_ECDSA;
    Phase p;
    p.name = "sign";
    p.fn = [a, d, msg, random](const Caller& c, sa_key k, Obs& o) {
        sa_sign_parameters_rsa_pss pss = {d, d, false, 20};
        sa_sign_parameters_rsa_pkcs1v15 pk = {d, false};
        sa_sign_parameters_ecdsa ec = {d, false};
        const void* pp = a == SA_SIGNATURE_ALGORITHM_RSA_PSS ? (void*) &pss : a == SA_SIGNATURE_ALGORITHM_RSA_PKCS1V15 ? (void*) &pk
                         : a == SA_SIGNATURE_ALGORITHM_ECDSA ? (void*) &ec : nullptr;
        Guarded g(512);
        size_t n = 512;
        Exact e(*msg);
        sa_status s = c.sign(g.data(), &n, a, k, e.p, e.n, pp);
        return out_phase(g, o, s, n);
    };
    op.phases.push_back(p);
    return op;
}
inline Bytes netflix_temp(const Bytes& ke, const Bytes& kh) {
    static const Bytes salt = {0x02, 0x76, 0x17, 0x98, 0x4f, 0x62, 0x27, 0x53, 0x9a, 0x63, 0x0b, 0x89, 0x7c, 0x01, 0x7d, 0x69};
    return ref_hmac(SA_DIGEST_ALGORITHM_SHA256, salt, cat({ke, kh}));
}
inline Bytes netflix_wrap(const Bytes& temp) {
    static const Bytes info = {0x80, 0x9f, 0x82, 0xa7, 0xad, 0xdf, 0x54, 0x8d, 0x3e, 0xa9, 0xdd, 0x06, 0x7f, 0xf9, 0xbb, 0x91};
    return ref_hmac(SA_DIGEST_ALGORITHM_SHA256, temp, info);
}
inline Op op_derive(Src& src) {
    Op op;
    op.flag = SA_USAGE_FLAG_DERIVE;
    op.creates_key = true;
    auto d = ALL_DIGESTS[src.below(4)];
    auto a = std::make_shared<Bytes>(src.bytes(src.size(1, 60)));
    auto b = std::make_shared<Bytes>(src.bytes(src.size(1, 60)));
    size_t n = src.pick({16, 32});
    int kind = (int) src.below(6);
    static const char* names[] = {"hkdf", "concat kdf", "x963 kdf", "cmac kdf", "netflix kdf (kenc)", "netflix kdf (khmac)"};
    op.name = names[kind];
    op.mat = mat_sym(src, kind == 4 ? 16 : kind == 5 ? 32 : kind == 3 ? (src.coin() ? 16 : 32) : src.size(16, 512));
    auto other = std::make_shared<sa_key>(INVALID_HANDLE);
    Bytes ob = src.bytes(kind == 4 ? 32 : 16);
    if (kind >= 4) op.setup = [other, ob](const Caller& c) { *other = c.must_import_sym(ob, rights_all()); };
    const Bytes& km = op.mat.clear;
    size_t whole = (n + md_len(d) - 1) / md_len(d) * md_len(d);
    switch (kind) {
        case 0:
            op.stages = {{"the HKDF pseudorandom key", ref_hmac(d, *a, km)}, {"the HKDF output blocks", ref_hkdf(d, km, *a, *b, whole)}};
            break;
        case 1: op.stages = {{"the concat output blocks", ref_concat(d, km, *a, whole)}}; break;
        case 2: op.stages = {{"the x9.63 output blocks", ref_x963(d, km, *a, whole)}}; break;
        case 3: op.stages = {{"the CMAC output blocks", ref_cmac_kdf(km, *a, 1, 64)}}; break;
        default: {
            Bytes t = netflix_temp(kind == 4 ? km : ob, kind == 4 ? ob : km);
            op.stages = {{"the other key", ob}, {"the netflix intermediate key", t}, {"the netflix wrapping key block", netflix_wrap(t)}};
        }
    }
    op.phases.push_back(key_phase("derive", [=](const Caller& c, sa_key k, sa_key* out) {
        sa_rights r = rights_all();
        switch (kind) {
            case 0: {
                sa_kdf_parameters_hkdf p = {n, d, k, a->data(), a->size(), b->data(), b->size()};
                return c.key_derive(out, &r, SA_KDF_ALGORITHM_HKDF, &p);
            }
            case 1: {
                sa_kdf_parameters_concat p = {n, d, k, a->data(), a->size()};
                return c.key_derive(out, &r, SA_KDF_ALGORITHM_CONCAT, &p);
            }
            case 2: {
                sa_kdf_parameters_ansi_x963 p = {n, d, k, a->data(), a->size()};
                return c.key_derive(out, &r, SA_KDF_ALGORITHM_ANSI_X963, &p);
            }
            case 3: {
                sa_kdf_parameters_cmac p = {n, k, a->data(), a->size(), 1};
                return c.key_derive(out, &r, SA_KDF_ALGORITHM_CMAC, &p);
            }
            case 4: {
                sa_kdf_parameters_netflix p = {k, *other};
                return c.key_derive(out, &r, SA_KDF_ALGORITHM_NETFLIX, &p);
            }
            default: {
                sa_kdf_parameters_netflix p = {*other, k};
                return c.key_derive(out, &r, SA_KDF_ALGORITHM_NETFLIX, &p);
            }
        }
    }));
    return op;
}
inline sa_key make_dh(const Caller& c, const DhGroup& g, const sa_rights& r) {
    sa_generate_parameters_dh p = {g.p.data(), g.p.size(), g.g.data(), g.g.size()};
    sa_key k = INVALID_HANDLE;
    sa_status s = c.key_generate(&k, &r, SA_KEY_TYPE_DH, &p);
    if (s != SA_STATUS_OK) pbt::fail("generate dh: %s", sname(s));
    return k;
}
inline Op op_exchange(Src& src) {
    Op op;
    op.flag = SA_USAGE_FLAG_KEY_EXCHANGE;
    op.creates_key = true;
    int kind = (int) src.below(4);   // 0 ecdh, 1 dh, 2 netflix private key, 3 netflix wrapping key
    static const char* names[] = {"ecdh", "dh", "netflix exchange (private)", "netflix exchange (kw)"};
    op.name = names[kind];
    auto pub = std::make_shared<Bytes>();
    auto other = std::make_shared<sa_key>(INVALID_HANDLE);
    const DhGroup* g = &dh_groups()[src.weighted({6, 4, 2, 1})];
    if (kind == 0) {
        sa_elliptic_curve cv = ALL_CURVES[src.below(9)];
        if (is_ed(cv)) cv = SA_ELLIPTIC_CURVE_X25519;
        op.mat = mat_ec(src, cv);
        *pub = peer(cv).pub();
        op.stages = {{"the shared secret", ref_shared(op.mat.pkey, peer(cv).pkey)}};
        op.phases.push_back(key_phase("exchange", [pub](const Caller& c, sa_key k, sa_key* out) {
            sa_rights r = rights_all();
            return c.key_exchange(out, &r, SA_KEY_EXCHANGE_ALGORITHM_ECDH, k, pub->data(), pub->size(), nullptr);
        }));
        return op;
    }
    EVP_PKEY* q = dh_pkey(g->p, g->g, Bytes(40, 0x35));
    *pub = spki(q);
    EVP_PKEY_free(q);
    // the shared secret with a generated key, from its public value and the peer's private key
    auto shared = [g](const Caller& c, sa_key k) {
        Guarded pb(4096);
        size_t pn = 4096;
        if (c.key_get_public(pb.data(), &pn, k) != SA_STATUS_OK) return Bytes();
        const unsigned char* pp = pb.data();
        EVP_PKEY* mine = d2i_PUBKEY(nullptr, &pp, (long) pn);
        EVP_PKEY* q = dh_pkey(g->p, g->g, Bytes(40, 0x35));
        Bytes z = ref_shared(q, mine);
        EVP_PKEY_free(mine);
        EVP_PKEY_free(q);
        return z;
    };
    if (kind == 1) {
        op.late_stages = [shared](const Caller& c, sa_key k, Stages& s) { s.push_back({"the shared secret", shared(c, k)}); };
        op.make = [g](const Caller& c, const sa_rights& r) { return make_dh(c, *g, r); };
        op.phases.push_back(key_phase("exchange", [pub](const Caller& c, sa_key k, sa_key* out) {
            sa_rights r = rights_all();
            return c.key_exchange(out, &r, SA_KEY_EXCHANGE_ALGORITHM_DH, k, pub->data(), pub->size(), nullptr);
        }));
        return op;
    }
    Bytes kw = src.bytes(16);
    op.stages = {{"the wrapping key", kw}};
    op.late_stages = [=](const Caller& c, sa_key k, Stages& s) {
        Bytes z = shared(c, kind == 2 ? k : *other);
        s.push_back({"the shared secret", z});
        Bytes d = ref_digest(SA_DIGEST_ALGORITHM_SHA384, kw);
        s.push_back({"the digest of the wrapping key", d});
        size_t i = 0;
        while (i < z.size() && !z[i]) i++;
        s.push_back({"the exchanged keys", ref_hmac(SA_DIGEST_ALGORITHM_SHA384, d, cat({Bytes(1, 0), sub(z, i, z.size() - i)}))});
    };
    if (kind == 2) {
        op.make = [g](const Caller& c, const sa_rights& r) { return make_dh(c, *g, r); };
        op.setup = [other, kw](const Caller& c) { *other = c.must_import_sym(kw, rights_all()); };
    } else {
        op.flag = SA_USAGE_FLAG_DERIVE;
        op.mat = mat_sym_bytes(kw);
        op.setup = [other, g](const Caller& c) { *other = make_dh(c, *g, rights_all()); };
    }
    Phase p;
    p.name = "exchange";
    p.fn = [=](const Caller& c, sa_key k, Obs& o) {
        sa_rights r = rights_all(), r1 = r, r2 = r;
        sa_key a = 0xdead, ke = 0xdead, kh = 0xdead;
        sa_key_exchange_parameters_netflix_authenticated_dh np = {kind == 2 ? *other : k, &ke, &r1, &kh, &r2};
        sa_status s = c.key_exchange(&a, &r, SA_KEY_EXCHANGE_ALGORITHM_NETFLIX_AUTHENTICATED_DH, kind == 2 ? k : *other, pub->data(),
                pub->size(), &np);
        for (sa_key x : {a, ke, kh}) key_result(c, o, s, x);
        return s;
    };
    op.phases.push_back(p);
    return op;
}
inline Op op_unwrap(Src& src) {
    Op op;
    op.flag = SA_USAGE_FLAG_UNWRAP;
    op.creates_key = true;
    auto alg = (sa_cipher_algorithm) src.below(11);
    sa_key_type t = SA_KEY_TYPE_SYMMETRIC;
    bool block = alg == SA_CIPHER_ALGORITHM_AES_ECB || alg == SA_CIPHER_ALGORITHM_AES_CBC;
    bool asym = alg == SA_CIPHER_ALGORITHM_RSA_PKCS1V15 || alg == SA_CIPHER_ALGORITHM_RSA_OAEP || alg == SA_CIPHER_ALGORITHM_EC_ELGAMAL;
    Bytes plain = src.bytes(block ? 16 * src.range(1, 4) : src.range(16, asym ? 20 : 64));
    auto tp = std::make_shared<sa_unwrap_type_parameters_ec>();
    if (!block && !asym && src.chance(1, 3)) {
        Mat m;
        if (src.coin()) {
            t = SA_KEY_TYPE_EC;
            m = mat_ec(src, ALL_CURVES[src.below(9)]);
            tp->curve = m.curve;
        } else {
            t = SA_KEY_TYPE_RSA;
            m = mat_rsa(src, 128);
        }
        op.imports = m;
        plain = m.clear;
    }
    auto w = std::make_shared<Wrapped>(make_wrapped(src, alg, plain));
    if (t == SA_KEY_TYPE_SYMMETRIC) op.imports = mat_sym_bytes(plain);
    op.name = std::string(alg_name(alg)) + " unwrap of " + (t == SA_KEY_TYPE_SYMMETRIC ? "sym" : t == SA_KEY_TYPE_EC ? "ec" : "rsa");
    op.mat = w->key;
    op.phases.push_back(key_phase("unwrap", [=](const Caller& c, sa_key k, sa_key* out) {
        sa_rights r = rights_all();
        return w->unwrap(c, out, &r, t, t == SA_KEY_TYPE_EC ? tp.get() : nullptr, k);
    }));
    return op;
}
inline Op op_typej(Src& src) {
    Op op;
    op.creates_key = true;
    auto t = std::make_shared<TypeJ>(gen_typej(src));
    bool mac = src.coin();
    op.imports = mat_sym_bytes(t->content);
    op.stages = {{"the other TypeJ key", mac ? t->kenc : t->kmac}};
    op.name = mac ? "typej import (khmac)" : "typej import (kcipher)";
    op.flag = mac ? SA_USAGE_FLAG_SIGN : SA_USAGE_FLAG_UNWRAP;
    op.mat = mat_sym_bytes(mac ? t->kmac : t->kenc);
    auto other = std::make_shared<sa_key>(INVALID_HANDLE);
    op.setup = [=](const Caller& c) { *other = c.must_import_sym(mac ? t->kenc : t->kmac, rights_all()); };
    auto text = std::make_shared<Bytes>(t->text());
    op.phases.push_back(key_phase("import", [=](const Caller& c, sa_key k, sa_key* out) {
        sa_import_parameters_typej p = {mac ? *other : k, mac ? k : *other};
        Exact e(*text);
        return c.key_import(out, SA_KEY_FORMAT_TYPEJ, e.p, e.n, &p);
    }));
    return op;
}
inline Op op_export(Src& src) {
    Op op;
    op.name = "export";
    op.flag = SA_USAGE_FLAG_CACHEABLE;
    switch (src.below(3)) {
        case 0: op.mat = mat_sym(src, src.size(16, 512)); break;
        case 1: op.mat = mat_ec(src, ALL_CURVES[src.below(9)]); break;
        default: op.mat = mat_rsa(src, 128); break;
    }
    auto mx = std::make_shared<Bytes>(src.bytes(16));
    bool use = src.coin();
    Phase p;
    p.name = "export";
    p.need_time = p.need_video = p.need_ta = false;
    p.fn = [mx, use](const Caller& c, sa_key k, Obs& o) {
        Guarded g(8192);
        size_t n = 8192;
        sa_status s = c.key_export(g.data(), &n, use ? mx->data() : nullptr, use ? 16 : 0, k);
        return out_phase(g, o, s, n);
    };
    op.phases.push_back(p);
    return op;
}
inline Op op_key_check(Src& src) {
    Op op;
    op.name = "svp_key_check";
    op.flag = SA_USAGE_FLAG_DECRYPT;
    op.mat = mat_sym(src, src.coin() ? 16 : 32);
    auto plain = std::make_shared<Bytes>(src.bytes(16 * src.range(1, 4)));
    auto ct = std::make_shared<Bytes>(aes_ecb(op.mat.clear, *plain, true));
    Phase p;
    p.name = "check";
    p.need_clear = true;
    p.fn = [=](const Caller& c, sa_key k, Obs&) {
        Exact e(*ct);
        sa_buffer ib = clear_buf(e.p, e.n);
        return c.svp_key_check(k, &ib, ct->size(), plain->data(), plain->size());
    };
    op.phases.push_back(p);
    return op;
}
inline Op op_cenc(Src& src) {
    Op op;
    op.name = "cenc";
    op.flag = SA_USAGE_FLAG_DECRYPT;
    bool ctr = src.coin();
    op.mat = mat_sym(src, src.coin() ? 16 : 32);
    auto iv = std::make_shared<Bytes>(src.bytes(16));
    auto data = std::make_shared<Bytes>(src.bytes(16 * src.range(1, 4)));
    Phase i;
    i.name = "init";
    i.fn = [=](const Caller& c, sa_key k, Obs& o) {
        sa_crypto_cipher_context x = 0xdead;
        sa_cipher_parameters_aes_cbc p = {iv->data(), 16};
        sa_status s = c.cipher_init(&x, ctr ? SA_CIPHER_ALGORITHM_AES_CTR : SA_CIPHER_ALGORITHM_AES_CBC, SA_CIPHER_MODE_DECRYPT, k, &p);
        if (s == SA_STATUS_OK) o.ctx = x;
        else if (x != INVALID_HANDLE && x != 0xdead)
            o.intact = false;
        return s;
    };
    op.phases.push_back(i);
    Phase p;
    p.name = "process_common_encryption";
    p.need_clear = true;
    p.need_ta = false;
    p.fn = [=](const Caller& c, sa_key, Obs& o) {
        Exact e(*data);
        Guarded g(data->size());
        sa_buffer ib = clear_buf(e.p, e.n), ob = clear_buf(g.data(), g.n);
        sa_subsample_length sl = {0, data->size()};
        sa_sample s;
        memset(&s, 0, sizeof s);
        s.iv = iv->data();
        s.iv_length = 16;
        s.subsample_count = 1;
        s.subsample_lengths = &sl;
        s.context = o.ctx;
        s.in = &ib;
        s.out = &ob;
        sa_status st = c.cenc(1, &s);
        return out_phase(g, o, st, data->size());
    };
    op.phases.push_back(p);
    return op;
}
inline Op op_read(Src& src) {    // operations that need no flag
    Op op;
    int kind = (int) src.below(2);
    op.name = kind ? "digest" : "get_public";
    if (kind) op.mat = mat_sym(src, src.size(16, 512));
    else op.mat = src.coin() ? mat_rsa(src, 128) : mat_ec(src, ALL_CURVES[src.below(9)]);
    auto d = ALL_DIGESTS[src.below(4)];
    Phase p;
    p.name = op.name == "digest" ? "digest" : "get_public";
    p.need_flag = false;
    if (!kind) p.need_flag = false;
    p.fn = [=](const Caller& c, sa_key k, Obs& o) {
        Guarded g(1024);
        size_t n = 1024;
        sa_status s = kind ? c.key_digest(g.data(), &n, k, d) : c.key_get_public(g.data(), &n, k);
        return out_phase(g, o, s, n);
    };
    op.phases.push_back(p);
    return op;
}
inline Op op_import(Src& src) {
    Op op;
    op.creates_key = true;
    op.keyless = true;
    auto m = std::make_shared<Mat>(src.coin() ? mat_sym(src, src.size(16, 512)) : src.coin() ? mat_ec(src, ALL_CURVES[src.below(9)]) : mat_rsa(src, 128));
    op.imports = *m;
    if (src.coin()) {
        op.name = "import";
        op.phases.push_back(key_phase("import", [m](const Caller& c, sa_key, sa_key* k) { return import_mat(c, k, *m, rights_all()); }));
    } else {
        op.name = "import of an exported key";
        auto blob = std::make_shared<Bytes>();
        op.setup = [m, blob](const Caller& c) {
            sa_key k = must_import(c, *m, rights_all());
            if (export_key(c, k, nullptr, *blob) != SA_STATUS_OK) pbt::fail("harness: export");
            c.key_release(k);
        };
        op.phases.push_back(key_phase("import", [blob](const Caller& c, sa_key, sa_key* k) { return import_exported(c, k, *blob); }));
    }
    return op;
}
inline Op op_generate(Src& src) {
    Op op;
    op.creates_key = true;
    op.keyless = true;
    op.name = "generate";
    int t = (int) src.weighted({4, 4, 4, 1});
    size_t n = src.size(16, 512);
    sa_elliptic_curve cv = ALL_CURVES[src.below(9)];
    const DhGroup* g = &dh_groups()[src.weighted({6, 4, 2, 1})];
    op.phases.push_back(key_phase("generate", [=](const Caller& c, sa_key, sa_key* k) {
        sa_rights r = rights_all();
        sa_generate_parameters_symmetric ps = {n};
        sa_generate_parameters_ec pe = {cv};
        sa_generate_parameters_dh pd = {g->p.data(), g->p.size(), g->g.data(), g->g.size()};
        sa_generate_parameters_rsa pr = {128};
        switch (t) {
            case 0: return c.key_generate(k, &r, SA_KEY_TYPE_SYMMETRIC, &ps);
            case 1: return c.key_generate(k, &r, SA_KEY_TYPE_EC, &pe);
            case 2: return c.key_generate(k, &r, SA_KEY_TYPE_DH, &pd);
            default: return c.key_generate(k, &r, SA_KEY_TYPE_RSA, &pr);
        }
    }));
    return op;
}
inline Op op_soc(Src& src) {
    Op op;
    op.creates_key = true;
    op.name = "soc import";
    op.keyless = true;
    Soc soc = gen_soc(src);
    op.imports = soc.mat;
    auto text = std::make_shared<Bytes>(soc.text());
    bool with = src.coin();
    auto p = std::make_shared<sa_import_parameters_soc>();
    memset(p.get(), 0, sizeof *p);
    p->length[0] = (uint8_t) (sizeof *p >> 8);
    p->length[1] = (uint8_t) sizeof *p;
    p->version = 2;
    p->default_rights = rights_all();
    op.phases.push_back(key_phase("import", [=](const Caller& c, sa_key, sa_key* k) {
        Exact e(*text);
        return c.key_import(k, SA_KEY_FORMAT_SOC, e.p, e.n, with ? p.get() : nullptr);
    }));
    return op;
}
// Provisioning for another TA: no key stays behind, whatever happens.
inline Op op_provision(Src& src) {
    Op op;
    op.name = "provision";
    struct St {
        Bytes a, b, cert = Bytes(20, 0x30);
        sa_import_parameters_soc p;
        WidevineOemProvisioning w;
        PlayReadyProvisioning r;
        NetflixProvisioning n;
    };
    auto t = std::make_shared<St>();
    memset(&t->p, 0, sizeof t->p);
    t->p.length[0] = (uint8_t) (sizeof t->p >> 8);
    t->p.length[1] = (uint8_t) sizeof t->p;
    t->p.version = 2;
    t->p.default_rights = rights_all();
    op.keyless = true;
    Soc sa = gen_soc(src), sb = gen_soc(src);
    op.imports = sa.mat;
    if (sb.mat.type == SA_KEY_TYPE_SYMMETRIC) op.stages.push_back({"the wrapping key brought in", sb.mat.clear});
    t->a = sa.text();
    t->b = sb.text();
    t->w = {(unsigned) t->a.size(), t->a.data(), 20, t->cert.data()};
    t->r = {PLAYREADY_MODEL_3K, (unsigned) t->a.size(), t->a.data(), 20, t->cert.data()};
    t->n = {(unsigned) t->a.size(), t->a.data(), (unsigned) t->b.size(), t->b.data(), 20, t->cert.data()};
    int kind = (int) src.below(3);
    Phase p;
    p.name = kind == 0 ? "widevine" : kind == 1 ? "playready" : "netflix";
    p.fn = [=](const Caller&, sa_key, Obs&) {
        switch (kind) {
            case 0: return sa_key_provision_ta(WIDEVINE_OEM_PROVISIONING, &t->w, sizeof t->w, &t->p);
            case 1: return sa_key_provision_ta(PLAYREADY_MODEL_PROVISIONING, &t->r, sizeof t->r, &t->p);
            default: return sa_key_provision_ta(NETFLIX_PROVISIONING, &t->n, sizeof t->n, &t->p);
        }
    };
    op.phases.push_back(p);
    return op;
}
inline Op op_ladder(Src& src) {
    Op op;
    op.creates_key = true;
    op.keyless = true;
    bool common = src.coin();
    op.name = common ? "common root key ladder" : "root key ladder";
    auto in = std::make_shared<std::vector<Bytes>>();
    for (int i = 0; i < 4; i++) in->push_back(src.bytes(16));
    op.phases.push_back(key_phase("derive", [=](const Caller& c, sa_key, sa_key* k) {
        sa_rights r = rights_all();
        Exact a((*in)[0]), b((*in)[1]), d((*in)[2]), e((*in)[3]);
        sa_kdf_parameters_root_key_ladder p = {a.p, 16, b.p, 16, d.p, 16, e.p, 16};
        return c.key_derive(k, &r, common ? SA_KDF_ALGORITHM_COMMON_ROOT_KEY_LADDER : SA_KDF_ALGORITHM_ROOT_KEY_LADDER, &p);
    }));
    return op;
}
inline Op gen_op(Src& src) {
    switch (src.weighted({8, 4, 3, 2, 5, 5, 5, 6, 3, 2, 2, 2, 2})) {
        case 0: return op_cipher(src);
        case 1: return op_asym_decrypt(src);
        case 2: return op_mac(src);
        case 3: return op_mac_key(src);
        case 4: return op_sign(src);
        case 5: return op_derive(src);
        case 6: return op_exchange(src);
        case 7: return op_unwrap(src);
        case 8: return op_typej(src);
        case 9: return op_export(src);
        case 10: return op_key_check(src);
        case 11: return op_cenc(src);
        default: return op_read(src);
    }
}
// The key under test, brought into being in one of several ways that all give it exactly these rights.
inline sa_key make_key(Src& src, const Caller& c, const Op& op, const sa_rights& r, std::string* how = nullptr) {
    if (op.make) {
        if (how) *how = "generated";
        return op.make(c, r);
    }
    size_t way = src.below(3);
    if (way == 1) {
        if (how) *how = "unwrapped";
        Wrapped w = make_wrapped(src, SA_CIPHER_ALGORITHM_AES_CTR, op.mat.clear);
        sa_key wk = must_import(c, w.key, rights_all()), k = INVALID_HANDLE;
        sa_unwrap_type_parameters_ec tp = {op.mat.curve};
        sa_status s = w.unwrap(c, &k, &r, op.mat.type, op.mat.type == SA_KEY_TYPE_EC ? &tp : nullptr, wk);
        if (s != SA_STATUS_OK) pbt::fail("unwrap: %s", sname(s));
        return k;
    }
    sa_key k = must_import(c, op.mat, r);
    if (way == 2 && ((r.usage_flags >> SA_USAGE_FLAG_CACHEABLE) & 1)) {
        if (how) *how = "exported and imported";
        Bytes b;
        sa_key k2 = INVALID_HANDLE;
        sa_status s = export_key(c, k, nullptr, b);
        if (s != SA_STATUS_OK) pbt::fail("export: %s", sname(s));
        s = import_exported(c, &k2, b);
        if (s != SA_STATUS_OK) pbt::fail("import of an exported key: %s", sname(s));
        return k2;
    }
    if (how) *how = "imported";
    return k;
}
}  // namespace sec
