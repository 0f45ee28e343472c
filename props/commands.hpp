// Commands as the normal world could send them to the TA, well formed or deformed.
#pragma once
#include "container.hpp"
#include "ops.hpp"
using namespace sec;
enum : uint32_t { NONE = TEEC_NONE, IN = TEEC_MEMREF_TEMP_INPUT, OUT = TEEC_MEMREF_TEMP_OUTPUT, INOUT = TEEC_MEMREF_TEMP_INOUT };
struct Par {
    uint32_t type = NONE;
    bool null = true;
    Bytes data;
    uint64_t size = 0;      // used when null (or a value parameter)
    uint64_t ref = 0;       // value parameters
    size_t n() const { return null ? size : data.size(); }
};
struct Cmd {
    uint32_t id = 0;
    Par p[4];
    std::vector<std::shared_ptr<Exact>> hold;   // buffers referred to from inside a parameter
    const char* bad = nullptr;                  // why the layout is not the documented one
};
static int cls(uint32_t t) {   // 0 none, 1 in, 2 out, 3 inout, 4 value, 5 other
    switch (t) {
        case TEEC_NONE: return 0;
        case TEEC_MEMREF_TEMP_INPUT: case TEEC_MEMREF_PARTIAL_INPUT: return 1;
        case TEEC_MEMREF_TEMP_OUTPUT: case TEEC_MEMREF_PARTIAL_OUTPUT: return 2;
        case TEEC_MEMREF_TEMP_INOUT: case TEEC_MEMREF_PARTIAL_INOUT: return 3;
        case TEEC_VALUE_INPUT: case TEEC_VALUE_OUTPUT: case TEEC_VALUE_INOUT: return 4;
        default: return 5;
    }
}
template <class T> static Bytes raw(const T& t) { return Bytes((const uint8_t*) &t, (const uint8_t*) &t + sizeof t); }
static Par par(uint32_t type, const Bytes& b) {
    Par p;
    p.type = type;
    p.null = false;
    p.data = b;
    return p;
}
template <class T> static Par parT(uint32_t type, const T& t) { return par(type, raw(t)); }

struct World {
    void* session = nullptr;
    std::vector<sa_key> sym, ec, rsa, dh, keys;
    std::vector<uint64_t> ciphers, macs, svps;
    sa_key guard_key = INVALID_HANDLE;
    uint64_t guard_mac = INVALID_HANDLE, guard_svp = INVALID_HANDLE;
    Bytes guard_bytes, mac_data;
    std::vector<std::shared_ptr<Guarded>> mem;
    std::shared_ptr<Guarded> guard_mem;
    sa_status run(Cmd& c) {
        ta_param tp[4];
        uint32_t types[4];
        std::vector<std::unique_ptr<Exact>> m(4);
        for (int i = 0; i < 4; i++) {
            types[i] = c.p[i].type;
            int k = cls(types[i]);
            if (c.p[i].null || k == 4 || k == 5) {
                tp[i].mem_ref = (void*) c.p[i].ref;
                tp[i].mem_ref_size = c.p[i].null ? c.p[i].size : c.p[i].data.size();
            } else {
                m[i].reset(new Exact(c.p[i].data));
                tp[i].mem_ref = m[i]->p;
                tp[i].mem_ref_size = m[i]->n;
            }
        }
        sa_status s = ta_invoke_command_handler(session, (SA_COMMAND_ID) c.id, types, tp);
        for (int i = 0; i < 4; i++) {
            if (!m[i]) continue;
            Bytes now(m[i]->p, m[i]->p + m[i]->n);
            int k = cls(types[i]);
            if (k == 1) REQUIRE(now == c.p[i].data, "command %u wrote to its input-only parameter %d", c.id, i);
            if (k == 0) REQUIRE(now == c.p[i].data, "command %u wrote to memory of a parameter declared unused (%d)", c.id, i);
            if (c.bad && i > 0)
                REQUIRE(now == c.p[i].data, "command %u, rejected for its layout (%s), wrote to parameter %d", c.id, c.bad, i);
            c.p[i].data = now;
        }
        for (auto& g : mem) REQUIRE(g->intact(), "memory around an SVP buffer was written");
        return s;
    }
    template <class T> T get(const Cmd& c) const {
        T t;
        memcpy(&t, c.p[0].data.data(), sizeof t);
        return t;
    }
    template <class T> sa_status simple(uint32_t id, T& t, std::initializer_list<Par> rest, uint32_t type = INOUT) {
        Cmd c;
        c.id = id;
        c.p[0] = parT(type, t);
        int i = 1;
        for (auto& p : rest) c.p[i++] = p;
        sa_status s = run(c);
        if (type == INOUT) t = get<T>(c);
        return s;
    }
    sa_key import(sa_key_format f, const Bytes& b, sa_elliptic_curve cv = SA_ELLIPTIC_CURVE_NIST_P256) {
        sa_key_import_s k;
        memset(&k, 0, sizeof k);
        k.api_version = API_VERSION;
        k.key_format = f;
        k.curve = cv;
        k.key = INVALID_HANDLE;
        sa_rights r = rights_all();
        sa_status s = simple(SA_KEY_IMPORT, k, {par(IN, b), parT(IN, r)});
        if (s != SA_STATUS_OK) pbt::fail("import: %s", sname(s));
        return k.key;
    }
    uint64_t cipher(uint32_t alg, uint32_t mode, sa_key key, const Bytes& iv) {
        sa_crypto_cipher_init_s k;
        memset(&k, 0, sizeof k);
        k.api_version = API_VERSION;
        k.cipher_algorithm = alg;
        k.cipher_mode = mode;
        k.key = key;
        Par p1;
        if (!iv.empty()) p1 = par(IN, iv);
        sa_status s = simple(SA_CRYPTO_CIPHER_INIT, k, {p1});
        if (s != SA_STATUS_OK) pbt::fail("cipher init: %s", sname(s));
        return k.context;
    }
    uint64_t mac(sa_key key) {
        sa_crypto_mac_init_s k;
        memset(&k, 0, sizeof k);
        k.api_version = API_VERSION;
        k.mac_algorithm = SA_MAC_ALGORITHM_CMAC;
        k.key = key;
        sa_status s = simple(SA_CRYPTO_MAC_INIT, k, {});
        if (s != SA_STATUS_OK) pbt::fail("mac init: %s", sname(s));
        return k.context;
    }
    uint64_t svp(size_t n, std::shared_ptr<Guarded>* keep = nullptr) {
        auto g = std::make_shared<Guarded>(n, 0x5c);
        mem.push_back(g);
        if (keep) *keep = g;
        sa_svp_buffer_create_s k;
        memset(&k, 0, sizeof k);
        k.api_version = API_VERSION;
        k.svp_memory = (uint64_t) g->data();
        k.size = n;
        sa_status s = simple(SA_SVP_BUFFER_CREATE, k, {});
        if (s != SA_STATUS_OK) pbt::fail("svp create: %s", sname(s));
        return k.svp_buffer;
    }
    void open(Src& src) {
        if (ta_open_session_handler(&session) != SA_STATUS_OK) pbt::fail("cannot open a session");
        guard_bytes = src.bytes(16);
        guard_key = import(SA_KEY_FORMAT_SYMMETRIC_BYTES, guard_bytes);
        guard_mac = mac(guard_key);
        guard_svp = svp(64, &guard_mem);
        mac_data = src.bytes(src.size(1, 40));
        sa_crypto_mac_process_s mp;
        memset(&mp, 0, sizeof mp);
        mp.api_version = API_VERSION;
        mp.mac_context = guard_mac;
        if (simple(SA_CRYPTO_MAC_PROCESS, mp, {par(IN, mac_data)}, IN) != SA_STATUS_OK) pbt::fail("mac process");
        Bytes k16 = src.bytes(16);
        sym = {import(SA_KEY_FORMAT_SYMMETRIC_BYTES, k16), import(SA_KEY_FORMAT_SYMMETRIC_BYTES, src.bytes(32)),
                import(SA_KEY_FORMAT_SYMMETRIC_BYTES, src.bytes(src.size(16, 512)))};
        Mat e = mat_ec(src, ALL_CURVES[src.below(9)]);
        ec = {import(SA_KEY_FORMAT_EC_PRIVATE_BYTES, e.clear, e.curve)};
        rsa = {import(SA_KEY_FORMAT_RSA_PRIVATE_KEY_INFO, mat_rsa(src, 128).clear)};
        keys = sym;
        keys.insert(keys.end(), ec.begin(), ec.end());
        keys.insert(keys.end(), rsa.begin(), rsa.end());
        static const uint32_t algs[] = {SA_CIPHER_ALGORITHM_AES_ECB, SA_CIPHER_ALGORITHM_AES_ECB_PKCS7, SA_CIPHER_ALGORITHM_AES_CBC,
                SA_CIPHER_ALGORITHM_AES_CBC_PKCS7, SA_CIPHER_ALGORITHM_AES_CTR, SA_CIPHER_ALGORITHM_AES_GCM};
        for (int i = 0; i < 3; i++) {
            uint32_t a = algs[src.below(6)];
            ciphers.push_back(cipher(a, src.coin() ? SA_CIPHER_MODE_DECRYPT : SA_CIPHER_MODE_ENCRYPT, sym[src.below(2)],
                    a == SA_CIPHER_ALGORITHM_AES_GCM ? Bytes(12, 3) : a <= SA_CIPHER_ALGORITHM_AES_ECB_PKCS7 ? Bytes() : Bytes(16, 5)));
        }
        ciphers.push_back(cipher(SA_CIPHER_ALGORITHM_AES_CTR, SA_CIPHER_MODE_DECRYPT, sym[0], Bytes(16, 5)));   // for CENC
        macs = {mac(sym[0])};
        svps = {svp(src.size(16, 100)), svp(64)};
    }
    // the session and what lives in it are as before
    void check() {
        sa_key_digest_s d;
        memset(&d, 0, sizeof d);
        d.api_version = API_VERSION;
        d.out_length = 32;
        d.key = guard_key;
        d.digest_algorithm = SA_DIGEST_ALGORITHM_SHA256;
        Cmd c;
        c.id = SA_KEY_DIGEST;
        c.p[0] = parT(INOUT, d);
        c.p[1] = par(OUT, Bytes(32));
        sa_status s = run(c);
        REQUIRE(s == SA_STATUS_OK && c.p[1].data == ref_digest(SA_DIGEST_ALGORITHM_SHA256, guard_bytes), "a key of the session changed (%s)", sname(s));
        REQUIRE(guard_mem->untouched(0, 64) && guard_mem->intact(), "an SVP buffer nobody wrote to changed");
    }
    void close() {
        check();
        Bytes out(16);
        sa_crypto_mac_compute_s m;
        memset(&m, 0, sizeof m);
        m.api_version = API_VERSION;
        m.out_length = 16;
        m.context = guard_mac;
        Cmd c;
        c.id = SA_CRYPTO_MAC_COMPUTE;
        c.p[0] = parT(INOUT, m);
        c.p[1] = par(OUT, out);
        sa_status s = run(c);
        REQUIRE(s == SA_STATUS_OK && c.p[1].data == ref_cmac(guard_bytes, mac_data), "a MAC context of the session changed (%s)", sname(s));
        sa_svp_buffer_release_s r;
        memset(&r, 0, sizeof r);
        r.api_version = API_VERSION;
        r.svp_buffer = guard_svp;
        s = simple(SA_SVP_BUFFER_RELEASE, r, {});
        REQUIRE(s == SA_STATUS_OK && r.svp_memory == (uint64_t) guard_mem->data() && r.size == 64, "an SVP buffer of the session changed (%s)", sname(s));
        ta_close_session_handler(session);
    }
};
static uint64_t wild(Src& src) {
    return src.pick<uint64_t>({0, 1, 15, 16, 17, 24, 255, 256, 4096, 0x7fffffff, 0x80000000ULL, 0xffffffffULL, 0x100000000ULL, 1ULL << 60, (1ULL << 60) + 1,
            1ULL << 63, ~0ULL, ~0ULL - 15, ~0ULL / 16 + 2, ~0ULL / 24 + 1});
}
static uint64_t num(Src& src, uint64_t good) { return src.chance(1, 8) ? src.pick<uint64_t>({wild(src), good + 1, good - 1, good * 2, src.below(600)}) : good; }
static uint32_t en(Src& src, uint32_t n) { return src.chance(1, 12) ? (uint32_t) src.pick<uint64_t>({n, n + 1, 255, 256, 0x7fffffff, 0x80000000ULL, 0xffffffffULL}) : (uint32_t) src.below(n); }
static uint64_t handle(Src& src, const World& w, const std::vector<uint64_t>& v) {
    uint64_t h = v.empty() || src.chance(1, 8) ? src.pick<uint64_t>({INVALID_HANDLE, 0, src.below(300), src.any(), (uint64_t) 1 << 63, 256, (1ULL << 32) | 3}) : v[src.below(v.size())];
    if (h == w.guard_key || h == w.guard_mac || h == w.guard_svp) return INVALID_HANDLE;
    return h;
}
static sa_rights some_rights(Src& src) {
    sa_rights r = rights_all();
    if (src.chance(1, 4)) src.fill(&r, sizeof r);
    else if (src.chance(1, 3)) r.usage_flags = src.any();
    return r;
}
static const uint32_t DIG = 4, CURVES = 9, CIPHERS = 12;
static Par opt(Src& src, uint32_t type, const Bytes& b) {
    return src.chance(1, 4) ? Par() : par(type, b);
}
// A command much like one the client library would send.
static Cmd make(Src& src, World& w) {
    Cmd c;
    static const uint32_t ids[] = {SA_GET_VERSION, SA_GET_NAME, SA_GET_DEVICE_ID, SA_GET_TA_UUID, SA_KEY_GENERATE, SA_KEY_EXPORT, SA_KEY_IMPORT, SA_KEY_UNWRAP,
            SA_KEY_GET_PUBLIC, SA_KEY_DERIVE, SA_KEY_EXCHANGE, SA_KEY_RELEASE, SA_KEY_HEADER, SA_KEY_DIGEST, SA_CRYPTO_RANDOM, SA_CRYPTO_CIPHER_INIT,
            SA_CRYPTO_CIPHER_UPDATE_IV, SA_CRYPTO_CIPHER_PROCESS, SA_CRYPTO_CIPHER_PROCESS_LAST, SA_CRYPTO_CIPHER_RELEASE, SA_CRYPTO_MAC_INIT,
            SA_CRYPTO_MAC_PROCESS, SA_CRYPTO_MAC_PROCESS_KEY, SA_CRYPTO_MAC_COMPUTE, SA_CRYPTO_MAC_RELEASE, SA_CRYPTO_SIGN, SA_SVP_SUPPORTED,
            SA_SVP_BUFFER_CREATE, SA_SVP_BUFFER_RELEASE, SA_SVP_BUFFER_WRITE, SA_SVP_BUFFER_COPY, SA_SVP_KEY_CHECK, SA_SVP_BUFFER_CHECK,
            SA_PROCESS_COMMON_ENCRYPTION, SA_KEY_PROVISION_TA, SA_SVP_BUFFER_ALLOC, SA_SVP_BUFFER_FREE, 0};
    size_t k = src.weighted({1, 2, 1, 1, 4, 3, 6, 8, 3, 8, 4, 1, 3, 3, 2, 6, 3, 9, 9, 1, 3, 3, 2, 3, 1, 5, 1, 3, 1, 4, 4, 4, 4, 9, 5, 1, 1, 1});
    c.id = ids[k];
    Bytes buf = src.bytes(src.size(0, 80));
    auto svp_ref = [&](uint32_t type) { return parT(type, handle(src, w, w.svps)); };
    switch (c.id) {
#define BEGIN(T)             \
    {                        \
        T s;                 \
        memset(&s, 0, sizeof s); \
        s.api_version = API_VERSION;
#define END(TYPE)              \
    c.p[0] = parT(TYPE, s);    \
    break;                     \
    }
        case SA_GET_VERSION: BEGIN(sa_get_version_s) END(INOUT)
        case SA_GET_NAME: BEGIN(sa_get_name_s)
            size_t n = src.size(0, 40);
            c.p[1] = opt(src, OUT, Bytes(n, 0xa5));
            s.name_length = num(src, c.p[1].n());
            END(INOUT)
        case SA_GET_DEVICE_ID: BEGIN(sa_get_device_id_s) END(INOUT)
        case SA_GET_TA_UUID: BEGIN(sa_get_ta_uuid_s) END(INOUT)
        case SA_KEY_GENERATE: BEGIN(sa_key_generate_s)
            s.rights = some_rights(src);
            s.key_type = en(src, 4);
            s.key_length = s.key_type == SA_KEY_TYPE_RSA ? (src.chance(1, 6) ? 128 : wild(src)) : s.key_type == SA_KEY_TYPE_EC ? en(src, CURVES) : num(src, src.range(16, 64));
            if (s.key_type == SA_KEY_TYPE_RSA && s.key_length > 128 && s.key_length <= 512) s.key_length = 128;
            if (s.key_type == SA_KEY_TYPE_DH || src.chance(1, 6)) {
                const DhGroup& g = dh_groups()[src.below(2)];
                c.p[1] = opt(src, IN, src.chance(1, 3) ? src.bytes(src.size(0, 600)) : g.p);
                c.p[2] = opt(src, IN, src.chance(1, 3) ? src.bytes(src.size(0, 600)) : g.g);
            }
            END(INOUT)
        case SA_KEY_EXPORT: BEGIN(sa_key_export_s)
            s.key = handle(src, w, w.keys);
            c.p[1] = opt(src, OUT, Bytes(src.size(0, 2000), 0xa5));
            c.p[2] = opt(src, IN, Bytes(num(src, 16) % 100, 1));
            s.out_length = num(src, c.p[1].n());
            END(INOUT)
        case SA_KEY_IMPORT: BEGIN(sa_key_import_s)
            s.key_format = en(src, 7);
            s.curve = en(src, CURVES);
            sa_rights r = some_rights(src);
            c.p[1] = par(IN, buf);
            c.p[2] = parT(IN, r);
            if (s.key_format == SA_KEY_FORMAT_EC_PRIVATE_BYTES) {
                Mat m = mat_ec(src, ALL_CURVES[src.below(9)]);
                s.curve = m.curve;
                c.p[1] = par(IN, m.clear);
            } else if (s.key_format == SA_KEY_FORMAT_RSA_PRIVATE_KEY_INFO && src.coin()) c.p[1] = par(IN, mat_rsa(src, 128).clear);
            else if (s.key_format == SA_KEY_FORMAT_EXPORTED) c.p[2] = Par();
            else if (s.key_format == SA_KEY_FORMAT_TYPEJ) {
                sa_import_parameters_typej t = {handle(src, w, w.sym), handle(src, w, w.sym)};
                c.p[1] = par(IN, gen_typej(src).text());
                c.p[2] = parT(IN, t);
            } else if (s.key_format == SA_KEY_FORMAT_SOC) {
                sa_import_parameters_soc t;
                memset(&t, 0, sizeof t);
                t.length[0] = sizeof t >> 8;
                t.length[1] = sizeof t & 255;
                t.version = (uint8_t) src.pick({2, 3, 4});
                t.default_rights = r;
                c.p[1] = par(IN, gen_soc(src).text());
                c.p[2] = src.chance(1, 3) ? Par() : parT(IN, t);
            }
            END(INOUT)
        case SA_KEY_PROVISION_TA: BEGIN(sa_key_provision_ta_s)
            s.key = src.pick<uint64_t>({0, INVALID_HANDLE, w.guard_key, src.below(40)});
            s.key_format = src.chance(3, 4) ? (uint32_t) SA_KEY_FORMAT_PROVISION_TA : en(src, 7);
            int t = src.chance(3, 4) ? src.pick({(int) WIDEVINE_OEM_PROVISIONING, (int) PLAYREADY_MODEL_PROVISIONING, (int) NETFLIX_PROVISIONING}) : (int) en(src, 6);
            auto blob = [&](unsigned* n) -> void* {
                if (src.chance(1, 6)) {
                    *n = (unsigned) src.below(20);
                    return nullptr;
                }
                c.hold.push_back(std::make_shared<Exact>(src.chance(2, 3) ? gen_soc(src).text() : src.bytes(src.size(1, 40))));
                *n = (unsigned) c.hold.back()->n;
                return c.hold.back()->p;
            };
            if (t == NETFLIX_PROVISIONING) {
                NetflixProvisioning x;
                memset(&x, 0, sizeof x);
                x.hmacKey = blob(&x.hmacKeyLength);
                x.wrappingKey = blob(&x.wrappingKeyLength);
                x.esnContainer = blob(&x.esnContainerLength);
                c.p[1] = parT(IN, x);
            } else if (t == PLAYREADY_MODEL_PROVISIONING) {
                PlayReadyProvisioning x;
                memset(&x, 0, sizeof x);
                x.modelType = (unsigned) src.below(3);
                x.privateKey = blob(&x.privateKeyLength);
                x.modelCertificate = blob(&x.modelCertificateLength);
                c.p[1] = parT(IN, x);
            } else {
                WidevineOemProvisioning x;
                memset(&x, 0, sizeof x);
                x.oemDevicePrivateKey = blob(&x.oemDevicePrivateKeyLength);
                x.oemDeviceCertificate = blob(&x.oemDeviceCertificateLength);
                c.p[1] = parT(IN, x);
            }
            if (src.coin()) {
                sa_import_parameters_soc q;
                memset(&q, 0, sizeof q);
                q.length[0] = sizeof q >> 8;
                q.length[1] = sizeof q & 255;
                q.version = 2;
                q.default_rights = some_rights(src);
                c.p[2] = parT(IN, q);
            }
            c.p[3] = parT(IN, t);
            END(INOUT)
        case SA_KEY_UNWRAP: BEGIN(sa_key_unwrap_s)
            s.rights = some_rights(src);
            s.key_type = en(src, 3);
            s.curve = en(src, CURVES);
            s.cipher_algorithm = en(src, CIPHERS);
            s.wrapping_key = handle(src, w, s.cipher_algorithm == SA_CIPHER_ALGORITHM_RSA_OAEP || s.cipher_algorithm == SA_CIPHER_ALGORITHM_RSA_PKCS1V15 ? w.rsa
                    : s.cipher_algorithm == SA_CIPHER_ALGORITHM_EC_ELGAMAL ? w.ec : w.sym);
            c.p[1] = opt(src, IN, src.chance(1, 4) ? buf : src.bytes(src.pick<size_t>({16, 32, 48, 64, 128, 130})));
            switch (s.cipher_algorithm) {
                case SA_CIPHER_ALGORITHM_AES_CBC: case SA_CIPHER_ALGORITHM_AES_CBC_PKCS7: case SA_CIPHER_ALGORITHM_AES_CTR:
                    c.p[2] = par(IN, src.bytes(sizeof(sa_unwrap_parameters_aes_iv_s)));
                    break;
                case SA_CIPHER_ALGORITHM_AES_GCM: {
                    sa_unwrap_parameters_aes_gcm_s x;
                    memset(&x, 0, sizeof x);
                    x.iv_length = num(src, 12);
                    x.tag_length = num(src, 16);
                    c.p[2] = parT(IN, x);
                    c.p[3] = opt(src, IN, buf);
                    break;
                }
                case SA_CIPHER_ALGORITHM_CHACHA20: {
                    sa_unwrap_parameters_chacha20_s x;
                    memset(&x, 0, sizeof x);
                    x.counter_length = num(src, 4);
                    x.nonce_length = num(src, 12);
                    c.p[2] = parT(IN, x);
                    break;
                }
                case SA_CIPHER_ALGORITHM_CHACHA20_POLY1305: {
                    sa_unwrap_parameters_chacha20_poly1305_s x;
                    memset(&x, 0, sizeof x);
                    x.nonce_length = num(src, 12);
                    x.tag_length = num(src, 16);
                    c.p[2] = parT(IN, x);
                    c.p[3] = opt(src, IN, buf);
                    break;
                }
                case SA_CIPHER_ALGORITHM_EC_ELGAMAL: {
                    sa_unwrap_parameters_ec_elgamal_s x = {num(src, 0), num(src, 16)};
                    c.p[2] = parT(IN, x);
                    break;
                }
                case SA_CIPHER_ALGORITHM_RSA_OAEP: {
                    sa_unwrap_parameters_rsa_oaep_s x = {en(src, DIG), en(src, DIG)};
                    c.p[2] = parT(IN, x);
                    c.p[3] = opt(src, IN, buf);
                    break;
                }
                default: break;
            }
            END(INOUT)
        case SA_KEY_GET_PUBLIC: BEGIN(sa_key_get_public_s)
            s.key = handle(src, w, w.keys);
            c.p[1] = opt(src, OUT, Bytes(src.size(0, 700), 0xa5));
            s.out_length = num(src, c.p[1].n());
            END(INOUT)
        case SA_KEY_DERIVE: BEGIN(sa_key_derive_s)
            s.rights = some_rights(src);
            s.kdf_algorithm = en(src, 7);
            switch (s.kdf_algorithm) {
                case SA_KDF_ALGORITHM_ROOT_KEY_LADDER: case SA_KDF_ALGORITHM_COMMON_ROOT_KEY_LADDER:
                    c.p[1] = par(IN, src.bytes(sizeof(sa_kdf_parameters_root_key_ladder_s)));
                    break;
                case SA_KDF_ALGORITHM_CMAC: {
                    sa_kdf_parameters_cmac_s x;
                    memset(&x, 0, sizeof x);
                    x.key_length = num(src, 16);
                    x.parent = handle(src, w, w.sym);
                    x.counter = (uint8_t) src.below(6);
                    c.p[1] = parT(IN, x);
                    break;
                }
                case SA_KDF_ALGORITHM_NETFLIX: {
                    sa_kdf_parameters_netflix_s x = {handle(src, w, w.sym), handle(src, w, w.sym)};
                    c.p[1] = parT(IN, x);
                    break;
                }
                default: {
                    sa_kdf_parameters_hkdf_s x;
                    memset(&x, 0, sizeof x);
                    x.key_length = num(src, src.range(16, 100));
                    x.digest_algorithm = en(src, DIG);
                    x.parent = handle(src, w, w.sym);
                    c.p[1] = parT(IN, x);
                }
            }
            c.p[2] = opt(src, IN, buf);
            c.p[3] = opt(src, IN, src.bytes(src.size(0, 40)));
            END(INOUT)
        case SA_KEY_EXCHANGE: BEGIN(sa_key_exchange_s)
            s.rights = some_rights(src);
            s.key_exchange_algorithm = en(src, 3);
            s.private_key = handle(src, w, s.key_exchange_algorithm == SA_KEY_EXCHANGE_ALGORITHM_ECDH ? w.ec : w.dh.empty() ? w.keys : w.dh);
            Bytes pub = buf;
            if (src.coin()) {
                if (s.key_exchange_algorithm == SA_KEY_EXCHANGE_ALGORITHM_ECDH) pub = peer(ALL_CURVES[src.below(5)]).pub();
                else {
                    EVP_PKEY* q = dh_pkey(dh_groups()[0].p, dh_groups()[0].g, Bytes(40, 0x35));
                    pub = spki(q);
                    EVP_PKEY_free(q);
                }
            }
            c.p[1] = par(IN, pub);
            if (s.key_exchange_algorithm == SA_KEY_EXCHANGE_ALGORITHM_NETFLIX_AUTHENTICATED_DH || src.chance(1, 8)) {
                sa_key_exchange_parameters_netflix_authenticated_dh_s x;
                memset(&x, 0, sizeof x);
                x.in_kw = handle(src, w, w.sym);
                x.rights_ke = x.rights_kh = some_rights(src);
                c.p[2] = parT(INOUT, x);
            }
            END(INOUT)
        case SA_KEY_RELEASE: BEGIN(sa_key_release_s)
            s.key = handle(src, w, w.keys);
            END(IN)
        case SA_KEY_HEADER: BEGIN(sa_key_header_s)
            s.key = handle(src, w, w.keys);
            c.p[1] = par(OUT, Bytes(sizeof(sa_header_s), 0xa5));
            END(INOUT)
        case SA_KEY_DIGEST: BEGIN(sa_key_digest_s)
            s.key = handle(src, w, w.keys);
            s.digest_algorithm = en(src, DIG);
            c.p[1] = opt(src, OUT, Bytes(src.size(0, 70), 0xa5));
            s.out_length = num(src, c.p[1].n());
            END(INOUT)
        case SA_CRYPTO_RANDOM: BEGIN(sa_crypto_random_s)
            c.p[1] = par(OUT, Bytes(src.size(0, 70), 0xa5));
            END(IN)
        case SA_CRYPTO_CIPHER_INIT: BEGIN(sa_crypto_cipher_init_s)
            s.cipher_algorithm = en(src, CIPHERS);
            s.cipher_mode = en(src, 2);
            bool asym = s.cipher_algorithm == SA_CIPHER_ALGORITHM_RSA_OAEP || s.cipher_algorithm == SA_CIPHER_ALGORITHM_RSA_PKCS1V15;
            s.key = handle(src, w, asym ? w.rsa : s.cipher_algorithm == SA_CIPHER_ALGORITHM_EC_ELGAMAL ? w.ec : w.sym);
            switch (s.cipher_algorithm) {
                case SA_CIPHER_ALGORITHM_AES_CBC: case SA_CIPHER_ALGORITHM_AES_CBC_PKCS7: case SA_CIPHER_ALGORITHM_AES_CTR:
                    c.p[1] = par(IN, src.bytes(num(src, 16) % 70));
                    break;
                case SA_CIPHER_ALGORITHM_AES_GCM: case SA_CIPHER_ALGORITHM_CHACHA20_POLY1305:
                    c.p[1] = par(IN, src.bytes(num(src, 12) % 70));
                    c.p[2] = opt(src, IN, buf);
                    break;
                case SA_CIPHER_ALGORITHM_CHACHA20:
                    c.p[1] = par(IN, src.bytes(num(src, 12) % 70));
                    c.p[2] = par(IN, src.bytes(num(src, 4) % 70));
                    break;
                case SA_CIPHER_ALGORITHM_RSA_OAEP: {
                    sa_cipher_parameters_rsa_oaep_s x = {en(src, DIG), en(src, DIG)};
                    c.p[1] = parT(IN, x);
                    c.p[2] = opt(src, IN, buf);
                    break;
                }
                default: break;
            }
            END(INOUT)
        case SA_CRYPTO_CIPHER_UPDATE_IV: BEGIN(sa_crypto_cipher_update_iv_s)
            s.context = handle(src, w, w.ciphers);
            c.p[1] = par(IN, src.bytes(num(src, 16) % 70));
            END(IN)
        case SA_CRYPTO_CIPHER_PROCESS: case SA_CRYPTO_CIPHER_PROCESS_LAST: BEGIN(sa_crypto_cipher_process_s)
            s.context = handle(src, w, w.ciphers);
            s.out_buffer_type = src.chance(1, 12) ? en(src, 4) : src.chance(1, 4) ? SA_BUFFER_TYPE_SVP : SA_BUFFER_TYPE_CLEAR;
            s.in_buffer_type = src.chance(1, 12) ? en(src, 4) : src.chance(1, 5) ? SA_BUFFER_TYPE_SVP : SA_BUFFER_TYPE_CLEAR;
            size_t n = src.chance(1, 3) ? src.size(0, 80) : 16 * src.range(0, 4);
            s.bytes_to_process = num(src, n);
            s.out_offset = src.chance(1, 6) ? wild(src) : 0;
            s.in_offset = src.chance(1, 6) ? wild(src) : 0;
            if (s.out_buffer_type == SA_BUFFER_TYPE_CLEAR) c.p[1] = opt(src, OUT, Bytes(num(src, n + 16) % 200, 0xa5));
            else
                c.p[1] = svp_ref(IN);
            c.p[2] = s.in_buffer_type == SA_BUFFER_TYPE_CLEAR ? par(IN, src.bytes(n)) : svp_ref(IN);
            if (c.id == SA_CRYPTO_CIPHER_PROCESS_LAST && src.coin()) c.p[3] = par(INOUT, src.bytes(num(src, 16) % 70));
            END(INOUT)
        case SA_CRYPTO_CIPHER_RELEASE: BEGIN(sa_crypto_cipher_release_s)
            s.cipher_context = handle(src, w, w.ciphers);
            END(IN)
        case SA_CRYPTO_MAC_INIT: BEGIN(sa_crypto_mac_init_s)
            s.mac_algorithm = en(src, 2);
            s.key = handle(src, w, w.sym);
            s.digest_algorithm = en(src, DIG);
            END(INOUT)
        case SA_CRYPTO_MAC_PROCESS: BEGIN(sa_crypto_mac_process_s)
            s.mac_context = handle(src, w, w.macs);
            c.p[1] = opt(src, IN, buf);
            END(IN)
        case SA_CRYPTO_MAC_PROCESS_KEY: BEGIN(sa_crypto_mac_process_key_s)
            s.mac_context = handle(src, w, w.macs);
            s.key = handle(src, w, w.keys);
            END(IN)
        case SA_CRYPTO_MAC_COMPUTE: BEGIN(sa_crypto_mac_compute_s)
            s.context = handle(src, w, w.macs);
            c.p[1] = opt(src, OUT, Bytes(src.size(0, 70), 0xa5));
            s.out_length = num(src, c.p[1].n());
            END(INOUT)
        case SA_CRYPTO_MAC_RELEASE: BEGIN(sa_crypto_mac_release_s)
            s.context = handle(src, w, w.macs);
            END(IN)
        case SA_CRYPTO_SIGN: BEGIN(sa_crypto_sign_s)
            s.signature_algorithm = en(src, 4);
            s.digest_algorithm = en(src, DIG);
            s.mgf1_digest_algorithm = en(src, DIG);
            s.salt_length = num(src, 20);
            s.precomputed_digest = (uint8_t) src.pick({0, 1, 2, 255});
            s.key = handle(src, w, s.signature_algorithm <= SA_SIGNATURE_ALGORITHM_RSA_PSS ? w.rsa : w.ec);
            c.p[1] = opt(src, OUT, Bytes(src.size(0, 300), 0xa5));
            c.p[2] = opt(src, IN, src.chance(1, 3) ? src.bytes(src.pick<size_t>({20, 32, 48, 64})) : buf);
            s.out_length = num(src, c.p[1].n());
            END(INOUT)
        case SA_SVP_SUPPORTED: BEGIN(sa_svp_supported_s) END(IN)
        case SA_SVP_BUFFER_CREATE: BEGIN(sa_svp_buffer_create_s)
            auto& g = w.mem[src.below(w.mem.size())];
            if (g != w.guard_mem) {
                s.svp_memory = (uint64_t) g->data();
                s.size = src.size(1, g->n);
                if (src.chance(1, 6)) s.size = ~0ULL - src.below(16);   // wraps around
                if (src.chance(1, 6)) s.svp_memory = 0;
                if (src.chance(1, 6)) s.size = 0;
            }
            END(INOUT)
        case SA_SVP_BUFFER_RELEASE: BEGIN(sa_svp_buffer_release_s)
            s.svp_buffer = handle(src, w, w.svps);
            END(INOUT)
        case SA_SVP_BUFFER_WRITE: case SA_SVP_BUFFER_COPY: {
            std::vector<sa_svp_offset_s> o(src.size(1, 4));
            for (auto& x : o) x = {num(src, src.below(30)), num(src, src.below(30)), num(src, src.below(30))};
            Bytes ob((uint8_t*) o.data(), (uint8_t*) (o.data() + o.size()));
            if (c.id == SA_SVP_BUFFER_WRITE) {
                BEGIN(sa_svp_buffer_write_s)
                s.out = handle(src, w, w.svps);
                c.p[1] = par(IN, src.bytes(src.size(1, 80)));
                c.p[2] = par(IN, ob);
                END(INOUT)
            }
            BEGIN(sa_svp_buffer_copy_s)
            s.out = handle(src, w, w.svps);
            s.in = handle(src, w, w.svps);
            c.p[1] = par(IN, ob);
            END(INOUT)
        }
        case SA_SVP_KEY_CHECK: BEGIN(sa_svp_key_check_s)
            s.key = handle(src, w, w.sym);
            s.in_buffer_type = src.chance(1, 12) ? en(src, 4) : src.chance(1, 2) ? SA_BUFFER_TYPE_SVP : SA_BUFFER_TYPE_CLEAR;
            s.in_offset = src.chance(1, 6) ? wild(src) : 0;
            s.bytes_to_process = num(src, 16);
            c.p[1] = s.in_buffer_type == SA_BUFFER_TYPE_CLEAR ? par(IN, src.bytes(num(src, 16) % 90)) : svp_ref(IN);
            c.p[2] = par(IN, src.bytes(num(src, 16) % 90));
            END(INOUT)
        case SA_SVP_BUFFER_CHECK: BEGIN(sa_svp_buffer_check_s)
            s.svp_buffer = handle(src, w, w.svps);
            s.offset = num(src, src.below(8));
            s.length = num(src, src.below(60));
            s.digest_algorithm = en(src, DIG);
            c.p[1] = par(IN, src.bytes(src.pick<size_t>({20, 32, 48, 64, 1})));
            END(IN)
        case SA_PROCESS_COMMON_ENCRYPTION: BEGIN(sa_process_common_encryption_s)
            std::vector<sa_subsample_length_s> o(src.size(1, 5));
            size_t total = 0;
            for (auto& x : o) {
                x = {src.below(20), src.below(50)};
                total += x.bytes_of_clear_data + x.bytes_of_protected_data;
                x.bytes_of_clear_data = num(src, x.bytes_of_clear_data);
            }
            c.p[1] = par(IN, Bytes((uint8_t*) o.data(), (uint8_t*) (o.data() + o.size())));
            src.fill(s.iv, 16);
            s.subsample_count = o.size();
            if (src.chance(1, 8)) s.subsample_count = src.pick<uint64_t>({o.size() + (1ULL << 60), o.size() + (1ULL << 63), o.size() + 1, 0, ~0ULL});
            s.crypt_byte_block = num(src, src.below(4));
            s.skip_byte_block = s.crypt_byte_block ? num(src, src.below(4)) : src.chance(1, 10);
            s.context = handle(src, w, w.ciphers);
            s.out_buffer_type = src.chance(1, 12) ? en(src, 4) : src.chance(1, 3) ? SA_BUFFER_TYPE_SVP : SA_BUFFER_TYPE_CLEAR;
            s.in_buffer_type = src.chance(1, 12) ? en(src, 4) : src.chance(1, 3) ? SA_BUFFER_TYPE_SVP : SA_BUFFER_TYPE_CLEAR;
            s.out_offset = src.chance(1, 8) ? wild(src) : 0;
            s.in_offset = src.chance(1, 8) ? wild(src) : 0;
            c.p[2] = s.out_buffer_type == SA_BUFFER_TYPE_CLEAR ? par(OUT, Bytes(num(src, total) % 700, 0xa5)) : svp_ref(IN);
            c.p[3] = s.in_buffer_type == SA_BUFFER_TYPE_CLEAR ? par(IN, src.bytes(num(src, total) % 700)) : svp_ref(IN);
            END(INOUT)
        default:
            if (c.id == 0) c.id = (uint32_t) src.pick<uint64_t>({0, SA_KEY_PROVISION_TA + 1, 255, 0x7fffffff, src.below(1000) + 40});
            for (int i = 0; i < 4; i++)
                if (i == 0 || src.coin()) c.p[i] = par(src.pick<uint32_t>({IN, OUT, INOUT}), src.bytes(src.size(1, 100)));
    }
    return c;
}
static const char* deform(Src& src, Cmd& c) {
    // these hold addresses, which must stay real ones
    bool addr = c.id == SA_SVP_BUFFER_CREATE || c.id == SA_KEY_PROVISION_TA;
    int i = (int) src.below(4);
    Par& p = c.p[i];
    switch (addr ? src.pick({0, 1, 2, 3, 5}) : (int) src.below(8)) {
        case 0: {
            p.type = src.pick<uint32_t>({NONE, IN, OUT, INOUT, TEEC_MEMREF_PARTIAL_INPUT, TEEC_MEMREF_PARTIAL_OUTPUT, TEEC_MEMREF_PARTIAL_INOUT,
                    TEEC_VALUE_INPUT, TEEC_VALUE_OUTPUT, TEEC_VALUE_INOUT, TEEC_MEMREF_WHOLE, 4, 8, 0x10005, 0xffffffff});
            if (cls(p.type) >= 4) {
                p.null = true;
                p.ref = src.pick<uint64_t>({0, 1, 16, 0x1234, ~0ULL});
                p.size = src.coin() ? p.data.size() : src.below(600);
            } else
                p.ref = 0;
            return "type";
        }
        case 1: {   // other size
            if (p.null) p = par(src.pick<uint32_t>({IN, OUT, INOUT}), addr ? Bytes(src.size(0, 100)) : src.bytes(src.size(0, 100)));
            else if (src.coin()) {
                p.data.resize(src.chance(1, 4) ? 0 : src.below(p.data.size() + 1));
                if (addr) p.data.assign(p.data.size(), 0);   // it can grow again, into other addresses
            }
            else {
                Bytes m = addr ? Bytes(src.pick<size_t>({1, 8, 16, 100, 1000, 5000})) : src.bytes(src.pick<size_t>({1, 8, 16, 100, 1000, 5000}));
                p.data.insert(p.data.end(), m.begin(), m.end());
            }
            return "size";
        }
        case 2:
            p.null = true;
            p.ref = 0;
            p.size = src.coin() ? 0 : p.data.size();
            if (src.coin()) p.type = NONE;
            return "null";
        case 3:
            if (!p.null) p.type = NONE;   // memory with an unused parameter
            return "unused";
        case 4:   // a second parameter's memory in this place
            p = c.p[src.below(4)];
            return "moved";
        case 5:
            if (!c.p[0].data.empty()) c.p[0].data[0] = (uint8_t) src.pick({0, 2, 255});
            return "version";
        case 6:
            c.id = (uint32_t) src.below(40);
            if (c.id == SA_SVP_BUFFER_CREATE || c.id == SA_KEY_PROVISION_TA) c.id = 0;
            return "id";
        default: {
            if (!p.null && !p.data.empty()) {
                size_t at = src.below(p.data.size());
                size_t n = src.pick<size_t>({1, 4, 8});
                for (size_t j = 0; j < n && at + j < p.data.size(); j++) p.data[at + j] = (uint8_t) src.pick({0, 255, 1, 0x80});
            }
            return "content";
        }
    }
}
// Memory given as an unused parameter counts as given; a parameter is unused when it is NONE, NULL and empty.
static bool unused(const Par& p) { return p.type == TEEC_NONE && p.null && p.ref == 0 && p.size == 0; }
template <class T> static bool field0(const Cmd& c, T& t) {
    if (c.p[0].null || c.p[0].data.size() != sizeof t) return false;
    memcpy(&t, c.p[0].data.data(), sizeof t);
    return true;
}
// The documented layouts (sa_ta_types.h). Returns why a layout is not the documented one, or null. Where the documentation
// leaves room nothing is judged.
static const char* layout(const Cmd& c) {
    struct L {
        uint32_t id;
        size_t size;
        const char* p[4];   // allowed: - unused, i in, o out, x inout
    };
    static const L T[] = {{SA_GET_VERSION, sizeof(sa_get_version_s), {"x", "-", "-", "-"}}, {SA_GET_NAME, sizeof(sa_get_name_s), {"x", "-o", "-", "-"}},
            {SA_GET_DEVICE_ID, sizeof(sa_get_device_id_s), {"x", "-", "-", "-"}}, {SA_GET_TA_UUID, sizeof(sa_get_ta_uuid_s), {"x", "-", "-", "-"}},
            {SA_KEY_GENERATE, sizeof(sa_key_generate_s), {"x", "-i", "-i", "-"}}, {SA_KEY_EXPORT, sizeof(sa_key_export_s), {"x", "-o", "-i", "-"}},
            {SA_KEY_IMPORT, sizeof(sa_key_import_s), {"x", "i", "-i", "-"}}, {SA_KEY_UNWRAP, sizeof(sa_key_unwrap_s), {"x", "-i", "-i", "-i"}},
            {SA_KEY_GET_PUBLIC, sizeof(sa_key_get_public_s), {"x", "-o", "-", "-"}}, {SA_KEY_DERIVE, sizeof(sa_key_derive_s), {"x", "-i", "-i", "-i"}},
            {SA_KEY_EXCHANGE, sizeof(sa_key_exchange_s), {"x", "i", "-x", "-"}}, {SA_KEY_RELEASE, sizeof(sa_key_release_s), {"ix", "-", "-", "-"}},
            {SA_KEY_HEADER, sizeof(sa_key_header_s), {"x", "o", "-", "-"}}, {SA_KEY_DIGEST, sizeof(sa_key_digest_s), {"x", "-o", "-", "-"}},
            {SA_CRYPTO_RANDOM, sizeof(sa_crypto_random_s), {"ix", "o", "-", "-"}}, {SA_CRYPTO_CIPHER_INIT, sizeof(sa_crypto_cipher_init_s), {"x", "-i", "-i", "-i"}},
            {SA_CRYPTO_CIPHER_UPDATE_IV, sizeof(sa_crypto_cipher_update_iv_s), {"ix", "i", "-", "-"}},
            {SA_CRYPTO_CIPHER_PROCESS, sizeof(sa_crypto_cipher_process_s), {"x", "-io", "i", "-ix"}},
            {SA_CRYPTO_CIPHER_PROCESS_LAST, sizeof(sa_crypto_cipher_process_s), {"x", "-io", "i", "-ix"}},
            {SA_CRYPTO_CIPHER_RELEASE, sizeof(sa_crypto_cipher_release_s), {"ix", "-", "-", "-"}}, {SA_CRYPTO_MAC_INIT, sizeof(sa_crypto_mac_init_s), {"x", "-", "-", "-"}},
            {SA_CRYPTO_MAC_PROCESS, sizeof(sa_crypto_mac_process_s), {"ix", "-i", "-", "-"}},
            {SA_CRYPTO_MAC_PROCESS_KEY, sizeof(sa_crypto_mac_process_key_s), {"ix", "-", "-", "-"}},
            {SA_CRYPTO_MAC_COMPUTE, sizeof(sa_crypto_mac_compute_s), {"x", "-o", "-", "-"}}, {SA_CRYPTO_MAC_RELEASE, sizeof(sa_crypto_mac_release_s), {"ix", "-", "-", "-"}},
            {SA_CRYPTO_SIGN, sizeof(sa_crypto_sign_s), {"x", "-o", "-i", "-"}}, {SA_SVP_SUPPORTED, sizeof(sa_svp_supported_s), {"ix", "-", "-", "-"}},
            {SA_SVP_BUFFER_CREATE, sizeof(sa_svp_buffer_create_s), {"x", "-", "-", "-"}}, {SA_SVP_BUFFER_RELEASE, sizeof(sa_svp_buffer_release_s), {"x", "-", "-", "-"}},
            {SA_SVP_BUFFER_WRITE, sizeof(sa_svp_buffer_write_s), {"ix", "i", "i", "-"}}, {SA_SVP_BUFFER_COPY, sizeof(sa_svp_buffer_copy_s), {"ix", "i", "-", "-"}},
            {SA_SVP_KEY_CHECK, sizeof(sa_svp_key_check_s), {"ix", "i", "i", "-"}}, {SA_SVP_BUFFER_CHECK, sizeof(sa_svp_buffer_check_s), {"ix", "i", "-", "-"}},
            {SA_PROCESS_COMMON_ENCRYPTION, sizeof(sa_process_common_encryption_s), {"x", "i", "io", "i"}},
            {SA_KEY_PROVISION_TA, sizeof(sa_key_provision_ta_s), {"x", "i", "-i", "i"}}};
    const L* l = nullptr;
    for (auto& t : T)
        if (t.id == c.id) l = &t;
    if (!l) return "unknown command";
    static const char* names[4][2] = {{"parameter 0 has another type", "parameter 0 has another size"}, {"parameter 1 has another type", "parameter 1 has another size"},
            {"parameter 2 has another type", "parameter 2 has another size"}, {"parameter 3 has another type", "parameter 3 has another size"}};
    for (int i = 0; i < 4; i++) {
        int k = cls(c.p[i].type);
        char ch = unused(c.p[i]) ? '-' : k == 1 ? 'i' : k == 2 ? 'o' : k == 3 ? 'x' : '?';
        if (ch == '-' && i == 0) return "no command parameter";
        if (!strchr(l->p[i], ch)) return names[i][0];
    }
    if (c.p[0].null || c.p[0].data.size() != l->size) return names[0][1];
    if (c.p[0].data[0] != API_VERSION) return "another api version";
    auto size = [&](int i, size_t n) { return !unused(c.p[i]) && c.p[i].n() != n; };
    auto svp = [&](uint32_t type, int i) { return type == SA_BUFFER_TYPE_SVP && size(i, sizeof(sa_svp_buffer)); };
    switch (c.id) {
        case SA_KEY_HEADER: return size(1, sizeof(sa_header_s)) ? names[1][1] : nullptr;
        case SA_KEY_IMPORT: {
            sa_key_import_s s;
            field0(c, s);
            switch (s.key_format) {
                case SA_KEY_FORMAT_SYMMETRIC_BYTES: case SA_KEY_FORMAT_EC_PRIVATE_BYTES: case SA_KEY_FORMAT_RSA_PRIVATE_KEY_INFO:
                    return unused(c.p[2]) || size(2, sizeof(sa_rights)) ? names[2][1] : nullptr;
                case SA_KEY_FORMAT_TYPEJ: return unused(c.p[2]) || size(2, sizeof(sa_import_parameters_typej)) ? names[2][1] : nullptr;
                case SA_KEY_FORMAT_EXPORTED: return unused(c.p[2]) ? nullptr : names[2][0];
                case SA_KEY_FORMAT_SOC: return unused(c.p[2]) || c.p[2].n() >= sizeof(sa_import_parameters_soc) ? nullptr : names[2][1];
                default: return nullptr;
            }
        }
        case SA_KEY_PROVISION_TA: {
            int t;
            if (c.p[3].null || size(3, sizeof t)) return names[3][1];
            memcpy(&t, c.p[3].data.data(), sizeof t);
            size_t want = t == WIDEVINE_OEM_PROVISIONING ? sizeof(WidevineOemProvisioning) : t == PLAYREADY_MODEL_PROVISIONING ? sizeof(PlayReadyProvisioning)
                          : t == NETFLIX_PROVISIONING ? sizeof(NetflixProvisioning) : 0;
            if (!want) return "unsupported TA key type";
            if (c.p[1].n() < want) return names[1][1];
            return unused(c.p[2]) || c.p[2].n() >= sizeof(sa_import_parameters_soc) ? nullptr : names[2][1];
        }
        case SA_KEY_UNWRAP: {
            sa_key_unwrap_s s;
            field0(c, s);
            size_t n = 0;
            switch (s.cipher_algorithm) {
                case SA_CIPHER_ALGORITHM_AES_CBC: case SA_CIPHER_ALGORITHM_AES_CBC_PKCS7: case SA_CIPHER_ALGORITHM_AES_CTR: n = sizeof(sa_unwrap_parameters_aes_iv_s); break;
                case SA_CIPHER_ALGORITHM_AES_GCM: n = sizeof(sa_unwrap_parameters_aes_gcm_s); break;
                case SA_CIPHER_ALGORITHM_CHACHA20: n = sizeof(sa_unwrap_parameters_chacha20_s); break;
                case SA_CIPHER_ALGORITHM_CHACHA20_POLY1305: n = sizeof(sa_unwrap_parameters_chacha20_poly1305_s); break;
                case SA_CIPHER_ALGORITHM_EC_ELGAMAL: n = sizeof(sa_unwrap_parameters_ec_elgamal_s); break;
                case SA_CIPHER_ALGORITHM_RSA_OAEP: n = sizeof(sa_unwrap_parameters_rsa_oaep_s); break;
                default: return nullptr;
            }
            return unused(c.p[2]) || size(2, n) ? names[2][1] : nullptr;
        }
        case SA_KEY_DERIVE: {
            sa_key_derive_s s;
            field0(c, s);
            size_t n = 0;
            switch (s.kdf_algorithm) {
                case SA_KDF_ALGORITHM_ROOT_KEY_LADDER: case SA_KDF_ALGORITHM_COMMON_ROOT_KEY_LADDER: n = sizeof(sa_kdf_parameters_root_key_ladder_s); break;
                case SA_KDF_ALGORITHM_HKDF: n = sizeof(sa_kdf_parameters_hkdf_s); break;
                case SA_KDF_ALGORITHM_CONCAT: n = sizeof(sa_kdf_parameters_concat_s); break;
                case SA_KDF_ALGORITHM_ANSI_X963: n = sizeof(sa_kdf_parameters_ansi_x963_s); break;
                case SA_KDF_ALGORITHM_CMAC: n = sizeof(sa_kdf_parameters_cmac_s); break;
                case SA_KDF_ALGORITHM_NETFLIX: n = sizeof(sa_kdf_parameters_netflix_s); break;
                default: return "unknown algorithm";
            }
            return unused(c.p[1]) || size(1, n) ? names[1][1] : nullptr;
        }
        case SA_KEY_EXCHANGE: {
            sa_key_exchange_s s;
            field0(c, s);
            if (s.key_exchange_algorithm != SA_KEY_EXCHANGE_ALGORITHM_NETFLIX_AUTHENTICATED_DH) return nullptr;
            return unused(c.p[2]) || size(2, sizeof(sa_key_exchange_parameters_netflix_authenticated_dh_s)) ? names[2][1] : nullptr;
        }
        case SA_CRYPTO_CIPHER_INIT: {
            sa_crypto_cipher_init_s s;
            field0(c, s);
            if (s.cipher_algorithm != SA_CIPHER_ALGORITHM_RSA_OAEP) return nullptr;
            return unused(c.p[1]) || size(1, sizeof(sa_cipher_parameters_rsa_oaep_s)) ? names[1][1] : nullptr;
        }
        case SA_CRYPTO_CIPHER_PROCESS: case SA_CRYPTO_CIPHER_PROCESS_LAST: {
            sa_crypto_cipher_process_s s;
            field0(c, s);
            if (svp(s.out_buffer_type, 1)) return names[1][1];
            if (svp(s.in_buffer_type, 2)) return names[2][1];
            if (s.out_buffer_type == SA_BUFFER_TYPE_CLEAR && cls(c.p[1].type) == 1) return "clear output declared as input";
            return nullptr;
        }
        case SA_PROCESS_COMMON_ENCRYPTION: {
            sa_process_common_encryption_s s;
            field0(c, s);
            if (s.subsample_count > 1000000 || c.p[1].n() != s.subsample_count * sizeof(sa_subsample_length_s)) return names[1][1];
            if (svp(s.out_buffer_type, 2)) return names[2][1];
            if (svp(s.in_buffer_type, 3)) return names[3][1];
            if (s.out_buffer_type == SA_BUFFER_TYPE_CLEAR && cls(c.p[2].type) == 1) return "clear output declared as input";
            return nullptr;
        }
        case SA_SVP_KEY_CHECK: {
            sa_svp_key_check_s s;
            field0(c, s);
            return svp(s.in_buffer_type, 1) ? names[1][1] : nullptr;
        }
        case SA_SVP_BUFFER_WRITE: return c.p[2].n() % sizeof(sa_svp_offset_s) ? names[2][1] : nullptr;
        case SA_SVP_BUFFER_COPY: return c.p[1].n() % sizeof(sa_svp_offset_s) ? names[1][1] : nullptr;
        default: return nullptr;
    }
}
static std::string show(const Cmd& c) {
    std::string o = "command " + std::to_string(c.id);
    for (auto& p : c.p) {
        char b[64];
        if (unused(p)) o += " | -";
        else {
            snprintf(b, sizeof b, " | type %x %s%zu: ", p.type, p.null ? "null " : "", p.n());
            o += b + (p.null ? "" : pbt::hex(p.data, 24));
        }
    }
    return o;
}
