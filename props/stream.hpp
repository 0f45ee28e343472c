// Symmetric cipher streams: configuration, reference result, and one guarded process / process-last call.
#pragma once
#include "sec.hpp"
#include <cstring>
namespace sec {
struct SymCfg {
    sa_cipher_algorithm alg = SA_CIPHER_ALGORITHM_AES_ECB;
    sa_cipher_mode mode = SA_CIPHER_MODE_ENCRYPT;
    Bytes key, iv, counter, aad;      // iv: CBC iv, CTR counter block, GCM iv, ChaCha nonce
    size_t tag_len = 16;
    bool block() const { return alg <= SA_CIPHER_ALGORITHM_AES_CBC_PKCS7; }
    bool padded() const { return alg == SA_CIPHER_ALGORITHM_AES_ECB_PKCS7 || alg == SA_CIPHER_ALGORITHM_AES_CBC_PKCS7; }
    bool cbc() const { return alg == SA_CIPHER_ALGORITHM_AES_CBC || alg == SA_CIPHER_ALGORITHM_AES_CBC_PKCS7; }
    bool ctr() const { return alg == SA_CIPHER_ALGORITHM_AES_CTR; }
    bool gcm() const { return alg == SA_CIPHER_ALGORITHM_AES_GCM; }
    bool chacha() const { return alg == SA_CIPHER_ALGORITHM_CHACHA20; }
    bool poly() const { return alg == SA_CIPHER_ALGORITHM_CHACHA20_POLY1305; }
    bool aead_alg() const { return gcm() || poly(); }
    bool enc() const { return mode == SA_CIPHER_MODE_ENCRYPT; }
    bool has_last() const { return alg != SA_CIPHER_ALGORITHM_AES_ECB && alg != SA_CIPHER_ALGORITHM_AES_CBC; }
    bool iv_updatable() const { return cbc() || ctr(); }
};
inline const char* alg_name(sa_cipher_algorithm a) {
    static const char* n[] = {"ECB", "ECB_PKCS7", "CBC", "CBC_PKCS7", "CTR", "GCM", "RSA_PKCS1", "RSA_OAEP", "ELGAMAL", "CHACHA20",
            "CHACHA20_POLY1305"};
    return (unsigned) a < 11 ? n[a] : "?";
}
inline const std::vector<sa_cipher_algorithm>& sym_algs(bool with_aead) {
    static const std::vector<sa_cipher_algorithm> a = {SA_CIPHER_ALGORITHM_AES_ECB, SA_CIPHER_ALGORITHM_AES_ECB_PKCS7,
            SA_CIPHER_ALGORITHM_AES_CBC, SA_CIPHER_ALGORITHM_AES_CBC_PKCS7, SA_CIPHER_ALGORITHM_AES_CTR, SA_CIPHER_ALGORITHM_CHACHA20};
    static const std::vector<sa_cipher_algorithm> b = {SA_CIPHER_ALGORITHM_AES_ECB, SA_CIPHER_ALGORITHM_AES_ECB_PKCS7,
            SA_CIPHER_ALGORITHM_AES_CBC, SA_CIPHER_ALGORITHM_AES_CBC_PKCS7, SA_CIPHER_ALGORITHM_AES_CTR, SA_CIPHER_ALGORITHM_CHACHA20,
            SA_CIPHER_ALGORITHM_AES_GCM, SA_CIPHER_ALGORITHM_CHACHA20_POLY1305};
    return with_aead ? b : a;
}
inline SymCfg gen_cfg(Src& src, sa_cipher_algorithm alg) {
    SymCfg c;
    c.alg = alg;
    c.mode = src.coin() ? SA_CIPHER_MODE_DECRYPT : SA_CIPHER_MODE_ENCRYPT;
    c.key = src.bytes(c.chacha() || c.poly() ? 32 : src.coin() ? 32 : 16);
    if (c.cbc()) c.iv = src.bytes(16);
    if (c.ctr()) {
        c.iv = src.bytes(16);
        if (src.coin())   // close to a counter wrap of some width
            for (size_t i = 16 - src.range(1, 16); i < 15; i++) c.iv[i] = 0xff;
    }
    if (c.chacha()) {
        c.counter = src.bytes(4);
        c.iv = src.bytes(12);
        if (src.coin()) c.counter = {(uint8_t) src.range(0, 20), 0, 0, 0};
        else if (c.counter[3] == 0xff) c.counter[3] = 0x7f;   // the 32-bit block counter is not wrapped: RFC 8439 leaves that open
    }
    if (c.aead_alg()) {
        c.iv = src.bytes(12);
        c.aad = src.bytes(src.weighted({3, 4, 1}) == 0 ? 0 : src.chance(1, 60) ? src.large() : src.size(1, 80));
    }
    return c;
}
inline sa_status stream_init(const Caller& c, sa_crypto_cipher_context* ctx, const SymCfg& s, sa_key k) {
    if (s.cbc()) {
        sa_cipher_parameters_aes_cbc p = {s.iv.data(), s.iv.size()};
        return c.cipher_init(ctx, s.alg, s.mode, k, &p);
    }
    if (s.ctr()) {
        sa_cipher_parameters_aes_ctr p = {s.iv.data(), s.iv.size()};
        return c.cipher_init(ctx, s.alg, s.mode, k, &p);
    }
    if (s.gcm()) {
        sa_cipher_parameters_aes_gcm p = {s.iv.data(), s.iv.size(), s.aad.empty() ? nullptr : s.aad.data(), s.aad.size()};
        return c.cipher_init(ctx, s.alg, s.mode, k, &p);
    }
    if (s.chacha()) {
        sa_cipher_parameters_chacha20 p = {s.counter.data(), s.counter.size(), s.iv.data(), s.iv.size()};
        return c.cipher_init(ctx, s.alg, s.mode, k, &p);
    }
    if (s.poly()) {
        sa_cipher_parameters_chacha20_poly1305 p = {s.iv.data(), s.iv.size(), s.aad.empty() ? nullptr : s.aad.data(), s.aad.size()};
        return c.cipher_init(ctx, s.alg, s.mode, k, &p);
    }
    return c.cipher_init(ctx, s.alg, s.mode, k, nullptr);
}
// Reference encryption of a whole message (padding applied when the algorithm is padded).
inline Bytes ref_encrypt(const SymCfg& s, const Bytes& plain, const Bytes& iv, Bytes* tag = nullptr) {
    Bytes p = s.padded() ? pkcs7_pad(plain) : plain;
    switch (s.alg) {
        case SA_CIPHER_ALGORITHM_AES_ECB:
        case SA_CIPHER_ALGORITHM_AES_ECB_PKCS7: return aes_ecb(s.key, p, true);
        case SA_CIPHER_ALGORITHM_AES_CBC:
        case SA_CIPHER_ALGORITHM_AES_CBC_PKCS7: return aes_cbc(s.key, iv, p, true);
        case SA_CIPHER_ALGORITHM_AES_CTR: return aes_ctr(s.key, iv, p);
        case SA_CIPHER_ALGORITHM_CHACHA20: return chacha(s.key, s.counter, iv, p);
        default: {
            Bytes o, t;
            aead(s.gcm(), s.key, iv, s.aad, p, true, o, t);
            if (tag) *tag = t;
            return o;
        }
    }
}
// Where the bytes of one call live.
struct Io {
    bool in_svp = false, out_svp = false, in_place = false;
};
struct CallResult {
    sa_status status = SA_STATUS_OK;
    Bytes out;              // the reported output bytes
    size_t reported = 0;
    bool clear_untouched = true;    // on failure: nothing in the output area changed
    Bytes area;             // the whole output area after the call
};
struct SvpMem {
    Guarded mem;
    sa_svp_buffer h = INVALID_HANDLE;
    const Caller& c;
    SvpMem(const Caller& c_, size_t n, uint8_t fill = 0xa5) : mem(n, fill), c(c_) {
        sa_status s = c.svp_create(&h, mem.data(), n);
        if (s != SA_STATUS_OK) pbt::fail("svp_create(%zu): %s", n, sname(s));
    }
    ~SvpMem() {
        if (h == INVALID_HANDLE) return;
        void* m = nullptr;
        size_t n = 0;
        c.svp_release(&m, &n, h);
    }
};
// One process (last == false) or process-last call on data, with room bytes of output space. Checks that offsets advance by
// exactly what was consumed and produced, that a refused call leaves offsets alone, and that nothing outside is written.
inline CallResult stream_call(Src& src, const Caller& c, sa_crypto_cipher_context ctx, const Bytes& data, size_t room, bool last,
        void* end_params, const Io& io) {
    size_t pre_i = src.chance(1, 3) ? src.size(1, 40) : 0, pre_o = src.chance(1, 3) ? src.size(1, 40) : 0;
    size_t post_i = src.chance(1, 3) ? src.size(1, 40) : 0;
    CallResult r;
    size_t n = data.size();
    sa_buffer in, out;
    if (io.in_place) {
        pre_o = pre_i;
        size_t cap = pre_i + std::max(n, room);
        std::unique_ptr<SvpMem> sm;
        Guarded g(cap);
        uint8_t* base = g.data();
        if (io.out_svp) {
            sm.reset(new SvpMem(c, cap ? cap : 1));
            base = sm->mem.data();
        }
        if (n) memcpy(base + pre_i, data.data(), n);
        in = io.out_svp ? svp_buf(sm->h, pre_i) : clear_buf(base, cap, pre_i);
        out = io.out_svp ? svp_buf(sm->h, pre_o) : clear_buf(base, cap, pre_o);
        size_t bp = n;
        r.status = last ? c.cipher_process_last(&out, ctx, &in, &bp, end_params) : c.cipher_process(&out, ctx, &in, &bp);
        r.reported = bp;
        size_t io_ = io.out_svp ? in.context.svp.offset : in.context.clear.offset;
        size_t oo = io.out_svp ? out.context.svp.offset : out.context.clear.offset;
        if (r.status == SA_STATUS_OK) {
            REQUIRE(io_ == pre_i + n, "in offset %zu, expected %zu", io_, pre_i + n);
            REQUIRE(oo == pre_o + bp, "out offset %zu, expected %zu", oo, pre_o + bp);
            REQUIRE(bp <= cap - pre_o, "reported %zu bytes but only %zu fit", bp, cap - pre_o);
            r.out.assign(base + pre_o, base + pre_o + bp);
        } else {
            REQUIRE(io_ == pre_i && oo == pre_o, "a refused call moved an offset");
            r.clear_untouched = memcmp(base + pre_i, data.data(), n) == 0;
        }
        const Guarded& gg = io.out_svp ? sm->mem : g;
        REQUIRE(gg.intact() && gg.untouched(0, pre_o), "bytes outside the output range were written");
        r.area.assign(base + pre_o, base + cap);
        return r;
    }
    // input
    std::unique_ptr<SvpMem> si, so;
    std::unique_ptr<Exact> ei;
    Bytes ib(pre_i, 0x5a);
    ib.insert(ib.end(), data.begin(), data.end());
    ib.insert(ib.end(), post_i, 0x5b);
    if (io.in_svp) {
        si.reset(new SvpMem(c, ib.size() ? ib.size() : 1));
        if (!ib.empty()) memcpy(si->mem.data(), ib.data(), ib.size());
        in = svp_buf(si->h, pre_i);
    } else {
        ei.reset(new Exact(ib));
        in = clear_buf(ei->p, ib.size(), pre_i);
    }
    size_t cap = pre_o + room;
    Guarded g(cap);
    uint8_t* base = g.data();
    if (io.out_svp) {
        so.reset(new SvpMem(c, cap ? cap : 1));
        base = so->mem.data();
        out = svp_buf(so->h, pre_o);
    } else
        out = clear_buf(base, cap, pre_o);
    size_t bp = n;
    r.status = last ? c.cipher_process_last(&out, ctx, &in, &bp, end_params) : c.cipher_process(&out, ctx, &in, &bp);
    r.reported = bp;
    size_t io_ = io.in_svp ? in.context.svp.offset : in.context.clear.offset;
    size_t oo = io.out_svp ? out.context.svp.offset : out.context.clear.offset;
    const Guarded& gg = io.out_svp ? so->mem : g;
    if (r.status == SA_STATUS_OK) {
        REQUIRE(io_ == pre_i + n, "in offset %zu, expected %zu", io_, pre_i + n);
        REQUIRE(oo == pre_o + bp, "out offset %zu, expected %zu", oo, pre_o + bp);
        REQUIRE(bp <= room, "reported %zu bytes but only %zu fit", bp, room);
        r.out.assign(base + pre_o, base + pre_o + bp);
        REQUIRE(gg.untouched(pre_o + bp, cap), "bytes after the %zu reported ones were written", bp);
    } else {
        REQUIRE(io_ == pre_i && oo == pre_o, "a refused call moved an offset");
        r.clear_untouched = gg.untouched(pre_o, cap);
    }
    REQUIRE(gg.intact() && gg.untouched(0, pre_o), "bytes outside the output range were written");
    const uint8_t* now = io.in_svp ? si->mem.data() : ei->p;
    REQUIRE(ib.empty() || memcmp(now, ib.data(), ib.size()) == 0, "the input was modified");
    r.area.assign(base + pre_o, base + cap);
    return r;
}
}  // namespace sec
