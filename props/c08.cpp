// C08: authenticated encryption rejects every modified message.
#include "stream.hpp"
using namespace sec;

static sa_cipher_algorithm pick_aead(Src& src) {
    return src.coin() ? SA_CIPHER_ALGORITHM_CHACHA20_POLY1305 : SA_CIPHER_ALGORITHM_AES_GCM;
}
struct Feed {
    Bytes got;
    sa_status status = SA_STATUS_OK;
    CallResult last;
    unsigned calls = 0;
};
// Feeds in through process calls and one process-last call. tag is written on encryption and presented on decryption.
static Feed feed(Src& src, const Caller& c, sa_crypto_cipher_context ctx, const SymCfg& s, const Bytes& in, void* tag, size_t tag_len,
        const Bytes* expect_prefix) {
    Feed f;
    size_t last_len = src.below(std::min<size_t>(in.size(), 16) + 1);
    if (s.poly() && src.chance(1, 3)) last_len = src.below(in.size() + 1);
    size_t body = in.size() - last_len, pos = 0;
    unsigned calls = 0;
    while (pos < body || (src.chance(1, 8) && calls < 10)) {
        size_t n = src.coin() || calls > 20 ? body - pos : src.below(body - pos + 1);
        Io io;
        io.in_place = src.chance(1, 4);
        CallResult r = stream_call(src, c, ctx, sub(in, pos, n), n + (src.coin() ? 5 : 0), false, nullptr, io);
        REQUIRE(r.status == SA_STATUS_OK, "process(%zu): %s", n, sname(r.status));
        REQUIRE(r.reported == n, "process(%zu) reported %zu", n, r.reported);
        f.got.insert(f.got.end(), r.out.begin(), r.out.end());
        pos += n;
        calls++;
    }
    if (expect_prefix) REQUIRE(std::equal(f.got.begin(), f.got.end(), expect_prefix->begin()), "output differs from the standard cipher");
    sa_cipher_end_parameters_aes_gcm gp = {tag, tag_len};
    sa_cipher_end_parameters_chacha20_poly1305 pp = {tag, tag_len};
    Io io;
    io.in_place = src.chance(1, 4);
    f.last = stream_call(src, c, ctx, sub(in, pos, last_len), last_len + (src.coin() ? 5 : 0), true, s.gcm() ? (void*) &gp : (void*) &pp, io);
    f.status = f.last.status;
    f.calls = calls + 1;
    if (f.status == SA_STATUS_OK) {
        REQUIRE(f.last.reported == last_len, "process_last(%zu) reported %zu", last_len, f.last.reported);
        f.got.insert(f.got.end(), f.last.out.begin(), f.last.out.end());
    } else if (!io.in_place)
        for (size_t i = 0; i < f.last.area.size(); i++)
            REQUIRE(f.last.area[i] == 0xa5 || f.last.area[i] == 0, "a failed final call left %s in the output", pbt::hex(f.last.area).c_str());
    pbt::trace("%s %s %zu bytes in %u calls, last %zu -> %s", alg_name(s.alg), s.enc() ? "enc" : "dec", in.size(), f.calls, last_len,
            sname(f.status));
    return f;
}
static size_t gen_len(Src& src) { return src.chance(1, 60) ? src.large() : src.chance(1, 8) ? src.size(0, 3000) : src.size(0, 150); }

PROP(c08_stream, "more than one call, or additional data and message both non-empty") {
    Caller c = src.coin() ? Caller::open(TA_A) : Caller::ree();
    SymCfg s = gen_cfg(src, pick_aead(src));
    s.tag_len = s.poly() ? 16 : src.chance(1, 2) ? 16 : src.range(1, 16);
    Bytes plain = src.bytes(gen_len(src)), tag;
    Bytes ct = ref_encrypt(s, plain, s.iv, &tag);
    sa_key k = c.must_import_sym(s.key, rights_all());
    sa_crypto_cipher_context ctx = INVALID_HANDLE;
    sa_status st = stream_init(c, &ctx, s, k);
    REQUIRE(st == SA_STATUS_OK, "init: %s", sname(st));
    Guarded t(s.tag_len);
    if (!s.enc()) memcpy(t.data(), tag.data(), s.tag_len);
    Feed f = feed(src, c, ctx, s, s.enc() ? plain : ct, t.data(), s.tag_len, s.enc() ? &ct : &plain);
    REQUIRE(f.status == SA_STATUS_OK, "%s of a genuine message: %s", s.enc() ? "encryption" : "decryption", sname(f.status));
    REQUIRE(f.got == (s.enc() ? ct : plain), "%s %s: %s, expected %s", alg_name(s.alg), s.enc() ? "enc" : "dec", pbt::hex(f.got).c_str(),
            pbt::hex(s.enc() ? ct : plain).c_str());
    REQUIRE(t.intact(), "written outside the tag");
    REQUIRE(t.get(0, s.tag_len) == sub(tag, 0, s.tag_len), "tag %s, expected %s", pbt::hex(t.get(0, s.tag_len)).c_str(),
            pbt::hex(tag).c_str());
    pbt::label("%s/%s/tag%zu", alg_name(s.alg), s.enc() ? "enc" : "dec", s.tag_len);
    if (f.calls > 1 || (!s.aad.empty() && !plain.empty())) pbt::nontrivial();
    // what this library encrypted, it decrypts
    if (s.enc()) {
        SymCfg d = s;
        d.mode = SA_CIPHER_MODE_DECRYPT;
        sa_crypto_cipher_context dc = INVALID_HANDLE;
        REQUIRE(stream_init(c, &dc, d, k) == SA_STATUS_OK, "init");
        Feed g = feed(src, c, dc, d, f.got, t.data(), s.tag_len, &plain);
        REQUIRE(g.status == SA_STATUS_OK && g.got == plain, "decrypting what was encrypted: %s", sname(g.status));
    }
}

PROP(c08_tamper, "the presented message differed from the genuine one and the reference says its tag does not match") {
    Caller c = src.coin() ? Caller::open(TA_A) : Caller::ree();
    SymCfg s = gen_cfg(src, pick_aead(src));
    s.mode = SA_CIPHER_MODE_DECRYPT;
    s.tag_len = s.poly() ? 16 : src.chance(1, 2) ? 16 : src.range(1, 16);
    Bytes plain = src.bytes(gen_len(src)), tag;
    Bytes ct = ref_encrypt(s, plain, s.iv, &tag);
    tag = sub(tag, 0, s.tag_len);
    const char* what = "";
    switch (src.below(9)) {
        case 0: what = "tag bit"; tag[src.below(tag.size())] ^= 1 << src.below(8); break;
        case 1: what = "ciphertext bit";
            if (ct.empty()) pbt::discard();
            ct[src.below(ct.size())] ^= 1 << src.below(8);
            break;
        case 2: what = "aad bit";
            if (s.aad.empty()) pbt::discard();
            s.aad[src.below(s.aad.size())] ^= 1 << src.below(8);
            break;
        case 3: what = "nonce bit"; s.iv[src.below(s.iv.size())] ^= 1 << src.below(8); break;
        case 4: what = "ciphertext cut";
            if (ct.empty()) pbt::discard();
            ct.resize(src.below(ct.size()));
            break;
        case 5: {
            what = "ciphertext extended";
            Bytes e = src.bytes(src.size(1, 20));
            ct.insert(ct.end(), e.begin(), e.end());
            break;
        }
        case 6:
            what = "aad cut or extended";
            if (!s.aad.empty() && src.coin()) s.aad.resize(src.below(s.aad.size()));
            else s.aad.push_back((uint8_t) src.below(256));
            break;
        case 7:
            what = "aad and ciphertext boundary moved";
            if (ct.empty()) pbt::discard();
            s.aad.push_back(ct[0]);
            ct.erase(ct.begin());
            break;
        default: what = "other tag"; tag = src.bytes(tag.size()); break;
    }
    // what the standard says about exactly this presentation
    Bytes pt, dummy, ct2, want;
    aead(s.gcm(), s.key, s.iv, s.aad, ct, true, dummy, want);           // CTR mode: encrypting ct yields the plaintext
    pt = dummy;
    aead(s.gcm(), s.key, s.iv, s.aad, pt, true, ct2, want);
    REQUIRE(ct2 == ct, "reference");
    bool genuine = sub(want, 0, s.tag_len) == tag;
    sa_key k = c.must_import_sym(s.key, rights_all());
    sa_crypto_cipher_context ctx = INVALID_HANDLE;
    REQUIRE(stream_init(c, &ctx, s, k) == SA_STATUS_OK, "init");
    Exact te(tag);
    Feed f = feed(src, c, ctx, s, ct, te.p, tag.size(), &pt);
    pbt::label("%s/%s", alg_name(s.alg), what);
    pbt::trace("%s, tag length %zu", what, tag.size());
    if (genuine) {
        REQUIRE(f.status == SA_STATUS_OK && f.got == pt, "a matching tag was refused: %s", sname(f.status));
        return;
    }
    pbt::nontrivial();
    REQUIRE(f.status == SA_STATUS_VERIFICATION_FAILED, "%s: %s", what, sname(f.status));
    // and the context is finished: not even the right tag brings the data back
    Exact good(sub(want, 0, s.tag_len));
    sa_cipher_end_parameters_aes_gcm gp = {good.p, good.n};
    CallResult again = stream_call(src, c, ctx, Bytes(), 16, true, &gp, Io());
    REQUIRE(again.status != SA_STATUS_OK, "a second final call after a mismatch succeeded");
}

PROP(c08_args, "the end parameters were unsuitable (tag length, missing tag) or the nonce had a wrong length") {
    Caller c = src.coin() ? Caller::open(TA_A) : Caller::ree();
    SymCfg s = gen_cfg(src, pick_aead(src));
    Bytes plain = src.bytes(src.size(0, 40)), tag;
    Bytes ct = ref_encrypt(s, plain, s.iv, &tag);
    const Bytes& in = s.enc() ? plain : ct;
    sa_key k = c.must_import_sym(s.key, rights_all());
    sa_crypto_cipher_context ctx = INVALID_HANDLE;
    if (src.chance(1, 4)) {
        SymCfg w = s;
        w.iv = src.bytes(src.pick({0, 1, 8, 11, 13, 16, 32}));
        sa_status st = stream_init(c, &ctx, w, k);
        REQUIRE(st != SA_STATUS_OK, "init accepted a %zu byte nonce", w.iv.size());
        pbt::nontrivial();
        return;
    }
    REQUIRE(stream_init(c, &ctx, s, k) == SA_STATUS_OK, "init");
    size_t body = in.size() - std::min<size_t>(in.size(), src.below(17));
    CallResult r = stream_call(src, c, ctx, sub(in, 0, body), body, false, nullptr, Io());
    REQUIRE(r.status == SA_STATUS_OK, "process: %s", sname(r.status));
    Bytes rest = sub(in, body, in.size() - body);
    // refused final calls, any number of them
    unsigned bad = src.range(1, 3);
    for (unsigned i = 0; i < bad; i++) {
        uint8_t t[64];
        memset(t, 0x77, sizeof t);
        memcpy(t, tag.data(), 16);
        sa_cipher_end_parameters_aes_gcm gp = {t, 16};
        Bytes d = rest;
        void* p = &gp;
        switch (src.below(4)) {
            case 0: p = nullptr; break;
            case 1: gp.tag = nullptr; break;
            case 2: gp.tag_length = s.poly() ? src.pick({0, 1, 8, 12, 15, 17, 32}) : src.pick({17, 18, 32, 64}); break;
            case 3:
                if (s.poly()) { p = nullptr; break; }
                d = src.bytes(src.range(17, 40));
                break;
        }
        CallResult x = stream_call(src, c, ctx, d, d.size(), true, p, Io());
        REQUIRE(x.status != SA_STATUS_OK, "an unsuitable final call succeeded");
        REQUIRE(x.clear_untouched, "a refused final call wrote output");
        pbt::trace("refused: %s", sname(x.status));
    }
    pbt::nontrivial();
    uint8_t t[16];
    memcpy(t, tag.data(), 16);
    if (s.enc()) memset(t, 0, 16);
    sa_cipher_end_parameters_aes_gcm gp = {t, 16};
    CallResult x = stream_call(src, c, ctx, rest, rest.size(), true, &gp, Io());
    REQUIRE(x.status == SA_STATUS_OK, "the final call after refused ones: %s", sname(x.status));
    Bytes got = cat({r.out, x.out});
    REQUIRE(got == (s.enc() ? ct : plain) && memcmp(t, tag.data(), 16) == 0, "result after refused final calls");
}
