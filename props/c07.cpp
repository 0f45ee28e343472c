// C07: symmetric ciphers compute the standard cipher however the data is chunked.
#include "stream.hpp"
using namespace sec;

static Io gen_io(Src& src, const Caller& c, bool allow_svp, bool allow_in_place) {
    Io io;
    if (allow_svp)
        switch (src.weighted({4, 1, 1})) {
            case 1: io.out_svp = true; break;
            case 2: io.in_svp = io.out_svp = true; break;
        }
    if (allow_in_place && io.in_svp == io.out_svp) io.in_place = src.chance(1, 4);
    return io;
}

// A sequence of messages (IV changes) over one context; each message split into process calls and, possibly, a last call.
PROP(c07_chunks, "the context processed more than one chunk, or a message of more than one block") {
    bool direct = src.coin();
    Caller c = direct ? Caller::open(TA_A) : Caller::ree();
    SymCfg s = gen_cfg(src, src.pick(sym_algs(false)));
    sa_rights r = rights_all();
    sa_key k = c.must_import_sym(s.key, r);
    sa_crypto_cipher_context ctx = INVALID_HANDLE;
    sa_status st = stream_init(c, &ctx, s, k);
    REQUIRE(st == SA_STATUS_OK, "init %s: %s", alg_name(s.alg), sname(st));
    bool release_early = src.chance(1, 4);
    if (release_early) REQUIRE(c.key_release(k) == SA_STATUS_OK, "release");
    pbt::label("%s/%s/%zu", alg_name(s.alg), s.enc() ? "enc" : "dec", s.key.size());
    unsigned segments = s.iv_updatable() ? src.range(1, 4) : 1;
    bool svp_ok = true;
    size_t total = 0;
    unsigned calls = 0;
    Bytes ecb_all;
    for (unsigned m = 0; m < segments; m++) {
        if (m > 0) {
            s.iv = src.bytes(16);
            st = c.cipher_update_iv(ctx, s.iv.data(), 16);
            REQUIRE(st == SA_STATUS_OK, "update_iv: %s", sname(st));
        }
        bool final_segment = m + 1 == segments;
        bool use_last = s.has_last() && final_segment && (s.padded() || src.coin());
        size_t len = src.weighted({3, 3, 1}) == 2 ? src.chance(1, 8) ? src.large() : src.size(0, 3000) : src.size(0, 130);
        if (s.padded() && !use_last) {
            if (!s.enc()) len = 0;     // a padded message must be finished before the IV can change
            len -= len % 16;
        }
        if (s.block() && !s.padded()) len -= len % 16;
        Bytes plain = src.bytes(len);
        Bytes cipher;
        if (s.padded() && !use_last) {
            SymCfg u = s;
            u.alg = s.cbc() ? SA_CIPHER_ALGORITHM_AES_CBC : SA_CIPHER_ALGORITHM_AES_ECB;
            cipher = ref_encrypt(u, plain, s.iv);
        } else
            cipher = ref_encrypt(s, plain, s.iv);
        const Bytes &in = s.enc() ? plain : cipher, &want = s.enc() ? cipher : plain;
        // split
        Bytes got;
        size_t pos = 0;
        size_t last_len = 0;
        if (use_last) {
            if (s.padded() && s.enc()) {
                last_len = in.size() % 16;
                if (last_len == 0 && in.size() >= 16 && src.coin()) last_len = 16;
            } else if (s.padded())
                last_len = src.coin() ? 16 : 0;
            else {
                last_len = src.below(std::min<size_t>(in.size(), 16) + 1);
                if (s.enc() && src.chance(1, 4)) last_len = src.below(in.size() + 1);
            }
        }
        size_t body = in.size() - last_len;
        while (pos < body || (pos == body && src.chance(1, 6) && calls < 40)) {
            size_t n = src.coin() ? body - pos : src.below(body - pos + 1);
            if (s.block()) n -= n % 16;
            if (n == 0 && body - pos >= 1 && calls > 40) n = body - pos;
            Bytes chunk = sub(in, pos, n);
            Io io = gen_io(src, c, svp_ok, !(s.padded() && !s.enc()));
            size_t room = n + (src.chance(1, 3) ? src.size(0, 40) : 0);
            if (src.chance(1, 5)) {    // length query in between
                size_t q = n;
                Exact qe(chunk);
                sa_buffer qb = clear_buf(qe.p, n);
                st = c.cipher_process(nullptr, ctx, &qb, &q);
                REQUIRE(st == SA_STATUS_OK && q >= n, "query: %s %zu", sname(st), q);
            }
            CallResult cr = stream_call(src, c, ctx, chunk, room, false, nullptr, io);
            REQUIRE(cr.status == SA_STATUS_OK, "process(%zu): %s", n, sname(cr.status));
            pbt::trace("%s process %zu -> %zu%s", alg_name(s.alg), n, cr.reported, io.in_place ? " in place" : io.out_svp ? " svp" : "");
            if (!(s.padded() && !s.enc())) REQUIRE(cr.reported == n, "process(%zu) reported %zu", n, cr.reported);
            got.insert(got.end(), cr.out.begin(), cr.out.end());
            REQUIRE(got.size() <= want.size() && std::equal(got.begin(), got.end(), want.begin()),
                    "%s %s output differs from the standard cipher within the first %zu bytes", alg_name(s.alg),
                    s.enc() ? "encrypt" : "decrypt", got.size());
            pos += n;
            calls++;
        }
        if (use_last) {
            Bytes chunk = sub(in, pos, last_len);
            Io io = gen_io(src, c, svp_ok, !(s.padded() && !s.enc()));
            size_t need = s.padded() ? 16 * (last_len / 16 + 1) : last_len;
            size_t q = last_len;
            Exact qe(chunk);
            sa_buffer qb = clear_buf(qe.p, last_len);
            st = c.cipher_process_last(nullptr, ctx, &qb, &q, nullptr);
            REQUIRE(st == SA_STATUS_OK, "last query: %s", sname(st));
            CallResult cr = stream_call(src, c, ctx, chunk, std::max(q, need) + (src.chance(1, 3) ? 7 : 0), true, nullptr, io);
            REQUIRE(cr.status == SA_STATUS_OK, "process_last(%zu): %s", last_len, sname(cr.status));
            REQUIRE(cr.reported <= q, "process_last reported %zu, the query said %zu", cr.reported, q);
            pbt::trace("%s last %zu -> %zu", alg_name(s.alg), last_len, cr.reported);
            got.insert(got.end(), cr.out.begin(), cr.out.end());
            calls++;
        }
        REQUIRE(got == want, "%s %s: got %s want %s", alg_name(s.alg), s.enc() ? "encrypt" : "decrypt", pbt::hex(got).c_str(),
                pbt::hex(want).c_str());
        total += in.size();
    }
    if (calls > 1 || total > 16) pbt::nontrivial();
    if (segments > 1) pbt::label("iv changed");
    REQUIRE(c.cipher_release(ctx) == SA_STATUS_OK, "release");
}

// Decrypting with damaged padding or unsuitable lengths is rejected.
PROP(c07_reject, "the final block's padding was invalid, or a length was unsuitable for the algorithm") {
    Caller c = src.coin() ? Caller::open(TA_A) : Caller::ree();
    SymCfg s = gen_cfg(src, src.pick(sym_algs(false)));
    sa_key k = c.must_import_sym(s.key, rights_all());
    sa_crypto_cipher_context ctx = INVALID_HANDLE;
    if (s.padded() && src.coin()) {
        s.mode = SA_CIPHER_MODE_DECRYPT;
        size_t blocks = src.range(1, 5);
        Bytes plain = src.bytes(blocks * 16);
        // a last block whose padding is wrong
        size_t p = src.range(1, 16);
        Bytes good = pkcs7_pad(Bytes(16 - p));
        bool valid = true;
        switch (src.below(3)) {
            case 0: good[15] = 0, valid = false; break;
            case 1: good[15] = (uint8_t) src.range(17, 255), valid = false; break;
            default:
                if (p == 1) good[15] = (uint8_t) src.range(2, 16);
                else good[16 - src.range(2, p)] ^= (uint8_t) src.range(1, 255);
                // recompute validity by definition
                uint8_t v = good[15];
                valid = v >= 1 && v <= 16;
                for (size_t i = 16 - v; valid && i < 16; i++) valid = good[i] == v;
        }
        if (valid) pbt::discard();
        std::copy(good.begin(), good.end(), plain.end() - 16);
        SymCfg u = s;
        u.alg = s.cbc() ? SA_CIPHER_ALGORITHM_AES_CBC : SA_CIPHER_ALGORITHM_AES_ECB;
        Bytes ct = ref_encrypt(u, plain, s.iv);
        REQUIRE(stream_init(c, &ctx, s, k) == SA_STATUS_OK, "init");
        size_t ln = src.coin() ? 16 : 0;
        Bytes body = sub(ct, 0, ct.size() - ln), tail = sub(ct, ct.size() - ln, ln);
        if (!body.empty()) {
            CallResult cr = stream_call(src, c, ctx, body, body.size() + 16, false, nullptr, Io());
            REQUIRE(cr.status == SA_STATUS_OK, "process: %s", sname(cr.status));
        }
        CallResult cr = stream_call(src, c, ctx, tail, 32, true, nullptr, Io());
        pbt::trace("%s bad padding %s -> %s", alg_name(s.alg), pbt::hex(good).c_str(), sname(cr.status));
        REQUIRE(cr.status == SA_STATUS_VERIFICATION_FAILED, "invalid padding %s gave %s", pbt::hex(good).c_str(), sname(cr.status));
        pbt::label("bad padding");
        pbt::nontrivial();
        return;
    }
    REQUIRE(stream_init(c, &ctx, s, k) == SA_STATUS_OK, "init");
    if (s.block()) {
        size_t n = src.size(1, 200);
        if (n % 16 == 0) n++;
        CallResult cr = stream_call(src, c, ctx, src.bytes(n), n + 32, false, nullptr, Io());
        REQUIRE(cr.status == SA_STATUS_INVALID_PARAMETER, "process of %zu bytes with %s: %s", n, alg_name(s.alg), sname(cr.status));
        REQUIRE(cr.clear_untouched, "output of a refused call was written");
        pbt::label("partial block");
        // still usable afterwards
        Bytes p = src.bytes(32);
        CallResult ok = stream_call(src, c, ctx, p, 64, false, nullptr, Io());
        REQUIRE(ok.status == SA_STATUS_OK, "%s", sname(ok.status));
        SymCfg u = s;
        u.alg = s.cbc() ? SA_CIPHER_ALGORITHM_AES_CBC : SA_CIPHER_ALGORITHM_AES_ECB;
        if (s.enc()) REQUIRE(ok.out == ref_encrypt(u, p, s.iv), "result after a refused call");
        if (s.has_last()) {
            size_t m = s.enc() ? src.range(17, 100) : src.range(1, 100);
            if (!s.enc() && m == 16) m = 17;
            CallResult l = stream_call(src, c, ctx, src.bytes(m), m + 32, true, nullptr, Io());
            REQUIRE(l.status == SA_STATUS_INVALID_PARAMETER, "process_last of %zu bytes: %s", m, sname(l.status));
        } else {
            CallResult l = stream_call(src, c, ctx, src.bytes(16), 32, true, nullptr, Io());
            REQUIRE(l.status != SA_STATUS_OK, "process_last with %s", alg_name(s.alg));
        }
    } else {
        // output space too small
        size_t n = src.size(1, 200), room = src.below(n);
        CallResult cr = stream_call(src, c, ctx, src.bytes(n), room, false, nullptr, Io());
        REQUIRE(cr.status == SA_STATUS_INVALID_PARAMETER, "process of %zu bytes into %zu: %s", n, room, sname(cr.status));
        REQUIRE(cr.clear_untouched, "output of a refused call was written");
        pbt::label("short output");
    }
    pbt::nontrivial();
}

// Initialisation accepts exactly the documented parameter sizes and key sizes.
PROP(c07_init, "a key size, IV, counter or nonce length other than the standard one was offered") {
    Caller c = src.coin() ? Caller::open(TA_A) : Caller::ree();
    SymCfg s = gen_cfg(src, src.pick(sym_algs(true)));
    size_t kn = src.coin() ? s.key.size() : src.pick({16, 17, 20, 24, 31, 32, 33, 48, 64, 128, 512});
    s.key = src.bytes(kn);
    bool ok = s.chacha() || s.poly() ? kn == 32 : kn == 16 || kn == 32;
    bool key_ok = ok;
    if (!s.iv.empty() && src.coin()) {
        size_t n = src.size(0, 40);
        ok = ok && n == s.iv.size();
        s.iv = src.bytes(n);
    }
    if (!s.counter.empty() && src.chance(1, 3)) {
        size_t n = src.size(0, 20);
        ok = ok && n == s.counter.size();
        s.counter = src.bytes(n);
    }
    sa_key k = c.must_import_sym(s.key, rights_all());
    sa_crypto_cipher_context ctx = INVALID_HANDLE;
    sa_status st = stream_init(c, &ctx, s, k);
    pbt::trace("%s key %zu iv %zu counter %zu -> %s", alg_name(s.alg), kn, s.iv.size(), s.counter.size(), sname(st));
    REQUIRE((st == SA_STATUS_OK) == ok, "%s key %zu iv %zu counter %zu -> %s", alg_name(s.alg), kn, s.iv.size(), s.counter.size(),
            sname(st));
    if (!key_ok) REQUIRE(st != SA_STATUS_OK, "%s", sname(st));
    if (!ok) pbt::nontrivial();
    if (st == SA_STATUS_OK && s.iv_updatable()) {
        size_t n = src.size(0, 40);
        Bytes iv = src.bytes(n);
        st = c.cipher_update_iv(ctx, n ? iv.data() : (const void*) "", n);
        REQUIRE((st == SA_STATUS_OK) == (n == 16), "update_iv(%zu): %s", n, sname(st));
    } else if (st == SA_STATUS_OK) {
        Bytes iv = src.bytes(16);
        REQUIRE(c.cipher_update_iv(ctx, iv.data(), 16) == SA_STATUS_INVALID_PARAMETER, "update_iv on %s", alg_name(s.alg));
    }
}
