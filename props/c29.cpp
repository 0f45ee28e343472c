// C29: a refused cipher or MAC call leaves the context as it was; nothing is accepted after the last block.
#include "optable.hpp"
#include "stream.hpp"
using namespace sec;

static unsigned g_refused;          // refused calls made while the stream was under way
static const int64_t NOW = 1700000000;

// The environment a key's rights depend on; lapse() makes the rights invalid, restore() valid again.
struct Lapse {
    int64_t now = g_now;
    video_output_state_t video = g_video;
    sa_uuid caller = g_caller;
    ~Lapse() { g_now = now; g_video = video; g_caller = caller; }
};
struct World {
    Caller c, other;
    std::vector<sa_key> spare;      // released key handles and keys of the other client
    bool direct;
};
struct Stream {
    World& w;
    const Caller& c;
    std::string name;
    bool over = false;
    explicit Stream(World& w_) : w(w_), c(w_.c) {}
    virtual ~Stream() {}
    virtual void step(Src& src) = 0;       // the next valid call
    virtual void refuse(Src& src) = 0;     // a call that must be refused, or whose refusal must have no effect
    virtual void after(Src& src) = 0;      // the stream is complete: more data is refused
    virtual void release() = 0;
};
static void refused(const Stream& s, const char* what, sa_status st) {
    pbt::trace("  %s: %s -> %s", s.name.c_str(), what, sname(st));
    REQUIRE(st != SA_STATUS_OK, "%s: a call that must be refused was accepted: %s", s.name.c_str(), what);
    g_refused++;
    pbt::label("refused/%s", what);
}
static sa_handle wrong_handle(Src& src, sa_handle mine) {
    switch (src.below(4)) {
        case 0: return INVALID_HANDLE;
        case 1: return mine + 1000 + src.below(1000);
        case 2: return mine ^ ((sa_handle) 1 << 40);
        default: return 256 + src.below(100000);
    }
}

// ---------------------------------------------------------------- ciphers
struct CipherStream : Stream {
    SymCfg s;
    sa_key k = INVALID_HANDLE;
    sa_crypto_cipher_context x = INVALID_HANDLE;
    Bytes in, want, got, tag, iv;
    size_t pos = 0, last = 0, tl = 16;
    unsigned calls = 0, updates = 0;
    bool svp = false, windowed = false, finished = false;
    CipherStream(World& w_, Src& src) : Stream(w_) {
        s = gen_cfg(src, sym_algs(true)[src.below(8)]);
        iv = s.iv;
        sa_rights r = rights_all();
        windowed = src.coin();
        if (windowed) { r.not_before = NOW - 10; r.not_on_or_after = NOW + 10; }
        k = c.must_import_sym(s.key, r);
        REQUIRE(stream_init(c, &x, s, k) == SA_STATUS_OK, "init");
        svp = !s.aead_alg() && src.chance(1, 3);
        name = std::string(alg_name(s.alg)) + (s.enc() ? "/enc" : "/dec") + (svp ? "/svp" : "") + "#" + std::to_string(x);
        tl = s.gcm() ? src.range(12, 16) : 16;
        message(src);
        pbt::label("%s/%s%s", alg_name(s.alg), s.enc() ? "enc" : "dec", svp ? "/svp" : "");
    }
    void message(Src& src) {
        size_t len = src.size(0, 160);
        bool more = s.iv_updatable() && updates < 2 && src.chance(1, 3);   // the IV changes after this message
        if (more && s.padded() && !s.enc()) len = 0;
        if (s.block() && (!s.padded() || more)) len -= len % 16;
        Bytes plain = src.bytes(len), ct;
        if (more && s.padded()) {
            SymCfg u = s;
            u.alg = SA_CIPHER_ALGORITHM_AES_CBC;
            ct = ref_encrypt(u, plain, iv);
        } else
            ct = ref_encrypt(s, plain, iv, &tag);
        in = s.enc() ? plain : ct;
        want = s.enc() ? ct : plain;
        got.clear();
        pos = 0;
        use_last = s.has_last() && !more;
        final_message = !more;
        last = 0;
        if (use_last) last = s.padded() ? (s.enc() ? (in.size() % 16 ? in.size() % 16 : src.coin() && !in.empty() ? 16 : 0) : src.coin() ? 16 : 0)
                                        : src.below(std::min<size_t>(in.size(), 16) + 1);
    }
    bool use_last = false, final_message = true;
    Io io() const {
        Io i;
        i.in_svp = i.out_svp = svp;
        return i;
    }
    void step(Src& src) override {
        size_t body = in.size() - last;
        if (pos < body) {
            size_t n = src.chance(1, 3) ? body - pos : src.below(body - pos + 1);
            if (s.block()) n -= n % 16;
            if (n == 0 && calls > 12) n = body - pos;
            CallResult cr = stream_call(src, c, x, sub(in, pos, n), n + (src.coin() ? 0 : src.below(20)), false, nullptr, io());
            pbt::trace("%s process %zu -> %s %zu", name.c_str(), n, sname(cr.status), cr.reported);
            REQUIRE(cr.status == SA_STATUS_OK, "%s: process(%zu) after refused calls: %s", name.c_str(), n, sname(cr.status));
            got.insert(got.end(), cr.out.begin(), cr.out.end());
            pos += n;
            calls++;
            check(false);
            return;
        }
        if (use_last) {
            Guarded t(tl);
            if (!s.enc() && !tag.empty()) memcpy(t.data(), tag.data(), tl);
            sa_cipher_end_parameters_aes_gcm gp = {t.data(), tl};
            sa_cipher_end_parameters_chacha20_poly1305 pp = {t.data(), tl};
            void* ep = s.gcm() ? (void*) &gp : s.poly() ? (void*) &pp : nullptr;
            size_t need = s.padded() ? 16 * (last / 16 + 1) : last;
            CallResult cr = stream_call(src, c, x, sub(in, pos, last), need + (src.coin() ? 0 : src.below(20)), true, ep, io());
            pbt::trace("%s last %zu -> %s %zu", name.c_str(), last, sname(cr.status), cr.reported);
            REQUIRE(cr.status == SA_STATUS_OK, "%s: process_last(%zu) after refused calls: %s", name.c_str(), last, sname(cr.status));
            got.insert(got.end(), cr.out.begin(), cr.out.end());
            if (s.aead_alg()) REQUIRE(t.intact() && t.get(0, tl) == sub(tag, 0, tl), "%s: tag after refused calls", name.c_str());
            check(true);
            over = finished = true;
            return;
        }
        check(!s.padded() || s.enc());
        if (!final_message) {
            iv = src.bytes(16);
            Exact e(iv);
            sa_status st = c.cipher_update_iv(x, e.p, 16);
            REQUIRE(st == SA_STATUS_OK, "%s: update_iv: %s", name.c_str(), sname(st));
            updates++;
            message(src);
            return;
        }
        over = true;
    }
    void check(bool complete) {
        if (complete) REQUIRE(got == want, "%s: with refused calls in between %s, without them %s", name.c_str(), pbt::hex(got).c_str(), pbt::hex(want).c_str());
        else REQUIRE(got.size() <= want.size() && std::equal(got.begin(), got.end(), want.begin()), "%s: with refused calls in between %s, without them %s",
                name.c_str(), pbt::hex(got).c_str(), pbt::hex(want).c_str());
    }
    // one call with the given areas; must be refused without a trace in the areas
    void call(const char* what, const Caller& who, sa_crypto_cipher_context h, const Bytes& data, size_t room, bool lst, void* ep, int it = -1, int ot = -1,
            bool null_n = false, bool null_in = false) {
        Exact e(data.empty() ? Bytes(1) : data);
        Guarded g(room);
        std::unique_ptr<SvpMem> si, so;
        sa_buffer ib = clear_buf(e.p, data.size()), ob = clear_buf(g.data(), room);
        if (svp && &who == &c) {
            si.reset(new SvpMem(c, e.n));
            so.reset(new SvpMem(c, room ? room : 1));
            memcpy(si->mem.data(), e.p, e.n);
            ib = svp_buf(si->h);
            ob = svp_buf(so->h);
        }
        sa_buffer i0 = ib, o0 = ob;
        if (it >= 0) ib.buffer_type = (sa_buffer_type) it;
        if (ot >= 0) ob.buffer_type = (sa_buffer_type) ot;
        size_t n = data.size();
        sa_status st = lst ? who.cipher_process_last(&ob, h, null_in ? nullptr : &ib, null_n ? nullptr : &n, ep)
                           : who.cipher_process(&ob, h, null_in ? nullptr : &ib, null_n ? nullptr : &n);
        refused(*this, what, st);
        REQUIRE(off(ib) == off(i0) && off(ob) == off(o0), "%s: refused (%s), but an offset moved", name.c_str(), what);
        Guarded& gg = so ? so->mem : g;
        REQUIRE(gg.intact() && gg.untouched(0, gg.n), "%s: refused (%s), but output was written", name.c_str(), what);
    }
    static size_t off(const sa_buffer& b) { return b.buffer_type == SA_BUFFER_TYPE_SVP ? b.context.svp.offset : b.context.clear.offset; }
    Bytes some(Src& src) {   // data that process would take
        size_t n = src.size(1, 64);
        if (s.block()) n = 16 * src.range(1, 4);
        return src.bytes(n);
    }
    void refuse(Src& src) override {
        uint8_t tagbuf[32] = {};
        sa_cipher_end_parameters_aes_gcm gp = {tagbuf, tl};
        sa_cipher_end_parameters_chacha20_poly1305 pp = {tagbuf, tl};
        void* ep = s.gcm() ? (void*) &gp : s.poly() ? (void*) &pp : nullptr;
        Bytes d = some(src);
        switch (src.below(14)) {
            case 0: call("process, wrong handle", c, wrong_handle(src, x), d, d.size() + 16, false, nullptr); break;
            case 1:
                if (svp) call("process, another client's handle", w.other, x, d, d.size() + 16, false, nullptr);
                else call("process, another client's handle", w.other, x, d, d.size() + 16, false, nullptr);
                break;
            case 2:
                if (src.coin()) call("process, no byte count", c, x, d, d.size() + 16, false, nullptr, -1, -1, true);
                else call("process, no input", c, x, d, d.size() + 16, false, nullptr, -1, -1, false, true);
                break;
            case 3:
                if (!s.block()) break;
                d.resize(16 * src.below(5) + src.range(1, 15));
                call("process, not whole blocks", c, x, d, d.size() + 32, false, nullptr);
                break;
            case 4: {
                int t = src.coin() ? 2 + (int) src.below(4) : 0x10000 + (int) src.below(3);
                bool i = src.coin(), lst = s.has_last() && src.coin();
                if (lst) d.resize(std::min<size_t>(d.size(), 16));
                call("buffer type", c, x, d, d.size() + 32, lst, ep, i ? t : -1, i ? -1 : t);
                break;
            }
            case 5: {   // room
                bool lst = s.has_last() && src.coin();
                if (lst) d.resize(std::min<size_t>(d.size(), 16));
                size_t need = d.size();
                if (lst && s.padded()) need = 16 * (d.size() / 16 + 1);
                if (need < 2) break;
                call(lst ? "last, short output" : "process, short output", c, x, d, svp ? 1 + src.below(need - 1) : src.below(need), lst, ep);
                break;
            }
            case 6: {   // last call with a length it does not take
                if (!s.has_last() && src.coin()) {
                    d.resize(src.coin() ? 16 : src.below(17));
                    call("last, not for this algorithm", c, x, d, 64, true, nullptr);
                    break;
                }
                if (s.padded() || (s.gcm()) || (!s.enc() && !s.poly() && s.has_last())) {
                    d.resize(16 + (s.padded() && !s.enc() && src.coin() ? 16 * src.range(1, 3) : src.range(1, 40)));
                    call("last, too long", c, x, d, 2 * d.size() + 32, true, ep);
                } else if (s.has_last()) {
                    call("last, no byte count", c, x, d, 2 * d.size() + 32, true, ep, -1, -1, true);
                }
                break;
            }
            case 7:
                if (s.padded() && !s.enc()) {
                    d.resize(src.range(1, 15));
                    call("last, not whole blocks", c, x, d, 64, true, nullptr);
                } else if (s.aead_alg()) {
                    d.resize(std::min<size_t>(d.size(), 16));
                    switch (src.below(4)) {
                        case 0: call("last, no end parameters", c, x, d, 64, true, nullptr); break;
                        case 1:
                            gp.tag = pp.tag = nullptr;
                            call("last, no tag", c, x, d, 64, true, ep);
                            break;
                        case 2:
                            gp.tag_length = pp.tag_length = 17 + src.below(15);
                            call("last, tag too long", c, x, d, 64, true, ep);
                            break;
                        default:
                            if (s.gcm() && s.enc()) break;   // no lower bound is documented for what encryption may ask for
                            gp.tag_length = pp.tag_length = s.gcm() ? 0 : src.below(16);
                            call("last, tag too short", c, x, d, 64, true, ep);
                    }
                    for (auto b : tagbuf) REQUIRE(b == 0, "%s: refused, but the tag was written", name.c_str());
                }
                break;
            case 8: {
                Exact e(src.bytes(40));
                size_t n = s.iv_updatable() ? (src.coin() ? src.below(16) : src.range(17, 40)) : (src.coin() ? 16 : s.iv.empty() ? 12 : s.iv.size());
                refused(*this, s.iv_updatable() ? "update_iv, wrong length" : "update_iv, not for this algorithm", c.cipher_update_iv(x, e.p, n));
                break;
            }
            case 9: {
                Exact e(src.bytes(16));
                if (src.coin()) refused(*this, "update_iv, NULL", c.cipher_update_iv(x, nullptr, 16));
                else if (src.coin()) refused(*this, "update_iv, wrong handle", c.cipher_update_iv(wrong_handle(src, x), e.p, 16));
                else refused(*this, "update_iv, another client's handle", w.other.cipher_update_iv(x, e.p, 16));
                break;
            }
            case 10: {   // the key may not be used now
                if (!windowed) break;
                bool lst = s.has_last() && src.coin();
                if (lst) d.resize(s.padded() && !s.enc() ? 16 : std::min<size_t>(d.size(), 16));
                Lapse l;
                g_now = src.coin() ? NOW - 11 - src.below(100) : NOW + 10 + src.below(100);
                call(lst ? "last, outside the key's time" : "process, outside the key's time", c, x, d, 2 * d.size() + 32, lst, ep);
                break;
            }
            case 11: {
                if (!w.direct) break;
                refused(*this, "release, another client's handle", w.other.cipher_release(x));
                break;
            }
            case 12: {   // common encryption
                if (s.aead_alg()) break;
                Bytes siv = src.bytes(16);
                Exact eiv(siv);
                size_t clear = src.below(20), prot = src.size(1, 80);
                Exact e(src.bytes(clear + prot));
                Guarded g(clear + prot);
                sa_subsample_length sl = {clear, prot};
                sa_buffer ib = clear_buf(e.p, e.n), ob = clear_buf(g.data(), g.n);
                sa_sample sm = {eiv.p, 16, src.below(3), 0, 1, &sl, x, &ob, &ib};
                const char* what;
                bool able = !s.enc() && (s.ctr() || s.alg == SA_CIPHER_ALGORITHM_AES_CBC);
                Lapse l;
                if (!able) what = "sample, not for this cipher";
                else switch (src.below(windowed ? 8 : 7)) {
                    case 0: what = "sample, output too small"; ob.context.clear.length = src.below(g.n); break;
                    case 1: what = "sample, input too small"; ib.context.clear.length = src.below(e.n); break;
                    case 2: what = "sample, IV length"; sm.iv_length = src.below(16); break;
                    case 3: what = "sample, no subsamples"; sm.subsample_count = 0; break;
                    case 4: what = "sample, skip without crypt"; sm.crypt_byte_block = 0; sm.skip_byte_block = 1 + src.below(9); break;
                    case 5: what = "sample, buffer type"; (src.coin() ? ib : ob).buffer_type = (sa_buffer_type) (2 + src.below(4)); break;
                    case 6: what = "sample, output on input"; ob = ib; break;
                    default: what = "sample, outside the key's time"; g_now = NOW + 10 + src.below(100); break;
                }
                sa_buffer i0 = ib, o0 = ob;
                refused(*this, what, c.cenc(1, &sm));
                REQUIRE(off(ib) == off(i0) && off(ob) == off(o0), "%s: refused (%s), but an offset moved", name.c_str(), what);
                REQUIRE(g.intact() && g.untouched(0, g.n), "%s: refused (%s), but output was written", name.c_str(), what);
                break;
            }
            default: {   // a call of another kind with this stream's context or key
                switch (src.below(3)) {
                    case 0: {
                        sa_crypto_cipher_context y = INVALID_HANDLE;
                        refused(*this, "init, bad algorithm", c.cipher_init(&y, (sa_cipher_algorithm) (11 + src.below(9)), s.mode, k, nullptr));
                        break;
                    }
                    case 1: {
                        sa_crypto_cipher_context y = INVALID_HANDLE;
                        refused(*this, "init, bad mode", c.cipher_init(&y, SA_CIPHER_ALGORITHM_AES_ECB, (sa_cipher_mode) (2 + src.below(9)), k, nullptr));
                        break;
                    }
                    default: refused(*this, "release, wrong handle", c.cipher_release(wrong_handle(src, x)));
                }
            }
        }
    }
    void after(Src& src) override {
        if (!finished) return;
        for (unsigned i = src.range(1, 4); i > 0; i--) {
            Bytes d = some(src);
            uint8_t tagbuf[32] = {};
            sa_cipher_end_parameters_aes_gcm gp = {tagbuf, tl};
            sa_cipher_end_parameters_chacha20_poly1305 pp = {tagbuf, tl};
            void* ep = s.gcm() ? (void*) &gp : s.poly() ? (void*) &pp : nullptr;
            bool lst = src.coin();
            if (lst) d.resize(s.padded() && !s.enc() ? 16 : src.below(std::min<size_t>(d.size(), 16) + 1));
            if (s.ctr() && !s.enc() && src.chance(1, 3)) {
                Exact eiv(src.bytes(16));
                Exact e(src.bytes(40));
                Guarded g(40);
                sa_subsample_length sl = {8, 32};
                sa_buffer ib = clear_buf(e.p, e.n), ob = clear_buf(g.data(), g.n);
                sa_sample sm = {eiv.p, 16, 0, 0, 1, &sl, x, &ob, &ib};
                refused(*this, "sample after the last block", c.cenc(1, &sm));
                REQUIRE(g.intact() && g.untouched(0, g.n), "%s: refused, but output was written", name.c_str());
                continue;
            }
            call(lst ? "last after the last block" : "process after the last block", c, x, d, 2 * d.size() + 32, lst, ep);
        }
    }
    void release() override { REQUIRE(c.cipher_release(x) == SA_STATUS_OK, "%s: release", name.c_str()); }
};

// ---------------------------------------------------------------- MACs
struct MacStream : Stream {
    bool hmac;
    sa_digest_algorithm d;
    Bytes key, data;
    sa_key k = INVALID_HANDLE;
    sa_crypto_mac_context x = INVALID_HANDLE;
    size_t len;
    unsigned steps;
    MacStream(World& w_, Src& src) : Stream(w_) {
        hmac = src.coin();
        d = ALL_DIGESTS[src.below(4)];
        key = src.bytes(hmac ? src.range(16, 80) : src.coin() ? 16 : 32);
        k = c.must_import_sym(key, rights_all());
        sa_mac_parameters_hmac hp = {d};
        REQUIRE(c.mac_init(&x, hmac ? SA_MAC_ALGORITHM_HMAC : SA_MAC_ALGORITHM_CMAC, k, hmac ? &hp : nullptr) == SA_STATUS_OK, "mac_init");
        name = std::string(hmac ? "HMAC" : "CMAC") + "#" + std::to_string(x);
        len = hmac ? md_len(d) : 16;
        steps = src.below(5);
        pbt::label("%s", hmac ? "HMAC" : "CMAC");
    }
    void step(Src& src) override {
        if (steps > 0) {
            steps--;
            if (src.chance(1, 4)) {
                Bytes kb = src.bytes(src.range(16, 60));
                sa_key dk = c.must_import_sym(kb, rights_all());
                sa_status st = c.mac_process_key(x, dk);
                REQUIRE(st == SA_STATUS_OK, "%s: process_key: %s", name.c_str(), sname(st));
                data.insert(data.end(), kb.begin(), kb.end());
                c.key_release(dk);
                w.spare.push_back(dk);
            } else {
                Bytes b = src.bytes(src.size(1, 150));
                Exact e(b);
                sa_status st = c.mac_process(x, e.p, e.n);
                REQUIRE(st == SA_STATUS_OK, "%s: process: %s", name.c_str(), sname(st));
                data.insert(data.end(), b.begin(), b.end());
            }
            return;
        }
        Bytes want = hmac ? ref_hmac(d, key, data) : ref_cmac(key, data);
        Guarded g(len);
        size_t n = len;
        sa_status st = c.mac_compute(g.data(), &n, x);
        REQUIRE(st == SA_STATUS_OK && n == len, "%s: compute after refused calls: %s %zu", name.c_str(), sname(st), n);
        REQUIRE(g.intact() && g.get(0, n) == want, "%s: with refused calls in between %s, without them %s", name.c_str(), pbt::hex(g.get(0, n)).c_str(),
                pbt::hex(want).c_str());
        over = true;
    }
    void refuse(Src& src) override {
        Exact e(src.bytes(src.size(1, 60)));
        uint8_t out[80];
        size_t n = sizeof out;
        switch (src.below(11)) {
            case 0: refused(*this, "mac process, wrong handle", c.mac_process(wrong_handle(src, x), e.p, e.n)); break;
            case 1: refused(*this, "mac process, another client's handle", w.other.mac_process(x, e.p, e.n)); break;
            case 2: refused(*this, "mac process, NULL data", c.mac_process(x, nullptr, 1 + src.below(50))); break;
            case 3: {
                n = src.below(len);
                Guarded g(n);
                refused(*this, "mac compute, short output", c.mac_compute(g.data(), &n, x));
                REQUIRE(g.intact() && g.untouched(0, g.n), "%s: refused, but output was written", name.c_str());
                break;
            }
            case 4: refused(*this, "mac compute, no length", c.mac_compute(out, nullptr, x)); break;
            case 5: refused(*this, "mac compute, another client's handle", w.other.mac_compute(out, &n, x)); break;
            case 6: refused(*this, "mac compute, wrong handle", c.mac_compute(out, &n, wrong_handle(src, x))); break;
            case 7: {
                Mat m = src.coin() ? mat_rsa(src, 128) : peer(SA_ELLIPTIC_CURVE_NIST_P256);
                sa_key bad = must_import(c, m, rights_all());
                refused(*this, "mac process_key, not symmetric", c.mac_process_key(x, bad));
                c.key_release(bad);
                break;
            }
            case 8: {
                sa_key bad = w.other.must_import_sym(src.bytes(16), rights_all());
                sa_key mine = src.coin() ? bad : wrong_handle(src, bad);
                // a handle of the other client may by chance be one of ours, which is then a valid key
                sa_header h;
                if (c.key_header(&h, mine) == SA_STATUS_OK) { w.other.key_release(bad); break; }
                refused(*this, "mac process_key, wrong key handle", c.mac_process_key(x, mine));
                w.other.key_release(bad);
                break;
            }
            case 9: {
                sa_rights r = rights_all();
                bool time = src.coin(), early = src.coin();
                if (time) { if (early) r.not_before = g_now + 1 + src.below(100); else { r.not_on_or_after = g_now - src.below(100); } }
                else r.allowed_tas[0] = TA_B;
                if (!time) for (int i = 1; i < 32; i++) memset(&r.allowed_tas[i], 0, sizeof(sa_uuid));
                sa_key bad = INVALID_HANDLE;
                if (import_mat(c, &bad, mat_sym(src, 16), r) != SA_STATUS_OK) break;
                refused(*this, "mac process_key, key not usable", c.mac_process_key(x, bad));
                c.key_release(bad);
                break;
            }
            default: {
                sa_crypto_mac_context y = INVALID_HANDLE;
                refused(*this, "mac init, bad algorithm", c.mac_init(&y, (sa_mac_algorithm) (2 + src.below(9)), k, nullptr));
                break;
            }
        }
    }
    void after(Src& src) override {
        for (unsigned i = src.range(1, 3); i > 0; i--) {
            Exact e(src.bytes(20));
            Guarded g(len);
            size_t n = len;
            switch (src.below(3)) {
                case 0: {
                    sa_status st = c.mac_process(x, e.p, e.n);
                    refused(*this, "mac process after compute", st);
                    break;
                }
                case 1: {
                    sa_key dk = c.must_import_sym(src.bytes(16), rights_all());
                    refused(*this, "mac process_key after compute", c.mac_process_key(x, dk));
                    c.key_release(dk);
                    break;
                }
                default:
                    refused(*this, "mac compute after compute", c.mac_compute(g.data(), &n, x));
                    REQUIRE(g.intact() && g.untouched(0, len), "%s: refused, but output was written", name.c_str());
            }
        }
    }
    void release() override { REQUIRE(c.mac_release(x) == SA_STATUS_OK, "%s: release", name.c_str()); }
};

PROP(c29_streams, "at least three calls were refused while a stream was under way") {
    g_now = NOW;
    World w{src.coin() ? Caller::ree() : Caller::open(TA_A), Caller::open(TA_B), {}, false};
    w.direct = w.c.direct;
    g_refused = 0;
    std::vector<std::unique_ptr<Stream>> v;
    for (unsigned i = src.weighted({3, 3, 1}) + 1; i > 0; i--) {
        if (src.chance(1, 3)) v.emplace_back(new MacStream(w, src));
        else v.emplace_back(new CipherStream(w, src));
    }
    unsigned open = (unsigned) v.size(), guard = 0;
    while (open > 0 && guard++ < 400) {
        Stream& s = *v[src.below(v.size())];
        if (s.over) {
            if (src.chance(1, 3)) s.after(src);
            if (guard > 200) for (auto& t : v) while (!t->over) t->step(src);
        } else if (src.coin())
            s.refuse(src);
        else
            s.step(src);
        open = 0;
        for (auto& t : v) open += !t->over;
    }
    unsigned during = g_refused;
    for (auto& t : v) {
        REQUIRE(t->over, "the stream did not end");
        t->after(src);
    }
    for (auto& t : v) t->release();
    if (during >= 3) pbt::nontrivial();
    w.other.close();
    if (w.direct) w.c.close();
}
