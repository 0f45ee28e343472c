// C21: length queries are exact, shorter buffers are refused without any effect, nothing is written outside.
#include "optable.hpp"
#include "sig.hpp"
using namespace sec;

static Caller who(Src& src) { return src.coin() ? Caller::ree() : Caller::open(TA_A); }
// One call that produces bytes: out may be NULL (query).
struct Out {
    std::string name;
    size_t len = 0;                                          // what it needs
    std::function<sa_status(void*, size_t*)> call;
    std::function<void(const Bytes&)> check;                 // the result is right
    bool once = false;                                       // the successful call uses up the context
};
static size_t short_len(Src& src, size_t n) {
    switch (src.weighted({3, 1, 1, 3})) {
        case 0: return n - 1;
        case 1: return 0;
        case 2: return 1 < n ? 1 : 0;
        default: return src.below(n);
    }
}
static unsigned g_short, g_query;
static void query(Out& o) {
    size_t n = 0xdeadbeef;
    sa_status s = o.call(nullptr, &n);
    pbt::trace("%s query -> %s %zu", o.name.c_str(), sname(s), n);
    REQUIRE(s == SA_STATUS_OK && n == o.len, "%s: query %s %zu, the call needs %zu", o.name.c_str(), sname(s), n, o.len);
    g_query++;
}
static void refuse(Src& src, Out& o) {
    if (o.len == 0) return;
    size_t room = short_len(src, o.len), n = room;
    Guarded g(room);
    sa_status s = o.call(g.data(), &n);
    pbt::trace("%s room %zu -> %s", o.name.c_str(), room, sname(s));
    REQUIRE(s != SA_STATUS_OK, "%s: %zu bytes of room accepted, the query said %zu", o.name.c_str(), room, o.len);
    REQUIRE(g.intact() && g.untouched(0, room), "%s: refused for %zu bytes of room, and wrote", o.name.c_str(), room);
    g_short++;
}
static void produce(Src& src, Out& o) {
    size_t room = o.len + (src.coin() ? 0 : src.size(1, 80)), n = room;
    Guarded g(room);
    sa_status s = o.call(g.data(), &n);
    pbt::trace("%s room %zu -> %s %zu", o.name.c_str(), room, sname(s), n);
    REQUIRE(s == SA_STATUS_OK, "%s: %zu bytes of room, needs %zu: %s", o.name.c_str(), room, o.len, sname(s));
    REQUIRE(n == o.len, "%s: reported %zu bytes, the query said %zu", o.name.c_str(), n, o.len);
    REQUIRE(g.intact() && g.untouched(n, room), "%s: wrote past the %zu bytes it reported", o.name.c_str(), n);
    o.check(g.get(0, n));
}
static Out gen_out(Src& src, const Caller& c) {
    Out o;
    Caller* cc = new Caller(c);   // lives as long as the case's process
    auto caller = std::shared_ptr<Caller>(cc);
    auto ks = std::make_shared<AnyKey>();
    switch (src.weighted({3, 3, 3, 4, 3, 2})) {
        case 0: {
            auto d = ALL_DIGESTS[src.below(4)];
            Bytes kb = src.bytes(src.size(16, 512));
            sa_key k = c.must_import_sym(kb, rights_all());
            o.name = "key_digest";
            o.len = md_len(d);
            Bytes want = ref_digest(d, kb);
            o.call = [=](void* p, size_t* n) { return caller->key_digest(p, n, k, d); };
            o.check = [=](const Bytes& b) { REQUIRE(b == want, "digest"); };
            break;
        }
        case 1: {
            Mat m = src.coin() ? mat_ec(src, ALL_CURVES[src.below(9)]) : mat_rsa(src, src.coin() ? 128 : 256);
            sa_key k;
            if (src.chance(1, 4)) {
                auto& g = dh_groups()[src.below(2)];
                k = make_dh(c, g, rights_all());
                Bytes first(2000);
                size_t n = first.size();
                REQUIRE(c.key_get_public(first.data(), &n, k) == SA_STATUS_OK, "public");
                first.resize(n);
                o.len = n;
                o.check = [=](const Bytes& b) { REQUIRE(b == first, "the public component changed"); };
            } else {
                k = must_import(c, m, rights_all());
                Bytes want = m.pub();
                o.len = want.size();
                o.check = [=](const Bytes& b) { REQUIRE(b == want, "public component"); };
            }
            o.name = "key_get_public";
            o.call = [=](void* p, size_t* n) { return caller->key_get_public(p, n, k); };
            break;
        }
        case 2: {
            *ks = gen_key(src, c, rights_all());
            Bytes mx = src.coin() ? src.bytes(16) : Bytes();
            sa_key k = ks->h;
            std::string fp = fingerprint(c, k, false);
            o.name = "key_export";
            Bytes first;
            sa_status s = export_key(c, k, mx.empty() ? nullptr : &mx, first);
            REQUIRE(s == SA_STATUS_OK, "export %s", sname(s));
            o.len = first.size();
            o.call = [=](void* p, size_t* n) { return caller->key_export(p, n, mx.empty() ? nullptr : mx.data(), mx.size(), k); };
            o.check = [=](const Bytes& b) {
                sa_key q = INVALID_HANDLE;
                sa_status s2 = import_exported(*caller, &q, b);
                REQUIRE(s2 == SA_STATUS_OK && fingerprint(*caller, q, false) == fp, "the exported key is another one: %s", sname(s2));
                caller->key_release(q);
            };
            break;
        }
        case 3: {
            auto p = std::make_shared<Params>();
            p->alg = src.pick({SA_SIGNATURE_ALGORITHM_RSA_PKCS1V15, SA_SIGNATURE_ALGORITHM_RSA_PSS, SA_SIGNATURE_ALGORITHM_ECDSA, SA_SIGNATURE_ALGORITHM_EDDSA});
            p->d = ALL_DIGESTS[src.below(4)];
            p->m = p->d;
            p->pre = p->alg != SA_SIGNATURE_ALGORITHM_EDDSA && src.chance(1, 4);
            p->salt = src.below(20);
            auto m = std::make_shared<Mat>();
            if (p->alg == SA_SIGNATURE_ALGORITHM_ECDSA) {
                do *m = mat_ec(src, ALL_CURVES[src.below(9)]);
                while (!is_pcurve(m->curve));
                o.len = 2 * m->size;
            } else if (p->alg == SA_SIGNATURE_ALGORITHM_EDDSA) {
                *m = mat_ec(src, src.coin() ? SA_ELLIPTIC_CURVE_ED448 : SA_ELLIPTIC_CURVE_ED25519);
                o.len = 2 * m->size;
            } else {
                *m = mat_rsa(src, src.weighted({5, 3, 1}) == 0 ? 128 : src.coin() ? 256 : 384);
                if (p->salt > m->size - md_len(p->d) - 2) p->salt = 0;
                o.len = m->size;
            }
            sa_key k = must_import(c, *m, rights_all());
            Bytes msg = src.bytes(p->pre ? md_len(p->d) : src.size(1, 100));
            o.name = std::string("sign ") + alg_str(p->alg);
            o.call = [=](void* out, size_t* n) { return do_sign(*caller, k, *p, msg, out, n); };
            o.check = [=](const Bytes& b) { REQUIRE(verify(m->pkey, *p, msg, b), "the signature does not verify"); };
            break;
        }
        case 4: {
            bool hmac = src.coin();
            auto d = ALL_DIGESTS[src.below(4)];
            Bytes kb = src.bytes(hmac ? 32 : src.coin() ? 16 : 32), msg = src.bytes(src.size(1, 100));
            sa_key k = c.must_import_sym(kb, rights_all());
            sa_crypto_mac_context x = INVALID_HANDLE;
            sa_mac_parameters_hmac hp = {d};
            REQUIRE(c.mac_init(&x, hmac ? SA_MAC_ALGORITHM_HMAC : SA_MAC_ALGORITHM_CMAC, k, hmac ? &hp : nullptr) == SA_STATUS_OK, "mac_init");
            Exact e(msg);
            REQUIRE(c.mac_process(x, e.p, e.n) == SA_STATUS_OK, "mac_process");
            Bytes want = hmac ? ref_hmac(d, kb, msg) : ref_cmac(kb, msg);
            o.name = hmac ? "mac_compute hmac" : "mac_compute cmac";
            o.len = want.size();
            o.once = true;
            o.call = [=](void* out, size_t* n) { return caller->mac_compute(out, n, x); };
            o.check = [=](const Bytes& b) { REQUIRE(b == want, "MAC"); };
            break;
        }
        default: {
            char full[300];
            size_t n = sizeof full;
            REQUIRE(c.get_name(full, &n) == SA_STATUS_OK, "get_name");
            Bytes want(full, full + n);
            REQUIRE(n > 1 && n < sizeof full, "name length %zu", n);
            o.name = "get_name";
            o.len = n;
            o.call = [=](void* out, size_t* m) { return caller->get_name((char*) out, m); };
            o.check = [=](const Bytes& b) { REQUIRE(b == want, "name"); };
            break;
        }
    }
    return o;
}
PROP(c21_outputs, "a query and a call with too short a buffer came before the successful one") {
    Caller c = who(src);
    Out o = gen_out(src, c);
    pbt::label("%s", o.name.c_str());
    g_short = g_query = 0;
    unsigned rounds = o.once ? 1 : src.range(1, 3);
    for (unsigned r = 0; r < rounds; r++) {
        for (unsigned i = src.range(1, 4); i > 0; i--) {
            if (src.coin()) query(o);
            else refuse(src, o);
        }
        produce(src, o);
        if (src.chance(1, 4) && !o.once) query(o);
    }
    if (g_short && g_query) pbt::nontrivial();
}

// Ciphers: queries and calls with unsuitable rooms or offsets anywhere in the stream.
static sa_status ask(const Caller& c, sa_crypto_cipher_context x, const Bytes& chunk, bool last, void* ep, size_t* q) {
    Exact e(chunk.empty() ? Bytes(1) : chunk);
    sa_buffer b = clear_buf(e.p, chunk.size());
    *q = chunk.size();
    sa_status s = last ? c.cipher_process_last(nullptr, x, &b, q, ep) : c.cipher_process(nullptr, x, &b, q);
    REQUIRE(b.context.clear.offset == 0, "a query moved the input offset");
    return s;
}
// A call that must be refused because one of the areas does not hold what the call needs.
static void misfit(Src& src, const Caller& c, sa_crypto_cipher_context x, const Bytes& chunk, size_t need, bool last, void* ep, bool svp) {
    bool bad_out = need > 0 && src.chance(2, 3);
    if (!bad_out && chunk.empty()) return;
    auto wild = [&](size_t n, size_t cap) -> size_t {   // an offset that leaves less than n bytes of cap
        switch (src.below(4)) {
            case 0: return cap - n + 1;
            case 1: return SIZE_MAX - src.below(n + 2);
            case 2: return cap + src.below(50);
            default: return cap - n + 1 + src.below(n);
        }
    };
    size_t icap = chunk.size() + src.below(20), ocap = need + src.below(20);
    bool by_room = src.coin();
    Exact ei(cat({chunk, Bytes(icap - chunk.size() + 1, 0x77)}));
    if (bad_out && by_room) ocap = short_len(src, need);
    if (!bad_out && by_room) icap = short_len(src, chunk.size());
    std::unique_ptr<SvpMem> so, si;
    Guarded g(ocap);
    sa_buffer ib, ob;
    if (svp) {
        so.reset(new SvpMem(c, ocap ? ocap : 1));
        if (ocap == 0) ocap = 1;
        if (need < 2 && bad_out && by_room) return;
        ob = svp_buf(so->h);
        si.reset(new SvpMem(c, icap ? icap : 1));
        memcpy(si->mem.data(), ei.p, std::min(icap, ei.n));
        ib = svp_buf(si->h);
        if (!bad_out && by_room && chunk.size() < 2) return;
        if (!by_room) (bad_out ? ob : ib).context.svp.offset = bad_out ? wild(need, ocap) : wild(chunk.size(), icap ? icap : 1);
    } else {
        ob = clear_buf(g.data(), ocap);
        ib = clear_buf(ei.p, icap);
        if (!by_room) (bad_out ? ob : ib).context.clear.offset = bad_out ? wild(need, ocap) : wild(chunk.size(), icap);
    }
    size_t o0 = svp ? ob.context.svp.offset : ob.context.clear.offset, i0 = svp ? ib.context.svp.offset : ib.context.clear.offset;
    size_t n = chunk.size();
    sa_status s = last ? c.cipher_process_last(&ob, x, &ib, &n, ep) : c.cipher_process(&ob, x, &ib, &n);
    pbt::trace("%s %zu bytes, in %zu+%zu, out %zu+%zu, needs %zu -> %s", last ? "last" : "process", chunk.size(), i0, icap, o0, ocap, need, sname(s));
    REQUIRE(s != SA_STATUS_OK, "a call whose %s area is too small was accepted", bad_out ? "output" : "input");
    REQUIRE((svp ? ob.context.svp.offset : ob.context.clear.offset) == o0 && (svp ? ib.context.svp.offset : ib.context.clear.offset) == i0,
            "a refused call moved an offset");
    Guarded& gg = svp ? so->mem : g;
    REQUIRE(gg.intact() && gg.untouched(0, gg.n), "a refused call wrote output");
    g_short++;
}
PROP(c21_stream, "a query and a call with too small an area came in the stream") {
    bool direct = src.coin();
    Caller c = direct ? Caller::open(TA_A) : Caller::ree();
    SymCfg s = gen_cfg(src, sym_algs(true)[src.below(8)]);
    sa_key k = c.must_import_sym(s.key, rights_all());
    sa_crypto_cipher_context x = INVALID_HANDLE;
    REQUIRE(stream_init(c, &x, s, k) == SA_STATUS_OK, "init");
    bool svp = !s.aead_alg() && src.chance(1, 3);
    g_short = g_query = 0;
    size_t len = src.size(0, 200);
    if (s.block() && !s.padded()) len -= len % 16;
    Bytes plain = src.bytes(len), tag, ct = ref_encrypt(s, plain, s.iv, &tag);
    const Bytes &in = s.enc() ? plain : ct, &want = s.enc() ? ct : plain;
    size_t last = 0;
    if (s.has_last()) last = s.padded() ? (s.enc() ? (in.size() % 16 ? in.size() % 16 : src.coin() && !in.empty() ? 16 : 0) : src.coin() ? 16 : 0)
                                        : src.below(std::min<size_t>(in.size(), 16) + 1);
    Bytes got;
    size_t pos = 0, body = in.size() - last;
    Io io;
    io.in_svp = io.out_svp = svp;
    unsigned calls = 0;
    auto around = [&](const Bytes& chunk, size_t need, bool lst, void* ep) {
        for (unsigned i = src.below(4); i > 0; i--) {
            if (src.coin()) {
                size_t q;
                sa_status st = ask(c, x, chunk, lst, ep, &q);
                pbt::trace("%s %zu query -> %s %zu", lst ? "last" : "process", chunk.size(), sname(st), q);
                // a padded encryption's query already counts the padding block that the last call adds
                size_t slack = s.padded() && s.enc() && !lst ? 16 : 0;
                REQUIRE(st == SA_STATUS_OK && q >= need && q <= need + slack, "%s query for %zu bytes: %s %zu, the call needs %zu", alg_name(s.alg),
                        chunk.size(), sname(st), q, need);
                g_query++;
            } else
                misfit(src, c, x, chunk, need, lst, ep, svp);
        }
    };
    while (pos < body) {
        size_t n = src.coin() ? body - pos : src.below(body - pos + 1);
        if (s.block()) n -= n % 16;
        if (n == 0 && calls > 30) n = body - pos;
        Bytes chunk = sub(in, pos, n);
        around(chunk, n, false, nullptr);
        CallResult cr = stream_call(src, c, x, chunk, n + (src.coin() ? 0 : src.below(20)), false, nullptr, io);
        REQUIRE(cr.status == SA_STATUS_OK, "process(%zu): %s", n, sname(cr.status));
        got.insert(got.end(), cr.out.begin(), cr.out.end());
        pos += n;
        calls++;
    }
    if (s.has_last()) {
        Bytes chunk = sub(in, pos, last);
        size_t need = s.padded() ? 16 * (last / 16 + 1) : last;
        size_t tl = s.gcm() ? src.range(12, 16) : 16;
        Guarded t(tl);
        if (!s.enc() && !tag.empty()) memcpy(t.data(), tag.data(), tl);
        sa_cipher_end_parameters_aes_gcm gp = {t.data(), tl};
        sa_cipher_end_parameters_chacha20_poly1305 pp = {t.data(), tl};
        void* ep = s.gcm() ? (void*) &gp : s.poly() ? (void*) &pp : nullptr;
        around(chunk, need, true, ep);
        if (s.aead_alg() && s.enc()) REQUIRE(t.intact() && t.untouched(0, tl), "a refused call wrote the tag");
        CallResult cr = stream_call(src, c, x, chunk, need + (src.coin() ? 0 : src.below(20)), true, ep, io);
        REQUIRE(cr.status == SA_STATUS_OK, "process_last(%zu): %s", last, sname(cr.status));
        REQUIRE(t.intact(), "bytes outside the tag were written");
        if (s.aead_alg()) REQUIRE(t.get(0, tl) == sub(tag, 0, tl), "tag");
        got.insert(got.end(), cr.out.begin(), cr.out.end());
    }
    REQUIRE(got == want, "%s %s after refused calls: got %s want %s", alg_name(s.alg), s.enc() ? "encrypt" : "decrypt", pbt::hex(got).c_str(), pbt::hex(want).c_str());
    pbt::label("%s/%s%s", alg_name(s.alg), s.enc() ? "enc" : "dec", svp ? "/svp" : "");
    if (g_short && g_query) pbt::nontrivial();
    REQUIRE(c.cipher_release(x) == SA_STATUS_OK, "release");
}
PROP(c21_asymmetric, "a query and a call with too small an area came before the successful one") {
    Caller c = who(src);
    auto alg = src.pick({SA_CIPHER_ALGORITHM_RSA_PKCS1V15, SA_CIPHER_ALGORITHM_RSA_OAEP, SA_CIPHER_ALGORITHM_EC_ELGAMAL});
    bool ec = alg == SA_CIPHER_ALGORITHM_EC_ELGAMAL;
    Bytes plain = src.bytes(src.range(ec ? 16 : 0, 20));
    Wrapped w = make_wrapped(src, alg, plain);
    sa_key k = must_import(c, w.key, rights_all());
    sa_crypto_cipher_context x = INVALID_HANDLE;
    sa_cipher_parameters_rsa_oaep p = {w.d, w.m, w.label.empty() ? nullptr : (void*) w.label.data(), w.label.size()};
    REQUIRE(c.cipher_init(&x, w.alg, SA_CIPHER_MODE_DECRYPT, k, alg == SA_CIPHER_ALGORITHM_RSA_OAEP ? &p : nullptr) == SA_STATUS_OK, "init");
    g_short = g_query = 0;
    size_t need = w.key.size;
    for (unsigned r = src.range(1, 2); r > 0; r--) {
        for (unsigned i = src.range(1, 4); i > 0; i--) {
            if (src.coin()) {
                size_t q;
                sa_status s = ask(c, x, w.ct, false, nullptr, &q);
                REQUIRE(s == SA_STATUS_OK && q == need, "query %s %zu, needs %zu", sname(s), q, need);
                g_query++;
            } else
                misfit(src, c, x, w.ct, need, false, nullptr, false);
        }
        size_t room = need + (src.coin() ? 0 : src.below(20)), pre = src.below(10), n = w.ct.size();
        Guarded g(pre + room);
        Exact e(w.ct);
        sa_buffer ib = clear_buf(e.p, e.n), ob = clear_buf(g.data(), pre + room, pre);
        sa_status s = c.cipher_process(&ob, x, &ib, &n);
        REQUIRE(s == SA_STATUS_OK, "decrypt: %s", sname(s));
        REQUIRE(g.intact() && g.untouched(0, pre), "bytes outside the output area were written");
        REQUIRE(ob.context.clear.offset == pre + n && ib.context.clear.offset == w.ct.size(), "offsets after the call");
        Bytes out = g.get(pre, n);
        REQUIRE(ec ? n == need && sub(out, w.offset, w.len) == plain : out == plain, "plaintext");
    }
    pbt::label("%s", alg_name(alg));
    if (g_short && g_query) pbt::nontrivial();
}
