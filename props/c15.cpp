// C15: content protected for secure video never reaches normal memory.
#include "wrap.hpp"
#include <cstring>
using namespace sec;

// All memory of a case: some clear areas and some SVP buffers, compared as a whole after every call.
struct Area {
    bool svp = false;
    std::unique_ptr<Guarded> mem;
    Bytes model;
    sa_svp_buffer h = INVALID_HANDLE;
};
struct World {
    const Caller& c;
    std::vector<Area> a;
    explicit World(const Caller& c_) : c(c_) {}
    size_t add(bool svp, const Bytes& content) {
        Area x;
        x.svp = svp;
        x.mem.reset(new Guarded(content.size()));
        x.model = content;
        memcpy(x.mem->data(), content.data(), content.size());
        if (svp) {
            sa_status s = c.svp_create(&x.h, x.mem->data(), content.size());
            REQUIRE(s == SA_STATUS_OK, "svp_create: %s", sname(s));
        }
        a.push_back(std::move(x));
        return a.size() - 1;
    }
    void put(size_t i, size_t off, const Bytes& b) {
        if (b.empty()) return;
        memcpy(a[i].mem->data() + off, b.data(), b.size());
        memcpy(&a[i].model[off], b.data(), b.size());
    }
    sa_buffer buf(size_t i, size_t off) { return a[i].svp ? svp_buf(a[i].h, off) : clear_buf(a[i].mem->data(), a[i].model.size(), off); }
    struct Win {
        size_t i, off, n;
    };
    // Nothing but the windows may have changed; the model then takes over the windows' contents.
    void check(const std::vector<Win>& w, const char* what) {
        for (size_t i = 0; i < a.size(); i++) {
            REQUIRE(a[i].mem->intact(), "%s wrote outside %s area %zu", what, a[i].svp ? "SVP" : "clear", i);
            Bytes now = a[i].mem->get(0, a[i].mem->n);
            for (auto& x : w)
                if (x.i == i) memcpy(&a[i].model[x.off], &now[x.off], x.n);
            if (now == a[i].model) continue;
            size_t k = 0;
            while (now[k] == a[i].model[k]) k++;
            pbt::fail("[changed] %s changed byte %zu of %s area %zu", what, k, a[i].svp ? "SVP" : "clear", i);
        }
    }
};
static const uint32_t ODD[] = {2, 3, 0x80, 0xff, 0x100, 0x80000000u, 0xffffffffu};
struct Key {
    sa_key h = INVALID_HANDLE;
    Mat mat;
    bool clear = false;
};
struct Ctx {
    sa_crypto_cipher_context h = INVALID_HANDLE;
    SymCfg s;
    size_t key = 0;
    bool asym = false;
    size_t need = 0;      // asymmetric: exact input length
    bool started = false;
};
static bool forbidden(const Ctx& x) { return x.asym || x.s.aead_alg(); }
static std::string place(const World& w, size_t i, bool odd) { return odd ? "odd" : w.a[i].svp ? "svp" : "clear"; }

PROP(c15_confine, "a call that had to be refused for its buffer types and an accepted one were made, one of them on SVP memory") {
    Caller c = src.coin() ? Caller::ree() : Caller::open(TA_A);
    g_video = video_output_state_t{};
    g_video.svp_enabled = true;
    World w(c);
    size_t cl = 1 + src.below(2), sv = 1 + src.below(2);
    for (size_t i = 0; i < cl + sv; i++) w.add(i >= cl, src.bytes(1100));
    std::vector<Key> keys(1 + src.below(2));
    auto make_key = [&](Key& k, int kind) {
        sa_rights r = rights_all();
        k.clear = src.coin();
        if (!k.clear) r.usage_flags &= ~bit(SA_USAGE_FLAG_SVP_OPTIONAL);
        k.mat = kind == 0 ? mat_sym(src, src.coin() ? 16 : 32) : kind == 1 ? mat_rsa(src, 128) : mat_ec(src, SA_ELLIPTIC_CURVE_NIST_P256);
        k.h = must_import(c, k.mat, r);
    };
    for (auto& k : keys) make_key(k, src.weighted({6, 1, 1}));
    std::vector<Ctx> ctxs;
    bool refused = false, accepted = false, svp_seen = false;
    unsigned n = 2 + (unsigned) src.below(9);
    for (unsigned step = 0; step < n; step++) {
        size_t ai = src.below(w.a.size()), ao = src.below(w.a.size());
        bool odd_i = src.chance(1, 14), odd_o = src.chance(1, 14);
        uint32_t oddv = ODD[src.below(7)];
        auto bufs = [&](sa_buffer& in, sa_buffer& out, size_t oi, size_t oo) {
            in = w.buf(ai, oi);
            out = w.buf(ao, oo);
            if (odd_i) in.buffer_type = (sa_buffer_type) oddv;
            if (odd_o) out.buffer_type = (sa_buffer_type) oddv;
        };
        bool in_svp = w.a[ai].svp, out_svp = w.a[ao].svp;
        auto types = [&](bool clear_ok, bool forbid) {   // the rule for every decrypting or encrypting call
            if (odd_i || odd_o) return false;
            if (forbid && (in_svp || out_svp)) return false;
            if (!out_svp && in_svp) return false;
            return out_svp || clear_ok;
        };
        int op = ctxs.empty() ? 0 : src.weighted({2, 6, 2, 3, 2});
        if (op == 0) {
            Ctx x;
            x.key = src.below(keys.size());
            Key& k = keys[x.key];
            sa_status s;
            if (k.mat.type == SA_KEY_TYPE_SYMMETRIC) {
                x.s = gen_cfg(src, sym_algs(true)[src.below(8)]);
                if (x.s.key.size() > k.mat.clear.size()) x.s = gen_cfg(src, SA_CIPHER_ALGORITHM_AES_CTR);
                if (src.chance(1, 3)) x.s.mode = SA_CIPHER_MODE_DECRYPT;
                s = stream_init(c, &x.h, x.s, k.h);
            } else if (k.mat.type == SA_KEY_TYPE_RSA) {
                x.asym = true;
                x.need = 128;
                x.s.alg = src.coin() ? SA_CIPHER_ALGORITHM_RSA_PKCS1V15 : SA_CIPHER_ALGORITHM_RSA_OAEP;
                sa_cipher_parameters_rsa_oaep p = {SA_DIGEST_ALGORITHM_SHA1, SA_DIGEST_ALGORITHM_SHA1, nullptr, 0};
                s = c.cipher_init(&x.h, x.s.alg, SA_CIPHER_MODE_DECRYPT, k.h, x.s.alg == SA_CIPHER_ALGORITHM_RSA_OAEP ? &p : nullptr);
            } else {
                x.asym = true;
                x.need = 128;
                x.s.alg = SA_CIPHER_ALGORITHM_EC_ELGAMAL;
                s = c.cipher_init(&x.h, x.s.alg, SA_CIPHER_MODE_DECRYPT, k.h, nullptr);
            }
            REQUIRE(s == SA_STATUS_OK, "init %s: %s", alg_name(x.s.alg), sname(s));
            ctxs.push_back(x);
            w.check({}, "init");
            continue;
        }
        size_t oi = src.below(300), oo = src.below(300);
        sa_buffer in, out;
        if (op == 1 || op == 2) {
            size_t xi = src.below(ctxs.size());
            Ctx& x = ctxs[xi];
            Key& k = keys[x.key];
            bool last = op == 2;
            size_t len = x.need;
            if (!x.asym) len = last ? (x.s.padded() && !x.s.enc() ? 16 : src.below(17)) : src.range(1, 8) * 16 - (x.s.block() || src.coin() ? 0 : src.below(16));
            bool right_data = true;   // the data itself can be processed
            if (x.asym) {
                right_data = src.chance(3, 4);
                Bytes e;
                if (!right_data) e = src.bytes(x.need);
                else if (k.mat.type == SA_KEY_TYPE_RSA)
                    e = rsa_encrypt(k.mat.pkey, x.s.alg == SA_CIPHER_ALGORITHM_RSA_OAEP, SA_DIGEST_ALGORITHM_SHA1, SA_DIGEST_ALGORITHM_SHA1, {}, src.bytes(20));
                else
                    while (!elgamal(k.mat.pkey, k.mat.curve, src.bytes(32), src, e)) {}
                w.put(ai, oi, e);
            } else if (last)
                right_data = x.s.has_last() && (x.s.enc() || !(x.s.padded() || x.s.aead_alg()));
            if (x.asym && last) right_data = false;
            if (ai == ao && !x.asym) oo = oi;   // in place
            if (ai == ao && x.asym) oo = oi + 400;
            bufs(in, out, oi, oo);
            size_t bp = len;
            Bytes tag(16, 0);
            sa_cipher_end_parameters_aes_gcm ge = {tag.data(), tag.size()};
            sa_cipher_end_parameters_chacha20_poly1305 pe = {tag.data(), tag.size()};
            void* ep = !last ? nullptr : x.s.gcm() && !x.asym ? (void*) &ge : x.s.poly() && !x.asym ? (void*) &pe : nullptr;
            bool may = types(k.clear, forbidden(x));
            sa_status s = last ? c.cipher_process_last(&out, x.h, &in, &bp, ep) : c.cipher_process(&out, x.h, &in, &bp);
            pbt::trace("%s %s%s %s %zu: %s -> %s, key %s: %s", last ? "process_last" : "process", alg_name(x.s.alg), x.asym ? "" : x.s.enc() ? " enc" : " dec", may ? "may" : "must not",
                    len, place(w, ai, odd_i).c_str(), place(w, ao, odd_o).c_str(), k.clear ? "clear" : "svp only", sname(s));
            if (s == SA_STATUS_OK) {
                REQUIRE(may, "%s %s from %s to %s with a key that %s clear output was accepted", alg_name(x.s.alg), last ? "process_last" : "process", place(w, ai, odd_i).c_str(),
                        place(w, ao, odd_o).c_str(), k.clear ? "allows" : "does not allow");
                REQUIRE(bp <= std::max<size_t>(len + 16, 128), "reported %zu bytes", bp);
                w.check({{ao, oo, bp}}, last ? "process_last" : "process");
                accepted = true;
                svp_seen |= out_svp;
                x.started = true;
            } else {
                if (may && right_data) pbt::fail("[allowed-refused] %s %s from %s to %s was refused: %s", alg_name(x.s.alg), last ? "process_last" : "process", place(w, ai, odd_i).c_str(),
                        place(w, ao, odd_o).c_str(), sname(s));
                if (may) w.check({{ao, oo, std::max<size_t>(len, 16)}}, "a failed call");   // bad data; what was produced so far may show
                else {
                    w.check({}, "a refused call");
                    refused = true;
                    svp_seen |= in_svp;
                    if (!odd_i && !odd_o && (in_svp == out_svp || forbidden(x))) REQUIRE(s == SA_STATUS_OPERATION_NOT_ALLOWED, "refused with %s", sname(s));
                }
            }
            pbt::label("%s/%s>%s/%s/%s", alg_name(x.s.alg), place(w, ai, odd_i).c_str(), place(w, ao, odd_o).c_str(), k.clear ? "clear" : "svponly", sname(s));
            if (last || s != SA_STATUS_OK) {
                c.cipher_release(x.h);
                ctxs.erase(ctxs.begin() + (long) xi);
            }
        } else if (op == 3) {   // common encryption, one or two samples
            size_t xi = src.below(ctxs.size());
            Ctx& x = ctxs[xi];
            Key& k = keys[x.key];
            bool alg_ok = !x.asym && x.s.mode == SA_CIPHER_MODE_DECRYPT && (x.s.alg == SA_CIPHER_ALGORITHM_AES_CTR || x.s.alg == SA_CIPHER_ALGORITHM_AES_CBC);
            size_t count = 1 + src.below(2);
            std::vector<sa_buffer> bi(count), bo(count);
            std::vector<sa_sample> smp(count);
            std::vector<sa_subsample_length> sl(count);
            Bytes iv = src.bytes(16);
            std::vector<World::Win> win, direct_win;
            bool all = true, any_svp = false;
            for (size_t j = 0; j < count; j++) {
                if (j) {
                    ai = src.below(w.a.size());
                    ao = src.below(w.a.size());
                    odd_i = odd_o = false;
                    in_svp = w.a[ai].svp;
                    out_svp = w.a[ao].svp;
                }
                size_t base = 300 * (j + (ai == ao));
                sl[j].bytes_of_clear_data = src.below(60);
                sl[j].bytes_of_protected_data = 16 * src.range(1, 8);
                size_t tot = sl[j].bytes_of_clear_data + sl[j].bytes_of_protected_data, o1 = src.below(60), o2 = base + src.below(60);
                bufs(bi[j], bo[j], o1, o2);
                if (ai == ao && o2 <= o1 + tot) all = false;   // overlapping (or touching) areas are not allowed
                smp[j] = {iv.data(), 16, src.coin() ? 0u : 1u, 0, 1, &sl[j], x.h, &bo[j], &bi[j]};
                if (smp[j].crypt_byte_block) smp[j].skip_byte_block = src.below(10);
                bool may = types(k.clear, false);
                any_svp |= in_svp || out_svp;
                if (!may) all = false;
                if (all) win.push_back({ao, o2, tot});
                pbt::trace("cenc %s %s -> %s %s", alg_name(x.s.alg), place(w, ai, odd_i).c_str(), place(w, ao, odd_o).c_str(), may ? "may" : "must not");
            }
            sa_status s = c.cenc(count, smp.data());
            bool may = all && alg_ok;
            REQUIRE((s == SA_STATUS_OK) == may, "[cenc] %s common encryption samples gave %s", may ? "allowed" : "forbidden", sname(s));
            if (may) w.check(win, "common encryption");
            else w.check(c.direct || !alg_ok ? std::vector<World::Win>{} : win, "refused common encryption");
            (may ? accepted : refused) = true;
            svp_seen |= any_svp;
            pbt::label("cenc/%s", may ? "ok" : "refused");
        } else {
            size_t ki = src.below(keys.size());
            Key& k = keys[ki];
            bufs(in, out, oi, oo);
            Bytes e = src.bytes(16);
            bool sym = k.mat.type == SA_KEY_TYPE_SYMMETRIC;
            if (sym && src.coin()) e = aes_ecb(k.mat.clear, sub(w.a[ai].model, oi, 16), false);
            bool match = sym && e == aes_ecb(k.mat.clear, sub(w.a[ai].model, oi, 16), false);
            Exact ex(e);
            bool may = sym && !odd_i && (in_svp ? c.direct : k.clear);
            sa_status s = c.svp_key_check(k.h, &in, 16, ex.p, 16);
            pbt::trace("key_check %s: %s", place(w, ai, odd_i).c_str(), sname(s));
            REQUIRE((s == SA_STATUS_OK) == (may && match), "[key-check] a %s key check from %s gave %s", may ? "permitted" : "forbidden", place(w, ai, odd_i).c_str(), sname(s));
            if (!may) REQUIRE(s != SA_STATUS_VERIFICATION_FAILED, "a forbidden key check from %s was carried out", place(w, ai, odd_i).c_str());
            w.check({}, "key check");
            pbt::label("key_check/%s/%s/%s", place(w, ai, odd_i).c_str(), k.clear ? "clear" : "svponly", sname(s));
        }
    }
    if (refused && accepted && svp_seen) pbt::nontrivial();
}
