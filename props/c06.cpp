// C06: handles are isolated; only live, owned handles of the right kind work.
#include "stream.hpp"
#include "ops.hpp"
using namespace sec;

struct KeyM {
    Bytes b;
};
struct CipherM {
    Bytes key, iv;
    size_t pos = 0;
    bool key_gone = false;
};
struct MacM {
    Bytes key, data;
    bool hmac, done = false;
};
struct SvpM {
    std::shared_ptr<Guarded> mem;
    Bytes content;
};
struct Sess {
    Caller c;
    std::map<uint64_t, KeyM> keys;
    std::map<uint64_t, CipherM> ciphers;
    std::map<uint64_t, MacM> macs;
    std::map<uint64_t, SvpM> svps;
};
static const size_t SLOTS = 256;
template <class M>
static uint64_t any_of(Src& src, M& m) {
    auto it = m.begin();
    std::advance(it, src.below(m.size()));
    return it->first;
}
// A handle value that is not live in map m: stale, off by one, live elsewhere, or arbitrary.
template <class M>
static bool dead_handle(Src& src, const M& m, const std::vector<uint64_t>& seen, uint64_t& out) {
    switch (src.below(6)) {
        case 0:
            if (seen.empty()) return false;
            out = seen[src.below(seen.size())];
            break;
        case 1: out = src.below(260); break;
        case 2: out = INVALID_HANDLE; break;
        case 3: out = src.pick<uint64_t>({255, 256, 257, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000ULL}); break;
        case 4: out = seen.empty() ? 7 : seen[src.below(seen.size())] + (1ULL << src.range(8, 63)); break;
        default: out = src.any(); break;
    }
    return m.find(out) == m.end();
}
struct World {
    Src& src;
    std::vector<Sess> ss;
    std::vector<uint64_t> seen;
    size_t rejected = 0, reused = 0, orphan = 0;
    explicit World(Src& s) : src(s) {}

    void use_key(Sess& s, uint64_t k) {
        Bytes d = key_digest(s.c, k);
        REQUIRE(d == ref_digest(SA_DIGEST_ALGORITHM_SHA256, s.keys[k].b), "key handle %llu gives another key", (unsigned long long) k);
    }
    void use_cipher(Sess& s, uint64_t x, size_t n) {
        CipherM& m = s.ciphers[x];
        Bytes in = src.bytes(n);
        Exact e(in);
        Guarded g(n);
        sa_buffer ib = clear_buf(e.p, n), ob = clear_buf(g.data(), n);
        size_t bp = n;
        sa_status st = s.c.cipher_process(&ob, x, &ib, &bp);
        REQUIRE(st == SA_STATUS_OK, "live cipher context %llu: %s", (unsigned long long) x, sname(st));
        Bytes all = aes_ctr(m.key, m.iv, cat({Bytes(m.pos), in}));
        REQUIRE(g.get(0, n) == sub(all, m.pos, n), "cipher context %llu is not where it was%s", (unsigned long long) x, m.key_gone ? " (its key was released)" : "");
        m.pos += n;
        if (m.key_gone) orphan++;
    }
    void use_mac(Sess& s, uint64_t x) {
        MacM& m = s.macs[x];
        if (m.done) {
            Bytes in(3);
            sa_status st = s.c.mac_process(x, in.data(), 3);
            REQUIRE(st == SA_STATUS_INVALID_PARAMETER, "mac process after compute: %s", sname(st));
            return;
        }
        Bytes in = src.bytes(src.size(1, 40));
        sa_status st = s.c.mac_process(x, in.data(), in.size());
        REQUIRE(st == SA_STATUS_OK, "live mac context: %s", sname(st));
        m.data.insert(m.data.end(), in.begin(), in.end());
    }
    void finish_mac(Sess& s, uint64_t x) {
        MacM& m = s.macs[x];
        if (m.done) return;
        Bytes out(64);
        size_t n = 64;
        sa_status st = s.c.mac_compute(out.data(), &n, x);
        REQUIRE(st == SA_STATUS_OK, "mac compute: %s", sname(st));
        out.resize(n);
        REQUIRE(out == (m.hmac ? ref_hmac(SA_DIGEST_ALGORITHM_SHA1, m.key, m.data) : ref_cmac(m.key, m.data)),
                "mac context %llu computed over something else", (unsigned long long) x);
        m.done = true;
    }
    void use_svp(Sess& s, uint64_t b) {
        SvpM& m = s.svps[b];
        REQUIRE(m.mem->get(0, m.content.size()) == m.content && m.mem->intact(), "contents of SVP buffer %llu changed", (unsigned long long) b);
        Bytes in = src.bytes(src.size(1, m.content.size()));
        size_t at = src.below(m.content.size() - in.size() + 1);
        sa_svp_offset o = {at, 0, in.size()};
        sa_status st = s.c.svp_write(b, in.data(), in.size(), &o, 1);
        REQUIRE(st == SA_STATUS_OK, "write to a live SVP buffer: %s", sname(st));
        memcpy(&m.content[at], in.data(), in.size());
        REQUIRE(m.mem->get(0, m.content.size()) == m.content && m.mem->intact(), "write to SVP buffer %llu", (unsigned long long) b);
    }
    template <class M>
    bool created(M& m, sa_status st, uint64_t h, const char* what) {
        if (m.size() >= SLOTS) {
            REQUIRE(st == SA_STATUS_NO_AVAILABLE_RESOURCE_SLOT, "creating a %s in a full store: %s", what, sname(st));
            return false;
        }
        REQUIRE(st == SA_STATUS_OK, "creating a %s with %zu live ones: %s", what, m.size(), sname(st));
        REQUIRE(m.find(h) == m.end(), "%s handle %llu is already in use", what, (unsigned long long) h);
        for (auto x : seen) reused += x == h;
        if (seen.size() < 400) seen.push_back(h);
        return true;
    }
    void mk_key(Sess& s) {
        Bytes b = src.bytes(src.coin() ? 16 : 32);
        sa_key k = INVALID_HANDLE;
        sa_rights r = rights_all();
        sa_import_parameters_symmetric p = {&r};
        sa_status st = s.c.key_import(&k, SA_KEY_FORMAT_SYMMETRIC_BYTES, b.data(), b.size(), &p);
        if (created(s.keys, st, k, "key")) s.keys[k] = KeyM{b};
    }
    void mk_cipher(Sess& s) {
        if (s.keys.empty()) return;
        uint64_t k = any_of(src, s.keys);
        CipherM m;
        m.key = s.keys[k].b;
        m.iv = src.bytes(16);
        sa_cipher_parameters_aes_ctr p = {m.iv.data(), 16};
        sa_crypto_cipher_context x = INVALID_HANDLE;
        sa_status st = s.c.cipher_init(&x, SA_CIPHER_ALGORITHM_AES_CTR, src.coin() ? SA_CIPHER_MODE_ENCRYPT : SA_CIPHER_MODE_DECRYPT, k, &p);
        if (created(s.ciphers, st, x, "cipher context")) s.ciphers[x] = m;
    }
    void mk_mac(Sess& s) {
        if (s.keys.empty()) return;
        uint64_t k = any_of(src, s.keys);
        MacM m;
        m.key = s.keys[k].b;
        m.hmac = src.coin();
        sa_mac_parameters_hmac p = {SA_DIGEST_ALGORITHM_SHA1};
        sa_crypto_mac_context x = INVALID_HANDLE;
        sa_status st = s.c.mac_init(&x, m.hmac ? SA_MAC_ALGORITHM_HMAC : SA_MAC_ALGORITHM_CMAC, k, m.hmac ? &p : nullptr);
        if (created(s.macs, st, x, "mac context")) s.macs[x] = m;
    }
    void mk_svp(Sess& s) {
        SvpM m;
        size_t n = src.size(1, 64);
        m.mem = std::make_shared<Guarded>(n);
        m.content = Bytes(n, 0xa5);
        sa_svp_buffer b = INVALID_HANDLE;
        sa_status st = s.c.svp_create(&b, m.mem->data(), n);
        if (created(s.svps, st, b, "SVP buffer")) s.svps[b] = m;
    }
    // Every kind of call on a handle that must not work there.
    void bad(Sess& s, const Caller& c) {
        uint64_t h = 0;
        uint8_t buf[64] = {0};
        size_t n = 16;
        int what = (int) src.below(22);
        sa_status st = SA_STATUS_OK;
        sa_rights r = rights_all();
        sa_key nk = 0xdead;
        bool foreign = &c != &s.c;     // wrong identity for the session: any handle must fail, live ones included
        auto dead = [&](auto& m) {
            if (foreign && !m.empty() && src.coin()) {
                h = any_of(src, m);
                return true;
            }
            return dead_handle(src, m, seen, h) || foreign;
        };
        const char* name = "";
        sa_buffer ib = clear_buf(buf, 16), ob = clear_buf(buf + 32, 16);
        switch (what) {
#define BAD(CASE, MAP, NAME, CALL) \
    case CASE:                     \
        if (!dead(s.MAP)) return;  \
        name = NAME;               \
        st = CALL;                 \
        break;
            BAD(0, keys, "key_release", c.key_release(h))
            BAD(1, keys, "key_digest", c.key_digest(buf, &(n = 32), h, SA_DIGEST_ALGORITHM_SHA256))
            case 2: {
                if (!dead(s.keys)) return;
                sa_header hd;
                name = "key_header";
                st = c.key_header(&hd, h);
                break;
            }
            BAD(3, keys, "key_export", c.key_export(nullptr, &n, nullptr, 0, h))
            BAD(4, keys, "get_public", c.key_get_public(nullptr, &n, h))
            case 5: {
                if (!dead(s.keys)) return;
                sa_kdf_parameters_hkdf p = {16, SA_DIGEST_ALGORITHM_SHA256, h, buf, 4, buf, 4};
                name = "derive";
                st = c.key_derive(&nk, &r, SA_KDF_ALGORITHM_HKDF, &p);
                break;
            }
            BAD(6, keys, "unwrap", c.key_unwrap(&nk, &r, SA_KEY_TYPE_SYMMETRIC, nullptr, SA_CIPHER_ALGORITHM_AES_ECB, nullptr, h, buf, 16))
            case 7: {
                if (!dead(s.keys)) return;
                sa_crypto_cipher_context x = 0xdead;
                name = "cipher_init";
                st = c.cipher_init(&x, SA_CIPHER_ALGORITHM_AES_ECB, SA_CIPHER_MODE_ENCRYPT, h, nullptr);
                REQUIRE(st != SA_STATUS_OK, "%s on a dead key handle", name);
                break;
            }
            case 8: {
                if (!dead(s.keys)) return;
                sa_crypto_mac_context x = 0xdead;
                name = "mac_init";
                st = c.mac_init(&x, SA_MAC_ALGORITHM_CMAC, h, nullptr);
                break;
            }
            case 9: {
                if (!dead(s.keys)) return;
                sa_sign_parameters_ecdsa sp = {SA_DIGEST_ALGORITHM_SHA256, false};
                name = "sign";
                st = c.sign(buf, &(n = 64), SA_SIGNATURE_ALGORITHM_ECDSA, h, buf, 4, &sp);
                break;
            }
            case 10: {
                if (!dead(s.keys)) return;
                Bytes pub = peer(SA_ELLIPTIC_CURVE_NIST_P256).pub();
                name = "exchange";
                st = c.key_exchange(&nk, &r, SA_KEY_EXCHANGE_ALGORITHM_ECDH, h, pub.data(), pub.size(), nullptr);
                break;
            }
            BAD(11, keys, "svp_key_check", c.svp_key_check(h, &ib, 16, buf, 16))
            BAD(12, ciphers, "cipher_release", c.cipher_release(h))
            BAD(13, ciphers, "cipher_process", c.cipher_process(&ob, h, &ib, &n))
            BAD(14, ciphers, "cipher_process_last", c.cipher_process_last(&ob, h, &ib, &n, nullptr))
            BAD(15, ciphers, "update_iv", c.cipher_update_iv(h, buf, 16))
            BAD(16, macs, "mac_release", c.mac_release(h))
            BAD(17, macs, "mac_process", c.mac_process(h, buf, 4))
            BAD(18, macs, "mac_compute", c.mac_compute(buf, &(n = 64), h))
            case 19: {
                if (!dead(s.svps)) return;
                void* m = nullptr;
                name = "svp_release";
                st = c.svp_release(&m, &n, h);
                break;
            }
            case 20: {
                if (!dead(s.svps)) return;
                sa_svp_offset o = {0, 0, 1};
                name = "svp_write";
                st = c.svp_write(h, buf, 4, &o, 1);
                break;
            }
            default: {
                sa_svp_offset o = {0, 0, 1};
                name = "svp_copy";
                if (!dead(s.svps)) return;
                uint64_t live = s.svps.empty() ? h : any_of(src, s.svps);
                st = src.coin() ? c.svp_copy(h, live, &o, 1) : c.svp_copy(live, h, &o, 1);
                break;
            }
        }
        rejected++;
        pbt::trace("%s on handle %llu -> %s", name, (unsigned long long) h, sname(st));
        pbt::label("bad/%s%s", name, foreign ? "/foreign" : "");
        REQUIRE(st != SA_STATUS_OK, "%s worked on handle %llu, which is not live%s", name, (unsigned long long) h, foreign ? " for this caller" : "");
        REQUIRE(nk == 0xdead || nk == INVALID_HANDLE, "%s failed but gave a handle", name);
    }
    void check_all(Sess& s) {
        for (auto& k : s.keys) use_key(s, k.first);
        std::vector<uint64_t> v;
        for (auto& x : s.ciphers) use_cipher(s, x.first, 5);
        for (auto& x : s.macs) use_mac(s, x.first);
        for (auto& x : s.svps) use_svp(s, x.first);
    }
};

PROP(c06_histories, "at least two objects were released and a dead or foreign handle was tried", 60, 40) {
    World w(src);
    w.ss.push_back(Sess{Caller::ree()});
    for (unsigned i = src.below(4); i; i--) w.ss.push_back(Sess{Caller::open(src.coin() ? TA_A : src.coin() ? TA_B : REE)});
    unsigned steps = src.weighted({3, 2}) == 0 ? src.range(5, 30) : src.range(20, 120);
    unsigned releases = 0;
    for (unsigned i = 0; i < steps; i++) {
        size_t si = src.below(w.ss.size());
        Sess& s = w.ss[si];
        switch (src.weighted({8, 6, 4, 4, 5, 4, 3, 4, 10, 4, 2, 1, 1, 1, 1})) {
            case 0: w.mk_key(s); break;
            case 1: w.mk_cipher(s); break;
            case 2: w.mk_mac(s); break;
            case 3: w.mk_svp(s); break;
            case 4:
                if (!s.keys.empty()) {
                    uint64_t k = any_of(src, s.keys);
                    Bytes b = s.keys[k].b;
                    sa_status st = s.c.key_release(k);
                    pbt::trace("session %zu release key %llu", si, (unsigned long long) k);
                    REQUIRE(st == SA_STATUS_OK, "release of a live key: %s", sname(st));
                    s.keys.erase(k);
                    for (auto& x : s.ciphers)
                        if (x.second.key == b) x.second.key_gone = true;
                    releases++;
                }
                break;
            case 5:
                if (!s.ciphers.empty()) {
                    uint64_t x = any_of(src, s.ciphers);
                    pbt::trace("session %zu release cipher %llu", si, (unsigned long long) x);
                    REQUIRE(s.c.cipher_release(x) == SA_STATUS_OK, "release of a live cipher context");
                    s.ciphers.erase(x);
                    releases++;
                }
                break;
            case 6:
                if (!s.macs.empty()) {
                    uint64_t x = any_of(src, s.macs);
                    if (src.coin()) w.finish_mac(s, x);
                    pbt::trace("session %zu release mac %llu", si, (unsigned long long) x);
                    REQUIRE(s.c.mac_release(x) == SA_STATUS_OK, "release of a live mac context");
                    s.macs.erase(x);
                    releases++;
                }
                break;
            case 7:
                if (!s.svps.empty()) {
                    uint64_t b = any_of(src, s.svps);
                    void* m = nullptr;
                    size_t n = 0;
                    pbt::trace("session %zu release svp %llu", si, (unsigned long long) b);
                    sa_status st = s.c.svp_release(&m, &n, b);
                    REQUIRE(st == SA_STATUS_OK, "release of a live SVP buffer: %s", sname(st));
                    REQUIRE(m == s.svps[b].mem->data() && n == s.svps[b].content.size(), "svp_release returned another memory area");
                    s.svps.erase(b);
                    releases++;
                }
                break;
            case 8: w.bad(s, s.c); break;
            case 9:
                if (!s.ciphers.empty()) w.use_cipher(s, any_of(src, s.ciphers), src.size(1, 50));
                if (!s.keys.empty()) w.use_key(s, any_of(src, s.keys));
                break;
            case 10:
                if (!s.macs.empty()) w.use_mac(s, any_of(src, s.macs));
                if (!s.svps.empty()) w.use_svp(s, any_of(src, s.svps));
                break;
            case 11: {   // the session of another TA
                if (!s.c.direct) break;
                Caller f = s.c;
                do {
                    if (src.coin()) f.uuid = src.coin() ? TA_A : TA_B;
                    else {
                        f.uuid = s.c.uuid;
                        f.uuid.id[src.below(16)] ^= (uint8_t) (1u << src.below(8));
                    }
                } while (!memcmp(&f.uuid, &s.c.uuid, 16));
                w.bad(s, f);
                break;
            }
            case 12:   // fill a store
                switch (src.below(4)) {
                    case 0: for (int k = 0; k < 260; k++) w.mk_key(s); break;
                    case 1: if (!s.keys.empty()) for (int k = 0; k < 260; k++) w.mk_cipher(s); break;
                    case 2: if (!s.keys.empty()) for (int k = 0; k < 260; k++) w.mk_mac(s); break;
                    default: for (int k = 0; k < 260; k++) w.mk_svp(s); break;
                }
                pbt::label("filled");
                break;
            case 13: w.check_all(s); break;
            default:   // a session ends; everything in it is gone, the others are unaffected
                if (s.c.direct) {
                    for (auto& b : s.svps) {
                        void* m = nullptr;
                        size_t n = 0;
                        s.c.svp_release(&m, &n, b.first);
                    }
                    pbt::trace("session %zu closes", si);
                    s.c.close();
                    Caller gone = s.c;
                    sa_header h;
                    if (!s.keys.empty())
                        REQUIRE(gone.key_header(&h, s.keys.begin()->first) != SA_STATUS_OK, "a key of a closed session can be read");
                    w.ss.erase(w.ss.begin() + si);
                    releases++;
                    pbt::label("closed");
                } else if (w.ss.size() < 5)
                    w.ss.push_back(Sess{Caller::open(src.coin() ? TA_A : TA_B)});
                break;
        }
    }
    for (auto& s : w.ss) {
        w.check_all(s);
        for (auto& x : s.macs) w.finish_mac(s, x.first);
    }
    if (releases >= 2 && w.rejected) pbt::nontrivial();
    if (w.reused) pbt::label("slot reused");
    if (w.orphan) pbt::label("context used after its key was released");
}
