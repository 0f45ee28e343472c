// C09: MACs equal the standard MAC over exactly the data and keys fed in.
#include "sec.hpp"
#include <cstring>
using namespace sec;

PROP(c09_mac, "at least two pieces of data or keys were fed in") {
    Caller c = src.coin() ? Caller::open(TA_A) : Caller::ree();
    bool hmac = src.chance(2, 3);
    sa_digest_algorithm d = src.pick({SA_DIGEST_ALGORITHM_SHA1, SA_DIGEST_ALGORITHM_SHA256, SA_DIGEST_ALGORITHM_SHA384, SA_DIGEST_ALGORITHM_SHA512});
    Bytes key = src.bytes(hmac ? src.size(16, 512) : src.coin() ? 32 : 16);
    sa_rights r = rights_all();
    if (src.coin()) r.usage_flags = bit(SA_USAGE_FLAG_SIGN) | 0x1fc0;
    sa_key k = c.must_import_sym(key, r);
    sa_crypto_mac_context m = INVALID_HANDLE;
    sa_mac_parameters_hmac hp = {d};
    sa_status st = c.mac_init(&m, hmac ? SA_MAC_ALGORITHM_HMAC : SA_MAC_ALGORITHM_CMAC, k, hmac ? &hp : nullptr);
    REQUIRE(st == SA_STATUS_OK, "mac_init: %s", sname(st));
    if (src.chance(1, 4)) REQUIRE(c.key_release(k) == SA_STATUS_OK, "release");
    size_t want_len = hmac ? md_len(d) : 16;
    pbt::label(hmac ? "HMAC-%zu" : "CMAC", want_len);
    // a second context whose data must not mix in
    bool second = src.chance(1, 3);
    sa_crypto_mac_context m2 = INVALID_HANDLE;
    Bytes all, all2, key2;
    if (second) {
        key2 = src.bytes(16);
        sa_key k2 = c.must_import_sym(key2, rights_all());
        REQUIRE(c.mac_init(&m2, SA_MAC_ALGORITHM_CMAC, k2, nullptr) == SA_STATUS_OK, "init");
    }
    unsigned pieces = 0, steps = src.range(0, 12);
    auto query = [&](sa_crypto_mac_context h, size_t expect) {
        size_t q = src.size(0, 100);
        REQUIRE(c.mac_compute(nullptr, &q, h) == SA_STATUS_OK && q == expect, "length query gave %zu", q);
    };
    for (unsigned i = 0; i < steps; i++) {
        switch (src.weighted({6, 3, 1, 1, 1, 1, 2})) {
            case 0: {
                size_t big = src.chance(1, 10) ? 5000 : 140;
                Bytes b = src.bytes(src.chance(1, 60) ? src.large() : src.size(0, big));
                Exact e(b);
                st = c.mac_process(m, e.p, b.size());
                REQUIRE(st == SA_STATUS_OK, "process(%zu): %s", b.size(), sname(st));
                all.insert(all.end(), b.begin(), b.end());
                pieces++;
                pbt::trace("data %zu", b.size());
                break;
            }
            case 1: {
                Bytes b = src.bytes(src.size(16, src.chance(1, 5) ? 512 : 64));
                sa_rights dr = rights_all();
                if (src.coin()) dr.usage_flags = (src.any() & 0x3fff) | 0x1fc0;
                sa_key dk = c.must_import_sym(b, dr);
                st = c.mac_process_key(m, dk);
                REQUIRE(st == SA_STATUS_OK, "process_key(%zu): %s", b.size(), sname(st));
                all.insert(all.end(), b.begin(), b.end());
                if (src.coin()) REQUIRE(c.key_release(dk) == SA_STATUS_OK, "release");
                pieces++;
                pbt::trace("key %zu", b.size());
                break;
            }
            case 2: query(m, want_len); break;
            case 3: {   // refused: buffer too short
                size_t n = src.below(want_len);
                Guarded g(n);
                size_t len = n;
                st = c.mac_compute(g.data(), &len, m);
                REQUIRE(st == SA_STATUS_INVALID_PARAMETER, "compute into %zu bytes: %s", n, sname(st));
                REQUIRE(g.intact() && g.untouched(0, n), "a refused compute wrote");
                break;
            }
            case 4: {   // refused: a key that is not symmetric
                Mat e = mat_ec(src, SA_ELLIPTIC_CURVE_NIST_P256);
                sa_key ek = must_import(c, e, rights_all());
                st = c.mac_process_key(m, ek);
                REQUIRE(st == SA_STATUS_INVALID_PARAMETER || st == SA_STATUS_INVALID_KEY_TYPE, "process_key with an EC key: %s", sname(st));
                break;
            }
            case 5: {   // refused: bad handles and null data
                if (src.coin()) st = c.mac_process(m, nullptr, 16);
                else st = src.coin() ? c.mac_process_key(m, INVALID_HANDLE) : c.mac_process_key(m, (sa_key) src.range(200, 300));
                REQUIRE(st != SA_STATUS_OK, "unsuitable call succeeded");
                break;
            }
            case 6:
                if (second) {
                    Bytes b = src.bytes(src.size(0, 60));
                    Exact e(b);
                    REQUIRE(c.mac_process(m2, e.p, b.size()) == SA_STATUS_OK, "process");
                    all2.insert(all2.end(), b.begin(), b.end());
                }
                break;
        }
    }
    if (pieces >= 2) pbt::nontrivial();
    size_t room = want_len + (src.chance(1, 3) ? src.size(1, 40) : 0), len = room;
    Guarded g(room);
    st = c.mac_compute(g.data(), &len, m);
    REQUIRE(st == SA_STATUS_OK && len == want_len, "compute: %s, length %zu", sname(st), len);
    REQUIRE(g.intact() && g.untouched(want_len, room), "bytes outside the MAC were written");
    Bytes want = hmac ? ref_hmac(d, key, all) : ref_cmac(key, all);
    REQUIRE(g.get(0, want_len) == want, "MAC over %zu bytes in %u pieces: %s, expected %s", all.size(), pieces,
            pbt::hex(g.get(0, want_len)).c_str(), pbt::hex(want).c_str());
    // nothing more from this context
    for (int i = 0; i < 2; i++) {
        uint8_t b[64], o[64];
        memset(b, 1, sizeof b);
        size_t ol = sizeof o;
        sa_key dk;
        switch (src.below(3)) {
            case 0: st = c.mac_process(m, b, src.size(0, 64)); break;
            case 1:
                dk = c.must_import_sym(Bytes(16, 7), rights_all());
                st = c.mac_process_key(m, dk);
                break;
            default: st = c.mac_compute(o, &ol, m); break;
        }
        REQUIRE(st == SA_STATUS_INVALID_PARAMETER, "a computed context accepted another call: %s", sname(st));
    }
    if (second) {
        size_t l2 = 16;
        uint8_t o2[16];
        REQUIRE(c.mac_compute(o2, &l2, m2) == SA_STATUS_OK && l2 == 16, "compute");
        REQUIRE(Bytes(o2, o2 + 16) == ref_cmac(key2, all2), "the second context's MAC");
    }
}

PROP(c09_init, "an unsuitable algorithm, key size, key type or parameter was offered") {
    Caller c = src.coin() ? Caller::open(TA_A) : Caller::ree();
    sa_crypto_mac_context m = INVALID_HANDLE;
    sa_status st;
    switch (src.below(4)) {
        case 0: {
            size_t n = src.size(16, 512);
            sa_key k = c.must_import_sym(src.bytes(n), rights_all());
            st = c.mac_init(&m, SA_MAC_ALGORITHM_CMAC, k, nullptr);
            bool ok = n == 16 || n == 32;
            REQUIRE((st == SA_STATUS_OK) == ok, "CMAC with a %zu byte key: %s", n, sname(st));
            if (!ok) pbt::nontrivial();
            pbt::label("cmac key size");
            break;
        }
        case 1: {
            sa_key k = must_import(c, src.coin() ? mat_ec(src, SA_ELLIPTIC_CURVE_NIST_P384) : mat_rsa(src, 128), rights_all());
            sa_mac_parameters_hmac hp = {SA_DIGEST_ALGORITHM_SHA256};
            st = src.coin() ? c.mac_init(&m, SA_MAC_ALGORITHM_HMAC, k, &hp) : c.mac_init(&m, SA_MAC_ALGORITHM_CMAC, k, nullptr);
            REQUIRE(st != SA_STATUS_OK, "MAC with an asymmetric key");
            pbt::nontrivial();
            pbt::label("asymmetric key");
            break;
        }
        case 2: {
            sa_key k = c.must_import_sym(src.bytes(32), rights_all());
            sa_mac_parameters_hmac hp = {(sa_digest_algorithm) src.range(4, 300)};
            st = c.mac_init(&m, SA_MAC_ALGORITHM_HMAC, k, src.coin() ? &hp : nullptr);
            REQUIRE(st != SA_STATUS_OK, "HMAC with digest %d", hp.digest_algorithm);
            pbt::nontrivial();
            pbt::label("digest");
            break;
        }
        default: {
            sa_key k = c.must_import_sym(src.bytes(32), rights_all());
            sa_mac_parameters_hmac hp = {SA_DIGEST_ALGORITHM_SHA256};
            st = c.mac_init(&m, (sa_mac_algorithm) src.range(2, 300), k, &hp);
            REQUIRE(st != SA_STATUS_OK, "unknown MAC algorithm accepted");
            pbt::nontrivial();
            pbt::label("algorithm");
        }
    }
}
