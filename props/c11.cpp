// C11: derived keys are exactly the standard ones, and requests the algorithm cannot serve give no key.
#include "container.hpp"
#include "ops.hpp"
using namespace sec;

enum Kind { HKDF, CONCAT, X963, CMACK, NETFLIX, ROOT, COMMON, KINDS };
static const char* const KN[] = {"hkdf", "concat", "x963", "cmac", "netflix", "root ladder", "common ladder"};
struct Req {
    Kind k;
    sa_digest_algorithm d = SA_DIGEST_ALGORITHM_SHA1;
    Bytes parent, parent2, a, b;     // salt/info, info, other data; ladder inputs c1..c4 in c
    Bytes c[4];
    size_t len = 16;
    uint8_t counter = 1;
    std::string show() const {
        char t[400];
        snprintf(t, sizeof t, "%s digest %d parent %zu/%zu bytes a %zu b %zu counter %d length %zu", KN[k], (int) d, parent.size(), parent2.size(),
                a.size(), b.size(), counter, len);
        return t;
    }
};
static Req gen(Src& src) {
    Req r;
    r.k = (Kind) src.weighted({4, 3, 3, 4, 3, 2, 2});
    r.d = ALL_DIGESTS[src.below(4)];
    size_t hl = md_len(r.d);
    switch (r.k) {
        case CMACK: r.parent = src.bytes(src.coin() ? 16 : 32); break;
        case NETFLIX:
            r.parent = src.bytes(16);
            r.parent2 = src.bytes(32);
            break;
        case ROOT:
        case COMMON: break;
        default: r.parent = src.bytes(src.coin() ? src.pick({16, 32, 20, 48, 64, 65, 128, 129}) : src.size(16, 512));
    }
    auto opt = [&] { return src.bytes(src.weighted({2, 5, 1}) == 0 ? 0 : src.chance(1, 50) ? src.large() : src.chance(1, 8) ? src.size(1, 700) : src.size(1, 130)); };
    r.a = opt();
    r.b = opt();
    for (auto& c : r.c) c = src.bytes(16);
    if (r.k == CMACK) {
        r.counter = (uint8_t) src.range(1, 4);
        r.len = 16 * src.range(1, 5 - r.counter);
    } else if (r.k <= X963) {
        switch (src.below(4)) {
            case 0: r.len = src.pick({16, 32, 24, 64}); break;
            case 1: r.len = hl * src.range(1, 512 / hl); break;
            case 2: {
                size_t m = hl * src.range(1, 512 / hl);
                r.len = src.coin() ? m + 1 : m - 1;
                break;
            }
            default: r.len = src.size(16, 512);
        }
        r.len = std::max<size_t>(16, std::min<size_t>(512, r.len));
    }
    return r;
}
static Bytes expect(const Req& r) {
    switch (r.k) {
        case HKDF: return ref_hkdf(r.d, r.parent, r.a, r.b, r.len);
        case CONCAT: return ref_concat(r.d, r.parent, r.a, r.len);
        case X963: return ref_x963(r.d, r.parent, r.a, r.len);
        case CMACK: return ref_cmac_kdf(r.parent, r.a, r.counter, r.len);
        case NETFLIX: {
            static const Bytes salt = {0x02, 0x76, 0x17, 0x98, 0x4f, 0x62, 0x27, 0x53, 0x9a, 0x63, 0x0b, 0x89, 0x7c, 0x01, 0x7d, 0x69};
            static const Bytes info = {0x80, 0x9f, 0x82, 0xa7, 0xad, 0xdf, 0x54, 0x8d, 0x3e, 0xa9, 0xdd, 0x06, 0x7f, 0xf9, 0xbb, 0x91};
            Bytes t = ref_hmac(SA_DIGEST_ALGORITHM_SHA256, salt, cat({r.parent, r.parent2}));
            return sub(ref_hmac(SA_DIGEST_ALGORITHM_SHA256, t, info), 0, 16);
        }
        default: return aes_ecb(ladder(r.k == COMMON, r.c[0], r.c[1], r.c[2]), r.c[3], false);
    }
}
struct Handles {
    sa_key p = INVALID_HANDLE, p2 = INVALID_HANDLE;
};
static Handles import_parents(const Caller& c, const Req& r) {
    Handles h;
    if (!r.parent.empty()) h.p = c.must_import_sym(r.parent, rights_all());
    if (!r.parent2.empty()) h.p2 = c.must_import_sym(r.parent2, rights_all());
    return h;
}
static sa_status derive(const Caller& c, const Req& r, const Handles& h, const sa_rights& rights, sa_key* out, const size_t* ladder_len = nullptr) {
    Exact a(r.a), b(r.b), c0(r.c[0]), c1(r.c[1]), c2(r.c[2]), c3(r.c[3]);
    switch (r.k) {
        case HKDF: {
            sa_kdf_parameters_hkdf p = {r.len, r.d, h.p, r.a.empty() ? nullptr : a.p, r.a.size(), r.b.empty() ? nullptr : b.p, r.b.size()};
            return c.key_derive(out, &rights, SA_KDF_ALGORITHM_HKDF, &p);
        }
        case CONCAT: {
            sa_kdf_parameters_concat p = {r.len, r.d, h.p, r.a.empty() ? nullptr : a.p, r.a.size()};
            return c.key_derive(out, &rights, SA_KDF_ALGORITHM_CONCAT, &p);
        }
        case X963: {
            sa_kdf_parameters_ansi_x963 p = {r.len, r.d, h.p, r.a.empty() ? nullptr : a.p, r.a.size()};
            return c.key_derive(out, &rights, SA_KDF_ALGORITHM_ANSI_X963, &p);
        }
        case CMACK: {
            sa_kdf_parameters_cmac p = {r.len, h.p, r.a.empty() ? nullptr : a.p, r.a.size(), r.counter};
            return c.key_derive(out, &rights, SA_KDF_ALGORITHM_CMAC, &p);
        }
        case NETFLIX: {
            sa_kdf_parameters_netflix p = {h.p, h.p2};
            return c.key_derive(out, &rights, SA_KDF_ALGORITHM_NETFLIX, &p);
        }
        default: {
            size_t l[4];
            for (int i = 0; i < 4; i++) l[i] = ladder_len ? ladder_len[i] : r.c[i].size();
            sa_kdf_parameters_root_key_ladder p = {c0.p, l[0], c1.p, l[1], c2.p, l[2], c3.p, l[3]};
            return c.key_derive(out, &rights, r.k == ROOT ? SA_KDF_ALGORITHM_ROOT_KEY_LADDER : SA_KDF_ALGORITHM_COMMON_ROOT_KEY_LADDER, &p);
        }
    }
}
static void check_key(const Caller& c, sa_key k, const Bytes& want, const Req& r) {
    sa_header h;
    REQUIRE(c.key_header(&h, k) == SA_STATUS_OK, "header");
    REQUIRE(h.type == SA_KEY_TYPE_SYMMETRIC, "%s: key type %d", KN[r.k], (int) h.type);
    REQUIRE(h.size == want.size(), "%s: key of %zu bytes, expected %zu", KN[r.k], (size_t) h.size, want.size());
    for (auto d : {SA_DIGEST_ALGORITHM_SHA256, SA_DIGEST_ALGORITHM_SHA512})
        REQUIRE(key_digest(c, k, d) == ref_digest(d, want), "%s: not the standard key", r.show().c_str());
}

PROP(c11_standard, "a key was derived and compared with the reference") {
    Caller c = src.coin() ? Caller::ree() : Caller::open(TA_A);
    Req r = gen(src);
    pbt::trace("%s", r.show().c_str());
    Handles h = import_parents(c, r);
    sa_key k = INVALID_HANDLE;
    sa_rights rights = rights_all();
    sa_status s = derive(c, r, h, rights, &k);
    REQUIRE(s == SA_STATUS_OK, "%s: %s", r.show().c_str(), sname(s));
    Bytes want = expect(r);
    check_key(c, k, want, r);
    pbt::nontrivial();
    pbt::label("%s/%s", KN[r.k], r.k <= X963 ? (r.len > 2 * md_len(r.d) ? "many blocks" : r.len > md_len(r.d) ? "two blocks" : "one block") : "");
    // the key works: a MAC with it is the MAC of the standard key
    if (src.chance(1, 3)) {
        sa_crypto_mac_context m = INVALID_HANDLE;
        sa_mac_parameters_hmac hp = {SA_DIGEST_ALGORITHM_SHA1};
        REQUIRE(c.mac_init(&m, SA_MAC_ALGORITHM_HMAC, k, &hp) == SA_STATUS_OK, "hmac with the derived key");
        Bytes out(20), msg = src.bytes(src.size(1, 40));
        size_t n = 20;
        REQUIRE(c.mac_process(m, msg.data(), msg.size()) == SA_STATUS_OK && c.mac_compute(out.data(), &n, m) == SA_STATUS_OK, "hmac");
        REQUIRE(out == ref_hmac(SA_DIGEST_ALGORITHM_SHA1, want, msg), "MAC with the derived key");
        c.mac_release(m);
    }
    // the same inputs give the same key, whatever was derived in between
    if (src.coin()) {
        Req o = src.coin() ? gen(src) : r;
        Handles ho = import_parents(c, o);
        sa_key ko = INVALID_HANDLE, k2 = INVALID_HANDLE;
        REQUIRE(derive(c, o, ho, rights, &ko) == SA_STATUS_OK, "second derivation");
        check_key(c, ko, expect(o), o);
        sa_rights other = rights;
        other.usage_flags &= ~bit(SA_USAGE_FLAG_SIGN);
        REQUIRE(derive(c, r, h, other, &k2) == SA_STATUS_OK, "repeated derivation");
        check_key(c, k2, want, r);
    }
    // a derivation from a derived key
    if (r.k <= X963 && src.chance(1, 3)) {
        Req o = r;
        o.parent = want;
        if (src.coin()) o.d = ALL_DIGESTS[src.below(4)];
        Handles hk;
        hk.p = k;
        sa_key k3 = INVALID_HANDLE;
        s = derive(c, o, hk, rights, &k3);
        REQUIRE(s == SA_STATUS_OK, "derivation from a derived key: %s", sname(s));
        check_key(c, k3, expect(o), o);
        pbt::label("chained");
    }
}

PROP(c11_sensitive, "one input was changed and the derived key compared") {
    Caller c = Caller::ree();
    Req r = gen(src);
    Req o = r;
    std::string what;
    std::vector<int> can;
    if (r.k <= X963 || r.k == CMACK) can = {0, 1, 2};
    if (r.k == HKDF) can.insert(can.end(), {3, 4});
    if (r.k <= X963) can.push_back(5);
    if (r.k == CMACK) can.push_back(6);
    if (r.k == NETFLIX) can = {0, 7};
    if (r.k >= ROOT) can = {8, 9};
    auto flip = [&](Bytes& b) {
        if (b.empty()) b.push_back((uint8_t) (1 + src.below(255)));
        else b[src.below(b.size())] ^= (uint8_t) (1u << src.below(8));
    };
    auto resize = [&](Bytes& b) {
        if (!b.empty() && src.coin()) b.pop_back();
        else b.push_back((uint8_t) src.range(1, 255));
    };
    switch (can[src.below(can.size())]) {
        case 0: what = "parent", flip(o.parent); break;
        case 1: what = "info", flip(o.a); break;
        case 2: what = "info length", resize(o.a); break;
        case 3: what = "second input", flip(o.b); break;
        case 4: what = "second input length", resize(o.b); break;
        case 5:
            what = "digest";
            do o.d = ALL_DIGESTS[(std::find(ALL_DIGESTS, ALL_DIGESTS + 4, o.d) - ALL_DIGESTS + 1 + src.below(3)) % 4];
            while (o.d == r.d);
            break;
        case 6:
            what = "counter";
            r.len = o.len = 16;
            o.counter = (uint8_t) (1 + (r.counter - 1 + 1 + src.below(3)) % 4);
            break;
        case 7: what = "mac key", flip(o.parent2); break;
        case 8: what = "ladder input", flip(o.c[src.below(4)]); break;
        default: what = "root", o.k = r.k == ROOT ? COMMON : ROOT;
    }
    if (o.parent.size() > 512) pbt::discard();
    Bytes e1 = expect(r), e2 = expect(o);
    if (e1 == e2) pbt::discard();   // e.g. an HMAC key extended by zeros
    pbt::trace("%s; changed: %s", r.show().c_str(), what.c_str());
    Handles h1 = import_parents(c, r), h2 = import_parents(c, o);
    sa_key k1 = INVALID_HANDLE, k2 = INVALID_HANDLE;
    sa_rights rights = rights_all();
    REQUIRE(derive(c, r, h1, rights, &k1) == SA_STATUS_OK && derive(c, o, h2, rights, &k2) == SA_STATUS_OK, "%s", r.show().c_str());
    REQUIRE(key_digest(c, k1) != key_digest(c, k2), "%s: the same key after changing the %s", r.show().c_str(), what.c_str());
    check_key(c, k1, e1, r);
    check_key(c, k2, e2, o);
    pbt::nontrivial();
    pbt::label("%s/%s", KN[r.k], what.c_str());
}

PROP(c11_refused, "a request the algorithm cannot serve was made") {
    Caller c = src.coin() ? Caller::ree() : Caller::open(TA_A);
    Req r = gen(src);
    size_t ll[4] = {16, 16, 16, 16};
    std::string what;
    Handles h;
    bool made = false;
    auto parent_of = [&](size_t n) { r.parent = src.bytes(n); };
    switch (src.below(7)) {
        case 0:   // output length
            if (r.k <= X963) {
                r.len = src.coin() ? src.pick<size_t>({513, 514, 528, 544, 576, 1024, 4096, 255 * md_len(r.d), 255 * md_len(r.d) + 1, 256 * md_len(r.d), 65536,
                                             (size_t) 1 << 32, ((size_t) 1 << 32) + 16, SIZE_MAX, SIZE_MAX - 15, (size_t) 1 << 63}) :
                                   src.size(513, 70000);
                if (src.chance(1, 4)) r.len = src.below(16);
            } else if (r.k == CMACK) {
                switch (src.below(4)) {
                    case 0: r.len += src.range(1, 15); break;
                    case 1: r.len = 16 * src.range(6 - r.counter, 40); break;
                    case 2: r.len = src.pick<size_t>({(size_t) 1 << 32, ((size_t) 1 << 32) + 16, SIZE_MAX - 15, ((size_t) 1 << 63) + 16}); break;
                    default: r.len = 0;
                }
            } else
                pbt::discard();
            what = "length";
            break;
        case 1:
            if (r.k != CMACK) pbt::discard();
            r.counter = src.coin() ? src.pick<uint8_t>({0, 5, 6, 255, 128}) : (uint8_t) src.range(5, 255);
            r.len = 16 * src.range(1, 4);
            what = "counter";
            break;
        case 2:
            if (r.k > X963) pbt::discard();
            r.d = (sa_digest_algorithm) (src.coin() ? 4 + src.below(5) : src.any() | 8);
            what = "digest";
            break;
        case 3:   // parent size
            if (r.k == CMACK) {
                do parent_of(src.size(16, 512));
                while (r.parent.size() == 16 || r.parent.size() == 32);
            } else if (r.k == NETFLIX) {
                bool first = src.coin();
                if (first) parent_of(src.coin() ? 32 : src.size(17, 200));
                else r.parent2 = src.bytes(src.coin() ? 16 : src.size(33, 200));
            } else
                pbt::discard();
            what = "parent size";
            break;
        case 4: {   // parent type
            if (r.k >= ROOT) pbt::discard();
            h = import_parents(c, r);
            sa_key bad = must_import(c, src.coin() ? mat_ec(src, ALL_CURVES[src.below(9)]) : mat_rsa(src, 128), rights_all());
            if (r.k == NETFLIX && src.coin()) h.p2 = bad;
            else h.p = bad;
            made = true;
            what = "parent type";
            break;
        }
        case 5:
            if (r.k >= ROOT) pbt::discard();
            h = import_parents(c, r);
            if (r.k == NETFLIX && src.coin()) {
                c.key_release(h.p2);
                if (src.coin()) h.p2 = INVALID_HANDLE;
            } else {
                c.key_release(h.p);
                if (src.coin()) h.p = INVALID_HANDLE;
            }
            made = true;
            what = "parent handle";
            break;
        default: {
            if (r.k < ROOT) pbt::discard();
            int i = (int) src.below(4);
            size_t n = src.coin() ? src.size(0, 15) : src.size(17, 64);
            r.c[i] = src.bytes(n);
            ll[i] = n;
            what = "ladder input length";
        }
    }
    if (!made) h = import_parents(c, r);
    pbt::trace("%s: unsuitable %s", r.show().c_str(), what.c_str());
    sa_key k = 0x1234;
    sa_rights rights = rights_all();
    sa_status s = derive(c, r, h, rights, &k, ll);
    REQUIRE(s != SA_STATUS_OK, "%s: unsuitable %s accepted", r.show().c_str(), what.c_str());
    pbt::nontrivial();
    pbt::label("%s/%s: %s", KN[r.k], what.c_str(), sname(s));
    REQUIRE(k == INVALID_HANDLE || k == 0x1234, "%s refused, but returned handle %lu", r.show().c_str(), (unsigned long) k);
    sa_header hd;
    REQUIRE(c.key_header(&hd, k) != SA_STATUS_OK || k == 0x1234, "%s refused, but the handle is live", r.show().c_str());
}
