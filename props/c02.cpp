// C02: exported containers are authentic, confidential and only for cacheable keys.
#include "ops.hpp"
using namespace sec;

PROP(c02_tamper, "the presented container differed from every genuine one") {
    Caller c = src.coin() ? Caller::open(TA_A) : Caller::ree();
    sa_rights r = gen_rights(src, bit(SA_USAGE_FLAG_CACHEABLE));
    AnyKey k = gen_key(src, c, r);
    Bytes mixin = src.bytes(16), blob;
    bool use = src.coin();
    REQUIRE(export_key(c, k.h, use ? &mixin : nullptr, blob) == SA_STATUS_OK, "export");
    Bytes bad = blob;
    std::string what;
    size_t hdr_off = 16, prm_off = 16 + sizeof(sa_header), ct_off = prm_off + 24;
    Bytes blob2;
    switch (src.weighted({8, 2, 2, 2, 3, 2, 2})) {
        case 0: {
            size_t at;
            switch (src.weighted({2, 3, 2, 3, 2})) {
                case 0: at = src.below(16); break;
                case 1: at = hdr_off + src.below(sizeof(sa_header)); break;
                case 2: at = prm_off + src.below(24); break;
                case 3: at = ct_off + src.below(blob.size() - ct_off - 32); break;
                default: at = blob.size() - 32 + src.below(32); break;
            }
            bad[at] ^= 1 << src.below(8);
            what = "bit " + std::to_string(at);
            break;
        }
        case 1: bad.resize(src.below(blob.size())); what = "truncated"; break;
        case 2: {
            Bytes e = src.bytes(src.size(1, 64));
            bad.insert(bad.end(), e.begin(), e.end());
            what = "extended";
            break;
        }
        case 3: {
            // a block removed from or added to the ciphertext, with the length field adjusted
            size_t n;
            memcpy(&n, &bad[prm_off + 16], 8);
            if (src.coin() && n > 16) {
                bad.erase(bad.begin() + ct_off, bad.begin() + ct_off + 16);
                n -= 16;
            } else {
                Bytes e = src.bytes(16);
                bad.insert(bad.begin() + ct_off, e.begin(), e.end());
                n += 16;
            }
            memcpy(&bad[prm_off + 16], &n, 8);
            what = "block removed or added";
            break;
        }
        case 4: {   // splice with another genuine container
            sa_rights r2 = src.coin() ? r : gen_rights(src, bit(SA_USAGE_FLAG_CACHEABLE));
            Mat m2 = k.known && k.mat.type == SA_KEY_TYPE_SYMMETRIC ? mat_sym(src, k.mat.size) : mat_sym(src, 16);
            sa_key k2 = must_import(c, m2, r2);
            Bytes mx2 = src.coin() ? mixin : src.bytes(16);
            REQUIRE(export_key(c, k2, use ? &mx2 : nullptr, blob2) == SA_STATUS_OK, "export");
            size_t cut[] = {16, prm_off, prm_off + 16, ct_off, blob.size() - 32};
            size_t from = src.below(5), x = cut[from], y = x;
            if (from == 4) y = blob2.size() - 32;
            bad = cat({sub(blob, 0, x), sub(blob2, y, blob2.size() - y)});
            what = "splice at " + std::to_string(x);
            break;
        }
        case 5: {   // rights upgraded by editing the header
            sa_header h;
            memcpy(&h, &bad[hdr_off], sizeof h);
            switch (src.below(4)) {
                case 0: h.rights.usage_flags ^= src.any() | 1; break;
                case 1: h.rights.not_on_or_after ^= src.any() | 1; break;
                case 2: h.rights.allowed_tas[src.below(32)].id[src.below(16)] ^= 1; break;
                default: h.rights.child_usage_flags ^= bit((int) src.below(14)); break;
            }
            memcpy(&bad[hdr_off], &h, sizeof h);
            what = "header edited";
            break;
        }
        default: bad = src.bytes(blob.size()); what = "random"; break;
    }
    if (bad == blob || bad == blob2) pbt::discard();
    sa_key n = 12345;
    sa_status s = import_exported(c, &n, bad);
    pbt::trace("%s: %s -> %s", k.desc.c_str(), what.c_str(), sname(s));
    REQUIRE(s != SA_STATUS_OK, "a container changed by '%s' was imported", what.c_str());
    REQUIRE(n == INVALID_HANDLE || n == 12345, "a refused import returned handle %llx", (unsigned long long) n);
    pbt::label("%s", what.substr(0, what.find(' ')).c_str());
    pbt::nontrivial();
    // the genuine one still imports
    if (src.chance(1, 4)) REQUIRE(import_exported(c, &n, blob) == SA_STATUS_OK, "the genuine container");
}

static bool contains(const Bytes& hay, const uint8_t* needle, size_t n) {
    return std::search(hay.begin(), hay.end(), needle, needle + n) != hay.end();
}
PROP(c02_secret, "a key whose material the harness knows was exported, or the export of a non-cacheable key was attempted") {
    Caller c = src.coin() ? Caller::open(TA_A) : Caller::ree();
    sa_rights r = gen_rights(src);
    bool cacheable = (r.usage_flags >> SA_USAGE_FLAG_CACHEABLE) & 1;
    if (src.coin()) r.usage_flags ^= cacheable ? bit(SA_USAGE_FLAG_CACHEABLE) : 0;
    cacheable = (r.usage_flags >> SA_USAGE_FLAG_CACHEABLE) & 1;
    AnyKey k = gen_key(src, c, r);
    Bytes mixin = src.bytes(16), blob;
    bool use = src.coin();
    sa_status s = export_key(c, k.h, use ? &mixin : nullptr, blob);
    pbt::label(cacheable ? "cacheable" : "not cacheable");
    pbt::trace("%s %s -> %s", k.desc.c_str(), show(r).c_str(), sname(s));
    if (!cacheable) {
        REQUIRE(s == SA_STATUS_OPERATION_NOT_ALLOWED, "export of a key that is not cacheable: %s", sname(s));
        Guarded g(8192);
        size_t n = 8192;
        s = c.key_export(g.data(), &n, nullptr, 0, k.h);
        REQUIRE(s == SA_STATUS_OPERATION_NOT_ALLOWED && g.untouched(0, 8192), "export of a key that is not cacheable: %s", sname(s));
        pbt::nontrivial();
        return;
    }
    REQUIRE(s == SA_STATUS_OK, "export: %s", sname(s));
    // a mixin of another length is refused
    size_t mn = src.below(40), n = 0;
    Bytes mx = src.bytes(mn);
    Exact me(mx);
    s = c.key_export(nullptr, &n, me.p, mn, k.h);
    REQUIRE((s == SA_STATUS_OK) == (mn == 16), "mixin of %zu bytes: %s", mn, sname(s));
    if (!k.known) return;
    const Bytes& m = k.mat.clear;
    size_t w = 8;
    bool varied = true;     // windows of constant bytes would match unrelated zeros
    for (size_t i = 0; i + w <= m.size(); i += 4) {
        std::set<uint8_t> d(m.begin() + i, m.begin() + i + w);
        varied = d.size() >= 6;
        if (varied) REQUIRE(!contains(blob, &m[i], w), "the container holds the key's bytes %zu..%zu in clear", i, i + w);
    }
    // the same key twice: different bytes (fresh IV), so equality of keys does not show
    Bytes blob2;
    g_det_rand = false;
    REQUIRE(export_key(c, k.h, use ? &mixin : nullptr, blob2) == SA_STATUS_OK, "export");
    REQUIRE(sub(blob2, blob2.size() - 48, 16) != sub(blob, blob.size() - 48, 16), "two exports have the same last ciphertext block");
    pbt::nontrivial();
}
