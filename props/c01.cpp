// C01: export then import gives back the same key.
#include "ops.hpp"
using namespace sec;

static Caller any_caller(Src& src) {
    switch (src.below(3)) {
        case 0: return Caller::ree();
        case 1: return Caller::open(TA_A);
        default: return Caller::open(TA_B);
    }
}

PROP(c01_roundtrip, "the exported container was imported and the two keys were compared in full") {
    Caller a = any_caller(src);
    sa_rights r = gen_rights(src, bit(SA_USAGE_FLAG_CACHEABLE));
    AnyKey k = gen_key(src, a, r);
    std::string before = fingerprint(a, k.h);
    unsigned rounds = src.weighted({3, 1, 1}) + 1;
    sa_key cur = k.h;
    Caller cc = a;
    pbt::trace("%s rights %s", k.desc.c_str(), show(r).c_str());
    pbt::label("%s", k.desc.substr(0, 8).c_str());
    for (unsigned i = 0; i < rounds; i++) {
        Bytes mixin = src.bytes(16);
        bool use = src.coin();
        Bytes blob;
        sa_status s = export_key(cc, cur, use ? &mixin : nullptr, blob);
        REQUIRE(s == SA_STATUS_OK, "export of %s: %s", k.desc.c_str(), sname(s));
        // exporting leaves the key as it was
        if (src.chance(1, 4)) REQUIRE(fingerprint(cc, cur, false) == before.substr(0, fingerprint(cc, cur, false).size()), "key changed by export");
        if (use) REQUIRE(sub(blob, 0, 16) == mixin, "the container does not carry the caller's mixin");
        bool other = src.coin();
        if (src.chance(1, 3)) REQUIRE(cc.key_release(cur) == SA_STATUS_OK, "release");
        if (other && cc.direct) {
            sa_uuid u = cc.uuid;
            if (src.coin()) cc.close();
            cc = Caller::open(u);       // another session of the same TA
            pbt::label("other session");
        }
        sa_key n = INVALID_HANDLE;
        s = import_exported(cc, &n, blob);
        REQUIRE(s == SA_STATUS_OK, "import of the exported %s: %s", k.desc.c_str(), sname(s));
        std::string after = fingerprint(cc, n);
        REQUIRE(after == before, "after round %u: %s", i + 1, first_difference(before, after).c_str());
        // and the same blob imports again
        if (src.chance(1, 4)) {
            sa_key m = INVALID_HANDLE;
            REQUIRE(import_exported(cc, &m, blob) == SA_STATUS_OK, "second import");
            REQUIRE(m != n, "two imports share a handle");
            std::string twice = fingerprint(cc, m, false);
            REQUIRE(twice == before.substr(0, twice.size()), "%s", first_difference(before, twice).c_str());
        }
        cur = n;
    }
    pbt::nontrivial();
}

// Containers exported by one caller import for another one; use stays governed by the rights inside.
PROP(c01_other_ta, "exported by one TA and imported by another") {
    Caller a = Caller::open(TA_A), b = src.coin() ? Caller::open(TA_B) : Caller::ree();
    sa_rights r = rights_all();
    if (src.coin()) {
        r.allowed_tas[0] = TA_A;
        if (src.coin()) r.allowed_tas[5] = b.uuid;
    }
    bool b_may = memcmp(&r.allowed_tas[0], &ALL_MATCH, 16) == 0 || memcmp(&r.allowed_tas[5], &b.uuid, 16) == 0;
    Bytes mat = src.bytes(src.coin() ? 16 : 32);
    sa_key k = a.must_import_sym(mat, r);
    std::string fa = fingerprint(a, k);
    Bytes blob;
    REQUIRE(export_key(a, k, nullptr, blob) == SA_STATUS_OK, "export");
    sa_key n = INVALID_HANDLE;
    sa_status s = import_exported(b, &n, blob);
    REQUIRE(s == SA_STATUS_OK, "import by another TA: %s", sname(s));
    std::string fb = fingerprint(b, n);
    if (b_may) REQUIRE(fa == fb, "%s", first_difference(fa, fb).c_str());
    else {
        REQUIRE(fb.find("ecb=") == std::string::npos && fb.find("hkdf=OK") == std::string::npos, "a TA that is not listed used the key");
        // back in the first TA it is the same key
        Bytes blob2;
        REQUIRE(export_key(b, n, nullptr, blob2) == SA_STATUS_OK, "export");
        sa_key m = INVALID_HANDLE;
        REQUIRE(import_exported(a, &m, blob2) == SA_STATUS_OK, "import");
        std::string f2 = fingerprint(a, m);
        REQUIRE(f2 == fa, "%s", first_difference(fa, f2).c_str());
    }
    pbt::label(b_may ? "allowed" : "not allowed");
    pbt::nontrivial();
}
