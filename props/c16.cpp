// C16: SVP buffer operations move exactly the requested bytes, within bounds.
#include "ops.hpp"
#include "stream.hpp"
#include <cstring>
using namespace sec;

struct Buf {
    std::unique_ptr<Guarded> mem;
    Bytes model;
    sa_svp_buffer h = INVALID_HANDLE;
    bool live = false;
};
static size_t edge(Src& src, size_t n) {   // an offset or length around a buffer of n bytes
    switch (src.weighted({6, 2, 2, 1, 1})) {
        case 0: return src.below(n + 1);
        case 1: return n;
        case 2: return n + 1;
        case 3: return SIZE_MAX - src.below(3) * src.below(n + 1);
        default: return src.pick({(size_t) 1 << 31, (size_t) 1 << 32, (size_t) 1 << 63, (size_t) 0xffffffff, (size_t) INT64_MAX});
    }
}
static std::vector<sa_svp_offset> gen_offsets(Src& src, size_t in_n, size_t out_n) {
    std::vector<sa_svp_offset> v;
    size_t n = src.weighted({1, 6, 3}) == 0 ? 0 : src.coin() ? 1 : src.chance(1, 60) ? src.range(7, 300) : src.range(1, 6);
    bool wild = src.chance(1, n > 6 ? 8 : 3);
    for (size_t i = 0; i < n; i++) {
        sa_svp_offset o;
        size_t cap = std::min(in_n, out_n);
        o.length = src.coin() ? src.below(cap + 1) : src.pick({(size_t) 0, (size_t) 1, cap, cap / 2});
        o.in_offset = src.coin() ? in_n - o.length : src.below(in_n - o.length + 1);
        o.out_offset = src.coin() ? out_n - o.length : src.below(out_n - o.length + 1);
        if (wild && (n > 6 ? src.chance(1, 40) : src.coin())) switch (src.below(4)) {
            case 0: o.length = edge(src, src.coin() ? in_n : out_n); break;
            case 1: o.in_offset = edge(src, in_n); break;
            case 2: o.out_offset = edge(src, out_n); break;
            default:   // wraps to a small sum
                o.length = SIZE_MAX - src.below(40);
                (src.coin() ? o.in_offset : o.out_offset) = src.below(64);
                break;
        }
        v.push_back(o);
    }
    return v;
}
static bool fits(size_t off, size_t len, size_t n) { return off <= n && len <= n - off; }
static std::string show(const std::vector<sa_svp_offset>& v) {
    std::string s;
    for (auto& o : v) s += " {out " + std::to_string(o.out_offset) + " in " + std::to_string(o.in_offset) + " len " + std::to_string(o.length) + "}";
    return s;
}

PROP(c16_history, "several operations of which at least one moved bytes with more than one entry or was refused for its range") {
    Caller c = src.coin() ? Caller::ree() : Caller::open(TA_A);
    std::vector<Buf> b(1 + src.below(4));
    auto create = [&](Buf& x) {
        size_t n = src.chance(1, 60) ? src.large() : src.weighted({3, 2, 1}) == 0 ? src.range(1, 64) : src.coin() ? src.range(1, 300) : 1;
        x.mem.reset(new Guarded(n));
        x.model = src.bytes(n);
        memcpy(x.mem->data(), x.model.data(), n);
        x.h = 0x4444;
        sa_status s = c.svp_create(&x.h, x.mem->data(), n);
        REQUIRE(s == SA_STATUS_OK, "create(%zu): %s", n, sname(s));
        for (auto& y : b) REQUIRE(&y == &x || !y.live || y.h != x.h, "a handle in use was returned again");
        for (auto& y : b)
            if (&y != &x && y.h == x.h) y.h = INVALID_HANDLE;   // a released handle value that is in use again
        x.live = true;
    };
    for (auto& x : b) create(x);
    bool rich = false;
    unsigned n = 1 + (unsigned) src.below(12);
    for (unsigned i = 0; i < n; i++) {
        size_t oi = src.below(b.size());
        Buf& o = b[oi];
        sa_status s;
        switch (src.weighted({5, 5, 3, 1})) {
            case 0: {
                Bytes in = src.bytes(src.chance(1, 60) ? src.large() : src.range(1, 120));
                Exact e(in);
                auto v = gen_offsets(src, in.size(), o.model.size());
                Exact ve(Bytes((uint8_t*) v.data(), (uint8_t*) (v.data() + v.size())));
                s = c.svp_write(o.h, e.p, e.n, (sa_svp_offset*) ve.p, v.size());
                pbt::trace("write %zu of %zu%s -> %s", oi, o.model.size(), show(v).c_str(), sname(s));
                bool ok = o.live;
                for (auto& x : v) ok = ok && fits(x.in_offset, x.length, in.size()) && fits(x.out_offset, x.length, o.model.size());
                if (!v.empty() || !o.live) REQUIRE((s == SA_STATUS_OK) == ok, "write of%s into %zu bytes from %zu: %s", show(v).c_str(), o.model.size(), in.size(), sname(s));
                if (ok && s == SA_STATUS_OK)
                    for (auto& x : v) memcpy(&o.model[0] + x.out_offset, &in[0] + x.in_offset, x.length);
                rich |= v.size() > 1 || (!ok && o.live);
                pbt::label("write/%s/%s", ok ? "ok" : "refused", v.size() > 1 ? "many" : v.empty() ? "none" : "one");
                break;
            }
            case 1: {
                Buf& in = b[src.below(b.size())];
                auto v = gen_offsets(src, in.model.size(), o.model.size());
                Exact ve(Bytes((uint8_t*) v.data(), (uint8_t*) (v.data() + v.size())));
                s = c.svp_copy(o.h, in.h, (sa_svp_offset*) ve.p, v.size());
                pbt::trace("copy to %zu of %zu from %s of %zu%s -> %s", oi, o.model.size(), &in == &o ? "itself" : "another", in.model.size(), show(v).c_str(), sname(s));
                bool ok = o.live && in.live;
                for (auto& x : v) ok = ok && fits(x.in_offset, x.length, in.model.size()) && fits(x.out_offset, x.length, o.model.size());
                if (!v.empty() || !(o.live && in.live)) REQUIRE((s == SA_STATUS_OK) == ok, "copy of%s into %zu bytes from %zu: %s", show(v).c_str(), o.model.size(), in.model.size(), sname(s));
                if (ok && s == SA_STATUS_OK)
                    for (auto& x : v) memmove(&o.model[0] + x.out_offset, &in.model[0] + x.in_offset, x.length);
                rich |= v.size() > 1 || (!ok && o.live && in.live);
                pbt::label("copy/%s/%s/%s", ok ? "ok" : "refused", &in == &o ? "self" : "other", v.size() > 1 ? "many" : v.empty() ? "none" : "one");
                break;
            }
            case 2: {
                auto d = ALL_DIGESTS[src.below(4)];
                size_t off = src.coin() ? edge(src, o.model.size()) : src.below(o.model.size() + 1),
                       len = src.coin() ? edge(src, o.model.size()) : off <= o.model.size() ? o.model.size() - off : 0;
                bool in = fits(off, len, o.model.size());
                Bytes h = ref_digest(d, in ? sub(o.model, off, len) : o.model);
                bool good = true;
                switch (src.weighted({4, 2, 1})) {
                    case 0: break;
                    case 1: h[src.below(h.size())] ^= (uint8_t) (1u << src.below(8)); good = false; break;
                    default: h.resize(src.coin() ? h.size() - 1 : h.size() + 1); good = false; break;
                }
                Exact e(h);
                s = c.svp_check(o.h, off, len, d, e.p, e.n);
                pbt::trace("check %zu of %zu offset %zu length %zu digest %d -> %s", oi, o.model.size(), off, len, (int) d, sname(s));
                bool want = o.live && in && good && c.direct;
                REQUIRE((s == SA_STATUS_OK) == want, "check (%s, %s, %s) gave %s", in ? "in range" : "out of range", good ? "right digest" : "wrong digest",
                        c.direct ? "from a TA" : "from the REE", sname(s));
                if (o.live && in && !good && c.direct && h.size() == md_len(d)) REQUIRE(s == SA_STATUS_VERIFICATION_FAILED, "a wrong digest gave %s", sname(s));
                pbt::label("check/%s", want ? "ok" : "refused");
                break;
            }
            default: {
                void* m = (void*) 0x1234;
                size_t z = 77;
                s = c.svp_release(&m, &z, o.h);
                pbt::trace("release %zu -> %s", oi, sname(s));
                REQUIRE((s == SA_STATUS_OK) == o.live, "release of a %s handle: %s", o.live ? "live" : "released", sname(s));
                if (o.live) REQUIRE(m == o.mem->data() && z == o.model.size(), "release returned another memory or size (%zu, expected %zu)", z, o.model.size());
                o.live = false;
                if (src.coin()) {
                    Guarded* old = o.mem.release();
                    std::unique_ptr<Guarded> keep(old);
                    Bytes om = o.model;
                    create(o);
                    REQUIRE(old->intact() && old->get(0, old->n) == om, "released memory was changed");
                }
                pbt::label("release");
            }
        }
        for (auto& x : b) {
            REQUIRE(x.mem->intact(), "memory outside an SVP buffer was written");
            Bytes now = x.mem->get(0, x.mem->n);
            if (now != x.model) {
                size_t k = 0;
                while (now[k] == x.model[k]) k++;
                pbt::fail("[contents] buffer %zu differs from the model at byte %zu of %zu", (size_t) (&x - &b[0]), k, now.size());
            }
        }
    }
    if (rich) pbt::nontrivial();
}

// A region that does not fit the address space is refused, and the session goes on.
PROP(c16_region, "a region reaching past the end of the address space, or an ordinary one after it") {
    Caller c = src.coin() ? Caller::ree() : Caller::open(TA_A);
    Guarded g(64);
    sa_svp_buffer h = INVALID_HANDLE;
    bool wild = src.chance(2, 3);
    size_t n = wild ? SIZE_MAX - src.below(1000) : src.range(1, 64);
    sa_status s = c.svp_create(&h, g.data(), n);
    if (wild) {
        REQUIRE(s != SA_STATUS_OK, "a region of %zu bytes at %p was accepted", n, (void*) g.data());
        REQUIRE(h == INVALID_HANDLE, "refused, but a handle was returned");
    } else {
        REQUIRE(s == SA_STATUS_OK, "create: %s", sname(s));
        void* m = nullptr;
        size_t z = 0;
        s = c.svp_release(&m, &z, h);
        REQUIRE(s == SA_STATUS_OK && m == g.data() && z == n, "release: %s", sname(s));
    }
    pbt::nontrivial();
    pbt::label(wild ? "wild" : "ordinary");
    // a fresh buffer works afterwards
    SvpMem b(c, 32);
    Exact e(Bytes(32, 7));
    sa_svp_offset o = {0, 0, 32};
    s = c.svp_write(b.h, e.p, 32, &o, 1);
    REQUIRE(s == SA_STATUS_OK && b.mem.get(0, 32) == Bytes(32, 7), "write afterwards: %s", sname(s));
}

// Key check: exactly the comparison of the ECB decryption with the expected bytes.
PROP(c16_key_check, "the check was decided by comparing blocks") {
    Caller c = src.coin() ? Caller::ree() : Caller::open(TA_A);
    Bytes key = src.bytes(src.coin() ? 16 : 32);
    sa_rights r = rights_all();
    if (src.chance(1, 3)) {
        g_video = video_output_state_t{};
        g_video.svp_enabled = true;
        r.usage_flags &= ~bit(SA_USAGE_FLAG_SVP_OPTIONAL);
    }
    bool decrypt = !src.chance(1, 6);
    if (!decrypt) r.usage_flags &= ~bit(SA_USAGE_FLAG_DECRYPT);
    sa_key k = must_import(c, mat_sym_bytes(key), r);
    size_t n = 16 * (src.weighted({5, 1}) == 0 ? 1 : src.range(1, 4));
    Bytes in = src.bytes(n), expected = aes_ecb(key, in, false);
    bool good = src.coin();
    if (!good) expected[src.below(n)] ^= (uint8_t) (1u << src.below(8));
    bool svp = src.coin();
    size_t off = src.coin() ? 0 : src.size(0, 30), room = src.coin() ? 0 : src.size(0, 30);
    Bytes area = cat({Bytes(off, 0x11), in, Bytes(room, 0x22)});
    sa_status s;
    Exact ex(expected);
    bool shortbuf = src.chance(1, 6);
    size_t cut = shortbuf ? 1 + src.below(in.size()) + room : 0;
    if (shortbuf) area.resize(area.size() - cut);
    if (area.empty()) pbt::discard();
    if (svp) {
        SvpMem m(c, area.size());
        memcpy(m.mem.data(), area.data(), area.size());
        sa_buffer b = svp_buf(m.h, off);
        s = c.svp_key_check(k, &b, n, ex.p, ex.n);
        REQUIRE(m.mem.intact() && m.mem.get(0, area.size()) == area, "SVP memory was changed");
    } else {
        Exact e(area);
        sa_buffer b = clear_buf(e.p, e.n, off);
        s = c.svp_key_check(k, &b, n, ex.p, ex.n);
        REQUIRE(!memcmp(e.p, area.data(), area.size()), "the input was changed");
    }
    REQUIRE(!memcmp(ex.p, expected.data(), n), "the expected value was changed");
    bool may = decrypt && !shortbuf && (svp ? c.direct : (r.usage_flags >> SA_USAGE_FLAG_SVP_OPTIONAL & 1) != 0);
    pbt::trace("%zu bytes, %s, %s, %s: %s", n, svp ? "svp" : "clear", good ? "right" : "wrong", may ? "allowed" : "not allowed", sname(s));
    REQUIRE((s == SA_STATUS_OK) == (may && good), "%s with %s", may && good ? "a correct key check" : may ? "a wrong value" : "a check that is not allowed", sname(s));
    if (may && !good) REQUIRE(s == SA_STATUS_VERIFICATION_FAILED, "a wrong value gave %s", sname(s));
    if (may) pbt::nontrivial();
    pbt::label("%s/%s/%s", svp ? "svp" : "clear", may ? "allowed" : "not", good ? "right" : "wrong");
}
