// C17: common encryption decrypts every sample layout as ISO/IEC 23001-7 says.
#include "ops.hpp"
#include "stream.hpp"
#include <cstring>
using namespace sec;

struct Layout {
    Bytes iv;
    size_t crypt = 0, skip = 0;
    std::vector<sa_subsample_length> sub;
    size_t total() const {
        size_t t = 0;
        for (auto& s : sub) t += s.bytes_of_clear_data + s.bytes_of_protected_data;
        return t;
    }
};
// The standard, byte by byte: which protected bytes are ciphertext, in which order they meet the cipher.
static Bytes ref_cenc(bool ctr, const Bytes& key, const Layout& l, const Bytes& in) {
    Bytes out = in;
    std::vector<std::vector<size_t>> runs(1);   // cipher runs: the IV restarts at each
    size_t pos = 0;
    for (auto& s : l.sub) {
        pos += s.bytes_of_clear_data;
        size_t n = s.bytes_of_protected_data;
        bool pattern = l.crypt != 0;
        if (pattern && !ctr) runs.emplace_back();
        size_t phase = 0;   // block number within the pattern
        for (size_t b = 0; b < n; b += 16) {
            size_t len = std::min<size_t>(16, n - b);
            bool enc;
            if (len < 16) enc = !pattern && ctr;
            else if (!pattern) enc = true;
            else {
                enc = phase < l.crypt;
                phase++;
                if (phase >= l.crypt && phase - l.crypt >= l.skip) phase = 0;   // no sum: both may be huge
            }
            if (enc)
                for (size_t i = 0; i < len; i++) runs.back().push_back(pos + b + i);
        }
        pos += n;
    }
    for (auto& r : runs) {
        if (r.empty()) continue;
        Bytes c(r.size());
        for (size_t i = 0; i < r.size(); i++) c[i] = in[r[i]];
        Bytes p = ctr ? aes_ctr_manual(key, l.iv, c, 8) : aes_cbc(key, l.iv, c, false);
        for (size_t i = 0; i < r.size(); i++) out[r[i]] = p[i];
    }
    return out;
}
static size_t huge(Src& src) {
    switch (src.below(4)) {
        case 0: return ((size_t) 1 << 60) + src.below(3);
        case 1: return SIZE_MAX - src.below(17);
        case 2: return ((size_t) 1 << (60 + src.below(4))) + src.below(3);
        default: return (size_t) 1 << src.range(4, 59);
    }
}
static Layout gen_layout(Src& src, bool ctr) {
    Layout l;
    l.iv = src.bytes(16);
    if (ctr && src.chance(2, 3)) {   // the 8-byte counter rolls over soon
        for (size_t i = 8; i < 15; i++) l.iv[i] = 0xff;
        l.iv[15] = (uint8_t) (0xff - src.below(12));
        if (src.chance(1, 3)) for (size_t i = src.below(8); i < 8; i++) l.iv[i] = 0xff;
    }
    switch (src.weighted({4, 3, 2, 1})) {
        case 0: break;
        case 1: l.crypt = src.range(1, 5); l.skip = src.below(6); break;
        case 2: l.crypt = src.range(1, 12); l.skip = src.coin() ? 0 : 9; break;
        default:
            l.crypt = src.coin() ? huge(src) : src.range(1, 4);
            l.skip = src.coin() ? huge(src) : src.below(4);
            break;
    }
    size_t n = src.weighted({4, 4, 1}) == 0 ? 1 : src.chance(1, 100) ? src.range(9, 300) : src.range(1, 8);
    for (size_t i = 0; i < n; i++) {
        sa_subsample_length s;
        s.bytes_of_clear_data = src.chance(1, 3) ? 0 : src.chance(1, 400) ? src.large() : src.size(0, 40);
        switch (src.weighted({3, 3, 1, 1})) {
            case 0: s.bytes_of_protected_data = src.below(70); break;
            case 1: s.bytes_of_protected_data = 16 * src.below(8); break;
            case 2: s.bytes_of_protected_data = src.range(1, 15); break;
            default: s.bytes_of_protected_data = src.chance(1, 60) ? src.large() : src.size(0, 900); break;
        }
        l.sub.push_back(s);
    }
    if (l.total() == 0) l.sub.back().bytes_of_clear_data = 1;   // a sample without any byte is refused; the standard has none
    return l;
}
static std::string show(bool ctr, const Layout& l) {
    std::string s = std::string(ctr ? "CTR" : "CBC") + " crypt " + std::to_string(l.crypt) + " skip " + std::to_string(l.skip) + " iv " + pbt::hex(l.iv) + " subsamples";
    for (auto& x : l.sub) s += " " + std::to_string(x.bytes_of_clear_data) + "+" + std::to_string(x.bytes_of_protected_data);
    return s;
}
struct Sample {
    Layout l;
    size_t ctx = 0;
    bool isvp = false, osvp = false;
    size_t io = 0, oo = 0, tail = 0;
    std::unique_ptr<Exact> iv, in;
    std::unique_ptr<SvpMem> si, so;
    std::unique_ptr<Guarded> out;
    Bytes data, area;
    sa_buffer bi, bo;
    std::unique_ptr<Exact> sub;
    uint8_t* obase() { return osvp ? so->mem.data() : out->data(); }
    Guarded& og() { return osvp ? so->mem : *out; }
};
static void place(Src& src, const Caller& c, Sample& s, const Bytes& data, size_t out_cap) {
    s.data = data;
    s.io = src.coin() ? 0 : src.below(20);
    s.oo = src.coin() ? 0 : src.below(20);
    s.tail = src.coin() ? 0 : src.below(20);
    s.area = cat({Bytes(s.io, 0x11), data, Bytes(s.tail, 0x22)});
    if (s.area.empty()) s.area.push_back(0x33);
    size_t cap = s.oo + out_cap;
    if (cap == 0) pbt::discard();
    if (s.isvp) {
        s.si.reset(new SvpMem(c, s.area.size()));
        memcpy(s.si->mem.data(), s.area.data(), s.area.size());
        s.bi = svp_buf(s.si->h, s.io);
    } else {
        s.in.reset(new Exact(s.area));
        s.bi = clear_buf(s.in->p, s.area.size(), s.io);
    }
    if (s.osvp) {
        s.so.reset(new SvpMem(c, cap));
        s.bo = svp_buf(s.so->h, s.oo);
    } else {
        s.out.reset(new Guarded(cap));
        s.bo = clear_buf(s.out->data(), cap, s.oo);
    }
    s.iv.reset(new Exact(s.l.iv));
    const uint8_t* p = (const uint8_t*) s.l.sub.data();
    s.sub.reset(new Exact(Bytes(p, p + s.l.sub.size() * sizeof(sa_subsample_length))));
}
static sa_sample api(Sample& s, sa_crypto_cipher_context h) {
    return {s.iv->p, s.iv->n, s.l.crypt, s.l.skip, s.l.sub.size(), (sa_subsample_length*) s.sub->p, h, &s.bo, &s.bi};
}
static size_t off(const sa_buffer& b) { return b.buffer_type == SA_BUFFER_TYPE_SVP ? b.context.svp.offset : b.context.clear.offset; }
static void check_in(Sample& s) {
    const uint8_t* p = s.isvp ? s.si->mem.data() : s.in->p;
    REQUIRE(!memcmp(p, s.area.data(), s.area.size()) && (!s.isvp || s.si->mem.intact()), "the input was changed");
}
struct Ciphers {
    struct One {
        bool ctr;
        Bytes key;
        sa_crypto_cipher_context h;
    };
    std::vector<One> v;
    Ciphers(Src& src, const Caller& c, size_t n) {
        for (size_t i = 0; i < n; i++) {
            One o;
            o.ctr = src.coin();
            o.key = src.bytes(src.coin() ? 16 : 32);
            sa_key k = must_import(c, mat_sym_bytes(o.key), rights_all());
            SymCfg s;
            s.alg = o.ctr ? SA_CIPHER_ALGORITHM_AES_CTR : SA_CIPHER_ALGORITHM_AES_CBC;
            s.mode = SA_CIPHER_MODE_DECRYPT;
            s.iv = src.bytes(16);
            sa_status st = stream_init(c, &o.h, s, k);
            REQUIRE(st == SA_STATUS_OK, "init: %s", sname(st));
            v.push_back(o);
        }
    }
};

PROP(c17_layouts, "a sample with encrypted bytes in more than one subsample, pattern stripe or sample was decrypted", 20) {
    Caller c = src.coin() ? Caller::ree() : Caller::open(TA_A);
    Ciphers cs(src, c, 1 + src.below(2));
    unsigned calls = 1 + (unsigned) src.below(3);
    bool rich = false;
    for (unsigned call = 0; call < calls; call++) {
        size_t n = src.weighted({3, 2}) == 0 ? 1 : src.range(1, 4);
        std::vector<Sample> v(n);
        std::vector<sa_sample> a(n);
        std::vector<Bytes> want(n);
        for (size_t i = 0; i < n; i++) {
            Sample& s = v[i];
            s.ctx = src.below(cs.v.size());
            auto& o = cs.v[s.ctx];
            s.l = gen_layout(src, o.ctr);
            s.osvp = src.coin();
            s.isvp = s.osvp && src.coin();
            size_t t = s.l.total();
            Bytes data(t);
            src.fill(data.data(), t);
            place(src, c, s, data, t + (src.coin() ? 0 : src.below(20)));
            want[i] = ref_cenc(o.ctr, o.key, s.l, data);
            a[i] = api(s, o.h);
            size_t enc = 0;
            for (size_t k = 0; k < t; k++) enc += want[i][k] != data[k];
            if (enc > 16 && (s.l.sub.size() > 1 || s.l.crypt || n > 1)) rich = true;
            pbt::trace("call %u: %s, in offset %zu out offset %zu%s%s", call, show(o.ctr, s.l).c_str(), s.io, s.oo, s.isvp ? " in svp" : "", s.osvp ? " out svp" : "");
            pbt::label("%s/%s/%s", o.ctr ? "ctr" : "cbc", s.l.crypt == 0 ? "full" : s.l.crypt > 1000 || s.l.skip > 1000 ? "huge pattern" : "pattern", s.osvp ? "svp" : "clear");
        }
        sa_status st = c.cenc(n, a.data());
        REQUIRE(st == SA_STATUS_OK, "[refused] a valid layout gave %s", sname(st));
        for (size_t i = 0; i < n; i++) {
            Sample& s = v[i];
            size_t t = s.data.size();
            auto& o = cs.v[s.ctx];
            Bytes got = s.og().get(s.oo, t);
            if (got != want[i]) {
                size_t k = 0;
                while (got[k] == want[i][k]) k++;
                pbt::fail("[plaintext] sample %zu (%s) differs from the standard at byte %zu of %zu", i, show(o.ctr, s.l).c_str(), k, t);
            }
            REQUIRE(s.og().intact() && s.og().untouched(0, s.oo) && s.og().untouched(s.oo + t, s.og().n), "bytes around the output of sample %zu were written", i);
            check_in(s);
            REQUIRE(off(s.bi) == s.io + t && off(s.bo) == s.oo + t, "offsets of sample %zu advanced to %zu/%zu, expected %zu/%zu", i, off(s.bi), off(s.bo), s.io + t, s.oo + t);
            REQUIRE(!memcmp(s.iv->p, s.l.iv.data(), 16), "the caller's IV was changed");
        }
    }
    if (rich) pbt::nontrivial();
}

// Layouts that do not fit or are malformed are refused without any access out of range, and the context goes on working.
PROP(c17_malformed, "a malformed or misfit sample was refused", 20) {
    Caller c = src.coin() ? Caller::ree() : Caller::open(TA_A);
    Ciphers cs(src, c, 1);
    auto& o = cs.v[0];
    Sample s;
    s.l = gen_layout(src, o.ctr);
    s.osvp = src.coin();
    s.isvp = s.osvp && src.coin();
    size_t t = s.l.total();
    Bytes data(t);
    src.fill(data.data(), t);
    int kind = (int) src.below(11);
    size_t out_cap = t;
    bool trim_in = false;
    const char* what = "";
    Layout good = s.l;
    switch (kind) {
        case 0: what = "output too small"; if (!t) pbt::discard(); out_cap = src.coin() ? t - 1 : src.below(t); break;
        case 1: what = "input too small"; if (!t) pbt::discard(); trim_in = true; break;
        case 2: what = "clear bytes too large";
            s.l.sub[src.below(s.l.sub.size())].bytes_of_clear_data += src.coin() ? src.range(60, 4000) : SIZE_MAX - src.below(4000); break;
        case 3: what = "protected bytes too large";
            s.l.sub[src.below(s.l.sub.size())].bytes_of_protected_data += src.coin() ? src.range(60, 4000) : SIZE_MAX - src.below(4000); break;
        case 4: what = "total wraps";   // two entries that sum to a small number
        {
            size_t x = ((size_t) 1 << 63) - src.below(2) * 16;
            s.l.sub.push_back({x, 0});
            s.l.sub.push_back({src.coin() ? x : 0, SIZE_MAX - x + 1 + src.below(64)});
            break;
        }
        case 5: what = "skip without crypt"; s.l.crypt = 0; s.l.skip = src.coin() ? src.range(1, 9) : huge(src); break;
        case 6: what = "no subsamples"; s.l.sub.clear(); break;
        case 7: what = "IV length"; s.l.iv.resize(src.pick({0, 8, 15, 17})); break;
        case 8: what = "in offset"; break;
        case 9: what = "out offset"; break;
        default: what = "context"; break;
    }
    place(src, c, s, data, out_cap);
    bool wraps = kind == 2 || kind == 3;
    if (wraps) {   // only refused when the layout really no longer fits
        __uint128_t need = 0;
        for (auto& x : s.l.sub) need += (__uint128_t) x.bytes_of_clear_data + x.bytes_of_protected_data;
        if (need <= t) pbt::discard();
    }
    if (trim_in) {
        size_t cut = s.tail + (src.coin() ? 1 : src.range(1, t));
        s.area.resize(s.area.size() - cut);
        if (s.area.empty()) pbt::discard();
        if (s.isvp) {
            s.si.reset(new SvpMem(c, s.area.size()));
            memcpy(s.si->mem.data(), s.area.data(), s.area.size());
            s.bi = svp_buf(s.si->h, s.io);
        } else {
            s.in.reset(new Exact(s.area));
            s.bi = clear_buf(s.in->p, s.area.size(), s.io);
        }
    }
    if (kind == 8 || kind == 9) {
        sa_buffer& b = kind == 8 ? s.bi : s.bo;
        size_t room = kind == 8 ? s.area.size() : s.og().n;
        size_t v = src.coin() ? room - t + src.range(1, 40) : SIZE_MAX - src.below(2 * t + 40);
        if (t == 0 && v <= room) pbt::discard();
        if (b.buffer_type == SA_BUFFER_TYPE_SVP) b.context.svp.offset = v;
        else b.context.clear.offset = v;
    }
    sa_crypto_cipher_context h = o.h;
    if (kind == 10) h = src.coin() ? INVALID_HANDLE : (sa_crypto_cipher_context) src.range(200, 5000);
    size_t bi = off(s.bi), bo = off(s.bo);
    Sample first;     // a valid sample may come before the bad one
    bool with_first = src.chance(1, 3);
    std::vector<sa_sample> a;
    if (with_first) {
        first.l = gen_layout(src, o.ctr);
        first.osvp = src.coin();
        Bytes d(first.l.total());
        src.fill(d.data(), d.size());
        place(src, c, first, d, d.size());
        a.push_back(api(first, o.h));
    }
    a.push_back(api(s, h));
    sa_status st = c.cenc(a.size(), a.data());
    pbt::trace("%s: %s -> %s", what, show(o.ctr, s.l).c_str(), sname(st));
    REQUIRE(st != SA_STATUS_OK, "[accepted] a sample with %s was accepted", what);
    REQUIRE(s.og().intact() && s.og().untouched(0, s.og().n), "a refused sample wrote to its output (%s)", what);
    REQUIRE(off(s.bi) == bi && off(s.bo) == bo, "a refused sample moved its offsets (%s)", what);
    check_in(s);
    pbt::label("%s/%s", what, s.osvp ? "svp" : "clear");
    pbt::nontrivial();
    // the context still decrypts
    Sample g;
    g.l = good;
    g.osvp = s.osvp;
    place(src, c, g, data, t);
    sa_sample ga = api(g, o.h);
    st = c.cenc(1, &ga);
    REQUIRE(st == SA_STATUS_OK, "a valid sample after the refused one gave %s", sname(st));
    REQUIRE(g.og().get(g.oo, t) == ref_cenc(o.ctr, o.key, good, data), "a valid sample after the refused one gave a different plaintext");
}

// The way samples are grouped into calls, and buffers shared between samples, do not matter.
PROP(c17_grouping, "at least three samples laid one after another in shared buffers", 20) {
    Caller c = src.coin() ? Caller::ree() : Caller::open(TA_A);
    Ciphers cs(src, c, 1 + src.below(2));
    size_t n = src.range(2, 6);
    std::vector<Layout> l(n);
    std::vector<size_t> ctx(n);
    Bytes in, want;
    for (size_t i = 0; i < n; i++) {
        ctx[i] = src.below(cs.v.size());
        auto& o = cs.v[ctx[i]];
        l[i] = gen_layout(src, o.ctr);
        Bytes d(l[i].total());
        src.fill(d.data(), d.size());
        Bytes w = ref_cenc(o.ctr, o.key, l[i], d);
        in.insert(in.end(), d.begin(), d.end());
        want.insert(want.end(), w.begin(), w.end());
    }
    if (in.empty()) pbt::discard();
    bool svp = src.coin();
    Exact ei(in);
    std::unique_ptr<SvpMem> so;
    Guarded g(in.size());
    if (svp) so.reset(new SvpMem(c, in.size()));
    sa_buffer bi = clear_buf(ei.p, in.size(), 0), bo = svp ? svp_buf(so->h, 0) : clear_buf(g.data(), in.size(), 0);
    std::vector<sa_sample> a(n);
    for (size_t i = 0; i < n; i++)
        a[i] = {l[i].iv.data(), 16, l[i].crypt, l[i].skip, l[i].sub.size(), l[i].sub.data(), cs.v[ctx[i]].h, &bo, &bi};
    for (size_t i = 0; i < n;) {
        size_t k = std::min<size_t>(n - i, src.range(1, n));
        sa_status st = c.cenc(k, &a[i]);
        pbt::trace("%zu samples: %s", k, sname(st));
        // samples that share a buffer are verified where the first one starts: the last of them need not fit there
        REQUIRE(st == SA_STATUS_OK, "a group of %zu samples gave %s", k, sname(st));
        i += k;
    }
    Bytes got = (svp ? so->mem : g).get(0, in.size());
    REQUIRE(got == want, "[plaintext] the samples decrypt differently when grouped");
    REQUIRE((svp ? so->mem : g).intact(), "bytes around the output were written");
    REQUIRE(off(bi) == in.size() && off(bo) == in.size(), "the shared offsets ended at %zu/%zu of %zu", off(bi), off(bo), in.size());
    if (n >= 3) pbt::nontrivial();
    pbt::label("%zu samples/%s", n, svp ? "svp" : "clear");
}

// Where the input and the output lie in memory does not matter as long as they share no byte.
PROP(c17_placement, "input and output in one memory area, touching or overlapping", 20) {
    Caller c = src.coin() ? Caller::ree() : Caller::open(TA_A);
    Ciphers cs(src, c, 1);
    auto& o = cs.v[0];
    Layout l = gen_layout(src, o.ctr);
    size_t t = l.total();
    Bytes data(t);
    src.fill(data.data(), t);
    bool in_first = src.coin();
    // distance between the starts: below t they overlap, t is touching
    size_t dist = src.weighted({3, 2, 2}) == 0 ? t : src.coin() ? t + src.below(40) : src.below(t + 1);
    size_t before = src.below(20), after = src.below(20);
    size_t lo = before, hi = before + dist, n = hi + t + after;
    size_t ip = in_first ? lo : hi, op = in_first ? hi : lo;
    Bytes area(n);
    src.fill(area.data(), n);
    memcpy(&area[ip], data.data(), t);
    Guarded g(n);
    memcpy(g.data(), area.data(), n);
    // the area is one buffer with two offsets, or two exact buffers
    bool offsets = src.coin();
    sa_buffer bi = offsets ? clear_buf(g.data(), ip + t, ip) : clear_buf(g.data() + ip, t, 0);
    sa_buffer bo = offsets ? clear_buf(g.data(), op + t, op) : clear_buf(g.data() + op, t, 0);
    Exact iv(l.iv);
    sa_sample s = {iv.p, iv.n, l.crypt, l.skip, l.sub.size(), l.sub.data(), o.h, &bo, &bi};
    sa_status st = c.cenc(1, &s);
    Bytes want = ref_cenc(o.ctr, o.key, l, data), got = g.get(0, n);
    pbt::trace("%s, input at %zu, output at %zu: %s", show(o.ctr, l).c_str(), ip, op, sname(st));
    bool disjoint = dist >= t;
    REQUIRE(!disjoint || st == SA_STATUS_OK, "[refused] input at %zu and output at %zu share no byte of %zu but gave %s", ip, op, t, sname(st));
    Bytes exp = area;
    if (st == SA_STATUS_OK) memcpy(&exp[op], want.data(), t);
    // overlapping buffers may be refused; what they give when accepted is judged by the output alone
    if (disjoint || st != SA_STATUS_OK) REQUIRE(got == exp, "memory outside the output changed or the plaintext is wrong");
    else REQUIRE(!memcmp(&got[op], want.data(), t), "overlapping buffers were accepted and gave a wrong plaintext");
    REQUIRE(g.intact(), "bytes outside the area were written");
    pbt::label("%s/%s", disjoint ? dist == t ? "touching" : "apart" : "overlapping", sname(st));
    if (dist <= t) pbt::nontrivial();
}
