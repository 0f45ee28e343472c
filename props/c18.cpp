// C18: whatever is given as a key container, import and unwrap refuse it or yield a working key, without any memory error,
// leak, hang or dependence on uninitialised memory, and the session stays usable.
#include "container.hpp"
#include "ops.hpp"
#include <openssl/err.h>
using namespace sec;
typedef std::function<sa_status(const Caller&, sa_key*)> Import;
static void usable(const Caller& c) {
    Bytes b(16, 7), d(32);
    sa_rights r = rights_all();
    sa_key k = INVALID_HANDLE;
    sa_import_parameters_symmetric p = {&r};
    REQUIRE(c.key_import(&k, SA_KEY_FORMAT_SYMMETRIC_BYTES, b.data(), 16, &p) == SA_STATUS_OK, "the session cannot import a key afterwards");
    REQUIRE(key_digest(c, k) == ref_digest(SA_DIGEST_ALGORITHM_SHA256, b), "the session does not work afterwards");
    REQUIRE(c.key_release(k) == SA_STATUS_OK, "the session cannot release a key afterwards");
}
// One import under three contents of fresh heap memory and of the stack. What comes out must not depend on them, nothing
// may be left allocated, and the key, if there is one, must work.
static bool examine(const Caller& c, const Import& f, bool deep) {
    static const struct { int fill; uint64_t stack; } RUN[] = {{0, 0}, {0xff, ~0ULL}, {0x41, 36}, {0x33, 16}, {0x01, 1}};
    std::string first;
    bool ok = false;
    int leaking = 0;
    std::string report;
    for (int i = 0; i < 5; i++) {
        if (i >= 3 && leaking != i - 1) break;
        ERR_clear_error();
        if (i) track_begin();
        g_fill = RUN[i].fill;
        prime_stack(RUN[i].stack);
        sa_key k = INVALID_HANDLE;
        sa_status s = f(c, &k);
        g_fill = -1;
        std::string out = sname(s);
        REQUIRE((s == SA_STATUS_OK) == (k != INVALID_HANDLE), "%s with key handle %lx", sname(s), k);
        if (s == SA_STATUS_OK) {
            ok = true;
            sa_header h;
            memset(&h, 0, sizeof h);
            REQUIRE(c.key_header(&h, k) == SA_STATUS_OK, "imported key has no header");
            out += "\n" + header_str(h);
            Bytes d(64), pub(3000);
            size_t n = 64, pn = 3000;
            s = c.key_digest(d.data(), &n, k, SA_DIGEST_ALGORITHM_SHA256);
            out += std::string("digest ") + sname(s) + (s == SA_STATUS_OK ? pbt::hex(d.data(), n) : "") + "\n";
            s = c.key_get_public(pub.data(), &pn, k);
            out += std::string("public ") + sname(s) + (s == SA_STATUS_OK ? pbt::hex(pub.data(), pn, 3000) : "") + "\n";
            if (deep && i == 0) fingerprint(c, k);
            REQUIRE(c.key_release(k) == SA_STATUS_OK, "imported key cannot be released");
        }
        OPENSSL_thread_stop();   // the error queue keeps messages
        if (i == 0) first = out;
        else
            REQUIRE(out == first, "the outcome depends on uninitialised memory:\n%s\nand\n%s", first.c_str(), out.c_str());
        if (i) {
            if (track_live()) {
                leaking++;
                report = track_report();
            }
            track_end();
        }
    }
    REQUIRE(leaking < 4, "memory is still allocated afterwards, every time:\n%s", report.c_str());
    usable(c);
    return ok;
}
// ---- JSON ----
static std::string hostile_string(Src& src) {
    switch (src.below(9)) {
        case 0: return b64(src.bytes(src.size(0, 70)));
        case 1: return b64(src.bytes(src.size(0, 70)), true, false);
        case 2: return std::string(src.size(0, 3000), src.pick({'A', '=', 'a', '/'}));
        case 3: {
            std::string s = b64(src.bytes(src.size(1, 40)));
            if (!s.empty()) s[src.below(s.size())] = src.pick({'=', '*', '-', '\x7f', ' '});
            return s;
        }
        case 4: return uuid_text(REE).substr(0, src.below(37));
        case 5: return src.pick<std::string>({"2023-11-14T22:13:20Z", "9999-12-31T23:59:59Z", "%Y-%m-%dT%H:%M:%SZ__", "2023-11-14T22:13:20Zx"});
        case 6: return src.pick<std::string>({"aesCbcPkcs5", "aesEcbNone", "AES-128", "ECC-P256", "RSA-1024", "unique", "common", "A128GCM", "HMAC-256"}).substr(0, src.size(0, 12));
        case 7: return src.pick<std::string>({"\\u0000", "\\u0000\\u0000AAAA", "\\ud83d\\ude00", "\\ud800", "\xc3\xa9", "\xff\xfe", "\\x", "\\\"", "A\\u0000B"});
        default: return b64(src.bytes(src.pick<size_t>({11, 12, 13, 15, 16, 17, 18, 19, 32, 33, 48})));
    }
}
static std::string hostile(Src& src, int depth = 0) {
    switch (src.below(depth > 4 ? 6 : 9)) {
        case 0: return src.pick<std::string>({"null", "true", "false", "nul", "", "NaN"});
        case 1: return src.pick<std::string>({"0", "1", "2", "3", "4", "5", "6", "-1", "255", "256", "260", "16", "32", "9223372036854775807", "-9223372036854775808", "9223372036854775808", "1e400", "1.5", "-0", "0x10", "01"});
        case 2: case 3: case 4: case 5: return quote(hostile_string(src));
        case 6: {
            std::string o = "[";
            size_t n = src.chance(1, 10) ? src.range(30, 40) : src.below(5);
            std::string same = src.coin() ? hostile(src, depth + 1) : "";
            for (size_t i = 0; i < n; i++) o += (i ? "," : "") + (same.empty() ? hostile(src, depth + 1) : same);
            return o + "]";
        }
        case 7: {
            std::string o = "{";
            for (size_t i = 0, n = src.below(4); i < n; i++) o += std::string(i ? "," : "") + quote(hostile_string(src)) + ":" + hostile(src, depth + 1);
            return o + "}";
        }
        default: return "[" + quote(uuid_text(TA_A)) + "," + hostile(src, depth + 1) + "]";
    }
}
// big documents: deep nesting, many members
static std::string big(Src& src) {
    size_t n = src.pick<size_t>({60, 130, 1000, 10000, 60000, 200000});
    std::string o;
    std::string open = src.pick<std::string>({"[", "{\"a\":", "[1,", "[[],", "{\"a\":[", "{\"contentKeyId\":\"x\",\"b\":"});
    switch (src.below(4)) {
        case 0:
            for (size_t i = 0; i < n; i++) o += open;
            if (src.coin()) {
                o += "1";
                for (size_t i = 0; i < n; i++)
                    for (size_t j = open.size(); j-- > 0;)
                        if (open[j] == '[') o += open[0] == '[' && j != 0 ? "" : "]";
                        else if (open[j] == '{') o += "}";
            }
            return o;
        case 1:
            o = "[";
            for (size_t i = 0; i < n; i++) o += i ? ",0" : "0";
            return o + "]";
        case 2:
            o = "{";
            for (size_t i = 0; i < n; i++) o += i ? ",\"a\":0" : "\"a\":0";
            return o + "}";
        default: {
            std::string v = "{\"entitledTaIds\":[";
            for (size_t i = 0; i < n / 8; i++) v += (i ? "," : "") + quote(uuid_text(REE));
            return v + "]}";
        }
    }
}
static std::string mutate_json(Src& src, Fields f) {
    for (size_t i = 0, n = src.range(1, 3); i < n && !f.empty(); i++) {
        size_t j = src.below(f.size());
        switch (src.below(6)) {
            case 0: f.erase(f.begin() + (long) j); break;
            case 1: f.push_back(f[j]); break;
            case 2: f.insert(f.begin(), {f[j].first, hostile(src)}); break;
            default: f[j].second = hostile(src); break;
        }
    }
    std::string o = to_json(f);
    if (src.chance(1, 8)) {
        size_t at = src.below(o.size() + 1);
        switch (src.below(3)) {
            case 0: o = o.substr(0, at); break;
            case 1: o.insert(at, 1, (char) src.any()); break;
            default: o[at % o.size()] = (char) src.any(); break;
        }
    }
    return o;
}
static Bytes mangle(Src& src, Bytes b) {
    for (size_t i = 0, n = src.range(1, 3); i < n; i++) {
        size_t at = src.below(b.size() + 1);
        switch (src.below(7)) {
            case 0: b.resize(at); break;
            case 1: b.insert(b.begin() + (long) at, src.pick<uint8_t>({'.', '=', 'A', 0, '-', '\n'})); break;
            case 2: if (at < b.size()) b[at] = (uint8_t) src.any(); break;
            case 3: if (at < b.size()) b[at] ^= (uint8_t) (1 << src.below(8)); break;
            case 4: if (at < b.size()) b.erase(b.begin() + (long) at); break;
            case 5: {
                size_t m = std::min<size_t>(src.range(1, 40), b.size() - std::min(at, b.size()));
                Bytes part(b.begin() + (long) at, b.begin() + (long) (at + m));
                b.insert(b.begin() + (long) src.below(b.size() + 1), part.begin(), part.end());
                break;
            }
            default: {
                Bytes x = src.bytes(src.range(1, 20));
                b.insert(b.begin() + (long) at, x.begin(), x.end());
            }
        }
    }
    return b;
}
static Bytes dotted(Src& src) {   // segments of arbitrary kinds
    Bytes o;
    for (size_t i = 0, n = src.below(6); i < n; i++) {
        if (i) o.push_back('.');
        Bytes s = str(src.coin() ? hostile_string(src) : b64(str(hostile(src)), true, src.coin()));
        o = cat({o, s});
    }
    return o;
}
static Caller who(Src& src) { return src.chance(1, 3) ? Caller::open(TA_A) : Caller::ree(); }

PROP(c18_typej, "the container passes the MAC check", 60, 100) {
    TypeJ t = gen_typej(src);
    Bytes text;
    bool auth = true;
    const char* kind = "fields";
    switch (src.weighted({10, 2, 2, 2, 1})) {
        case 0: text = typej_text(t.kmac, t.header, mutate_json(src, t.fields())); break;
        case 1: text = typej_text(t.kmac, t.header, hostile(src)); kind = "json"; break;
        case 2: text = mangle(src, t.text()); auth = false; kind = "text"; break;
        case 3: text = dotted(src); auth = false; kind = "dotted"; break;
        default: text = typej_text(t.kmac, t.header, big(src)); kind = "big"; break;
    }
    if (auth && src.chance(1, 10)) {   // an authentic payload that is not clean Base64
        std::string h = b64(str(t.header), true, false), p = hostile_string(src);
        if (p.find('.') == std::string::npos) {
            Bytes mac = ref_hmac(SA_DIGEST_ALGORITHM_SHA256, t.kmac, str(h + "." + p));
            text = str(h + "." + p + "." + b64(mac, true, src.coin()));
            kind = "base64";
        }
    }
    Caller c = who(src);
    sa_key km = c.must_import_sym(t.kmac, rights_all()), ke = c.must_import_sym(t.kenc, rights_all());
    sa_import_parameters_typej p = {ke, km};
    if (src.chance(1, 20)) (src.coin() ? p.kcipher : p.khmac) = src.coin() ? INVALID_HANDLE : (sa_key) src.below(300);
    pbt::trace("%s", pbt::hex(text, 400).c_str());
    Exact e(text);
    bool ok = examine(c, [&](const Caller& x, sa_key* k) { return x.key_import(k, SA_KEY_FORMAT_TYPEJ, e.p, e.n, &p); }, src.chance(1, 10));
    if (auth) pbt::nontrivial();
    pbt::label("%s/%s", kind, ok ? "imported" : "refused");
}
PROP(c18_soc, "the container has three segments that decode, a JSON header and a JSON payload", 60, 100) {
    Soc s = gen_soc(src);
    Bytes ct, tag, text;
    s.seal(ct, tag);
    const char* kind = "fields";
    bool near = true;
    switch (src.weighted({10, 2, 2, 2, 2, 1})) {
        case 0: text = Soc::join(s.header(), mutate_json(src, s.fields(ct)), tag); break;
        case 1: text = Soc::join(hostile(src), to_json(s.fields(ct)), tag); kind = "header"; break;
        case 2: text = Soc::join(s.header(), hostile(src), src.bytes(src.size(0, 40))); kind = "json"; break;
        case 3: text = mangle(src, s.text()); near = false; kind = "text"; break;
        case 4: text = dotted(src); near = false; kind = "dotted"; break;
        default: text = src.coin() ? Soc::join(big(src), to_json(s.fields(ct)), tag) : Soc::join(s.header(), big(src), tag); kind = "big"; break;
    }
    sa_import_parameters_soc p;
    memset(&p, 0, sizeof p);
    p.length[0] = (uint8_t) (sizeof p >> 8);
    p.length[1] = (uint8_t) sizeof p;
    p.version = 2;
    bool with = src.chance(1, 3);
    if (with && src.coin()) {
        size_t n = src.below(sizeof p + 1);
        p.length[0] = (uint8_t) (n >> 8);
        p.length[1] = (uint8_t) n;
    }
    Caller c = who(src);
    pbt::trace("%s", pbt::hex(text, 400).c_str());
    Exact e(text);
    Exact pe(Bytes((uint8_t*) &p, (uint8_t*) &p + (with ? std::max<size_t>(2, p.length[0] * 256U + p.length[1]) : sizeof p)));
    bool ok = examine(c, [&](const Caller& x, sa_key* k) { return x.key_import(k, SA_KEY_FORMAT_SOC, e.p, e.n, with ? pe.p : nullptr); }, src.chance(1, 10));
    if (near) pbt::nontrivial();
    pbt::label("%s/%s", kind, ok ? "imported" : "refused");
}
PROP(c18_exported, "the container keeps the size and layout of an exported key", 60, 100) {
    Caller c = who(src);
    Mat m = src.coin() ? mat_sym(src, src.size(16, 64)) : src.coin() ? mat_ec(src, ALL_CURVES[src.below(9)]) : mat_rsa(src, 128);
    sa_key k = must_import(c, m, rights_all());
    Bytes good(4000);
    size_t n = good.size();
    REQUIRE(c.key_export(good.data(), &n, nullptr, 0, k) == SA_STATUS_OK, "harness: export");
    good.resize(n);
    Bytes b = good;
    const char* kind = "edited";
    switch (src.below(4)) {
        case 0: b = mangle(src, b); kind = "mangled"; break;
        case 1: b = src.bytes(src.coin() ? n : src.size(0, 2 * n)); kind = "random"; break;
        default: {   // edit a field: 2, 4 or 8 bytes
            size_t w = src.pick<size_t>({1, 2, 4, 8}), at = src.coin() ? 16 + src.below(sizeof(sa_header)) : src.below(n - 8);
            if (src.chance(1, 3)) at = 16 + sizeof(sa_header) + src.below(24);
            uint64_t v = src.pick<uint64_t>({0, ~0ULL, 1, 0x7fffffffffffffffULL, 0x8000000000000000ULL, 0xffff, 256, n, n + 1});
            for (size_t i = 0; i < w && at + i < b.size(); i++) b[at + i] = (uint8_t) (v >> (8 * i));
        }
    }
    if (src.chance(1, 6)) b.resize(src.below(b.size() + 1));
    Exact e(b);
    bool ok = examine(c, [&](const Caller& x, sa_key* out) { return x.key_import(out, SA_KEY_FORMAT_EXPORTED, e.p, e.n, nullptr); }, false);
    if (b.size() == n) pbt::nontrivial();
    pbt::label("%s/%s", kind, ok ? "imported" : "refused");
}
// ---- DER ----
struct Tlv {
    size_t at, head, len;
};
static void der_scan(const Bytes& b, size_t from, size_t to, std::vector<Tlv>& v, int depth) {
    while (from + 2 <= to && depth < 8) {
        size_t h = 2, n = b[from + 1];
        if (n & 0x80) {
            size_t k = n & 0x7f;
            if (k == 0 || k > 3 || from + 2 + k > to) return;
            n = 0;
            for (size_t i = 0; i < k; i++) n = n << 8 | b[from + 2 + i];
            h += k;
        }
        if (from + h + n > to) return;
        v.push_back({from, h, n});
        if ((b[from] & 0x20) || b[from] == 4 || b[from] == 3) der_scan(b, from + h + (b[from] == 3), from + h + n, v, depth + 1);
        from += h + n;
    }
}
static Bytes der_head(uint8_t tag, size_t n) {
    if (n < 128) return {tag, (uint8_t) n};
    if (n < 256) return {tag, 0x81, (uint8_t) n};
    return {tag, 0x82, (uint8_t) (n >> 8), (uint8_t) n};
}
// replaces a node's bytes and repairs the lengths of everything around it
static Bytes der_replace(const Bytes& b, const std::vector<Tlv>& v, const Tlv& t, const Bytes& with) {
    Bytes cur = with;
    size_t from = t.at, to = t.at + t.head + t.len;
    for (size_t i = v.size(); i-- > 0;) {
        const Tlv& p = v[i];
        size_t pe = p.at + p.head + p.len;
        if (p.at < from && pe >= to && p.at + p.head <= from) {
            Bytes body = cat({Bytes(b.begin() + (long) (p.at + p.head), b.begin() + (long) from), cur, Bytes(b.begin() + (long) to, b.begin() + (long) pe)});
            cur = cat({der_head(b[p.at], body.size()), body});
            from = p.at;
            to = pe;
        }
    }
    return cat({Bytes(b.begin(), b.begin() + (long) from), cur, Bytes(b.begin() + (long) to, b.end())});
}
static Bytes mutate_der(Src& src, Bytes b) {
    for (size_t i = 0, n = src.range(1, 2); i < n; i++) {
        std::vector<Tlv> v;
        der_scan(b, 0, b.size(), v, 0);
        if (v.empty()) return mangle(src, b);
        Tlv t = v[src.below(v.size())];
        Bytes body(b.begin() + (long) (t.at + t.head), b.begin() + (long) (t.at + t.head + t.len));
        uint8_t tag = b[t.at];
        Bytes node = cat({der_head(tag, body.size()), body});
        switch (src.below(9)) {
            case 0: b = der_replace(b, v, t, {}); break;
            case 1: b = der_replace(b, v, t, cat({node, node})); break;
            case 2: b = der_replace(b, v, t, cat({der_head(src.pick<uint8_t>({2, 3, 4, 5, 6, 0x30, 0x31, 0xa0, 0xa1, 0, 1}), body.size()), body})); break;
            case 3: {
                Bytes w = src.bytes(src.coin() ? body.size() : src.size(0, 70));
                b = der_replace(b, v, t, cat({der_head(tag, w.size()), w}));
                break;
            }
            case 4: {
                if (!body.empty()) body[src.below(body.size())] ^= (uint8_t) (1 << src.below(8));
                b = der_replace(b, v, t, cat({der_head(tag, body.size()), body}));
                break;
            }
            case 5: {
                if (src.coin()) body.insert(body.begin(), (uint8_t) (src.coin() ? 0 : src.any()));
                else if (!body.empty()) body.erase(body.begin());
                b = der_replace(b, v, t, cat({der_head(tag, body.size()), body}));
                break;
            }
            case 6: b[t.at + 1] = src.pick<uint8_t>({0, 0x80, 0x84, 0xff, 0x7f, (uint8_t) (b[t.at + 1] + 1), (uint8_t) (b[t.at + 1] - 1)}); break;
            case 7: {
                Bytes z(body.size(), src.pick<uint8_t>({0, 0xff, 1}));
                b = der_replace(b, v, t, cat({der_head(tag, z.size()), z}));
                break;
            }
            default: b = mangle(src, b); break;
        }
    }
    return b;
}
PROP(c18_asymmetric, "the bytes are an edited PKCS#8 structure that still starts as one", 60, 50) {
    bool rsa = src.chance(2, 5);
    sa_elliptic_curve curve = ALL_CURVES[src.below(9)];
    Mat m = rsa ? mat_rsa(src, src.chance(3, 4) ? 128 : 256) : mat_ec(src, curve);
    Bytes b = src.chance(1, 12) ? m.pub() : m.clear;
    if (src.chance(1, 8)) b = src.bytes(src.size(0, 300));
    else if (src.chance(1, 4)) b = mangle(src, b);
    else if (src.chance(11, 12)) b = mutate_der(src, b);
    sa_elliptic_curve as = src.chance(5, 6) ? curve : src.coin() ? ALL_CURVES[src.below(9)] : (sa_elliptic_curve) src.pick<int>({9, 255, -1, 1000});
    bool as_rsa = src.chance(11, 12) ? rsa : !rsa;
    Caller c = who(src);
    sa_rights r = rights_all();
    pbt::trace("%s", pbt::hex(b, 300).c_str());
    bool unwrap = src.coin();
    Exact e(b);
    bool ok;
    if (!unwrap) {
        ok = examine(c, [&](const Caller& x, sa_key* k) {
            if (as_rsa) {
                sa_import_parameters_rsa_private_key_info p = {&r};
                return x.key_import(k, SA_KEY_FORMAT_RSA_PRIVATE_KEY_INFO, e.p, e.n, &p);
            }
            sa_import_parameters_ec_private_bytes p = {&r, as};
            return x.key_import(k, SA_KEY_FORMAT_EC_PRIVATE_BYTES, e.p, e.n, &p);
        }, src.chance(1, 2));
    } else {
        Bytes kek = src.bytes(16), iv = src.bytes(16);
        sa_key w = c.must_import_sym(kek, r);
        bool ctr = src.coin();
        Bytes ct = ctr ? aes_ctr(kek, iv, b) : aes_cbc(kek, iv, pkcs7_pad(b), true);
        Exact x2(ct);
        sa_type_parameters tp;
        memset(&tp, 0, sizeof tp);
        sa_unwrap_type_parameters_ec ec = {as};
        sa_unwrap_parameters_aes_cbc pc = {iv.data(), 16};
        sa_unwrap_parameters_aes_ctr pt = {iv.data(), 16};
        ok = examine(c, [&](const Caller& x, sa_key* k) {
            return x.key_unwrap(k, &r, as_rsa ? SA_KEY_TYPE_RSA : SA_KEY_TYPE_EC, as_rsa ? nullptr : &ec,
                    ctr ? SA_CIPHER_ALGORITHM_AES_CTR : SA_CIPHER_ALGORITHM_AES_CBC_PKCS7, ctr ? (void*) &pt : (void*) &pc, w, x2.p, x2.n);
        }, src.chance(1, 2));
    }
    if (b.size() > 4 && b[0] == 0x30) pbt::nontrivial();
    pbt::label("%s/%s/%s", rsa ? "rsa" : "ec", unwrap ? "unwrap" : "import", ok ? "accepted" : "refused");
}
PROP(c18_parameters, "exactly one argument of an otherwise good import is not a good one", 60, 200) {
    Caller c = who(src);
    sa_rights r = rights_all();
    Mat m = src.coin() ? mat_sym(src, src.size(16, 512)) : src.coin() ? mat_ec(src, ALL_CURVES[src.below(9)]) : mat_rsa(src, 128);
    Bytes b = m.clear;
    sa_key_format f = m.type == SA_KEY_TYPE_SYMMETRIC ? SA_KEY_FORMAT_SYMMETRIC_BYTES : m.type == SA_KEY_TYPE_EC ? SA_KEY_FORMAT_EC_PRIVATE_BYTES : SA_KEY_FORMAT_RSA_PRIVATE_KEY_INFO;
    const sa_rights* rp = &r;
    sa_elliptic_curve curve = m.curve;
    bool null_par = false, null_key = false, null_in = false;
    size_t n = b.size();
    const char* what;
    switch (src.below(9)) {
        case 0: rp = nullptr; what = "rights"; break;
        case 1: null_par = true; what = "parameters"; break;
        case 2: null_key = true; what = "key"; break;
        case 3: null_in = true; what = "in"; break;
        case 4: n = src.below(b.size()); if (m.type == SA_KEY_TYPE_SYMMETRIC && n >= 16) n = src.below(16); what = "length"; break;
        case 5: f = (sa_key_format) src.pick<int>({7, 8, 255, -1, 0x7fffffff, 0x40000000}); what = "format"; break;
        case 6: memset(r.id, 'x', sizeof r.id); what = "id"; break;
        case 7: if (m.type == SA_KEY_TYPE_SYMMETRIC) b = src.bytes(src.coin() ? 513 : src.range(513, 5000)); else b = cat({b, src.bytes(src.range(1, 4000))}); n = b.size(); what = "long"; break;
        default:
            if (m.type != SA_KEY_TYPE_EC) pbt::discard();
            do curve = (sa_elliptic_curve) src.pick<int>({9, 10, 255, -1, 0x7fffffff, 0, 1, 2, 5, 6});
            while (curve == m.curve);
            what = "curve";
            break;
    }
    b.resize(n);
    Exact e(b);
    sa_import_parameters_symmetric ps = {rp};
    sa_import_parameters_ec_private_bytes pe = {rp, curve};
    sa_import_parameters_rsa_private_key_info pr = {rp};
    void* p = null_par ? nullptr : m.type == SA_KEY_TYPE_SYMMETRIC ? (void*) &ps : m.type == SA_KEY_TYPE_EC ? (void*) &pe : (void*) &pr;
    pbt::trace("%s of %s", what, m.show().c_str());
    bool ok;
    if (null_key) {
        ok = c.key_import(nullptr, f, e.p, e.n, p) == SA_STATUS_OK;
        usable(c);
    } else
        ok = examine(c, [&](const Caller& x, sa_key* k) { return x.key_import(k, f, null_in ? nullptr : e.p, e.n, p); }, true);
    if (strcmp(what, "long") && strcmp(what, "length")) REQUIRE(!ok, "import succeeded with a bad %s", what);
    pbt::nontrivial();
    pbt::label("%s/%s", what, ok ? "accepted" : "refused");
}
