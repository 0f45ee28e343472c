// Models of the two external key containers, and their encoders.
#pragma once
#include "wrap.hpp"
#include <openssl/pkcs12.h>
extern "C" {
#include "common.h"
#include "pkcs12.h"
}
namespace sec {
struct RootKey {
    Bytes key;
    std::string name;
};
// Secrets of a keystore, read with OpenSSL's own secret-bag accessors (not with the repository's loader).
inline std::vector<RootKey> read_keystore(const char* file, const char* password) {
    std::vector<RootKey> out;
    FILE* f = fopen(file, "re");
    if (!f) pbt::fail("harness: no keystore %s", file);
    PKCS12* p12 = d2i_PKCS12_fp(f, nullptr);
    fclose(f);
    STACK_OF(PKCS7)* safes = p12 ? PKCS12_unpack_authsafes(p12) : nullptr;
    for (int i = 0; i < sk_PKCS7_num(safes); i++) {
        PKCS7* p7 = sk_PKCS7_value(safes, i);
        STACK_OF(PKCS12_SAFEBAG)* bags =
                OBJ_obj2nid(p7->type) == NID_pkcs7_data ? PKCS12_unpack_p7data(p7) : PKCS12_unpack_p7encdata(p7, password, -1);
        for (int j = 0; j < sk_PKCS12_SAFEBAG_num(bags); j++) {
            PKCS12_SAFEBAG* bag = sk_PKCS12_SAFEBAG_value(bags, j);
            const ASN1_TYPE* o = PKCS12_SAFEBAG_get0_bag_obj(bag);
            char* name = PKCS12_get_friendlyname(bag);
            if (o && o->type == V_ASN1_OCTET_STRING && name) {
                X509_SIG* sig = (X509_SIG*) ASN1_item_unpack(o->value.octet_string, ASN1_ITEM_rptr(X509_SIG));
                PKCS8_PRIV_KEY_INFO* pi = sig ? PKCS8_decrypt(sig, password, -1) : nullptr;
                const unsigned char* k;
                int n;
                if (pi && PKCS8_pkey_get0(nullptr, &k, &n, nullptr, pi) == 1) {
                    RootKey r;
                    r.key.assign(k, k + n);
                    r.name = name;
                    out.push_back(r);
                }
                PKCS8_PRIV_KEY_INFO_free(pi);
                X509_SIG_free(sig);
            }
            OPENSSL_free(name);
        }
        sk_PKCS12_SAFEBAG_pop_free(bags, PKCS12_SAFEBAG_free);
    }
    sk_PKCS7_pop_free(safes, PKCS7_free);
    PKCS12_free(p12);
    return out;
}
// The root secrets provisioned by the shipped keystore.
inline const RootKey& root_key(bool common) {
    static RootKey k[2];
    if (k[0].key.empty()) {
        const char* pw = getenv("ROOT_KEYSTORE_PASSWORD");
        for (auto& r : read_keystore(getenv("ROOT_KEYSTORE"), pw ? pw : DEFAULT_ROOT_KEYSTORE_PASSWORD))
            if (k[r.name == COMMON_ROOT_NAME].key.empty()) k[r.name == COMMON_ROOT_NAME] = r;
        if (k[0].key.empty() || k[1].key.empty()) pbt::fail("harness: root keys");
    }
    return k[common];
}
inline Bytes ladder(bool common, const Bytes& c1, const Bytes& c2, const Bytes& c3) {
    Bytes k = aes_ecb(root_key(common).key, c1, false);
    k = aes_ecb(k, c2, false);
    return aes_ecb(k, c3, false);
}
inline Bytes str(const std::string& s) { return Bytes(s.begin(), s.end()); }

typedef std::vector<std::pair<std::string, std::string>> Fields;   // name, JSON text of the value
inline std::string* field(Fields& f, const std::string& n) {
    for (auto& p : f)
        if (p.first == n) return &p.second;
    return nullptr;
}
inline std::string quote(const std::string& s) { return "\"" + s + "\""; }
inline std::string quote(const Bytes& b) { return quote(b64(b)); }
inline std::string to_json(const Fields& f) {
    std::string o = "{";
    for (size_t i = 0; i < f.size(); i++) o += std::string(i ? "," : "") + "\"" + f[i].first + "\":" + f[i].second;
    return o + "}";
}
// The same object written differently: shuffled fields, unknown extra fields, white space, escapes inside strings.
inline std::string render(Src& src, Fields f, bool* plain = nullptr) {
    auto ws = [&]() -> std::string { return src.chance(1, 6) ? src.pick<std::string>({" ", "\n", "\t  ", " \r\n "}) : ""; };
    bool style = src.coin();
    if (plain) *plain = !style;
    if (!style) return to_json(f);
    for (size_t i = f.size(); i > 1; i--)
        if (src.coin()) std::swap(f[i - 1], f[src.below(i)]);
    for (size_t i = 0, n = src.below(4); i < n; i++)
        f.insert(f.begin() + (long) src.below(f.size() + 1),
                {src.pick<std::string>({"x", "", "contentKe", "contentKeyIdd", "ivv", "cc", "c4x", "ALG", "CONTENTKEYID"}) + std::to_string(src.below(3)),
                        src.pick<std::string>({"1", "-3", "1.5e3", "true", "null", "[]", "{}", "\"\"", "[1,[2,{\"iv\":3}],\"x\"]",
                                "{\"contentKeyUsage\":2,\"keyUsage\":[2]}", "\"\\n\\\"\""})});
    std::string o = ws() + "{";
    for (size_t i = 0; i < f.size(); i++) {
        std::string v;
        bool in = false;
        for (size_t j = 0; j < f[i].second.size(); j++) {
            char c = f[i].second[j];
            if (c == '\\') {
                v += c;
                v += f[i].second[++j];
                continue;
            }
            if (c == '"') in = !in;
            else if (in && c == '/' && src.coin()) {
                v += "\\/";
                continue;
            } else if (in && src.chance(1, 40)) {
                char b[8];
                snprintf(b, sizeof b, src.coin() ? "\\u%04x" : "\\u%04X", (unsigned char) c);
                v += b;
                continue;
            } else if (!in && (c == ',' || c == '[' || c == ']')) {
                v += ws() + c + ws();
                continue;
            }
            v += c;
        }
        o += std::string(i ? "," : "") + ws() + "\"" + f[i].first + "\"" + ws() + ":" + ws() + v + ws();
    }
    return o + "}" + ws();
}
inline void drop(Fields& f, const std::string& n) {
    for (size_t i = 0; i < f.size(); i++)
        if (f[i].first == n) {
            f.erase(f.begin() + (long) i);
            return;
        }
}
// A JSON value of some other type than the one named ("s" string, "i" integer, "a" array).
inline std::string wrong_type(Src& src, char t) {
    std::vector<std::string> v = {"null", "true", "1.5", "{}", "{\"a\":1}"};
    if (t != 's') v.insert(v.end(), {"\"\"", "\"1\"", "\"abcdefgh\"", "\"" + std::string(36, 'a') + "\""});
    if (t != 'i') v.insert(v.end(), {"0", "1", "5", "-7"});
    if (t != 'a') v.insert(v.end(), {"[]", "[1]", "[\"AAAA\"]"});
    return v[src.below(v.size())];
}
inline std::string uuid_text(const sa_uuid& u, bool upper = false) {
    std::string o;
    char b[4];
    for (int i = 0; i < 16; i++) {
        if (i == 4 || i == 6 || i == 8 || i == 10) o += '-';
        snprintf(b, sizeof b, upper ? "%02X" : "%02x", u.id[i]);
        o += b;
    }
    return o;
}
inline std::string iso8601(int64_t t) {
    char b[64];
    struct tm tm;
    gmtime_r(&t, &tm);
    strftime(b, sizeof b, "%Y-%m-%dT%H:%M:%SZ", &tm);
    return b;
}
// ---- TypeJ ----
inline Bytes typej_text(const Bytes& mac_key, const std::string& header, const std::string& payload) {
    std::string s = b64(str(header), true, false) + "." + b64(str(payload), true, false);
    Bytes mac = ref_hmac(SA_DIGEST_ALGORITHM_SHA256, mac_key, str(s));
    return str(s + "." + b64(mac, true, false));
}
struct TypeJ {
    int version = 2;               // 1, 2, 3; 1 may leave the version field out
    bool version_field = true;
    Bytes kmac, kenc, content;
    sa_cipher_algorithm alg = SA_CIPHER_ALGORITHM_AES_ECB;
    Bytes iv;
    std::string id;
    std::vector<int> rights;
    int usage = 1;                 // 1 data, 2 key, 0 both (3 is taken as both as well)
    bool cacheable = false;
    int64_t not_before = 0, not_on_or_after = 0;
    bool has_tas = false;
    std::vector<sa_uuid> tas;
    bool upper = false;
    std::string header = "{\"kid\":\"a\",\"alg\":\"HS256\"}";
    Bytes encrypted() const {
        Bytes p = content;
        bool pad = alg == SA_CIPHER_ALGORITHM_AES_ECB_PKCS7 || alg == SA_CIPHER_ALGORITHM_AES_CBC_PKCS7;
        if (pad) p = pkcs7_pad(p);
        if (version == 1 || alg == SA_CIPHER_ALGORITHM_AES_ECB || alg == SA_CIPHER_ALGORITHM_AES_ECB_PKCS7) return aes_ecb(kenc, p, true);
        return aes_cbc(kenc, iv, p, true);
    }
    Fields fields() const {
        Fields f;
        if (version_field || version != 1) f.push_back({"contentKeyContainerVersion", std::to_string(version)});
        f.push_back({"contentKeyId", quote(id)});
        Bytes r(rights.begin(), rights.end());
        f.push_back({"contentKeyRights", quote(r)});
        f.push_back({"contentKeyCacheable", cacheable ? "true" : "false"});
        f.push_back({"contentKeyUsage", std::to_string(usage)});
        f.push_back({"contentKeyNotBefore", quote(iso8601(not_before))});
        f.push_back({"contentKeyNotOnOrAfter", quote(iso8601(not_on_or_after))});
        f.push_back({"contentKey", quote(encrypted())});
        if (version != 1) {
            static const char* n[] = {"aesEcbNone", "aesEcbPkcs5", "aesCbcNone", "aesCbcPkcs5"};
            f.push_back({"contentKeyLength", std::to_string(content.size())});
            f.push_back({"contentKeyTransportAlgorithm", quote(std::string(n[alg]))});
            if (!iv.empty()) f.push_back({"contentKeyTransportIv", quote(iv)});
        }
        if (has_tas) {
            std::string a = "[";
            for (size_t i = 0; i < tas.size(); i++) a += (i ? "," : "") + quote(uuid_text(tas[i], upper));
            f.push_back({"entitledTaIds", a + "]"});
        }
        return f;
    }
    Bytes text() const { return typej_text(kmac, header, to_json(fields())); }
    sa_rights expected() const {
        sa_rights r;
        memset(&r, 0, sizeof r);
        memcpy(r.id, id.data(), std::min<size_t>(id.size(), 63));
        bool svp = false, analog = false, cgmsa = false;
        for (int x : rights) {
            if (x == 1) svp = true;
            if (x == 2) r.usage_flags |= bit(SA_USAGE_FLAG_ALLOWED_DIGITAL_DTCP);
            if (x == 3) r.usage_flags |= bit(SA_USAGE_FLAG_ALLOWED_DIGITAL_HDCP14);
            if (x == 4) r.usage_flags |= bit(SA_USAGE_FLAG_ALLOWED_DIGITAL_HDCP22);
            if (x == 5) analog = true;
            if (x == 8) cgmsa = true;
        }
        if (!svp) r.usage_flags |= bit(SA_USAGE_FLAG_SVP_OPTIONAL);
        if (analog) r.usage_flags |= bit(SA_USAGE_FLAG_ALLOWED_ANALOG_CGMSA) | (cgmsa ? 0 : bit(SA_USAGE_FLAG_ALLOWED_ANALOG_UNPROTECTED));
        uint64_t data = bit(SA_USAGE_FLAG_DECRYPT) | bit(SA_USAGE_FLAG_ENCRYPT) | bit(SA_USAGE_FLAG_SIGN) | bit(SA_USAGE_FLAG_DERIVE);
        if (usage != 2) r.usage_flags |= data;
        if (usage != 1) r.usage_flags |= bit(SA_USAGE_FLAG_UNWRAP);
        if (cacheable) r.usage_flags |= bit(SA_USAGE_FLAG_CACHEABLE);
        r.not_before = (uint64_t) not_before;
        r.not_on_or_after = (uint64_t) not_on_or_after;
        if (!has_tas) r.allowed_tas[0] = ALL_MATCH;
        else
            for (size_t i = 0; i < tas.size() && i < 32; i++) r.allowed_tas[i] = tas[i];
        return r;
    }
};
inline TypeJ gen_typej(Src& src) {
    TypeJ t;
    t.version = (int) src.range(1, 3);
    t.version_field = src.coin();
    t.kmac = src.bytes(src.coin() ? 32 : src.size(16, 512));
    t.kenc = src.bytes(src.coin() ? 16 : 32);
    t.alg = (sa_cipher_algorithm) src.below(4);
    if (t.version == 1) t.alg = SA_CIPHER_ALGORITHM_AES_ECB;
    bool pad = t.alg == SA_CIPHER_ALGORITHM_AES_ECB_PKCS7 || t.alg == SA_CIPHER_ALGORITHM_AES_CBC_PKCS7;
    t.content = src.bytes(pad ? (src.coin() ? 16 : src.size(16, 512)) : 16 * (src.chance(2, 3) ? src.range(1, 2) : src.range(1, 32)));
    if (t.version != 1 && (t.alg == SA_CIPHER_ALGORITHM_AES_CBC || t.alg == SA_CIPHER_ALGORITHM_AES_CBC_PKCS7)) t.iv = src.bytes(16);
    size_t n = src.size(0, 63);
    static const char cs[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_. :/";
    for (size_t i = 0; i < n; i++) t.id += cs[src.below(sizeof cs - 1)];
    n = src.below(9);
    for (size_t i = 0; i < n; i++) t.rights.push_back(src.pick({0, 1, 2, 3, 4, 5, 8}));
    t.usage = (int) src.below(3);
    t.cacheable = src.coin();
    auto tm = [&](int64_t base) { return src.chance(3, 4) ? base : (int64_t) src.below(253402300799ULL); };
    t.not_before = tm(g_now - (int64_t) src.below(1000000));
    t.not_on_or_after = tm(g_now + 1 + (int64_t) src.below(1000000));
    t.has_tas = src.chance(2, 3) && t.version == 3 ? true : src.chance(1, 6);
    if (t.has_tas) {
        n = src.chance(1, 6) ? 32 : src.below(6);
        for (size_t i = 0; i < n; i++) {
            sa_uuid u = src.pick({REE, TA_A, TA_B, ALL_MATCH});
            if (src.chance(1, 3)) src.fill(&u, 16);
            t.tas.push_back(u);
        }
    }
    t.upper = src.chance(1, 4);
    return t;
}
// ---- SoC ----
struct SocType {
    const char* name;
    sa_key_type type;
    size_t size;
    int sub;   // 0 AES, 1 HMAC, 2 private, 3 chacha20
    sa_elliptic_curve curve;
};
inline const std::vector<SocType>& soc_types() {
    static const std::vector<SocType> t = {{"AES-128", SA_KEY_TYPE_SYMMETRIC, 16, 0, SA_ELLIPTIC_CURVE_NIST_P256},
            {"AES-256", SA_KEY_TYPE_SYMMETRIC, 32, 0, SA_ELLIPTIC_CURVE_NIST_P256}, {"HMAC-128", SA_KEY_TYPE_SYMMETRIC, 16, 1, SA_ELLIPTIC_CURVE_NIST_P256},
            {"HMAC-160", SA_KEY_TYPE_SYMMETRIC, 20, 1, SA_ELLIPTIC_CURVE_NIST_P256}, {"HMAC-256", SA_KEY_TYPE_SYMMETRIC, 32, 1, SA_ELLIPTIC_CURVE_NIST_P256},
            {"CHACHA20-256", SA_KEY_TYPE_SYMMETRIC, 32, 3, SA_ELLIPTIC_CURVE_NIST_P256}, {"RSA-1024", SA_KEY_TYPE_RSA, 128, 2, SA_ELLIPTIC_CURVE_NIST_P256},
            {"RSA-2048", SA_KEY_TYPE_RSA, 256, 2, SA_ELLIPTIC_CURVE_NIST_P256}, {"RSA-3072", SA_KEY_TYPE_RSA, 384, 2, SA_ELLIPTIC_CURVE_NIST_P256},
            {"RSA-4096", SA_KEY_TYPE_RSA, 512, 2, SA_ELLIPTIC_CURVE_NIST_P256}, {"ECC-P192", SA_KEY_TYPE_EC, 24, 2, SA_ELLIPTIC_CURVE_NIST_P192},
            {"ECC-P224", SA_KEY_TYPE_EC, 28, 2, SA_ELLIPTIC_CURVE_NIST_P224}, {"ECC-P256", SA_KEY_TYPE_EC, 32, 2, SA_ELLIPTIC_CURVE_NIST_P256},
            {"ECC-P384", SA_KEY_TYPE_EC, 48, 2, SA_ELLIPTIC_CURVE_NIST_P384}, {"ECC-P521", SA_KEY_TYPE_EC, 66, 2, SA_ELLIPTIC_CURVE_NIST_P521},
            {"ECC-ED25519", SA_KEY_TYPE_EC, 32, 2, SA_ELLIPTIC_CURVE_ED25519}, {"ECC-ED448", SA_KEY_TYPE_EC, 57, 2, SA_ELLIPTIC_CURVE_ED448},
            {"ECC-X25519", SA_KEY_TYPE_EC, 32, 2, SA_ELLIPTIC_CURVE_X25519}, {"ECC-X448", SA_KEY_TYPE_EC, 56, 2, SA_ELLIPTIC_CURVE_X448}};
    return t;
}
struct Soc {
    int version = 4;
    int root = 0;               // version 5: 0 absent, 1 UNIQUE, 2 COMMON
    SocType type = soc_types()[0];
    Mat mat;
    Bytes iv, c1, c2, c3;
    int usage = 1, dec_usage = 1;
    bool has_tas = false;
    std::vector<sa_uuid> tas;
    bool upper = false;
    std::string alg = "A128GCM";
    Bytes aad() const {
        Bytes a = str(alg);
        a.push_back((uint8_t) version);
        if (version >= 5 && root) {
            Bytes r = str(root == 1 ? "unique" : "common");
            a.insert(a.end(), r.begin(), r.end());
        }
        Bytes t = str(type.name);
        a.insert(a.end(), t.begin(), t.end());
        a.push_back((uint8_t) usage);
        if (usage == 2) a.push_back((uint8_t) dec_usage);
        a = cat({a, iv, c1, c2, c3});
        for (auto& u : tas) {
            Bytes x = str(uuid_text(u));
            a.insert(a.end(), x.begin(), x.end());
        }
        return a;
    }
    void seal(Bytes& ct, Bytes& tag) const { aead(true, ladder(version >= 5 && root == 2, c1, c2, c3), iv, aad(), mat.clear, true, ct, tag); }
    Fields fields(const Bytes& ct) const {
        Fields f;
        f.push_back({"containerVersion", std::to_string(version)});
        if (version >= 5 && root) f.push_back({"rootKeyType", quote(std::string(root == 1 ? "unique" : "common"))});
        f.push_back({"keyType", quote(std::string(type.name))});
        f.push_back({"encryptedKey", quote(ct)});
        f.push_back({"iv", quote(iv)});
        f.push_back({"keyUsage", std::to_string(usage)});
        if (usage == 2) f.push_back({"decryptedKeyUsage", std::to_string(dec_usage)});
        if (has_tas) {
            std::string a = "[";
            for (size_t i = 0; i < tas.size(); i++) a += (i ? "," : "") + quote(uuid_text(tas[i], upper));
            f.push_back({"entitledTaIds", a + "]"});
        }
        f.push_back({"c1", quote(c1)});
        f.push_back({"c2", quote(c2)});
        f.push_back({"c3", quote(c3)});
        return f;
    }
    static Bytes join(const std::string& header, const std::string& payload, const Bytes& tag) {
        return str(b64(str(header), true, false) + "." + b64(str(payload), true, false) + "." + b64(tag, true, false));
    }
    std::string header() const { return "{\"alg\":\"" + alg + "\"}"; }
    Bytes text() const {
        Bytes ct, tag;
        seal(ct, tag);
        return join(header(), to_json(fields(ct)), tag);
    }
    uint64_t flags(int u) const {
        uint64_t f = 0;
        bool ec = type.type == SA_KEY_TYPE_EC;
        if (u & 1) {
            f |= bit(SA_USAGE_FLAG_SIGN) | bit(SA_USAGE_FLAG_DERIVE);
            if (type.sub != 1 || u == 3) f |= bit(SA_USAGE_FLAG_DECRYPT) | bit(SA_USAGE_FLAG_ENCRYPT);
            if (ec) f |= bit(SA_USAGE_FLAG_KEY_EXCHANGE);
        }
        if (u & 2) f |= bit(SA_USAGE_FLAG_UNWRAP);
        return f;
    }
    sa_rights expected(const sa_import_parameters_soc* p = nullptr) const {
        sa_rights r;
        memset(&r, 0, sizeof r);
        if (p)
            for (int i = 0; i < 8; i++) r.id[i] = (char) (p->object_id >> (56 - 8 * i));
        r.not_on_or_after = UINT64_MAX;
        r.usage_flags = bit(SA_USAGE_FLAG_CACHEABLE) | 0x1fc0 | flags(usage);
        if (usage == 2) r.child_usage_flags = flags(dec_usage);
        if (tas.empty()) r.allowed_tas[0] = ALL_MATCH;
        for (size_t i = 0; i < tas.size() && i < 32; i++) r.allowed_tas[i] = tas[i];
        return r;
    }
};
inline Soc gen_soc(Src& src) {
    Soc s;
    s.version = src.chance(1, 2) ? 5 : src.chance(1, 8) ? (int) src.range(6, 255) : 4;
    if (s.version >= 5) s.root = (int) src.below(3);
    s.type = soc_types()[src.weighted({4, 4, 3, 3, 3, 3, 2, 2, 1, 1, 2, 2, 2, 2, 2, 2, 2, 2, 2})];
    if (s.type.type == SA_KEY_TYPE_SYMMETRIC) s.mat = mat_sym(src, s.type.size);
    else if (s.type.type == SA_KEY_TYPE_RSA) s.mat = mat_rsa(src, s.type.size);
    else s.mat = mat_ec(src, s.type.curve);
    s.iv = src.bytes(12);
    s.c1 = src.bytes(16);
    s.c2 = src.bytes(16);
    s.c3 = src.bytes(16);
    s.usage = (int) src.range(1, 3);
    if (s.type.sub == 1 && s.usage == 2) s.usage = 1;
    s.dec_usage = (int) src.range(1, 3);
    s.has_tas = src.coin();
    if (s.has_tas) {
        size_t n = src.chance(1, 6) ? 32 : src.below(6);
        for (size_t i = 0; i < n; i++) {
            sa_uuid u = src.pick({REE, TA_A, TA_B, ALL_MATCH});
            if (src.chance(1, 3)) src.fill(&u, 16);
            s.tas.push_back(u);
        }
    }
    s.upper = src.chance(1, 4);
    return s;
}
}  // namespace sec
