// C30: root keys come only from an intact, correctly unlocked keystore. Keystores are written by the harness with OpenSSL's
// PKCS#12 functions; what the loader returns is compared with what was put in.
#include "common.h"
#include "container.hpp"
#include "pkcs12.h"
#include "sec.hpp"
#include <cstring>
#include <openssl/err.h>
#include <openssl/pkcs12.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace sec;

namespace {
enum BagKind { GOOD, KEY_BAG, SHROUDED, OTHER_TYPE, GARBAGE, OTHER_PASSWORD, UNNAMED, NAME_TYPE, MUTATED, BAG_KINDS };
const char* BN[] = {"", " (plain key bag)", " (shrouded key bag)", " (secret bag holding another type)", " (secret bag holding garbage)",
        " (encrypted with another password)", " (no name)", " (name of another type)", " (bytes changed)"};
struct Entry {
    std::string name;
    Bytes key;
    BagKind kind = GOOD;
    int safe = 0;
};
struct Safe {
    int pbe = 0;               // 0: plain PKCS#7 data, else the NID of the encryption
    int oddity = 0;            // 1: a content type the loader does not know, 2: changed bytes
};
struct Store {
    std::vector<Entry> e;
    std::vector<Safe> safes;
    std::string password;
    int iter = 1, mac_iter = 1;
    const EVP_MD* md = EVP_sha256();
    Bytes der;
};

X509_SIG* seal(Src& src, const Bytes& key, const std::string& password, int iter) {
    PKCS8_PRIV_KEY_INFO* p8 = PKCS8_PRIV_KEY_INFO_new();
    unsigned char* k = (unsigned char*) OPENSSL_malloc(key.size() + 1);
    if (!key.empty()) memcpy(k, key.data(), key.size());
    PKCS8_pkey_set0(p8, OBJ_nid2obj(NID_aes_128_cbc), 0, V_ASN1_NULL, nullptr, k, (int) key.size());
    Bytes salt = src.bytes(8);
    X509_SIG* s;
    switch (src.below(3)) {
        case 0: s = PKCS8_encrypt(-1, EVP_aes_256_cbc(), password.c_str(), -1, salt.data(), 8, iter, p8); break;
        case 1: s = PKCS8_encrypt(-1, EVP_aes_128_cbc(), password.c_str(), -1, salt.data(), 8, iter, p8); break;
        default: s = PKCS8_encrypt(NID_pbe_WithSHA1And3_Key_TripleDES_CBC, nullptr, password.c_str(), -1, salt.data(), 8, iter, p8);
    }
    PKCS8_PRIV_KEY_INFO_free(p8);
    if (!s) pbt::fail("harness: PKCS8_encrypt");
    return s;
}
Bytes der_sig(X509_SIG* s) {
    unsigned char* p = nullptr;
    int n = i2d_X509_SIG(s, &p);
    Bytes b(p, p + n);
    OPENSSL_free(p);
    return b;
}
PKCS12_SAFEBAG* bag(Src& src, const Entry& e, const Store& st) {
    PKCS12_SAFEBAG* b = nullptr;
    if (e.kind == KEY_BAG) {
        PKCS8_PRIV_KEY_INFO* p8 = PKCS8_PRIV_KEY_INFO_new();
        unsigned char* k = (unsigned char*) OPENSSL_malloc(e.key.size() + 1);
        memcpy(k, e.key.data(), e.key.size());
        PKCS8_pkey_set0(p8, OBJ_nid2obj(NID_aes_128_cbc), 0, V_ASN1_NULL, nullptr, k, (int) e.key.size());
        b = PKCS12_SAFEBAG_create0_p8inf(p8);
    } else if (e.kind == SHROUDED)
        b = PKCS12_SAFEBAG_create0_pkcs8(seal(src, e.key, st.password, st.iter));
    else {
        Bytes v;
        int vtype = V_ASN1_OCTET_STRING;
        if (e.kind == GARBAGE) v = src.bytes(src.size(0, 200));
        else {
            X509_SIG* s = seal(src, e.key, e.kind == OTHER_PASSWORD ? st.password + "x" : st.password, st.iter);
            v = der_sig(s);
            X509_SIG_free(s);
        }
        if (e.kind == OTHER_TYPE) vtype = src.pick({V_ASN1_UTF8STRING, V_ASN1_PRINTABLESTRING, V_ASN1_BIT_STRING, V_ASN1_T61STRING, V_ASN1_IA5STRING});
        b = PKCS12_SAFEBAG_create_secret(NID_pkcs8ShroudedKeyBag, vtype, v.data(), (int) v.size());
        if (!b) b = PKCS12_SAFEBAG_create_secret(NID_pkcs8ShroudedKeyBag, V_ASN1_OCTET_STRING, (const unsigned char*) "x", 1);
    }
    if (!b) pbt::fail("harness: bag");
    if (e.kind == NAME_TYPE) {
        Bytes n = str(e.name);
        PKCS12_add1_attr_by_NID(b, NID_friendlyName, src.pick({V_ASN1_UTF8STRING, V_ASN1_OCTET_STRING, V_ASN1_INTEGER, V_ASN1_PRINTABLESTRING}), n.data(), (int) n.size());
    } else if (e.kind != UNNAMED) {
        if (src.coin()) PKCS12_add1_attr_by_NID(b, NID_localKeyID, V_ASN1_OCTET_STRING, (const unsigned char*) "Time 1656516239970", 18);
        if (PKCS12_add_friendlyname_utf8(b, e.name.c_str(), (int) e.name.size()) != 1) pbt::fail("harness: name");
    }
    return b;
}
void build(Src& src, Store& st) {
    STACK_OF(PKCS7)* safes = sk_PKCS7_new_null();
    for (size_t s = 0; s < st.safes.size(); s++) {
        STACK_OF(PKCS12_SAFEBAG)* bags = sk_PKCS12_SAFEBAG_new_null();
        for (auto& e : st.e)
            if (e.safe == (int) s) sk_PKCS12_SAFEBAG_push(bags, bag(src, e, st));
        PKCS7* p7;
        Bytes salt = src.bytes(8);
        if (st.safes[s].oddity == 1) {
            p7 = PKCS7_new();
            p7->type = OBJ_nid2obj(NID_id_smime_ct_compressedData);
            p7->d.other = ASN1_TYPE_new();
            ASN1_OCTET_STRING* o = ASN1_OCTET_STRING_new();
            ASN1_OCTET_STRING_set(o, (const unsigned char*) "abc", 3);
            ASN1_TYPE_set(p7->d.other, V_ASN1_OCTET_STRING, o);
        } else if (st.safes[s].pbe)
            p7 = PKCS12_pack_p7encdata(st.safes[s].pbe, st.password.c_str(), -1, salt.data(), 8, st.iter, bags);
        else
            p7 = PKCS12_pack_p7data(bags);
        if (!p7) pbt::fail("harness: authenticated safe");
        if (st.safes[s].oddity == 2 && !st.safes[s].pbe) {   // well-formed outside, anything inside
            ASN1_OCTET_STRING* o = p7->d.data;
            Bytes b(ASN1_STRING_get0_data(o), ASN1_STRING_get0_data(o) + ASN1_STRING_length(o));
            for (size_t i = 0, n = src.range(1, 3); i < n && !b.empty(); i++) {
                size_t at = src.below(b.size());
                switch (src.below(4)) {
                    case 0: b[at] ^= (uint8_t) (1 << src.below(8)); break;
                    case 1: b[at] = (uint8_t) src.below(256); break;
                    case 2: b[at] = src.pick({(uint8_t) 0x80, (uint8_t) 0xff, (uint8_t) 0x84, (uint8_t) 0xa0, (uint8_t) 0x04, (uint8_t) 0x00, (uint8_t) 0x30}); break;
                    default: b.resize(at);
                }
            }
            ASN1_OCTET_STRING_set(o, b.data(), (int) b.size());
        }
        sk_PKCS7_push(safes, p7);
        sk_PKCS12_SAFEBAG_pop_free(bags, PKCS12_SAFEBAG_free);
    }
    PKCS12* p = PKCS12_init(NID_pkcs7_data);
    Bytes salt = src.bytes(20);
    if (!p || !PKCS12_pack_authsafes(p, safes) || !PKCS12_set_mac(p, st.password.c_str(), -1, salt.data(), 20, st.mac_iter, st.md)) pbt::fail("harness: PKCS#12");
    unsigned char* out = nullptr;
    int n = i2d_PKCS12(p, &out);
    if (n <= 0) pbt::fail("harness: encoding");
    st.der.assign(out, out + n);
    OPENSSL_free(out);
    PKCS12_free(p);
    sk_PKCS7_pop_free(safes, PKCS7_free);
}
// the part of the file its integrity check covers
bool content(const Bytes& der, size_t* from, size_t* n) {
    const unsigned char* p = der.data();
    const unsigned char* end = p + der.size();
    long l;
    int tag, cls;
    auto get = [&] { return !(ASN1_get_object(&p, &l, &tag, &cls, end - p) & 0x80); };
    if (!get()) return false;             // PFX
    if (!get()) return false;             // version
    p += l;
    if (!get() || !get()) return false;   // ContentInfo, type
    p += l;
    if (!get() || !get()) return false;   // [0], OCTET STRING
    *from = (size_t) (p - der.data());
    *n = (size_t) l;
    return true;
}
// The same entries without an integrity check, or with one made by somebody without the password.
const char* remac(Src& src, Bytes& der, const Store& st) {
    const unsigned char* p = der.data();
    PKCS12* old = d2i_PKCS12(nullptr, &p, (long) der.size());
    STACK_OF(PKCS7)* safes = old ? PKCS12_unpack_authsafes(old) : nullptr;
    PKCS12* q = safes ? PKCS12_add_safes(safes, 0) : nullptr;
    if (!q) pbt::fail("harness: PKCS#12 without MAC");
    const char* what = "no MAC";
    const ASN1_OCTET_STRING* mac = nullptr;
    Bytes salt = src.bytes(20);
    switch (src.below(4)) {
        case 0: break;
        case 1:
            what = "MAC with another password";
            if (PKCS12_set_mac(q, (st.password + "x").c_str(), -1, salt.data(), 20, st.mac_iter, st.md) != 1) pbt::fail("harness: MAC");
            break;
        case 2:
            what = "MAC without a password";
            if (PKCS12_set_mac(q, src.coin() ? "" : nullptr, src.coin() ? 0 : -1, salt.data(), 20, st.mac_iter, st.md) != 1) pbt::fail("harness: MAC");
            break;
        default: {
            what = "MAC cut short";
            if (PKCS12_set_mac(q, st.password.c_str(), -1, salt.data(), 20, st.mac_iter, st.md) != 1) pbt::fail("harness: MAC");
            PKCS12_get0_mac(&mac, nullptr, nullptr, nullptr, q);
            Bytes m(ASN1_STRING_get0_data(mac), ASN1_STRING_get0_data(mac) + ASN1_STRING_length(mac));
            m.resize(src.below(m.size()));
            ASN1_STRING_set((ASN1_STRING*) mac, m.data(), (int) m.size());
        }
    }
    unsigned char* out = nullptr;
    int n = i2d_PKCS12(q, &out);
    if (n <= 0) pbt::fail("harness: encoding");
    der.assign(out, out + n);
    OPENSSL_free(out);
    PKCS12_free(q);
    PKCS12_free(old);
    sk_PKCS7_pop_free(safes, PKCS7_free);
    return what;
}
std::string gen_password(Src& src) {
    switch (src.below(4)) {
        case 0: return DEFAULT_ROOT_KEYSTORE_PASSWORD;
        case 1: {
            std::string s;
            for (size_t i = 0, n = src.size(1, 40); i < n; i++) s += (char) src.range(32, 126);
            return s;
        }
        case 2: return src.pick<std::string>({"a", "A", "p\xc3\xa4ssw\xc3\xb6rt", "\xe2\x82\xac", "with space "});
        default: return std::string(src.size(1, 100), 'x');
    }
}
std::string gen_name(Src& src) {
    static const char H[] = "0123456789abcdefABCDEF";
    std::string s;
    switch (src.below(6)) {
        case 0: return "fffffffffffffffe";
        case 1:
            for (size_t i = 0, n = src.range(1, 16); i < n; i++) s += H[src.below(22)];
            return s;
        case 2:
            for (size_t i = 0, n = src.size(1, 60); i < n; i++) s += (char) src.range(33, 126);
            return s == COMMON_ROOT_NAME ? "x" : s;
        case 3: return src.pick<std::string>({"commonroot2", "common", "Commonroot", "commonroo", "xcommonroot", "c", "commonroot "});
        case 4: return src.pick<std::string>({"ger\xc3\xa4t", "\xe2\x82\xac\xe2\x82\xac"});
        default: return std::string(src.range(14, 60), 'a');
    }
}
Bytes gen_secret(Src& src) {
    size_t n = src.pick({(size_t) 16, (size_t) 16, (size_t) 32, src.size(1, 64)});
    return src.bytes(n);
}
Store gen_store(Src& src) {
    Store st;
    st.password = gen_password(src);
    st.iter = (int) src.pick({1, 2, 100});
    st.mac_iter = (int) src.pick({1, 2, 1000});
    st.md = src.pick({EVP_sha256(), EVP_sha1(), EVP_sha384()});
    for (size_t i = 0, n = src.range(1, 3); i < n; i++) {
        Safe s;
        if (src.chance(1, 3)) s.pbe = src.pick({NID_pbe_WithSHA1And3_Key_TripleDES_CBC, NID_aes_256_cbc});
        st.safes.push_back(s);
    }
    for (size_t i = 0, n = src.range(1, 4); i < n; i++) {
        Entry e;
        e.name = src.chance(2, 5) ? COMMON_ROOT_NAME : gen_name(src);
        e.key = gen_secret(src);
        e.safe = (int) src.below(st.safes.size());
        st.e.push_back(e);
    }
    return st;
}
struct File {   // a file only this process has
    int fd;
    std::string path;
    explicit File(const Bytes& b) {
        fd = memfd_create("p12", MFD_CLOEXEC);
        if (fd < 0 || (!b.empty() && write(fd, b.data(), b.size()) != (ssize_t) b.size())) pbt::fail("harness: memfd");
        path = "/proc/self/fd/" + std::to_string(fd);
    }
    ~File() { close(fd); }
};
struct Env {
    std::string old_file, old_pw;
    bool had_pw;
    Env(const char* file, const char* pw) {
        old_file = getenv("ROOT_KEYSTORE") ? getenv("ROOT_KEYSTORE") : "";
        had_pw = getenv("ROOT_KEYSTORE_PASSWORD") != nullptr;
        if (had_pw) old_pw = getenv("ROOT_KEYSTORE_PASSWORD");
        setenv("ROOT_KEYSTORE", file, 1);
        if (pw) setenv("ROOT_KEYSTORE_PASSWORD", pw, 1);
        else unsetenv("ROOT_KEYSTORE_PASSWORD");
    }
    ~Env() {
        setenv("ROOT_KEYSTORE", old_file.c_str(), 1);
        if (had_pw) setenv("ROOT_KEYSTORE_PASSWORD", old_pw.c_str(), 1);
        else unsetenv("ROOT_KEYSTORE_PASSWORD");
    }
};
bool contains(const Bytes& hay, const Bytes& needle) {
    return needle.size() >= 4 && std::search(hay.begin(), hay.end(), needle.begin(), needle.end()) != hay.end();
}
struct Result {
    bool ok;
    Bytes key, keybuf;
    std::string name;
};
// Loads twice, the second time watching for memory that is not freed.
Result load(const Bytes& der, const char* password, bool common, size_t key_cap, size_t name_cap, bool missing = false) {
    File f(der);
    Env env(missing ? "/proc/self/fd/no such file" : f.path.c_str(), password);
    Result r;
    for (int i = 0; i < 2; i++) {
        Guarded key(key_cap), name(name_cap);
        Bytes ask = str(common ? COMMON_ROOT_NAME : "");
        ask.push_back(0);
        // the caller's request: the name of the common root, terminated where there is room
        for (size_t j = 0; j < ask.size() && j < name_cap; j++) name.data()[j] = ask[j];
        size_t kn = key_cap, nn = name_cap;
        OPENSSL_thread_stop();
        if (i) track_begin();
        r.ok = load_pkcs12_secret_key(key.data(), &kn, (char*) name.data(), &nn);
        if (i) {
            OPENSSL_thread_stop();
            size_t left = track_live();
            std::string rep = track_report();
            track_end();
            REQUIRE(left == 0, "loading (%s) left %zu blocks allocated:\n%s", r.ok ? "successful" : "failed", left, rep.c_str());
        }
        REQUIRE(key.intact(), "the key buffer of %zu bytes was overrun", key_cap);
        REQUIRE(name.intact(), "the name buffer of %zu bytes was overrun", name_cap);
        r.keybuf = key.get(0, key_cap);
        if (r.ok) {
            REQUIRE(kn <= key_cap, "a key of %zu bytes in a buffer of %zu", kn, key_cap);
            REQUIRE(nn <= name_cap, "a name of %zu bytes in a buffer of %zu", nn, name_cap);
            r.key = key.get(0, kn);
            Bytes n = name.get(0, nn);
            r.name.assign(n.begin(), n.end());
        }
    }
    return r;
}
std::string describe(const Store& st) {
    std::string o;
    for (size_t s = 0; s < st.safes.size(); s++) {
        o += st.safes[s].pbe ? "encrypted[" : st.safes[s].oddity == 1 ? "unknown type[" : st.safes[s].oddity == 2 ? "changed[" : "plain[";
        for (auto& e : st.e)
            if (e.safe == (int) s) o += " \"" + e.name + "\"" + BN[e.kind] + "=" + pbt::hex(e.key, 8);
        o += " ] ";
    }
    return o;
}
bool wants(const Entry& e, bool common) { return (e.name == COMMON_ROOT_NAME) == common; }
}  // namespace

PROP(c30_load, "several entries, or the file, password, request or buffer made the load fail", 30, 200) {
    Store st = gen_store(src);
    build(src, st);
    bool common = src.coin();
    bool use_default = st.password == DEFAULT_ROOT_KEYSTORE_PASSWORD && src.coin();
    pbt::trace("%s password \"%s\", %s requested", describe(st).c_str(), st.password.c_str(), common ? "common root" : "device root");
    bool present = false;
    for (auto& e : st.e) present |= wants(e, common);
    size_t key_cap = 64, name_cap = MAX_NAME_SIZE;
    std::string pw = st.password;
    Bytes der = st.der;
    bool must_fail = !present, missing = false;
    std::string what;
    size_t from, n;
    REQUIRE(content(der, &from, &n), "harness: structure");
    switch (src.weighted({4, 3, 4, 2, 1, 2, 1, 2})) {
        case 0: what = "as written"; break;
        case 1: {
            what = "wrong password";
            switch (src.below(5)) {
                case 0: pw += "x"; break;
                case 1: pw = ""; break;
                case 2: pw[src.below(pw.size())] ^= 1; break;
                case 3: pw.resize(pw.size() - 1); break;
                default: pw = "password01234568";
            }
            if (pw.find('\0') != std::string::npos) pw = "zz";
            use_default = false;
            must_fail = true;
            break;
        }
        case 2: {
            what = "content changed";
            size_t k = src.range(1, 3);
            for (size_t i = 0; i < k; i++) der[from + src.below(n)] ^= (uint8_t) src.range(1, 255);
            must_fail = der != st.der;
            break;
        }
        case 3: {
            what = "file changed anywhere";
            der[src.below(der.size())] ^= (uint8_t) (1 << src.below(8));
            must_fail = must_fail || !std::equal(der.begin() + (long) from, der.begin() + (long) (from + n), st.der.begin() + (long) from);
            break;
        }
        case 4:
            what = "truncated or missing";
            if (src.chance(1, 3)) missing = true;
            else der.resize(src.below(der.size()));
            must_fail = true;
            break;
        case 5: what = "small buffers";
            key_cap = src.pick({(size_t) 0, (size_t) 1, (size_t) 15, (size_t) 16, (size_t) 24, (size_t) 31, (size_t) 32});
            name_cap = src.pick({(size_t) 11, (size_t) 12, (size_t) 15, (size_t) 16, (size_t) 17, (size_t) MAX_NAME_SIZE});
            break;
        case 7: {
            what = remac(src, der, st);
            must_fail = true;
            break;
        }
        default: what = "bytes appended"; for (auto b : src.bytes(src.range(1, 20))) der.push_back(b);
    }
    // iteration counts in a changed file would only cost time
    Result r = load(der, use_default ? nullptr : pw.c_str(), common, key_cap, name_cap, missing);
    pbt::trace("%s: %s key %s name \"%s\"", what.c_str(), r.ok ? "loaded" : "failed", pbt::hex(r.key).c_str(), r.name.c_str());
    pbt::label("%s: %s", what.c_str(), r.ok ? "loaded" : "failed");
    if (!r.ok) {
        for (auto& e : st.e) REQUIRE(!contains(r.keybuf, e.key), "the load failed and returned the key of \"%s\"", e.name.c_str());
        bool fits = true;
        for (auto& e : st.e)
            if (wants(e, common)) fits = fits && e.key.size() <= key_cap && e.name.size() <= name_cap;
        bool whole = what == "as written" || what == "small buffers";
        REQUIRE(!(whole && present && fits), "the keystore has the requested entry, and it was not loaded");
        pbt::nontrivial();
        return;
    }
    REQUIRE(!must_fail, "%s: a key was loaded", present ? what.c_str() : "the requested entry is missing");
    bool match = false;
    for (auto& e : st.e)
        if (wants(e, common) && e.key == r.key && (r.name == e.name || (r.name.empty() && e.name.size() > name_cap))) match = true;
    REQUIRE(match, "the key %s with the name \"%s\" is not an entry that was asked for", pbt::hex(r.key).c_str(), r.name.c_str());
    if (st.e.size() > 1) pbt::nontrivial();
}

PROP(c30_contents, "the keystore was authentic, and held something else than secret keys", 30, 200) {
    Store st = gen_store(src);
    for (auto& e : st.e)
        if (src.chance(1, 3)) e.kind = (BagKind) src.range(1, MUTATED - 1);
    bool changed = false;
    for (auto& s : st.safes)
        if (src.chance(1, 3)) {
            s.oddity = (int) src.range(1, 2);
            if (s.oddity == 2) changed = true, s.pbe = 0;
        }
    build(src, st);
    bool common = src.coin(), odd = changed;
    for (auto& e : st.e) odd |= e.kind != GOOD;
    for (auto& s : st.safes) odd |= s.oddity == 1;
    size_t key_cap = src.pick({(size_t) 16, (size_t) 32, (size_t) 64, (size_t) 300}), name_cap = src.pick({(size_t) 12, (size_t) 16, (size_t) MAX_NAME_SIZE});
    pbt::trace("%s, %s requested", describe(st).c_str(), common ? "common root" : "device root");
    Result r = load(st.der, st.password.c_str(), common, key_cap, name_cap);
    pbt::trace("%s key %s name \"%s\"", r.ok ? "loaded" : "failed", pbt::hex(r.key).c_str(), r.name.c_str());
    pbt::label("%s: %s", changed ? "changed" : odd ? "odd" : "plain", r.ok ? "loaded" : "failed");
    if (r.ok) {
        REQUIRE(r.name.empty() || (r.name == COMMON_ROOT_NAME) == common, "a %s was asked for, and \"%s\" was loaded", common ? "common root" : "device root", r.name.c_str());
        bool match = false;
        for (auto& e : st.e) {
            if (st.safes[(size_t) e.safe].oddity == 2) match = true;   // could hold anything now
            if (st.safes[(size_t) e.safe].oddity == 1 || e.kind == OTHER_PASSWORD || e.kind == GARBAGE) continue;
            if (wants(e, common) && e.key == r.key) match = true;
        }
        REQUIRE(match, "the key %s with the name \"%s\" is not an entry that was asked for", pbt::hex(r.key).c_str(), r.name.c_str());
    } else if (!changed) {
        for (auto& e : st.e) REQUIRE(!contains(r.keybuf, e.key), "the load failed and returned the key of \"%s\"", e.name.c_str());
        bool present = false, fits = true;
        for (auto& e : st.e)
            if (wants(e, common)) present = true, fits = fits && e.key.size() <= key_cap && e.name.size() <= name_cap;
        REQUIRE(odd || !present || !fits, "the keystore has the requested entry, and it was not loaded");
    }
    if (odd) pbt::nontrivial();
}

// The keys as the TA uses them: a fresh process per case, since they are read once.
PROP(c30_ladder, "a keystore that cannot provide the requested key, or both keys used", 60, 100) {
    Store st;
    st.password = gen_password(src);
    st.safes.resize(src.range(1, 2));
    auto size = [&] { return src.pick({(size_t) 16, (size_t) 16, (size_t) 16, (size_t) 32, (size_t) 24, src.size(1, 64)}); };
    Entry dev, com;
    dev.name = src.chance(1, 3) ? gen_name(src) : std::string();
    if (dev.name.empty())
        for (size_t i = 0, n = src.range(1, 16); i < n; i++) dev.name += "0123456789abcdef"[src.below(16)];
    dev.key = src.bytes(size());
    dev.safe = (int) src.below(st.safes.size());
    com.name = COMMON_ROOT_NAME;
    com.key = src.bytes(size());
    com.safe = (int) src.below(st.safes.size());
    bool has_dev = !src.chance(1, 8), has_com = !src.chance(1, 8);
    bool order = src.coin();
    if (order && has_com) st.e.push_back(com);
    if (has_dev) st.e.push_back(dev);
    if (!order && has_com) st.e.push_back(com);
    build(src, st);
    std::string pw = src.chance(1, 8) ? st.password + "!" : st.password;
    bool broken = pw != st.password;
    bool hex = dev.name.size() <= 16;
    uint64_t id = 0;
    for (char ch : dev.name) {
        if (!isxdigit((unsigned char) ch)) hex = false;
        if (hex) id = (id << 4) + (uint64_t) (ch <= '9' ? ch - '0' : (ch | 32) - 'a' + 10);
    }
    bool dev_ok = has_dev && !broken && hex && id != 0, com_ok = has_com && !broken;
    struct Step {
        int what;    // 0 device root, 1 common root, 2 device ID
        Bytes c[4];
    };
    std::vector<Step> steps;
    for (size_t i = 0, n = src.range(2, 6); i < n; i++) {
        Step s;
        s.what = (int) src.weighted({3, 3, 1});
        for (auto& c : s.c) c = src.bytes(16);
        steps.push_back(s);
    }
    pbt::trace("%s%s%s", describe(st).c_str(), broken ? " wrong password" : "", dev_ok ? "" : " no usable device root");
    File f(st.der);
    Env env(f.path.c_str(), pw.c_str());
    int p[2];
    if (pipe(p)) pbt::fail("harness: pipe");
    bool both[2] = {false, false};
    for (auto& s : steps)
        if (s.what < 2) both[s.what] = true;
    pid_t pid = fork();
    if (pid < 0) pbt::fail("harness: fork");
    if (pid == 0) {
        close(p[0]);
        std::string msg;
        try {
            Caller c = Caller::ree();
            for (auto& s : steps) {
                if (s.what == 2) {
                    uint64_t got = 0x1234;
                    sa_status st2 = sa_get_device_id(&got);
                    if (dev_ok && dev.key.size() == 16) REQUIRE(st2 == SA_STATUS_OK && got == id, "device ID %llx for \"%s\": %s", (unsigned long long) got, dev.name.c_str(), sname(st2));
                    continue;
                }
                sa_rights r = rights_all();
                sa_key key = INVALID_HANDLE;
                Exact c0(s.c[0]), c1(s.c[1]), c2(s.c[2]), c3(s.c[3]);
                sa_kdf_parameters_root_key_ladder q = {c0.p, 16, c1.p, 16, c2.p, 16, c3.p, 16};
                sa_status st2 = c.key_derive(&key, &r, s.what ? SA_KDF_ALGORITHM_COMMON_ROOT_KEY_LADDER : SA_KDF_ALGORITHM_ROOT_KEY_LADDER, &q);
                const Bytes& k = s.what ? com.key : dev.key;
                bool ok = s.what ? com_ok : dev_ok;
                if (st2 != SA_STATUS_OK) {
                    // without a device root the TA can hold no keys at all
                    REQUIRE(!(ok && dev_ok && dev.key.size() == 16 && k.size() == 16), "the %s ladder: %s", s.what ? "common" : "device", sname(st2));
                    REQUIRE(key == INVALID_HANDLE, "a refused derivation returned a handle");
                    continue;
                }
                REQUIRE(ok, "the %s ladder works without a usable root key", s.what ? "common" : "device");
                REQUIRE(k.size() == 16 || k.size() == 32, "the ladder works with a root key of %zu bytes", k.size());
                Bytes d = aes_ecb(aes_ecb(aes_ecb(aes_ecb(k, s.c[0], false), s.c[1], false), s.c[2], false), s.c[3], false);
                REQUIRE(key_digest(c, key) == ref_digest(SA_DIGEST_ALGORITHM_SHA256, d), "the %s ladder gives the wrong key", s.what ? "common" : "device");
                c.key_release(key);
            }
        } catch (pbt::Failure& e) {
            msg = e.msg;
        } catch (...) {
            msg = "exception";
        }
        msg = "." + msg;
        if (write(p[1], msg.data(), msg.size()) < 0) _exit(3);
        _exit(0);
    }
    close(p[1]);
    std::string msg;
    char buf[512];
    ssize_t n;
    while ((n = read(p[0], buf, sizeof buf)) > 0) msg.append(buf, (size_t) n);
    close(p[0]);
    int ws = 0;
    waitpid(pid, &ws, 0);
    REQUIRE(WIFEXITED(ws) && WEXITSTATUS(ws) == 0 && !msg.empty(), "the process using the root keys crashed (status %d)", ws);
    REQUIRE(msg == ".", "%s", msg.c_str() + 1);
    pbt::label("%s %s", dev_ok ? "device root" : "no device root", com_ok ? "common root" : "no common root");
    if (!dev_ok || !com_ok || (both[0] && both[1])) pbt::nontrivial();
}
