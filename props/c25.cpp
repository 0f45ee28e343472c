// C25: secret key material is erased before memory is given back. Every block freed while the operation runs is kept as it was
// at the moment it was freed, and searched for the secrets: key material the harness supplied, results it can recognise by
// their digest, encoded private keys, root keys and ladder stages.
#include "optable.hpp"
#include <cstring>
#include <map>
#include <openssl/core_names.h>
#include <openssl/err.h>
#include <unordered_map>
using namespace sec;

namespace {
struct Seen {
    Bytes b;
    bool ossl;
    const void* pc;
    std::string where;
    bool live;
};
std::vector<Seen> g_seen;
bool g_watch;
void on_free(void* p, size_t n, bool ossl, const void* pc, const std::string& where) {
    if (!g_watch || n < 8 || n > 1 << 16) return;
    g_watch = false;
    g_seen.push_back({Bytes((uint8_t*) p, (uint8_t*) p + n), ossl, pc, where, false});
    g_watch = true;
}
bool rich(const uint8_t* p, size_t n = 8) {
    std::set<uint8_t> s(p, p + n);
    return s.size() >= 6;
}
struct Secrets {
    std::unordered_map<uint64_t, std::string> windows;      // every 8 consecutive bytes
    std::vector<std::pair<std::string, std::pair<size_t, Bytes>>> digests;   // results known by length and SHA-256
    void add(const std::string& what, const Bytes& b, bool reversed = false) {
        for (size_t i = 0; i + 8 <= b.size(); i++)
            if (rich(&b[i])) {
                uint64_t w;
                memcpy(&w, &b[i], 8);
                windows.emplace(w, what);
            }
        if (reversed) return;
        Bytes r(b.rbegin(), b.rend());
        add(what + " (as a number)", r, true);
    }
    void add_bn(const std::string& what, EVP_PKEY* k, const char* name) {
        BIGNUM* n = nullptr;
        if (EVP_PKEY_get_bn_param(k, name, &n) != 1) {
            ERR_clear_error();
            return;
        }
        Bytes b((size_t) BN_num_bytes(n));
        BN_bn2bin(n, b.data());
        BN_clear_free(n);
        add(what, b);
    }
    void add(const std::string& what, const Mat& m) {
        if (m.type == SA_KEY_TYPE_SYMMETRIC) return add(what, m.clear);
        if (!m.pkey) return;
        for (const char* n : {OSSL_PKEY_PARAM_RSA_D, OSSL_PKEY_PARAM_RSA_FACTOR1, OSSL_PKEY_PARAM_RSA_FACTOR2, OSSL_PKEY_PARAM_RSA_EXPONENT1,
                     OSSL_PKEY_PARAM_RSA_EXPONENT2, OSSL_PKEY_PARAM_RSA_COEFFICIENT1, OSSL_PKEY_PARAM_PRIV_KEY})
            add_bn(what, m.pkey, n);
        size_t n = 64;
        Bytes raw(64);
        if (EVP_PKEY_get_raw_private_key(m.pkey, raw.data(), &n) == 1) {
            raw.resize(n);
            add(what, raw);
        }
        ERR_clear_error();
    }
    void add_result(const Caller& c, const std::string& what, sa_key k) {
        sa_header h;
        if (c.key_header(&h, k) != SA_STATUS_OK || h.type != SA_KEY_TYPE_SYMMETRIC) return;
        Bytes d(32);
        size_t n = 32;
        // the rights in a container may exclude this caller
        if (c.key_digest(d.data(), &n, k, SA_DIGEST_ALGORITHM_SHA256) == SA_STATUS_OK) digests.push_back({what, {h.size, d}});
    }
    // what the bytes contain, or nothing
    std::string in(const Bytes& b) const {
        for (size_t i = 0; i + 8 <= b.size(); i++) {
            uint64_t w;
            memcpy(&w, &b[i], 8);
            auto f = windows.find(w);
            if (f != windows.end()) return f->second + " at offset " + std::to_string(i);
        }
        for (auto& d : digests) {
            size_t n = d.second.first;
            for (size_t i = 0; i + n <= b.size(); i++)
                if (rich(&b[i]) && rich(&b[i + n - 8]) && ref_digest(SA_DIGEST_ALGORITHM_SHA256, sub(b, i, n)) == d.second.second)
                    return d.first + " at offset " + std::to_string(i);
        }
        // an encoded private key: SEQUENCE { INTEGER 0, SEQUENCE ...
        for (size_t i = 0; i + 16 < b.size(); i++) {
            if (b[i] != 0x30) continue;
            size_t o = i + 2 + (b[i + 1] & 0x80 ? b[i + 1] & 0x7f : 0);
            if (o + 4 >= b.size() || b[o] != 2 || b[o + 1] != 1 || b[o + 2] > 1 || b[o + 3] != 0x30) continue;
            const unsigned char* p = &b[i];
            EVP_PKEY* k = d2i_AutoPrivateKey(nullptr, &p, (long) (b.size() - i));
            ERR_clear_error();
            if (!k) continue;
            EVP_PKEY_free(k);
            return "an encoded private key at offset " + std::to_string(i);
        }
        return "";
    }
};
struct Watch {
    Watch() {
        OPENSSL_thread_stop();
        ERR_clear_error();
        g_seen.clear();
        track_begin();
        g_on_free = on_free;
        g_watch = true;
    }
    void live() {
        g_watch = false;
        track_visit([](const uint8_t* p, size_t n, bool ossl, const void* pc, const std::string& where) {
            if (n >= 8 && n <= 1 << 16) g_seen.push_back({Bytes(p, p + n), ossl, pc, where, true});
        });
        g_watch = true;
    }
    void pause() { g_watch = false; }
    void resume() { g_watch = true; }
    void stop() {
        g_watch = false;
        g_on_free = nullptr;
        track_end();
    }
    void check(const Secrets& s, const char* when) {
        size_t own = 0;
        for (auto& b : g_seen) {
            own += !b.ossl;
            if (b.ossl && !getenv("C25_OSSL")) continue;
            std::string f = s.in(b.b);
            if (f.empty()) continue;
            std::string hex = pbt::hex(b.b, 64);
            pbt::fail("%s: a block of %zu bytes allocated in %s %s holding %s: %s", when, b.b.size(), origin(b.pc, b.where).c_str(),
                    b.live ? "is kept" : "was freed", f.c_str(), hex.c_str());
        }
        pbt::label("%s: %s", when, own ? "blocks of the TA seen" : "no block of the TA");
        g_seen.clear();
    }
    ~Watch() { stop(); }
};
void add_roots(Secrets& s) {
    s.add("the device root key", root_key(false).key);
    s.add("the common root key", root_key(true).key);
}
void release(const Caller& c, Obs& o) {
    if (o.ctx != INVALID_HANDLE && c.cipher_release(o.ctx) != SA_STATUS_OK) c.mac_release(o.ctx);
    o.ctx = INVALID_HANDLE;
}
void fault(Src& src, bool on) {
    if (on) {
        g_alloc_openssl = src.coin();
        g_alloc_count = 0;
        g_alloc_fail_at = 1 + (long) src.below(g_alloc_openssl ? 200 : 25);
        g_alloc_failed = false;
        g_alloc_armed = true;
    } else
        g_alloc_armed = false;
}

// Values decrypted with a root key, and values decrypted with those, are stages of a key ladder.
std::vector<Bytes> g_ladder;
void on_ecb(const Bytes& key, const uint8_t* out, size_t n) {
    if (n != 16) return;
    bool known = key == root_key(false).key || key == root_key(true).key;
    for (auto& l : g_ladder) known = known || l == key;
    if (known) g_ladder.push_back(Bytes(out, out + n));
}
Op any_op(Src& src) {
    switch (src.weighted({14, 2, 2, 2, 2, 1})) {
        case 0: return gen_op(src);
        case 1: return op_import(src);
        case 2: return op_generate(src);
        case 3: return op_soc(src);
        case 4: return op_ladder(src);
        default: return op_provision(src);
    }
}
}  // namespace

PROP(c25_operations, "the operation freed memory of the TA", 60, 60) {
    Caller c = Caller::open(TA_A);
    Op op = any_op(src);
    sa_rights all = rights_all();
    Secrets secrets;
    add_roots(secrets);
    secrets.add("the key", op.mat);
    secrets.add("the key brought in", op.imports);
    for (auto& s : op.stages) secrets.add(s.first, s.second);
    if (op.setup) op.setup(c);
    bool inject = src.chance(1, 3), rights_missing = src.chance(1, 8);
    sa_rights r = all;
    if (rights_missing) r.usage_flags &= ~bit((int) src.below(14));
    g_ladder.clear();
    g_on_ecb_decrypt = on_ecb;
    Watch w;
    sa_key key = INVALID_HANDLE;
    std::string how = "none";
    if (!op.keyless) key = make_key(src, c, op, r, &how);
    w.live();
    Obs o;
    sa_status s = SA_STATUS_OK;
    if (inject) fault(src, true);
    for (auto& p : op.phases) {
        s = p.fn(c, key, o);
        if (s != SA_STATUS_OK) break;
    }
    fault(src, false);
    g_on_ecb_decrypt = nullptr;
    pbt::trace("%s, key %s: %s%s", op.name.c_str(), how.c_str(), sname(s), inject && g_alloc_failed ? ", an allocation failed" : "");
    release(c, o);
    w.live();
    w.pause();
    for (auto k : o.keys) secrets.add_result(c, "the resulting key", k);
    Stages late;
    if (op.late_stages) op.late_stages(c, key, late);
    for (auto& l : late) secrets.add(l.first, l.second);
    for (auto& l : g_ladder) secrets.add("a key ladder stage", l);
    if (!g_ladder.empty()) pbt::label("ladder seen");
    w.resume();
    bool early = src.coin();
    if (early && !op.keyless) c.key_release(key);
    for (auto k : o.keys) c.key_release(k);
    w.pause();
    size_t freed = 0;
    for (auto& b : g_seen) freed += !b.live && !b.ossl;
    w.check(secrets, op.name.c_str());
    w.resume();
    c.close();
    w.stop();
    w.check(secrets, "closing the session");
    if (freed) pbt::nontrivial();
}
