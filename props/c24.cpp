// C24: concurrent callers behave as if their calls ran one after another. Linearizability under generated schedules.
#include "container.hpp"
#include "sig.hpp"
#include "sched.hpp"
#include <cstring>
using namespace sec;

extern "C" long sec_balance();
namespace {
enum Kind { KEY, CIPHER, MAC, SVP, SESSION, KINDS };
enum Code {
    K_IMPORT, K_DERIVE, K_UNWRAP, K_LADDER, K_DIGEST, K_HEADER, K_EXPORT, K_RELEASE,
    C_INIT, C_PROCESS, C_IV, C_RELEASE, C_LAST,
    M_INIT, M_PROCESS, M_KEY, M_COMPUTE, M_RELEASE,
    V_CREATE, V_WRITE, V_COPY, V_CHECK, V_CIPHER, V_CENC, V_RELEASE,
    S_OPEN, S_CLOSE, G_NAME, A_IMPORT, A_SIGN, A_PUBLIC, CODES
};
const char* NAME[] = {"import", "derive", "unwrap", "ladder", "digest", "header", "export", "release key", "cipher init", "process", "update iv",
        "release cipher", "process last", "mac init", "mac process", "mac process key", "mac compute", "release mac", "svp create", "svp write", "svp copy", "svp check",
        "svp cipher", "svp cenc", "svp release", "open", "close", "get name",
        "import ec", "sign", "public"};
const Mat& pool(unsigned i) {   // EC keys
    static std::vector<Mat> v;
    while (v.size() < 3) {
        Src s = fixed_src(900 + v.size());
        v.push_back(mat_ec(s, SA_ELLIPTIC_CURVE_NIST_P256));
    }
    return v[i];
}
const Mat* asym(const Bytes& key) {
    for (unsigned i = 0; i < 3; i++) if (pool(i).clear == key) return &pool(i);
    return nullptr;
}
struct Session {
    bool direct = false;
    sa_uuid uuid = REE;
    volatile uint64_t slot = INVALID_HANDLE;
};
struct Slot {
    int kind, sess;
    volatile uint64_t h = INVALID_HANDLE;
};
const size_t SVP_N = 64;
struct Op {
    Code code = K_DIGEST;
    int sess = 0, dst = -1, a = -1, b = -1;
    Bytes data, iv;
    std::shared_ptr<Guarded> mem;
    // what happened
    bool ran = false;
    sa_status st = SA_STATUS_OK;
    uint64_t slot = 0, ha = 0, hb = 0, hd = 0, t0 = 0, t1 = 0;
    Bytes out;
    void* released = nullptr;
};
Session g_sess[3];
Slot g_slot[64];
int g_slots;

uint64_t get(const volatile uint64_t& v) { return __atomic_load_n(&v, __ATOMIC_RELAXED); }
void put(volatile uint64_t& v, uint64_t x) { __atomic_store_n(&v, x, __ATOMIC_RELAXED); }

#define API(NAME, ...) (s.direct ? ta_sa_##NAME(__VA_ARGS__, (ta_client) slot, &s.uuid) : sa_##NAME(__VA_ARGS__))
// Runs on a worker thread. Nothing here synchronises with other threads except the library itself.
void execute(Op& o) {
    Session& s = g_sess[o.sess];
    uint64_t slot = get(s.slot);
    if (o.code != S_OPEN && s.direct && slot == INVALID_HANDLE) return;
    if (o.a >= 0 && (o.ha = get(g_slot[o.a].h)) == INVALID_HANDLE) return;
    if (o.b >= 0 && (o.hb = get(g_slot[o.b].h)) == INVALID_HANDLE) return;
    o.ran = true;
    o.slot = slot;
    o.hd = INVALID_HANDLE;
    sa_rights r = rights_all();
    uint8_t buf[8192];
    size_t n = sizeof buf;
    o.t0 = sched::tick();
    switch (o.code) {
        case K_IMPORT: {
            sa_import_parameters_symmetric p = {&r};
            o.st = API(key_import, &o.hd, SA_KEY_FORMAT_SYMMETRIC_BYTES, o.data.data(), o.data.size(), &p);
            break;
        }
        case K_DERIVE: {
            sa_kdf_parameters_hkdf p = {16, SA_DIGEST_ALGORITHM_SHA256, o.ha, o.data.data(), o.data.size(), nullptr, 0};
            o.st = API(key_derive, &o.hd, &r, SA_KDF_ALGORITHM_HKDF, &p);
            break;
        }
        case K_UNWRAP:
            o.st = API(key_unwrap, &o.hd, &r, SA_KEY_TYPE_SYMMETRIC, nullptr, SA_CIPHER_ALGORITHM_AES_ECB, nullptr, o.ha, o.data.data(), 16);
            break;
        case K_LADDER: {
            uint8_t* d = o.data.data();
            sa_kdf_parameters_root_key_ladder p = {d, 16, d + 16, 16, d + 32, 16, d + 48, 16};
            o.st = API(key_derive, &o.hd, &r, SA_KDF_ALGORITHM_ROOT_KEY_LADDER, &p);
            break;
        }
        case K_DIGEST:
            o.st = API(key_digest, buf, &n, o.ha, SA_DIGEST_ALGORITHM_SHA256);
            if (o.st == SA_STATUS_OK) o.out.assign(buf, buf + n);
            break;
        case K_HEADER: {
            sa_header h;
            memset(&h, 0, sizeof h);
            o.st = API(key_header, &h, o.ha);
            if (o.st == SA_STATUS_OK) o.out.assign((uint8_t*) &h.size, (uint8_t*) &h.size + 2);
            break;
        }
        case K_EXPORT: o.st = API(key_export, buf, &n, nullptr, 0, o.ha); break;
        case K_RELEASE: o.st = API(key_release, o.ha); break;
        case C_INIT: {
            sa_cipher_parameters_aes_ctr p = {o.iv.data(), 16};
            o.st = API(crypto_cipher_init, &o.hd, SA_CIPHER_ALGORITHM_AES_CTR, SA_CIPHER_MODE_DECRYPT, o.ha, &p);
            break;
        }
        case C_LAST:
        case C_PROCESS: {
            sa_buffer ib = clear_buf(o.data.data(), o.data.size()), ob = clear_buf(buf, sizeof buf);
            n = o.data.size();
            o.st = o.code == C_LAST ? API(crypto_cipher_process_last, &ob, o.ha, &ib, &n, nullptr) : API(crypto_cipher_process, &ob, o.ha, &ib, &n);
            if (o.st == SA_STATUS_OK) o.out.assign(buf, buf + n);
            break;
        }
        case C_IV: o.st = API(crypto_cipher_update_iv, o.ha, o.iv.data(), 16); break;
        case C_RELEASE: o.st = API(crypto_cipher_release, o.ha); break;
        case M_INIT: {
            sa_mac_parameters_hmac p = {SA_DIGEST_ALGORITHM_SHA256};
            bool hmac = o.iv.empty();
            o.st = API(crypto_mac_init, &o.hd, hmac ? SA_MAC_ALGORITHM_HMAC : SA_MAC_ALGORITHM_CMAC, o.ha, hmac ? (void*) &p : nullptr);
            break;
        }
        case M_PROCESS: o.st = API(crypto_mac_process, o.ha, o.data.data(), o.data.size()); break;
        case M_KEY: o.st = API(crypto_mac_process_key, o.ha, o.hb); break;
        case M_COMPUTE:
            o.st = API(crypto_mac_compute, buf, &n, o.ha);
            if (o.st == SA_STATUS_OK) o.out.assign(buf, buf + n);
            break;
        case M_RELEASE: o.st = API(crypto_mac_release, o.ha); break;
        case V_CREATE: o.st = API(svp_buffer_create, &o.hd, o.mem->data(), SVP_N); break;
        case V_WRITE: {
            sa_svp_offset of = {0, 0, SVP_N};
            o.st = API(svp_buffer_write, o.ha, o.data.data(), SVP_N, &of, 1);
            break;
        }
        case V_COPY: {
            sa_svp_offset of = {0, 0, SVP_N};
            o.st = API(svp_buffer_copy, o.ha, o.hb, &of, 1);
            break;
        }
        case V_CHECK:
            o.st = ta_sa_svp_buffer_check(o.ha, 0, SVP_N, SA_DIGEST_ALGORITHM_SHA256, o.data.data(), o.data.size(), (ta_client) slot, &s.uuid);
            break;
        case V_CIPHER: {   // decrypts from one buffer to another: hb -> ha with the context in iv
            sa_crypto_cipher_context x;
            memcpy(&x, o.iv.data(), 8);
            sa_buffer ob = svp_buf(o.ha), ib = svp_buf(o.hb);
            n = SVP_N;
            o.st = API(crypto_cipher_process, &ob, x, &ib, &n);
            break;
        }
        case V_CENC: {
            sa_crypto_cipher_context x;
            memcpy(&x, o.iv.data(), 8);
            sa_buffer ob = svp_buf(o.ha), ib = svp_buf(o.hb);
            sa_subsample_length sl = {0, SVP_N};
            sa_sample sm = {o.data.data(), 16, 0, 0, 1, &sl, x, &ob, &ib};
            o.st = API(process_common_encryption, 1, &sm);
            break;
        }
        case V_RELEASE: {
            size_t k = 0;
            o.st = API(svp_buffer_release, &o.released, &k, o.ha);
            if (o.st == SA_STATUS_OK) o.out.assign((uint8_t*) &k, (uint8_t*) &k + 8);
            break;
        }
        case S_OPEN: {
            ta_client c = INVALID_HANDLE;
            o.st = ta_sa_init(&c, &s.uuid);
            o.hd = o.slot = c;
            if (o.st == SA_STATUS_OK) put(s.slot, c);
            break;
        }
        case S_CLOSE: o.st = ta_sa_close((ta_client) slot, &s.uuid); break;
        case A_IMPORT: {
            sa_import_parameters_ec_private_bytes p = {&r, SA_ELLIPTIC_CURVE_NIST_P256};
            o.st = API(key_import, &o.hd, SA_KEY_FORMAT_EC_PRIVATE_BYTES, o.data.data(), o.data.size(), &p);
            break;
        }
        case A_SIGN: {
            sa_sign_parameters_ecdsa p = {SA_DIGEST_ALGORITHM_SHA256, false};
            o.st = API(crypto_sign, buf, &n, SA_SIGNATURE_ALGORITHM_ECDSA, o.ha, o.data.data(), o.data.size(), &p);
            if (o.st == SA_STATUS_OK) o.out.assign(buf, buf + n);
            break;
        }
        case A_PUBLIC:
            o.st = API(key_get_public, buf, &n, o.ha);
            if (o.st == SA_STATUS_OK) o.out.assign(buf, buf + n);
            break;
        case G_NAME:
            o.st = API(get_name, (char*) buf, &n);
            if (o.st == SA_STATUS_OK) o.out.assign(buf, buf + n);
            break;
        default: break;
    }
    o.t1 = sched::tick();
    if (o.dst >= 0 && o.st == SA_STATUS_OK && o.code != S_OPEN) put(g_slot[o.dst].h, o.hd);
}

int session_of(uint64_t slot, const sa_uuid& uuid) {
    for (int i = 0; i < 3; i++) {
        if (!g_sess[i].direct && slot == (uint64_t) -2) return i;
        if (g_sess[i].direct && !memcmp(&g_sess[i].uuid, &uuid, 16)) return i;
    }
    pbt::fail("harness: session");
    return 0;
}
// ---- the sequential specification ----
struct Ctr {
    Bytes key, iv;
    size_t off = 0;
    bool done = false;
};
struct Mac {
    bool hmac = true;
    Bytes key, data;
    bool done = false;
};
struct Store {
    sa_uuid uuid;
    std::map<uint64_t, Bytes> key;
    std::map<uint64_t, Ctr> cipher;
    std::map<uint64_t, Mac> mac;
    std::map<uint64_t, std::pair<void*, Bytes>> svp;
};
typedef std::map<uint64_t, Store> World;
Bytes keystream(Ctr& c, const Bytes& in) {
    Bytes z(c.off);
    z.insert(z.end(), in.begin(), in.end());
    Bytes o = aes_ctr(c.key, c.iv, z);
    c.off += in.size();
    return Bytes(o.end() - (long) in.size(), o.end());
}
// Making an object from a key takes two steps: the key is read, then the object appears. A released handle may be given out
// again in between, so a caller that goes on using it can see the two apart.
bool two_steps(const Op& o) {
    return o.st == SA_STATUS_OK && (o.code == K_DERIVE || o.code == K_UNWRAP || o.code == C_INIT || o.code == M_INIT);
}
// Could the call (or its next step), made alone in this state, have given this result? Applies it.
bool applies(World& w, const Op& o, std::shared_ptr<Bytes>& read) {
    bool ok = o.st == SA_STATUS_OK;
    const Session& s = g_sess[o.sess];
    uint64_t slot = s.direct ? o.slot : (uint64_t) -2;
    if (o.code == S_OPEN) {
        if (!ok || w.count(slot)) return false;
        w[slot].uuid = s.uuid;
        return true;
    }
    auto wi = w.find(slot);
    bool open = wi != w.end() && !memcmp(&wi->second.uuid, &s.uuid, 16);
    if (o.code == S_CLOSE) {
        if (ok != open) return false;
        if (ok) w.erase(wi);
        return true;
    }
    if (o.code == G_NAME && open) return ok;
    if (!open) return !ok;
    Store& t = wi->second;
    auto key = t.key.find(o.ha);
    bool any_key = key != t.key.end(), has_key = any_key && key->second.size() == 16;
    const Mat* ec = any_key ? asym(key->second) : nullptr;
    if (two_steps(o)) {
        if (!read) {
            if (!has_key) return false;
            read = std::make_shared<Bytes>(key->second);
            return true;
        }
        const Bytes& k = *read;
        if (o.code == K_DERIVE) return t.key.insert({o.hd, ref_hkdf(SA_DIGEST_ALGORITHM_SHA256, k, o.data, {}, 16)}).second;
        if (o.code == K_UNWRAP) return t.key.insert({o.hd, aes_ecb(k, o.data, false)}).second;
        if (o.code == C_INIT) return t.cipher.insert({o.hd, Ctr{k, o.iv, 0, false}}).second;
        return t.mac.insert({o.hd, Mac{o.iv.empty(), k, {}, false}}).second;
    }
    switch (o.code) {
        case K_IMPORT:
            if (!ok) return false;
            return t.key.insert({o.hd, o.data}).second;
        case K_LADDER:
            if (!ok) return false;
            return t.key.insert({o.hd, aes_ecb(ladder(false, sub(o.data, 0, 16), sub(o.data, 16, 16), sub(o.data, 32, 16)), sub(o.data, 48, 16), false)}).second;
        case K_DERIVE:
        case K_UNWRAP:
        case C_INIT:
        case M_INIT: return ok == has_key;
        case K_DIGEST:
            if (ok != has_key) return false;
            return !ok || o.out == ref_digest(SA_DIGEST_ALGORITHM_SHA256, key->second);
        case K_HEADER:
            if (ok != any_key) return false;
            return !ok || o.out == Bytes{(uint8_t) (ec ? 32 : 16), 0};
        case K_EXPORT: return ok == any_key;
        case A_IMPORT:
            if (!ok) return false;
            return t.key.insert({o.hd, o.data}).second;
        case A_SIGN: {
            if (ok != (ec != nullptr)) return false;
            Params p = {SA_SIGNATURE_ALGORITHM_ECDSA, SA_DIGEST_ALGORITHM_SHA256, SA_DIGEST_ALGORITHM_SHA256};
            return !ok || verify(ec->pkey, p, o.data, o.out);
        }
        case A_PUBLIC:
            if (ok != (ec != nullptr)) return false;
            return !ok || o.out == ec->pub();
        case K_RELEASE:
            if (ok != any_key) return false;
            if (ok) t.key.erase(key);
            return true;
        case C_PROCESS:
        case C_LAST:
        case C_IV:
        case C_RELEASE: {
            auto i = t.cipher.find(o.ha);
            bool has = i != t.cipher.end();
            if (has && (o.code == C_PROCESS || o.code == C_LAST) && i->second.done) has = false;
            if (ok != has) return false;
            if (!ok) return true;
            Ctr& c = i->second;
            if (o.code == C_RELEASE) t.cipher.erase(i);
            else if (o.code == C_IV) c = Ctr{c.key, o.iv, 0, false};
            else {
                if (o.code == C_LAST) c.done = true;
                return o.out == keystream(c, o.data);
            }
            return true;
        }
        case M_PROCESS:
        case M_KEY:
        case M_COMPUTE:
        case M_RELEASE: {
            auto i = t.mac.find(o.ha);
            bool has = i != t.mac.end();
            auto k = t.key.end();
            if (o.code == M_KEY) {
                k = t.key.find(o.hb);
                has = has && k != t.key.end() && k->second.size() == 16;
            }
            if (has && o.code != M_RELEASE && i->second.done) has = false;
            if (ok != has) return false;
            if (!ok) return true;
            Mac& m = i->second;
            if (o.code == M_PROCESS) m.data.insert(m.data.end(), o.data.begin(), o.data.end());
            else if (o.code == M_KEY) m.data.insert(m.data.end(), k->second.begin(), k->second.end());
            else if (o.code == M_RELEASE) t.mac.erase(i);
            else {
                m.done = true;
                return o.out == (m.hmac ? ref_hmac(SA_DIGEST_ALGORITHM_SHA256, m.key, m.data) : ref_cmac(m.key, m.data));
            }
            return true;
        }
        case V_CREATE:
            if (!ok) return false;
            return t.svp.insert({o.hd, {o.mem->data(), Bytes(SVP_N, 0xa5)}}).second;
        case V_WRITE:
        case V_CHECK:
        case V_COPY:
        case V_CIPHER:
        case V_CENC:
        case V_RELEASE: {
            auto i = t.svp.find(o.ha);
            bool has = i != t.svp.end();
            auto j = t.svp.end();
            if (o.code == V_COPY || o.code == V_CIPHER || o.code == V_CENC) {
                j = t.svp.find(o.hb);
                has = has && j != t.svp.end();
            }
            auto x = t.cipher.end();
            if (o.code == V_CIPHER || o.code == V_CENC) {
                uint64_t h;
                memcpy(&h, o.iv.data(), 8);
                x = t.cipher.find(h);
                has = has && x != t.cipher.end() && !x->second.done;
            }
            if (o.code == V_CHECK && has && o.data != ref_digest(SA_DIGEST_ALGORITHM_SHA256, i->second.second)) has = false;
            if (o.code == V_CENC && o.ha == o.hb) has = false;    // a handle given out again: in and out overlap
            if (ok != has) return false;
            if (o.code == V_CHECK && i != t.svp.end() && !ok && o.st != SA_STATUS_VERIFICATION_FAILED) return false;
            if (!ok) return true;
            if (o.code == V_WRITE) i->second.second = o.data;
            if (o.code == V_COPY) i->second.second = j->second.second;
            if (o.code == V_CIPHER) i->second.second = keystream(x->second, j->second.second);
            if (o.code == V_CENC) {
                x->second.iv = o.data;    // the context continues after the sample
                x->second.off = 0;
                i->second.second = keystream(x->second, j->second.second);
            }
            if (o.code == V_RELEASE) {
                size_t n;
                memcpy(&n, o.out.data(), 8);
                if (n != SVP_N || o.released != i->second.first) return false;
                t.svp.erase(i);
            }
            return true;
        }
        default: return true;
    }
}
// what tells one key from another
Bytes what_key(Session& s, uint64_t slot, uint64_t h) {
    Bytes d(400);
    size_t n = 32;
    if (API(key_digest, d.data(), &n, h, SA_DIGEST_ALGORITHM_SHA256) != SA_STATUS_OK) {
        n = d.size();
        if (API(key_get_public, d.data(), &n, h) != SA_STATUS_OK) return {0};
    }
    d.resize(n);
    return d;
}
Bytes expected_key(const Bytes& k) {
    const Mat* ec = asym(k);
    return ec ? ec->pub() : ref_digest(SA_DIGEST_ALGORITHM_SHA256, k);
}
struct Search {
    std::vector<std::vector<Op>>& thr;
    std::vector<size_t> at;
    std::vector<std::shared_ptr<Bytes>> mid;
    std::map<std::pair<int, uint64_t>, Bytes> seen;   // digest of the key behind a handle after all calls
    unsigned long nodes = 0;
    World final;
    explicit Search(std::vector<std::vector<Op>>& t) : thr(t), at(t.size()), mid(t.size()) {}
    // does the library hold what this order of the calls leaves?
    bool explains(const World& w) {
        for (auto& e : w) {
            int si = session_of(e.first, e.second.uuid);
            Session& s = g_sess[si];
            uint64_t slot = e.first;
            for (auto& k : e.second.key) {
                Bytes& d = seen[{si, k.first}];
                if (d.empty()) {
                    d = what_key(s, slot, k.first);
                }
                if (d != expected_key(k.second)) return false;
            }
            for (auto& v : e.second.svp) if (memcmp(v.second.first, v.second.second.data(), SVP_N)) return false;
        }
        return true;
    }
    bool dfs(const World& w) {
        if (++nodes > 400000) return true;   // undecided: never an alarm
        uint64_t earliest_end = UINT64_MAX;
        bool any = false;
        for (size_t i = 0; i < thr.size(); i++)
            if (at[i] < thr[i].size()) {
                any = true;
                earliest_end = std::min(earliest_end, thr[i][at[i]].t1);
            }
        if (!any) {
            final = w;
            return explains(w);
        }
        for (size_t i = 0; i < thr.size(); i++) {
            if (at[i] >= thr[i].size() || thr[i][at[i]].t0 > earliest_end) continue;
            World v = w;
            std::shared_ptr<Bytes> m = mid[i];
            if (!applies(v, thr[i][at[i]], m)) continue;
            bool half = m && !mid[i];
            std::swap(m, mid[i]);
            if (!half) {
                mid[i].reset();
                at[i]++;
            }
            if (dfs(v)) return true;
            if (!half) at[i]--;
            mid[i] = m;
        }
        return false;
    }
};
std::string describe(const Op& o) {
    char b[300];
    snprintf(b, sizeof b, "[%lu..%lu] s%d %s", (unsigned long) o.t0, (unsigned long) o.t1, o.sess, NAME[o.code]);
    std::string r = b;
    if (o.a >= 0) r += " a=" + std::to_string(o.ha);
    if (o.b >= 0) r += " b=" + std::to_string(o.hb);
    if (!o.data.empty()) r += " data " + pbt::hex(o.data, 12);
    r += std::string(" -> ") + sname(o.st);
    if (o.dst >= 0) r += " handle " + std::to_string(o.hd);
    if (!o.out.empty()) r += " out " + pbt::hex(o.out, 12);
    return r;
}
int new_slot(int kind, int sess) {
    g_slot[g_slots].kind = kind;
    g_slot[g_slots].sess = sess;
    g_slot[g_slots].h = INVALID_HANDLE;
    return g_slots++;
}
struct Gen {
    Src& src;
    std::vector<int> shared;          // slots existing before the threads start
    std::vector<Bytes> writes;        // contents SVP buffers may get
    bool svp = false;
    int pick(const std::vector<int>& mine, int kind, int sess) {
        std::vector<int> v;
        for (int i : shared) if (g_slot[i].kind == kind && g_slot[i].sess == sess) { v.push_back(i); v.push_back(i); }
        for (int i : mine) if (g_slot[i].kind == kind && g_slot[i].sess == sess) v.push_back(i);
        if (v.empty()) return -1;
        return v[src.below(v.size())];
    }
    // an operation on the session; false when nothing suitable exists
    bool op(Op& o, std::vector<int>& mine, int sess, int code) {
        o = Op();
        o.code = (Code) code;
        o.sess = sess;
        auto need = [&](int kind) { return pick(mine, kind, sess); };
        auto make = [&](int kind) { o.dst = new_slot(kind, sess); };
        switch (o.code) {
            case K_IMPORT: o.data = src.bytes(16); make(KEY); break;
            case K_LADDER: o.data = src.bytes(64); make(KEY); break;
            case K_DERIVE:
            case K_UNWRAP: o.data = src.bytes(16); if ((o.a = need(KEY)) < 0) return false; make(KEY); break;
            case K_DIGEST: case K_HEADER: case K_EXPORT: case K_RELEASE: if ((o.a = need(KEY)) < 0) return false; break;
            case C_INIT: if ((o.a = need(KEY)) < 0) return false; o.iv = src.bytes(16); make(CIPHER); break;
            case C_PROCESS: case C_LAST: if ((o.a = need(CIPHER)) < 0) return false; o.data = src.bytes(src.range(1, 16)); break;
            case C_IV: if ((o.a = need(CIPHER)) < 0) return false; o.iv = src.bytes(16); break;
            case C_RELEASE: if ((o.a = need(CIPHER)) < 0) return false; break;
            case M_INIT: if ((o.a = need(KEY)) < 0) return false; if (src.coin()) o.iv = {1}; make(MAC); break;
            case M_PROCESS: if ((o.a = need(MAC)) < 0) return false; o.data = src.bytes(src.range(1, 20)); break;
            case M_KEY: if ((o.a = need(MAC)) < 0 || (o.b = need(KEY)) < 0) return false; break;
            case M_COMPUTE: case M_RELEASE: if ((o.a = need(MAC)) < 0) return false; break;
            case V_CREATE: o.mem.reset(new Guarded(SVP_N)); make(SVP); break;
            case V_WRITE: if ((o.a = need(SVP)) < 0) return false; o.data = src.bytes(SVP_N); writes.push_back(o.data); break;
            case V_CHECK:
                if ((o.a = need(SVP)) < 0) return false;
                o.data = ref_digest(SA_DIGEST_ALGORITHM_SHA256, writes.empty() || src.chance(1, 4) ? Bytes(SVP_N, 0xa5) : writes[src.below(writes.size())]);
                break;
            case V_COPY:
                if ((o.a = need(SVP)) < 0 || (o.b = need(SVP)) < 0 || o.a == o.b) return false;
                break;
            case V_CIPHER:
            case V_CENC: {
                int x = -1;
                for (int i : shared) if (g_slot[i].kind == CIPHER && g_slot[i].sess == sess && (x < 0 || src.coin())) x = i;
                if (x < 0 || (o.a = need(SVP)) < 0 || (o.b = need(SVP)) < 0 || o.a == o.b) return false;
                o.iv.assign((uint8_t*) &g_slot[x].h, (uint8_t*) &g_slot[x].h + 8);
                o.data = src.bytes(16);
                break;
            }
            case V_RELEASE: if ((o.a = need(SVP)) < 0) return false; break;
            case A_IMPORT: o.data = ::pool(src.below(3)).clear; make(KEY); break;
            case A_SIGN: if ((o.a = need(KEY)) < 0) return false; o.data = src.bytes(src.range(1, 20)); break;
            case A_PUBLIC: if ((o.a = need(KEY)) < 0) return false; break;
            case G_NAME: break;
            default: return false;
        }
        if (o.dst >= 0) mine.push_back(o.dst);
        return true;
    }
};
void reset() {
    g_slots = 0;
    for (auto& s : g_sess) s = Session();
}
// Everything still alive is given back; afterwards nothing may remain allocated.
void give_back(World& w) {
    for (auto& e : w) {
        int si = session_of(e.first, e.second.uuid);
        Session& s = g_sess[si];
        uint64_t slot = e.first;
        for (auto& x : e.second.cipher) { sa_status st = API(crypto_cipher_release, x.first); REQUIRE(st == SA_STATUS_OK, "releasing cipher %lu afterwards: %s", (unsigned long) x.first, sname(st)); }
        for (auto& x : e.second.mac) { sa_status st = API(crypto_mac_release, x.first); REQUIRE(st == SA_STATUS_OK, "releasing mac %lu afterwards: %s", (unsigned long) x.first, sname(st)); }
        for (auto& x : e.second.key) {
            REQUIRE(what_key(s, slot, x.first) == expected_key(x.second), "key %lu is another one afterwards", (unsigned long) x.first);
            sa_status st = API(key_release, x.first);
            REQUIRE(st == SA_STATUS_OK, "releasing key %lu afterwards: %s", (unsigned long) x.first, sname(st));
        }
        for (auto& x : e.second.svp) {
            REQUIRE(!memcmp(x.second.first, x.second.second.data(), SVP_N), "an SVP buffer's content after the calls is not what any order gives");
            void* m = nullptr;
            size_t k = 0;
            sa_status st = API(svp_buffer_release, &m, &k, x.first);
            REQUIRE(st == SA_STATUS_OK && m == x.second.first, "releasing SVP buffer %lu afterwards: %s", (unsigned long) x.first, sname(st));
        }
        if (s.direct) {
            sa_status st = ta_sa_close((ta_client) slot, &s.uuid);
            REQUIRE(st == SA_STATUS_OK, "closing the session afterwards: %s", sname(st));
        }
    }
}
void go(Src& src, std::vector<std::vector<Op>>& plan, const World& start, long balance) {
    std::vector<std::function<void()>> body;
    for (auto& p : plan)
        body.push_back([&p] {
            for (auto& o : p) execute(o);
        });
    sched::run(src, body);
    std::vector<std::vector<Op>> done(plan.size());
    for (size_t i = 0; i < plan.size(); i++)
        for (auto& o : plan[i])
            if (o.ran) {
                done[i].push_back(o);
                pbt::trace("thread %zu %s", i, describe(o).c_str());
                pbt::label("%s/%s", NAME[o.code], o.st == SA_STATUS_OK ? "ok" : "refused");
            }
    Search s(done);
    bool ok = s.dfs(start);
    if (s.nodes > 400000) pbt::discard();
    REQUIRE(ok, "no order of the calls explains their results");
    give_back(s.final);
    long now = sec_balance();
    REQUIRE(now == balance, "%ld blocks remain allocated after everything was released", now - balance);
    for (auto& p : plan) for (auto& o : p) if (o.mem) REQUIRE(o.mem->intact(), "memory around an SVP buffer was written");
    unsigned overlap = 0;
    for (size_t i = 0; i < done.size(); i++) for (size_t j = 0; j < i; j++)
        for (auto& a : done[i]) for (auto& b : done[j]) overlap += a.t0 < b.t1 && b.t0 < a.t1;
    if (overlap >= 2 && sched::switches > done.size()) pbt::nontrivial();
    if (sched::blocks_seen) pbt::label("a thread had to wait for a lock");
}
}  // namespace

// Shared and private objects in one or two sessions; sessions opened and closed meanwhile.
static void mixed(Src& src, int theme) {
    g_no_autoclean = true;
    reset();
    bool direct = theme == 2 || theme == 3 || src.coin();
    g_sess[0].direct = direct;
    g_sess[0].uuid = direct ? TA_A : REE;
    g_sess[1].direct = true;
    g_sess[1].uuid = TA_B;
    g_sess[2].direct = true;
    g_sess[2].uuid = ALL_MATCH;
    g_sess[2].uuid.id[0] = 0x77;
    ladder(false, Bytes(16), Bytes(16), Bytes(16));
    {   // whatever the first calls of a process set up for good
        uint8_t b[1];
        REQUIRE(sa_crypto_random(b, 1) == SA_STATUS_OK, "random");
    }
    long balance = sec_balance();
    World w;
    auto open = [&](int i) {
        ta_client c;
        REQUIRE(ta_sa_init(&c, &g_sess[i].uuid) == SA_STATUS_OK, "open");
        g_sess[i].slot = c;
        w[c].uuid = g_sess[i].uuid;
    };
    if (direct) open(0);
    else w[(uint64_t) -2].uuid = REE;
    bool second = theme == 3 || src.chance(1, 4);
    if (second) open(1);
    Gen g{src, {}, {}, direct};
    std::vector<int> none;
    auto setup = [&](int sess, int code) {
        Op o;
        if (!g.op(o, g.shared, sess, code)) return;
        execute(o);
        std::shared_ptr<Bytes> read;
        REQUIRE(o.ran && applies(w, o, read) && (!read || applies(w, o, read)), "setup: %s", describe(o).c_str());
        static std::vector<std::shared_ptr<Guarded>> keep;
        if (o.mem) keep.push_back(o.mem);
    };
    int last = second ? 1 : 0;
    for (int si = 0; si <= last; si++) {
        for (unsigned i = src.range(1, 2); i > 0; i--) setup(si, theme == 4 ? A_IMPORT : K_IMPORT);
        if (theme != 2 && theme != 4) {
            if (src.coin()) setup(si, C_INIT);
            if (src.coin()) setup(si, M_INIT);
        } else if (theme == 2) {
            setup(si, C_INIT);
            for (unsigned i = src.range(1, 3); i > 0; i--) setup(si, V_CREATE);
        }
    }
    unsigned n = src.weighted({3, 2}) == 0 ? 2 : 3, budget = n == 2 ? 5 : 4;
    std::vector<std::vector<Op>> plan(n);
    for (unsigned t = 0; t < n; t++) {
        std::vector<int> mine;
        int opened = 0;
        for (unsigned k = src.range(1, budget); k > 0; k--) {
            int sess = second && src.coin() ? 1 : 0;
            Op o;
            if (theme == 3 && src.chance(1, 3)) {    // sessions come and go
                if (t == 0 && opened < 2 && src.coin()) {
                    o.code = opened ? S_CLOSE : S_OPEN;
                    o.sess = 2;
                    opened++;
                } else if (t != 0 && src.chance(1, 3)) {
                    o.code = S_CLOSE;
                    o.sess = 1;
                } else {
                    if (!g.op(o, mine, t == 0 && opened == 1 ? 2 : 1, src.pick({(int) K_IMPORT, (int) K_DIGEST, (int) C_PROCESS, (int) K_RELEASE}))) continue;
                }
                plan[t].push_back(o);
                continue;
            }
            int code;
            if (theme == 0) code = (int) src.weighted({3, 2, 2, 1, 3, 1, 1, 4, 1, 1, 1, 1});
            else if (theme == 1) code = src.pick({(int) C_INIT, (int) C_PROCESS, (int) C_PROCESS, (int) C_PROCESS, (int) C_IV, (int) C_RELEASE, (int) C_LAST, (int) M_INIT, (int) M_PROCESS, (int) M_PROCESS, (int) M_KEY,
                                               (int) M_COMPUTE, (int) M_RELEASE, (int) K_RELEASE, (int) K_IMPORT});
            else if (theme == 4) code = src.pick({(int) A_IMPORT, (int) A_SIGN, (int) A_SIGN, (int) A_SIGN, (int) A_PUBLIC, (int) A_PUBLIC, (int) K_RELEASE, (int) K_HEADER, (int) K_EXPORT, (int) K_IMPORT, (int) K_DIGEST});
            else if (theme == 2) code = src.pick({(int) V_CREATE, (int) V_WRITE, (int) V_WRITE, (int) V_COPY, (int) V_COPY, (int) V_CHECK, (int) V_CHECK, (int) V_CIPHER, (int) V_CENC, (int) V_RELEASE, (int) V_RELEASE});
            else code = (int) src.below(V_CREATE);
            if (!g.op(o, mine, sess, code)) continue;
            plan[t].push_back(o);
        }
    }
    go(src, plan, w, balance);
}
PROP(c24_keys, "at least two calls of different threads overlapped and the running thread changed inside calls", 30, 60) { mixed(src, 0); }
PROP(c24_contexts, "at least two calls of different threads overlapped and the running thread changed inside calls", 30, 60) { mixed(src, 1); }
PROP(c24_svp, "at least two calls of different threads overlapped and the running thread changed inside calls", 30, 60) { mixed(src, 2); }
PROP(c24_asymmetric, "at least two calls of different threads overlapped and the running thread changed inside calls", 30, 60) { mixed(src, 4); }
PROP(c24_sessions, "at least two calls of different threads overlapped and the running thread changed inside calls", 30, 60) { mixed(src, 3); }

// The very first calls of a process, made concurrently.
PROP(c24_first, "at least two calls of different threads overlapped and the running thread changed inside calls", 30, 1) {
    g_no_autoclean = true;
    reset();
    ladder(false, Bytes(16), Bytes(16), Bytes(16));
    World w;
    w[(uint64_t) -2].uuid = REE;
    g_sess[1].direct = true;
    g_sess[1].uuid = TA_B;
    g_sess[2].direct = true;
    g_sess[2].uuid = TA_A;
    Gen g{src, {}, {}, false};
    unsigned n = src.range(2, 3);
    std::vector<std::vector<Op>> plan(n);
    for (unsigned t = 0; t < n; t++) {
        std::vector<int> mine;
        bool own = t > 0 && src.chance(1, 3);      // a session of its own, opened first thing
        if (own) {
            Op o;
            o.code = S_OPEN;
            o.sess = t == 1 ? 1 : 2;
            plan[t].push_back(o);
        }
        for (unsigned k = src.range(1, 3); k > 0; k--) {
            Op o;
            if (!g.op(o, mine, own ? (t == 1 ? 1 : 2) : 0, src.pick({(int) K_IMPORT, (int) K_LADDER, (int) K_LADDER, (int) G_NAME, (int) K_DIGEST, (int) K_EXPORT}))) continue;
            plan[t].push_back(o);
        }
    }
    std::vector<std::function<void()>> body;
    for (auto& p : plan)
        body.push_back([&p] {
            for (auto& o : p) execute(o);
        });
    sched::run(src, body);
    std::vector<std::vector<Op>> done(n);
    for (size_t i = 0; i < n; i++)
        for (auto& o : plan[i])
            if (o.ran) {
                done[i].push_back(o);
                pbt::trace("thread %zu %s", i, describe(o).c_str());
                pbt::label("%s/%s", NAME[o.code], o.st == SA_STATUS_OK ? "ok" : "refused");
                if (o.code == G_NAME) REQUIRE(o.st == SA_STATUS_OK && !o.out.empty(), "name");
            }
    Search s(done);
    REQUIRE(s.dfs(w), "no order of the calls explains their results");
    give_back(s.final);
    unsigned overlap = 0;
    for (size_t i = 0; i < n; i++) for (size_t j = 0; j < i; j++)
        for (auto& a : done[i]) for (auto& b : done[j]) overlap += a.t0 < b.t1 && b.t0 < a.t1;
    if (overlap >= 2 && sched::switches > n) pbt::nontrivial();
}
