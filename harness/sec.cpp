#include "sec.hpp"
#include "sa_rights.h"
#include <algorithm>
#include <atomic>
#include <cstring>
#include <dirent.h>
#include <mutex>
#include <openssl/cmac.h>
#include <openssl/core_names.h>
#include <openssl/crypto.h>
#include <openssl/dh.h>
#include <openssl/hmac.h>
#include <openssl/param_build.h>
#include <openssl/pem.h>
#include <openssl/rand.h>
#include <openssl/rsa.h>
#include <string>
#include <time.h>
#include <unordered_map>
extern "C" {
#include "log.h"
void* __real_malloc(size_t);
void* __real_calloc(size_t, size_t);
void* __real_realloc(void*, size_t);
void __real_free(void*);
int __real_CRYPTO_set_mem_functions(CRYPTO_malloc_fn, CRYPTO_realloc_fn, CRYPTO_free_fn);
void __sanitizer_symbolize_pc(void* pc, const char* fmt, char* out, size_t n) __attribute__((weak));
}

namespace sec {
int64_t g_now = 1700000000;
video_output_state_t g_video;
const sa_uuid REE = {{0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1}};
const sa_uuid ALL_MATCH = {{255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255}};
const sa_uuid TA_A = {{0xa1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16}};
const sa_uuid TA_B = {{0xb1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16}};
sa_uuid g_caller = REE;
bool g_det_rand = true;
long g_alloc_count, g_alloc_fail_at;
bool g_alloc_armed, g_alloc_failed, g_alloc_openssl, g_alloc_spare_release;
size_t g_alloc_max;

// ---- deterministic random -------------------------------------------------------------------------------------
static std::atomic<uint64_t> rand_ctr{1};
static uint64_t mix(uint64_t x) {
    x += 0x9e3779b97f4a7c15ULL;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
    return x ^ (x >> 31);
}
Bytes* g_rand_log;
long g_rand_fail_at, g_rand_calls;
int g_rand_fail_value;
std::vector<std::pair<uint8_t*, size_t>>* g_rand_spans;
static int det_bytes(unsigned char* b, int n) {
    if (g_rand_fail_at && ++g_rand_calls == g_rand_fail_at) return g_rand_fail_value;
    if (g_rand_spans) {
        if (n > 0) g_rand_spans->push_back({b, (size_t) n});
        return n >= 0;
    }
    if (!g_det_rand) return RAND_OpenSSL()->bytes(b, n);
    uint64_t w = 0;
    for (int i = 0; i < n; i++) {
        if (i % 8 == 0) w = mix(rand_ctr.fetch_add(1, std::memory_order_relaxed) * 0xd1342543de82ef95ULL + 99);
        b[i] = (unsigned char) (w >> (8 * (i % 8)));
    }
    if (g_rand_log) g_rand_log->insert(g_rand_log->end(), b, b + (n > 0 ? n : 0));
    return 1;
}
static int det_status() { return 1; }
static RAND_METHOD det_method = {nullptr, det_bytes, nullptr, nullptr, det_bytes, det_status};

int g_fill = -1;
void (*g_on_free)(void*, size_t, bool, const void*, const std::string&);
struct Block {
    size_t n;
    void* pc;
    const char* file;
    int line;
    bool ossl;
    std::string where() const { return file ? std::string(file) + ":" + std::to_string(line) : std::string(); }
};
static std::atomic<bool> tracking{false};
static bool track_own;
static std::mutex track_mu;
static std::unordered_map<void*, Block>& blocks() {
    static auto* m = new std::unordered_map<void*, Block>;
    return *m;
}
static thread_local int tl_ossl = 0;
static thread_local const char* tl_file = nullptr;
static thread_local int tl_line = 0;
static thread_local bool tl_direct = false;   // inside BN_free, EC_POINT_free or CRYPTO_free called by /repo code itself
void (*g_on_ecb_decrypt)(const Bytes& key, const uint8_t* out, size_t n);
static std::unordered_map<const void*, Bytes>& ecb_keys() {
    static auto* m = new std::unordered_map<const void*, Bytes>;
    return *m;
}
static long g_balance;   // blocks /repo code holds
extern "C" long sec_balance() { return __atomic_load_n(&g_balance, __ATOMIC_RELAXED); }
static inline void count(const void* p, long by) {
    if (p && !tl_ossl) __atomic_fetch_add(&g_balance, by, __ATOMIC_RELAXED);
}
static bool in_repo(const char* file) { return file && strstr(file, "/reference/src/"); }   // OPENSSL_malloc called by /repo code
static void note_alloc(void* p, size_t n, void* pc, const char* file, int line, bool ossl) {
    if (!p || !tracking.load(std::memory_order_relaxed)) return;
    ossl = ossl && !in_repo(file);
    if (ossl && track_own) return;
    std::lock_guard<std::mutex> g(track_mu);
    blocks()[p] = {n, pc, file, line, ossl};
}
static void note_free(void* p) {
    if (!p || !tracking.load(std::memory_order_relaxed)) return;
    Block b;
    {
        std::lock_guard<std::mutex> g(track_mu);
        auto i = blocks().find(p);
        if (i == blocks().end()) return;
        b = i->second;
        blocks().erase(i);
    }
    if (g_on_free) g_on_free(p, b.n, b.ossl && !tl_direct, b.pc, b.where());
}
void track_begin(bool own) {
    track_own = own;
    std::lock_guard<std::mutex> g(track_mu);
    blocks().clear();
    tracking = true;
}
size_t track_live(bool own) {
    std::lock_guard<std::mutex> g(track_mu);
    if (!own) return blocks().size();
    size_t n = 0;
    for (auto& b : blocks()) n += !b.second.ossl;
    return n;
}
std::string origin(const void* pc, const std::string& where) {
    char buf[300] = "?";
    if (where.empty() && __sanitizer_symbolize_pc) __sanitizer_symbolize_pc((void*) pc, "%f %s:%l", buf, sizeof buf);
    return where.empty() ? buf : where;
}
std::string track_report(bool own) {
    std::lock_guard<std::mutex> g(track_mu);
    std::string o;
    int n = 0;
    for (auto& b : blocks()) {
        if (own && b.second.ossl) continue;
        if (n++ == 8) break;
        o += std::to_string(b.second.n) + " bytes from " + origin(b.second.pc, b.second.where()) + "\n";
    }
    return o;
}
void track_visit(const std::function<void(const uint8_t*, size_t, bool, const void*, const std::string&)>& f) {
    std::vector<std::pair<void*, Block>> v;
    {
        std::lock_guard<std::mutex> g(track_mu);
        for (auto& b : blocks()) v.push_back(b);
    }
    for (auto& b : v) f((const uint8_t*) b.first, b.second.n, b.second.ossl, b.second.pc, b.second.where());
}
void track_end() {
    std::lock_guard<std::mutex> g(track_mu);
    tracking = false;
    blocks().clear();
}
// OpenSSL's allocations go through these to the functions the library installs (porting/init.c), so that they can be told apart.
static std::atomic<CRYPTO_malloc_fn> lib_malloc{nullptr};
static std::atomic<CRYPTO_realloc_fn> lib_realloc{nullptr};
static std::atomic<CRYPTO_free_fn> lib_free{nullptr};
bool in_openssl_alloc() { return tl_ossl != 0; }
struct InOssl {
    InOssl(const char* f, int l) {
        tl_ossl++;
        tl_file = f;
        tl_line = l;
    }
    ~InOssl() { tl_ossl--; }
};
static void* ossl_malloc(size_t n, const char* f, int l) {
    InOssl in(f, l);
    auto fn = lib_malloc.load(std::memory_order_relaxed);
    return fn ? fn(n, f, l) : malloc(n);
}
static void* ossl_realloc(void* p, size_t n, const char* f, int l) {
    InOssl in(f, l);
    auto fn = lib_realloc.load(std::memory_order_relaxed);
    return fn ? fn(p, n, f, l) : realloc(p, n);
}
static void ossl_free(void* p, const char* f, int l) {
    InOssl in(f, l);
    auto fn = lib_free.load(std::memory_order_relaxed);
    if (fn) fn(p, f, l);
    else
        free(p);
}

static bool inject() {
    if (!g_alloc_armed || (tl_ossl && !g_alloc_openssl && !in_repo(tl_file))) return false;
    if (++g_alloc_count == g_alloc_fail_at) {
        g_alloc_failed = true;
        return true;
    }
    return false;
}

// ---- live object registry --------------------------------------------------------------------------------------
enum Kind { K_KEY, K_CIPHER, K_MAC, K_SVP };
struct Live {
    Kind k;
    bool direct;
    ta_client slot;
    sa_uuid uuid;
    uint64_t h;
};
static std::mutex live_mu;
static std::vector<Live> live;
static std::vector<std::pair<ta_client, sa_uuid>> sessions;
bool g_no_autoclean = false;

static void add_live(Kind k, const Caller& c, uint64_t h) {
    std::lock_guard<std::mutex> g(live_mu);
    live.push_back({k, c.direct, c.slot, c.uuid, h});
}
static void del_live(Kind k, const Caller& c, uint64_t h) {
    std::lock_guard<std::mutex> g(live_mu);
    for (size_t i = live.size(); i-- > 0;)
        if (live[i].k == k && live[i].h == h && live[i].direct == c.direct && (!c.direct || live[i].slot == c.slot)) {
            live.erase(live.begin() + i);
            return;
        }
}
static void reset_env() {
    g_now = 1700000000;
    g_video = video_output_state_t{0, 0, 0, 0, 1, true};
    g_caller = REE;
    g_alloc_armed = g_alloc_failed = g_alloc_openssl = g_alloc_spare_release = false;
    g_alloc_count = g_alloc_fail_at = 0;
    g_alloc_max = 0;
    g_fill = -1;
    g_on_free = nullptr;
    g_on_ecb_decrypt = nullptr;
    g_rand_log = nullptr;
    g_rand_spans = nullptr;
    g_rand_fail_at = 0;
    track_end();
    g_det_rand = true;
}
void close_all() {
    reset_env();
    std::vector<Live> l;
    {
        std::lock_guard<std::mutex> g(live_mu);
        l.swap(live);
    }
    for (int pass = 0; pass < 2; pass++)
        for (auto& x : l) {
            bool ctx = x.k == K_CIPHER || x.k == K_MAC;
            if (ctx != (pass == 0)) continue;
            if (x.direct) {
                bool open = false;
                for (auto& s : sessions) open |= s.first == x.slot;
                if (!open) continue;
            }
            g_caller = x.direct ? x.uuid : REE;
            Caller c;
            c.direct = x.direct;
            c.slot = x.slot;
            c.uuid = x.uuid;
            sa_status st = SA_STATUS_OK;
            if (x.k == K_KEY) st = c.key_release(x.h);
            if (x.k == K_CIPHER) st = c.cipher_release(x.h);
            if (x.k == K_MAC) st = c.mac_release(x.h);
            if (x.k == K_SVP) {
                void* m = nullptr;
                size_t n;
                st = c.svp_release(&m, &n, x.h);
            }
            if (st != SA_STATUS_OK)
                pbt::fail("releasing a live handle (kind %d, handle %llx) at the end of the case returned %s", x.k,
                        (unsigned long long) x.h, sname(st));
        }
    auto s = sessions;
    sessions.clear();
    for (auto& x : s)
        if (ta_sa_close(x.first, &x.second) != SA_STATUS_OK) pbt::fail("closing a session failed");
    g_caller = REE;
}

static void begin_case(uint64_t seed) {
    live.clear();
    sessions.clear();
    reset_env();
    rand_ctr = mix(seed) | 1;
}
static void end_case() {
    if (!g_no_autoclean) close_all();
}
static void init_once();
static struct Init {
    Init() {
        __real_CRYPTO_set_mem_functions(ossl_malloc, ossl_realloc, ossl_free);
        pbt::case_begin = begin_case;
        pbt::case_end = end_case;
        pbt::before_fork = init_once;
    }
} init;

const char* sname(sa_status s) {
    static const char* n[] = {"OK", "NO_AVAILABLE_RESOURCE_SLOT", "INVALID_KEY_FORMAT", "INVALID_KEY_TYPE", "NULL_PARAMETER",
            "INVALID_PARAMETER", "OPERATION_NOT_ALLOWED", "INVALID_SVP_BUFFER", "OPERATION_NOT_SUPPORTED", "SELF_TEST",
            "VERIFICATION_FAILED", "INTERNAL_ERROR", "HW_ERROR"};
    return (unsigned) s < 13 ? n[s] : "?";
}

// ---- Caller ----------------------------------------------------------------------------------------------------
Caller Caller::ree() {
    Caller c;
    c.uuid = REE;
    return c;
}
Caller Caller::open(const sa_uuid& u) {
    Caller c;
    c.direct = true;
    c.uuid = u;
    sa_status s = ta_sa_init(&c.slot, &c.uuid);
    if (s != SA_STATUS_OK) pbt::fail("ta_sa_init: %s", sname(s));
    sessions.push_back({c.slot, u});
    return c;
}
void Caller::close() {
    for (size_t i = 0; i < sessions.size(); i++)
        if (sessions[i].first == slot) {
            sessions.erase(sessions.begin() + i);
            break;
        }
    {
        std::lock_guard<std::mutex> g(live_mu);
        for (size_t i = live.size(); i-- > 0;)
            if (live[i].direct && live[i].slot == slot) live.erase(live.begin() + i);
    }
    sa_status s = ta_sa_close(slot, &uuid);
    if (s != SA_STATUS_OK) pbt::fail("ta_sa_close: %s", sname(s));
}
#define CALL(NAME, ...) (direct ? ta_sa_##NAME(__VA_ARGS__, slot, &uuid) : sa_##NAME(__VA_ARGS__))
sa_status Caller::key_generate(sa_key* k, const sa_rights* r, sa_key_type t, void* p) const {
    sa_status s = CALL(key_generate, k, r, t, p);
    if (s == SA_STATUS_OK) add_live(K_KEY, *this, *k);
    return s;
}
sa_status Caller::key_export(void* out, size_t* n, const void* m, size_t mn, sa_key k) const {
    return CALL(key_export, out, n, m, mn, k);
}
sa_status Caller::key_import(sa_key* k, sa_key_format f, const void* in, size_t n, void* p) const {
    sa_status s = CALL(key_import, k, f, in, n, p);
    if (s == SA_STATUS_OK) add_live(K_KEY, *this, *k);
    return s;
}
sa_status Caller::key_unwrap(sa_key* k, const sa_rights* r, sa_key_type t, void* tp, sa_cipher_algorithm a, void* ap, sa_key w,
        const void* in, size_t n) const {
    sa_status s = CALL(key_unwrap, k, r, t, tp, a, ap, w, in, n);
    if (s == SA_STATUS_OK) add_live(K_KEY, *this, *k);
    return s;
}
sa_status Caller::key_get_public(void* out, size_t* n, sa_key k) const { return CALL(key_get_public, out, n, k); }
sa_status Caller::key_derive(sa_key* k, const sa_rights* r, sa_kdf_algorithm a, void* p) const {
    sa_status s = CALL(key_derive, k, r, a, p);
    if (s == SA_STATUS_OK) add_live(K_KEY, *this, *k);
    return s;
}
sa_status Caller::key_exchange(sa_key* k, const sa_rights* r, sa_key_exchange_algorithm a, sa_key priv, const void* pub, size_t n,
        void* p) const {
    sa_status s = CALL(key_exchange, k, r, a, priv, pub, n, p);
    if (s == SA_STATUS_OK && k && *k != INVALID_HANDLE && a != SA_KEY_EXCHANGE_ALGORITHM_NETFLIX_AUTHENTICATED_DH)
        add_live(K_KEY, *this, *k);
    if (s == SA_STATUS_OK && a == SA_KEY_EXCHANGE_ALGORITHM_NETFLIX_AUTHENTICATED_DH) {
        auto* np = (sa_key_exchange_parameters_netflix_authenticated_dh*) p;
        if (k && *k != INVALID_HANDLE) add_live(K_KEY, *this, *k);
        if (np->out_ke) add_live(K_KEY, *this, *np->out_ke);
        if (np->out_kh) add_live(K_KEY, *this, *np->out_kh);
    }
    return s;
}
sa_status Caller::key_release(sa_key k) const {
    sa_status s = CALL(key_release, k);
    if (s == SA_STATUS_OK) del_live(K_KEY, *this, k);
    return s;
}
sa_status Caller::key_header(sa_header* h, sa_key k) const { return CALL(key_header, h, k); }
sa_status Caller::key_digest(void* out, size_t* n, sa_key k, sa_digest_algorithm d) const { return CALL(key_digest, out, n, k, d); }
sa_status Caller::cipher_init(sa_crypto_cipher_context* c, sa_cipher_algorithm a, sa_cipher_mode m, sa_key k, void* p) const {
    sa_status s = CALL(crypto_cipher_init, c, a, m, k, p);
    if (s == SA_STATUS_OK) add_live(K_CIPHER, *this, *c);
    return s;
}
sa_status Caller::cipher_update_iv(sa_crypto_cipher_context c, const void* iv, size_t n) const {
    return CALL(crypto_cipher_update_iv, c, iv, n);
}
sa_status Caller::cipher_process(sa_buffer* out, sa_crypto_cipher_context c, sa_buffer* in, size_t* n) const {
    return CALL(crypto_cipher_process, out, c, in, n);
}
sa_status Caller::cipher_process_last(sa_buffer* out, sa_crypto_cipher_context c, sa_buffer* in, size_t* n, void* p) const {
    return CALL(crypto_cipher_process_last, out, c, in, n, p);
}
sa_status Caller::cipher_release(sa_crypto_cipher_context c) const {
    sa_status s = CALL(crypto_cipher_release, c);
    if (s == SA_STATUS_OK) del_live(K_CIPHER, *this, c);
    return s;
}
sa_status Caller::mac_init(sa_crypto_mac_context* c, sa_mac_algorithm a, sa_key k, void* p) const {
    sa_status s = CALL(crypto_mac_init, c, a, k, p);
    if (s == SA_STATUS_OK) add_live(K_MAC, *this, *c);
    return s;
}
sa_status Caller::mac_process(sa_crypto_mac_context c, const void* in, size_t n) const { return CALL(crypto_mac_process, c, in, n); }
sa_status Caller::mac_process_key(sa_crypto_mac_context c, sa_key k) const { return CALL(crypto_mac_process_key, c, k); }
sa_status Caller::mac_compute(void* out, size_t* n, sa_crypto_mac_context c) const { return CALL(crypto_mac_compute, out, n, c); }
sa_status Caller::mac_release(sa_crypto_mac_context c) const {
    sa_status s = CALL(crypto_mac_release, c);
    if (s == SA_STATUS_OK) del_live(K_MAC, *this, c);
    return s;
}
sa_status Caller::sign(void* out, size_t* n, sa_signature_algorithm a, sa_key k, const void* in, size_t in_n, const void* p) const {
    return direct ? ta_sa_crypto_sign(out, n, a, k, in, in_n, p, slot, &uuid)
                  : sa_crypto_sign(out, n, a, k, in, in_n, const_cast<void*>(p));
}
sa_status Caller::random(void* out, size_t n) const { return CALL(crypto_random, out, n); }
sa_status Caller::svp_create(sa_svp_buffer* b, void* mem, size_t n) const {
    sa_status s = CALL(svp_buffer_create, b, mem, n);
    if (s == SA_STATUS_OK) add_live(K_SVP, *this, *b);
    return s;
}
sa_status Caller::svp_release(void** mem, size_t* n, sa_svp_buffer b) const {
    sa_status s = CALL(svp_buffer_release, mem, n, b);
    if (s == SA_STATUS_OK) del_live(K_SVP, *this, b);
    return s;
}
sa_status Caller::svp_write(sa_svp_buffer out, const void* in, size_t n, sa_svp_offset* o, size_t on) const {
    return CALL(svp_buffer_write, out, in, n, o, on);
}
sa_status Caller::svp_copy(sa_svp_buffer out, sa_svp_buffer in, sa_svp_offset* o, size_t on) const {
    return CALL(svp_buffer_copy, out, in, o, on);
}
sa_status Caller::svp_check(sa_svp_buffer b, size_t off, size_t n, sa_digest_algorithm d, const void* h, size_t hn) const {
    return CALL(svp_buffer_check, b, off, n, d, h, hn);
}
sa_status Caller::svp_key_check(sa_key k, sa_buffer* in, size_t n, const void* e, size_t en) const {
    return CALL(svp_key_check, k, in, n, e, en);
}
sa_status Caller::cenc(size_t n, sa_sample* s) const { return CALL(process_common_encryption, n, s); }
sa_status Caller::get_name(char* out, size_t* n) const { return CALL(get_name, out, n); }

sa_key Caller::must_import_sym(const Bytes& b, const sa_rights& r) const {
    sa_import_parameters_symmetric p = {&r};
    sa_key k = INVALID_HANDLE;
    sa_status s = key_import(&k, SA_KEY_FORMAT_SYMMETRIC_BYTES, b.data(), b.size(), &p);
    if (s != SA_STATUS_OK) pbt::fail("import of a %zu byte symmetric key: %s", b.size(), sname(s));
    return k;
}

// ---- rights ----------------------------------------------------------------------------------------------------
const char* const FLAG_NAMES[14] = {"EXCHANGE", "DERIVE", "UNWRAP", "ENCRYPT", "DECRYPT", "SIGN", "ANALOG_UNPROT", "ANALOG_CGMSA",
        "DIGITAL_UNPROT", "HDCP14", "HDCP22", "DTCP", "SVP_OPTIONAL", "CACHEABLE"};
sa_rights rights_all() {
    sa_rights r;
    memset(&r, 0, sizeof r);
    r.not_on_or_after = UINT64_MAX;
    r.usage_flags = 0x3fff;
    r.allowed_tas[0] = ALL_MATCH;
    return r;
}
static std::string flags(uint64_t f) {
    std::string s;
    for (int i = 0; i < 14; i++)
        if (f & bit(i)) s += std::string(s.empty() ? "" : "|") + FLAG_NAMES[i];
    if (f >> 14) s += "|+";
    return s.empty() ? "0" : s;
}
std::string show(const sa_rights& r) {
    int n = 0;
    for (auto& t : r.allowed_tas)
        if (memcmp(&t, "\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0", 16)) n++;
    return "{usage=" + flags(r.usage_flags) + " child=" + flags(r.child_usage_flags) + " nb=" + std::to_string(r.not_before) +
           " na=" + std::to_string(r.not_on_or_after) + " tas=" + std::to_string(n) + "}";
}

// ---- key material ----------------------------------------------------------------------------------------------
const sa_elliptic_curve ALL_CURVES[9] = {SA_ELLIPTIC_CURVE_NIST_P256, SA_ELLIPTIC_CURVE_NIST_P384, SA_ELLIPTIC_CURVE_NIST_P521,
        SA_ELLIPTIC_CURVE_ED25519, SA_ELLIPTIC_CURVE_X25519, SA_ELLIPTIC_CURVE_ED448, SA_ELLIPTIC_CURVE_X448,
        SA_ELLIPTIC_CURVE_NIST_P192, SA_ELLIPTIC_CURVE_NIST_P224};
bool is_pcurve(sa_elliptic_curve c) { return c <= SA_ELLIPTIC_CURVE_NIST_P521 || c >= SA_ELLIPTIC_CURVE_NIST_P192; }
size_t curve_size(sa_elliptic_curve c) {
    static const size_t n[] = {32, 48, 66, 32, 32, 57, 56, 24, 28};
    return n[c];
}
int curve_nid(sa_elliptic_curve c) {
    static const int n[] = {NID_X9_62_prime256v1, NID_secp384r1, NID_secp521r1, NID_ED25519, NID_X25519, NID_ED448, NID_X448,
            NID_X9_62_prime192v1, NID_secp224r1};
    return n[c];
}
const char* curve_name(sa_elliptic_curve c) {
    static const char* n[] = {"P256", "P384", "P521", "ED25519", "X25519", "ED448", "X448", "P192", "P224"};
    return n[c];
}
Bytes pkcs8(EVP_PKEY* p) {
    PKCS8_PRIV_KEY_INFO* i = EVP_PKEY2PKCS8(p);
    if (!i) return {};
    unsigned char* o = nullptr;
    int n = i2d_PKCS8_PRIV_KEY_INFO(i, &o);
    Bytes b(o, o + (n > 0 ? n : 0));
    OPENSSL_free(o);
    PKCS8_PRIV_KEY_INFO_free(i);
    return b;
}
EVP_PKEY* from_spki(const Bytes& b) {
    const unsigned char* p = b.data();
    EVP_PKEY* k = d2i_PUBKEY(nullptr, &p, b.size());
    if (k && p != b.data() + b.size()) {
        EVP_PKEY_free(k);
        return nullptr;
    }
    return k;
}
Bytes Mat::pub() const {
    unsigned char* o = nullptr;
    int n = i2d_PUBKEY(pkey, &o);
    Bytes b(o, o + (n > 0 ? n : 0));
    OPENSSL_free(o);
    return b;
}
std::string Mat::show() const {
    if (type == SA_KEY_TYPE_SYMMETRIC) return "sym" + std::to_string(clear.size());
    if (type == SA_KEY_TYPE_EC) return std::string("ec-") + curve_name(curve);
    if (type == SA_KEY_TYPE_RSA) return "rsa" + std::to_string(size * 8);
    return "dh" + std::to_string(size * 8);
}
Mat mat_sym_bytes(const Bytes& b) {
    Mat m;
    m.clear = b;
    m.size = b.size();
    return m;
}
Mat mat_sym(Src& src, size_t n) { return mat_sym_bytes(src.bytes(n)); }
Mat mat_pkey(EVP_PKEY* p, sa_key_type t, sa_elliptic_curve c, size_t size) {
    Mat m;
    m.type = t;
    m.curve = c;
    m.size = size;
    m.pkey = p;
    m.own = std::shared_ptr<EVP_PKEY>(p, EVP_PKEY_free);
    m.clear = pkcs8(p);
    return m;
}
Mat mat_ec(Src& src, sa_elliptic_curve c) {
    size_t n = curve_size(c);
    Bytes seed = src.bytes(n);
    if (!is_pcurve(c)) {
        EVP_PKEY* p = EVP_PKEY_new_raw_private_key(curve_nid(c), nullptr, seed.data(), n);
        if (!p) pbt::fail("harness: raw key");
        return mat_pkey(p, SA_KEY_TYPE_EC, c, n);
    }
    EC_GROUP* g = EC_GROUP_new_by_curve_name(curve_nid(c));
    BIGNUM *d = BN_bin2bn(seed.data(), n, nullptr), *o = BN_new();
    EC_GROUP_get_order(g, o, nullptr);
    BN_sub_word(o, 1);
    BN_CTX* x = BN_CTX_new();
    BN_mod(d, d, o, x);
    BN_add_word(d, 1);
    EC_POINT* q = EC_POINT_new(g);
    EC_POINT_mul(g, q, d, nullptr, nullptr, x);
    Bytes pt(2 * n + 1);
    EC_POINT_point2oct(g, q, POINT_CONVERSION_UNCOMPRESSED, pt.data(), pt.size(), x);
    OSSL_PARAM_BLD* b = OSSL_PARAM_BLD_new();
    OSSL_PARAM_BLD_push_utf8_string(b, OSSL_PKEY_PARAM_GROUP_NAME, OBJ_nid2sn(curve_nid(c)), 0);
    OSSL_PARAM_BLD_push_BN_pad(b, OSSL_PKEY_PARAM_PRIV_KEY, d, n);
    OSSL_PARAM_BLD_push_octet_string(b, OSSL_PKEY_PARAM_PUB_KEY, pt.data(), pt.size());
    OSSL_PARAM* ps = OSSL_PARAM_BLD_to_param(b);
    EVP_PKEY_CTX* k = EVP_PKEY_CTX_new_from_name(nullptr, "EC", nullptr);
    EVP_PKEY* p = nullptr;
    if (EVP_PKEY_fromdata_init(k) != 1 || EVP_PKEY_fromdata(k, &p, EVP_PKEY_KEYPAIR, ps) != 1) pbt::fail("harness: ec key");
    EVP_PKEY_CTX_free(k);
    OSSL_PARAM_free(ps);
    OSSL_PARAM_BLD_free(b);
    EC_POINT_free(q);
    BN_CTX_free(x);
    BN_free(d);
    BN_free(o);
    EC_GROUP_free(g);
    return mat_pkey(p, SA_KEY_TYPE_EC, c, n);
}
static std::map<size_t, std::vector<EVP_PKEY*>> rsa_pool;
static void init_once() {
    static bool done = false;
    if (done) return;
    done = true;
    RAND_set_rand_method(&det_method);
    log_set_level(getenv("SEC_LOG") ? LOG_LEVEL_TRACE : 9);
    reset_env();
    std::string dir = DATA_DIR;
    for (const char* f : {"rsa512", "rsa1024", "rsa1536", "rsa2048", "rsa3072", "rsa4096"}) {
        FILE* fp = fopen((dir + "/" + f + ".pem").c_str(), "r");
        if (!fp) {
            fprintf(stderr, "missing %s/%s.pem\n", dir.c_str(), f);
            _Exit(2);
        }
        while (EVP_PKEY* p = PEM_read_PrivateKey(fp, nullptr, nullptr, nullptr)) rsa_pool[atoi(f + 3) / 8].push_back(p);
        fclose(fp);
    }
}
Mat mat_rsa(Src& src, size_t n) {
    auto& v = rsa_pool[n];
    if (v.empty()) pbt::fail("harness: no rsa key of %zu bytes", n);
    EVP_PKEY* p = v[src.below(v.size())];
    EVP_PKEY_up_ref(p);
    return mat_pkey(p, SA_KEY_TYPE_RSA, SA_ELLIPTIC_CURVE_NIST_P256, n);
}
static Bytes bn_bytes(BIGNUM* b) {
    Bytes r(BN_num_bytes(b));
    BN_bn2bin(b, r.data());
    BN_free(b);
    return r;
}
const std::vector<DhGroup>& dh_groups() {
    static std::vector<DhGroup> v;
    if (v.empty()) {
        Bytes g = {2};
        v.push_back({"modp768", bn_bytes(BN_get_rfc2409_prime_768(nullptr)), g});
        v.push_back({"modp1024", bn_bytes(BN_get_rfc2409_prime_1024(nullptr)), g});
        v.push_back({"modp1536", bn_bytes(BN_get_rfc3526_prime_1536(nullptr)), g});
        v.push_back({"modp2048", bn_bytes(BN_get_rfc3526_prime_2048(nullptr)), g});
        v.push_back({"modp3072", bn_bytes(BN_get_rfc3526_prime_3072(nullptr)), g});
        v.push_back({"modp4096", bn_bytes(BN_get_rfc3526_prime_4096(nullptr)), g});
    }
    return v;
}

sa_status import_mat(const Caller& c, sa_key* key, const Mat& m, const sa_rights& r) {
    if (m.type == SA_KEY_TYPE_SYMMETRIC) {
        sa_import_parameters_symmetric p = {&r};
        return c.key_import(key, SA_KEY_FORMAT_SYMMETRIC_BYTES, m.clear.data(), m.clear.size(), &p);
    }
    if (m.type == SA_KEY_TYPE_EC) {
        sa_import_parameters_ec_private_bytes p = {&r, m.curve};
        return c.key_import(key, SA_KEY_FORMAT_EC_PRIVATE_BYTES, m.clear.data(), m.clear.size(), &p);
    }
    sa_import_parameters_rsa_private_key_info p = {&r};
    return c.key_import(key, SA_KEY_FORMAT_RSA_PRIVATE_KEY_INFO, m.clear.data(), m.clear.size(), &p);
}
sa_key must_import(const Caller& c, const Mat& m, const sa_rights& r) {
    sa_key k = INVALID_HANDLE;
    sa_status s = import_mat(c, &k, m, r);
    if (s != SA_STATUS_OK) pbt::fail("import of %s: %s", m.show().c_str(), sname(s));
    return k;
}

// ---- reference cryptography ------------------------------------------------------------------------------------
const sa_digest_algorithm ALL_DIGESTS[4] = {SA_DIGEST_ALGORITHM_SHA1, SA_DIGEST_ALGORITHM_SHA256, SA_DIGEST_ALGORITHM_SHA384,
        SA_DIGEST_ALGORITHM_SHA512};
const EVP_MD* md_of(sa_digest_algorithm d) {
    switch (d) {
        case SA_DIGEST_ALGORITHM_SHA1: return EVP_sha1();
        case SA_DIGEST_ALGORITHM_SHA256: return EVP_sha256();
        case SA_DIGEST_ALGORITHM_SHA384: return EVP_sha384();
        default: return EVP_sha512();
    }
}
size_t md_len(sa_digest_algorithm d) { return EVP_MD_size(md_of(d)); }
Bytes ref_digest(sa_digest_algorithm d, const Bytes& in) {
    Bytes o(md_len(d));
    EVP_Digest(in.data(), in.size(), o.data(), nullptr, md_of(d), nullptr);
    return o;
}
Bytes ref_hmac(sa_digest_algorithm d, const Bytes& key, const Bytes& in) {
    // written out from RFC 2104
    size_t bs = EVP_MD_block_size(md_of(d));
    Bytes k = key.size() > bs ? ref_digest(d, key) : key;
    k.resize(bs);
    Bytes i(k), o(k);
    for (auto& b : i) b ^= 0x36;
    for (auto& b : o) b ^= 0x5c;
    return ref_digest(d, cat({o, ref_digest(d, cat({i, in}))}));
}
static const EVP_CIPHER* aes_cipher(size_t n, int mode) {
    if (mode == 0) return n == 32 ? EVP_aes_256_ecb() : EVP_aes_128_ecb();
    return nullptr;
}
Bytes aes_ecb(const Bytes& key, const Bytes& in, bool enc) {
    EVP_CIPHER_CTX* c = EVP_CIPHER_CTX_new();
    EVP_CipherInit_ex(c, aes_cipher(key.size(), 0), nullptr, key.data(), nullptr, enc);
    EVP_CIPHER_CTX_set_padding(c, 0);
    Bytes o(in.size() + 16);
    int n = 0;
    if (!in.empty()) EVP_CipherUpdate(c, o.data(), &n, in.data(), (int) in.size());
    o.resize(n);
    EVP_CIPHER_CTX_free(c);
    return o;
}
static void xorb(uint8_t* a, const uint8_t* b, size_t n) {
    for (size_t i = 0; i < n; i++) a[i] ^= b[i];
}
Bytes aes_cbc(const Bytes& key, const Bytes& iv, const Bytes& in, bool enc) {
    Bytes o(in.size()), prev(iv);
    if (!enc) {
        o = aes_ecb(key, in, false);
        for (size_t i = 0; i + 16 <= in.size(); i += 16) xorb(&o[i], i ? &in[i - 16] : iv.data(), 16);
        return o;
    }
    for (size_t i = 0; i + 16 <= in.size(); i += 16) {
        Bytes b = sub(in, i, 16);
        xorb(b.data(), prev.data(), 16);
        prev = aes_ecb(key, b, true);
        std::copy(prev.begin(), prev.end(), o.begin() + i);
    }
    return o;
}
Bytes aes_ctr_manual(const Bytes& key, const Bytes& ctr, const Bytes& in, int counter_bytes) {
    Bytes c(ctr), blocks;
    for (size_t i = 0; i < in.size(); i += 16) {
        blocks.insert(blocks.end(), c.begin(), c.end());
        for (int j = 15; j >= 16 - counter_bytes; j--)
            if (++c[j]) break;
    }
    Bytes ks = aes_ecb(key, blocks, true), o(in);
    xorb(o.data(), ks.data(), in.size());
    return o;
}
Bytes aes_ctr(const Bytes& key, const Bytes& ctr, const Bytes& in) { return aes_ctr_manual(key, ctr, in, 16); }
bool aead(bool gcm, const Bytes& key, const Bytes& iv, const Bytes& aad, const Bytes& in, bool enc, Bytes& out, Bytes& tag) {
    const EVP_CIPHER* ci = gcm ? (key.size() == 32 ? EVP_aes_256_gcm() : EVP_aes_128_gcm()) : EVP_chacha20_poly1305();
    EVP_CIPHER_CTX* c = EVP_CIPHER_CTX_new();
    EVP_CipherInit_ex(c, ci, nullptr, nullptr, nullptr, enc);
    EVP_CIPHER_CTX_ctrl(c, EVP_CTRL_AEAD_SET_IVLEN, (int) iv.size(), nullptr);
    EVP_CipherInit_ex(c, nullptr, nullptr, key.data(), iv.data(), enc);
    int n = 0, m = 0;
    bool ok = true;
    if (!aad.empty()) EVP_CipherUpdate(c, nullptr, &n, aad.data(), (int) aad.size());
    out.assign(in.size() + 32, 0);
    n = 0;
    if (!in.empty()) EVP_CipherUpdate(c, out.data(), &n, in.data(), (int) in.size());
    if (!enc) EVP_CIPHER_CTX_ctrl(c, EVP_CTRL_AEAD_SET_TAG, (int) tag.size(), tag.data());
    ok = EVP_CipherFinal_ex(c, out.data() + n, &m) == 1;
    out.resize(n + m);
    if (enc) {
        tag.assign(16, 0);
        EVP_CIPHER_CTX_ctrl(c, EVP_CTRL_AEAD_GET_TAG, 16, tag.data());
    }
    EVP_CIPHER_CTX_free(c);
    return ok;
}
static uint32_t ld32(const uint8_t* p) { return p[0] | p[1] << 8 | p[2] << 16 | (uint32_t) p[3] << 24; }
Bytes chacha(const Bytes& key, const Bytes& counter, const Bytes& nonce, const Bytes& in) {
    // written out from RFC 8439
    Bytes o(in);
    uint32_t s[16] = {0x61707865, 0x3320646e, 0x79622d32, 0x6b206574};
    for (int i = 0; i < 8; i++) s[4 + i] = ld32(&key[4 * i]);
    s[12] = ld32(counter.data());
    for (int i = 0; i < 3; i++) s[13 + i] = ld32(&nonce[4 * i]);
    for (size_t off = 0; off < in.size(); off += 64, s[12]++) {
        uint32_t x[16];
        memcpy(x, s, sizeof x);
        auto q = [&](int a, int b, int c, int d) {
            auto rot = [](uint32_t v, int n) { return v << n | v >> (32 - n); };
            x[a] += x[b], x[d] = rot(x[d] ^ x[a], 16), x[c] += x[d], x[b] = rot(x[b] ^ x[c], 12);
            x[a] += x[b], x[d] = rot(x[d] ^ x[a], 8), x[c] += x[d], x[b] = rot(x[b] ^ x[c], 7);
        };
        for (int i = 0; i < 10; i++) {
            q(0, 4, 8, 12), q(1, 5, 9, 13), q(2, 6, 10, 14), q(3, 7, 11, 15);
            q(0, 5, 10, 15), q(1, 6, 11, 12), q(2, 7, 8, 13), q(3, 4, 9, 14);
        }
        for (size_t i = 0; i < 64 && off + i < in.size(); i++) o[off + i] ^= (uint8_t) ((x[i / 4] + s[i / 4]) >> (8 * (i % 4)));
    }
    return o;
}
Bytes pkcs7_pad(const Bytes& in) {
    size_t n = 16 - in.size() % 16;
    Bytes o(in);
    o.insert(o.end(), n, (uint8_t) n);
    return o;
}
Bytes ref_cmac(const Bytes& key, const Bytes& in) {
    // written out from RFC 4493
    auto dbl = [](Bytes b) {
        int msb = b[0] >> 7;
        for (int i = 0; i < 16; i++) b[i] = (uint8_t) (b[i] << 1 | (i < 15 ? b[i + 1] >> 7 : 0));
        if (msb) b[15] ^= 0x87;
        return b;
    };
    Bytes k1 = dbl(aes_ecb(key, Bytes(16), true)), k2 = dbl(k1);
    size_t n = in.empty() ? 1 : (in.size() + 15) / 16;
    Bytes m(in);
    if (in.empty() || in.size() % 16) {
        m.push_back(0x80);
        m.resize(n * 16);
        xorb(&m[(n - 1) * 16], k2.data(), 16);
    } else
        xorb(&m[(n - 1) * 16], k1.data(), 16);
    Bytes x(16);
    for (size_t i = 0; i < n; i++) {
        xorb(x.data(), &m[i * 16], 16);
        x = aes_ecb(key, x, true);
    }
    return x;
}
Bytes ref_hkdf(sa_digest_algorithm d, const Bytes& key, const Bytes& salt, const Bytes& info, size_t n) {
    Bytes prk = ref_hmac(d, salt.empty() ? Bytes(md_len(d)) : salt, key), t, o;
    for (int i = 1; o.size() < n; i++) {
        t = ref_hmac(d, prk, cat({t, info, Bytes{(uint8_t) i}}));
        o.insert(o.end(), t.begin(), t.end());
    }
    o.resize(n);
    return o;
}
Bytes ref_concat(sa_digest_algorithm d, const Bytes& key, const Bytes& info, size_t n) {
    Bytes o;
    for (uint32_t i = 1; o.size() < n; i++) {
        Bytes t = ref_digest(d, cat({Bytes{(uint8_t) (i >> 24), (uint8_t) (i >> 16), (uint8_t) (i >> 8), (uint8_t) i}, key, info}));
        o.insert(o.end(), t.begin(), t.end());
    }
    o.resize(n);
    return o;
}
Bytes ref_x963(sa_digest_algorithm d, const Bytes& key, const Bytes& info, size_t n) {
    Bytes o;
    for (uint32_t i = 1; o.size() < n; i++) {
        Bytes t = ref_digest(d, cat({key, Bytes{(uint8_t) (i >> 24), (uint8_t) (i >> 16), (uint8_t) (i >> 8), (uint8_t) i}, info}));
        o.insert(o.end(), t.begin(), t.end());
    }
    o.resize(n);
    return o;
}
Bytes ref_cmac_kdf(const Bytes& key, const Bytes& other, uint8_t counter, size_t n) {
    Bytes o;
    for (uint8_t i = counter; o.size() < n; i++) {
        Bytes t = ref_cmac(key, cat({Bytes{i}, other}));
        o.insert(o.end(), t.begin(), t.end());
    }
    o.resize(n);
    return o;
}
Bytes cat(std::initializer_list<Bytes> l) {
    Bytes o;
    for (auto& b : l) o.insert(o.end(), b.begin(), b.end());
    return o;
}
Bytes sub(const Bytes& b, size_t off, size_t n) { return Bytes(b.begin() + off, b.begin() + off + n); }
std::string b64(const Bytes& b, bool url, bool pad) {
    const char* t = url ? "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"
                        : "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    std::string o;
    for (size_t i = 0; i < b.size(); i += 3) {
        uint32_t v = b[i] << 16 | (i + 1 < b.size() ? b[i + 1] << 8 : 0) | (i + 2 < b.size() ? b[i + 2] : 0);
        o += t[v >> 18];
        o += t[v >> 12 & 63];
        if (i + 1 < b.size()) o += t[v >> 6 & 63];
        else if (pad) o += '=';
        if (i + 2 < b.size()) o += t[v & 63];
        else if (pad) o += '=';
    }
    return o;
}
Bytes key_digest(const Caller& c, sa_key k, sa_digest_algorithm d) {
    Bytes o(md_len(d));
    size_t n = o.size();
    sa_status s = c.key_digest(o.data(), &n, k, d);
    if (s != SA_STATUS_OK) pbt::fail("key_digest: %s", sname(s));
    o.resize(n);
    return o;
}
bool header_eq(const sa_header& a, const sa_header& b, std::string* why) {
#define F(x)                                       \
    if (memcmp(&a.x, &b.x, sizeof a.x)) {          \
        if (why) *why = #x " differs";             \
        return false;                              \
    }
    F(magic) F(rights.id) F(rights.usage_flags) F(rights.child_usage_flags) F(rights.not_before) F(rights.not_on_or_after)
    F(rights.allowed_tas) F(type) F(size)
#undef F
    if (a.type == SA_KEY_TYPE_EC && a.type_parameters.curve != b.type_parameters.curve) {
        if (why) *why = "curve differs";
        return false;
    }
    if (a.type == SA_KEY_TYPE_DH) {
        auto &p = a.type_parameters.dh_parameters, &q = b.type_parameters.dh_parameters;
        if (p.p_length != q.p_length || p.g_length != q.g_length || memcmp(p.p, q.p, std::min<size_t>(p.p_length, DH_MAX_MOD_SIZE)) ||
                memcmp(p.g, q.g, std::min<size_t>(p.g_length, DH_MAX_MOD_SIZE))) {
            if (why) *why = "dh parameters differ";
            return false;
        }
    }
    return true;
}

bool Guarded::intact() const {
    for (size_t i = 0; i < G; i++)
        if (mem[i] != f || mem[G + n + i] != f) return false;
    return true;
}
bool Guarded::untouched(size_t a, size_t b) const {
    for (size_t i = a; i < b; i++)
        if (mem[G + i] != f) return false;
    return true;
}
Exact::Exact(const Bytes& b) : p((uint8_t*) __real_malloc(b.size() ? b.size() : 1)), n(b.size()) {
    if (n) memcpy(p, b.data(), n);
}
Exact::~Exact() { free(p); }
__attribute__((noinline, no_sanitize("address"))) void prime_stack(uint64_t word) {
    volatile uint64_t a[6144];
    for (size_t i = 0; i < 6144; i++) a[i] = word;
}
sa_buffer clear_buf(void* p, size_t len, size_t off) {
    sa_buffer b;
    memset(&b, 0, sizeof b);
    b.buffer_type = SA_BUFFER_TYPE_CLEAR;
    b.context.clear.buffer = p;
    b.context.clear.length = len;
    b.context.clear.offset = off;
    return b;
}
sa_buffer svp_buf(sa_svp_buffer h, size_t off) {
    sa_buffer b;
    memset(&b, 0, sizeof b);
    b.buffer_type = SA_BUFFER_TYPE_SVP;
    b.context.svp.buffer = h;
    b.context.svp.offset = off;
    return b;
}
}  // namespace sec

// ---- link-time stand-ins ---------------------------------------------------------------------------------------
extern "C" {
time_t __wrap_time(time_t* t) {
    if (t) *t = (time_t) sec::g_now;
    return (time_t) sec::g_now;
}
bool __wrap_video_output_poll(video_output_state_t* s) {
    if (!s) return false;
    *s = sec::g_video;
    return true;
}
sa_status __wrap_transport_authenticate_caller(sa_uuid* u) {
    if (!u) return SA_STATUS_NULL_PARAMETER;
    *u = sec::g_caller;
    return SA_STATUS_OK;
}
int __wrap_CRYPTO_set_mem_functions(CRYPTO_malloc_fn m, CRYPTO_realloc_fn r, CRYPTO_free_fn f) {
    sec::lib_malloc.store(m, std::memory_order_relaxed);
    sec::lib_realloc.store(r, std::memory_order_relaxed);
    sec::lib_free.store(f, std::memory_order_relaxed);
    return 1;
}
void* __wrap_malloc(size_t n) {
    using namespace sec;
    if (g_alloc_armed && n > g_alloc_max) g_alloc_max = n;
    if (inject()) return nullptr;
    void* p = __real_malloc(n);
    if (p && g_fill >= 0) memset(p, g_fill, n);
    count(p, 1);
    note_alloc(p, n, __builtin_return_address(0), tl_ossl ? tl_file : nullptr, tl_line, tl_ossl);
    return p;
}
void __wrap_free(void* p) {
    sec::count(p, -1);
    sec::note_free(p);
    __real_free(p);
}
void* __wrap_calloc(size_t a, size_t b) {
    using namespace sec;
    if (inject()) return nullptr;
    void* p = __real_calloc(a, b);
    count(p, 1);
    note_alloc(p, a * b, __builtin_return_address(0), tl_ossl ? tl_file : nullptr, tl_line, tl_ossl);
    return p;
}
void* __wrap_realloc(void* p, size_t n) {
    using namespace sec;
    if (inject()) return nullptr;
    Block b = {0, nullptr, nullptr, 0, false};
    bool known = false;
    if (tracking) {
        std::lock_guard<std::mutex> g(track_mu);
        auto i = blocks().find(p);
        if (i != blocks().end()) {
            known = true;
            b = i->second;
            blocks().erase(i);
        }
    }
    void* q;
    if (g_on_free && known && n) {   // the old block is given back: show what it held
        q = __real_malloc(n);
        if (q) {
            memcpy(q, p, b.n < n ? b.n : n);
            g_on_free(p, b.n, b.ossl, b.pc, b.where());
            __real_free(p);
        }
    } else
        q = __real_realloc(p, n);
    count(p, -1);
    count(q, 1);
    note_alloc(q, n, __builtin_return_address(0), tl_ossl ? tl_file : nullptr, tl_line, tl_ossl);
    return q;
}
#define SPARE(f, type)                                              \
    sa_status __real_##f(type x);                                   \
    sa_status __wrap_##f(type x) {                                  \
        bool armed = sec::g_alloc_armed;                            \
        if (sec::g_alloc_spare_release) sec::g_alloc_armed = false; \
        sa_status s = __real_##f(x);                                \
        if (sec::g_alloc_spare_release) sec::g_alloc_armed = armed; \
        return s;                                                   \
    }
SPARE(sa_key_release, sa_key)
SPARE(sa_crypto_cipher_release, sa_crypto_cipher_context)
SPARE(sa_crypto_mac_release, sa_crypto_mac_context)
// What /repo code itself gives back through OpenSSL's plain free functions is memory it gives back.
void __real_BN_free(BIGNUM*);
void __real_EC_POINT_free(EC_POINT*);
void __real_CRYPTO_free(void*, const char*, int);
void __wrap_BN_free(BIGNUM* b) {
    sec::tl_direct = true;
    __real_BN_free(b);
    sec::tl_direct = false;
}
void __wrap_EC_POINT_free(EC_POINT* b) {
    sec::tl_direct = true;
    __real_EC_POINT_free(b);
    sec::tl_direct = false;
}
void __wrap_CRYPTO_free(void* p, const char* file, int line) {
    sec::tl_direct = true;
    __real_CRYPTO_free(p, file, line);
    sec::tl_direct = false;
}
int __real_EVP_DecryptInit_ex(EVP_CIPHER_CTX*, const EVP_CIPHER*, ENGINE*, const unsigned char*, const unsigned char*);
int __real_EVP_DecryptUpdate(EVP_CIPHER_CTX*, unsigned char*, int*, const unsigned char*, int);
int __wrap_EVP_DecryptInit_ex(EVP_CIPHER_CTX* x, const EVP_CIPHER* c, ENGINE* e, const unsigned char* key, const unsigned char* iv) {
    int r = __real_EVP_DecryptInit_ex(x, c, e, key, iv);
    if (sec::g_on_ecb_decrypt && r == 1 && key) {
        sec::ecb_keys().erase(x);
        if (EVP_CIPHER_CTX_get_mode(x) == EVP_CIPH_ECB_MODE)
            sec::ecb_keys()[x] = sec::Bytes(key, key + EVP_CIPHER_CTX_get_key_length(x));
    }
    return r;
}
int __wrap_EVP_DecryptUpdate(EVP_CIPHER_CTX* x, unsigned char* out, int* n, const unsigned char* in, int in_length) {
    int r = __real_EVP_DecryptUpdate(x, out, n, in, in_length);
    if (sec::g_on_ecb_decrypt && r == 1) {
        auto k = sec::ecb_keys().find(x);
        if (k != sec::ecb_keys().end()) sec::g_on_ecb_decrypt(k->second, out, (size_t) *n);
    }
    return r;
}
}
