// Harness side view of SecAPI: environment control, key material, thin wrappers and a reference implementation of
// the standards on top of OpenSSL's own primitives.
#pragma once
#include "pbt.hpp"
#include "sa.h"
#include "sa_ta_types.h"
#include "ta_sa.h"
#include <memory>
#include <openssl/bn.h>
#include <openssl/ec.h>
#include <openssl/evp.h>
#include <openssl/x509.h>
#include <string>
#include <vector>
extern "C" {
#include "porting/video_output.h"
sa_status ta_open_session_handler(void** session_context);
void ta_close_session_handler(void* session_context);
sa_status ta_invoke_command_handler(void* session_context, SA_COMMAND_ID command_id, const uint32_t param_types[4], ta_param params[4]);
}

namespace sec {
using pbt::Bytes;
using pbt::Src;

// ---- environment the TA sees (link-time --wrap; no change to /repo) ----
extern int64_t g_now;                      // value of time(); reset to a fixed instant for every case
extern video_output_state_t g_video;       // reset to the reference default for every case
extern sa_uuid g_caller;                   // identity the transport reports; reset to the REE identity
extern bool g_det_rand;                    // OpenSSL random replaced by a per-case deterministic stream
extern const sa_uuid REE;
extern const sa_uuid ALL_MATCH;
extern const sa_uuid TA_A, TA_B;

// allocation fault injection: fail the n-th allocation (1-based) made by /repo code (and OpenSSL) while armed
extern long g_alloc_count, g_alloc_fail_at;
extern bool g_alloc_armed, g_alloc_failed, g_alloc_openssl;
extern bool g_alloc_spare_release;  // no failure inside sa_key_release and its like, also when the library calls them
extern size_t g_alloc_max;          // largest malloc request by /repo code while armed
// the random source: record of its output; its g_rand_fail_at-th call since g_rand_calls was set to 0 returns g_rand_fail_value;
// with g_rand_spans it only notes which memory it was asked to fill
extern Bytes* g_rand_log;
extern long g_rand_fail_at, g_rand_calls;
extern int g_rand_fail_value;
extern std::vector<std::pair<uint8_t*, size_t>>* g_rand_spans;
extern int g_fill;                  // >= 0: memory /repo code gets from malloc starts with this byte
// memory tracking: what /repo code and OpenSSL allocate between track_begin and now and have not freed
void track_begin(bool own = false);      // own: leave out OpenSSL's
size_t track_live(bool own = false);   // blocks still held; own: without OpenSSL's
std::string track_report(bool own = false);         // where they were allocated
// the blocks still held; pc and where name the place of the allocation, see origin
void track_visit(const std::function<void(const uint8_t* p, size_t n, bool openssl, const void* pc, const std::string& where)>& f);
std::string origin(const void* pc, const std::string& where);
void track_end();
// while tracking: called before a tracked block is freed
extern void (*g_on_free)(void* p, size_t n, bool openssl, const void* pc, const std::string& where);
// called with the result of every AES-ECB decryption /repo code asks OpenSSL for (one thread only)
extern void (*g_on_ecb_decrypt)(const Bytes& key, const uint8_t* out, size_t n);
extern bool g_no_autoclean;         // the target releases everything itself; do not do it at case end

const char* sname(sa_status s);

// ---- caller: through the client library (REE) or directly into the TA as a given client ----
struct Caller {
    bool direct = false;
    ta_client slot = INVALID_HANDLE;
    sa_uuid uuid;
    static Caller ree();                             // through sa_*
    static Caller open(const sa_uuid& u);            // ta_sa_init
    void close();

    sa_status key_generate(sa_key* key, const sa_rights* rights, sa_key_type type, void* p) const;
    sa_status key_export(void* out, size_t* n, const void* mixin, size_t mn, sa_key key) const;
    sa_status key_import(sa_key* key, sa_key_format f, const void* in, size_t n, void* p) const;
    sa_status key_unwrap(sa_key* key, const sa_rights* r, sa_key_type t, void* tp, sa_cipher_algorithm a, void* ap, sa_key w,
            const void* in, size_t n) const;
    sa_status key_get_public(void* out, size_t* n, sa_key key) const;
    sa_status key_derive(sa_key* key, const sa_rights* r, sa_kdf_algorithm a, void* p) const;
    sa_status key_exchange(sa_key* key, const sa_rights* r, sa_key_exchange_algorithm a, sa_key priv, const void* pub, size_t n,
            void* p) const;
    sa_status key_release(sa_key key) const;
    sa_status key_header(sa_header* h, sa_key key) const;
    sa_status key_digest(void* out, size_t* n, sa_key key, sa_digest_algorithm d) const;
    sa_status cipher_init(sa_crypto_cipher_context* c, sa_cipher_algorithm a, sa_cipher_mode m, sa_key key, void* p) const;
    sa_status cipher_update_iv(sa_crypto_cipher_context c, const void* iv, size_t n) const;
    sa_status cipher_process(sa_buffer* out, sa_crypto_cipher_context c, sa_buffer* in, size_t* n) const;
    sa_status cipher_process_last(sa_buffer* out, sa_crypto_cipher_context c, sa_buffer* in, size_t* n, void* p) const;
    sa_status cipher_release(sa_crypto_cipher_context c) const;
    sa_status mac_init(sa_crypto_mac_context* c, sa_mac_algorithm a, sa_key key, void* p) const;
    sa_status mac_process(sa_crypto_mac_context c, const void* in, size_t n) const;
    sa_status mac_process_key(sa_crypto_mac_context c, sa_key key) const;
    sa_status mac_compute(void* out, size_t* n, sa_crypto_mac_context c) const;
    sa_status mac_release(sa_crypto_mac_context c) const;
    sa_status sign(void* out, size_t* n, sa_signature_algorithm a, sa_key key, const void* in, size_t in_n, const void* p) const;
    sa_status random(void* out, size_t n) const;
    sa_status svp_create(sa_svp_buffer* b, void* mem, size_t n) const;
    sa_status svp_release(void** mem, size_t* n, sa_svp_buffer b) const;
    sa_status svp_write(sa_svp_buffer out, const void* in, size_t n, sa_svp_offset* o, size_t on) const;
    sa_status svp_copy(sa_svp_buffer out, sa_svp_buffer in, sa_svp_offset* o, size_t on) const;
    sa_status svp_check(sa_svp_buffer b, size_t off, size_t n, sa_digest_algorithm d, const void* h, size_t hn) const;
    sa_status svp_key_check(sa_key key, sa_buffer* in, size_t n, const void* exp, size_t en) const;
    sa_status cenc(size_t n, sa_sample* s) const;
    sa_status get_name(char* out, size_t* n) const;

    // convenience: throw pbt::Failure when the call does not succeed
    sa_key must_import_sym(const Bytes& b, const sa_rights& r) const;
};

// ---- rights ----
sa_rights rights_all();
inline uint64_t bit(int b) { return (uint64_t) 1 << b; }
std::string show(const sa_rights& r);
extern const char* const FLAG_NAMES[14];

// ---- key material known to the harness ----
struct Mat {
    sa_key_type type = SA_KEY_TYPE_SYMMETRIC;
    Bytes clear;                       // symmetric bytes, or PKCS#8 DER
    sa_elliptic_curve curve = SA_ELLIPTIC_CURVE_NIST_P256;
    size_t size = 0;                   // header.size
    Bytes dh_p, dh_g;
    EVP_PKEY* pkey = nullptr;          // owned by shared_ptr below
    std::shared_ptr<EVP_PKEY> own;
    Bytes pub() const;                 // SubjectPublicKeyInfo DER
    std::string show() const;
};
Mat mat_sym(Src& src, size_t n);
Mat mat_sym_bytes(const Bytes& b);
Mat mat_rsa(Src& src, size_t modulus_bytes);      // from the committed pool
Mat mat_ec(Src& src, sa_elliptic_curve c);        // fresh, from a generated scalar/seed
Mat mat_pkey(EVP_PKEY* p, sa_key_type t, sa_elliptic_curve c, size_t size);
extern const sa_elliptic_curve ALL_CURVES[9];
bool is_pcurve(sa_elliptic_curve c);
size_t curve_size(sa_elliptic_curve c);
int curve_nid(sa_elliptic_curve c);
const char* curve_name(sa_elliptic_curve c);
struct DhGroup {
    const char* name;
    Bytes p, g;
};
const std::vector<DhGroup>& dh_groups();
Bytes pkcs8(EVP_PKEY* p);
EVP_PKEY* from_spki(const Bytes& b);

sa_status import_mat(const Caller& c, sa_key* key, const Mat& m, const sa_rights& r);   // any type except DH
sa_key must_import(const Caller& c, const Mat& m, const sa_rights& r);

// ---- reference cryptography (OpenSSL primitives, one shot) ----
const EVP_MD* md_of(sa_digest_algorithm d);
size_t md_len(sa_digest_algorithm d);
extern const sa_digest_algorithm ALL_DIGESTS[4];
Bytes ref_digest(sa_digest_algorithm d, const Bytes& in);
Bytes ref_hmac(sa_digest_algorithm d, const Bytes& key, const Bytes& in);
Bytes ref_cmac(const Bytes& key, const Bytes& in);
Bytes aes_ecb(const Bytes& key, const Bytes& in, bool enc);                 // whole blocks
Bytes aes_cbc(const Bytes& key, const Bytes& iv, const Bytes& in, bool enc);   // whole blocks
Bytes aes_ctr(const Bytes& key, const Bytes& ctr, const Bytes& in);
Bytes aes_ctr_manual(const Bytes& key, const Bytes& ctr, const Bytes& in, int counter_bytes);
bool aead(bool gcm, const Bytes& key, const Bytes& iv, const Bytes& aad, const Bytes& in, bool enc, Bytes& out, Bytes& tag);
Bytes chacha(const Bytes& key, const Bytes& counter4, const Bytes& nonce, const Bytes& in);
Bytes pkcs7_pad(const Bytes& in);
Bytes ref_hkdf(sa_digest_algorithm d, const Bytes& key, const Bytes& salt, const Bytes& info, size_t n);
Bytes ref_concat(sa_digest_algorithm d, const Bytes& key, const Bytes& info, size_t n);
Bytes ref_x963(sa_digest_algorithm d, const Bytes& key, const Bytes& info, size_t n);
Bytes ref_cmac_kdf(const Bytes& key, const Bytes& other, uint8_t counter, size_t n);
Bytes cat(std::initializer_list<Bytes> l);
Bytes sub(const Bytes& b, size_t off, size_t n);
std::string b64(const Bytes& b, bool url = false, bool pad = true);

// key bytes as reported by the API: digest of a symmetric key under SHA-256
Bytes key_digest(const Caller& c, sa_key k, sa_digest_algorithm d = SA_DIGEST_ALGORITHM_SHA256);
bool header_eq(const sa_header& a, const sa_header& b, std::string* why);

// A memory area with guard bytes: anything written outside [0, n) is noticed.
struct Guarded {
    Bytes mem;
    size_t n;
    static const size_t G = 48;
    explicit Guarded(size_t n_, uint8_t fill = 0xa5) : mem(n_ + 2 * G, fill), n(n_), f(fill) {}
    uint8_t* data() { return mem.data() + G; }
    bool intact() const;                                   // guards untouched
    bool untouched(size_t from, size_t to) const;          // bytes [from,to) still the fill value
    Bytes get(size_t off, size_t len) const { return Bytes(mem.begin() + G + off, mem.begin() + G + off + len); }
    uint8_t f;
};
// Exact-size heap copy so that AddressSanitizer sees any read past the end.
struct Exact {
    uint8_t* p;
    size_t n;
    explicit Exact(const Bytes& b);
    ~Exact();
    Exact(const Exact&) = delete;
    operator void*() const { return p; }
};

// Overwrites the unused part of the stack with a repeated word, so that uninitialised locals take that value.
void prime_stack(uint64_t word);

sa_buffer clear_buf(void* p, size_t len, size_t off = 0);
sa_buffer svp_buf(sa_svp_buffer b, size_t off = 0);

// live sessions opened by Caller::open are closed at case end if still open
void close_all();
bool in_openssl_alloc();            // OpenSSL is allocating or freeing on this thread, and may hold its own locks
}  // namespace sec
