// C28: capacity is always recoverable. Histories of calls, good and failing, with the number of objects each store must hold
// counted by the harness; afterwards exactly the rest of the store can be filled, and no memory stays allocated.
#include "commands.hpp"
#include "optable.hpp"
#include <cstring>
#include <openssl/err.h>
using namespace sec;

namespace {
enum Kind { KEY, CIPHER, MAC, SVP, KINDS };
const char* KNAME[] = {"keys", "ciphers", "MACs", "SVP buffers"};
const size_t SLOTS = 256;
uint8_t g_mem[64];

// Through the API: fills a store until it refuses.
struct Filler {
    Caller c;
    sa_key base = INVALID_HANDLE;     // key for contexts
    sa_status one(Kind k, uint64_t* h) {
        *h = INVALID_HANDLE;
        sa_rights r = rights_all();
        sa_import_parameters_symmetric p = {&r};
        static const uint8_t b[16] = {9, 8, 7};
        sa_crypto_cipher_context x = INVALID_HANDLE;
        sa_status s;
        switch (k) {
            case KEY: return c.key_import(h, SA_KEY_FORMAT_SYMMETRIC_BYTES, b, 16, &p);
            case CIPHER: s = c.cipher_init(&x, SA_CIPHER_ALGORITHM_AES_ECB, SA_CIPHER_MODE_ENCRYPT, base, nullptr); *h = x; return s;
            case MAC: s = c.mac_init(&x, SA_MAC_ALGORITHM_CMAC, base, nullptr); *h = x; return s;
            default: return c.svp_create(h, g_mem, sizeof g_mem);
        }
    }
    sa_status drop(Kind k, uint64_t h) {
        void* m;
        size_t n;
        switch (k) {
            case KEY: return c.key_release(h);
            case CIPHER: return c.cipher_release(h);
            case MAC: return c.mac_release(h);
            default: return c.svp_release(&m, &n, h);
        }
    }
    std::vector<uint64_t> fill(Kind k, size_t max, const char* when) {
        std::vector<uint64_t> v;
        std::set<uint64_t> seen;
        while (v.size() < max) {
            uint64_t h;
            sa_status s = one(k, &h);
            if (s != SA_STATUS_OK) {
                REQUIRE(s == SA_STATUS_NO_AVAILABLE_RESOURCE_SLOT, "%s: one more of %zu %s: %s", when, v.size(), KNAME[k], sname(s));
                REQUIRE(h == INVALID_HANDLE, "%s: a refused call returned a handle", when);
                break;
            }
            REQUIRE(seen.insert(h).second, "%s: the same handle twice", when);
            v.push_back(h);
        }
        return v;
    }
    void empty(Kind k, std::vector<uint64_t>& v) {
        for (auto h : v) {
            sa_status s = drop(k, h);
            REQUIRE(s == SA_STATUS_OK, "releasing one of the %s: %s", KNAME[k], sname(s));
        }
        v.clear();
    }
    void capacity(Kind k, size_t live, const char* when) {
        std::vector<uint64_t> v = fill(k, 2 * SLOTS, when);
        REQUIRE(v.size() == SLOTS - live, "%s: %zu %s are alive and %zu more could be created, %zu in all", when, live, KNAME[k], v.size(), live + v.size());
        empty(k, v);
    }
};
}  // namespace

// ---- commands, well formed, deformed and with failing allocations ----
namespace {
struct Counted {
    World w;
    std::set<uint64_t> live[KINDS];
    sa_status run(Cmd& c) { return w.run(c); }
    void open(Src& src) {
        w.open(src);
        for (auto k : w.keys) live[KEY].insert(k);
        live[KEY].insert(w.guard_key);
        for (auto k : w.ciphers) live[CIPHER].insert(k);
        for (auto k : w.macs) live[MAC].insert(k);
        live[MAC].insert(w.guard_mac);
        for (auto k : w.svps) live[SVP].insert(k);
        live[SVP].insert(w.guard_svp);
    }
    void add(Kind k, uint64_t h) { REQUIRE(live[k].insert(h).second, "a handle of the %s was given out twice", KNAME[k]); }
    void gone(Kind k, uint64_t h) { REQUIRE(live[k].erase(h) == 1, "one of the %s was released that was not alive", KNAME[k]); }
    template <class T> T in(const Cmd& c) { return w.get<T>(c); }
    // what a successful command did to the stores
    void account(const Cmd& c) {
        switch (c.id) {
            case SA_KEY_GENERATE: add(KEY, in<sa_key_generate_s>(c).key); break;
            case SA_KEY_DERIVE: add(KEY, in<sa_key_derive_s>(c).key); break;
            case SA_KEY_UNWRAP: add(KEY, in<sa_key_unwrap_s>(c).key); break;
            case SA_KEY_IMPORT: add(KEY, in<sa_key_import_s>(c).key); break;
            case SA_KEY_EXCHANGE: {
                auto x = in<sa_key_exchange_s>(c);
                add(KEY, x.key);
                if (x.key_exchange_algorithm == SA_KEY_EXCHANGE_ALGORITHM_NETFLIX_AUTHENTICATED_DH) {
                    sa_key_exchange_parameters_netflix_authenticated_dh_s p;
                    memcpy(&p, c.p[2].data.data(), sizeof p);
                    add(KEY, p.out_ke);
                    add(KEY, p.out_kh);
                    w.keys.push_back(p.out_ke);
                    w.keys.push_back(p.out_kh);
                }
                w.keys.push_back(x.key);
                break;
            }
            case SA_CRYPTO_CIPHER_INIT: add(CIPHER, in<sa_crypto_cipher_init_s>(c).context); w.ciphers.push_back(in<sa_crypto_cipher_init_s>(c).context); break;
            case SA_CRYPTO_MAC_INIT: add(MAC, in<sa_crypto_mac_init_s>(c).context); w.macs.push_back(in<sa_crypto_mac_init_s>(c).context); break;
            case SA_SVP_BUFFER_CREATE: add(SVP, in<sa_svp_buffer_create_s>(c).svp_buffer); w.svps.push_back(in<sa_svp_buffer_create_s>(c).svp_buffer); break;
            case SA_KEY_RELEASE: gone(KEY, in<sa_key_release_s>(c).key); break;
            case SA_CRYPTO_CIPHER_RELEASE: gone(CIPHER, in<sa_crypto_cipher_release_s>(c).cipher_context); break;
            case SA_CRYPTO_MAC_RELEASE: gone(MAC, in<sa_crypto_mac_release_s>(c).context); break;
            case SA_SVP_BUFFER_RELEASE: gone(SVP, in<sa_svp_buffer_release_s>(c).svp_buffer); break;
            default: break;
        }
        switch (c.id) {
            case SA_KEY_GENERATE: w.keys.push_back(in<sa_key_generate_s>(c).key); if (in<sa_key_generate_s>(c).key_type == SA_KEY_TYPE_DH) w.dh.push_back(w.keys.back()); break;
            case SA_KEY_DERIVE: w.keys.push_back(in<sa_key_derive_s>(c).key); break;
            case SA_KEY_UNWRAP: w.keys.push_back(in<sa_key_unwrap_s>(c).key); break;
            case SA_KEY_IMPORT: w.keys.push_back(in<sa_key_import_s>(c).key); break;
            default: break;
        }
    }
    sa_status one(Kind k, uint64_t* h) {
        static const uint8_t b[16] = {9, 8, 7};
        sa_status s;
        if (k == KEY) {
            sa_key_import_s q;
            memset(&q, 0, sizeof q);
            q.api_version = API_VERSION;
            q.key_format = SA_KEY_FORMAT_SYMMETRIC_BYTES;
            q.key = INVALID_HANDLE;
            s = w.simple(SA_KEY_IMPORT, q, {par(IN, Bytes(b, b + 16)), parT(IN, rights_all())});
            *h = q.key;
        } else if (k == CIPHER) {
            sa_crypto_cipher_init_s q;
            memset(&q, 0, sizeof q);
            q.api_version = API_VERSION;
            q.cipher_algorithm = SA_CIPHER_ALGORITHM_AES_ECB;
            q.cipher_mode = SA_CIPHER_MODE_ENCRYPT;
            q.key = w.guard_key;
            s = w.simple(SA_CRYPTO_CIPHER_INIT, q, {});
            *h = q.context;
        } else if (k == MAC) {
            sa_crypto_mac_init_s q;
            memset(&q, 0, sizeof q);
            q.api_version = API_VERSION;
            q.mac_algorithm = SA_MAC_ALGORITHM_CMAC;
            q.key = w.guard_key;
            s = w.simple(SA_CRYPTO_MAC_INIT, q, {});
            *h = q.context;
        } else {
            sa_svp_buffer_create_s q;
            memset(&q, 0, sizeof q);
            q.api_version = API_VERSION;
            q.svp_memory = (uint64_t) g_mem;
            q.size = sizeof g_mem;
            s = w.simple(SA_SVP_BUFFER_CREATE, q, {});
            *h = q.svp_buffer;
        }
        return s;
    }
    void drop(Kind k, uint64_t h) {
        sa_status s;
        if (k == KEY) { sa_key_release_s q; memset(&q, 0, sizeof q); q.api_version = API_VERSION; q.key = h; s = w.simple(SA_KEY_RELEASE, q, {}, IN); }
        else if (k == CIPHER) { sa_crypto_cipher_release_s q; memset(&q, 0, sizeof q); q.api_version = API_VERSION; q.cipher_context = h; s = w.simple(SA_CRYPTO_CIPHER_RELEASE, q, {}, IN); }
        else if (k == MAC) { sa_crypto_mac_release_s q; memset(&q, 0, sizeof q); q.api_version = API_VERSION; q.context = h; s = w.simple(SA_CRYPTO_MAC_RELEASE, q, {}, IN); }
        else { sa_svp_buffer_release_s q; memset(&q, 0, sizeof q); q.api_version = API_VERSION; q.svp_buffer = h; s = w.simple(SA_SVP_BUFFER_RELEASE, q, {}); }
        REQUIRE(s == SA_STATUS_OK, "one of the %s that was created cannot be released: %s", KNAME[k], sname(s));
    }
    void capacity(Kind k, const char* when) {
        std::vector<uint64_t> v;
        for (;;) {
            uint64_t h;
            sa_status s = one(k, &h);
            if (s != SA_STATUS_OK) {
                REQUIRE(s == SA_STATUS_NO_AVAILABLE_RESOURCE_SLOT, "%s: creating one more of the %s: %s", when, KNAME[k], sname(s));
                break;
            }
            REQUIRE(!live[k].count(h), "%s: a new one of the %s has the handle of a living one", when, KNAME[k]);
            v.push_back(h);
        }
        REQUIRE(v.size() + live[k].size() == SLOTS, "%s: %zu %s are alive and %zu more can be created: %zu in all", when, live[k].size(), KNAME[k], v.size(), v.size() + live[k].size());
        for (auto h : v) drop(k, h);
    }
    void release_all() {
        for (int k = KINDS - 1; k >= 0; k--)
            for (auto h : std::set<uint64_t>(live[k])) {
                if (h == (k == KEY ? w.guard_key : k == MAC ? w.guard_mac : k == SVP ? w.guard_svp : INVALID_HANDLE)) continue;
                drop((Kind) k, h);
                live[k].erase(h);
            }
    }
};
}  // namespace

PROP(c28_commands, "a creating command failed, or objects were created and released in the history", 60, 60) {
    g_caller = src.coin() ? REE : TA_A;
    {
        ta_client warm = INVALID_HANDLE;    // the table of sessions itself stays
        sa_uuid u = g_caller;
        REQUIRE(ta_sa_init(&warm, &u) == SA_STATUS_OK && ta_sa_close(warm, &u) == SA_STATUS_OK, "harness: a session");
    }
    OPENSSL_thread_stop();
    ERR_clear_error();
    track_begin();
    size_t made = 0, freed = 0, failed = 0;
    {
        Counted n;
        n.open(src);
        for (size_t i = 0, m = src.range(1, 30); i < m; i++) {
            Cmd c = make(src, n.w);
            std::string what;
            if (src.chance(1, 4)) what = deform(src, c);
            c.bad = layout(c);
            bool inject = src.chance(1, 6);
            pbt::trace("%s%s", show(c).c_str(), what.empty() ? "" : (" [" + what + "]").c_str());
            size_t before = track_live(true);
            if (inject) {
                g_alloc_openssl = false;
                g_alloc_count = 0;
                g_alloc_fail_at = 1 + (long) src.below(12);
                g_alloc_failed = false;
                g_alloc_armed = true;
            }
            sa_status s = n.run(c);
            g_alloc_armed = false;
            if (inject && g_alloc_failed) pbt::trace("  allocation %ld failed", g_alloc_fail_at);
            bool creates = c.id == SA_KEY_GENERATE || c.id == SA_KEY_DERIVE || c.id == SA_KEY_UNWRAP || c.id == SA_KEY_IMPORT || c.id == SA_KEY_EXCHANGE ||
                           c.id == SA_CRYPTO_CIPHER_INIT || c.id == SA_CRYPTO_MAC_INIT || c.id == SA_SVP_BUFFER_CREATE;
            bool releases = c.id == SA_KEY_RELEASE || c.id == SA_CRYPTO_CIPHER_RELEASE || c.id == SA_CRYPTO_MAC_RELEASE || c.id == SA_SVP_BUFFER_RELEASE;
            pbt::label("command %u %s", c.id, s == SA_STATUS_OK ? "ok" : "failed");
            if (s == SA_STATUS_OK) {
                made += creates;
                freed += releases;
                n.account(c);
            } else if (creates) failed++;
            if (s != SA_STATUS_OK || (!creates && !releases)) {
                size_t now = track_live(true);
                REQUIRE(now == before, "a command (%s) that neither creates nor releases anything changed the number of allocated blocks by %ld:\n%s", sname(s),
                        (long) now - (long) before, track_report(true).c_str());
            }
        }
        Kind k = (Kind) src.below(KINDS);
        if (src.chance(1, 2)) n.capacity(k, "after the history");
        if (src.chance(2, 3)) {
            n.release_all();
            n.capacity(src.coin() ? k : (Kind) src.below(KINDS), "after everything was released");
        }
        n.w.close();
    }
    OPENSSL_thread_stop();
    size_t left = track_live(true);
    std::string rep = left ? track_report(true) : "";
    track_end();
    REQUIRE(left == 0, "%zu blocks remain allocated after the session was closed:\n%s", left, rep.c_str());
    if (failed || (made && freed)) pbt::nontrivial();
}

// ---- a full, or almost full, store ----
PROP(c28_full, "the store had too little room for what the call creates, or exactly enough", 60, 40) {
    g_no_autoclean = true;
    OPENSSL_thread_stop();
    Filler f;
    bool direct = src.coin();
    f.c = direct ? Caller::open(TA_A) : Caller::ree();
    sa_rights all = rights_all();
    f.base = must_import(f.c, mat_sym_bytes(Bytes(16, 0x42)), all);
    Kind kind = (Kind) src.weighted({5, 2, 2, 1});
    Op op;
    sa_key key = INVALID_HANDLE;
    size_t need = 1;
    if (kind == KEY) {
        for (;;) {
            op = gen_op(src);
            if (op.creates_key || op.name.compare(0, 7, "netflix") == 0 || op.name == "unwrap" || op.name == "export") break;
            if (src.chance(1, 3)) break;    // an operation that creates no key: it works with a full store
        }
        if (op.setup) op.setup(f.c);
        key = op.make ? op.make(f.c, all) : must_import(f.c, op.mat, all);
    }
    // how many keys the call creates, and that it works at all
    std::string before;
    if (kind == KEY) {
        Obs o;
        size_t most = 0;
        for (auto& p : op.phases) {
            sa_status s = p.fn(f.c, key, o);
            REQUIRE(s == SA_STATUS_OK, "harness: %s: %s", op.name.c_str(), sname(s));
            most = std::max(most, o.keys.size());
        }
        need = most;
        for (auto k : o.keys) f.c.key_release(k);
        if (o.ctx != INVALID_HANDLE) {
            if (f.c.cipher_release(o.ctx) != SA_STATUS_OK) f.c.mac_release(o.ctx);
        }
    }
    size_t room = src.below(need + 2);
    std::vector<uint64_t> v = f.fill(kind, 2 * SLOTS, "filling");
    REQUIRE(v.size() >= 200, "only %zu %s could be created", v.size(), KNAME[kind]);
    size_t total = v.size();
    for (size_t i = 0; i < room; i++) {
        size_t j = src.below(v.size());
        REQUIRE(f.drop(kind, v[j]) == SA_STATUS_OK, "releasing one");
        v.erase(v.begin() + (long) j);
    }
    Bytes digest = kind == KEY ? key_digest(f.c, v[src.below(v.size())]) : Bytes();
    pbt::trace("%s: %s, room for %zu, %zu needed", KNAME[kind], kind == KEY ? op.name.c_str() : "create", room, need);
    pbt::label("%s/%s/%s", KNAME[kind], kind == KEY ? op.name.c_str() : "create", room < need ? "too little room" : "room");
    ERR_clear_error();
    track_begin();
    for (int i = 0, m = (int) src.range(1, 3); i < m; i++) {
        if (kind != KEY) {
            uint64_t h;
            sa_status s = f.one(kind, &h);
            if (room == 0) REQUIRE(s == SA_STATUS_NO_AVAILABLE_RESOURCE_SLOT && h == INVALID_HANDLE, "a full store: %s", sname(s));
            else {
                REQUIRE(s == SA_STATUS_OK, "room for %zu: %s", room, sname(s));
                REQUIRE(f.drop(kind, h) == SA_STATUS_OK, "release");
            }
        } else {
            Obs o;
            sa_status s = SA_STATUS_OK;
            for (auto& p : op.phases) {
                s = p.fn(f.c, key, o);
                if (s != SA_STATUS_OK) break;
            }
            if (room < need) {
                REQUIRE(s == SA_STATUS_NO_AVAILABLE_RESOURCE_SLOT, "%s with room for %zu of %zu keys: %s", op.name.c_str(), room, need, sname(s));
                REQUIRE(o.intact, "%s refused for want of room, and returned a key handle", op.name.c_str());
            } else
                REQUIRE(s == SA_STATUS_OK, "%s with room for %zu keys: %s", op.name.c_str(), room, sname(s));
            for (auto k : o.keys) REQUIRE(f.c.key_release(k) == SA_STATUS_OK, "%s: a created key cannot be released", op.name.c_str());
            if (o.ctx != INVALID_HANDLE && f.c.cipher_release(o.ctx) != SA_STATUS_OK)
                REQUIRE(f.c.mac_release(o.ctx) == SA_STATUS_OK, "context release");
        }
    }
    OPENSSL_thread_stop();
    size_t left = track_live(true);
    std::string rep = left ? track_report(true) : "";
    track_end();
    REQUIRE(left == 0, "%zu blocks remain allocated:\n%s", left, rep.c_str());
    std::vector<uint64_t> more = f.fill(kind, 2 * SLOTS, "afterwards");
    REQUIRE(more.size() == room, "there was room for %zu, and after the call for %zu", room, more.size());
    f.empty(kind, more);
    if (kind == KEY) {
        for (auto h : v) REQUIRE(key_digest(f.c, h) == digest, "an existing key changed");
    }
    f.empty(kind, v);
    more = f.fill(kind, 2 * SLOTS, "at the end");
    REQUIRE(more.size() == total, "%zu %s could be created, and at the end %zu", total, KNAME[kind], more.size());
    f.empty(kind, more);
    if (room <= need) pbt::nontrivial();
    g_no_autoclean = false;
}

// ---- sessions ----
PROP(c28_sessions, "a session was closed with objects alive in it", 60, 60) {
    g_no_autoclean = true;
    OPENSSL_thread_stop();
    ERR_clear_error();
    struct S {
        sa_uuid u;
        ta_client c;
        size_t live[KINDS] = {0, 0, 0, 0};
        sa_key key = INVALID_HANDLE;
    };
    std::vector<S> open;
    auto uuid = [&](unsigned i) {
        sa_uuid u = TA_A;
        u.id[7] = (uint8_t) i;
        return u;
    };
    auto close = [&](S& s) { return ta_sa_close(s.c, &s.u); };
    auto begin = [&](S& s) {
        s.c = INVALID_HANDLE;
        return ta_sa_init(&s.c, &s.u);
    };
    auto as = [&](S& s) {
        Filler f;
        f.c = Caller::ree();
        f.c.direct = true;
        f.c.slot = s.c;
        f.c.uuid = s.u;
        f.base = s.key;
        return f;
    };
    size_t base = SLOTS;
    {   // what the process itself holds
        std::vector<S> all;
        for (;;) {
            S s;
            s.u = uuid(200);
            if (begin(s) != SA_STATUS_OK) break;
            all.push_back(s);
        }
        base = all.size();
        REQUIRE(base >= 250 && base <= SLOTS, "%zu sessions can be opened", base);
        for (auto& s : all) REQUIRE(close(s) == SA_STATUS_OK, "close");
    }
    track_begin();
    bool busy = false;
    for (size_t i = 0, n = src.range(1, 25); i < n; i++) {
        if (open.empty() || src.chance(1, 3)) {
            S s;
            s.u = uuid((unsigned) src.below(4));
            REQUIRE(begin(s) == SA_STATUS_OK, "a session cannot be opened");
            Filler f = as(s);
            uint64_t h;
            REQUIRE(f.one(KEY, &h) == SA_STATUS_OK, "import");
            s.key = h;
            s.live[KEY] = 1;
            open.push_back(s);
        } else if (src.chance(1, 4)) {
            size_t j = src.below(open.size());
            S& s = open[j];
            sa_uuid wrong = uuid(99);
            if (src.chance(1, 4)) REQUIRE(ta_sa_close(s.c, &wrong) != SA_STATUS_OK, "a session was closed by someone else");
            bool was = s.live[KEY] + s.live[CIPHER] + s.live[MAC] + s.live[SVP] > 1;
            REQUIRE(close(s) == SA_STATUS_OK, "close");
            pbt::label("closed with %s", was ? "objects alive" : "one key");
            busy = busy || was;
            REQUIRE(close(s) != SA_STATUS_OK, "a session could be closed twice");
            open.erase(open.begin() + (long) j);
        } else {
            S& s = open[src.below(open.size())];
            Filler f = as(s);
            Kind k = (Kind) src.below(KINDS);
            if (src.chance(1, 10)) {
                f.capacity(k, s.live[k], "in the middle");
                continue;
            }
            for (size_t m = src.range(1, 4); m > 0; m--) {
                uint64_t h;
                REQUIRE(f.one(k, &h) == SA_STATUS_OK, "creating one of the %s", KNAME[k]);
                if (src.chance(1, 3)) REQUIRE(f.drop(k, h) == SA_STATUS_OK, "release");
                else s.live[k]++;
            }
        }
    }
    if (!open.empty()) {
        S& s = open[src.below(open.size())];
        Kind k = (Kind) src.below(KINDS);
        as(s).capacity(k, s.live[k], "in an open session");
    }
    if (src.chance(1, 3)) {
        std::vector<S> all;
        for (;;) {
            S s;
            s.u = uuid(200);
            sa_status st = begin(s);
            if (st != SA_STATUS_OK) {
                REQUIRE(st == SA_STATUS_NO_AVAILABLE_RESOURCE_SLOT, "one session too many: %s", sname(st));
                REQUIRE(s.c == INVALID_HANDLE, "a refused session has a handle");
                break;
            }
            all.push_back(s);
        }
        REQUIRE(all.size() + open.size() == base, "%zu sessions are open and %zu more could be opened, of %zu", open.size(), all.size(), base);
        for (auto& s : all) REQUIRE(close(s) == SA_STATUS_OK, "close");
        pbt::label("all sessions used");
    }
    for (auto& s : open) REQUIRE(close(s) == SA_STATUS_OK, "close");
    OPENSSL_thread_stop();
    size_t left = track_live(true);
    std::string rep = left ? track_report(true) : "";
    track_end();
    REQUIRE(left == 0, "%zu blocks remain allocated after all sessions were closed:\n%s", left, rep.c_str());
    if (busy) pbt::nontrivial();
    g_no_autoclean = false;
}
