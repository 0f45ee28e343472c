// C20: any one allocation fails: an error or a correct result, nothing left behind, and the same call works afterwards.
#include "optable.hpp"
#include <cstring>
#include <openssl/err.h>
using namespace sec;

struct Runner {
    Caller c;
    Op op;
    sa_key key = INVALID_HANDLE;
    bool is_mac = false;
    bool random = false, blob = false;   // the result differs between runs; it is an exported key
    void release(Obs& o) {
        for (sa_key k : o.keys) REQUIRE(c.key_release(k) == SA_STATUS_OK, "%s: a created key cannot be released", op.name.c_str());
        if (o.ctx != INVALID_HANDLE)
            REQUIRE((is_mac ? c.mac_release(o.ctx) : c.cipher_release(o.ctx)) == SA_STATUS_OK, "%s: the context cannot be released", op.name.c_str());
        o.keys.clear();
        o.ctx = INVALID_HANDLE;
    }
    std::string result(Obs& o) {
        std::string s;
        for (sa_key k : o.keys) {
            sa_header h;
            memset(&h, 0, sizeof h);
            REQUIRE(c.key_header(&h, k) == SA_STATUS_OK, "%s: created key has no header", op.name.c_str());
            s += header_str(h);
            Bytes d(3000);
            size_t n = d.size();
            sa_status st = h.type == SA_KEY_TYPE_SYMMETRIC ? c.key_digest(d.data(), &n, k, SA_DIGEST_ALGORITHM_SHA256) : c.key_get_public(d.data(), &n, k);
            s += sname(st);   // the rights of a container can exclude this caller
            if (st == SA_STATUS_OK && !random) s += pbt::hex(d.data(), n, 3000);
        }
        if (blob) {
            sa_key k = INVALID_HANDLE;
            REQUIRE(import_exported(c, &k, o.out) == SA_STATUS_OK, "the exported key cannot be imported");
            Bytes d(3000);
            size_t n = d.size();
            sa_status st = op.mat.type == SA_KEY_TYPE_SYMMETRIC ? c.key_digest(d.data(), &n, k, SA_DIGEST_ALGORITHM_SHA256) : c.key_get_public(d.data(), &n, k);
            REQUIRE(st == SA_STATUS_OK, "imported key: %s", sname(st));
            s += pbt::hex(d.data(), n, 3000);
            c.key_release(k);
        } else
            s += random ? std::to_string(o.out.size()) : pbt::hex(o.out, 5000);
        return s;
    }
};
static void arm(long n, bool ossl) {
    g_alloc_openssl = ossl;
    g_alloc_count = 0;
    g_alloc_fail_at = n;
    g_alloc_failed = false;
    g_alloc_armed = true;
}
static void disarm() { g_alloc_armed = false; }

// The n-th allocation of phase `at` fails. Returns false when there was no such allocation. `left`: blocks still allocated
// once everything was released.
static bool attempt(Runner& r, size_t at, long n, bool ossl, const std::string& want, size_t* left, std::string* report) {
    Obs o;
    ERR_clear_error();
    track_begin();
    bool failed = false;
    bool lost = false;
    for (size_t i = 0; i < r.op.phases.size() && !lost; i++) {
        Phase& p = r.op.phases[i];
        size_t out = o.out.size(), keys = o.keys.size();
        if (i == at) arm(n, ossl);
        sa_status s = p.fn(r.c, r.key, o);
        disarm();
        if (i == at) {
            failed = g_alloc_failed;
            if (failed) pbt::trace("%s/%s: allocation %ld of %s failed -> %s", r.op.name.c_str(), p.name, n, ossl ? "all" : "the library", sname(s));
        }
        if (s != SA_STATUS_OK) {
            REQUIRE(i == at && failed, "%s/%s: %s although memory was available", r.op.name.c_str(), p.name, sname(s));
            REQUIRE(o.keys.size() == keys, "%s/%s failed and returned a key", r.op.name.c_str(), p.name);
            o.out.resize(out);
            s = p.fn(r.c, r.key, o);
            // a context whose calculation OpenSSL broke off half way may be unable to continue
            if (s != SA_STATUS_OK && ossl && i) lost = true;
            else
                REQUIRE(s == SA_STATUS_OK, "%s/%s: allocation %ld failed, and the call repeated with memory available: %s", r.op.name.c_str(), p.name,
                        n, sname(s));
        }
    }
    if (!lost) {
        std::string got = r.result(o);
        REQUIRE(got == want, "%s/%s: allocation %ld failed; the result is another one afterwards\nwanted %s\ngot %s", r.op.name.c_str(),
                r.op.phases[at].name, n, want.c_str(), got.c_str());
    }
    r.release(o);
    OPENSSL_thread_stop();
    *left = track_live(ossl);   // OpenSSL itself does not free everything when its own allocations fail
    if (*left) *report = track_report();
    track_end();
    return failed;
}
static std::string run_ok(Runner& r) {
    Obs o;
    for (auto& p : r.op.phases) {
        sa_status s = p.fn(r.c, r.key, o);
        REQUIRE(s == SA_STATUS_OK, "harness: %s/%s: %s", r.op.name.c_str(), p.name, sname(s));
    }
    std::string s = r.result(o);
    r.release(o);
    return s;
}
static void explore(Src& src, Runner& r) {
    bool ossl = src.chance(1, 3);
    sa_rights all = rights_all();
    sa_key other = r.c.must_import_sym(Bytes(32, 7), all);
    Bytes d = key_digest(r.c, other);
    std::string want = run_ok(r);
    size_t at = src.below(r.op.phases.size());
    // how many allocations the phase makes
    size_t left = 0;
    std::string report;
    bool f = attempt(r, at, LONG_MAX, ossl, want, &left, &report);
    REQUIRE(!f, "harness: nothing was to fail");
    long total = g_alloc_count;
    std::vector<long> todo;
    if (total <= 24)
        for (long n = 1; n <= total; n++) todo.push_back(n);
    else {
        long start = 1 + (long) src.below(total);
        for (long n = start; n < start + 24 && n <= total; n++) todo.push_back(n);
    }
    long hit = 0;
    for (long n : todo) {
        int leaking = 0;
        for (int i = 0; i < 3; i++) {
            if (!attempt(r, at, n, ossl, want, &left, &report)) break;
            if (i == 0) hit++;
            if (left) leaking++;
            if (leaking != i + 1) break;
        }
        REQUIRE(leaking < 3, "%s/%s: allocation %ld failed, and memory is still allocated after everything was released, every time:\n%s",
                r.op.name.c_str(), r.op.phases[at].name, n, report.c_str());
    }
    REQUIRE(key_digest(r.c, other) == d, "another key changed");
    REQUIRE(run_ok(r) == want, "%s gives another result after the failures", r.op.name.c_str());
    if (hit) pbt::nontrivial();
    pbt::label("%s/%s/%s", r.op.name.c_str(), r.op.phases[at].name, ossl ? "any allocation" : "library allocation");
}
static Caller who(Src& src) { return src.coin() ? Caller::ree() : Caller::open(TA_A); }

PROP(c20_operations, "at least one allocation of the call was made to fail", 60, 50) {
    Runner r;
    r.c = who(src);
    r.op = gen_op(src);
    r.is_mac = r.op.name == "hmac" || r.op.name == "cmac";
    r.random = r.op.name == "ecdsa sign" || r.op.name == "rsa-pss sign";
    r.blob = r.op.name == "export";
    if (r.op.setup) r.op.setup(r.c);
    r.key = r.op.make ? r.op.make(r.c, rights_all()) : must_import(r.c, r.op.mat, rights_all());
    explore(src, r);
}
// The whole life of an object, each step of it a phase.
static Op op_life(Src& src) {
    Op op;
    int kind = (int) src.below(5);
    Phase p;
    auto data = std::make_shared<Bytes>(src.bytes(src.range(16, 64)));
    if (kind == 0) {   // key: import, header, digest, release
        op.name = "key life";
        auto k = std::make_shared<sa_key>(INVALID_HANDLE);
        p.name = "import";
        p.fn = [=](const Caller& c, sa_key, Obs&) {
            sa_rights r = rights_all();
            sa_import_parameters_symmetric ps = {&r};
            *k = INVALID_HANDLE;
            return c.key_import(k.get(), SA_KEY_FORMAT_SYMMETRIC_BYTES, data->data(), data->size(), &ps);
        };
        op.phases.push_back(p);
        p.name = "header";
        p.fn = [=](const Caller& c, sa_key, Obs& o) {
            sa_header h;
            memset(&h, 0, sizeof h);
            sa_status s = c.key_header(&h, *k);
            if (s == SA_STATUS_OK) o.out.push_back((uint8_t) h.size);
            return s;
        };
        op.phases.push_back(p);
        p.name = "release";
        p.fn = [=](const Caller& c, sa_key, Obs&) { return c.key_release(*k); };
        op.phases.push_back(p);
        return op;
    }
    if (kind == 1 || kind == 2) {   // contexts
        bool mac = kind == 2;
        op.name = mac ? "mac life" : "cipher life";
        auto x = std::make_shared<uint64_t>();
        auto k = std::make_shared<sa_key>(INVALID_HANDLE);
        op.setup = [=](const Caller& c) { *k = c.must_import_sym(Bytes(16, 3), rights_all()); };
        p.name = "init";
        p.fn = [=](const Caller& c, sa_key, Obs&) {
            sa_crypto_cipher_context h = INVALID_HANDLE;
            sa_status s = mac ? c.mac_init(&h, SA_MAC_ALGORITHM_CMAC, *k, nullptr)
                              : c.cipher_init(&h, SA_CIPHER_ALGORITHM_AES_ECB, SA_CIPHER_MODE_ENCRYPT, *k, nullptr);
            *x = h;
            return s;
        };
        op.phases.push_back(p);
        p.name = "release";
        p.fn = [=](const Caller& c, sa_key, Obs&) { return mac ? c.mac_release(*x) : c.cipher_release(*x); };
        op.phases.push_back(p);
        return op;
    }
    if (kind == 3) {
        op.name = "random";
        p.name = "random";
        p.fn = [=](const Caller& c, sa_key, Obs& o) {
            Guarded g(data->size());
            sa_status s = c.random(g.data(), g.n);
            return out_phase(g, o, s, g.n);
        };
        op.phases.push_back(p);
        return op;
    }
    op.name = "name";
    p.name = "get_name";
    p.fn = [=](const Caller& c, sa_key, Obs& o) {
        Guarded g(200);
        size_t n = 200;
        sa_status s = c.get_name((char*) g.data(), &n);
        return out_phase(g, o, s, n);
    };
    op.phases.push_back(p);
    return op;
}
// SVP buffers: every step once, with memory the harness owns.
static Op op_svp(Src& src) {
    Op op;
    op.name = "svp";
    struct St {
        Guarded a{64}, b{64};
        sa_svp_buffer ha = INVALID_HANDLE, hb = INVALID_HANDLE;
        Bytes data;
        sa_crypto_cipher_context x = INVALID_HANDLE;
        sa_key k = INVALID_HANDLE;
        sa_sample s;
        sa_subsample_length sl[3];
    };
    auto t = std::make_shared<St>();
    t->data = src.bytes(64);
    op.setup = [=](const Caller& c) { t->k = c.must_import_sym(Bytes(16, 9), rights_all()); };
    auto add = [&](const char* n, std::function<sa_status(const Caller&, Obs&)> f) {
        Phase p;
        p.name = n;
        p.fn = [f](const Caller& c, sa_key, Obs& o) { return f(c, o); };
        op.phases.push_back(p);
    };
    add("create", [=](const Caller& c, Obs&) {
        memset(t->a.data(), 1, 64);
        t->ha = INVALID_HANDLE;
        return c.svp_create(&t->ha, t->a.data(), 64);
    });
    add("create", [=](const Caller& c, Obs&) {
        memset(t->b.data(), 2, 64);
        t->hb = INVALID_HANDLE;
        return c.svp_create(&t->hb, t->b.data(), 64);
    });
    add("write", [=](const Caller& c, Obs&) {
        sa_svp_offset o[2] = {{0, 0, 32}, {32, 40, 20}};
        return c.svp_write(t->ha, t->data.data(), 64, o, 2);
    });
    add("copy", [=](const Caller& c, Obs&) {
        sa_svp_offset o[2] = {{16, 0, 32}, {0, 40, 10}};
        return c.svp_copy(t->hb, t->ha, o, 2);
    });
    auto iv = std::make_shared<Bytes>(src.bytes(16));
    add("cipher_init", [=](const Caller& c, Obs&) {
        sa_cipher_parameters_aes_ctr p = {iv->data(), 16};
        t->x = INVALID_HANDLE;
        return c.cipher_init(&t->x, SA_CIPHER_ALGORITHM_AES_CTR, SA_CIPHER_MODE_DECRYPT, t->k, &p);
    });
    add("cipher_process", [=](const Caller& c, Obs&) {
        sa_buffer ib = svp_buf(t->ha), ob = svp_buf(t->hb, 32);
        size_t n = 16;
        return c.cipher_process(&ob, t->x, &ib, &n);
    });
    add("cenc", [=](const Caller& c, Obs&) {
        t->sl[0] = {3, 16};
        t->sl[1] = {0, 20};
        t->sl[2] = {5, 0};
        memset(&t->s, 0, sizeof t->s);
        sa_buffer ib = svp_buf(t->ha), ob = svp_buf(t->hb);
        t->s.iv = iv->data();
        t->s.iv_length = 16;
        t->s.crypt_byte_block = 1;
        t->s.skip_byte_block = 1;
        t->s.subsample_count = 3;
        t->s.subsample_lengths = t->sl;
        t->s.context = t->x;
        t->s.in = &ib;
        t->s.out = &ob;
        return c.cenc(1, &t->s);
    });
    add("cipher_release", [=](const Caller& c, Obs&) { return c.cipher_release(t->x); });
    auto digest = [=](const Caller& c, Obs& o) {
        o.out.insert(o.out.end(), t->a.data(), t->a.data() + 64);
        o.out.insert(o.out.end(), t->b.data(), t->b.data() + 64);
        REQUIRE(t->a.intact() && t->b.intact(), "bytes outside an SVP buffer were written");
        void* m = nullptr;
        size_t n = 0;
        sa_status s = c.svp_release(&m, &n, t->ha);
        if (s != SA_STATUS_OK) o.out.resize(o.out.size() - 128);
        else REQUIRE(m == t->a.data() && n == 64, "released another buffer");
        return s;
    };
    add("release", digest);
    add("release", [=](const Caller& c, Obs&) {
        void* m = nullptr;
        size_t n = 0;
        sa_status s = c.svp_release(&m, &n, t->hb);
        if (s == SA_STATUS_OK) REQUIRE(m == t->b.data() && n == 64, "released another buffer");
        return s;
    });
    return op;
}
static Op op_svp_check(Src& src) {
    Op op;
    op.name = "svp_check";
    struct St {
        Guarded a{64};
        sa_svp_buffer h = INVALID_HANDLE;
    };
    auto t = std::make_shared<St>();
    auto d = ALL_DIGESTS[src.below(4)];
    Bytes data = src.bytes(64);
    memcpy(t->a.data(), data.data(), 64);
    auto want = std::make_shared<Bytes>(ref_digest(d, data));
    op.setup = [=](const Caller& c) { REQUIRE(c.svp_create(&t->h, t->a.data(), 64) == SA_STATUS_OK, "harness: svp"); };
    Phase p;
    p.name = "check";
    p.fn = [=](const Caller& c, sa_key, Obs&) { return c.svp_check(t->h, 0, 64, d, want->data(), want->size()); };
    op.phases.push_back(p);
    return op;
}
PROP(c20_objects, "at least one allocation of the call was made to fail", 60, 50) {
    Runner r;
    r.c = who(src);
    switch (src.weighted({5, 4, 4, 5, 4, 1, 2})) {
        case 0: r.op = op_import(src); break;
        case 1: r.op = op_generate(src); r.random = true; break;
        case 2: r.op = op_soc(src); break;
        case 3: r.op = op_life(src); r.random = r.op.name == "random"; break;
        case 4: r.op = op_svp(src); break;
        case 6: r.op = op_provision(src); break;
        default: r.op = op_svp_check(src); r.c = Caller::open(TA_A); break;
    }
    if (r.op.setup) r.op.setup(r.c);
    explore(src, r);
}
PROP(c20_session, "at least one allocation was made to fail", 60, 50) {
    Caller keep = Caller::ree();
    sa_key k = keep.must_import_sym(Bytes(16, 1), rights_all());
    Bytes d = key_digest(keep, k);
    sa_uuid u = TA_A;
    bool handler = src.coin();
    if (src.coin()) g_caller = u;
    auto once = [&](bool* failed, long n) {
        ERR_clear_error();
        track_begin();
        arm(n, false);
        ta_client cl = INVALID_HANDLE;
        void* ctx = nullptr;
        sa_status s = handler ? ta_open_session_handler(&ctx) : ta_sa_init(&cl, &u);
        disarm();
        *failed = g_alloc_failed;
        if (s == SA_STATUS_OK) {
            if (handler) ta_close_session_handler(ctx);
            else REQUIRE(ta_sa_close(cl, &u) == SA_STATUS_OK, "close");
        } else {
            REQUIRE(g_alloc_failed, "open: %s although memory was available", sname(s));
        }
        size_t left = track_live();
        std::string rep = track_report();
        track_end();
        return std::make_tuple(s, left, rep);
    };
    bool f;
    once(&f, LONG_MAX);
    long total = g_alloc_count;
    for (long n = 1; n <= total; n++) {
        int leaking = 0;
        std::string rep;
        for (int i = 0; i < 3; i++) {
            auto [s, left, r] = once(&f, n);
            pbt::trace("open, allocation %ld of %ld failed -> %s", n, total, sname(s));
            if (left) leaking++;
            rep = r;
        }
        REQUIRE(leaking < 3, "session open, allocation %ld: still allocated afterwards:\n%s", n, rep.c_str());
        auto [s, left, r] = once(&f, LONG_MAX);
        REQUIRE(s == SA_STATUS_OK, "a session cannot be opened after a failure: %s", sname(s));
    }
    g_caller = REE;
    REQUIRE(key_digest(keep, k) == d, "a key of another session changed");
    if (total) pbt::nontrivial();
    pbt::label("%s", handler ? "handler" : "ta_sa_init");
}
