// C05: derived and unwrapped keys never gain rights their parent withholds.
#include "optable.hpp"
using namespace sec;

static const uint64_t OPS = 0x3f, OUTPUTS = 0x1fc0;   // operations; output protections and clear output
struct Node {
    sa_key h = INVALID_HANDLE;
    sa_rights r;
    Mat mat;
    bool known = true;   // the harness knows the material
    sa_key_type type = SA_KEY_TYPE_SYMMETRIC;
    const DhGroup* dh = nullptr;
};
static sa_rights model(const sa_rights& parent, sa_rights child) {
    bool only_unwrap = (parent.usage_flags & OPS & ~bit(SA_USAGE_FLAG_UNWRAP)) == 0;
    if (only_unwrap && parent.child_usage_flags != 0) child.usage_flags &= ~(OPS & ~parent.child_usage_flags);
    else child.usage_flags &= ~(OUTPUTS & ~parent.usage_flags);
    return child;
}
static bool has(const sa_rights& r, int f) { return (r.usage_flags >> f) & 1; }
static sa_rights gen_child(Src& src) {
    sa_rights r = gen_rights(src);
    r.not_before = 0, r.not_on_or_after = UINT64_MAX - src.below(3);
    r.allowed_tas[0] = ALL_MATCH;
    if (src.chance(3, 4)) {
        switch (src.below(4)) {
            case 0: r.usage_flags |= OPS; break;
            case 1: r.usage_flags = (r.usage_flags & ~OPS) | bit(SA_USAGE_FLAG_UNWRAP); break;
            case 2: r.usage_flags |= bit(SA_USAGE_FLAG_UNWRAP) | bit(SA_USAGE_FLAG_DERIVE); break;
            default: r.usage_flags |= bit(SA_USAGE_FLAG_KEY_EXCHANGE) | bit(SA_USAGE_FLAG_DERIVE); break;
        }
    }
    if (src.coin()) r.child_usage_flags = src.coin() ? src.any() & 0x3fff : bit((int) src.below(14)) | bit((int) src.below(6));
    return r;
}
static void verify(const Caller& c, const Node& parent, const sa_rights& asked, Node& child, const char* how) {
    sa_header h;
    REQUIRE(c.key_header(&h, child.h) == SA_STATUS_OK, "header of the child");
    sa_rights want = model(parent.r, asked);
    pbt::trace("%s: parent %s asked %s got %s", how, show(parent.r).c_str(), show(asked).c_str(), show(h.rights).c_str());
    uint64_t extra = h.rights.usage_flags & ~want.usage_flags;
    REQUIRE(!extra, "%s: the child has usage flags %llx that the parent withholds", how, (unsigned long long) extra);
    REQUIRE(h.rights.usage_flags == want.usage_flags, "%s: the child lost usage flags %llx", how,
            (unsigned long long) (want.usage_flags & ~h.rights.usage_flags));
    REQUIRE(!memcmp(&h.rights, &want, sizeof want), "%s: other rights of the child differ from those asked for", how);
    if (want.usage_flags != asked.usage_flags) pbt::nontrivial();
    pbt::label("%s/%s", how, want.usage_flags == asked.usage_flags ? "unchanged" : "restricted");
    child.r = h.rights;
}

PROP(c05_chain, "a child's requested rights were actually cut down") {
    g_video = video_output_state_t{};
    g_video.svp_enabled = true;
    Caller c = src.coin() ? Caller::ree() : Caller::open(TA_A);
    Node n;
    n.r = gen_child(src);
    switch (src.weighted({5, 2, 2, 2})) {
        case 0:
            n.mat = mat_sym(src, src.coin() ? 16 : 32);
            if (!(n.r.usage_flags & (bit(SA_USAGE_FLAG_UNWRAP) | bit(SA_USAGE_FLAG_DERIVE)))) n.r.usage_flags |= bit(SA_USAGE_FLAG_UNWRAP);
            break;
        case 1: n.mat = mat_rsa(src, src.coin() ? 256 : 128); n.r.usage_flags |= bit(SA_USAGE_FLAG_UNWRAP); break;
        case 2:
            n.mat = mat_ec(src, ALL_CURVES[src.below(9)]);
            n.r.usage_flags |= is_pcurve(n.mat.curve) && src.coin() ? bit(SA_USAGE_FLAG_UNWRAP) : bit(SA_USAGE_FLAG_KEY_EXCHANGE);
            break;
        default:
            n.type = SA_KEY_TYPE_DH;
            n.dh = &dh_groups()[src.weighted({6, 4})];
            n.r.usage_flags |= bit(SA_USAGE_FLAG_KEY_EXCHANGE);
            break;
    }
    if (n.dh) n.h = make_dh(c, *n.dh, n.r), n.known = false;
    else n.type = n.mat.type, n.h = must_import(c, n.mat, n.r);
    unsigned depth = 1 + src.weighted({2, 3, 2, 1});
    for (unsigned i = 0; i < depth; i++) {
        if (has(n.r, SA_USAGE_FLAG_CACHEABLE) && src.chance(1, 3)) {
            Bytes b;
            sa_key k2 = INVALID_HANDLE;
            REQUIRE(export_key(c, n.h, nullptr, b) == SA_STATUS_OK, "export");
            REQUIRE(import_exported(c, &k2, b) == SA_STATUS_OK, "import");
            sa_header h;
            REQUIRE(c.key_header(&h, k2) == SA_STATUS_OK && !memcmp(&h.rights, &n.r, sizeof n.r), "rights changed by export and import");
            c.key_release(n.h);
            n.h = k2;
            pbt::label("re-imported");
        }
        std::vector<int> ways;   // 0 unwrap 1 derive 2 netflix kdf 3 netflix exchange 4 ecdh/dh 5 netflix exchange as private key
        if (n.type == SA_KEY_TYPE_SYMMETRIC) {
            size_t len = n.known ? n.mat.clear.size() : 0;
            if (has(n.r, SA_USAGE_FLAG_UNWRAP) && (len == 16 || len == 32)) ways.insert(ways.end(), {0, 0});
            if (has(n.r, SA_USAGE_FLAG_DERIVE)) {
                ways.push_back(1);
                if (len == 16) ways.insert(ways.end(), {2, 3});
                if (len == 32) ways.push_back(2);
            }
        } else {
            if (has(n.r, SA_USAGE_FLAG_UNWRAP) && n.known && (n.type == SA_KEY_TYPE_RSA || is_pcurve(n.mat.curve))) ways.push_back(0);
            if (has(n.r, SA_USAGE_FLAG_KEY_EXCHANGE)) {
                if (n.type == SA_KEY_TYPE_DH || (n.type == SA_KEY_TYPE_EC && !is_ed(n.mat.curve))) ways.push_back(4);
                if (n.type == SA_KEY_TYPE_DH) ways.push_back(5);
            }
        }
        if (ways.empty()) {
            pbt::label("depth %u", i);
            return;
        }
        int way = ways[src.below(ways.size())];
        sa_rights ask = gen_child(src);
        Node ch;
        sa_status s = SA_STATUS_OK;
        std::string how;
        if (way == 0) {
            sa_cipher_algorithm alg;
            if (n.type == SA_KEY_TYPE_RSA) alg = src.coin() ? SA_CIPHER_ALGORITHM_RSA_OAEP : SA_CIPHER_ALGORITHM_RSA_PKCS1V15;
            else if (n.type == SA_KEY_TYPE_EC) alg = SA_CIPHER_ALGORITHM_EC_ELGAMAL;
            else {
                bool big = n.mat.clear.size() == 32;
                alg = sym_algs(true)[src.below(8)];
                if (!big && (alg == SA_CIPHER_ALGORITHM_CHACHA20 || alg == SA_CIPHER_ALGORITHM_CHACHA20_POLY1305)) alg = SA_CIPHER_ALGORITHM_AES_CTR;
            }
            bool block = alg == SA_CIPHER_ALGORITHM_AES_ECB || alg == SA_CIPHER_ALGORITHM_AES_CBC;
            if (n.type == SA_KEY_TYPE_SYMMETRIC && !block && src.chance(1, 3)) {
                ch.mat = src.coin() ? mat_rsa(src, 128) : mat_ec(src, ALL_CURVES[src.below(9)]);
            } else
                ch.mat = mat_sym(src, src.coin() ? 16 : 32);
            if (n.type == SA_KEY_TYPE_EC && curve_size(n.mat.curve) < ch.mat.clear.size() + 4) ch.mat = mat_sym(src, 16);
            Wrapped w = make_wrapped(src, alg, ch.mat.clear, &n.mat);
            ch.type = ch.mat.type;
            sa_unwrap_type_parameters_ec tp = {ch.mat.curve};
            s = w.unwrap(c, &ch.h, &ask, ch.type, ch.type == SA_KEY_TYPE_EC ? &tp : nullptr, n.h);
            how = std::string(alg_name(alg)) + " unwrap of " + (ch.type == SA_KEY_TYPE_SYMMETRIC ? "sym" : ch.type == SA_KEY_TYPE_EC ? "ec" : "rsa");
        } else if (way == 1) {
            auto d = ALL_DIGESTS[src.below(4)];
            Bytes a = src.bytes(src.size(1, 40)), b = src.bytes(src.size(1, 40));
            size_t len = src.coin() ? 16 : 32;
            int kind = (int) src.below(n.mat.clear.size() == 16 || n.mat.clear.size() == 32 ? 4 : 3);
            if (!n.known) kind %= 3;
            Bytes k = n.mat.clear;
            switch (kind) {
                case 0: {
                    sa_kdf_parameters_hkdf p = {len, d, n.h, a.data(), a.size(), b.data(), b.size()};
                    s = c.key_derive(&ch.h, &ask, SA_KDF_ALGORITHM_HKDF, &p);
                    if (n.known) ch.mat = mat_sym_bytes(ref_hkdf(d, k, a, b, len));
                    how = "hkdf";
                    break;
                }
                case 1: {
                    sa_kdf_parameters_concat p = {len, d, n.h, a.data(), a.size()};
                    s = c.key_derive(&ch.h, &ask, SA_KDF_ALGORITHM_CONCAT, &p);
                    if (n.known) ch.mat = mat_sym_bytes(ref_concat(d, k, a, len));
                    how = "concat kdf";
                    break;
                }
                case 2: {
                    sa_kdf_parameters_ansi_x963 p = {len, d, n.h, a.data(), a.size()};
                    s = c.key_derive(&ch.h, &ask, SA_KDF_ALGORITHM_ANSI_X963, &p);
                    if (n.known) ch.mat = mat_sym_bytes(ref_x963(d, k, a, len));
                    how = "x963 kdf";
                    break;
                }
                default: {
                    sa_kdf_parameters_cmac p = {len, n.h, a.data(), a.size(), 1};
                    s = c.key_derive(&ch.h, &ask, SA_KDF_ALGORITHM_CMAC, &p);
                    ch.mat = mat_sym_bytes(ref_cmac_kdf(k, a, 1, len));
                    how = "cmac kdf";
                }
            }
            ch.known = n.known;
        } else if (way == 2) {
            sa_rights ro = gen_child(src);
            ro.usage_flags |= bit(SA_USAGE_FLAG_DERIVE);
            bool enc = n.mat.clear.size() == 16;
            sa_key other = c.must_import_sym(src.bytes(enc ? 32 : 16), ro);
            sa_kdf_parameters_netflix p = {enc ? n.h : other, enc ? other : n.h};
            s = c.key_derive(&ch.h, &ask, SA_KDF_ALGORITHM_NETFLIX, &p);
            REQUIRE(s == SA_STATUS_OK, "netflix kdf: %s", sname(s));
            n.r.usage_flags &= ro.usage_flags | ~OUTPUTS;   // both keys are parents
            ch.known = false;
            how = "netflix kdf";
        } else if (way == 3 || way == 5) {
            auto& g = n.dh ? *n.dh : dh_groups()[src.weighted({6, 4})];
            EVP_PKEY* q = dh_pkey(g.p, g.g, Bytes(30, 0x35));
            Bytes pub = spki(q);
            EVP_PKEY_free(q);
            sa_rights ro = gen_child(src);
            ro.usage_flags |= bit(way == 3 ? SA_USAGE_FLAG_KEY_EXCHANGE : SA_USAGE_FLAG_DERIVE);
            sa_key other = way == 3 ? make_dh(c, g, ro) : c.must_import_sym(src.bytes(16), ro);
            sa_rights r1 = gen_child(src), r2 = gen_child(src);
            Node e, m;
            sa_key_exchange_parameters_netflix_authenticated_dh np = {way == 3 ? n.h : other, &e.h, &r1, &m.h, &r2};
            s = c.key_exchange(&ch.h, &ask, SA_KEY_EXCHANGE_ALGORITHM_NETFLIX_AUTHENTICATED_DH, way == 3 ? other : n.h, pub.data(), pub.size(), &np);
            REQUIRE(s == SA_STATUS_OK, "netflix exchange: %s", sname(s));
            e.known = m.known = ch.known = false;
            n.r.usage_flags &= ro.usage_flags | ~OUTPUTS;   // both keys are parents
            verify(c, n, ask, ch, "netflix exchange: wrapping key");
            verify(c, n, r1, e, "netflix exchange: encryption key");
            verify(c, n, r2, m, "netflix exchange: mac key");
            if (src.coin()) {
                n = ch;
                continue;
            }
            n = src.coin() ? e : m;
            continue;
        } else {
            Bytes pub;
            if (n.dh) {
                EVP_PKEY* q = dh_pkey(n.dh->p, n.dh->g, Bytes(30, 0x35));
                pub = spki(q);
                EVP_PKEY_free(q);
                ch.known = false;
                how = "dh";
            } else {
                pub = peer(n.mat.curve).pub();
                ch.known = n.known;
                if (n.known) ch.mat = mat_sym_bytes(ref_shared(n.mat.pkey, peer(n.mat.curve).pkey));
                how = "ecdh";
            }
            s = c.key_exchange(&ch.h, &ask, n.dh ? SA_KEY_EXCHANGE_ALGORITHM_DH : SA_KEY_EXCHANGE_ALGORITHM_ECDH, n.h, pub.data(), pub.size(), nullptr);
        }
        REQUIRE(s == SA_STATUS_OK, "%s with rights %s: %s", how.c_str(), show(n.r).c_str(), sname(s));
        verify(c, n, ask, ch, how.c_str());
        if (i + 1 == depth) pbt::label("depth %u", depth);
        n = ch;
    }
}
