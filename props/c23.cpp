// C23: SoC key containers are imported exactly when authentic and well formed, and are then the key the container names.
#include "container.hpp"
#include "ops.hpp"
using namespace sec;
typedef sa_import_parameters_soc SocParams;
static std::unique_ptr<SocParams> gen_params(Src& src) {
    if (src.coin()) return nullptr;
    std::unique_ptr<SocParams> p(new SocParams);
    memset(p.get(), 0, sizeof *p);
    p->length[0] = (uint8_t) (sizeof *p >> 8);
    p->length[1] = (uint8_t) sizeof *p;
    p->version = src.coin() ? 2 : 3;
    p->object_id = src.coin() ? src.any() : src.below(300);
    if (src.coin()) src.fill(&p->default_rights, sizeof p->default_rights);
    return p;
}
static Caller pick_caller(Src& src, const Soc& t) {
    if (src.coin()) return Caller::ree();
    if (!t.tas.empty() && src.chance(2, 3)) return Caller::open(t.tas[src.below(t.tas.size())]);
    return Caller::open(src.pick({TA_A, TA_B}));
}
static sa_status import_soc(const Caller& c, const Bytes& text, SocParams* p, sa_key* k) {
    Exact e(text);
    return c.key_import(k, SA_KEY_FORMAT_SOC, e.p, e.n, p);
}
static void check_key(const Caller& c, sa_key k, const Soc& t, const SocParams* p) {
    sa_header h, want;
    memset(&h, 0, sizeof h);
    REQUIRE(c.key_header(&h, k) == SA_STATUS_OK, "no header");
    memset(&want, 0, sizeof want);
    memcpy(want.magic, "sak0", 4);
    want.rights = t.expected(p);
    want.type = (uint8_t) t.type.type;
    want.size = (uint16_t) t.type.size;
    if (t.type.type == SA_KEY_TYPE_EC) want.type_parameters.curve = t.type.curve;
    std::string why;
    REQUIRE(header_eq(h, want, &why), "%s: key has\n%s, container says\n%s", why.c_str(), header_str(h).c_str(), header_str(want).c_str());
}
PROP(c23_valid, "the container is not the plainest one: root key type, TA list, parameters, key usage 2 or 3, other layout, or not AES") {
    Soc t = gen_soc(src);
    auto p = gen_params(src);
    bool plain, plain2;
    Bytes ct, tag;
    t.seal(ct, tag);
    std::string payload = render(src, t.fields(ct), &plain);
    Fields hf = {{"alg", quote(t.alg)}};
    Bytes text = Soc::join(render(src, hf, &plain2), payload, tag);
    Caller c = pick_caller(src, t);
    pbt::trace("payload %s", payload.c_str());
    sa_key k = INVALID_HANDLE;
    sa_status s = import_soc(c, text, p.get(), &k);
    REQUIRE(s == SA_STATUS_OK, "an authentic, well formed container was refused: %s", sname(s));
    check_key(c, k, t, p.get());
    sa_key d = must_import(c, t.mat, t.expected(p.get()));
    std::string a = fingerprint(c, k), b = fingerprint(c, d);
    REQUIRE(a == b, "imported key and the contained key with the stated rights differ:\n%s", first_difference(a, b).c_str());
    if (t.root || t.has_tas || p || t.usage > 1 || !plain || t.type.sub) pbt::nontrivial();
    pbt::label("v%d%s/%s/usage%d%s", std::min(t.version, 6), t.root == 0 ? "" : t.root == 1 ? "u" : "c", t.type.name, t.usage, t.tas.size() >= 32 ? "/32ta" : "");
}
// A container sealed over whatever its (possibly wrong) fields are.
struct Parts {
    std::string alg, root, key_type;
    bool has_root = false;
    Bytes head, tail, plain;   // additional data: head (alg, version, root, type, usages), tail (iv, c1..c3, TAs)
};
PROP(c23_malformed, "a container with one thing wrong, sealed under the right key as far as its fields allow") {
    Soc t = gen_soc(src);
    std::string what, header = t.header(), alg = t.alg;
    std::string root = t.version >= 5 ? t.root == 1 ? "unique" : t.root == 2 ? "common" : "" : "", ktype = t.type.name;
    long long version = t.version, usage = t.usage, dec = t.dec_usage;
    Bytes plain = t.mat.clear, iv = t.iv, c1 = t.c1, c2 = t.c2, c3 = t.c3;
    std::vector<std::string> tas;
    for (auto& u : t.tas) tas.push_back(uuid_text(u));
    Fields over;                       // raw replacements
    std::vector<std::string> missing;
    auto p = gen_params(src);
    std::string payload;
    bool raw = false;
    size_t tag_n = 16;
    switch (src.below(15)) {
        case 0:
            alg = src.pick<std::string>({"", "A", "A128GC", "A128GCMX", "A256GCM", "a128gcm", "A128CBC", "none", std::string(1300, 'A')});
            header = "{\"alg\":\"" + alg + "\"}";
            what = "alg " + alg.substr(0, 20);
            break;
        case 1:
            header = src.pick<std::string>({"{}", "[]", "", "null", "\"alg\"", "{\"alg\":5}", "{\"alg\":null}", "{\"alg\":[\"A128GCM\"]}", "{\"ALG\":\"A128GCM\"}",
                    "{\"alg\":\"A128GCM\"", "{\"alg\":\"A128GCM\"}}", "{\"al\":\"A128GCM\"}"});
            what = "header " + header;
            break;
        case 2:
            version = src.pick<long long>({0, 1, 2, 3, -1, 256 + 4, 256 + 5, 256, -252, 65536 + 4, (1LL << 32) + 5, -4});
            what = "containerVersion " + std::to_string(version);
            break;
        case 3:
            version = src.range(5, 8);
            root = src.pick<std::string>({"", "u", "uniqu", "uniquex", "UNIQUE", "commo", "commonn", "Common", "c", "unique common", "device", std::string(400, 'u')});
            over.push_back({"rootKeyType", quote(root)});
            if (root[0] == 'c') root = "common"; else root = "unique";
            what = "rootKeyType";
            break;
        case 4:
            ktype = src.pick<std::string>({"", "A", "AES", "AES-1", "AES-12", "AES-128X", "AES-192", "aes-128", "HMAC", "HMAC-25", "HMAC-512", "CHACHA20", "CHACHA20-25", "RSA",
                    "RSA-102", "RSA-512", "RSA-8192", "ECC", "ECC-P25", "ECC-P", "ECC-P2566", "ECC-X", "ECC-ED4", "DH", std::string(src.range(1100, 2500), 'K'),
                    std::string(t.type.name) + " ", std::string(t.type.name).substr(0, strlen(t.type.name) - 1), std::string(t.type.name) + std::string(t.type.name)});
            what = "keyType " + ktype.substr(0, 20);
            break;
        case 5: {
            usage = src.pick<long long>({0, 4, 5, -1, 256 + 1, 256 + 2, 256 + 3, -255, 65536 + 1, (1LL << 32) + 1, 255, 256});
            what = "keyUsage " + std::to_string(usage);
            break;
        }
        case 6:
            if (t.type.sub == 1) {
                usage = 2;
                what = "HMAC key with key usage 2";
            } else {
                usage = 2;
                dec = src.pick<long long>({0, 4, 5, -1, 256 + 1, 256 + 2, 256 + 3, -255, (1LL << 32) + 1, 255, 256});
                if (src.chance(1, 4)) missing.push_back("decryptedKeyUsage");
                what = "decryptedKeyUsage " + std::to_string(dec);
            }
            break;
        case 7: {
            std::string n = src.pick<std::string>({"iv", "c1", "c2", "c3"});
            Bytes& b = n == "iv" ? iv : n == "c1" ? c1 : n == "c2" ? c2 : c3;
            size_t good = n == "iv" ? 12 : 16, m;
            do m = src.weighted({3, 3, 1}) == 0 ? src.below(good) : src.coin() ? src.range(good + 1, good + 20) : src.range(64, 4000);
            while (m == good);
            Bytes w = src.bytes(m);
            over.push_back({n, quote(w)});
            // what a decoder that overlooks the length would have used
            if (src.coin()) b = sub(cat({w, Bytes(good, 0)}), 0, good);
            what = n + " of " + std::to_string(m) + " bytes";
            break;
        }
        case 8:
            do tag_n = src.coin() ? src.below(16) : src.pick<size_t>({17, 24, 32, 64, 4, 8, 12});
            while (tag_n == 16);
            what = "tag of " + std::to_string(tag_n) + " bytes";
            break;
        case 9: {
            size_t n = src.range(33, src.chance(1, 8) ? 400 : 70);
            tas.assign(n, uuid_text(REE));
            what = std::to_string(n) + " TAs";
            break;
        }
        case 10: {
            std::string u = uuid_text(REE), j = "";
            if (src.coin()) {
                switch (src.below(4)) {
                    case 0: u = u.substr(0, src.below(36)); break;
                    case 1: u += src.pick<std::string>({"0", "-", "00000000-0000"}); break;
                    default: u[src.pick({0, 1, 7, 9, 12, 14, 17, 19, 20, 24, 30, 35})] = src.pick({'g', 'z', 'x', '/', ':', '@', 'G', '`', ' '}); break;
                }
                j = quote(u);
            } else
                j = wrong_type(src, 's');
            size_t n = src.range(1, 32), at = src.below(n);
            tas.assign(n, uuid_text(REE));
            std::string a = "[";
            for (size_t i = 0; i < n; i++) {
                if (i == at) {
                    std::string l;
                    for (char ch : u) l += ch >= 'A' && ch <= 'Z' ? (char) (ch + 32) : ch;
                    tas[i] = l;
                }
                a += (i ? "," : "") + (i == at ? j : quote(tas[i]));
            }
            over.push_back({"entitledTaIds", a + "]"});
            what = "TA " + j;
            break;
        }
        case 11: {
            std::string n = src.pick<std::string>({"containerVersion", "keyUsage", "keyType", "encryptedKey", "iv", "c1", "c2", "c3", "entitledTaIds", "rootKeyType", "decryptedKeyUsage"});
            if (n == "rootKeyType") version = src.range(5, 7);
            if (n == "decryptedKeyUsage") {
                if (t.type.sub == 1) pbt::discard();
                usage = 2;
            }
            bool is_int = n == "containerVersion" || n == "keyUsage" || n == "decryptedKeyUsage";
            bool arr = n == "entitledTaIds";
            if (src.coin() || arr || n == "rootKeyType") {
                std::string v = wrong_type(src, is_int ? 'i' : arr ? 'a' : 's');
                over.push_back({n, v});
                if (arr) tas.clear();
                if (n == "rootKeyType") root = "";
                what = n + " = " + v;
            } else {
                missing.push_back(n);
                what = "no " + n;
                if (n == "iv") iv.assign(12, 0);
                if (n == "c1") c1.assign(16, 0);
                if (n == "c2") c2.assign(16, 0);
                if (n == "c3") c3.assign(16, 0);
            }
            break;
        }
        case 12: {   // contained key is not one of the stated type
            if (t.type.type == SA_KEY_TYPE_SYMMETRIC) {
                size_t n;
                do n = src.coin() ? src.pick<size_t>({0, 1, 15, 16, 17, 20, 24, 32, 33, 48, 64}) : src.below(600);
                while (n == t.type.size);
                plain = src.bytes(n);
                what = "key of " + std::to_string(n) + " bytes";
            } else if (src.coin()) {
                SocType o;
                do o = soc_types()[src.below(soc_types().size())];
                while (!strcmp(o.name, t.type.name) || (o.type == SA_KEY_TYPE_RSA && o.size > 256));
                plain = (o.type == SA_KEY_TYPE_SYMMETRIC ? mat_sym(src, o.size) : o.type == SA_KEY_TYPE_RSA ? mat_rsa(src, o.size) : mat_ec(src, o.curve)).clear;
                what = std::string(o.name) + " key";
            } else {
                switch (src.below(4)) {
                    case 0: plain.resize(src.below(plain.size())); break;
                    case 1: plain = src.bytes(src.size(0, 400)); break;
                    case 2: plain = t.mat.pub(); break;
                    default: for (size_t i = 0; i < std::min<size_t>(plain.size(), 30); i++) plain[i] ^= (uint8_t) src.range(1, 255); break;
                }
                what = "garbage key";
            }
            break;
        }
        case 13:
            if (!p) p.reset(new SocParams);
            memset(p.get(), 0, sizeof *p);
            p->version = 2;
            p->length[0] = (uint8_t) (sizeof *p >> 8);
            p->length[1] = (uint8_t) sizeof *p;
            if (src.coin()) p->version = src.pick<uint8_t>({0, 1, 4, 5, 255});
            else {
                size_t n = src.pick<size_t>({0, 1, 2, 3, 8, 16, sizeof *p - 1, sizeof *p - 8});
                p->length[0] = (uint8_t) (n >> 8);
                p->length[1] = (uint8_t) n;
            }
            what = "parameters";
            break;
        default: raw = true; break;
    }
    // seal
    Bytes a = str(alg);
    a.push_back((uint8_t) version);
    if ((uint8_t) version >= 5) a = cat({a, str(root)});
    a = cat({a, str(ktype)});
    a.push_back((uint8_t) usage);
    if ((uint8_t) usage == 2) a.push_back((uint8_t) dec);
    a = cat({a, iv, c1, c2, c3});
    for (auto& u : tas) a = cat({a, str(u)});
    Bytes ct, tag;
    aead(true, ladder((uint8_t) version >= 5 && root == "common", c1, c2, c3), iv, a, plain, true, ct, tag);
    tag = sub(cat({tag, src.bytes(64)}), 0, tag_n);
    Fields f;
    f.push_back({"containerVersion", std::to_string(version)});
    if (!root.empty()) f.push_back({"rootKeyType", quote(root)});
    f.push_back({"keyType", quote(ktype)});
    f.push_back({"encryptedKey", quote(ct)});
    f.push_back({"iv", quote(iv)});
    f.push_back({"keyUsage", std::to_string(usage)});
    if ((uint8_t) usage == 2) f.push_back({"decryptedKeyUsage", std::to_string(dec)});
    if (!tas.empty()) {
        std::string x = "[";
        for (size_t i = 0; i < tas.size(); i++) x += (i ? "," : "") + quote(tas[i]);
        f.push_back({"entitledTaIds", x + "]"});
    }
    f.push_back({"c1", quote(c1)});
    f.push_back({"c2", quote(c2)});
    f.push_back({"c3", quote(c3)});
    for (auto& o : over) {
        std::string* v = field(f, o.first);
        if (v) *v = o.second;
        else f.push_back(o);
    }
    for (auto& m : missing) {
        if (src.coin()) {
            std::string keep = field(f, m) ? *field(f, m) : "\"\"";
            f.push_back({m + "x", keep});
        }
        drop(f, m);
    }
    payload = to_json(f);
    if (raw) {
        if (src.coin()) {
            static const char* N[] = {"encryptedKey", "iv", "c1", "c2", "c3"};
            std::string n = N[src.below(5)], b = b64(Bytes(n == "iv" ? 12 : 16, 1));
            switch (src.below(4)) {
                case 0: b = b.substr(0, src.below(b.size())); if (b.size() % 4 == 0) b += "A"; break;
                case 1: b[src.below(4)] = src.pick({'-', '_', '!', '*', '.', '=', '\x7f'}); break;
                case 2: b = src.pick<std::string>({"=", "====", "A===", "!!!!", "%%%%", "A", "AA", "AAA", ""}); break;
                default: b += src.pick<std::string>({"*", "!", "****", "=", "A"}); break;
            }
            *field(f, n) = quote(b);
            payload = to_json(f);
            what = n + " " + b;
        } else {
            switch (src.below(4)) {
                case 0: payload = payload.substr(0, src.below(payload.size())); break;
                case 1: payload += src.pick<std::string>({"x", "}", ",{}", "{}", "\"a\"", "1"}); break;
                case 2: payload = src.pick<std::string>({"null", "1", "true", "[]", "\"c1\"", "", " ", "{}", "{", "["}); break;
                default: payload = "[" + payload + "]"; break;
            }
            what = "payload " + payload.substr(0, 30);
        }
    }
    pbt::trace("wrong: %s", what.c_str());
    pbt::trace("payload %s", payload.c_str());
    Caller c = pick_caller(src, t);
    sa_key k = INVALID_HANDLE;
    sa_status s = import_soc(c, Soc::join(header, payload, tag), p.get(), &k);
    REQUIRE(s != SA_STATUS_OK, "a malformed container was imported (%s)", what.c_str());
    REQUIRE(k == INVALID_HANDLE, "refused, but a key handle was stored");
    pbt::nontrivial();
    pbt::label("%s", what.substr(0, what.find_first_of(" =")).c_str());
    if (src.chance(1, 4)) {
        s = import_soc(c, t.text(), nullptr, &k);
        REQUIRE(s == SA_STATUS_OK, "a good container was refused after a bad one: %s", sname(s));
        check_key(c, k, t, nullptr);
    }
}
PROP(c23_tampered, "a container with one field changed to another well formed value without sealing it again") {
    Soc t = gen_soc(src), u = t;
    Bytes ct, tag;
    t.seal(ct, tag);
    std::string what;
    switch (src.below(13)) {
        case 0:
            do u.version = (int) src.range(4, 9);
            while (u.version == t.version);
            if (u.version < 5) u.root = 0;
            what = "version";
            break;
        case 1:
            if (t.version < 5) pbt::discard();
            do u.root = (int) src.below(3);
            while (u.root == t.root);
            what = "root key type";
            break;
        case 2:
            do u.type = soc_types()[src.below(soc_types().size())];
            while (!strcmp(u.type.name, t.type.name));
            what = "key type";
            break;
        case 3:
            u.usage = t.usage == 1 ? 3 : 1;
            if (src.coin() && t.type.sub != 1) u.usage = t.usage == 2 ? 3 : 2;
            what = "key usage";
            break;
        case 4:
            if (t.type.sub == 1) pbt::discard();
            if (t.usage != 2) pbt::discard();
            u.dec_usage = t.dec_usage % 3 + 1;
            what = "decrypted key usage";
            break;
        case 5: u.iv[src.below(12)] ^= (uint8_t) (1 << src.below(8)); what = "iv"; break;
        case 6: u.c1[src.below(16)] ^= (uint8_t) (1 << src.below(8)); what = "c1"; break;
        case 7: u.c2[src.below(16)] ^= (uint8_t) (1 << src.below(8)); what = "c2"; break;
        case 8: u.c3[src.below(16)] ^= (uint8_t) (1 << src.below(8)); what = "c3"; break;
        case 9:
            if (src.coin()) ct[src.below(ct.size())] ^= (uint8_t) (1 << src.below(8));
            else if (src.coin()) ct.pop_back();
            else ct.push_back((uint8_t) src.any());
            what = "encrypted key";
            break;
        case 10: tag[src.below(16)] ^= (uint8_t) (1 << src.below(8)); what = "tag"; break;
        case 11:
            u.has_tas = true;
            if (t.tas.empty() || (src.coin() && t.tas.size() < 32)) u.tas.insert(u.tas.begin() + (long) src.below(u.tas.size() + 1), src.pick({REE, TA_A, ALL_MATCH}));
            else if (src.coin()) u.tas.erase(u.tas.begin() + (long) src.below(u.tas.size()));
            else u.tas[src.below(u.tas.size())].id[src.below(16)] ^= (uint8_t) (1 << src.below(8));
            what = "TAs";
            break;
        default: {   // two fields trade a byte in the joined additional data
            switch (src.below(3)) {
                case 0: std::swap(u.c1, u.c2); break;
                case 1: std::swap(u.c2, u.c3); break;
                default: {
                    Bytes all = cat({u.iv, u.c1});
                    std::rotate(all.begin(), all.begin() + 1, all.end());
                    u.iv = sub(all, 0, 12);
                    u.c1 = sub(all, 12, 16);
                }
            }
            what = "order";
        }
    }
    if (what == "TAs" && cat({u.aad()}) == t.aad()) pbt::discard();
    if (u.aad() == t.aad() && what != "encrypted key" && what != "tag" && what != "root key type" && what != "key type") pbt::discard();
    auto p = gen_params(src);
    Caller c = pick_caller(src, t);
    sa_key k = INVALID_HANDLE;
    sa_status s = import_soc(c, Soc::join(u.header(), to_json(u.fields(ct)), tag), p.get(), &k);
    REQUIRE(s != SA_STATUS_OK, "imported although its %s was changed", what.c_str());
    REQUIRE(k == INVALID_HANDLE, "refused, but a key handle was stored");
    pbt::nontrivial();
    pbt::label("%s", what.c_str());
}
// Provisioning for another TA: what is delivered is one or two containers, each judged as importing it would be.
namespace {
struct Blob {
    Bytes text;
    std::string what;
};
Blob gen_blob(Src& src) {
    Soc t = gen_soc(src);
    switch (src.weighted({12, 1, 1, 1, 1, 1, 1, 1})) {
        case 0: return {t.text(), "good"};
        case 1: {
            Bytes ct, tag;
            t.seal(ct, tag);
            tag[src.below(16)] ^= (uint8_t) (1 << src.below(8));
            return {Soc::join(t.header(), to_json(t.fields(ct)), tag), "tag"};
        }
        case 2: {
            Bytes ct, tag;
            t.seal(ct, tag);
            ct[src.below(ct.size())] ^= (uint8_t) (1 << src.below(8));
            return {Soc::join(t.header(), to_json(t.fields(ct)), tag), "ciphertext"};
        }
        case 3: {
            Bytes ct, tag;
            t.seal(ct, tag);
            t.usage = t.usage % 3 + 1;
            return {Soc::join(t.header(), to_json(t.fields(ct)), tag), "usage"};
        }
        case 4: {   // authentic, but the key isn't one
            if (t.type.type == SA_KEY_TYPE_SYMMETRIC) t.mat.clear.pop_back();
            else t.mat.clear = src.bytes(t.mat.clear.size());
            return {t.text(), "key"};
        }
        case 5: {
            Bytes x = t.text();
            x.resize(src.below(x.size() - 1) + 1);
            return {x, "cut"};
        }
        case 6: {
            Bytes x = t.text();
            x[src.below(x.size())] ^= (uint8_t) (1 << src.below(7));
            return {x, "flipped"};
        }
        default: return {src.bytes(src.size(1, 300)), "garbage"};
    }
}
}  // namespace
PROP(c23_provision, "a container was refused, or there were two") {
    SocParams p;
    memset(&p, 0, sizeof p);
    p.length[0] = (uint8_t) (sizeof p >> 8);
    p.length[1] = (uint8_t) sizeof p;
    p.version = src.weighted({4, 4, 1}) == 2 ? src.pick<uint8_t>({0, 1, 4, 255}) : (uint8_t) src.range(2, 3);
    p.object_id = src.below(300);
    if (src.coin()) src.fill(&p.default_rights, sizeof p.default_rights);
    Blob a = gen_blob(src), b = gen_blob(src);
    // the certificates and the ESN are for the other TA: anything goes
    Bytes cert = src.bytes(src.size(1, 200));
    Caller c = Caller::ree();
    sa_key mine = c.must_import_sym(src.bytes(16), rights_all());
    auto judge = [&](const Blob& x) {
        sa_key k = INVALID_HANDLE;
        sa_status s = import_soc(c, x.text, &p, &k);
        if (s == SA_STATUS_OK) REQUIRE(c.key_release(k) == SA_STATUS_OK, "release");
        else REQUIRE(k == INVALID_HANDLE, "refused, but a key handle was stored");
        return s;
    };
    int kind = (int) src.below(4);
    bool two = kind >= 2;
    // which is judged first isn't promised
    sa_status sa = judge(a), sb = two ? judge(b) : SA_STATUS_OK;
    Exact ea(a.text), eb(b.text), ec(cert);
    Exact par(Bytes((uint8_t*) &p, (uint8_t*) (&p + 1)));
    WidevineOemProvisioning w = {(unsigned) ea.n, ea.p, (unsigned) ec.n, ec.p};
    PlayReadyProvisioning r = {(unsigned) src.below(4), (unsigned) ea.n, ea.p, (unsigned) ec.n, ec.p};
    NetflixProvisioning n = {(unsigned) ea.n, ea.p, (unsigned) eb.n, eb.p, (unsigned) ec.n, ec.p};
    pbt::trace("kind %d: %s %s, %s %s", kind, a.what.c_str(), sname(sa), two ? b.what.c_str() : "-", sname(sb));
    sa_status s;
    switch (kind) {
        case 0: s = sa_key_provision_ta(WIDEVINE_OEM_PROVISIONING, &w, sizeof w, par.p); break;
        case 1: s = sa_key_provision_ta(PLAYREADY_MODEL_PROVISIONING, &r, sizeof r, par.p); break;
        default: s = sa_key_provision_ta(NETFLIX_PROVISIONING, &n, sizeof n, par.p); break;
    }
    if (sa == SA_STATUS_OK && sb == SA_STATUS_OK)
        REQUIRE(s == SA_STATUS_OK, "every container can be imported, but provisioning failed: %s", sname(s));
    else {
        REQUIRE(s != SA_STATUS_OK, "provisioning succeeded with a container that can't be imported (%s, %s)", sname(sa), sname(sb));
        REQUIRE(s == sa || s == sb, "provisioning: %s, importing: %s and %s", sname(s), sname(sa), sname(sb));
    }
    // the key goes to the other TA and isn't imported
    for (sa_key h = 0; h < 256; h++) {
        sa_header x;
        if (h != mine) REQUIRE(sa_key_header(&x, h) != SA_STATUS_OK, "a key stayed behind");
    }
    sa_header x;
    REQUIRE(sa_key_header(&x, mine) == SA_STATUS_OK, "provisioning released another key");
    if (two || s != SA_STATUS_OK) pbt::nontrivial();
    pbt::label("%s %s", kind == 0 ? "widevine" : kind == 1 ? "playready" : "netflix", sname(s));
}
