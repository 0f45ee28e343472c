// C22: TypeJ keys are imported exactly when authentic and well formed, and are then the key the container names.
#include "container.hpp"
#include "ops.hpp"
using namespace sec;
static sa_status import_typej(const Caller& c, const TypeJ& t, const Bytes& text, sa_key* k, const Bytes* mac_key = nullptr) {
    sa_key km = c.must_import_sym(mac_key ? *mac_key : t.kmac, rights_all()), ke = c.must_import_sym(t.kenc, rights_all());
    sa_import_parameters_typej p = {ke, km};
    Exact e(text);
    sa_status s = c.key_import(k, SA_KEY_FORMAT_TYPEJ, e.p, e.n, &p);
    c.key_release(km);
    c.key_release(ke);
    return s;
}
static void check_key(const Caller& c, sa_key k, const TypeJ& t) {
    sa_header h, want;
    memset(&h, 0, sizeof h);
    REQUIRE(c.key_header(&h, k) == SA_STATUS_OK, "no header");
    memset(&want, 0, sizeof want);
    memcpy(want.magic, "sak0", 4);
    want.rights = t.expected();
    want.type = SA_KEY_TYPE_SYMMETRIC;
    want.size = (uint16_t) t.content.size();
    std::string why;
    REQUIRE(header_eq(h, want, &why), "%s: key has\n%s, container says\n%s", why.c_str(), header_str(h).c_str(), header_str(want).c_str());
}
static Caller pick_caller(Src& src, const TypeJ& t) {
    if (src.coin()) return Caller::ree();
    if (!t.tas.empty() && src.chance(2, 3)) return Caller::open(t.tas[src.below(t.tas.size())]);
    return Caller::open(src.pick({TA_A, TA_B}));
}
PROP(c22_valid, "the container restricts something (output protection, SVP, window, TA list, usage) or uses another layout than the plain one") {
    TypeJ t = gen_typej(src);
    bool plain;
    std::string payload = render(src, t.fields(), &plain);
    if (src.chance(1, 3)) t.header = src.pick<std::string>({"{}", "", "x", "{\"alg\":\"none\"}", std::string(300, 'h')});
    Bytes text = typej_text(t.kmac, t.header, payload);
    Caller c = pick_caller(src, t);
    pbt::trace("payload %s", payload.c_str());
    sa_key k = INVALID_HANDLE;
    sa_status s = import_typej(c, t, text, &k);
    REQUIRE(s == SA_STATUS_OK, "an authentic, well formed container was refused: %s", sname(s));
    check_key(c, k, t);
    // same key as one imported directly with these rights, wherever it is used
    if (src.coin()) g_video = {};
    if (src.coin()) g_video.svp_enabled = true;
    sa_rights r = t.expected();
    sa_key d = c.must_import_sym(t.content, r);
    std::string a = fingerprint(c, k), b = fingerprint(c, d);
    REQUIRE(a == b, "imported key and the contained key with the stated rights differ:\n%s", first_difference(a, b).c_str());
    if (t.usage || t.has_tas || !plain || !(r.usage_flags & bit(SA_USAGE_FLAG_SVP_OPTIONAL)) || (r.usage_flags & 0x1fc0) != 0x1fc0) pbt::nontrivial();
    pbt::label("v%d/%s/%s/usage%d", t.version, t.version == 1 ? "ecb" : t.alg == 0 ? "ecb" : t.alg == 1 ? "ecb5" : t.alg == 2 ? "cbc" : "cbc5",
            t.tas.size() >= 32 ? "32ta" : t.has_tas ? "ta" : "any", t.usage);
}
PROP(c22_malformed, "a correctly authenticated container with one thing wrong") {
    TypeJ t = gen_typej(src);
    std::string what;
    if (src.coin()) t.has_tas = true;
    Fields f = t.fields();
    bool v1 = t.version == 1;
    std::string header = t.header, payload;
    bool raw = false;
    auto set = [&](const std::string& n, const std::string& v) {
        std::string* p = field(f, n);
        if (p) *p = v;
        else f.push_back({n, v});
        what = n + " = " + v.substr(0, 60);
    };
    auto tas = [&](size_t n, const std::string& odd) {
        std::string a = "[";
        size_t at = src.below(n);
        for (size_t i = 0; i < n; i++) a += (i ? "," : "") + (i == at && !odd.empty() ? odd : quote(uuid_text(REE)));
        set("entitledTaIds", a + "]");
    };
    static const char* STR[] = {"contentKeyId", "contentKeyRights", "contentKeyNotBefore", "contentKeyNotOnOrAfter", "contentKey",
            "contentKeyTransportAlgorithm", "contentKeyTransportIv"};
    switch (src.below(15)) {
        case 0: {   // a required field is missing
            Fields req;
            for (auto& p : f)
                if (p.first != "contentKeyContainerVersion" && p.first != "entitledTaIds") req.push_back(p);
            what = req[src.below(req.size())].first;
            std::string* v = field(f, what);
            std::string keep = *v;
            drop(f, what);
            if (src.coin()) f.push_back({src.coin() ? what + "x" : what.substr(0, what.size() - 1), keep});
            what = "no " + what;
            break;
        }
        case 1: {   // a string field has another type
            std::string n;
            do n = STR[src.below(7)];
            while (!field(f, n));
            set(n, wrong_type(src, 's'));
            break;
        }
        case 2: {
            std::string n = src.pick<std::string>({"contentKeyUsage", "contentKeyContainerVersion"});
            if (!v1 && src.chance(1, 3)) n = "contentKeyLength";
            set(n, wrong_type(src, 'i'));
            break;
        }
        case 3: set("contentKeyContainerVersion", src.pick<std::string>({"0", "4", "-1", "257", "258", "4294967297", "65538", "-4294967294", "9223372036854775807"})); break;
        case 4: {
            Bytes r(t.rights.begin(), t.rights.end());
            r.insert(r.begin() + (long) src.below(r.size() + 1), src.coin() ? src.pick<uint8_t>({6, 7, 9, 255, 128}) : (uint8_t) src.range(9, 255));
            set("contentKeyRights", quote(r));
            break;
        }
        case 5: set("contentKeyUsage", src.pick<std::string>({"4", "-1", "5", "256", "257", "258", "259", "4294967297", "-4294967295", "65537"})); break;
        case 6: {
            std::string n = src.pick<std::string>({"contentKeyNotBefore", "contentKeyNotOnOrAfter"});
            std::string d = iso8601(g_now), bad = d;
            switch (src.below(8)) {
                case 0: bad = d.substr(0, src.below(20)); break;
                case 1: bad = d + src.pick<std::string>({"Z", " ", "0", "+01:00"}); break;
                case 2: bad[19] = src.pick({'z', ' ', '0', '+'}); break;
                case 3: bad[src.pick({0, 3, 5, 8, 11, 14, 17})] = src.pick({'x', '-', ':', '/'}); break;
                case 4: bad[src.pick({4, 7, 10, 13, 16})] = src.pick({'x', '0', '/', '.'}); break;
                case 5: bad.replace(5, 2, src.pick<std::string>({"00", "13", "99"})); break;
                case 6: bad.replace(11, 2, src.pick<std::string>({"24", "99", "60"})); break;
                default: bad = src.pick<std::string>({"1969-12-31T23:59:58Z", "1900-01-01T00:00:00Z", "0001-01-01T00:00:00Z", ""}); break;
            }
            set(n, quote(bad));
            break;
        }
        case 7: tas(src.range(33, 70), ""); break;
        case 8: {
            std::string u = uuid_text(src.pick({REE, ALL_MATCH, TA_A}));
            switch (src.below(4)) {
                case 0: u = u.substr(0, src.below(36)); break;
                case 1: u += src.pick<std::string>({"0", "-", "00000000-0000"}); break;
                default: u[src.pick({0, 1, 7, 9, 12, 14, 17, 19, 20, 24, 30, 35})] = src.pick({'g', 'z', 'x', '/', ':', '@', 'G', '`', ' '}); break;
            }
            tas(src.range(1, 32), quote(u));
            break;
        }
        case 9: tas(src.range(1, 32), wrong_type(src, 's')); break;
        case 10: set("entitledTaIds", wrong_type(src, 'a')); break;
        case 11:
            if (v1) pbt::discard();
            if (src.coin()) set("contentKeyTransportAlgorithm", quote(src.pick<std::string>({"", "aesEcb", "aesEcbNon", "aesEcbNone ", "AESECBNONE", "aesCtr", "aesCbcPkcs7", "aesCbcPkcs55", "aesEcbPkcs"})));
            else {
                size_t n = t.content.size();
                set("contentKeyLength", std::to_string((long long) src.pick<long long>({(long long) n - 1, (long long) n + 1, 0, -1, (long long) n + 256, (long long) n + 65536, (long long) n + (1LL << 32), 16 * (long long) n, -(long long) n})));
            }
            break;
        case 12: {   // key data that cannot be the wrapping of any key
            Bytes e = t.encrypted();
            bool pad = t.version != 1 && (t.alg == SA_CIPHER_ALGORITHM_AES_ECB_PKCS7 || t.alg == SA_CIPHER_ALGORITHM_AES_CBC_PKCS7);
            switch (src.below(pad ? 4 : 3)) {
                case 0: e.resize(e.size() - src.range(1, 15)); break;
                case 1: e = cat({e, src.bytes(src.range(1, 15))}); break;
                case 2:
                    if (src.coin()) e.clear();
                    else e = src.bytes(16 * src.range(34, 80));
                    break;
                default: {   // padding that no PKCS#7 padded plaintext has
                    Bytes p = src.bytes(16 * src.range(2, 6));
                    p[p.size() - 1] = src.pick<uint8_t>({0, 17, 32, 255});
                    if (src.coin()) {
                        size_t n = src.range(2, 16);
                        for (size_t i = 0; i < n; i++) p[p.size() - 1 - i] = (uint8_t) n;
                        p[p.size() - 1 - src.range(1, n - 1)] ^= (uint8_t) src.range(1, 255);
                    }
                    e = t.alg == SA_CIPHER_ALGORITHM_AES_ECB_PKCS7 ? aes_ecb(t.kenc, p, true) : aes_cbc(t.kenc, t.iv, p, true);
                    if (src.coin()) set("contentKeyLength", std::to_string(p.size() - p[p.size() - 1] % 17));
                }
            }
            set("contentKey", quote(e));
            break;
        }
        case 13: {
            if (src.coin()) {
                if (t.iv.empty()) pbt::discard();
                Bytes iv = src.bytes(src.coin() ? src.below(16) : src.range(17, 64));
                set("contentKeyTransportIv", quote(iv));
            } else if (src.coin()) {
                std::string n;
                do n = src.pick<std::string>({"contentKey", "contentKeyRights", "contentKeyTransportIv"});
                while (!field(f, n));
                std::string b = b64(Bytes(n == "contentKeyRights" ? 3 : 16, 1));
                switch (src.below(4)) {
                    case 0: b = b.substr(0, src.range(1, b.size() - 1)); if (b.size() % 4 == 0) b += "A"; break;
                    case 1: b[src.below(3)] = src.pick({'-', '_', '!', '*', '.', '=', '\x7f'}); break;
                    case 2: b = src.pick<std::string>({"=", "====", "A===", "!!!!", "%%%%", "A", "AA", "AAA"}); break;
                    default: b += src.pick<std::string>({"*", "!", "****", "=", "A"}); break;
                }
                set(n, quote(b));
            } else
                set("contentKeyId", quote(std::string(src.coin() ? 64 : src.range(64, 400), 'k')));
            break;
        }
        default: {   // not a JSON object at all
            raw = true;
            std::string j = to_json(f);
            switch (src.below(6)) {
                case 0: payload = j.substr(0, src.below(j.size())); break;
                case 1: payload = j + src.pick<std::string>({"x", "}", ",{}", "{}", "\"a\"", "1"}); break;
                case 2: payload = src.pick<std::string>({"null", "1", "true", "[]", "\"contentKey\"", "", " ", "{}", "{", "["}); break;
                case 3: payload = "[" + j + "]"; break;
                case 4: {
                    payload = j;
                    size_t i = src.below(3) == 0 ? 0 : payload.find(src.pick<std::string>({"\":", ",\"", "{\""}));
                    payload[i] = src.pick({'\x01', 'x', '(', '\''});
                    break;
                }
                default: payload = "{\"a\":" + j + "}"; break;
            }
            what = "payload " + payload.substr(0, 40);
        }
    }
    if (!raw) payload = to_json(f);
    pbt::trace("wrong: %s", what.c_str());
    Bytes text = typej_text(t.kmac, header, payload);
    Caller c = pick_caller(src, t);
    sa_key k = INVALID_HANDLE;
    sa_status s = import_typej(c, t, text, &k);
    REQUIRE(s != SA_STATUS_OK, "a malformed container was imported (%s)", what.c_str());
    REQUIRE(k == INVALID_HANDLE, "refused, but a key handle was stored");
    pbt::nontrivial();
    pbt::label("%s", what.substr(0, what.find(' ')).c_str());
    if (src.chance(1, 4)) {
        s = import_typej(c, t, t.text(), &k);
        REQUIRE(s == SA_STATUS_OK, "a good container was refused after a bad one: %s", sname(s));
        check_key(c, k, t);
    }
}
static std::vector<std::string> split(const Bytes& t) {
    std::vector<std::string> v(1);
    for (char ch : t)
        if (ch == '.') v.push_back("");
        else v.back() += ch;
    return v;
}
PROP(c22_tampered, "a container whose header, payload, MAC or MAC key differs from what was authenticated") {
    TypeJ t = gen_typej(src);
    Bytes text = t.text();
    auto p = split(text);
    std::string what;
    Bytes key = t.kmac;
    bool other = false;
    switch (src.below(8)) {
        case 0: {
            int i = (int) src.below(2);
            size_t at = src.below(p[(size_t) i].size());
            char& ch = p[(size_t) i][at];
            char n;
            do n = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"[src.below(64)];
            while (n == ch);
            ch = n;
            what = i ? "payload character" : "header character";
            break;
        }
        case 1: {   // another payload that is itself a good one
            TypeJ u = t;
            switch (src.below(6)) {
                case 0: u.usage = (u.usage + 1) % 3; break;
                case 1: u.cacheable = !u.cacheable; break;
                case 2: u.not_on_or_after += 86400; break;
                case 3: u.has_tas = true; u.tas.push_back(ALL_MATCH); if (u.tas.size() > 32) pbt::discard(); break;
                case 4: u.rights.insert(u.rights.begin(), 5); break;
                default: u.content[src.below(u.content.size())] ^= 1; break;
            }
            std::string n = split(u.text())[1];
            if (n == p[1]) pbt::discard();
            p[1] = n;
            what = "other payload";
            break;
        }
        case 2: {
            Bytes mac = ref_hmac(SA_DIGEST_ALGORITHM_SHA256, t.kmac, str(p[0] + "." + p[1]));
            mac[src.below(32)] ^= (uint8_t) (1 << src.below(8));
            p[2] = b64(mac, true, false);
            what = "mac bit";
            break;
        }
        case 3: {
            Bytes mac = ref_hmac(SA_DIGEST_ALGORITHM_SHA256, t.kmac, str(p[0] + "." + p[1]));
            if (src.coin()) mac.resize(src.below(32));
            else mac = cat({mac, src.bytes(src.range(1, 32))});
            p[2] = b64(mac, true, false);
            what = "mac length";
            break;
        }
        case 4: {
            size_t i = src.below(p.size());
            if (src.coin()) p.erase(p.begin() + (long) i);
            else p.insert(p.begin() + (long) i, p[src.below(3)]);
            what = "segments";
            break;
        }
        case 5:   // a byte moves from the header to the payload, so that the joined text is the same but for the dot
            if (p[0].size() < 2) pbt::discard();
            p[1] = p[0].back() + p[1];
            p[0].pop_back();
            what = "moved dot";
            break;
        case 6: {   // another authentication
            Bytes m = str(p[0] + "." + p[1]), mac;
            switch (src.below(5)) {
                case 0: mac = ref_hmac(SA_DIGEST_ALGORITHM_SHA256, t.kenc, m); break;
                case 1: mac = ref_digest(SA_DIGEST_ALGORITHM_SHA256, m); break;
                case 2: mac = ref_hmac(SA_DIGEST_ALGORITHM_SHA256, t.kmac, str(p[0] + p[1])); break;
                case 3: mac = ref_hmac(SA_DIGEST_ALGORITHM_SHA256, t.kmac, str(p[1])); break;
                default: mac = Bytes(32, src.pick<uint8_t>({0, 255}));
            }
            if (t.kenc == t.kmac) pbt::discard();
            p[2] = b64(mac, true, false);
            what = "other mac";
            break;
        }
        default:
            other = true;
            if (src.coin() && key.size() < 512) key.push_back(src.coin() ? 1 : (uint8_t) src.range(1, 255));
            else key[src.below(key.size())] ^= (uint8_t) (1 << src.below(8));
            what = "other mac key";
            break;
    }
    Bytes bad;
    for (size_t i = 0; i < p.size(); i++) bad = cat({bad, i ? str(".") : Bytes(), str(p[i])});
    REQUIRE(other || bad != text, "harness: nothing changed");
    Caller c = pick_caller(src, t);
    sa_key k = INVALID_HANDLE;
    sa_status s = import_typej(c, t, bad, &k, &key);
    REQUIRE(s != SA_STATUS_OK, "imported although changed: %s", what.c_str());
    REQUIRE(k == INVALID_HANDLE, "refused, but a key handle was stored");
    pbt::nontrivial();
    pbt::label("%s", what.c_str());
}
