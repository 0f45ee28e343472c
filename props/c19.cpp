// C19: whatever command the normal world sends, the TA answers with a status, touches nothing but the memory handed over
// (never writing to input-only memory), and rejects a command whose parameter layout is not the documented one without
// any effect.
#include "commands.hpp"

PROP(c19_commands, "a command was deformed, or the sequence used 4 or more different commands") {
    g_caller = src.coin() ? REE : TA_A;
    World w;
    w.open(src);
    track_begin();
    std::set<uint32_t> seen;
    size_t n = src.range(1, 24);
    for (size_t i = 0; i < n; i++) {
        Cmd c = make(src, w);
        std::string what;
        if (src.chance(2, 5))
            for (size_t j = 0, m = src.range(1, 2); j < m; j++) what += std::string(deform(src, c)) + " ";
        c.bad = layout(c);
        pbt::trace("%s%s%s", show(c).c_str(), what.empty() ? "" : (" [" + what + "]").c_str(), c.bad ? (std::string(" layout: ") + c.bad).c_str() : "");
        if (!what.empty()) pbt::nontrivial();
        seen.insert(c.id);
        g_fill = src.pick({-1, 0, 0xff, 0x41});
        if (src.coin()) prime_stack(src.pick<uint64_t>({0, ~0ULL, 0x4141414141414141ULL}));
        size_t live = track_live();
        sa_status s = w.run(c);
        g_fill = -1;
        pbt::label("command %u %s%s", c.id, c.bad ? "bad layout" : sname(s), "");
        if (c.bad) {
            REQUIRE(s != SA_STATUS_OK, "a command with an undocumented layout was carried out: %s", c.bad);
            REQUIRE(track_live() == live, "a command rejected for its layout (%s) left %ld blocks behind:\n%s", c.bad, (long) (track_live() - live), track_report().c_str());
        }
        if (s == SA_STATUS_OK && !c.bad) {
            switch (c.id) {
                case SA_KEY_GENERATE: case SA_KEY_DERIVE: case SA_KEY_UNWRAP: case SA_KEY_IMPORT: case SA_KEY_EXCHANGE: {
                    sa_key k;
                    uint32_t type = 99;
                    if (c.id == SA_KEY_GENERATE) {
                        auto g = w.get<sa_key_generate_s>(c);
                        k = g.key;
                        type = g.key_type;
                    } else if (c.id == SA_KEY_DERIVE) k = w.get<sa_key_derive_s>(c).key;
                    else if (c.id == SA_KEY_UNWRAP) k = w.get<sa_key_unwrap_s>(c).key;
                    else if (c.id == SA_KEY_IMPORT) k = w.get<sa_key_import_s>(c).key;
                    else k = w.get<sa_key_exchange_s>(c).key;
                    REQUIRE(k != w.guard_key, "a new key has the handle of another key");
                    w.keys.push_back(k);
                    if (type == SA_KEY_TYPE_DH) w.dh.push_back(k);
                    else if (type == SA_KEY_TYPE_SYMMETRIC || c.id == SA_KEY_DERIVE)
                        w.sym.push_back(k);
                    break;
                }
                case SA_CRYPTO_CIPHER_INIT: w.ciphers.push_back(w.get<sa_crypto_cipher_init_s>(c).context); break;
                case SA_CRYPTO_MAC_INIT: w.macs.push_back(w.get<sa_crypto_mac_init_s>(c).context); break;
                case SA_SVP_BUFFER_CREATE: w.svps.push_back(w.get<sa_svp_buffer_create_s>(c).svp_buffer); break;
                default: break;
            }
        }
        if (src.chance(1, 4)) w.check();
    }
    if (seen.size() >= 4) pbt::nontrivial();
    track_end();
    w.close();
}
