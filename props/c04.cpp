// C04: validity window, TA identity and output protection gate every use.
#include "optable.hpp"
using namespace sec;

static bool time_ok(const sa_rights& r) { return (uint64_t) g_now >= r.not_before && (uint64_t) g_now < r.not_on_or_after; }
static bool flag(const sa_rights& r, int f) { return (r.usage_flags >> f) & 1; }
static bool video_ok(const sa_rights& r) {
    return (flag(r, SA_USAGE_FLAG_SVP_OPTIONAL) || g_video.svp_enabled) &&
           (flag(r, SA_USAGE_FLAG_ALLOWED_ANALOG_UNPROTECTED) || !g_video.analog_unprotected_count) &&
           (flag(r, SA_USAGE_FLAG_ALLOWED_ANALOG_CGMSA) || !g_video.analog_cgmsa_count) &&
           (flag(r, SA_USAGE_FLAG_ALLOWED_DIGITAL_UNPROTECTED) || !g_video.digital_unprotected_count) &&
           (flag(r, SA_USAGE_FLAG_ALLOWED_DIGITAL_HDCP14) || !g_video.digital_hdcp14_count) &&
           (flag(r, SA_USAGE_FLAG_ALLOWED_DIGITAL_HDCP22) || !g_video.digital_hdcp22_count);
}
static bool ta_ok(const sa_rights& r, const sa_uuid& u) {
    sa_uuid zero;
    memset(&zero, 0, sizeof zero);
    for (auto& t : r.allowed_tas) {
        if (!memcmp(&t, &zero, 16)) continue;
        if (!memcmp(&t, &ALL_MATCH, 16) || !memcmp(&t, &u, 16)) return true;
    }
    return false;
}
static void gen_time(Src& src, const sa_rights& r) {
    switch (src.below(7)) {
        case 0: break;
        case 1: g_now = (int64_t) (r.not_before & INT64_MAX); break;
        case 2: g_now = r.not_before ? (int64_t) ((r.not_before - 1) & INT64_MAX) : 0; break;
        case 3: g_now = (int64_t) (r.not_on_or_after & INT64_MAX); break;
        case 4: g_now = r.not_on_or_after ? (int64_t) ((r.not_on_or_after - 1) & INT64_MAX) : 0; break;
        case 5: g_now += (int64_t) src.below(4000) - 2000; break;
        default: g_now = (int64_t) (src.any() & INT64_MAX); break;
    }
    if (g_now < 0) g_now = 0;
}
static void gen_video(Src& src) {
    auto n = [&] { return (uint8_t) (src.weighted({3, 2}) ? src.pick({1, 2, 255}) : 0); };
    g_video.analog_unprotected_count = n();
    g_video.digital_unprotected_count = n();
    g_video.analog_cgmsa_count = n();
    g_video.digital_hdcp14_count = n();
    g_video.digital_hdcp22_count = n();
    g_video.svp_enabled = src.weighted({3, 1}) == 0;
}
static std::string env() {
    char b[200];
    snprintf(b, sizeof b, "now=%lld analog=%u cgmsa=%u digital=%u hdcp14=%u hdcp22=%u svp=%d", (long long) g_now, (unsigned) g_video.analog_unprotected_count,
            (unsigned) g_video.analog_cgmsa_count, (unsigned) g_video.digital_unprotected_count, (unsigned) g_video.digital_hdcp14_count,
            (unsigned) g_video.digital_hdcp22_count, g_video.svp_enabled);
    return b;
}

PROP(c04_gate, "a use was refused for exactly one of window, TA and outputs, or allowed under a window, TA list and outputs that are all restricted") {
    sa_uuid u = src.weighted({2, 2, 1}) == 0 ? REE : TA_A;
    bool ree = src.coin();
    if (!ree && src.chance(1, 3)) src.fill(&u, 16);
    Caller c = ree ? Caller::ree() : Caller::open(u);
    if (ree) u = REE;
    Op op = gen_op(src);
    sa_rights r = rights_all();
    // at most some of the three conditions are made interesting, so that single causes are common
    bool t_on = src.coin(), v_on = src.coin(), u_on = src.chance(1, 3);
    r.usage_flags = 0x3fff;
    if (v_on) {
        for (int f = SA_USAGE_FLAG_SVP_OPTIONAL; f <= SA_USAGE_FLAG_ALLOWED_DIGITAL_DTCP; f++)
            if (src.chance(1, 3)) r.usage_flags &= ~bit(f);
        if (src.coin()) r.usage_flags |= bit(SA_USAGE_FLAG_SVP_OPTIONAL);
    }
    int64_t base = g_now;
    if (t_on) switch (src.below(6)) {
        case 0: r.not_before = base - src.below(3); r.not_on_or_after = base + 1 + src.below(3); break;
        case 1: r.not_on_or_after = base + src.below(3); break;
        case 2: r.not_before = base + 1 - src.below(3); break;
        case 3: r.not_before = base + 5; r.not_on_or_after = base - 5; break;
        case 4: r.not_before = 0, r.not_on_or_after = 0; break;
        default: r.not_before = src.any(), r.not_on_or_after = src.any(); break;
    }
    if (u_on) {
        memset(r.allowed_tas, 0, sizeof r.allowed_tas);
        size_t n = src.weighted({1, 3, 3}) == 0 ? 0 : src.range(1, 32);
        for (size_t i = 0; i < n; i++) {
            sa_uuid& t = r.allowed_tas[src.coin() ? 31 - i : i];
            switch (src.weighted({6, 3, 1, 1, 1})) {
                case 0: t = u; t.id[src.below(16)] ^= (uint8_t) (1u << src.below(8)); break;
                case 1: src.fill(&t, 16); break;
                case 2: t = ALL_MATCH; t.id[src.below(16)] ^= (uint8_t) (1u << src.below(8)); break;
                case 3: t = u; break;
                default: t = src.chance(1, 3) ? ALL_MATCH : TA_B; break;
            }
        }
    }
    if (op.setup) op.setup(c);
    std::string how;
    sa_key k = make_key(src, c, op, r, &how);
    if (t_on) gen_time(src, r);
    if (v_on) gen_video(src);
    Obs o;
    bool first = true;
    for (auto& p : op.phases) {
        if (!first && src.coin()) {
            if (t_on && src.coin()) gen_time(src, r);
            if (v_on && src.coin()) gen_video(src);
        }
        first = false;
        for (int attempt = 0; attempt < 2; attempt++) {
            bool t = !p.need_time || time_ok(r), v = !p.need_video || video_ok(r), a = !p.need_ta || ta_ok(r, u),
                 cl = !p.need_clear || flag(r, SA_USAGE_FLAG_SVP_OPTIONAL);
            bool ok = t && v && a && cl;
            size_t before = o.out.size() + o.keys.size();
            sa_status s = p.fn(c, k, o);
            pbt::trace("%s/%s (%s key) rights %s caller %s; %s -> %s", op.name.c_str(), p.name, how.c_str(), show(r).c_str(), pbt::hex(&u, 16).c_str(),
                    env().c_str(), sname(s));
            if (ok) {
                REQUIRE(s == SA_STATUS_OK, "%s/%s was refused although window, TA and outputs allow it: %s", op.name.c_str(), p.name, sname(s));
                if (t_on && v_on && u_on) pbt::nontrivial();
                pbt::label("allowed/%s%s%s", t_on ? "t" : "", v_on ? "v" : "", u_on ? "u" : "");
                break;
            }
            const char* why = !t ? "window" : !v ? "outputs" : !a ? "TA" : "clear";
            REQUIRE(s != SA_STATUS_OK, "%s/%s was allowed although the %s forbids it", op.name.c_str(), p.name, why);
            REQUIRE(s == op.refused, "%s/%s refused because of the %s with %s", op.name.c_str(), p.name, why, sname(s));
            REQUIRE(o.intact && o.out.size() + o.keys.size() == before, "%s/%s was refused because of the %s but left a handle or output",
                    op.name.c_str(), p.name, why);
            if (!t + !v + !a + !cl == 1) pbt::nontrivial();
            pbt::label("refused/%s", !t + !v + !a + !cl == 1 ? why : "several");
            // with the conditions met again, the very same use works
            if (!a || !cl) return;
            if (r.not_before >= r.not_on_or_after || r.not_before > (uint64_t) INT64_MAX) return;
            g_now = (int64_t) r.not_before;
            g_video = video_output_state_t{};
            g_video.svp_enabled = true;
        }
    }
    // reading the header, and releasing, are never gated
    sa_header h;
    REQUIRE(c.key_header(&h, k) == SA_STATUS_OK, "header");
    REQUIRE(h.rights.not_before == r.not_before && h.rights.not_on_or_after == r.not_on_or_after &&
            !memcmp(h.rights.allowed_tas, r.allowed_tas, sizeof r.allowed_tas), "window or TA list of the key changed");
}
