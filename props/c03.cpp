// C03: usage flags gate every key operation.
#include "optable.hpp"
using namespace sec;

PROP(c03_flags, "the operation was refused for a missing flag, or allowed with at most four operation flags set") {
    Caller c = src.coin() ? Caller::open(TA_A) : Caller::ree();
    Op op = gen_op(src);
    sa_rights r = rights_all();
    uint64_t need = op.flag >= 0 ? bit(op.flag) : 0;
    switch (src.below(5)) {
        case 0: r.usage_flags = need; break;                         // exactly the flag
        case 1: r.usage_flags = ~need; break;                        // everything but the flag
        case 2: r.usage_flags = src.any() & 0x3fff; break;
        case 3: r.usage_flags = need | bit((int) src.below(14)); break;
        default: r.usage_flags = src.any(); break;
    }
    r.usage_flags |= 0x0fc0;                                          // outputs: C04
    if (src.coin()) r.usage_flags |= bit(SA_USAGE_FLAG_SVP_OPTIONAL);
    if (src.chance(1, 4)) r.child_usage_flags = src.any();
    bool has = !need || (r.usage_flags & need), clear = (r.usage_flags >> SA_USAGE_FLAG_SVP_OPTIONAL) & 1;
    std::string how;
    if (op.setup) op.setup(c);
    sa_key k = make_key(src, c, op, r, &how);
    Obs o;
    for (auto& p : op.phases) {
        bool ok = (!p.need_flag || has) && (!p.need_clear || clear);
        size_t before = o.out.size() + o.keys.size();
        sa_status s = p.fn(c, k, o);
        pbt::trace("%s/%s (%s key) flags %s -> %s", op.name.c_str(), p.name, how.c_str(), show(r).c_str(), sname(s));
        if (ok) {
            REQUIRE(s == SA_STATUS_OK, "%s/%s with usage flags %llx was refused: %s", op.name.c_str(), p.name,
                    (unsigned long long) r.usage_flags, sname(s));
            if (__builtin_popcountll(r.usage_flags & 0x203f) <= 4) pbt::nontrivial();
        } else {
            REQUIRE(s == op.refused, "%s/%s with usage flags %llx: %s", op.name.c_str(), p.name, (unsigned long long) r.usage_flags, sname(s));
            REQUIRE(o.intact, "%s/%s was refused but left a handle or output", op.name.c_str(), p.name);
            REQUIRE(o.out.size() + o.keys.size() == before, "%s/%s was refused but produced something", op.name.c_str(), p.name);
            pbt::nontrivial();
        }
        pbt::label("%s/%s/%s", op.name.c_str(), p.name, ok ? "allowed" : "refused");
        if (!ok && !o.ctx) break;
        if (!ok && p.name == std::string("init")) break;
    }
    // the key itself is unaffected
    sa_header h;
    REQUIRE(c.key_header(&h, k) == SA_STATUS_OK, "header");
    REQUIRE(h.rights.usage_flags == r.usage_flags && h.rights.child_usage_flags == r.child_usage_flags, "usage flags of the key changed");
}
