#include "ops.hpp"
static void body(Run& r)
{
    auto v = ops::all();
    int k = r.choose((int)v.size(), "op");
    r.shard();
    mk::reset();
    int id = mk::alloc(0);
    int rc0 = ops::buildBase(id);
    int c0, r0; api::mkernel_undo_state_count(c0, r0);
    auto s0 = mk::csnap(id);
    auto vs0 = mk::validateM2(s0.m2) + mk::validateGeom(s0.m2);
    int rc = v[k].run(id);
    std::string er = rc ? mk::lastError() : "";
    int c1, r1; api::mkernel_undo_state_count(c1, r1);
    auto s1 = mk::csnap(id);
    auto val = mk::validateM2(s1.m2) ; if (val.empty()) val= mk::validateGeom(s1.m2);
    bool un; int uid = -5; int urc = api::mkernel_undo_state(un, uid);
    auto s2 = mk::csnap(id);
    bool re; int rid=-5; int rrc = api::mkernel_redo_state(re, rid);
    auto s3 = mk::csnap(id);
    printf("%-45s base=%d rc=%d %s| undo+%d changed=[%s] valid=[%s] | undone=%d id=%d/%d undodiff=[%s] redodiff=[%s]\n", v[k].name.c_str(), rc0, rc, er.substr(0,100).c_str(), c1 - c0, mk::diff(s0, s1).c_str(), (vs0+val).c_str(), un, uid, id, mk::diff(s0, s2).c_str(), mk::diff(s1, s3).c_str());
    fflush(stdout);
}
MC_MAIN(body)
