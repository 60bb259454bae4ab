// C25: distances, time to collision and collisions between objects, asked through the library.
#include <algorithm>
#include <map>
#include <set>
#include "scn.hpp"
using std::string;
using std::vector;
using vf::fmt;

static string road_file(double len, double hdg = 0)
{
    scn::write_file("r.xodr", scn::odr(scn::straight_road(len, 2, 2, 0, 0, hdg)));
    char cwd[400];
    return getcwd(cwd, sizeof(cwd)) ? string(cwd) + "/r.xodr" : "";
}
struct P
{
    double x, y, h, z = 0;
};
struct Box
{
    double len, wid, cx, cy = 0, hgt = 1.5, cz = 0.75;
};
static string car(const string& name, const Box& b)
{
    return scn::vehicle(name, b.len, b.wid, b.cx);
}
static void corners(const P& p, const Box& b, double (&o)[4][2])
{
    double l[4][2] = {{b.cx + b.len / 2, b.cy + b.wid / 2}, {b.cx - b.len / 2, b.cy + b.wid / 2}, {b.cx - b.len / 2, b.cy - b.wid / 2}, {b.cx + b.len / 2, b.cy - b.wid / 2}};
    for (int i = 0; i < 4; i++)
    {
        o[i][0] = p.x + l[i][0] * cos(p.h) - l[i][1] * sin(p.h);
        o[i][1] = p.y + l[i][0] * sin(p.h) + l[i][1] * cos(p.h);
    }
}
// largest separation over the edge normals of both boxes: > 0 apart, < 0 overlapping
static double separation(const P& p, const Box& bp, const P& q, const Box& bq)
{
    double a[4][2], b[4][2], best = -1e9;
    corners(p, bp, a);
    corners(q, bq, b);
    for (double h : {p.h, p.h + M_PI_2, q.h, q.h + M_PI_2})
    {
        double amin = 1e9, amax = -1e9, bmin = 1e9, bmax = -1e9;
        for (int i = 0; i < 4; i++)
        {
            double u = a[i][0] * cos(h) + a[i][1] * sin(h), v = b[i][0] * cos(h) + b[i][1] * sin(h);
            amin = std::min(amin, u), amax = std::max(amax, u), bmin = std::min(bmin, v), bmax = std::max(bmax, v);
        }
        best = std::max(best, std::max(bmin - amax, amin - bmax));
    }
    double zp = p.z + bp.cz, zq = q.z + bq.cz;
    return std::max(best, fabs(zp - zq) - (bp.hgt + bq.hgt) / 2);
}

// ---- histories of SE_SimpleGetDistanceToObject
static double rel_dist(const P& a, const P& b, int type)
{
    double dx = b.x - a.x, dy = b.y - a.y;
    if (type == 1)
        return -dx * sin(a.h) + dy * cos(a.h);
    if (type == 2)
        return dx * cos(a.h) + dy * sin(a.h);
    return (type == 0 || dx * cos(a.h) + dy * sin(a.h) >= 0 ? 1 : -1) * sqrt(dx * dx + dy * dy);  // negative behind
}
struct SimpleCase
{
    string      name;
    vector<int> ops;
    int         depth;
    int         first;
};
static const char* SOP[] = {"lat", "long", "eucl", "abs", "back-long", "back-eucl", "step", "step2", "near", "mid", "far", "delete", "add"};
static void        simple(const SimpleCase& c)
{
    scn::Tree tree;
    tree.n     = static_cast<int>(c.ops.size());
    tree.depth = c.depth - 1;
    string doc;
    double t = 0;
    struct Obs
    {
        double t;
        P      a, b;
    };
    vector<Obs>                              hist;  // poses at the times of the frames
    double                                   limit = 100;
    std::map<std::pair<int, int>, double>    last;  // direction, type -> time of the last sample
    double                                   far_seen = -100;  // last time the pair was found out of range by a query
    bool                                     there = true;
    tree.show = [&](vector<int> p)
    {
        string s = SOP[c.first];
        for (int i : p)
            s += string(",") + SOP[c.ops[static_cast<size_t>(i)]];
        return s;
    };
    auto fail = [&](const string& what) -> bool
    {
        vf::violation(c.name + "@" + tree.path_str(), "after " + tree.path_str() + ": " + what, doc);
        return false;
    };
    auto pose = [&](int id)
    {
        SE_ScenarioObjectState s;
        memset(&s, 0, sizeof(s));
        SE_GetObjectState(id, &s);
        return P{s.x, s.y, s.h};
    };
    bool moved = false;  // poses were reported after the frame: samples of this frame may be from before or after
    auto note  = [&]()
    {
        hist.push_back({t, pose(0), pose(1)});
    };
    auto query = [&](int dir, int type) -> bool
    {
        double d = -12345, ts = -12345;
        int    ia = dir ? 1 : 0, ib = dir ? 0 : 1;
        int    r  = SE_SimpleGetDistanceToObject(ia, ib, static_cast<SE_RelativeDistanceType>(type), limit, &d, &ts);
        vf::cmp();
        if (!there)
        {
            if (r != -1)
                return fail(fmt("distance to a deleted entity: returned %d, expected -1", r));
            last.clear();
            far_seen = -100;
            return true;
        }
        P      a = pose(ia), b = pose(ib);
        double now = rel_dist(a, b, type), gap = rel_dist(a, b, 0);
        string what = fmt("distance type %d from %d to %d at %.2f s returned %d, distance %.3f, time %.3f; actual distance %.3f (%.0f m apart)", type, ia, ib, t, r, d, ts, now, gap);
        auto   key  = std::make_pair(dir, type);
        if (r == 0)
        {
            if (fabs(d - now) > 1e-3 || fabs(ts - t) > 1e-6)
                return fail(what + ": not the current one");
            if (gap > 501)
                return fail(what + ": more than 500 m should be discarded");
            last[key] = t;
            vf::outcome("fresh");
            return true;
        }
        if (r != -2)
            return fail(what + ": unexpected return value");
        if (gap > 499)
        {
            if (gap > 500)
                far_seen = t;
            vf::outcome("out of range");
            return true;
        }
        if (t - far_seen < 3.0 + 1e-6)
        {
            vf::outcome("still out of range");
            return true;
        }
        // the sample of an earlier query is kept: it has to be one, and young enough
        if (!last.count(key))
            return fail(what + ": no sample of this distance was ever taken");
        if (fabs(ts - last[key]) > 1e-6)
            return fail(what + fmt(": the last sample was taken at %.3f", last[key]));
        bool ok = false, beyond = false;
        for (auto& o : hist)
            if (fabs(o.t - ts) < 1e-6)
            {
                double e = rel_dist(dir ? o.b : o.a, dir ? o.a : o.b, type);
                ok       = ok || fabs(e - d) < 1e-3;
                beyond   = beyond || fabs(e) > limit - 1;
            }
        if (!ok)
            return fail(what + ": never was the distance at that time");
        if (t - ts > 1e-6 && (!beyond || t - ts > 3.0 + 1e-6))
            return fail(what + ": too old");
        vf::outcome(t - ts > 1e-6 ? "kept" : "same frame");
        return true;
    };
    auto op = [&](int o) -> bool
    {
        vf::eval();
        vf::step();
        switch (o)
        {
            case 0: return query(0, 1);
            case 1: return query(0, 2);
            case 2: return query(0, 4);
            case 3: return query(0, 3);
            case 4: return query(1, 2);
            case 5: return query(1, 4);
            case 6:
            case 7:
            {
                double dt = o == 6 ? 0.5 : 3.5;
                SE_StepDT(dt);
                t += dt;
                moved = false;
                note();
                break;
            }
            case 8:
            case 9:
            case 10:
                if (there)
                {
                    SE_ReportObjectPosXYH(1, o == 8 ? 160 : o == 9 ? 300 : 1200, o == 8 ? -5.25 : -1.75, 0);
                    SE_ReportObjectSpeed(1, 0);
                    SE_StepDT(0.5);
                    t += 0.5;
                    note();
                }
                break;
            default:
            {
                SE_SetVariableInt("op", o == 11 ? 1 : 2);
                SE_StepDT(0.5);
                SE_SetVariableInt("op", 0);
                SE_StepDT(0.5);
                t += 1.0;
                there = o == 12;
                note();
            }
        }
        vf::state(fmt("%d %.1f %d", o, t, there));
        return true;
    };
    tree.apply = [&](int i) { return op(c.ops[static_cast<size_t>(i)]); };
    tree.leaf  = [&]()
    {
        if (vf::fnv(tree.path_str()) % 300 == 1)
            vf::sample(c.name + " " + tree.path_str());
    };
    tree.run(
        [&]() -> bool
        {
            auto ea = [](const string& n, bool add)
            {
                return "<GlobalAction><EntityAction entityRef=\"" + n + "\">" + (add ? "<AddEntityAction><Position>" + scn::world_pos(160, -5.25) + "</Position></AddEntityAction>" : string("<DeleteEntityAction/>")) +
                       "</EntityAction></GlobalAction>";
            };
            auto ev = [](const string& n, int o, const string& a)
            {
                return "<Event name=\"" + n + "\" priority=\"parallel\" maximumExecutionCount=\"100\"><Action name=\"a_" + n + "\">" + a + "</Action>" + scn::trigger("StartTrigger", scn::var_cond("op", std::to_string(o))) + "</Event>";
            };
            doc = scn::xosc(road_file(4000),
                            scn::vehicle("A") + scn::vehicle("B"),
                            scn::init_private("A", {scn::teleport(scn::lane_pos(1, -1, 100)), scn::speed_action(4)}) + scn::init_private("B", {scn::teleport(scn::lane_pos(1, -2, 160)), scn::speed_action(6)}),
                            "<Story name=\"s\"><Act name=\"act\"><ManeuverGroup name=\"mg\" maximumExecutionCount=\"1\"><Actors selectTriggeringEntities=\"false\"/><Maneuver name=\"m\">" + ev("e1", 1, ea("B", false)) +
                                ev("e2", 2, ea("B", true)) + "</Maneuver></ManeuverGroup></Act></Story>",
                            "<StopTrigger/>",
                            scn::var_decl("op", "integer", "0"));
            if (!scn::load(doc))
            {
                vf::violation(c.name + "@load", "valid scenario rejected", doc);
                return false;
            }
            note();
            return op(c.first);
        });
}

// ---- collisions
struct CollCase
{
    string name;
    int    split;
    int    depth;
};
static void coll(const CollCase& c)
{
    static const Box BX[4] = {{5, 2, 1.4}, {4, 1.8, 0.5}, {8, 2.5, 3}, {2, 1, 0.5}};
    static const P   PL[]  = {{100, -1.75, 0}, {103, -2.6, 0.4}, {103.9, -1.75, M_PI}, {100, 1.75, 0}, {99, -1.75, M_PI_2}, {101, -1.75, 0, 5}, {107, -1.0, 2.2}, {150, -1.75, 0}};
    const int        NP    = 8;
    scn::Tree        tree;
    tree.n     = NP * 2 + 2;
    tree.depth = c.depth;
    string    doc;
    P         at[4] = {{100, -1.75, 0}, {150, -1.75, 0}, {200, -1.75, 0}, {250, -1.75, 0}};
    int       extra = -1;
    tree.show       = [&](vector<int> p)
    {
        string s = fmt("%d:", c.split);
        for (int i : p)
            s += fmt("%d ", i);
        return s;
    };
    auto compare = [&]() -> bool
    {
        vf::cmp();
        vf::step();
        string st;
        for (int i = 0; i < 4; i++)
        {
            int me = i < 3 ? i : extra;
            if (me < 0)
                continue;
            std::multiset<int> got, must, may;
            int                n = SE_GetObjectNumberOfCollisions(me);
            for (int k = 0; k < n; k++)
                got.insert(SE_GetObjectCollision(me, k));
            for (int j = 0; j < 4; j++)
            {
                int ot = j < 3 ? j : extra;
                if (j == i || ot < 0)
                    continue;
                double s = separation(at[i], BX[i], at[j], BX[j]);
                if (s < -1e-3)
                    must.insert(ot);
                if (s < 1e-3)
                    may.insert(ot);
            }
            bool ok = std::includes(got.begin(), got.end(), must.begin(), must.end()) && std::includes(may.begin(), may.end(), got.begin(), got.end());
            if (SE_GetObjectCollision(me, n) != -1)
                ok = false;
            st += fmt("%zu", got.size());
            if (!ok)
            {
                string g, m;
                for (int x : got)
                    g += fmt("%d ", x);
                for (int x : must)
                    m += fmt("%d ", x);
                vf::violation(c.name + "@" + tree.path_str(), fmt("after %s: object %d collides with {%s}, expected {%s}", tree.path_str().c_str(), me, g.c_str(), m.c_str()), doc);
                return false;
            }
        }
        vf::state(st);
        vf::outcome(st);
        return true;
    };
    auto report = [&](int id, const P& p)
    {
        SE_ReportObjectPosMode(id, p.x, p.y, p.z, p.h, 0, 0, SE_Z_ABS | SE_H_ABS | SE_P_REL | SE_R_REL);
        SE_ReportObjectSpeed(id, 0);
    };
    auto put = [&](int i, const P& p)
    {
        at[i] = p;
        report(i < 3 ? i : extra, p);
    };
    tree.apply = [&](int in) -> bool
    {
        vf::eval();
        if (in < NP)
            put(1, PL[in]);
        else if (in < 2 * NP)
            put(extra >= 0 && (in & 1) ? 3 : 2, PL[in - NP]);
        else if (in == 2 * NP)
        {
            if (extra < 0)
            {
                SE_OSCBoundingBox bb;
                memset(&bb, 0, sizeof(bb));
                bb.center_     = {0.5F, 0, 0.75F};
                bb.dimensions_ = {1, 2, 1.5F};
                extra          = SE_AddObjectWithBoundingBox("X", 1, 0, 0, 0, "", bb, 2);
                put(3, PL[1]);
            }
        }
        else if (extra >= 0)
        {
            SE_DeleteObject(extra);
            for (int i = 0; i < 3; i++)
                for (int k = 0; k < SE_GetObjectNumberOfCollisions(i); k++)
                    if (SE_GetObjectCollision(i, k) == extra)
                    {
                        vf::violation(c.name + "@" + tree.path_str(), fmt("after %s: object %d still collides with the deleted object %d", tree.path_str().c_str(), i, extra), doc);
                        return false;
                    }
            extra = -1;
        }
        SE_StepDT(0.1);
        return compare();
    };
    tree.leaf = [&]()
    {
        if (vf::fnv(tree.path_str()) % 500 == 1)
            vf::sample(c.name + " " + tree.path_str());
    };
    tree.run(
        [&]() -> bool
        {
            doc = scn::xosc(road_file(4000),
                            car("A", BX[0]) + car("B", BX[1]) + car("C", BX[2]),
                            scn::init_private("A", {scn::teleport(scn::world_pos(at[0].x, at[0].y)), scn::speed_action(0)}) + scn::init_private("B", {scn::teleport(scn::world_pos(at[1].x, at[1].y)), scn::speed_action(0)}) +
                                scn::init_private("C", {scn::teleport(scn::world_pos(at[2].x, at[2].y)), scn::speed_action(0)}),
                            "",
                            "<StopTrigger/>");
            SE_CollisionDetection(true);
            if (!scn::load(doc))
            {
                vf::violation(c.name + "@load", "valid scenario rejected", doc);
                return false;
            }
            return compare() && tree.apply(c.split);
        });
}

// ---- SE_GetDistanceToObject, SE_GetTimeToCollision
static void grid(const string& name, int la, double ha, bool deep_)
{
    static const Box BA = {5, 2, 1.4}, BB = {8, 2.5, 3};
    auto             lane_t = [](int l) { return l > 0 ? 3.5 * l - 1.75 : 3.5 * l + 1.75; };
    string           doc    = scn::xosc(road_file(4000),
                           car("A", BA) + car("B", BB),
                           scn::init_private("A", {scn::teleport(scn::lane_pos(1, -1, 100)), scn::speed_action(0)}) + scn::init_private("B", {scn::teleport(scn::lane_pos(1, -1, 200)), scn::speed_action(0)}),
                           "",
                           "<StopTrigger/>");
    if (!scn::load(doc))
    {
        vf::violation(name + "@load", "valid scenario rejected", doc);
        return;
    }
    vector<double> speeds = deep_ ? vector<double>{-5, 0, 5, 12, 20} : vector<double>{-5, 0, 5, 20};
    for (int lb : {-2, -1, 1, 2})
        for (double hb : {0.0, 0.3, M_PI_2, 2.8, M_PI, 4.4, 6.0})
            for (double sb : {1000.0, 1004.0, 1007.0, 1015.0, 990.0, 940.0, 1060.0, 1400.0, 1990.0, 2010.0, 500.0})
            {
                P a = {1000, lane_t(la) + 0.3, ha}, b = {sb, lane_t(lb) - 0.2, hb};
                SE_ReportObjectPosXYH(0, a.x, a.y, a.h);
                SE_ReportObjectPosXYH(1, b.x, b.y, b.h);
                SE_ReportObjectSpeed(0, 0);
                SE_ReportObjectSpeed(1, 0);
                SE_StepDT(0.1);
                vf::step();
                vf::state(fmt("%d %d %.1f %.1f %.1f", la, lb, ha, hb, sb));
                int     fwd = cos(ha) > 0 ? 1 : -1;
                string  key = fmt("%s@%d,%.2f,%.0f", name.c_str(), lb, hb, sb), what = fmt("A at (%.1f, %.2f, %.2f), B at (%.1f, %.2f, %.2f): ", a.x, a.y, a.h, b.x, b.y, b.h);
                for (int back = 0; back < 2; back++)
                {
                    const P& p = back ? b : a;
                    const P& q = back ? a : b;
                    if (fabs(cos(p.h)) < 0.2)
                        continue;
                    int             f = cos(p.h) > 0 ? 1 : -1;
                    SE_PositionDiff d;
                    memset(&d, 0, sizeof(d));
                    int r = SE_GetDistanceToObject(back, 1 - back, false, &d);
                    vf::cmp();
                    vf::eval();
                    double ds = f * (q.x - p.x), dt = q.y - p.y;
                    string w  = what + fmt("distance from %s returned %d, ds %.3f dt %.3f dlane %d opposite %d", back ? "B" : "A", r, d.ds, d.dt, d.dLaneId, d.oppositeLanes);
                    if (fabs(q.x - p.x) > 1000)
                    {
                        if (r != -2)
                            vf::violation(key + "/far", w + ": farther than 1000 m", doc);
                    }
                    else
                    {
                        int lp = back ? lb : la, lq = back ? la : lb, dl = lq - lp;
                        if ((lp > 0) != (lq > 0))
                            dl -= dl > 0 ? 1 : -1;
                        if (r != 0 || fabs(d.ds - ds) > 0.01 || fabs(d.dt - dt) > 0.01 || d.dLaneId != dl || d.oppositeLanes != ((lp > 0) != (lq > 0)) ||
                            fabs(hypot(d.dx, d.dy) - hypot(q.x - p.x, q.y - p.y)) > 0.01)
                            vf::violation(key + "/ref" + (back ? "B" : "A"), w + fmt(", expected ds %.3f dt %.3f dlane %d", ds, dt, dl), doc);
                    }
                    // between the boxes
                    double ca[4][2], cb[4][2];
                    corners(p, back ? BB : BA, ca);
                    corners(q, back ? BA : BB, cb);
                    double gap[2] = {0, 0};
                    for (int k = 0; k < 2; k++)
                    {
                        double amin = 1e9, amax = -1e9, bmin = 1e9, bmax = -1e9;
                        for (int i = 0; i < 4; i++)
                            amin = std::min(amin, ca[i][k]), amax = std::max(amax, ca[i][k]), bmin = std::min(bmin, cb[i][k]), bmax = std::max(bmax, cb[i][k]);
                        gap[k] = bmin > amax ? bmin - amax : amin > bmax ? -(amin - bmax) : 0;
                    }
                    double sep = separation(p, back ? BB : BA, q, back ? BA : BB);
                    if (fabs(sep) < 1e-3)
                        continue;
                    if (sep < 0)
                        gap[0] = gap[1] = 0;
                    memset(&d, 0, sizeof(d));
                    r = SE_GetDistanceToObject(back, 1 - back, true, &d);
                    vf::cmp();
                    if (fabs(q.x - p.x) < 1000 && (r != 0 || fabs(fabs(d.ds) - fabs(gap[0])) > 0.01 || fabs(fabs(d.dt) - fabs(gap[1])) > 0.01 || (fabs(gap[0]) > 0.1 && (d.ds > 0) != (f * gap[0] > 0)) ||
                                                   (fabs(gap[1]) > 0.1 && (d.dt > 0) != (gap[1] > 0))))
                        vf::violation(key + "/free" + (back ? "B" : "A"),
                                      what + fmt("free space from %s returned %d, ds %.3f dt %.3f, expected ds %.3f dt %.3f", back ? "B" : "A", r, d.ds, d.dt, f * gap[0], gap[1]),
                                      doc);
                }
                // time to collision, along the road, target in front
                if (fabs(sin(hb)) > 1e-6 || fabs(sin(ha)) > 1e-6 || fwd * (sb - 1000) < 1)
                    continue;
                int fb = cos(hb) > 0 ? 1 : -1;
                for (double va : speeds)
                    for (double vb : speeds)
                    {
                        SE_ReportObjectPosXYH(0, a.x, a.y, a.h);
                        SE_ReportObjectPosXYH(1, b.x, b.y, b.h);
                        SE_ReportObjectVel(0, va * fwd, 0, 0);
                        SE_ReportObjectVel(1, vb * fb, 0, 0);
                        SE_ReportObjectSpeed(0, va);
                        SE_ReportObjectSpeed(1, vb);
                        SE_StepDT(0.001);
                        SE_ScenarioObjectState s0, s1;
                        SE_GetObjectState(0, &s0);
                        SE_GetObjectState(1, &s1);
                        P      pa = {s0.x, s0.y, ha}, pb = {s1.x, s1.y, hb};
                        double closing = va - vb * fb * fwd;  // along A's heading
                        for (int free = 0; free < 2; free++)
                            for (int cs : {1, 3})  // entity, road
                            {
                                double ca[4][2], cb[4][2], dist = fwd * (pb.x - pa.x);
                                if (free)
                                {
                                    corners(pa, BA, ca);
                                    corners(pb, BB, cb);
                                    double amin = 1e9, amax = -1e9, bmin = 1e9, bmax = -1e9;
                                    for (int i = 0; i < 4; i++)
                                        amin = std::min(amin, ca[i][0]), amax = std::max(amax, ca[i][0]), bmin = std::min(bmin, cb[i][0]), bmax = std::max(bmax, cb[i][0]);
                                    dist = fwd > 0 ? bmin - amax : amin - bmax;
                                    if (dist < 0.05)
                                        continue;
                                }
                                double ttc = -7;
                                int    r   = SE_GetTimeToCollision(0, 1, cs, REL_DIST_LONGITUDINAL, free, &ttc);
                                vf::cmp();
                                double want = closing < 1e-6 ? -1 : dist / closing;
                                if (r != 0 || fabs(ttc - want) > 0.01 * (1 + fabs(want)))
                                    vf::violation(key + fmt("/ttc%d%d", cs, free), what + fmt("speeds %.0f and %.0f: time to collision (system %d, free space %d) %.3f, returned %d, expected %.3f", va, vb, cs, free, ttc, r, want), doc);
                            }
                    }
            }
    SE_Close();
}

// time to collision on a straight road in any compass direction
static void compass(const string& name, double hdg)
{
    static const Box BA = {5, 2, 1.4}, BB = {8, 2.5, 3};
    string           doc = scn::xosc(road_file(4000, hdg),
                           car("A", BA) + car("B", BB),
                           scn::init_private("A", {scn::teleport(scn::lane_pos(1, -1, 100)), scn::speed_action(0)}) + scn::init_private("B", {scn::teleport(scn::lane_pos(1, -1, 200)), scn::speed_action(0)}),
                           "",
                           "<StopTrigger/>");
    if (!scn::load(doc))
    {
        vf::violation(name + "@load", "valid scenario rejected", doc);
        return;
    }
    double c = cos(hdg), s = sin(hdg);
    for (int la : {-2, -1, 1, 2})
        for (int lb : {-2, -1, 1, 2})
            for (int fa : {1, -1})
                for (int fb : {1, -1})
                    for (double gap : {15.0, 60.0})
                        for (double va : {-5.0, 0.0, 5.0, 20.0})
                            for (double vb : {-5.0, 0.0, 5.0, 20.0})
                            {
                                auto   lane_t = [](int l) { return l > 0 ? 3.5 * l - 1.75 : 3.5 * l + 1.75; };
                                double sa = 1000, ta = lane_t(la) + 0.3, sb = 1000 + fa * gap, tb = lane_t(lb) - 0.2;
                                SE_ReportObjectPosXYH(0, sa * c - ta * s, sa * s + ta * c, hdg + (fa < 0 ? M_PI : 0));
                                SE_ReportObjectPosXYH(1, sb * c - tb * s, sb * s + tb * c, hdg + (fb < 0 ? M_PI : 0));
                                SE_ReportObjectVel(0, va * fa * c, va * fa * s, 0);
                                SE_ReportObjectVel(1, vb * fb * c, vb * fb * s, 0);
                                SE_ReportObjectSpeed(0, va);
                                SE_ReportObjectSpeed(1, vb);
                                SE_StepDT(0.001);
                                vf::step();
                                vf::eval();
                                SE_ScenarioObjectState s0, s1;
                                SE_GetObjectState(0, &s0);
                                SE_GetObjectState(1, &s1);
                                double closing = va - vb * fb * fa;
                                double ref     = fa * ((s1.x - s0.x) * c + (s1.y - s0.y) * s);
                                for (int free = 0; free < 2; free++)
                                    for (int cs : {1, 3})
                                    {
                                        // rear of B as seen from A: its rear (same direction) or front (oncoming); front of A
                                        double dist = ref;
                                        if (free)
                                            dist = ref - (BA.cx + BA.len / 2) - (fb == fa ? BB.len / 2 - BB.cx : BB.len / 2 + BB.cx);
                                        double ttc = -7;
                                        int    r   = SE_GetTimeToCollision(0, 1, cs, REL_DIST_LONGITUDINAL, free, &ttc);
                                        vf::cmp();
                                        double want = closing < 1e-6 ? -1 : dist / closing;
                                        if (r != 0 || fabs(ttc - want) > 0.01 * (1 + fabs(want)))
                                            vf::violation(fmt("%s@%d,%d,%d,%d/ttc%d%d", name.c_str(), la, lb, fa, fb, cs, free),
                                                          name + fmt(": A lane %d, B lane %d, directions %d %d, %.0f m apart, speeds %.0f and %.0f: time to collision (system %d, free space %d) %.3f, returned %d, expected %.3f", la, lb, fa, fb, gap, va, vb, cs, free, ttc, r, want),
                                                          doc);
                                    }
                                vf::state(fmt("%.2f %d %d %d %d %.0f %.0f %.0f", hdg, la, lb, fa, fb, gap, va, vb));
                            }
    SE_Close();
}

int main(int argc, char** argv)
{
    vf::init(argc, argv, "d_dist");
    vector<vf::Case> cases;
    bool             th = vf::C().thorough();
    struct Set
    {
        string      n;
        vector<int> ops;
        int         depth;
    };
    for (auto& s : vector<Set>{{"samples", {0, 1, 2, 4, 6, 8, 9, 10}, th ? 5 : 4}, {"kept", {1, 2, 5, 6, 7, 9, 10}, th ? 6 : 5}, {"gone", {1, 2, 6, 11, 12}, th ? 7 : 5}, {"types", {0, 1, 2, 3, 4, 5, 6}, th ? 6 : 4}})
        for (int f : s.ops)
            cases.push_back({s.n + " " + SOP[f], [s, f]() { simple({s.n + " " + SOP[f], s.ops, s.depth, f}); }});
    for (int f = 0; f < 18; f++)
        cases.push_back({fmt("collision %d", f), [f, th]() { coll({fmt("collision %d", f), f, th ? 3 : 2}); }});
    for (int l : {-2, -1, 1, 2})
        for (double h : {0.0, 0.4, 2.9, M_PI, 5.8})
        {
            string n = fmt("grid lane %d heading %.1f", l, h);
            cases.push_back({n, [n, l, h, th]() { grid(n, l, h, th); }});
        }
    for (double h : {M_PI_2, -M_PI_2, M_PI, 1.0, 3.9})
    {
        string n = fmt("compass %.2f", h);
        cases.push_back({n, [n, h]() { compass(n, h); }});
    }
    vf::run(cases, 600);
    return vf::finish(fmt("histories of repeated distance queries (5 kinds, both directions, kept samples, entities that leave and return) to depth %s; collisions: 18 operations (two objects put at 8 poses each, add, delete) to depth %d; "
                          "distances and time to collision: 20 poses x 4 lanes x 7 headings x 11 stations x %d speed pairs, reference points and free space; time to collision on straight roads in 5 further compass directions",
                          th ? "5-7" : "4-5",
                          th ? 4 : 3,
                          th ? 25 : 16),
                      {"time to collision only along a straight road with aligned headings"});
}
