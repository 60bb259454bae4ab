// C10: moving along the road network. Every start placement x every sequence of moves up to a depth, compared with a walk along the links of the road description.
#include "net.hpp"
#include "esminiRMLib.hpp"
using namespace ref;

static bool opened(const Network& n)
{
    RM_SetOptionPersistent("disable_stdout");
    RM_SetOptionPersistent("disable_log");
    if (RM_InitWithString(n.xml().c_str()) != 0)
    {
        vf::violation(n.name + "@load", "valid road network rejected", n.xml());
        return false;
    }
    return true;
}

struct Ctx
{
    const Network&   n;
    std::set<string> bad;
    vector<double>   moves;
    vector<double>   sels;
    int              H = 0;
    void             fail(const string& kind, const string& what)
    {
        if (bad.insert(kind).second)
            vf::violation(n.name + "@" + kind, n.name + ": " + what, n.xml());
    }
    static string str(const WPos& p)
    {
        return fmt("road %d lane %d s %.3f off %.3f h %.3f", p.road, p.lane, p.s, p.off, remainder(p.h, 2 * M_PI));
    }
    static string str(const RM_PositionData& d)
    {
        return fmt("road %d (junction %d) lane %d s %.3f off %.3f h %.3f", static_cast<int>(d.roadId), static_cast<int>(d.junctionId), d.laneId, static_cast<double>(d.s), static_cast<double>(d.laneOffset),
                   remainder(static_cast<double>(d.hRelative), 2 * M_PI));
    }
    bool same(const WPos& p, const RM_PositionData& d)
    {
        double ts = 2e-3 + p.slack;
        if (static_cast<int>(d.roadId) != p.road || d.laneId != p.lane || fabs(static_cast<double>(d.s) - p.s) > ts)
            return false;
        if (!p.off_open && fabs(static_cast<double>(d.laneOffset) - p.off) > 2e-3)
            return false;
        int j = n.road(p.road).junction;
        if (d.junctionId != static_cast<id_t>(j))
            return false;
        return fabs(angdiff(static_cast<double>(d.hRelative), p.h)) < 2e-3;
    }
    // world pose of the reported road position must be the reported world pose
    bool world(const RM_PositionData& d)
    {
        const Road& r = n.road(static_cast<int>(d.roadId));
        Pose        w = r.at(static_cast<double>(d.s), r.lane_t(std::min(std::max(static_cast<double>(d.s), 1e-6), r.length - 1e-6), d.laneId, static_cast<double>(d.laneOffset)));
        // the heading relative to the road leaves out the direction of a lane beside one of varying width
        double slope = atan(r.lane_slope(static_cast<double>(d.s), d.laneId));
        return hypot(w.x - static_cast<double>(d.x), w.y - static_cast<double>(d.y)) < 5e-3 && fabs(angdiff(static_cast<double>(d.h), w.h + static_cast<double>(d.hRelative) + slope)) < 2e-3;
    }
    WPos from(const RM_PositionData& d, const WPos& p)
    {
        WPos q     = p;
        q.s        = static_cast<double>(d.s);
        q.off      = static_cast<double>(d.laneOffset);
        q.off_open = false;
        q.code     = 0;
        q.slack    = 0;
        q.rc       = 0;
        return q;
    }
    // what looking ahead m sees: the place q, on the lane centre (mode 0), the reference line (1) or at the same lane offset (2)
    void probe(const string& what, const WPos& p, WPos q, double m, int mode, const RM_PositionData& b)
    {
        RM_RoadProbeInfo pi;
        int              rc = RM_GetProbeInfo(H, m, &pi, mode, false);
        RM_RoadLaneInfo& i  = pi.road_lane_info;
        string           k  = fmt("probe%d", mode);
        string           at = what + fmt(": looking ahead (mode %d) sees road %d lane %d s %.3f offset %.3f t %.3f rc %d", mode, static_cast<int>(i.roadId), i.laneId, i.s, i.laneOffset, i.t, rc);
        vf::step();
        vf::cmp();
        if (rc < 0 || static_cast<int>(i.roadId) != q.road || fabs(i.s - q.s) > 2e-3 + q.slack)
        {
            fail(k, at + ", expected " + str(q));
            return;
        }
        const Road& r  = n.road(q.road);
        double      sc = std::min(std::max(i.s, 1e-6), r.length - 1e-6);
        if (mode != 1 && (i.laneId != q.lane || fabs(i.laneOffset - (mode == 0 ? 0 : q.off)) > 2e-3))
            fail(k, at + ", expected " + str(q));
        else if (mode == 1 && fabs(i.t) > 2e-3)
            fail(k, at + ", expected the reference line");
        else if (fabs(i.t - r.lane_t(sc, i.laneId, i.laneOffset)) > 2e-3)
            fail(k + "t", at + ": t does not match lane and offset");
        Pose w = r.at(i.s, i.t);
        if (hypot(w.x - i.pos.x, w.y - i.pos.y) > 5e-3 || fabs(w.z - i.pos.z) > 5e-3 || fabs(angdiff(i.heading, w.h)) > 2e-3)
            fail(k + "w", at + fmt(": world position %.3f %.3f %.3f heading %.3f, expected %.3f %.3f %.3f %.3f", i.pos.x, i.pos.y, i.pos.z, i.heading, w.x, w.y, w.z, w.h));
        if (fabs(i.width - r.width(sc, i.laneId)) > 2e-3)
            fail(k + "width", at + fmt(": width %.3f, expected %.3f", i.width, r.width(sc, i.laneId)));
        if (i.junctionId != static_cast<id_t>(r.junction))
            fail(k + "junction", at + fmt(": junction %d, expected %d", static_cast<int>(i.junctionId), r.junction));
        double kc = r.curvature(sc), kw = kc / (1 - kc * i.t);
        if (q.slack == 0 && fabs(i.curvature - kw) > 1e-4 && fabs(i.s - sc) < 1e-5)
        {
            bool edge = false;
            for (double e : {-0.05, 0.05})
                edge = edge || fabs(r.curvature(std::min(std::max(i.s + e, 1e-6), r.length - 1e-6)) - kc) > 1e-9;
            if (!edge)
                fail(k + "curv", at + fmt(": curvature %.5f, expected %.5f", i.curvature, kw));
        }
        double dx = i.pos.x - b.x, dy = i.pos.y - b.y, rx = dx * cos(b.h) + dy * sin(b.h), ry = -dx * sin(b.h) + dy * cos(b.h);
        if (hypot(rx - pi.relative_pos.x, ry - pi.relative_pos.y) > 2e-3)
            fail(k + "rel", at + fmt(": relative position %.3f %.3f, expected %.3f %.3f", pi.relative_pos.x, pi.relative_pos.y, rx, ry));
        if (hypot(rx, ry) > 0.1 && fabs(angdiff(pi.relative_h, atan2(ry, rx))) > 1e-3)
            fail(k + "relh", at + fmt(": direction %.4f, expected %.4f", pi.relative_h, atan2(ry, rx)));
        (void)p;
    }
    void explore(const WPos& p, int depth, const string& hist)
    {
        if (depth == 0)
            return;
        for (double m : moves)
            for (double sel : sels)
            {
                vector<WPos> w;
                n.walk(p, m, sel, w);
                bool skip = false;
                for (auto& q : w)
                {
                    if (q.links >= 8 || q.undecided)
                        skip = true;
                    for (auto& c : n.road(q.road).sections)
                        if (q.rc == 0 && fabs(q.s - c.s) < 0.02 + q.slack)
                            skip = true;
                    if (q.rc == 0 && fabs(q.s - n.road(q.road).length) < 0.02 + q.slack)
                        skip = true;
                }
                if (skip)
                    continue;
                int h2 = RM_CopyPosition(H);
                std::swap(h2, H);
                string what = hist + fmt(" move(%g%s)", m, sels.size() > 1 ? fmt(",%g", sel).c_str() : "");
                // look ahead first: it must not disturb the position
                RM_RoadProbeInfo pi;
                if (m > 0 && sels.size() == 1 && n.road(p.road).curvature(p.s) == 0)
                {
                    RM_PositionData b0, b1;
                    RM_GetPositionData(H, &b0);
                    int rc = RM_GetProbeInfo(H, static_cast<float>(m), &pi, 2, false);
                    vf::step();
                    RM_GetPositionData(H, &b1);
                    if (str(b0) != str(b1) || b0.x != b1.x || b0.y != b1.y || b0.h != b1.h || b0.z != b1.z)
                        fail("probe-moves", what + ": looking ahead changed the position");
                    (void)rc;
                    if (w.size() == 1 && w[0].rc == 0 && !w[0].off_open)
                        for (int mode = 0; mode < 3; mode++)
                            probe(what, p, w[0], m, mode, b0);
                }
                int rc = RM_PositionMoveForward(H, static_cast<float>(m), static_cast<float>(sel));
                RM_PositionData d;
                RM_GetPositionData(H, &d);
                vf::step();
                vf::eval();
                vf::cmp();
                bool        ok = false;
                const WPos* hit = nullptr;
                for (auto& q : w)
                    if (same(q, d) && (q.rc < 0) == (rc < 0) && (rc < 0 || q.code < 0 || q.off_open || rc == q.code))
                    {
                        ok  = true;
                        hit = &q;
                    }
                if (!ok)
                    fail("move", "from " + what + fmt(" rc %d gives ", rc) + str(d) + ", expected " + str(w[0]) + (w[0].rc ? " at the end of the road" : fmt(" rc %d", w[0].code)) + (w.size() > 1 ? " or another connection" : ""));
                else
                {
                    vf::state(str(d));
                    vf::outcome(fmt("%d %d", rc, hit->links));
                    if (!world(d))
                        fail("world", what + ": world position does not match " + str(d));
                    if (depth > 1)
                        explore(from(d, *hit), depth - 1, what);
                }
                std::swap(h2, H);
                RM_DeletePosition(h2);
            }
    }
};

static void c10(const Network& n, const vector<double>& rel, const vector<double>& moves, const vector<double>& sels, int depth)
{
    if (!opened(n))
        return;
    Ctx c{n, {}, moves, sels};
    c.H = RM_CreatePosition();
    for (auto& r : n.roads)
        for (double q : rel)
        {
            double s = q * r.length;
            for (auto& l : r.sec(s).lanes)
                for (double off : {0.0, 0.6})
                    for (double h : {0.2, M_PI + 0.2})
                    {
                        if (l.type != "driving" || r.width(s, l.id) < 3)
                            continue;
                        WPos p;
                        p.road = r.id;
                        p.lane = l.id;
                        p.s    = s;
                        p.off  = off;
                        p.h    = h;
                        p.dir  = cos(h) > 0 ? 1 : -1;
                        if (RM_SetLanePosition(c.H, static_cast<id_t>(r.id), l.id, static_cast<float>(off), static_cast<float>(s), false) < 0 || RM_SetHMode(c.H, h, RM_H_REL) < 0)
                        {
                            c.fail("place", "cannot place at " + Ctx::str(p));
                            continue;
                        }
                        c.explore(p, depth, Ctx::str(p));
                    }
        }
    RM_Close();
}

// C11: distance between two positions along the road network
static void c11(const Network& n, const vector<double>& rel, int what)
{
    if (!opened(n))
        return;
    Ctx c{n, {}, {}, {}};
    struct P
    {
        WPos p;
        int  h;
    };
    vector<P> ps;
    for (auto& r : n.roads)
        for (double q : rel)
        {
            double s = q * r.length;
            for (auto& l : r.sec(s).lanes)
                for (double h : {0.0, M_PI, -0.35, 2.6})
                {
                    if (l.type != "driving")
                        continue;
                    P p;
                    p.p.road = r.id;
                    p.p.lane = l.id;
                    p.p.s    = s;
                    p.p.off  = 0.3;
                    p.p.h    = h;
                    p.h      = RM_CreatePosition();
                    if (RM_SetLanePosition(p.h, static_cast<id_t>(r.id), l.id, 0.3, s, false) < 0 || RM_SetHMode(p.h, h, RM_H_REL) < 0)
                        c.fail("place", "cannot place at " + Ctx::str(p.p));
                    ps.push_back(p);
                }
        }
    for (auto& a : ps)
        for (auto& b : ps)
        {
            RM_PositionDiff d;
            int             rc = RM_SubtractAFromB(a.h, b.h, &d);
            vf::step();
            vf::eval();
            vf::cmp();
            string w = "from " + Ctx::str(a.p) + " to " + Ctx::str(b.p);
            bool   hf = cos(a.p.h) > 0;
            auto   check = [&](double ds, int lane, bool rev) -> string
            {
                string e;
                if (fabs(d.ds - ds) > 2e-3)
                    e += fmt(" ds %.3f expected %.3f", d.ds, ds);
                double ta = n.tof(a.p), tb = n.tof(b.p);
                if (what >= 1 && lane)
                {
                    double dt = tb - (rev ? -ta : ta);
                    if (fabs(d.dt - dt) > 2e-3)
                        e += fmt(" dt %.3f expected %.3f", d.dt, dt);
                    int dl = b.p.lane - lane;
                    if ((b.p.lane < 0) != (lane < 0))
                        dl += dl > 0 ? -1 : 1;
                    if (lane && d.dLaneId != dl)
                        e += fmt(" dLaneId %d expected %d", d.dLaneId, dl);
                }
                return e;
            };
            if (a.p.road == b.p.road)
            {
                double ds = (b.p.s - a.p.s) * (hf ? 1 : -1);
                int    lane = n.road(a.p.road).sec_idx(a.p.s) == n.road(a.p.road).sec_idx(b.p.s) ? a.p.lane : 99;
                if (rc != 0)
                    c.fail("same-road", w + fmt(": rc %d", rc));
                else if (lane != 99)
                {
                    string e = check(ds, lane, false);
                    if (!e.empty())
                        c.fail("same-road", w + ":" + e);
                }
                continue;
            }
            vector<Way> ws;
            ways(n, a.p, b.p, ws);
            if (ws.empty())
            {
                if (rc == 0)
                    c.fail("not-connected", w + fmt(": ds %.3f although not connected", d.ds));
                continue;
            }
            double best = 1e9;
            for (auto& x : ws)
                best = std::min(best, x.len);
            bool back = false;
            for (auto& x : ws)
                back = back || (x.back && x.len < best + 1e-3);
            if (back && what == 2)
                continue;  // whether a junction is travelled backwards is left open where a connecting road serves both directions
            if (rc != 0)
            {
                c.fail("not-found", w + fmt(": rc %d, expected ds %.3f", rc, best));
                continue;
            }
            string first;
            bool   ok = false;
            for (auto& x : ws)
                if (x.len < best + 1e-3)
                {
                    string e = check((x.fwd == hf ? 1 : -1) * x.len, x.lane, x.rev);
                    ok       = ok || e.empty();
                    if (first.empty())
                        first = e;
                }
            if (!ok)
                c.fail(first.find("ds") == 1 ? "ds" : "lat", w + ":" + first);
            vf::state(w);
            vf::outcome(fmt("%.3f %.3f", d.ds, d.dt));
        }
    RM_Close();
}

static vector<vf::Case> cases11()
{
    vector<vf::Case> cs;
    auto             A = same(2, 2), B = same(1, 1);
    std::map<int, int> addin = {{-1, -2}, {-2, -3}, {1, 1}, {2, 2}};
    struct Lay
    {
        string              n;
        vector<vector<Seg>> rs;
    };
    vector<Lay> lays = {{"plain", {{{40, 2, 2, A}}, {{31, 2, 2, A}}, {{50, 2, 2, A}}}},
                        {"sections", {{{22, 2, 2, A}, {18, 2, 2, A}}, {{11, 2, 2, A}, {13, 2, 2, A}, {7, 2, 2, A}}, {{50, 2, 2, A}}, {{15, 2, 2, A}, {15, 2, 2, A}}}},
                        {"shift", {{{22, 2, 2, addin}, {18, 2, 3, same(2, 3)}}, {{31, 2, 3, same(2, 3)}}, {{20, 2, 3, same(2, 3)}, {20, 2, 3, same(2, 3)}}}}};
    for (auto& l : lays)
        for (int rev = 0; rev < (1 << l.rs.size()); rev++)
        {
            Network n = chain(fmt("chain-%s-r%d", l.n.c_str(), rev), l.rs, rev, 0, false);
            cs.push_back({n.name, [n]() { c11(n, {0.07, 0.46, 0.91}, 1); }});
        }
    for (int nr = 2; nr <= 4; nr++)
        for (int rev = 0; rev < (1 << nr); rev++)
        {
            vector<vector<Seg>> rs;
            double              tot = 0;
            for (int i = 0; i < nr; i++)
            {
                rs.push_back({{60.0 + 11 * i, 2, 2, A}, {45, 2, 2, A}});
                tot += 105 + 11 * i;
            }
            Network n = chain(fmt("ring%d-r%d", nr, rev), rs, rev, 2 * M_PI / tot, true);
            cs.push_back({n.name, [n]() { c11(n, {0.07, 0.46, 0.91}, 1); }});
        }
    for (int arms = 2; arms <= 4; arms++)
        for (int mode = 0; mode < 3; mode++)
            for (int in = 0; in < (1 << arms); in++)
            {
                Network n = star(fmt("star%d-m%d-in%d", arms, mode, in), arms, in, mode);
                cs.push_back({n.name, [n, mode]() { c11(n, {0.12, 0.57, 0.93}, mode == 2 ? 2 : 1); }});
            }
    return cs;
}

static vector<vf::Case> cases()
{
    vector<vf::Case> cs;
    bool             th = vf::C().thorough();
    // chains in the direction of travel
    struct Lay
    {
        string              n;
        vector<vector<Seg>> rs;
    };
    auto A = same(2, 2);
    std::map<int, int> addin = {{-1, -2}, {-2, -3}, {1, 1}, {2, 2}};      // a lane is added inside on the right
    std::map<int, int> rmin  = {{-2, -1}, {-3, -2}, {1, 1}, {2, 2}};      // the inner lane ends
    std::map<int, int> addl  = {{-1, -1}, {-2, -2}, {1, 2}, {2, 3}};      // a lane is added inside on the left
    std::map<int, int> rml   = {{-1, -1}, {-2, -2}, {2, 1}, {3, 2}};
    std::map<int, int> out   = {{-1, -1}, {1, 1}, {2, 2}};                // the outer lane ends
    vector<Lay>        lays  = {
        {"plain", {{{40, 2, 2, A}}, {{31, 2, 2, A}}, {{50, 2, 2, A}}}},
        {"sections", {{{22, 2, 2, A}, {18, 2, 2, A}}, {{11, 2, 2, A}, {13, 2, 2, A}, {7, 2, 2, A}}, {{50, 2, 2, A}}}},
        {"shift-in", {{{22, 2, 2, addin}, {18, 2, 3, same(2, 3)}}, {{15, 2, 3, same(2, 3)}, {16, 2, 3, rmin}}, {{20, 2, 2, A}, {23, 2, 2, A}}}},
        {"shift-at-road", {{{22, 2, 2, A}, {18, 2, 2, addin}}, {{15, 2, 3, rmin}, {16, 2, 2, addl}}, {{20, 3, 2, rml}, {23, 2, 2, A}}}},
        {"shift-left", {{{22, 2, 2, addl}, {18, 3, 2, same(3, 2)}}, {{15, 3, 2, rml}, {16, 2, 2, A}}, {{43, 2, 2, A}}}},
        {"drop-section", {{{22, 2, 2, out}, {18, 2, 1, same(2, 1)}}, {{31, 2, 1, same(2, 1)}}, {{43, 2, 1, same(2, 1)}}}},
        {"drop-road", {{{22, 2, 2, A}, {18, 2, 2, out}}, {{31, 2, 1, same(2, 1)}}, {{43, 2, 1, same(2, 1)}}}},
    };
    vector<double> moves = {3.1, 17.3, 29.7, 46.9, 83.3, 150.1, -9.7, -61.3};
    for (auto& l : lays)
        for (int rev = 0; rev < 8; rev++)
            for (double k : {0.0, 0.008, -0.008})
            {
                // with curvature the distance is scaled at the start of a move: only where the lateral position does not change
                if (k != 0 && l.n != "plain" && l.n != "sections")
                    continue;
                Network n = chain(fmt("chain-%s-r%d-k%g", l.n.c_str(), rev, k), l.rs, rev, k, false);
                cs.push_back({n.name, [n, moves, th]() { c10(n, {0.07, 0.46, 0.63, 0.91}, moves, {-1}, th ? 3 : 2); }});
            }
    // the outer or the inner lane narrows down to nothing
    for (int rev = 0; rev < 8; rev++)
        for (int lane : {-2, 2, -1, 1})
        {
            Network n = chain(fmt("taper%d-r%d", lane, rev), {{{60.37, 2, 2, A}}, {{71.19, 2, 2, A}}, {{50, 2, 2, A}}}, rev, 0, false);
            for (auto& r : n.roads)
                for (auto& l : r.sections[0].lanes)
                    if (l.id == lane && r.id != 3)
                        l.width = {{0, 3.5, 0, 0, 0}, {15, 3.5, -0.35, 0, 0}, {25, 0, 0, 0, 0}, {45, 0, 0.35, 0, 0}, {55, 3.5, 0, 0, 0}};
            cs.push_back({n.name, [n, moves, th]() { c10(n, {0.03, 0.13, 0.19, 0.46, 0.55, 0.93, 0.99}, moves, {-1}, th ? 3 : 2); }});
        }
    // many short roads in one move
    for (int rev : {0, 63, 21, 42, 6, 56})
    {
        Network n = chain(fmt("many-r%d", rev), {{{9.1, 2, 2, A}}, {{8.3, 2, 2, A}}, {{9.7, 2, 2, A}}, {{7.9, 2, 2, A}}, {{9.3, 2, 2, A}}, {{30, 2, 2, A}}}, rev, 0, false);
        cs.push_back({n.name, [n, moves, th]() { c10(n, {0.07, 0.46, 0.91}, {3.1, 17.3, 29.7, 45.1, 50.9, -9.7, -61.3}, {-1}, th ? 3 : 2); }});
    }
    // rings: 1, 2, 3 roads
    for (int nr = 1; nr <= 3; nr++)
        for (int rev = 0; rev < (1 << nr); rev++)
        {
            vector<vector<Seg>> rs;
            double              tot = 0;
            for (int i = 0; i < nr; i++)
            {
                rs.push_back({{60.0 + 11 * i, 2, 2, A}, {45, 2, 2, A}});
                tot += 105 + 11 * i;
            }
            Network n = chain(fmt("ring%d-r%d", nr, rev), rs, rev, 2 * M_PI / tot, true);
            cs.push_back({n.name, [n, moves, th]() { c10(n, {0.07, 0.46, 0.91}, moves, {-1}, th ? 3 : 2); }});
        }
    for (int arms = 2; arms <= 4; arms++)
        for (int mode = 0; mode < 3; mode++)
            for (int in = 0; in < (1 << arms); in++)
            {
                Network n = star(fmt("star%d-m%d-in%d", arms, mode, in), arms, in, mode);
                cs.push_back({n.name, [n, th]() { c10(n, {0.12, 0.57, 0.93}, {11.3, 41.7, 97.9, -23.9}, {-1, 0, M_PI / 2, 3 * M_PI / 2, 0.6, 5.6, 3.1}, th ? 2 : 1); }});
            }
    return cs;
}

int main(int argc, char** argv)
{
    vf::init(argc, argv, "C10", {});
    if (vf::C().prop == "C11")
    {
        vf::run(cases11(), 300);
        return vf::finish("chains of 3-4 roads in all drawing directions (3 lane layouts), rings of 2-4 roads in all drawing directions, 2-4 arm junctions with all arm directions and 3 kinds of connecting roads; all ordered pairs of "
                          "positions out of all driving lanes x 3 s x 4 headings",
                          {"on one road the distance is the difference in s", "where a connecting road serves both directions, travelling it backwards is left open"});
    }
    vf::run(cases(), 300);
    return vf::finish("7 lane layouts x 8 drawing directions x up to 3 curvatures of chains of 3 roads (1-3 lane sections each), chains of 6 short roads, rings of 1-3 roads, 2-4 arm junctions with all arm directions and 3 kinds of "
                      "connecting roads; all lanes, 3-4 s, 2 offsets, 2 headings; all sequences of 2 moves (thorough 3) out of 8 distances on chains and rings, 1 move (thorough 2) x 7 selector angles in junctions",
                      {"positions closer than 2 cm to a section or road boundary are left open", "distance along a curve is scaled at the start of a move, so its remainder after a change of curvature is open by that factor"});
}
