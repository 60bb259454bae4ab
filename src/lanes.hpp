// C09: lanes
static int type_bit(const string& t)
{
    static const std::map<string, int> m = {{"none", 0}, {"driving", 1}, {"stop", 2}, {"shoulder", 3}, {"biking", 4}, {"sidewalk", 5}, {"border", 6}, {"restricted", 7},
                                            {"parking", 8}, {"bidirectional", 9}, {"median", 10}, {"entry", 17}, {"exit", 18}, {"offRamp", 19}, {"onRamp", 20}};
    return 1 << m.at(t);
}
static std::set<string> types_of(int mask)
{
    std::set<string> r;
    for (auto& t : {"none", "driving", "stop", "shoulder", "biking", "sidewalk", "border", "restricted", "parking", "bidirectional", "median", "entry", "exit", "offRamp", "onRamp"})
        if (mask & type_bit(t))
            r.insert(t);
    return r;
}
static const int ANY_DRIVING = 6160898;

struct LNet
{
    string         name;
    Road           r;
    vector<double> ss;
};
static double ref_speed_limit(const Road& r, double s)
{
    double v = 0;
    for (size_t i = 0; i < r.types.size(); i++)
        if (i == 0 || s >= r.types[i].s)
            v = r.types[i].speed * (r.types[i].unit == "km/h" ? 1 / 3.6 : r.types[i].unit == "mph" ? 0.44704 : 1);
    return v;
}

static void c09(const LNet& n)
{
    Net net;
    net.name  = n.name;
    net.roads = {n.r};
    if (!opened(net))
        return;
    const Road& r  = n.r;
    id_t        id = static_cast<id_t>(r.id);
    std::set<string> bad;
    auto             fail = [&](const string& kind, const string& what)
    {
        if (bad.insert(kind).second)
            vf::violation(n.name + "@" + kind, n.name + ": " + what, net.xml());
    };
    vector<int> masks = {2, 8, 2 | 8, 4 | 32, ANY_DRIVING, 64 | 256, -1, 512 | 1024, 16};
    int         H     = RM_CreatePosition();
    for (double s : n.ss)
    {
        const Section& c = r.sec(s);
        vector<int>    ids;
        for (auto& l : c.lanes)
            ids.push_back(l.id);
        ids.push_back(0);
        std::sort(ids.rbegin(), ids.rend());
        // ---- queries without a position
        for (int m : masks)
        {
            vector<int> sel;
            for (int i : ids)
                if ((i ? type_bit(c.lane(i)->type) : 1) & m)
                    sel.push_back(i);
            int k = RM_GetRoadNumberOfLanes(id, s, m);
            vf::cmp();
            if (k != static_cast<int>(sel.size()))
                fail("count", fmt("s=%g mask %d: %d lanes instead of %zu", s, m, k, sel.size()));
            for (int i = 0; i <= static_cast<int>(sel.size()); i++)
            {
                int lid = -99, rc = RM_GetLaneIdByIndex(id, i, s, m, &lid);
                bool ok = i < static_cast<int>(sel.size());
                vf::cmp();
                if ((rc == 0) != ok || (ok && lid != sel[static_cast<size_t>(i)]))
                    fail("index", fmt("s=%g mask %d index %d: rc %d lane %d", s, m, i, rc, lid));
            }
        }
        for (int i = -6; i <= 6; i++)
        {
            double w = -1;
            bool   ex = i == 0 || c.lane(i);
            int    rc = RM_GetLaneWidthByRoadId(id, i, s, &w);
            vf::cmp();
            if (rc == 0 && fabs(w - r.width(s, i)) > 1e-9)
                fail("width", fmt("s=%g lane %d: width %.9f instead of %.9f", s, i, w, r.width(s, i)));
            if (ex && i)
            {
                int t = RM_GetLaneTypeByRoadId(id, i, s);
                if (t != type_bit(c.lane(i)->type))
                    fail("type", fmt("s=%g lane %d: type %d instead of %s", s, i, t, c.lane(i)->type.c_str()));
            }
        }
        vf::eval();
        // ---- road position to lane, for every snapping mask
        double lo = poly_at(r.loff, s), left = 0, right = 0;
        for (auto& l : c.lanes)
            (l.id > 0 ? left : right) += r.width(s, l.id);
        for (int m : {2, 8, 2 | 8, ANY_DRIVING, -1, 4 | 32, 256 | 64})
        {
            int p = RM_CreatePosition();
            RM_SetSnapLaneTypes(p, m);
            for (double t = lo - right - 1.5; t < lo + left + 1.6; t += 0.31)
            {
                vf::step();
                if (RM_SetRoadPosition(p, id, s, t, true) < 0)
                {
                    fail("setroad", fmt("s=%g t=%g rejected", s, t));
                    continue;
                }
                RM_PositionData d;
                RM_GetPositionData(p, &d);
                std::set<int> ok = lanes_at(r, s, t, types_of(m));
                // the reference lane is a lane too when the mask asks for its type
                if (m & 1)
                {
                    double dn = fabs(t - lo), best = 1e9;
                    for (int k : ok)
                        if (k)
                            best = std::min(best, fabs(t - r.lane_t(s, k)));
                    bool inside = false;
                    for (int k : ok)
                        if (k && fabs(t - r.lane_t(s, k)) < r.width(s, k) / 2 - 1e-3)
                            inside = true;
                    if (!inside && dn < best + 2e-3)
                        ok.insert(0);
                }
                vf::cmp();
                if (!ok.count(d.laneId))
                    fail("snap", fmt("s=%g t=%g mask %d: lane %d instead of %d", s, t, m, d.laneId, *ok.begin()));
                else if (fabs(r.lane_t(s, d.laneId, d.laneOffset) - t) > 1e-6)
                    fail("offset", fmt("s=%g t=%g: lane %d offset %.6f", s, t, d.laneId, d.laneOffset));
                // lane actually under the position, whatever the snapping
                int           in  = RM_GetInLaneType(p);
                std::set<int> typ;
                if (t < lo - right - 1e-3 || t > lo + left + 1e-3)
                    typ = {1};
                else
                {
                    for (auto& l : c.lanes)
                        if (r.width(s, l.id) > 1e-9 && fabs(t - r.lane_t(s, l.id)) < r.width(s, l.id) / 2 + 1e-3)
                            typ.insert(type_bit(l.type));
                    if (fabs(t - lo) < 1e-3 || fabs(t - lo - left) < 2e-3 || fabs(t - lo + right) < 2e-3)
                        typ.insert(1);
                }
                vf::cmp();
                if (!typ.empty() && !typ.count(in))
                    fail("inlane", fmt("s=%g t=%g: on lane type %d instead of %d", s, t, in, *typ.begin()));
                vf::state(fmt("%s %g %d %d", n.name.c_str(), s, m, d.laneId));
            }
            vf::eval();
            RM_DeletePosition(p);
        }
    }
    // ---- lane placements: every ordered pair on one handle, then the lane info
    struct LP
    {
        double s;
        int    lane;
        double off;
    };
    vector<LP> ps;
    for (double s : n.ss)
        for (auto& l : r.sec(s).lanes)
            if ((type_bit(l.type) & ANY_DRIVING) && r.width(s, l.id) > 0.01)
                for (double off : {0.0, -0.4})
                    ps.push_back({s, l.id, off});
    auto place = [&](const LP& a) { vf::step(); return RM_SetLanePosition(H, id, a.lane, a.off, a.s, true); };
    for (auto& a : ps)
        for (auto& b : ps)
        {
            place(a);
            int             rc = place(b);
            RM_PositionData d;
            RM_GetPositionData(H, &d);
            vf::cmp();
            vf::eval();
            Pose w = r.at(b.s, r.lane_t(b.s, b.lane, b.off));
            if (rc < 0 || d.laneId != b.lane || fabs(d.laneOffset - b.off) > 1e-9 || fabs(d.s - b.s) > 1e-9 || hypot(d.x - w.x, d.y - w.y) > 1e-4)
            {
                fail("setlane", fmt("after lane %d s=%g, lane %d s=%g offset %g gives rc %d lane %d s %g offset %g at (%.4f,%.4f)", a.lane, a.s, b.lane, b.s, b.off, rc, d.laneId, d.s, d.laneOffset, d.x, d.y));
                continue;
            }
            RM_RoadLaneInfo i;
            memset(&i, 0, sizeof(i));
            if (RM_GetLaneInfo(H, 0, &i, 2, false) < 0)
            {
                fail("info", "no lane info");
                continue;
            }
            double t = r.lane_t(b.s, b.lane, b.off), k = r.curvature(b.s), kt = fabs(k) < 1e-9 ? k : k / (1 - k * t);
            if (fabs(i.width - r.width(b.s, b.lane)) > 1e-9 || i.laneId != b.lane || fabs(i.t - t) > 1e-6 || fabs(i.s - b.s) > 1e-9 || fabs(i.curvature - kt) > 1e-6 ||
                fabs(i.speed_limit - ref_speed_limit(r, b.s)) > 1e-6 || i.lane_type != type_bit(r.sec(b.s).lane(b.lane)->type) || fabs(i.laneOffset - b.off) > 1e-9)
                fail("info", fmt("lane info at lane %d s=%g off=%g: width %.6f (%.6f) lane %d t %.6f (%.6f) s %g curvature %.8f (%.8f) speed %.4f (%.4f) type %d", b.lane, b.s, b.off, i.width,
                                 r.width(b.s, b.lane), i.laneId, i.t, t, i.s, i.curvature, kt, i.speed_limit, ref_speed_limit(r, b.s), i.lane_type));
            double w2 = -1;
            if (RM_GetLaneWidth(H, b.lane, &w2) != 0 || fabs(w2 - r.width(b.s, b.lane)) > 1e-9 || RM_GetLaneType(H, b.lane) != type_bit(r.sec(b.s).lane(b.lane)->type))
                fail("poswidth", fmt("lane %d s=%g: width %g type %d", b.lane, b.s, w2, RM_GetLaneType(H, b.lane)));
            double sl = RM_GetSpeedLimit(H), rs = ref_speed_limit(r, b.s);
            if (rs > 0 && fabs(sl - rs) > 1e-6)
                fail("speedlimit", fmt("s=%g: %.4f instead of %.4f", b.s, sl, rs));
        }
    // ---- road placements: every ordered pair on one handle
    vector<std::pair<double, double>> rp;
    for (double s : n.ss)
        for (double t : {-6.3, -2.2, 0.9, 4.4})
            rp.push_back({s, t});
    for (auto& a : rp)
        for (auto& b : rp)
        {
            RM_SetRoadPosition(H, id, a.first, a.second, true);
            int             rc = RM_SetRoadPosition(H, id, b.first, b.second, true);
            RM_PositionData d;
            RM_GetPositionData(H, &d);
            vf::step(2);
            vf::cmp();
            vf::eval();
            if (rc < 0 || !lanes_at(r, b.first, b.second, DRIV).count(d.laneId) || fabs(r.lane_t(b.first, d.laneId, d.laneOffset) - b.second) > 1e-6)
                fail("setroad2", fmt("after s=%g t=%g, s=%g t=%g gives rc %d lane %d offset %.6f instead of lane %d", a.first, a.second, b.first, b.second, rc, d.laneId, d.laneOffset, *lanes_at(r, b.first, b.second, DRIV).begin()));
        }
    vf::sample(n.name + fmt(": %zu lane placements, %zu s values", ps.size(), n.ss.size()));
    vf::outcome(n.name + fmt("%zu", bad.size()));
}

static std::vector<vf::Case> cases09()
{
    std::vector<vf::Case> cs;
    auto                  lane = [](int id, const string& type, vector<Poly> w, int pred = 0, int succ = 0)
    {
        Lane l;
        l.id    = id;
        l.type  = type;
        l.width = w;
        l.pred  = pred;
        l.succ  = succ;
        return l;
    };
    vector<string> outer = {"shoulder", "driving", "border", "parking", "exit", "sidewalk", "bidirectional", "stop"};
    for (int g = 0; g < 3; g++)
        for (int lo = 0; lo < 3; lo++)
            for (size_t o = 0; o < outer.size(); o++)
                for (int lht = 0; lht < 2; lht++)
                {
                    if (lht && o > 1)
                        continue;
                    LNet n;
                    n.name = fmt("geom%d-off%d-%s%s", g, lo, outer[o].c_str(), lht ? "-lht" : "");
                    n.r    = mk(g == 0 ? vector<Geom>{line(100)} : g == 1 ? vector<Geom>{arc(100, 0.01)} : vector<Geom>{line(30), spiral(30, 0, -0.015), arc(40, -0.015)}, 3, 5, 5, 0.4);
                    n.r.lht = lht;
                    n.r.ascending = (o + static_cast<size_t>(g)) % 2;  // lanes listed from right to left within each side
                    if (lo == 1)
                        n.r.loff = {{0, 1.2, 0, 0, 0}};
                    if (lo == 2)
                        n.r.loff = {{0, 0, 0.02, 0, 0}, {33, 0.66, 0, 0, 0}, {61, 0.66, -0.01, -0.0002, 0}};
                    Section a, b, c;
                    a.s     = 0;
                    a.lanes = {lane(2, outer[o], {{0, 2.5}}, 0, 3), lane(1, "driving", {{0, 3.5}}, 0, 2), lane(-1, "driving", {{0, 3.2}}, 0, -2), lane(-2, outer[o], {{0, 2, 0.01}}, 0, -3)};
                    b.s     = 37.5;
                    b.lanes = {lane(3, outer[o], {{0, 2.5, 0, -0.001}}, 2, 2), lane(2, "driving", {{0, 3.5}, {11, 3.5, -0.05, 0, 0}}, 1, 1), lane(1, "driving", {{0, 0, 0, 0.0105, -0.00021}}, 0, 0),
                               lane(-1, "driving", {{0, 0, 0.1}, {7.3, 0.73, 0.15, 0, 0}}, 0, -1), lane(-2, "driving", {{0, 3.2}, {9, 3.2, 0.03, -0.001, 0}}, -1, -2),
                               lane(-3, outer[o], {{0, 2.375, 0.01}}, -2, -3)};
                    c.s     = 68.25;
                    c.lanes = {lane(2, outer[o], {{0, 2, 0.02}}, 3, 0), lane(1, "driving", {{0, 3}, {5, 3, 0.02}, {10, 3.1, -0.02, 0.0005}, {20, 2.95}}, 2, 0), lane(-1, "driving", {{0, 3.6}}, -1, 0),
                               lane(-2, "driving", {{0, 3.1, -0.01}}, -2, 0), lane(-3, outer[o], {{0, 2}}, -3, 0)};
                    n.r.sections = {a, b, c};
                    n.r.types    = {{0, "motorway", 120, "km/h"}, {25, "rural", 50, "mph"}, {70, "town", 12.5, "m/s"}, {73.2, "town", 9, "m/s"}};
                    n.ss         = {0.0, 0.001, 12.2, 24.999, 25.0, 25.001, 37.49, 37.51, 44.7, 44.9, 48.4, 48.6, 60.9, 61.1, 68.24, 68.26, 70, 73.2, 73.3, 78.3, 88.2, 88.3, 95, 99.999};
                    cs.push_back({n.name, [n]() { c09(n); }});
                }
    return cs;
}
