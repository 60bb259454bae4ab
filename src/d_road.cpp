// C08 road/world coordinate conversion, C09 lanes. Every ordered pair (thorough: triple) of placements on one position handle.
#include "road.hpp"
#include "esminiRMLib.hpp"
using namespace ref;

struct Mat
{
    double m[3][3];
};
static Mat rot(double h, double p, double r)
{
    double ch = cos(h), sh = sin(h), cp = cos(p), sp = sin(p), cr = cos(r), sr = sin(r);
    return {{{ch * cp, ch * sp * sr - sh * cr, ch * sp * cr + sh * sr}, {sh * cp, sh * sp * sr + ch * cr, sh * sp * cr - ch * sr}, {-sp, cp * sr, cp * cr}}};
}
static Mat mul(const Mat& a, const Mat& b)
{
    Mat o;
    for (int i = 0; i < 3; i++)
        for (int j = 0; j < 3; j++)
            o.m[i][j] = a.m[i][0] * b.m[0][j] + a.m[i][1] * b.m[1][j] + a.m[i][2] * b.m[2][j];
    return o;
}
static double matdiff(const Mat& a, const Mat& b)
{
    double d = 0;
    for (int i = 0; i < 3; i++)
        for (int j = 0; j < 3; j++)
            d = std::max(d, fabs(a.m[i][j] - b.m[i][j]));
    return d;
}

static bool has(const Road& r, Geom::Type a, Geom::Type b = Geom::LINE)
{
    for (auto& g : r.geoms)
        if (g.type == a || (b != Geom::LINE && g.type == b))
            return true;
    return false;
}

struct Op
{
    int    kind;  // 0 road position, 1 lane position, 2 world position, 3 world position with height and orientation
    size_t road;
    double s, t;
    int    lane;
    double off;
    double hrel = 0;   // 2: heading relative to the road
    bool   align = true;
    // expectation
    Pose        want;
    Mat         R;
    double      want_t;
    std::set<int> lanes;  // acceptable lane ids
    string      str() const
    {
        return kind == 0 ? fmt("road(%zu,s=%g,t=%g)", road, s, t) : kind == 1 ? fmt("lane(%zu,%d,off=%g,s=%g)", road, lane, off, s) : fmt("world%s(%zu: s=%g,t=%g)", kind == 3 ? "3" : "", road, s, t);
    }
};

// id of the lane a lateral position belongs to: inside a lane of an allowed type, or the nearest such lane
static std::set<int> lanes_at(const Road& r, double s, double t, const std::set<string>& types)
{
    const Section&   c = r.sec(s);
    double           best = 1e9;
    std::set<int>    in, near;
    vector<std::pair<double, int>> cand;
    for (auto& l : c.lanes)
    {
        if (!types.count(l.type))
            continue;
        double w = r.width(s, l.id);
        if (w < 1e-9)
            continue;
        double d = fabs(t - r.lane_t(s, l.id));
        if (d < w / 2 + 1e-3)
            in.insert(l.id);
        cand.push_back({d, l.id});
        best = std::min(best, d);
    }
    for (auto& k : cand)
        if (k.first < best + 2e-3)
            near.insert(k.second);
    if (!in.empty())
        return in;
    if (near.empty())
        near.insert(0);
    return near;
}

static const std::set<string> DRIV = {"driving", "entry", "exit", "offRamp", "onRamp", "bidirectional"};

struct Net
{
    string       name;
    vector<Road> roads;
    vector<double> ss;          // relative s in 0..1 (empty: default)
    vector<double> ts = {-5.0, -1.9, 0.3, 2.2, 6.0};
    bool         levels = false;  // roads above each other: only positions with a height
    double       tol_s = 0.02, tol_t = 0.02, tol_g = 1e-6;
    string       xml() const
    {
        string b;
        for (auto& r : roads)
            b += r.xml();
        return "<?xml version=\"1.0\"?><OpenDRIVE><header revMajor=\"1\" revMinor=\"5\" name=\"\" version=\"1\" north=\"0\" south=\"0\" east=\"0\" west=\"0\"/>" + b + "</OpenDRIVE>";
    }
};

static double worst[4];

static void expect(const Net& n, Op& o)
{
    const Road& r = n.roads[o.road];
    double      t = o.kind == 1 ? r.lane_t(o.s, o.lane, o.off) : o.t;
    o.want_t      = t;
    o.want        = r.at(o.s, t);
    if (o.kind == 1)
        o.lanes = {o.lane};
    else
        o.lanes = lanes_at(r, o.s, t, DRIV);
    if (o.lanes.size() == 1 && o.kind < 2)
        if (const Lane* l = r.sec(o.s).lane(*o.lanes.begin()))
        {
            double w = r.width(o.s, l->id);
            o.want   = r.at(o.s, t, l->height_at(o.s - r.sec(o.s).s, ((t - r.lane_t(o.s, l->id)) * (l->id < 0 ? -1 : 1) + w / 2) / w));
        }
}

// returns "" when the position data are those of the placement
static string compare(const Net& n, const Op& o, int h)
{
    const Road&     r = n.roads[o.road];
    RM_PositionData d;
    if (RM_GetPositionData(h, &d) != 0)
        return "no position data";
    vf::cmp();
    double tol = n.tol_g;
    if (d.roadId != static_cast<id_t>(r.id))
        return fmt("on road %d instead of %d", static_cast<int>(d.roadId), r.id);
    double et = o.kind >= 2 ? n.tol_t : 1e-6, es = o.kind >= 2 ? n.tol_s : 1e-6;
    worst[0] = std::max(worst[0], fabs(d.s - o.s));
    if (fabs(d.s - o.s) > es)
        return fmt("s=%.6f instead of %.6f", d.s, o.s);
    if (!o.lanes.count(d.laneId))
        return fmt("lane %d instead of %d", d.laneId, *o.lanes.begin());
    double t = r.lane_t(d.s, d.laneId, d.laneOffset);
    worst[1] = std::max(worst[1], fabs(t - o.want_t));
    if (fabs(t - o.want_t) > et)
        return fmt("t=%.6f (lane %d offset %.6f) instead of %.6f", t, d.laneId, d.laneOffset, o.want_t);
    double exy = o.kind >= 2 ? 1e-6 : tol;
    worst[2] = std::max(worst[2], hypot(d.x - o.want.x, d.y - o.want.y));
    if (hypot(d.x - o.want.x, d.y - o.want.y) > exy)
        return fmt("world position (%.6f, %.6f) instead of (%.6f, %.6f)", d.x, d.y, o.want.x, o.want.y);
    if (o.kind == 3)
    {
        if (fabs(d.z - o.want.z - 0.4) > 1e-6)
            return fmt("z=%.6f instead of %.6f", d.z, o.want.z + 0.4);
        if (matdiff(rot(d.h, d.p, d.r), rot(o.want.h + o.hrel, 0.05, -0.03)) > 1e-6)
            return fmt("orientation h=%.6f p=%.6f r=%.6f instead of h=%.6f p=0.05 r=-0.03", d.h, d.p, d.r, o.want.h + o.hrel);
        return "";
    }
    if (fabs(d.z - o.want.z) > (o.kind >= 2 ? 3 * n.tol_s : 1e-6))
        return fmt("z=%.6f instead of %.6f", d.z, o.want.z);
    // orientation: road surface frame, turned by the driving direction of the lane (road/lane) or the given heading (world)
    double hoff = atan(r.lane_slope(o.s, d.laneId));
    double eang = o.kind >= 2 ? 0.01 : 1e-5 + tol;
    if (o.kind == 2)
    {
        double hw = o.want.h + o.hrel;
        if (fabs(angdiff(d.h, hw)) > 1e-6 + (r.elev.empty() && r.super.empty() ? 0 : 0.02))
            return fmt("heading %.6f instead of %.6f", d.h, hw);
        // pitch and roll are those of the road surface seen in that heading
        double poff = 0;
        Mat    W    = mul(rot(o.want.h, o.want.p, o.want.r), rot(o.hrel, poff, 0));
        double e    = matdiff(W, rot(d.h, d.p, d.r));
        if (e > 0.04)
            return fmt("orientation h=%.6f p=%.6f r=%.6f, expected road frame h=%.6f p=%.6f r=%.6f turned by %.4f", d.h, d.p, d.r, o.want.h, o.want.p, o.want.r, o.hrel);
    }
    else
    {
        double hrel = (o.want_t < 0) != r.lht ? 0 : M_PI;
        if (o.kind == 1)
            hrel = (o.lane < 0) != r.lht ? 0 : M_PI;
        double poff = cos(hrel) * atan(tan(poly_prim(r.super, o.s)) * -o.want_t);
        Mat    W    = mul(rot(o.want.h, o.want.p, o.want.r), rot(hrel + hoff, poff, 0));
        double e    = matdiff(W, rot(d.h, d.p, d.r));
        worst[3]    = std::max(worst[3], e);
        if (e > eang)
            return fmt("orientation h=%.6f p=%.6f r=%.6f, expected road frame h=%.6f p=%.6f r=%.6f turned by %.4f", d.h, d.p, d.r, o.want.h, o.want.p, o.want.r, hrel + hoff);
        if (fabs(angdiff(d.hRelative, hrel)) > 1e-6)
            return fmt("relative heading %.6f instead of %.6f", d.hRelative, hrel);
    }
    return "";
}
static int perform(const Net& n, const Op& o, int h)
{
    const Road& r = n.roads[o.road];
    vf::step();
    if (o.kind == 0)
        return RM_SetRoadPosition(h, static_cast<id_t>(r.id), o.s, o.t, true);
    if (o.kind == 1)
        return RM_SetLanePosition(h, static_cast<id_t>(r.id), o.lane, o.off, o.s, true);
    if (o.kind == 3)
        return RM_SetWorldPosition(h, o.want.x, o.want.y, o.want.z + 0.4, o.want.h + o.hrel, 0.05, -0.03);
    return RM_SetWorldXYHPosition(h, o.want.x, o.want.y, o.want.h + o.hrel);
}

static bool opened(const Net& n)
{
    RM_SetOptionPersistent("disable_stdout");
    RM_SetOptionPersistent("disable_log");
    if (RM_InitWithString(n.xml().c_str()) != 0)
    {
        vf::violation(n.name + "@load", "valid road network rejected", n.xml());
        return false;
    }
    return true;
}

static void c08(const Net& n, int depth)
{
    worst[0] = worst[1] = worst[2] = worst[3] = 0;
    if (!opened(n))
        return;
    vector<Op> ops;
    for (size_t i = 0; i < n.roads.size(); i++)
    {
        const Road&    r  = n.roads[i];
        vector<double> ss = n.ss.empty() ? vector<double>{0.004, 0.11, 0.237, 0.311, 0.46, 0.551, 0.62, 0.78, 0.899, 0.9993} : n.ss;
        for (double q : ss)
        {
            double s = q * r.length;
            for (double t : n.ts)
                for (int k : {0, 2, 3})
                {
                    if ((k == 3 && t != n.ts.front() && t != n.ts.back()) || (k == 2 && n.levels))
                        continue;
                    Op o;
                    o.kind = k;
                    o.road = i;
                    o.s    = s;
                    o.t    = t;
                    o.lane = 0;
                    o.off  = 0;
                    o.hrel = k >= 2 ? (t < 0 ? 0.3 : -2.5) : 0;
                    expect(n, o);
                    ops.push_back(o);
                }
            for (int lane : {-2, -1, 1, 2})
                for (double off : {0.0, 0.7})
                {
                    if (!r.sec(s).lane(lane))
                        continue;
                    Op o;
                    o.kind = 1;
                    o.road = i;
                    o.s    = s;
                    o.lane = lane;
                    o.off  = off;
                    expect(n, o);
                    ops.push_back(o);
                }
        }
    }
    std::set<string> bad;
    auto             report = [&](const string& hist, const Op& o, const string& e)
    {
        string key = n.name + "@" + o.str() + "/" + hist;
        if (bad.insert(n.name + fmt("%d", o.kind)).second)
            vf::violation(key, n.name + ": after [" + hist + "], " + o.str() + ": " + e, n.xml());
    };
    int h = RM_CreatePosition();
    // fresh handle for each placement, then all ordered pairs, then (thorough) triples on a coarser grid
    for (auto& o : ops)
    {
        int f = RM_CreatePosition();
        if (perform(n, o, f) < 0)
            report("new", o, "rejected");
        else
        {
            string e = compare(n, o, f);
            if (!e.empty())
                report("new", o, e);
        }
        vf::eval();
        RM_DeletePosition(f);
        vf::state(n.name + o.str());
    }
    if (!bad.empty())
        return;
    for (auto& a : ops)
        for (auto& b : ops)
        {
            if (a.kind == 3)
                continue;  // leaves an offset to the surface behind, which later placements keep
            perform(n, a, h);
            if (perform(n, b, h) < 0)
                report(a.str(), b, "rejected");
            else
            {
                string e = compare(n, b, h);
                if (!e.empty())
                    report(a.str(), b, e);
            }
            if (b.kind == 3)
            {
                RM_DeletePosition(h);
                h = RM_CreatePosition();
            }
            vf::eval();
        }
    if (depth >= 3)
    {
        vector<Op> few;
        for (size_t i = 0; i < ops.size(); i += 5)
            if (ops[i].kind != 3)
                few.push_back(ops[i]);
        for (auto& a : few)
            for (auto& b : few)
                for (auto& c : few)
                {
                    perform(n, a, h);
                    perform(n, b, h);
                    if (perform(n, c, h) < 0)
                        report(a.str() + b.str(), c, "rejected");
                    else
                    {
                        string e = compare(n, c, h);
                        if (!e.empty())
                            report(a.str() + b.str(), c, e);
                    }
                    vf::eval();
                }
    }
    vf::outcome(n.name + fmt("%.3g %.3g %.3g %.3g", worst[0], worst[1], worst[2], worst[3]));
    vf::sample(n.name + fmt(": %zu placements; worst error s %.2g m, t %.2g m, xy %.2g m, orientation %.2g", ops.size(), worst[0], worst[1], worst[2], worst[3]));
    if (getenv("VF_WORST"))
        fprintf(stderr, "%s worst s %.4g t %.4g xy %.4g o %.4g\n", n.name.c_str(), worst[0], worst[1], worst[2], worst[3]);
}

static Road mk(vector<Geom> g, int id = 1, double x = 0, double y = 0, double h = 0)
{
    Road r;
    r.id    = id;
    r.geoms = g;
    r.x0    = x;
    r.y0    = y;
    r.h0    = h;
    r.finish();
    r.sections = {section(0, 2, 2)};
    return r;
}

static std::vector<vf::Case> cases08()
{
    std::vector<vf::Case> cs;
    vector<std::pair<string, vector<Geom>>> gs = {
        {"line", {line(90)}},
        {"arcL", {arc(80, 0.02)}},
        {"arcR", {arc(80, -0.03)}},
        {"arcgentle", {line(10), arc(90, 0.0003)}},
        {"spiral0", {spiral(70, 0, 0.03)}},
        {"spiral1", {spiral(70, -0.025, 0.02)}},
        {"spiral2", {spiral(60, 0.03, 0.005)}},
        {"spiral3", {spiral(60, -0.03, -0.005)}},
        {"spiralconst", {spiral(60, 0.02, 0.02)}},
        {"line-arc-line", {line(30), arc(40, 0.025), line(20)}},
        {"line-spiral-arc-spiral-line", {line(20), spiral(20, 0, -0.04), arc(25, -0.04), spiral(20, -0.04, 0), line(15)}},
        {"poly3", {poly3(45, {0, 0, 0, 0.004, -0.00004})}},
        {"poly3b", {poly3(43, {0, 0, 0, -0.003, 0.00003}), line(20)}},
        {"pp3norm", {pp3(1, {0, 0, 50, 2, -4}, {0, 0, 0, 10, -6}, true)}},
        {"pp3turn", {pp3(1, {0, 0, 60, -60, 0}, {0, 0, 0, 60, -20}, true)}},
        {"pp3norm2", {line(15), pp3(1, {0, 0, 40, 0, 0}, {0, 0, 0, -12, 8}, true), line(15)}},
        {"pp3arc", {pp3(40, {0, 0, 1, 0, -0.000006}, {0, 0, 0, 0.003, 0}, false), line(10)}},
    };
    struct Prof
    {
        string       n;
        vector<Poly> el, su;
    };
    vector<Prof> ps = {{"flat", {}, {}},
                       {"hill", {{0, 1, 0.03, 0, 0}, {25, 1.75, 0.03, -0.0012, 0}, {50, 1.75, -0.03, 0.0002, 0.00001}}, {}},
                       {"bank", {}, {{0, 0, 0.002, 0, 0}, {20, 0.04, 0.002, 0, 0}, {40, 0.08, 0, -0.00005, 0}}},
                       {"hillbank", {{0, 0, 0.02, 0, 0}, {35, 0.7, 0.02, 0.0008, 0}}, {{0, -0.05, 0, 0, 0}, {30, -0.05, 0.001, 0, 0}}}};
    int          depth = vf::C().thorough() ? 3 : 2;
    for (auto& g : gs)
        for (auto& p : ps)
            for (double h0 : {0.0, 2.3})
                for (int off = 0; off < 2; off++)
                {
                    Net n;
                    n.name = g.first + "-" + p.n + fmt("-h%g%s", h0, off ? "-laneoffset" : "");
                    n.roads.push_back(mk(g.second, 7, 12, -5, h0));
                    Road& r = n.roads[0];
                    r.elev  = p.el;
                    r.super = p.su;
                    if (off)
                        r.loff = {{0, 0.5, 0.01, 0, 0}, {28, 0.78, 0.01, -0.0005, 0}};
                    bool poly = has(r, Geom::POLY3) || has(r, Geom::PP3_NORM, Geom::PP3_ARC);
                    n.tol_g = poly ? 0.02 : 1e-5;
                    // s follows from interpolation between sample points of the reference line: exact on lines and arcs
                    bool mixed = r.geoms.size() > 1 || off || poly;
                    n.tol_s = mixed ? 0.7 : has(r, Geom::SPIRAL) ? 0.15 : p.n == "flat" ? 1e-4 : 0.02;
                    n.tol_t = mixed ? 0.02 : 1e-3;
                    cs.push_back({n.name, [n, depth]() { c08(n, depth); }});
                }
    // several roads far apart: all state of the previous road must be left behind
    for (int v = 0; v < 3; v++)
    {
        Net n;
        n.name = fmt("roads%d", v);
        n.roads.push_back(mk({line(60), arc(30, 0.02)}, 1));
        n.roads.push_back(mk({arc(40, -0.02)}, 2, 500, 300, 1));
        n.roads.push_back(mk({spiral(50, 0, 0.02)}, 3, -400, 200, -2));
        n.roads[0].super = {{0, 0.02, 0.001, 0, 0}};
        n.roads[0].elev  = {{0, 0, 0.02, 0, 0}, {30, 0.6, 0.02, -0.0003, 0}};
        n.roads[0].loff  = {{0, 0.4, 0.01, 0, 0}};
        if (v >= 1)
            n.roads[1].super = {{0, -0.03, 0, 0, 0}, {20, -0.03, 0.002, 0, 0}};
        if (v == 2)
            n.roads[2].elev = {{0, 4, -0.05, 0, 0}};
        n.roads[1].sections = {section(0, 2, 2), section(15, 2, 2), section(27, 2, 2)};
        n.ss    = {0.004, 0.3, 0.61, 0.996};
        n.ts    = {-5, 0.3, 2.2};
        n.tol_g = 1e-5;
        n.tol_s = 0.7;
        n.tol_t = 0.02;
        cs.push_back({n.name, [n, depth]() { c08(n, depth); }});
    }
    // raised lanes
    for (int v = 0; v < 4; v++)
    {
        Net n;
        n.name = fmt("raised%d", v);
        n.roads.push_back(v % 2 ? mk({line(60), arc(40, 0.01)}, 1) : mk({line(100)}, 1, 10, 5, 1));
        Road& r = n.roads[0];
        if (v >= 2)
        {
            r.elev  = {{0, 2, 0.03, 0, 0}};
            r.super = {{0, 0.03, 0, 0, 0}};
        }
        r.sections = {section(0, 2, 2), section(42, 2, 2)};
        for (auto& c : r.sections)
            for (auto& l : c.lanes)
            {
                if (l.id == -2)
                    l.height = {{0, 0.1, 0.2}, {12, 0.3, 0.1}, {25, 0, 0.4}};
                else if (l.id == 1)
                    l.height = {{0, 0.12, 0.12}};
                else if (l.id == 2 && c.s > 0)
                    l.height = {{3, 0.05, 0.25}, {33, 0.5, 0.25}};
            }
        for (auto& l : r.sections[0].lanes)
            l.succ = l.id;
        for (auto& l : r.sections[1].lanes)
            l.pred = l.id;
        n.ss    = {0.01, 0.05, 0.11, 0.2, 0.3, 0.41, 0.47, 0.53, 0.58, 0.7, 0.8, 0.99};
        n.ts    = {-6.4, -4.2, -1.9, 2.2, 5.1, 8};
        n.tol_g = 1e-5;
        n.tol_s = v % 2 ? 0.7 : 0.15;
        n.tol_t = 0.02;
        cs.push_back({n.name, [n, depth]() { c08(n, depth); }});
    }
    // lanes of varying width, several width records and sections, traffic rules
    for (int v = 0; v < 8; v++)
    {
        Net n;
        n.name = fmt("widths%d", v);
        n.roads.push_back(v % 4 == 0 ? mk({line(120)}, 1, 10, 5, 1) : v % 4 == 1 ? mk({line(60), arc(60, 0.01)}, 1) : v % 4 == 2 ? mk({arc(110, -0.012)}, 1, 0, 0, 2) : mk({spiral(110, 0, 0.02)}, 1));
        Road& r = n.roads[0];
        r.lht   = v >= 4;
        if (v % 2)
        {
            r.elev  = {{0, 2, 0.03, 0, 0}};
            r.super = {{0, 0.03, 0, 0, 0}};
        }
        if (v % 4 >= 2)
            r.loff = {{0, 0.5, 0.01, 0, 0}, {28, 0.78, 0.01, -0.0005, 0}, {70, 0.318, -0.032, 0.0004, 0}};
        r.sections = {section(0, 2, 2), section(70, 2, 2), section(95, 2, 2)};
        for (auto& c : r.sections)
            for (auto& l : c.lanes)
            {
                double k = l.id / 100.0;
                if (c.s > 0 && c.s < 90)
                    l.width = {{0, 3.2, 0.02 + k, 0.001, 0}, {9.5, 3.6, -0.03, 0, 0.00002}};
                else if (c.s == 0)
                    l.width = {{0, 3.0 + k, 0.03, 0, 0}, {11, 3.4, -0.02 + k, 0.0004, 0}, {27, 3.3, 0.01, -0.0003, 0.00001}, {48, 3.1 + k, 0.015 - k, 0, 0}};
                else if (abs(l.id) == 1)
                    l.width = {{0, 3.5, 0.01, 0, 0}};
            }
        for (size_t i = 0; i < 3; i++)
            for (auto& l : r.sections[i].lanes)
            {
                if (i < 2)
                    l.succ = l.id;
                if (i > 0)
                    l.pred = l.id;
            }
        n.ss    = {0.01, 0.07, 0.15, 0.22, 0.31, 0.38, 0.47, 0.55, 0.62, 0.71, 0.8, 0.92, 0.99};
        n.ts    = {-6.0, -4.5, -2, 2.5, 5.1, 6.5};
        n.tol_g = 1e-5;
        n.tol_s = 0.7;
        n.tol_t = 0.05;
        cs.push_back({n.name, [n, depth]() { c08(n, depth); }});
    }
    // roads above and below each other: the height decides
    for (int v = 0; v < 6; v++)
    {
        Net n;
        n.name   = fmt("levels%d", v);
        n.levels = true;
        n.roads.push_back(mk({line(100)}, 1));
        n.roads.push_back(v % 3 == 0 ? mk({line(100)}, 2, 50, -50, M_PI / 2) : v % 3 == 1 ? mk({line(100)}, 2, 0, 0, 0) : mk({line(100)}, 2, 100, 2, M_PI));
        n.roads[0].elev = {{0, 0, v < 3 ? 0 : 0.03, 0, 0}};
        n.roads[1].elev = {{0, v < 3 ? 6.0 : 9.0, v < 3 ? 0.02 : 0, 0, 0}};
        if (v >= 3)
        {
            n.roads[0].super = {{0, 0.02, 0, 0, 0}};
            std::swap(n.roads[0], n.roads[1]);
        }
        n.ss    = {0.01, 0.2, 0.45, 0.5, 0.53, 0.8, 0.99};
        n.ts    = {-5, -1.9, 2.2, 5.1};
        n.tol_g = 1e-5;
        n.tol_s = 0.1;
        n.tol_t = 0.02;
        cs.push_back({n.name, [n, depth]() { c08(n, depth); }});
    }
    return cs;
}

#include "lanes.hpp"

int main(int argc, char** argv)
{
    vf::init(argc, argv, "C08", {"placements"});
    if (vf::C().prop == "C09")
    {
        vf::run(cases09(), 300);
        return vf::finish("30 x 3 road layouts (3 lane sections with 4-6 lanes, up to 4 width records, 8 outer lane types, 3 plan views, 3 lane offsets, lanes listed in either order, both traffic rules, 4 speed limits); 24 stations (limits included) x all lanes and 9 lane type masks; t grid of 0.31 m x 7 snapping masks; all ordered pairs of lane placements and of road placements on one position",
                          {"exact section boundaries are left open"});
    }
    vf::run(cases08(), 300);
    return vf::finish("17 plan view combinations (line, arc, spiral, poly3, paramPoly3) x 4 elevation/superelevation profiles x 2 start headings x 2 lane offsets, networks of 3 separate roads, raised lanes, lanes of varying width (3 sections, up to 4 width records, both traffic rules), roads above each other; "
                      "10 s x (5 t as road and as world position + 4 lanes x 2 offsets) placements; every placement on a new handle and every ordered pair of placements on one handle (thorough: triples on a "
                      "coarser grid)",
                      {"s, t recovered from world coordinates within 0.1 m / 0.02 m on curves (0.15 / 0.05 on banked or sloped ones), 1e-4 m on straight flat roads",
                       "poly3 and paramPoly3 positions within 0.02 m of the arc-length parametrised curve"});
}
