// C22: following a trajectory, for every sequence of frame times and speed changes.
#include <algorithm>
#include "scn.hpp"
using std::string;
using std::vector;
using vf::fmt;

static int  g_started, g_ended;
static void on_state(const char* name, int, int state, const char*)
{
    if (string(name) == "ac")
    {
        if (state == 2)
            g_started++;
        if (state == 3)
            g_ended++;
    }
}
static void on_decl(void*)
{
    SE_RegisterStoryBoardElementStateChangeCallback(on_state);
}

struct V
{
    double x, y, time;
    double h = NAN, z = NAN, tangent = NAN;
};
struct Traj
{
    string         name;
    vector<V>      v;
    int            follow = 0;  // following mode: 0 position, 1 follow
    int            timing = 0;  // 0 none, 1 relative, 2 absolute
    double         scale = 1, offset = 0, start = 0;  // start: initial distance offset
    double         v0  = 10;
    double         yaw = 0;      // of the entity before the action
    vector<double> dts = {0.05, 0.2};
    vector<double> speeds;       // set before a frame
    int            depth = 8;
    int            warm  = 1;    // frames before the action
    int            lane  = 0;    // vertices given as lane or relative positions
    string         curve;        // another shape, which the vertices then sample densely
    double         tol = 2e-3, htol = 2e-3;
    bool           given = false;  // heading given explicitly
};
static double wrap(double a)
{
    while (a > M_PI)
        a -= 2 * M_PI;
    while (a < -M_PI)
        a += 2 * M_PI;
    return a;
}

// reference: the polyline as the scenario describes it
struct Path
{
    vector<V>      v;
    vector<double> s, dir, h, speed, acc;
    Path(const Traj& c)
    {
        v = c.v;
        s.push_back(0);
        for (size_t i = 1; i < v.size(); i++)
            s.push_back(s.back() + hypot(v[i].x - v[i - 1].x, v[i].y - v[i - 1].y));
        double d = 0;
        for (size_t i = v.size() - 1; i-- > 0;)
            if (s[i + 1] > s[i] + 1e-6)
                d = atan2(v[i + 1].y - v[i].y, v[i + 1].x - v[i].x);
        for (size_t i = 0; i < v.size(); i++)
        {
            if (i + 1 < v.size() && s[i + 1] > s[i] + 1e-6)
                d = atan2(v[i + 1].y - v[i].y, v[i + 1].x - v[i].x);
            if (!std::isnan(v[i].tangent))
                d = v[i].tangent;
            dir.push_back(d);
            h.push_back(std::isnan(v[i].h) ? d : v[i].h);
        }
        double u = c.v0;
        for (size_t i = 0; i + 1 < v.size(); i++)
        {
            double ds = s[i + 1] - s[i], dt = v[i + 1].time - v[i].time, a = 0;
            if (!c.follow || !c.curve.empty())
                u = dt > 1e-9 ? ds / dt : 0;
            speed.push_back(u);
            if (c.follow && c.curve.empty())
            {
                if (ds > 1e-6)
                {
                    a = 2 * (ds - u * dt) / (dt * dt);
                    if (u + a * dt < 0)
                    {
                        a = -u * u / (2 * ds);
                        u = 0;
                    }
                    else
                        u += a * dt;
                }
                else
                    u = 0;
            }
            acc.push_back(a);
        }
    }
    double length() const { return s.back(); }
    double end() const { return v.back().time; }
    double at_time(double t) const
    {
        if (t >= end())
            return length();
        size_t i = 0;
        if (v.size() > 50)
            i = static_cast<size_t>(std::max<long>(0, std::lower_bound(v.begin(), v.end() - 1, t, [](const V& a, double b) { return a.time < b; }) - v.begin() - 1));
        while (i + 2 < v.size() && v[i + 1].time < t)
            i++;
        double d = std::max(0.0, t - v[i].time);
        if (acc[i] < 0)
            d = std::min(d, -speed[i] / acc[i]);
        return std::min(s[i + 1], s[i] + speed[i] * d + acc[i] * d * d / 2);
    }
    size_t seg(double q) const
    {
        size_t i = 0;
        if (v.size() > 50)
            i = static_cast<size_t>(std::max<long>(0, std::lower_bound(s.begin(), s.end() - 1, q) - s.begin() - 1));
        while (i + 2 < v.size() && s[i + 1] < q)
            i++;
        return i;
    }
    double time_of(double q) const
    {
        size_t i = seg(q);
        return s[i + 1] - s[i] < 1e-9 ? v[i].time : v[i].time + (q - s[i]) / (s[i + 1] - s[i]) * (v[i + 1].time - v[i].time);
    }
};

static string vertex_pos(const Traj& c, const V& v)
{
    string o = std::isnan(v.h) ? "" : fmt(" h=\"%.17g\"", v.h), z = std::isnan(v.z) ? "" : fmt(" z=\"%.17g\"", v.z);
    if (c.lane == 1)
        return fmt("<LanePosition roadId=\"1\" laneId=\"%d\" s=\"%.17g\" offset=\"%.17g\"/>", v.y > 0 ? 1 : -1, v.x + 500, v.y > 0 ? v.y - 1.75 : v.y + 1.75);
    if (c.lane == 2)
        return fmt("<RoadPosition roadId=\"1\" s=\"%.17g\" t=\"%.17g\"/>", v.x + 500, v.y);
    if (c.lane == 3)
        return fmt("<RelativeWorldPosition entityRef=\"R\" dx=\"%.17g\" dy=\"%.17g\" dz=\"0\"/>", v.x - 50, v.y - 0.5);
    return fmt("<WorldPosition x=\"%.17g\" y=\"%.17g\"", v.x, v.y) + z + o + "/>";
}

static void check(const Traj& c)
{
    Path      p(c);
    scn::Tree tree;
    size_t    nsp = std::max<size_t>(1, c.speeds.size());
    tree.n        = static_cast<int>(c.dts.size() * nsp);
    tree.depth    = c.depth;
    string doc;
    double q = c.start, ttime = 0, now = 0, pv = c.v0, px = 0, py = 0, ph = 0;
    int    phase = 0, runs = 0, first = 1;
    bool   hset = !std::isnan(c.v[0].h) || c.given;
    double hsign = 1;  // -1: the entity faces against the direction of the trajectory

    auto fail = [&](const string& what) -> bool
    {
        vf::violation(c.name + "@" + tree.path_str(), c.name + " frames " + tree.path_str() + ": " + what, doc);
        return false;
    };
    auto frame = [&](double dt, double speed) -> bool
    {
        int                    st0 = g_started, en0 = g_ended;
        SE_ScenarioObjectState o;
        bool                   flipped = false;
        if (!std::isnan(speed) && phase == 0)
        {
            SE_ReportObjectSpeed(0, static_cast<float>(speed));
            flipped = runs > 0 && speed * pv < 0;
            pv      = speed;
        }
        (void)flipped;
        if (SE_StepDT(dt) != 0 || SE_GetObjectState(0, &o) != 0)
            return fail("step failed");
        bool started = g_started > st0, ended = g_ended > en0;
        runs += started;
        vf::cmp();
        if (runs != 1)
            return fail(fmt("action started %d times", runs));
        if (started)
        {
            if (hset)
            {
                size_t k  = p.seg(c.start);
                double hh = p.h[k];
                if (c.follow)
                    hh += (c.start - p.s[k]) / (p.s[k + 1] - p.s[k]) * wrap(p.h[k + 1] - p.h[k]);
                hsign = cos(hh - p.dir[k]) < -1e-6 ? -1 : 1;
            }
            else
                hsign = c.timing == 0 && pv < 0 ? -1 : 1;
            ttime = p.time_of(c.start);
        }
        now += dt;
        double x = o.x, y = o.y, e = c.tol;
        vf::state(fmt("%s %.3f %.3f %.4f %.3f %d", c.name.c_str(), x, y, o.h, o.speed, phase));
        if (phase == 1)
        {
            if (ended)
                return fail("ended twice");
            double moved = hypot(x - px, y - py);
            if (fabs(moved - fabs(o.speed) * dt) > 0.02 + 0.02 * moved)
                return fail(fmt("after the end: moved %.4f m in %.3f s at %.4f m/s", moved, dt, o.speed));
            if (fabs(o.speed - pv) > 1e-3)
                return fail(fmt("speed %.4f changed after the end (%.4f)", o.speed, pv));
            px = x;
            py = y;
            return true;
        }
        double want, rest = 0, oldq = q;
        bool   done = false;
        int    mdir = 1;
        if (c.timing == 0)
        {
            mdir = (pv < 0 ? -1 : 1) * static_cast<int>(hsign);
            want = q + mdir * fabs(pv) * dt;
            if (want > p.length() - 1e-6 && mdir > 0 && pv != 0)
            {
                done = true;
                rest = want - p.length();
            }
            else if (want < 1e-6 && mdir < 0 && pv != 0)
            {
                done = true;
                rest = want;
            }
            want = std::max(0.0, std::min(p.length(), want));
        }
        else
        {
            ttime     = c.timing == 1 ? ttime + c.scale * dt : now * c.scale;
            double tt = ttime + c.offset;
            want      = p.at_time(tt);
            if (tt > p.end() - 1e-6)
            {
                done = true;
                rest = std::max(0.0, (tt - p.end()) / c.scale) * fabs(pv);
                if (tt < p.end() + 1e-6)
                    rest = 0;
            }
        }
        q           = want;
        size_t i    = p.seg(q);
        double len  = p.s[i + 1] - p.s[i], f = len < 1e-9 ? 0 : (q - p.s[i]) / len;
        double ex   = p.v[i].x + f * (p.v[i + 1].x - p.v[i].x), ey = p.v[i].y + f * (p.v[i + 1].y - p.v[i].y);
        if (done)
        {
            // what is left of the frame is driven straight on
            double d = rest > 0 ? p.h.back() : p.h[0], along = rest > 0 ? p.dir.back() : p.dir[0];
            if (hset && c.timing && pv * rest < 0)
                d += M_PI;  // at the speed it had, which is negative if it faced away from the direction it moved in
            else if (!(hset && c.timing) && cos(d - along) < 0)
                d += M_PI;
            ex += rest * cos(d);
            ey += rest * sin(d);
        }
        bool at_start = done && rest < 0;  // reaching the start backwards: whether the rest of the frame is driven on is left open
        bool other    = false;
        if (done && hset && c.timing == 0)
        {
            // with given headings facing back, the rest is driven along the heading or along the motion (the test suite fixes the former)
            double ox = rest > 0 ? p.v.back().x : p.v[0].x, oy = rest > 0 ? p.v.back().y : p.v[0].y;
            other = hypot(x - (2 * ox - ex), y - (2 * oy - ey)) < e;
        }
        if (hypot(x - ex, y - ey) > e && !other && !(at_start && hypot(x - p.v[0].x, y - p.v[0].y) < e))
            return fail(fmt("at (%.4f, %.4f), expected (%.4f, %.4f): %.4f m along the trajectory of %.4f m%s", x, y, ex, ey, q, p.length(), done ? " and on" : ""));
        if (done != ended)
            return fail(fmt("%.4f of %.4f m: the action has %sended", q, p.length(), ended ? "" : "not "));
        // height
        if (!std::isnan(p.v[i].z))
        {
            double ez = p.v[i].z + f * (p.v[i + 1].z - p.v[i].z);
            if (fabs(o.z - ez) > e && !done)
                return fail(fmt("height %.4f, expected %.4f", o.z, ez));
        }
        else if (fabs(o.z) > e)
            return fail(fmt("height %.4f on a flat road", o.z));
        // speed
        if (c.timing == 0)
        {
            if (fabs(o.speed - pv) > 1e-3)
                return fail(fmt("speed %.4f, expected %.4f", o.speed, pv));
        }
        else if (!(done && rest > 1e-6) && !(first && c.timing == 2))
        {
            // negative while the entity faces away from the direction it moves in
            double es = (q - oldq) / dt, es1 = es;
            if (hset)
            {
                bool at_vertex = false;
                for (double z : p.s)
                    at_vertex = at_vertex || fabs(z - oldq) < 1e-3 || fabs(z - q) < 1e-3;
                double c0 = cos(ph - p.dir[p.seg(oldq)]), c1 = cos(o.h - p.dir[i]);
                es1       = c0 * c1 < 0.1 || first || at_vertex ? fabs(es) * (o.speed < 0 ? -1 : 1) : c0 < 0 ? -es : es;
            }
            if (fabs(o.speed - es1) > 1e-2 + (c.curve.empty() ? 0 : 2 * c.tol / dt) && !(c.follow && q == oldq))
                return fail(fmt("speed %.4f while moving %.4f m in %.3f s", o.speed, q - oldq, dt));
            pv = o.speed;
        }
        else if (first)
            pv = o.speed;
        else if (fabs(o.speed - pv) > 1e-3)
            return fail(fmt("speed %.4f in the last frame, before %.4f", o.speed, pv));
        // heading
        if (!done)
        {
            double flip = !hset && hsign < 0 ? M_PI : 0, h0 = p.h[i], h1 = p.h[i + 1], eh = NAN, tol = 2e-3;
            if (!c.curve.empty())
            {
                eh  = h0 + f * wrap(h1 - h0);
                tol = c.htol;
                // corners are rounded within a metre
                for (size_t k = p.seg(std::max(0.0, q - 1)); k <= p.seg(std::min(p.length(), q + 1)); k++)
                    if (fabs(wrap(p.h[k + 1] - p.h[k])) > 0.05)
                        eh = NAN;
            }
            else if (c.follow)
                eh = h0 + f * wrap(h1 - h0);
            else
            {
                double r = std::min(2.0, len / 2);
                if (f * len < r - 1e-3 && i > 0)
                {
                    eh  = p.h[i - 1] + wrap(h0 - p.h[i - 1]) / 2;
                    tol = fabs(wrap(h0 - p.h[i - 1])) / 2 + 2e-3;
                }
                else if (f * len > len - r + 1e-3)
                {
                    eh  = h0 + wrap(h1 - h0) / 2;
                    tol = fabs(wrap(h1 - h0)) / 2 + 2e-3;
                }
                else if (f * len > r + 1e-3 && f * len < len - r - 1e-3)
                    eh = h0;
            }
            if (!std::isnan(eh) && fabs(wrap(o.h - eh - flip)) > tol)
                return fail(fmt("heading %.4f, expected %.4f (+-%.3f) %.4f m along the trajectory", o.h, wrap(eh + flip), tol, q));
        }
        first = 0;
        px    = x;
        py    = y;
        ph    = o.h;
        if (ended)
            phase = 1;
        return true;
    };
    auto load = [&]() -> bool
    {
        scn::write_file("r.xodr", scn::odr(scn::straight_road(1000, 2, 2, -500)));
        char cwd[400];
        if (!getcwd(cwd, sizeof(cwd)))
            return false;
        string act = "<RoutingAction><FollowTrajectoryAction" + (c.start > 0 ? fmt(" initialDistanceOffset=\"%.17g\"", c.start) : string("")) + "><Trajectory name=\"t\" closed=\"false\"><Shape>" + c.curve;
        if (c.curve.empty())
        {
            act += "<Polyline>";
            for (auto& v : c.v)
                act += fmt("<Vertex time=\"%.17g\"><Position>", v.time) + vertex_pos(c, v) + "</Position></Vertex>";
            act += "</Polyline>";
        }
        act += "</Shape></Trajectory>" +
               (c.timing ? fmt("<TimeReference><Timing domainAbsoluteRelative=\"%s\" scale=\"%.17g\" offset=\"%.17g\"/></TimeReference>", c.timing == 1 ? "relative" : "absolute", c.scale, c.offset)
                         : string("<TimeReference><None/></TimeReference>")) +
               fmt("<TrajectoryFollowingMode followingMode=\"%s\"/></FollowTrajectoryAction></RoutingAction>", c.follow ? "follow" : "position");
        string init = scn::init_private("A", {scn::teleport(scn::world_pos(c.v[0].x - 3, c.v[0].y + 0.4, c.yaw)), scn::speed_action(c.v0)}) +
                      scn::init_private("R", {scn::teleport(scn::world_pos(50, 0.5, 0))});
        string ev = "<Event name=\"ev\" priority=\"parallel\" maximumExecutionCount=\"1\"><Action name=\"ac\">" + scn::pa(act) + "</Action>" + scn::trigger("StartTrigger", scn::var_cond("go")) + "</Event>";
        doc       = scn::xosc(string(cwd) + "/r.xodr", scn::vehicle("A") + scn::vehicle("R"), init,
                              "<Story name=\"s\"><Act name=\"act\"><ManeuverGroup name=\"mg\" maximumExecutionCount=\"1\"><Actors selectTriggeringEntities=\"false\"><EntityRef entityRef=\"A\"/></Actors><Maneuver name=\"m\">" + ev +
                                  "</Maneuver></ManeuverGroup></Act></Story>",
                              "<StopTrigger/>", scn::var_decl("go", "boolean", "false"));
        SE_RegisterParameterDeclarationCallback(on_decl, nullptr);
        if (!scn::load(doc))
        {
            vf::violation(c.name + "@load", "valid scenario rejected", doc);
            return false;
        }
        for (int i = 0; i < c.warm; i++)
        {
            SE_StepDT(0.1);
            now += 0.1;
        }
        SE_SetVariableBool("go", true);
        return true;
    };
    tree.apply = [&](int in) -> bool
    {
        size_t k = static_cast<size_t>(in);
        return frame(c.dts[k % c.dts.size()], c.speeds.empty() ? NAN : c.speeds[k / c.dts.size()]);
    };
    tree.run(load);
}

// ---- other shapes, sampled for the reference
static const double STEP = 0.02;
// n clothoids one after the other
struct Seg
{
    double k0, k1, len, turn, time;
};
static vector<V> sample_clothoids(double x, double y, double h, const vector<Seg>& segs, double tend)
{
    vector<V> r;
    for (size_t i = 0; i < segs.size(); i++)
    {
        const Seg& g = segs[i];
        h += g.turn;
        double t1 = i + 1 < segs.size() ? segs[i + 1].time : tend;
        int    n  = static_cast<int>(ceil(g.len / STEP));
        double h0 = h;
        for (int k = 0; k <= n; k++)
        {
            double q = g.len * k / n;
            h = h0 + g.k0 * q + (g.k1 - g.k0) / g.len * q * q / 2;
            if (k > 0 || i == 0)
                r.push_back({x, y, g.time + (t1 - g.time) * k / n, NAN, NAN, h});
            if (k < n)
                for (int m = 0; m < 4; m++)
                {
                    double dq = g.len / n / 4, qm = q + dq * (m + 0.5), hm = h0 + g.k0 * qm + (g.k1 - g.k0) / g.len * qm * qm / 2;
                    x += dq * cos(hm);
                    y += dq * sin(hm);
                }
        }
    }
    return r;
}
static double basis(const vector<double>& u, size_t i, int k, double t)
{
    if (k == 1)
        return u[i] <= t && t < u[i + 1] ? 1 : 0;
    double a = u[i + static_cast<size_t>(k) - 1] - u[i], b = u[i + static_cast<size_t>(k)] - u[i + 1];
    return (a > 0 ? (t - u[i]) / a * basis(u, i, k - 1, t) : 0) + (b > 0 ? (u[i + static_cast<size_t>(k)] - t) / b * basis(u, i + 1, k - 1, t) : 0);
}
static vector<V> sample_nurbs(const vector<V>& c, const vector<double>& w, int order)
{
    vector<double> u;
    size_t         n = c.size(), k = static_cast<size_t>(order);
    for (size_t i = 0; i < n + k; i++)
        u.push_back(i < k ? 0 : i >= n ? 1 : static_cast<double>(i + 1 - k) / static_cast<double>(n + 1 - k));
    vector<V> r;
    int       N = 2000;
    for (int m = 0; m <= N; m++)
    {
        double t = std::min(1 - 1e-12, static_cast<double>(m) / N), x = 0, y = 0, sw = 0;
        for (size_t i = 0; i < n; i++)
        {
            double b = basis(u, i, order, t) * w[i];
            x += b * c[i].x;
            y += b * c[i].y;
            sw += b;
        }
        r.push_back({x / sw, y / sw, 0});
    }
    return r;
}

int main(int argc, char** argv)
{
    vf::init(argc, argv, "d_traj");
    vector<vf::Case> cases;
    bool             th = vf::C().thorough();
    auto             add = [&](const Traj& t) { cases.push_back({t.name, [t]() { check(t); }}); };
    // shapes: straight, bend, back turn, standing still, sloped; 12-40 m long, 2-5 s
    struct Sh
    {
        string    n;
        vector<V> v;
    };
    vector<Sh> shapes = {{"straight", {{0, -1.75, 0}, {20, -1.75, 2}}},
                         {"bend", {{0, -1.75, 0}, {8, -1.75, 0.5}, {14, 3, 1.2}, {20, 3, 1.6}}},
                         {"late", {{2, 1, 1.5}, {9, 4, 2.1}, {10.5, -3, 2.9}, {16, -5, 3.4}}},
                         {"sharp", {{0, 0, 0}, {6, 0, 0.6}, {0.5, 1, 1.3}, {5, 5, 2.2}}},
                         {"left", {{10, 2, 0}, {2, 2.5, 0.7}, {-6, 2, 1.5}}},
                         {"stop", {{0, -1.75, 0}, {5, -1.75, 0.5}, {5, -1.75, 1.7}, {12, 0, 2.6}}},
                         {"short", {{0, 0, 0}, {1.5, 0.5, 0.2}, {2.5, 1.5, 0.4}, {3.5, 1, 0.6}, {8, 1, 1.0}}}};
    auto hdg = [](vector<V> v, double off, double turn)
    {
        Traj t;
        t.v = v;
        Path p(t);
        for (size_t i = 0; i < v.size(); i++)
            v[i].h = wrap(p.dir[i] + off + turn * static_cast<double>(i));
        return v;
    };
    int D = th ? 11 : 8;
    for (auto& sh : shapes)
        for (int follow : {0, 1})
        {
            // by distance
            for (double v0 : {10.0, -7.0})
            {
                Traj t;
                t.v      = sh.v;
                t.follow = follow;
                t.v0     = v0;
                t.dts    = {0.11, 0.4};
                t.depth  = D;
                t.name   = fmt("%s mode%d v%g", sh.n.c_str(), follow, v0);
                add(t);
                t.start = 3.25;
                t.name += " from 3.25";
                add(t);
                t.v    = hdg(sh.v, 0.2, 0.1);
                t.name = fmt("%s mode%d v%g headings", sh.n.c_str(), follow, v0);
                add(t);
                t.v     = hdg(sh.v, M_PI - 0.1, 0);
                t.start = v0 > 0 ? 7 : 0;
                t.name  = fmt("%s mode%d v%g facing back", sh.n.c_str(), follow, v0);
                add(t);
            }
            {
                Traj t;
                t.v      = sh.v;
                t.follow = follow;
                t.dts    = {0.3};
                t.speeds = {12, 0, 5};
                t.depth  = th ? 8 : 6;
                t.name   = fmt("%s mode%d changing speeds", sh.n.c_str(), follow);
                add(t);
                t.speeds = {12, -6};
                t.start  = 4;
                t.depth  = D;
                t.name += " and direction";
                add(t);
            }
            // by time
            for (int timing : {1, 2})
                for (double scale : {1.0, 2.0, 0.5})
                    for (double off : {0.0, 0.3})
                    {
                        Traj t;
                        t.v      = sh.v;
                        t.follow = follow;
                        t.timing = timing;
                        t.scale  = scale;
                        t.offset = off;
                        double T = (sh.v.back().time - sh.v[0].time) / scale;
                        if (timing == 2)
                            t.warm = 1;
                        t.dts   = {T / 11, T / 3.3};
                        t.depth = D - 1;
                        t.name  = fmt("%s mode%d timing%d scale%g offset%g", sh.n.c_str(), follow, timing, scale, off);
                        add(t);
                        if (scale == 1)
                        {
                            t.v = hdg(sh.v, 0.3, -0.1);
                            t.name += " headings";
                            add(t);
                        }
                    }
            for (int kind : {1, 2, 3})
            {
                Traj t;
                t.v      = sh.v;
                t.follow = follow;
                t.dts    = {0.11, 0.4};
                t.depth  = D - 1;
                t.lane   = kind;
                t.name   = fmt("%s mode%d vertices %d", sh.n.c_str(), follow, kind);
                add(t);
            }
        }
    for (auto& sh : shapes)
        for (int follow : {0, 1})
            for (int timing : {0, 1})
            {
                Traj t;
                t.v = sh.v;
                for (size_t i = 0; i < t.v.size(); i++)
                    t.v[i].z = 1 + 0.5 * static_cast<double>((sh.n == "stop" && i == 2 ? 1 : i) % 3);
                t.follow = follow;
                t.timing = timing;
                t.dts    = {0.11, 0.4};
                t.depth  = D - 1;
                t.name   = fmt("%s mode%d timing%d heights", sh.n.c_str(), follow, timing);
                add(t);
                if (timing && !follow)
                {
                    t.v     = sh.v;
                    t.start = 3.25;
                    t.name  = fmt("%s relative from 3.25", sh.n.c_str());
                    add(t);
                }
            }
    // other shapes
    struct Clo
    {
        string n;
        double x, y, h, k, dk, len, t0, t1;
    };
    for (auto& g : vector<Clo>{{"spiral", 0, -1.75, 0, 0, 0.01, 20, 0, 2}, {"arc", 2, 1, 1, -0.05, 0, 15.4, 1, 2.5}, {"unwind", 5, 4, 2.5, 0.1, -0.008, 22.3, 0.5, 3}, {"line", 0, -1.75, 0.1, 0, 0, 9.6, 0, 1.2}})
    {
        Traj t;
        t.v     = sample_clothoids(g.x, g.y, g.h, {{g.k, g.k + g.dk * g.len, g.len, 0, g.t0}}, g.t1);
        t.curve = fmt("<Clothoid curvature=\"%.17g\" curvaturePrime=\"%.17g\" length=\"%.17g\" startTime=\"%.17g\" stopTime=\"%.17g\"><Position><WorldPosition x=\"%.17g\" y=\"%.17g\" h=\"%.17g\"/></Position></Clothoid>", g.k, g.dk, g.len,
                      g.t0, g.t1, g.x, g.y, g.h);
        t.tol   = 5e-3;
        t.htol  = 5e-3;
        t.dts   = {0.11, 0.4};
        for (int timing : {0, 1, 2})
            for (double start : {0.0, 3.25})
                for (double scale : {1.0, 2.0})
                    for (double off : {0.0, 0.3})
                    {
                        if (timing == 0 && (scale != 1 || off != 0))
                            continue;
                        if (timing == 2 && start > 0)
                            continue;
                        t.timing = timing;
                        t.start  = start;
                        t.scale  = scale;
                        t.offset = off;
                        t.depth  = D - 1;
                        if (timing)
                        {
                            double T = (g.t1 - g.t0) / scale;
                            t.dts    = {T / 11, T / 3.3};
                        }
                        t.name = fmt("clothoid %s timing%d from %g scale%g offset%g", g.n.c_str(), timing, start, scale, off);
                        add(t);
                    }
        Traj b   = t;
        b.timing = 0;
        b.dts    = {0.3};
        b.speeds = {12, -6};
        b.start  = 4;
        b.depth  = D;
        b.name   = "clothoid " + g.n + " changing direction";
        add(b);
    }
    struct Spl
    {
        string      n;
        double      x, y, h;
        vector<Seg> s;
        double      tend;
    };
    for (auto& g : vector<Spl>{{"s-curve", 0, -1.75, 0, {{0, 0.1, 8, 0, 0}, {0.1, -0.1, 10, 0, 0.8}, {-0.1, 0, 7, 0, 1.5}}, 2.4},
                               {"corner", 3, 2, 1, {{0.05, 0.05, 6, 0, 0.5}, {-0.05, -0.05, 6, 0.4, 1.1}}, 2.0},
                               {"short", 3, 0, 0.2, {{0, 0.05, 0.3, 0, 0}, {0.05, 0.1, 0.35, 0, 0.1}, {0.1, -0.05, 9.1, 0, 0.2}, {-0.05, 0, 0.4, 0, 1.1}}, 1.3},
                               {"one", 3, -2, -0.5, {{0, 0.08, 12.5, 0, 0}}, 1.4}})
    {
        Traj t;
        t.v     = sample_clothoids(g.x, g.y, g.h, g.s, g.tend);
        t.curve = fmt("<ClothoidSpline timeEnd=\"%.17g\">", g.tend);
        for (size_t i = 0; i < g.s.size(); i++)
            t.curve += fmt("<ClothoidSplineSegment curvatureStart=\"%.17g\" curvatureEnd=\"%.17g\" length=\"%.17g\" hOffset=\"%.17g\" timeStart=\"%.17g\">", g.s[i].k0, g.s[i].k1, g.s[i].len, g.s[i].turn, g.s[i].time) +
                       (i == 0 ? fmt("<PositionStart><WorldPosition x=\"%.17g\" y=\"%.17g\" h=\"%.17g\"/></PositionStart>", g.x, g.y, g.h) : string("")) + "</ClothoidSplineSegment>";
        t.curve += "</ClothoidSpline>";
        t.tol  = 0.03;
        t.htol = 0.06;
        for (int timing : {0, 1, 2})
            for (double start : {0.0, 3.25})
                for (double scale : {1.0, 2.0})
                {
                    if ((timing == 0 && scale != 1) || (timing == 2 && start > 0))
                        continue;
                    t.timing = timing;
                    t.start  = start;
                    t.scale  = scale;
                    t.depth  = D - 1;
                    double T = (g.tend - g.s[0].time) / scale;
                    t.dts    = {timing ? T / 11 : 0.11, timing ? T / 3.3 : 0.4};
                    t.name   = fmt("clothoid spline %s timing%d from %g scale%g", g.n.c_str(), timing, start, scale);
                    add(t);
                }
    }
    struct Nu
    {
        string         n;
        int            order;
        vector<V>      c;
        vector<double> w;
    };
    for (auto& g : vector<Nu>{{"wave", 4, {{0, -1.75, 0}, {6, -1.75, 0.5}, {9, 3, 1}, {14, 3, 1.5}, {20, -1, 2}}, {1, 1, 1, 1, 1}},
                              {"weights", 3, {{2, 1, 0}, {8, 5, 0.5}, {12, -3, 1}, {18, 0, 1.5}}, {1, 0.5, 2, 1}},
                              {"lines", 2, {{0, 0, 0}, {7, 0, 0.5}, {10, 4, 1}}, {1, 1, 1}}})
    {
        Traj t;
        t.v     = sample_nurbs(g.c, g.w, g.order);
        t.curve = fmt("<Nurbs order=\"%d\">", g.order);
        for (size_t i = 0; i < g.c.size(); i++)
            t.curve += fmt("<ControlPoint time=\"%.17g\" weight=\"%.17g\"><Position><WorldPosition x=\"%.17g\" y=\"%.17g\"/></Position></ControlPoint>", g.c[i].time, g.w[i], g.c[i].x, g.c[i].y);
        t.curve += "</Nurbs>";
        t.tol  = 0.1;
        t.htol = 0.1;
        for (double start : {0.0, 3.25})
        {
            t.start = start;
            t.depth = D - 1;
            t.dts   = {0.11, 0.4};
            t.name  = fmt("nurbs %s from %g", g.n.c_str(), start);
            add(t);
        }
    }
    vf::run(cases, 300);
    return vf::finish(fmt("7 polylines (bends, sharp turns, standing still, late start times, headings along, turning and against) x 2 following modes x {no time reference: speeds +10, -7, changing; relative and absolute time, scales 1, 2, 0.5, "
                          "offsets 0, 0.3} x vertex position types x initial distance offsets; 4 clothoids, 4 clothoid splines (all timings) and 3 NURBS (no time reference), x start offsets; all frame time (and speed) sequences to depth %d",
                          D),
                      {"a flat straight road; clothoid splines within 0.03 m and NURBS within 0.1 m; corners of splines may be rounded within a metre", "in position mode headings within 2 m of a corner may lie anywhere between those before and after"});
}
