// C27: routes. Every bounded sequence of steps and route assignments in networks of two junctions; the roads taken, the route's points, length and status, looking ahead along it and positions on it.
#include "net.hpp"
#include "scn.hpp"
#include <memory>
#include <set>
using namespace ref;

struct Way2
{
    vector<int> roads;
    vector<int> dirs;  // +1 travelled with increasing s
};
struct RouteSpec
{
    string       name;
    vector<WPos> wps;   // road, lane, s
    Way2         way;   // roads from the first to the last waypoint
    double       length = 0;
    bool         on(int a, int b) const
    {
        for (size_t i = 0; i + 1 < way.roads.size(); i++)
            if (way.roads[i] == a && way.roads[i + 1] == b)
                return true;
        return false;
    }
    // route coordinate of a place on one of its roads, NaN elsewhere
    double coord(const Network& n, int road, double s) const
    {
        double L = 0;
        for (size_t i = 0; i < way.roads.size(); i++)
        {
            const Road& r   = n.road(way.roads[i]);
            double      beg = way.dirs[i] > 0 ? 0 : r.length;
            if (i == 0)
                beg = wps[0].s;
            if (way.roads[i] == road)
                return L + (s - beg) * way.dirs[i];
            L += way.dirs[i] > 0 ? r.length - beg : beg;
        }
        return NAN;
    }
    bool at(const Network& n, double ps, int& road, double& s, int& dir) const
    {
        double L = 0;
        for (size_t i = 0; i < way.roads.size(); i++)
        {
            const Road& r   = n.road(way.roads[i]);
            double      beg = i == 0 ? wps[0].s : way.dirs[i] > 0 ? 0 : r.length;
            double      len = way.dirs[i] > 0 ? r.length - beg : beg;
            if (ps <= L + len)
            {
                road = r.id;
                dir  = way.dirs[i];
                s    = beg + (ps - L) * dir;
                return true;
            }
            L += len;
        }
        return false;
    }
    string xml() const
    {
        string t = "<Route name=\"" + name + "\" closed=\"false\">";
        for (auto& w : wps)
            t += "<Waypoint routeStrategy=\"shortest\"><Position>" + scn::lane_pos(w.road, w.lane, w.s) + "</Position></Waypoint>";
        return t + "</Route>";
    }
};

static int drive(int lane)
{
    return lane < 0 ? 1 : -1;
}
// shortest way along lane links from a waypoint to a road
static bool find_way(const Network& n, const WPos& a, const WPos& b, Way2& best, double& len)
{
    struct St
    {
        int    road, lane, dir;
        double len;
        Way2   w;
    };
    vector<St> todo = {{a.road, a.lane, drive(a.lane), 0, {{a.road}, {drive(a.lane)}}}};
    len             = 1e9;
    if (a.road == b.road)
    {
        best = todo[0].w;
        len  = (b.s - a.s) * drive(a.lane);
        return len > 0;
    }
    while (!todo.empty())
    {
        St s = todo.back();
        todo.pop_back();
        if (s.w.roads.size() > 8)
            continue;
        const Road& r = n.road(s.road);
        double      l = s.len + (s.w.roads.size() == 1 ? (s.dir > 0 ? r.length - a.s : a.s) : r.length);
        const Link& k = s.dir > 0 ? r.succ : r.pred;
        auto        enter = [&](int road, int lane, bool end)
        {
            St t = s;
            t.road = road;
            t.lane = lane;
            t.dir  = end ? -1 : 1;
            t.len  = l;
            t.w.roads.push_back(road);
            t.w.dirs.push_back(t.dir);
            if (road == b.road)
            {
                double d = l + (end ? n.road(road).length - b.s : b.s);
                if (d < len)
                {
                    len  = d;
                    best = t.w;
                }
            }
            else if (lane)
                todo.push_back(t);
        };
        if (k.id < 0)
            continue;
        if (!k.junct)
        {
            const Lane* ln = r.sec(s.dir > 0 ? r.length : 0).lane(s.lane);
            enter(k.id, ln ? (s.dir > 0 ? ln->succ : ln->pred) : 0, k.end);
            continue;
        }
        for (auto& j : n.juncts)
            if (j.id == k.id)
                for (auto& c : j.conns)
                    if (c.in == r.id)
                        for (auto& ll : c.links)
                            if (ll.first == s.lane)
                                enter(c.road, ll.second, c.end);
    }
    return len < 1e8;
}
static bool complete(const Network& n, RouteSpec& r)
{
    for (size_t i = 0; i + 1 < r.wps.size(); i++)
    {
        Way2   w;
        double l;
        if (!find_way(n, r.wps[i], r.wps[i + 1], w, l))
            return false;
        if (i == 0)
            r.way = w;
        else
            for (size_t k = 1; k < w.roads.size(); k++)
            {
                r.way.roads.push_back(w.roads[k]);
                r.way.dirs.push_back(w.dirs[k]);
            }
        r.length += l;
    }
    std::set<int> u(r.way.roads.begin(), r.way.roads.end());
    return u.size() == r.way.roads.size();
}

struct Net
{
    Network           n;
    vector<RouteSpec> rs;
    bool              isin(int arm_road) const  // drawn towards its first junction
    {
        const Road& r = n.road(arm_road);
        return r.succ.junct && (r.succ.id == 50 || arm_road > 80);
    }
    // k-th lane of an arm leading into (out of) the given junction
    int lane_to(int arm, int j, int k) const
    {
        const Road& r = n.road(arm);
        return r.succ.junct && r.succ.id == j ? -k : k;
    }
};
// arms: 2,3,4 at the first junction, 1 shared, 81,82,84 at the second
static vector<Net> nets()
{
    vector<Net> v;
    bool        T = vf::C().thorough();
    for (int mode : {0, 1, 2})
        for (int in : T ? vector<int>{0, 5, 6, 9, 15} : vector<int>{0, 5, 15})
        {
            Net N;
            N.n = twin(fmt("mode%d-in%d", mode, in), in, in ^ 9, mode);
            for (int a : {2, 3, 4})
                for (int k : {1, 2})
                    for (int b : {2, 3, 4, 1, 81, 82, 84})
                        for (int via : {0, 1})
                        {
                            if (a == b || (via && b < 80))
                                continue;
                            RouteSpec r;
                            r.name = fmt("r%d-%d-%d%s", a, k, b, via ? "-via" : "");
                            WPos p;
                            const Road& ra = N.n.road(a);
                            p.road         = a;
                            p.lane         = N.lane_to(a, 50, k);
                            p.s            = drive(p.lane) > 0 ? 15 : ra.length - 15;
                            r.wps.push_back(p);
                            if (via)
                            {
                                p.road = 1;
                                p.lane = N.lane_to(1, 60, k);
                                p.s    = 25;
                                r.wps.push_back(p);
                            }
                            p.road = b;
                            p.lane = -N.lane_to(b, b > 80 ? 60 : b == 1 ? 50 : 50, k);
                            p.s    = drive(p.lane) > 0 ? 40 : N.n.road(b).length - 40;
                            r.wps.push_back(p);
                            if (complete(N.n, r))
                                N.rs.push_back(r);
                        }
            v.push_back(N);
        }
    return v;
}

static string group(const string& evs)
{
    return "<ManeuverGroup name=\"g\" maximumExecutionCount=\"1\"><Actors selectTriggeringEntities=\"false\"><EntityRef entityRef=\"E\"/></Actors><Maneuver name=\"m\">" + evs + "</Maneuver></ManeuverGroup>";
}
static string event(int k, const string& action)
{
    return fmt("<Event name=\"e%d\" priority=\"parallel\" maximumExecutionCount=\"1000000\"><Action name=\"a%d\">", k, k) + scn::pa(action) + "</Action>" +
           scn::trigger("StartTrigger", scn::var_cond("op", std::to_string(k))) + "</Event>";
}
static string assign(const RouteSpec& r)
{
    return "<RoutingAction><AssignRouteAction>" + r.xml() + "</AssignRouteAction></RoutingAction>";
}

struct Base
{
    const Net&       N;
    string           cname;
    std::set<string> bad;
    int              E = 0;
    Base(const Net& n, const string& c) : N(n), cname(c) {}
    void fail(const string& kind, const string& what)
    {
        if (bad.insert(kind).second)
            vf::violation(cname + "@" + kind, N.n.name + ": " + what, N.n.xml());
    }
    bool start(const string& pos, double speed, const string& evs, const string& init_extra = "")
    {
        scn::write_file("n.xodr", N.n.xml());
        string st = "<Story name=\"S\"><Act name=\"A\">" + group(evs) + scn::trigger("StartTrigger", scn::time_cond(0, "greaterOrEqual")) + "</Act></Story>";
        vector<string> ia = {scn::teleport(pos), scn::speed_action(speed)};
        if (!init_extra.empty())
            ia.push_back(init_extra);
        string x = scn::xosc("n.xodr", scn::vehicle("E"), scn::init_private("E", ia), st, "<StopTrigger/>", scn::var_decl("op", "integer", "-1"));
        if (!scn::load(x))
        {
            vf::violation(cname + "@load", "valid scenario rejected", x);
            return false;
        }
        E = SE_GetIdByName("E");
        return true;
    }
};

// ---- driving
struct Drive : Base
{
    vector<const RouteSpec*> rs;
    int                      cur = -1;
    WPos                     p;
    bool                     lost = false;
    double                   v    = 10;
    string                   hist;
    using Base::Base;
    string name() const
    {
        return cname + " [" + hist + " ]" + (cur >= 0 ? " route " + rs[static_cast<size_t>(cur)]->name : "");
    }
    void move(double dt, int old)
    {
        SE_StepDT(static_cast<float>(dt));
        vf::step();
        SE_ScenarioObjectState o;
        SE_GetObjectState(E, &o);
        Network n = N.n;
        auto    f = [&](int k) -> std::function<bool(int, int)>
        {
            if (k < 0)
                return nullptr;
            const RouteSpec* r = rs[static_cast<size_t>(k)];
            return [r](int a, int b) { return r->on(a, b); };
        };
        vector<WPos> w;
        n.prefer = f(cur);
        n.walk(p, v * dt, -1, w);
        if (old != cur)
        {
            n.prefer = f(old);
            n.walk(p, v * dt, -1, w);
        }
        vf::cmp();
        const WPos* q   = nullptr;
        string      exp;
        bool        open = w.empty();
        for (auto& c : w)
        {
            if (c.undecided || c.links > 6 || c.rc)
                open = true;
            exp += fmt(" road %d lane %d s %.2f (+-%.2f)", c.road, c.lane, c.s, c.slack);
            double ts = 0.02 + c.slack;
            if (static_cast<int>(o.roadId) == c.road && (o.laneId == c.lane || c.off_open) && fabs(static_cast<double>(o.s) - c.s) < ts)
                q = &c;
            // close to the border the neighbouring road is as good
            if (fabs(c.s) < ts || fabs(c.s - N.n.road(c.road).length) < ts)
                open = open || static_cast<int>(o.roadId) != c.road;
        }
        if (!q)
        {
            if (!open)
                fail("path", name() + fmt(": entity on road %d lane %d s %.3f, expected", static_cast<int>(o.roadId), o.laneId, static_cast<double>(o.s)) + exp);
            lost = true;
            return;
        }
        WPos np = *q;
        np.s    = static_cast<double>(o.s);
        np.off  = static_cast<double>(o.laneOffset);
        np.off_open = false;
        np.slack    = 0;
        np.rc       = 0;
        p           = np;
        status(o);
    }
    void status(const SE_ScenarioObjectState& o)
    {
        int st = SE_GetObjectRouteStatus(E);
        vf::cmp();
        if (cur < 0)
        {
            if (st != 0)
                fail("status0", name() + fmt(": route status %d without any route", st));
            if (SE_GetNumberOfRoutePoints(E) != 0 || SE_GetRouteTotalLength(E) != 0)
                fail("points0", name() + ": route points or length without any route");
            return;
        }
        const RouteSpec& r = *rs[static_cast<size_t>(cur)];
        double           c = r.coord(N.n, p.road, p.s);
        bool             near = !std::isnan(c) && (fabs(c) < 1 || fabs(c - r.length) < 1);
        bool             on   = !std::isnan(c) && c > 0 && c < r.length;
        int              dir  = 0;
        for (size_t i = 0; i < r.way.roads.size(); i++)
            if (r.way.roads[i] == p.road)
                dir = r.way.dirs[i];
        if (!near && (dir == 0 || dir == p.dir) && st != (on ? 2 : 1))
            fail(on ? "status2" : "status1", name() + fmt(": route status %d at road %d s %.2f, route coordinate %.2f of %.2f", st, p.road, p.s, c, r.length));
        double len = SE_GetRouteTotalLength(E);
        if (fabs(len - r.length) > 0.01)
            fail("length", name() + fmt(": route length %.3f, expected %.3f", len, r.length));
        vector<int> seq;
        int         np = SE_GetNumberOfRoutePoints(E);
        for (int i = 0; i < np; i++)
        {
            SE_RouteInfo ri;
            if (SE_GetRoutePoint(E, static_cast<unsigned>(i), &ri) != 0)
            {
                fail("point", name() + fmt(": route point %d of %d not available", i, np));
                return;
            }
            if (seq.empty() || seq.back() != static_cast<int>(ri.roadId))
                seq.push_back(static_cast<int>(ri.roadId));
            const Road& rd = N.n.road(static_cast<int>(ri.roadId));
            if (!rd.sec(ri.s).lane(ri.laneId))
            {
                fail("pointlane", name() + fmt(": route point %d in lane %d of road %d, which does not exist", i, ri.laneId, rd.id));
                return;
            }
            Pose        a  = rd.at(ri.s, rd.lane_t(ri.s, ri.laneId, ri.laneOffset));
            if (hypot(a.x - ri.x, a.y - ri.y) > 5e-3)
                fail("pointxy", name() + fmt(": route point %d on road %d lane %d s %.2f at %.2f %.2f, expected %.2f %.2f", i, rd.id, ri.laneId, ri.s, ri.x, ri.y, a.x, a.y));
            const WPos* w = i == 0 ? &r.wps[0] : i == np - 1 ? &r.wps.back() : nullptr;
            if (w && (static_cast<int>(ri.roadId) != w->road || ri.laneId != w->lane || fabs(ri.s - w->s) > 1e-3))
                fail("pointends", name() + fmt(": route point %d on road %d lane %d s %.2f, expected %d %d %.2f", i, rd.id, ri.laneId, ri.s, w->road, w->lane, w->s));
        }
        SE_RouteInfo ri;
        if (SE_GetRoutePoint(E, static_cast<unsigned>(np), &ri) == 0)
            fail("pointend", name() + ": route point beyond the last one");
        if (seq != r.way.roads)
        {
            string a, b;
            for (int i : seq)
                a += fmt(" %d", i);
            for (int i : r.way.roads)
                b += fmt(" %d", i);
            fail("roads", name() + ": route points on roads" + a + ", expected" + b);
        }
        // looking ahead along the route
        if (on && dir == p.dir && !near)
            for (double d : {4.0, 33.0, 71.0})
            {
                int    road, dd;
                double s;
                if (c + d > r.length - 1 || !r.at(N.n, c + d, road, s, dd))
                    continue;
                SE_RoadInfo info;
                int         rc = SE_GetRoadInfoAlongRoute(E, d, &info, 2, true);
                vf::cmp();
                bool border = s < 1 || s > N.n.road(road).length - 1;
                if (!border && (rc < 0 || static_cast<int>(info.roadId) != road || fabs(info.s - s) > 0.05))
                    fail("ahead", name() + fmt(": looking %.0f m ahead along the route from road %d s %.2f gives road %d s %.2f (rc %d), expected road %d s %.2f", d, p.road, p.s,
                                               static_cast<int>(info.roadId), info.s, rc, road, s));
                (void)o;
            }
    }
};

static const double DT[] = {0.4, 1.7, 4.3, 8.9};
static void drive_case(const Net& N, const string& name, const WPos& p0, const vector<const RouteSpec*>& rs, int depth)
{
    Drive D(N, name);
    D.rs = rs;
    scn::Tree t;
    t.n     = 4 + static_cast<int>(rs.size());
    t.depth = depth;
    t.apply = [&](int i)
    {
        if (i < 4)
        {
            D.hist += fmt(" drive %.1f s", DT[i]);
            D.move(DT[i], D.cur);
        }
        else
        {
            int old = D.cur;
            D.cur   = i - 4;
            D.hist += " assign " + rs[static_cast<size_t>(D.cur)]->name;
            SE_SetVariableInt("op", D.cur);
            D.move(0.05, old);
            SE_SetVariableInt("op", -1);
            if (!D.lost)
                D.move(0.05, D.cur);
        }
        vf::state(fmt("%d %d %.2f %d", D.p.road, D.p.lane, D.p.s, D.cur));
        return !D.lost;
    };
    t.run(
        [&]()
        {
            string ev;
            for (size_t i = 0; i < rs.size(); i++)
                ev += event(static_cast<int>(i), assign(*rs[i]));
            D.p     = p0;
            D.p.dir = drive(p0.lane);
            return D.start(scn::lane_pos(p0.road, p0.lane, p0.s), D.v, ev);
        });
}

// ---- positions on a route
static void pos_case(const Net& N, const string& name, const vector<const RouteSpec*>& rs)
{
    struct Q
    {
        const RouteSpec* r;
        bool             lane;
        double           ps, t;
        int              k;
        bool             ori;
    };
    vector<Q> qs;
    string    ev;
    for (auto* r : rs)
        for (double f : {0.02, 0.2, 0.45, 0.6, 0.8, 0.97})
            for (int v = 0; v < 6; v++)
            {
                Q q{r, v >= 3, f * r->length, v == 0 ? -2.25 : v == 1 ? 1.5 : v == 2 ? -0.75 : v == 3 ? 0 : 0.4, v == 5 ? 2 : 1, v == 2 || v == 4};
                int    road, dir;
                double s;
                if (!r->at(N.n, q.ps, road, s, dir) || s < 0.5 || s > N.n.road(road).length - 0.5)
                    continue;
                if (q.lane)
                {
                    // a lane of that road
                    const Section& c = N.n.road(road).sec(s);
                    int            l = 0;
                    for (int id : {-q.k, q.k, -1, 1, -2, 2})
                        if (!l && c.lane(id) && c.lane(id)->type == "driving")
                            l = id;
                    q.k = l;
                }
                string x = "<RoutePosition><RouteRef>" + r->xml() + "</RouteRef>" + (q.ori ? "<Orientation type=\"relative\" h=\"0.25\"/>" : "") + "<InRoutePosition>" +
                           (q.lane ? fmt("<FromLaneCoordinates pathS=\"%.17g\" laneId=\"%d\" laneOffset=\"%.17g\"/>", q.ps, q.k, q.t) : fmt("<FromRoadCoordinates pathS=\"%.17g\" t=\"%.17g\"/>", q.ps, q.t)) +
                           "</InRoutePosition></RoutePosition>";
                ev += event(static_cast<int>(qs.size()), scn::teleport(x));
                qs.push_back(q);
            }
    Base B(N, name);
    if (!B.start(scn::lane_pos(2, -1, 5), 0, ev))
        return;
    for (size_t i = 0; i < qs.size(); i++)
        for (size_t k = 0; k < qs.size(); k += 7)
        {
            for (size_t f : {k, i})
            {
                SE_SetVariableInt("op", static_cast<int>(f));
                SE_StepDT(0.01f);
                SE_SetVariableInt("op", -1);
                SE_StepDT(0.01f);
                vf::step();
            }
            const Q&               q = qs[i];
            SE_ScenarioObjectState o;
            SE_GetObjectState(B.E, &o);
            int    road, dir;
            double s;
            q.r->at(N.n, q.ps, road, s, dir);
            const Road& rd = N.n.road(road);
            double      t  = q.lane ? rd.lane_t(s, q.k, q.t) : q.t;
            Pose        a  = rd.at(s, t);
            vf::cmp();
            vf::eval();
            string what = "route " + q.r->name + (q.lane ? fmt(" position pathS %.2f lane %d offset %g", q.ps, q.k, q.t) : fmt(" position pathS %.2f t %g", q.ps, q.t)) +
                          fmt(": entity at %.3f %.3f heading %.3f (road %d lane %d s %.3f t %.3f), expected %.3f %.3f (road %d s %.3f t %.3f, road heading %.3f)", static_cast<double>(o.x), static_cast<double>(o.y), static_cast<double>(o.h),
                              static_cast<int>(o.roadId), o.laneId, static_cast<double>(o.s), static_cast<double>(o.t), a.x, a.y, road, s, t, a.h);
            string kind = q.lane ? "lanepos" : "roadpos";
            if (static_cast<int>(o.roadId) != road || hypot(a.x - static_cast<double>(o.x), a.y - static_cast<double>(o.y)) > 5e-3 || (q.lane && o.laneId != q.k))
                B.fail(kind, what);
            else
            {
                double h = angdiff(static_cast<double>(o.h), a.h);
                if (fabs(sin(h - (q.ori ? 0.25 : 0))) > 2e-3)
                    B.fail(kind + "-heading", what);
            }
        }
    SE_Close();
}

// ---- relative positions respect the route of the positioned entity, or else of the reference
static void rel_case(const Net& N, const string& name, const vector<const RouteSpec*>& rs)
{
    Base              B(N, name);
    int               er = -1, rr = -1, R = 0;
    string            hist;
    const RouteSpec&  r0 = *rs[0];
    WPos              p;
    vector<double>    ds = {6, 40, 58, 95, 150};
    p.road = r0.wps[0].road;
    p.lane = r0.wps[0].lane;
    p.dir  = drive(p.lane);
    p.s    = r0.wps[0].s + 5 * p.dir;
    auto teleports = [&]()
    {
        const RouteSpec* eff = er >= 0 ? rs[static_cast<size_t>(er)] : rr >= 0 ? rs[static_cast<size_t>(rr)] : nullptr;
        for (int rep = 0; rep < 2; rep++)
            for (size_t i = 0; i < ds.size() * 2; i++)
            {
                double d = ds[i / 2];
                SE_SetVariableInt("op", 100 + static_cast<int>(i));
                SE_StepDT(0.01f);
                SE_SetVariableInt("op", -1);
                SE_StepDT(0.01f);
                vf::step();
                Network n = N.n;
                if (eff)
                    n.prefer = [eff](int a, int b) { return eff->on(a, b); };
                vector<WPos> w;
                n.go(p, d * p.dir, -1, 0, w, 0);
                SE_ScenarioObjectState o;
                SE_GetObjectState(B.E, &o);
                vf::cmp();
                vf::eval();
                bool   ok = w.empty(), edge = false;
                string ex;
                for (auto& q : w)
                {
                    if (q.s < 0.5 || q.s > N.n.road(q.road).length - 0.5 || q.rc)
                        edge = true;
                    ex += fmt(" road %d lane %d s %.2f", q.road, q.lane, q.s);
                    if (static_cast<int>(o.roadId) == q.road && (o.laneId == q.lane || q.off_open) && fabs(static_cast<double>(o.s) - q.s) < 0.01)
                        ok = true;
                }
                if (!ok && !edge)
                    B.fail(i % 2 ? "relroad" : "rellane", name + " [" + hist + fmt(" ]: %.0f m ahead of the reference (road %d lane %d s %.2f) is road %d lane %d s %.2f, expected", d, p.road, p.lane, p.s, static_cast<int>(o.roadId), o.laneId,
                                                                                  static_cast<double>(o.s)) +
                                                                 ex);
                if (SE_GetObjectRouteStatus(R) != (rr >= 0 ? 2 : 0))
                    B.fail("refstatus", name + " [" + hist + fmt(" ]: route status of the reference %d", SE_GetObjectRouteStatus(R)));
                SE_GetObjectState(R, &o);
                if (static_cast<int>(o.roadId) != p.road || fabs(static_cast<double>(o.s) - p.s) > 1e-3)
                    B.fail("refmoved", name + " [" + hist + " ]: the reference moved");
                if (er >= 0 && !w.empty() && !edge)
                {
                    double c = eff->coord(N.n, w[0].road, w[0].s);
                    if (!std::isnan(c) && c > 1 && c < eff->length - 1 && SE_GetObjectRouteStatus(B.E) != 2)
                        B.fail("status", name + " [" + hist + fmt(" ]: route status %d after being put on the route", SE_GetObjectRouteStatus(B.E)));
                }
            }
    };
    scn::Tree t;
    t.n     = 4;
    t.depth = 3;
    t.apply = [&](int i)
    {
        (i < 2 ? er : rr) = i % 2;
        hist += fmt(" %s route %s", i < 2 ? "entity" : "reference", rs[static_cast<size_t>(i % 2)]->name.c_str());
        SE_SetVariableInt("op", i);
        SE_StepDT(0.01f);
        SE_SetVariableInt("op", -1);
        SE_StepDT(0.01f);
        teleports();
        return true;
    };
    t.run(
        [&]()
        {
            string ev, er2;
            for (int i = 0; i < 2; i++)
            {
                ev += event(i, assign(*rs[static_cast<size_t>(i)]));
                er2 += event(2 + i, assign(*rs[static_cast<size_t>(i)]));
            }
            for (size_t i = 0; i < ds.size(); i++)
            {
                ev += event(100 + static_cast<int>(2 * i), scn::teleport(fmt("<RelativeLanePosition entityRef=\"R\" dLane=\"0\" dsLane=\"%.17g\" offset=\"0\"/>", ds[i])));
                ev += event(101 + static_cast<int>(2 * i), scn::teleport(fmt("<RelativeRoadPosition entityRef=\"R\" ds=\"%.17g\" dt=\"0\"/>", ds[i] * p.dir)));
            }
            scn::write_file("n.xodr", N.n.xml());
            string gr = "<ManeuverGroup name=\"gr\" maximumExecutionCount=\"1\"><Actors selectTriggeringEntities=\"false\"><EntityRef entityRef=\"R\"/></Actors><Maneuver name=\"mr\">" + er2 + "</Maneuver></ManeuverGroup>";
            string st = "<Story name=\"S\"><Act name=\"A\">" + group(ev) + gr + scn::trigger("StartTrigger", scn::time_cond(0, "greaterOrEqual")) + "</Act></Story>";
            string x  = scn::xosc("n.xodr", scn::vehicle("E") + scn::vehicle("R"),
                                 scn::init_private("E", {scn::teleport(scn::lane_pos(p.road, -p.lane, 20))}) + scn::init_private("R", {scn::teleport(scn::lane_pos(p.road, p.lane, p.s))}), st,
                                 "<StopTrigger/>", scn::var_decl("op", "integer", "-1"));
            if (!scn::load(x))
            {
                vf::violation(name + "@load", "valid scenario rejected", x);
                return false;
            }
            B.E = SE_GetIdByName("E");
            R   = SE_GetIdByName("R");
            teleports();
            return true;
        });
}

int main(int argc, char** argv)
{
    vf::init(argc, argv, "d_route");
    bool             T   = vf::C().thorough();
    auto             all = std::make_shared<vector<Net>>(nets());
    vector<vf::Case> cases;
    size_t           nr = 0;
    for (size_t i = 0; i < all->size(); i++)
    {
        const Net* N = &(*all)[i];
        nr += N->rs.size();
        vector<const RouteSpec*> ps;
        for (int a : {2, 3, 4})
            for (int k : {1, 2})
            {
                vector<const RouteSpec*> rs;
                int                      l = N->lane_to(a, 50, k);
                for (auto& r : N->rs)
                    if (r.wps[0].road == a && r.wps[0].lane == l)
                        rs.push_back(&r);
                for (auto* r : rs)
                    ps.push_back(r);
                for (size_t q = 0; q < rs.size(); q += T ? 1 : 2)
                    for (int kv : {1, 2})
                    {
                        if (!T && kv != k && q)
                            continue;
                        WPos p;
                        p.road = a;
                        p.lane = N->lane_to(a, 50, kv);
                        double L = N->n.road(a).length, back = (q + static_cast<size_t>(kv)) % 2 ? 5 : 30;
                        p.s      = drive(p.lane) > 0 ? back : L - back;
                        vector<const RouteSpec*> use = {rs[q], rs[(q + 1) % rs.size()]};
                        string                   n   = fmt("%s arm %d lane %d routes %s %s", N->n.name.c_str(), a, p.lane, use[0]->name.c_str(), use[1]->name.c_str());
                        cases.push_back({n, [N, n, p, use, T, all]() { drive_case(*N, n, p, use, T ? 5 : 4); }});
                    }
            }
        for (int a : {2, 3, 4})
            for (int k : {1, 2})
            {
                vector<const RouteSpec*> rs;
                for (auto& r : N->rs)
                    if (r.wps[0].road == a && r.wps[0].lane == N->lane_to(a, 50, k))
                        rs.push_back(&r);
                for (size_t q = 0; q < rs.size(); q += T ? 1 : 3)
                {
                    vector<const RouteSpec*> use = {rs[q], rs[(q + 2) % rs.size()]};
                    string                   n   = fmt("%s relative %s %s", N->n.name.c_str(), use[0]->name.c_str(), use[1]->name.c_str());
                    cases.push_back({n, [N, n, use, all]() { rel_case(*N, n, use); }});
                }
            }
        for (size_t q = 0; q < ps.size(); q += 4)
        {
            vector<const RouteSpec*> use(ps.begin() + static_cast<long>(q), ps.begin() + static_cast<long>(std::min(q + 4, ps.size())));
            string                   n = N->n.name + fmt(" positions %d", static_cast<int>(q));
            cases.push_back({n, [N, n, use, all]() { pos_case(*N, n, use); }});
        }
    }
    vf::run(cases, 600);
    return vf::finish(fmt("%d networks of two four-way junctions sharing a road (arms drawn towards or away, connecting roads drawn with, against or for both directions), %d routes; every sequence of %d operations out of 4 drives (0.4 to 8.9 s at "
                          "10 m/s) and 2 route assignments from starts before and inside the route, in the route's lane or the neighbour lane; route positions by lane and road coordinates at 6 places x 6 variants per route",
                          static_cast<int>(all->size()), static_cast<int>(nr), T ? 5 : 4),
                      {"a vehicle whose lane does not allow the route's turn, or that has left its route, may take any connection"});
}
