// C06: entity conditions: meaning for one entity, any / all over several.
#include <algorithm>
#include "story.hpp"
using namespace story;
using std::string;
using std::vector;

struct Post
{
    double x, y, h, v;           // reference point, heading, speed along the heading
    double vz = 0, ax = 0, ay = 0, az = 0;
    double z = 0;  // height above the road
    double vx() const
    {
        return v * cos(h);
    }
    double vy() const
    {
        return v * sin(h);
    }
};
struct Box
{
    double len, wid, cx, cy;
};
static const Box EB = {4.0, 1.8, 1.3, 0.25}, RB = {2.2, 1.2, 0.4, -0.15}, TB = {3.0, 1.6, 0.2, 0.1};

typedef vector<std::pair<double, double>> Poly;
static Poly box_of(const Post& p, const Box& b)
{
    Poly r;
    for (auto& c : Poly{{1, 1}, {-1, 1}, {-1, -1}, {1, -1}})
    {
        double lx = b.cx + c.first * b.len / 2, ly = b.cy + c.second * b.wid / 2;
        r.push_back({p.x + lx * cos(p.h) - ly * sin(p.h), p.y + lx * sin(p.h) + ly * cos(p.h)});
    }
    return r;
}
static double seg_point(double ax, double ay, double bx, double by, double px, double py)
{
    double dx = bx - ax, dy = by - ay, t = ((px - ax) * dx + (py - ay) * dy) / (dx * dx + dy * dy);
    t = t < 0 ? 0 : t > 1 ? 1 : t;
    return hypot(ax + t * dx - px, ay + t * dy - py);
}
static bool inside(const Poly& a, double x, double y)  // convex, counter clockwise
{
    for (size_t i = 0; i < a.size(); i++)
    {
        auto &p = a[i], &q = a[(i + 1) % a.size()];
        if ((q.first - p.first) * (y - p.second) - (q.second - p.second) * (x - p.first) < 0)
            return false;
    }
    return true;
}
static bool cross(std::pair<double, double> a, std::pair<double, double> b, std::pair<double, double> c, std::pair<double, double> d)
{
    auto o = [](std::pair<double, double> p, std::pair<double, double> q, std::pair<double, double> r) { return (q.first - p.first) * (r.second - p.second) - (q.second - p.second) * (r.first - p.first); };
    return o(a, b, c) * o(a, b, d) < 0 && o(c, d, a) * o(c, d, b) < 0;
}
static bool overlap(const Poly& a, const Poly& b)
{
    for (auto& p : a)
        if (inside(b, p.first, p.second))
            return true;
    for (auto& p : b)
        if (inside(a, p.first, p.second))
            return true;
    for (size_t i = 0; i < 4; i++)
        for (size_t j = 0; j < 4; j++)
            if (cross(a[i], a[(i + 1) % 4], b[j], b[(j + 1) % 4]))
                return true;
    return false;
}
// distance between two boxes (0 when they overlap)
static double poly_dist(const Poly& a, const Poly& b)
{
    if (overlap(a, b))
        return 0;
    double m = 1e9;
    for (int k = 0; k < 2; k++)
    {
        const Poly &u = k ? a : b, &w = k ? b : a;
        for (auto& p : u)
            for (size_t j = 0; j < 4; j++)
                m = std::min(m, seg_point(w[j].first, w[j].second, w[(j + 1) % 4].first, w[(j + 1) % 4].second, p.first, p.second));
    }
    return m;
}
// gap between the projections on the axis with angle h (signed: positive when b is ahead of a); 0 when they overlap
static double axis_gap(const Poly& a, const Poly& b, double h)
{
    double lo[2] = {1e9, 1e9}, hi[2] = {-1e9, -1e9};
    for (int k = 0; k < 2; k++)
        for (auto& p : k ? b : a)
        {
            double d = p.first * cos(h) + p.second * sin(h);
            lo[k]    = std::min(lo[k], d);
            hi[k]    = std::max(hi[k], d);
        }
    if (lo[1] > hi[0])
        return lo[1] - hi[0];
    if (hi[1] < lo[0])
        return hi[1] - lo[0];
    return 0;
}
static const double UNDEF = -1e30;

struct World
{
    vector<Post> e;  // triggering candidates
    Post         r;
    bool         trailers = false;
};

struct Cond
{
    string                                              name, xml;  // the condition element
    std::function<double(const World&, size_t)>         value;      // of one entity; UNDEF: condition not true for it
    std::function<int(double)>                          truth;      // 0/1, -1 left open (too close to the limit)
    std::function<bool(const World&)>                   known;      // the situation of a recorded finding
    int                                                 all   = 0;
    vector<size_t>                                      ents;
};
static int cmpv(const string& rule, double v, double ref, bool exact)
{
    if (v == UNDEF)
        return 0;
    double e = exact ? 0 : 1e-4;
    if (!exact && fabs(v - ref) < e)
        return -1;
    return rule == "greaterThan" ? v > ref : rule == "lessThan" ? v < ref : rule == "greaterOrEqual" ? v >= ref : rule == "lessOrEqual" ? v <= ref : rule == "equalTo" ? v == ref : v != ref;
}

static double ang(double a)
{
    while (a > M_PI)
        a -= 2 * M_PI;
    while (a <= -M_PI)
        a += 2 * M_PI;
    return a;
}
static int lane_of(double y)
{
    return y < -3.5 ? -2 : y < 0 ? -1 : y < 3.5 ? 1 : 2;
}

// trailer straight behind its tow vehicle
static Post behind(const Post& p)
{
    Post t = p;
    t.x -= 5.5 * cos(p.h);
    t.y -= 5.5 * sin(p.h);
    return t;
}

static vector<Cond> conditions(const Post& target, bool trailers = false)
{
    vector<Cond> v;
    auto         num = [&](const string& name, const string& xml, const string& rule, double ref, bool exact, std::function<double(const World&, size_t)> f)
    {
        Cond c;
        c.name  = name + " " + rule + fmt(" %g", ref);
        c.xml   = xml;
        c.value = f;
        c.truth = [rule, ref, exact](double x) { return cmpv(rule, x, ref, exact); };
        v.push_back(c);
    };
    auto flag = [&](const string& name, const string& xml, std::function<int(const World&, size_t)> f)
    {
        Cond c;
        c.name  = name;
        c.xml   = xml;
        c.value = [f](const World& w, size_t i) { return f(w, i); };
        c.truth = [](double x) { return static_cast<int>(x); };
        v.push_back(c);
    };
    const vector<string> all6 = {"greaterThan", "lessThan", "greaterOrEqual", "lessOrEqual", "equalTo", "notEqualTo"}, two = {"greaterThan", "lessThan"};

    for (auto& r : all6)
        for (double ref : {10.0, -4.0})
            num("speed", fmt("<SpeedCondition value=\"%g\" rule=\"%s\"/>", ref, r.c_str()), r, ref, true, [](const World& w, size_t i) { return w.e[i].v; });
    for (auto& r : two)
    {
        for (double ref : {5.0, -3.0})
            num("speed long", fmt("<SpeedCondition value=\"%g\" rule=\"%s\" direction=\"longitudinal\"/>", ref, r.c_str()), r, ref, false, [](const World& w, size_t i) { return w.e[i].v; });
        num("speed vert", fmt("<SpeedCondition value=\"%g\" rule=\"%s\" direction=\"vertical\"/>", 1.0, r.c_str()), r, 1.0, false, [](const World& w, size_t i) { return w.e[i].vz; });
        num("speed lat", fmt("<SpeedCondition value=\"%g\" rule=\"%s\" direction=\"lateral\"/>", 0.5, r.c_str()), r, 0.5, false, [](const World&, size_t) { return 0.0; });
        for (double ref : {4.0, -2.0})
        {
            num("relspeed", fmt("<RelativeSpeedCondition entityRef=\"R\" value=\"%g\" rule=\"%s\"/>", ref, r.c_str()), r, ref, false, [](const World& w, size_t i) { return w.e[i].v - w.r.v; });
            num("relspeed long", fmt("<RelativeSpeedCondition entityRef=\"R\" value=\"%g\" rule=\"%s\" direction=\"longitudinal\"/>", ref, r.c_str()), r, ref, false, [](const World& w, size_t i) { return w.e[i].vx() * cos(w.r.h) + w.e[i].vy() * sin(w.r.h) - w.r.v; });
            num("relspeed lat", fmt("<RelativeSpeedCondition entityRef=\"R\" value=\"%g\" rule=\"%s\" direction=\"lateral\"/>", ref, r.c_str()), r, ref, false, [](const World& w, size_t i) { return -w.e[i].vx() * sin(w.r.h) + w.e[i].vy() * cos(w.r.h); });
        }
        num("relspeed vert", fmt("<RelativeSpeedCondition entityRef=\"R\" value=\"%g\" rule=\"%s\" direction=\"vertical\"/>", 0.5, r.c_str()), r, 0.5, false, [](const World& w, size_t i) { return w.e[i].vz - w.r.vz; });
        for (double ref : {1.0, 3.0})
        {
            num("acc", fmt("<AccelerationCondition value=\"%g\" rule=\"%s\"/>", ref, r.c_str()), r, ref, false, [](const World& w, size_t i) { double l = w.e[i].ax * cos(w.e[i].h) + w.e[i].ay * sin(w.e[i].h); return fabs(l) < 1e-6 ? NAN : (l < 0 ? -1 : 1) * hypot(w.e[i].ax, w.e[i].ay); });
            num("acc long", fmt("<AccelerationCondition value=\"%g\" rule=\"%s\" direction=\"longitudinal\"/>", ref, r.c_str()), r, ref, false, [](const World& w, size_t i) { return w.e[i].ax * cos(w.e[i].h) + w.e[i].ay * sin(w.e[i].h); });
            num("acc lat", fmt("<AccelerationCondition value=\"%g\" rule=\"%s\" direction=\"lateral\"/>", ref - 1.5, r.c_str()), r, ref - 1.5, false, [](const World& w, size_t i) { return -w.e[i].ax * sin(w.e[i].h) + w.e[i].ay * cos(w.e[i].h); });
            num("acc vert", fmt("<AccelerationCondition value=\"%g\" rule=\"%s\" direction=\"vertical\"/>", ref - 1.5, r.c_str()), r, ref - 1.5, false, [](const World& w, size_t i) { return w.e[i].az; });
        }
    }
    // distances to the reference entity and to a position
    for (auto& cs : {"entity", "road", "lane"})
        for (auto& ty : {"longitudinal", "lateral", "euclidianDistance"})
            for (int fs = 0; fs < 2; fs++)
                for (int pos = 0; pos < 2; pos++)
                    for (double ref : {0.5, 3.0, 8.0, 25.0})
                        for (auto& r : two)
                        {
                            string attr = fmt("value=\"%g\" rule=\"%s\" freespace=\"%s\" coordinateSystem=\"%s\" relativeDistanceType=\"%s\"", ref, r.c_str(), fs ? "true" : "false", cs, ty);
                            string xml  = pos ? "<DistanceCondition " + attr + "><Position>" + scn::world_pos(target.x, target.y, target.h) + "</Position></DistanceCondition>"
                                              : fmt("<RelativeDistanceCondition entityRef=\"%s\" ", trailers && (ref == 3 || ref == 25) ? "TR" : "R") + attr + "/>";  // a train is measured as a whole, whichever part is named
                            string sc = cs, st = ty;
                            num(fmt("%s %s %s %s", pos ? "dist" : "reldist", cs, ty, fs ? "freespace" : "ref"), xml, r, ref, false,
                                [=](const World& w, size_t i) -> double
                                {
                                    const Post& e = w.e[i];
                                    const Post& t = pos ? target : w.r;
                                    Poly        a = fs ? box_of(e, EB) : Poly{{e.x, e.y}};
                                    Poly        b = fs && !pos ? box_of(t, RB) : Poly{{t.x, t.y}};
                                    if (w.trailers)
                                    {
                                        if (pos || !fs || (sc == "entity" && st != "euclidianDistance"))
                                            return NAN;
                                        double best = 1e9;
                                        for (auto& p : {a, box_of(behind(e), TB)})
                                            for (auto& q : {b, box_of(behind(t), TB)})
                                                best = std::min(best, st == "euclidianDistance" ? poly_dist(p, q) : fabs(axis_gap(p, q, st == "lateral" ? M_PI / 2 : 0)));
                                        return best;
                                    }
                                    if (st == "euclidianDistance")
                                    {
                                        if (!fs)
                                            return hypot(e.x - t.x, e.y - t.y);
                                        if (!pos)
                                            return poly_dist(a, b);
                                        if (inside(a, t.x, t.y))
                                            return 0;
                                        double m = 1e9;
                                        for (size_t j = 0; j < 4; j++)
                                            m = std::min(m, seg_point(a[j].first, a[j].second, a[(j + 1) % 4].first, a[(j + 1) % 4].second, t.x, t.y));
                                        return m;
                                    }
                                    double h = (sc == "entity" ? e.h : 0) + (st == "lateral" ? M_PI / 2 : 0);
                                    return fabs(axis_gap(a, b, h));
                                });
                            if (fs && pos && sc != "entity" && st != "euclidianDistance")
                                v.back().known = [=](const World& w)
                            {
                                for (auto& e : w.e)
                                    if (axis_gap(box_of(e, EB), Poly{{target.x, target.y}}, st == "lateral" ? M_PI / 2 : 0) == 0)
                                        return true;
                                return false;
                            };
                        }
    if (trailers)
        return v;
    // time headway and time to collision, defined here for movement along one line
    auto line = [](const Post& e, const Post& t) { return fabs(e.y - t.y) < 1e-6 && fabs(sin(e.h)) < 1e-6 && fabs(sin(t.h)) < 1e-6; };
    for (int fs = 0; fs < 2; fs++)
        for (double ref : {1.0, 2.5, 6.0})
            for (auto& r : two)
            {
                string attr = fmt("value=\"%g\" rule=\"%s\" freespace=\"%s\" coordinateSystem=\"entity\" relativeDistanceType=\"longitudinal\"", ref, r.c_str(), fs ? "true" : "false");
                num(fmt("headway fs%d", fs), "<TimeHeadwayCondition entityRef=\"R\" " + attr + "/>", r, ref, false,
                    [=](const World& w, size_t i) -> double
                    {
                        const Post& e = w.e[i];
                        double      d = fs ? axis_gap(box_of(e, EB), box_of(w.r, RB), e.h) : (w.r.x - e.x) * cos(e.h) + (w.r.y - e.y) * sin(e.h);
                        return d < 0 || e.v <= 0 ? UNDEF : d / e.v;
                    });
                for (int pos = 0; pos < 2; pos++)
                    num(fmt("ttc fs%d pos%d", fs, pos),
                        "<TimeToCollisionCondition " + attr + "><TimeToCollisionConditionTarget>" + (pos ? "<Position>" + scn::world_pos(target.x, target.y, target.h) + "</Position>" : "<EntityRef entityRef=\"R\"/>") +
                            "</TimeToCollisionConditionTarget></TimeToCollisionCondition>",
                        r, ref, false,
                        [=](const World& w, size_t i) -> double
                        {
                            const Post& e = w.e[i];
                            const Post& t = pos ? target : w.r;
                            if (!line(e, t))
                                return NAN;
                            double d = fs ? axis_gap(box_of(e, EB), pos ? Poly{{t.x, t.y}} : box_of(t, RB), e.h) : (t.x - e.x) * cos(e.h);
                            double c = e.v - (pos ? 0 : t.vx() * cos(e.h));
                            return fabs(d) < 1e-6 || fabs(c) < 1e-6 || d * c < 0 ? UNDEF : d / c;
                        });
            }
    for (double tol : {1.0, 4.0, 12.0})
    {
        flag(fmt("reach %g", tol), fmt("<ReachPositionCondition tolerance=\"%g\"><Position>", tol) + scn::world_pos(target.x, target.y, target.h) + "</Position></ReachPositionCondition>",
             [=](const World& w, size_t i)
             {
                 double d = hypot(w.e[i].x - target.x, w.e[i].y - target.y);
                 return fabs(d - tol) < 1e-4 ? -1 : d < tol;
             });
        for (double h : {0.0, 0.3, 3.1415926535897931, 6.2})
            flag(fmt("reach %g h%g", tol, h),
                 fmt("<ReachPositionCondition tolerance=\"%g\"><Position><LanePosition roadId=\"1\" laneId=\"-1\" s=\"%.17g\" offset=\"%.17g\"><Orientation type=\"absolute\" h=\"%.17g\"/></LanePosition></Position></ReachPositionCondition>", tol, target.x,
                     target.y + 1.75, h),
                 [=](const World& w, size_t i)
                 {
                     double d = hypot(w.e[i].x - target.x, w.e[i].y - target.y), a = fabs(ang(w.e[i].h - h));
                     return fabs(d - tol) < 1e-4 || (a > 0.04 && a < 0.06) ? -1 : d < tol && a < 0.05;  // angular tolerance 0.05 rad
                 });
    }
    flag("collision R", "<CollisionCondition><EntityRef entityRef=\"R\"/></CollisionCondition>",
         [=](const World& w, size_t i)
         {
             if (fabs(w.e[i].z - w.r.z) > 5)
                 return 0;
             Poly   a = box_of(w.e[i], EB), b = box_of(w.r, RB);
             double d = poly_dist(a, b);
             return d > 0 && d < 1e-3 ? -1 : d == 0;
         });
    flag("collision type", "<CollisionCondition><ByType type=\"vehicle\"/></CollisionCondition>",
         [=](const World& w, size_t i)
         {
             bool hit = false;
             for (size_t j = 0; j <= w.e.size(); j++)
                 if (j != i && fabs(w.e[i].z - (j < w.e.size() ? w.e[j] : w.r).z) < 5)
                 {
                     double d = poly_dist(box_of(w.e[i], EB), j < w.e.size() ? box_of(w.e[j], EB) : box_of(w.r, RB));
                     if (d > 0 && d < 1e-3)
                         return -1;
                     hit = hit || d == 0;
                 }
             return hit ? 1 : 0;
         });
    flag("collision ped", "<CollisionCondition><ByType type=\"pedestrian\"/></CollisionCondition>", [=](const World&, size_t) { return 0; });
    for (auto& cs : {"world", "road", "lane"})
        for (double a : {0.0, 0.3, 3.1, -1.5})
            for (double tol : {0.1, 0.7})
            {
                string s = cs;
                flag(fmt("angle %s %g %g", cs, a, tol), fmt("<AngleCondition angle=\"%g\" angleTolerance=\"%g\" angleType=\"heading\" coordinateSystem=\"%s\"/>", a, tol, cs),
                     [=](const World& w, size_t i)
                     {
                         double h = w.e[i].h - (s == "lane" && w.e[i].y > 0 ? M_PI : 0);
                         double d = fabs(ang(h - a));
                         return fabs(d - tol) < 1e-4 || fabs(w.e[i].y) < 1e-3 ? -1 : d < tol;
                     });
            }
    // relative clearance: entities driving along the road on its right side
    for (int fs = 0; fs < 2; fs++)
        for (int only_r = 0; only_r < 3; only_r++)
            for (int opp = 0; opp < 2; opp++)
                for (auto& fb : vector<std::pair<double, double>>{{10, 5}, {30, 0}, {0, 25}})
                    for (auto& lr : vector<std::pair<int, int>>{{0, 0}, {-1, 0}, {1, 1}, {-1, 1}})
                        flag(fmt("clearance fs%d only%d opp%d f%g b%g lanes %d %d", fs, only_r, opp, fb.first, fb.second, lr.first, lr.second),
                             fmt("<RelativeClearanceCondition distanceForward=\"%g\" distanceBackward=\"%g\" freeSpace=\"%s\" oppositeLanes=\"%s\"><RelativeLaneRange from=\"%d\" to=\"%d\"/>%s</RelativeClearanceCondition>", fb.first, fb.second,
                                 fs ? "true" : "false", opp ? "true" : "false", lr.first, lr.second, only_r == 2 ? "<EntityRef entityRef=\"E0\"/><EntityRef entityRef=\"R\"/>" : only_r ? "<EntityRef entityRef=\"R\"/>" : ""),
                             [=](const World& w, size_t i)
                             {
                                 const Post& e = w.e[i];
                                 auto straight = [](const Post& p) { return fabs(sin(p.h)) < 1e-6 && (fabs(fabs(p.y) - 1.75) < 0.3 || fabs(fabs(p.y) - 5.25) < 0.3); };
                                 if (!straight(e) || e.y > 0 || cos(e.h) < 0)
                                     return -1;
                                 for (size_t j = only_r == 1 ? w.e.size() : 0; j <= w.e.size(); j++)
                                 {
                                     if (j == i || (only_r == 2 && j > 0 && j < w.e.size()))
                                         continue;
                                     const Post& o = j < w.e.size() ? w.e[j] : w.r;
                                     const Box&  b = j < w.e.size() ? EB : RB;
                                     if (!straight(o))
                                         return -1;
                                     double d = fs ? axis_gap(box_of(e, EB), box_of(o, b), 0) : o.x - e.x;
                                     if (fabs(d - fb.first) < 1e-4 || fabs(d + fb.second) < 1e-4)
                                         return -1;
                                     if (d > fb.first || d < -fb.second)
                                         continue;
                                     int la = lane_of(e.y), lb = lane_of(o.y), dl = lb - la;
                                     if (la * lb < 0)
                                     {
                                         if (opp == 0)
                                             continue;
                                         dl -= 1;  // from the right to the left side: no lane 0 in between
                                     }
                                     if (dl >= lr.first && dl <= lr.second)
                                         return 0;
                                 }
                                 for (int l : {-2, -1, 1, 2})
                                 {
                                     if (l > 0 && !opp)
                                         continue;
                                     int dl = l - lane_of(e.y) - (l > 0 ? 1 : 0);
                                     if (l > 0)
                                         return -1;  // existence of lanes on the other side: left open
                                     if (dl >= lr.first && dl <= lr.second)
                                         return 1;
                                 }
                                 return 0;
                             });
    return v;
}

static std::map<string, int>& fired()
{
    static std::map<string, int> m;
    return m;
}
static void on_state(const char* name, int, int state, const char*)
{
    if (state == 2 && name[0] == 'k')
        fired()[name]++;
}

static void on_decl(void*)
{
    SE_RegisterStoryBoardElementStateChangeCallback(on_state);
}

static string setvar(const string& name, const string& trig, int max = 1000)
{
    return fmt("<Event name=\"%s\" priority=\"parallel\" maximumExecutionCount=\"%d\"><Action name=\"a_%s\"><GlobalAction><VariableAction variableRef=\"dummy\"><SetAction value=\"1\"/></VariableAction></GlobalAction></Action>", name.c_str(), max,
               name.c_str()) +
           trig + "</Event>";
}

struct Run
{
    string       name;
    vector<Cond> conds;
    vector<Post> posts;  // choices
    int          ents  = 1;
    int          depth = 1;
    Post         ref{};
    bool         trailers = false;
    bool         heights  = false;
};

static void apply_post(int id, const Post& p, bool heights = false)
{
    if (heights)
        SE_ReportObjectPos(id, p.x, p.y, p.z, p.h, 0, 0);
    else
        SE_ReportObjectPosXYH(id, p.x, p.y, p.h);
    SE_ReportObjectVel(id, p.vx(), p.vy(), p.vz);
    SE_ReportObjectSpeed(id, p.v);
    SE_ReportObjectAcc(id, p.ax, p.ay, p.az);
}

static void check(const Run& c)
{
    scn::Tree tree;
    int       n = 1;
    for (int i = 0; i < c.ents; i++)
        n *= static_cast<int>(c.posts.size());
    tree.n     = n;
    tree.depth = c.depth;
    tree.show  = [](vector<int> p)
    {
        string s;
        for (int i : p)
            s += fmt("/%d", i);
        return s;
    };
    string doc, trace;
    tree.apply = [&](int in) -> bool
    {
        World w;
        w.r   = c.ref;
        int k = in;
        for (int i = 0; i < c.ents; i++, k /= static_cast<int>(c.posts.size()))
            w.e.push_back(c.posts[static_cast<size_t>(k) % c.posts.size()]);
        for (int i = 0; i < c.ents; i++)
            apply_post(SE_GetIdByName(fmt("E%d", i).c_str()), w.e[static_cast<size_t>(i)], c.heights);
        apply_post(SE_GetIdByName("R"), w.r, c.heights);
        w.trailers = c.trailers;
        if (c.trailers)
        {
            apply_post(SE_GetIdByName("TE"), behind(w.e[0]));
            apply_post(SE_GetIdByName("TR"), behind(w.r));
        }
        fired().clear();
        if (SE_StepDT(DT) != 0)
        {
            vf::violation(c.name + "@step", "step failed", doc);
            return false;
        }
        string st;
        bool   ok = true;
        for (size_t q = 0; q < c.conds.size(); q++)
        {
            const Cond& cd   = c.conds[q];
            int         want = cd.all ? 1 : 0;
            bool        open = false;
            string      per;
            for (size_t i : cd.ents)
            {
                double v = cd.value(w, i);
                int    t = std::isnan(v) ? -1 : cd.truth(v);
                per += fmt("%s%d(%g)", i ? " " : "", t, v);
                if (t < 0)
                    open = true;
                else if (cd.all ? !t : t)
                    want = t;
                // a decided entity settles the whole, whatever an open one would say
            }
            bool settled = cd.all ? want == 0 : want == 1;
            bool got     = fired().count(fmt("k%zu", q)) != 0;
            st += got ? '1' : '0';
            if (open && !settled)
                continue;
            vf::cmp();
            if (got != (want != 0))
            {
                string ps;
                for (auto& p : w.e)
                    ps += fmt("[x %g y %g h %g v %g] ", p.x, p.y, p.h, p.v);
                string key = cd.known ? "point-freespace-road-overlap" : c.name + "@" + cd.name + (cd.all ? " all" : " any");
                if (cd.known && !cd.known(w))
                    key = c.name + "@" + cd.name + (cd.all ? " all" : " any");
                bool listed = vf::violation(key,
                              fmt("%s %s %s %s: expected %d, the condition says %d; entities %s ref [x %g y %g h %g v %g]; per entity %s", c.name.c_str(), tree.path_str().c_str(), cd.name.c_str(), cd.all ? "all" : "any", want, got, ps.c_str(), w.r.x,
                                  w.r.y, w.r.h, w.r.v, per.c_str()),
                              cd.xml);
                ok = ok && listed;
            }
        }
        vf::state(c.name + st);
        trace += st;
        return ok;
    };
    tree.leaf = [&]()
    {
        vf::outcome(c.name + trace);
        if (vf::fnv(c.name + trace) % 400 == 1)
            vf::sample(c.name + " " + tree.path_str() + " conditions " + trace.substr(0, 200));
    };
    tree.run(
        [&]() -> bool
        {
            scn::write_file("r.xodr", scn::odr(scn::straight_road(400, 2, 2)));
            char cwd[400];
            if (!getcwd(cwd, sizeof(cwd)))
                return false;
            string ents, init, events;
            for (int i = 0; i <= c.ents; i++)
            {
                string   nm = i < c.ents ? fmt("E%d", i) : "R";
                Box      b  = i < c.ents ? EB : RB;
                if (c.trailers)
                {
                    string t  = i < c.ents ? "TE" : "TR";
                    string tv = scn::vehicle(t, TB.len, TB.wid, TB.cx);
                    tv.replace(tv.find("y=\"0\""), 5, fmt("y=\"%.17g\"", TB.cy));
                    tv.replace(tv.find("<Properties/>"), 13, "<Properties/><TrailerCoupler dx=\"4.5\"/>");
                    ents += tv;
                }
                string vx = scn::vehicle(nm, b.len, b.wid, b.cx);
                vx.replace(vx.find("y=\"0\""), 5, fmt("y=\"%.17g\"", b.cy));
                if (c.trailers)
                    vx.replace(vx.find("<Properties/>"), 13, fmt("<Properties/><TrailerHitch dx=\"-1\"/><Trailer><TrailerRef entityRef=\"%s\"/></Trailer>", i < c.ents ? "TE" : "TR"));
                ents += vx;
                init += scn::init_private(nm, {scn::teleport(scn::lane_pos(1, -1, 200 + 20 * i)), scn::speed_action(7)});
            }
            for (size_t q = 0; q < c.conds.size(); q++)
            {
                string te = fmt("<TriggeringEntities triggeringEntitiesRule=\"%s\">", c.conds[q].all ? "all" : "any");
                for (size_t i : c.conds[q].ents)
                    te += fmt("<EntityRef entityRef=\"E%zu\"/>", i);
                events += setvar(fmt("k%zu", q),
                                 scn::trigger("StartTrigger", fmt("<Condition name=\"c%zu\" delay=\"0\" conditionEdge=\"none\"><ByEntityCondition>", q) + te + "</TriggeringEntities><EntityCondition>" + c.conds[q].xml +
                                                                  "</EntityCondition></ByEntityCondition></Condition>"));
            }
            doc = scn::xosc(string(cwd) + "/r.xodr", ents, init,
                            "<Story name=\"s\"><Act name=\"act\"><ManeuverGroup name=\"mg\" maximumExecutionCount=\"1\"><Actors selectTriggeringEntities=\"false\"/><Maneuver name=\"m\">" + events + "</Maneuver></ManeuverGroup></Act></Story>",
                            "<StopTrigger/>", scn::var_decl("dummy", "integer", "0"));
            SE_RegisterParameterDeclarationCallback(on_decl, nullptr);
            if (!scn::load(doc))
            {
                vf::violation(c.name + "@load", "valid scenario rejected", doc);
                return false;
            }
            // leave the initial frame behind; the reported posture of one step stays until the next
            return true;
        });
}

// ------------------------------------------------------------------------------------------------ durations and travelled distance
// kind 0 stand still, 1 off road, 2 end of road, 3 travelled distance
static void check_hist(const string& name, int kind, int depth, int first)
{
    scn::Tree tree;
    tree.n     = 1;
    tree.depth = depth;
    struct H
    {
        int    all;
        double lim;
    };
    vector<H> conds;
    for (int all = 0; all < 2; all++)
        for (double d : kind == 3 ? vector<double>{0.1, 0.7, 1.3, 2.1} : kind == 2 ? vector<double>{0.0, 0.06, 0.2, 0.3} : vector<double>{0.06, 0.2, 0.3})
            conds.push_back({all, d});
    string         doc, trace;
    vector<double> since(3, -1), odo(3, 0), x(3, 200);
    vector<bool>   end(3, false);
    int            frame = 0;
    const char*    el[]  = {"StandStillCondition duration", "OffroadCondition duration", "EndOfRoadCondition duration", "TraveledDistanceCondition value"};
    tree.apply = [&](int in) -> bool
    {
        if (frame == 0)
            in = first;  // split over the first input
        double t = frame * DT;  // conditions are judged at the time before the step
        frame++;
        fired().clear();
        vector<double> was = since, wodo = odo;
        for (int i = 0, k = in; i < 3; i++)
        {
            size_t u = static_cast<size_t>(i);
            int    b = kind >= 2 ? k % 3 : k % 2;
            k /= kind >= 2 ? 3 : 2;
            if (kind == 2 && i == 2)
                b = in % 3;  // as the first one, from further back
            bool on = false;
            if (kind == 0)
            {
                SE_ReportObjectPosXYH(i, 100 + 10 * i, -1.75, 0);
                SE_ReportObjectSpeed(i, b ? 0 : 5);
                on = b;
            }
            else if (kind == 1)
            {
                SE_ReportObjectPosXYH(i, 100 + 10 * i, b ? -20 : -1.75, 0);
                on = b;
            }
            else if (kind == 2)
            {
                double sp = b == 0 ? 0 : b == 1 ? 6 : -4.4;  // stay, ahead, back
                SE_ReportObjectSpeed(i, sp);
                if (b == 1 && x[u] + sp * DT > 400)
                    end[u] = true;
                else if (b)
                    end[u] = false;
                x[u] = std::min(400.0, x[u] + sp * DT);
                on   = end[u];
            }
            else
            {
                double sp = b == 0 ? 0 : b == 1 ? 4 : -6;
                SE_ReportObjectSpeed(i, sp);
                odo[u] += fabs(sp) * DT;
            }
            if (!on)
                since[u] = -1;
            else if (since[u] < 0)
                since[u] = frame * DT;
        }
        if (SE_StepDT(DT) != 0)
        {
            vf::violation(name + "@step", "step failed", doc);
            return false;
        }
        string st;
        for (size_t q = 0; q < conds.size(); q++)
        {
            int want = conds[q].all ? 1 : 0;
            for (size_t i = 0; i < 3; i++)
            {
                bool tr = kind == 3 ? wodo[i] > conds[q].lim : was[i] >= 0 && t - was[i] > conds[q].lim - 1e-9;
                if (conds[q].all ? !tr : tr)
                    want = tr;
            }
            int got = fired().count(fmt("k%zu", q)) != 0;
            st += got ? '1' : '0';
            vf::cmp();
            if (got != want)
            {
                vf::violation(name + "@" + fmt("%s %g", conds[q].all ? "all" : "any", conds[q].lim), fmt("%s inputs %s limit %g %s: expected %d, the condition says %d (t=%g since %g %g %g)", name.c_str(), tree.path_str().c_str(), conds[q].lim,
                              conds[q].all ? "all" : "any", want, got, t, was[0], was[1], was[2]), doc);
                return false;
            }
        }
        vf::state(name + st);
        trace += st;
        tree.n = kind == 3 ? 27 : kind == 2 ? 9 : 8;
        return true;
    };
    tree.show = [](vector<int> p)
    {
        string s;
        for (int i : p)
            s += fmt("/%d", i);
        return s;
    };
    tree.leaf = [&]() { vf::outcome(name + trace); };
    tree.run(
        [&]() -> bool
        {
            scn::write_file("r.xodr", scn::odr(scn::straight_road(400, 2, 2)));
            char cwd[400];
            if (!getcwd(cwd, sizeof(cwd)))
                return false;
            string ents, init, events;
            for (int i = 0; i < 3; i++)
            {
                string nm = fmt("E%d", i);
                ents += scn::vehicle(nm, 4, 1.8, 1.3);
                x[static_cast<size_t>(i)] = kind == 2 ? 399.5 - 0.6 * i : 100 + 20 * i;
                init += scn::init_private(nm, {scn::teleport(scn::lane_pos(1, -1, x[static_cast<size_t>(i)])), scn::speed_action(kind == 2 ? 0 : 7)});
            }
            for (size_t q = 0; q < conds.size(); q++)
                events += setvar(fmt("k%zu", q), scn::trigger("StartTrigger", fmt("<Condition name=\"c%zu\" delay=\"0\" conditionEdge=\"none\"><ByEntityCondition><TriggeringEntities triggeringEntitiesRule=\"%s\"><EntityRef entityRef=\"E0\"/><EntityRef "
                                                                                  "entityRef=\"E1\"/><EntityRef entityRef=\"E2\"/></TriggeringEntities><EntityCondition><%s=\"%g\"/></EntityCondition></ByEntityCondition></Condition>",
                                                                                  q, conds[q].all ? "all" : "any", el[kind], conds[q].lim)));
            doc = scn::xosc(string(cwd) + "/r.xodr", ents, init,
                            "<Story name=\"s\"><Act name=\"act\"><ManeuverGroup name=\"mg\" maximumExecutionCount=\"1\"><Actors selectTriggeringEntities=\"false\"/><Maneuver name=\"m\">" + events + "</Maneuver></ManeuverGroup></Act></Story>",
                            "<StopTrigger/>", scn::var_decl("dummy", "integer", "0"));
            SE_RegisterParameterDeclarationCallback(on_decl, nullptr);
            if (!scn::load(doc))
            {
                vf::violation(name + "@load", "valid scenario rejected", doc);
                return false;
            }
            return true;
        });
}

int main(int argc, char** argv)
{
    vf::init(argc, argv, "C06");
    std::vector<vf::Case> cases;
    bool                  deep_ = vf::C().thorough();
    const Post            target{103, -1.75, 0, 0};
    vector<Post>          refs = {{100, -1.75, 0, 6}, {100, -1.75, 0, 0}, {100, -5.25, M_PI, 3, 1.5}, {100, 1.75, M_PI, 8}, {100, -1.75, 0.4, 5}};
    // one entity: all postures of a grid
    for (size_t ri = 0; ri < refs.size(); ri++)
    {
        vector<double> ys = deep_ ? vector<double>{-14, -5.25, -4, -3.4, -1.75, -0.5, 1.75, 5.25} : vector<double>{-14, -5.25, -3.4, -1.75, 1.75};
        vector<double> hs = deep_ ? vector<double>{0, 0.35, M_PI / 2, 2.9, M_PI, 4.5, 6.25} : vector<double>{0, 0.35, 2.9, M_PI, 6.25};
        for (double y : ys)
            for (double h : hs)
            {
                Run r;
                r.name = fmt("grid ref%zu y%g h%g", ri, y, h);
                r.ref  = refs[ri];
                for (double x : {60.0, 84.0, 96.0, 99.5, 101.5, 105.5, 122.0})
                    for (double v : {-4.0, 0.0, 10.0, 14.0})
                    {
                        Post p{x, y, h, v};
                        p.vz = v > 5 ? 2 : 0;
                        p.ax = v == 10 ? 2 : v == 14 ? -4 : 0;
                        p.ay = x < 90 ? 1 : -1;
                        p.az = x > 101 ? 1 : -1;
                        r.posts.push_back(p);
                    }
                r.conds = conditions(target);
                for (auto& k : r.conds)
                    k.ents = {0};
                cases.push_back({r.name, [r]() { check(r); }});
            }
    }
    // entities with trailers
    for (double y : {-5.25, -1.75, 1.75})
        for (double h : {0.0, 0.35, M_PI})
            for (size_t ri : {0u, 2u, 4u})
            {
                Run r;
                r.name     = fmt("trailers ref%zu y%g h%g", ri, y, h);
                r.ref      = refs[ri];
                r.trailers = true;
                for (double x : {60.0, 88.0, 92.5, 96.0, 99.5, 101.5, 104.0, 107.5, 110.0, 112.5, 122.0})
                    r.posts.push_back({x, y, h, 5});
                r.conds = conditions(target, true);
                for (auto& k : r.conds)
                    k.ents = {0};
                cases.push_back({r.name, [r]() { check(r); }});
            }
    // entities above and below each other
    {
        Run r;
        r.name    = "heights";
        r.ref     = {100, -1.75, 0, 3};
        r.heights = true;
        r.ents    = 2;
        for (double z : {0.0, 8.0, -8.0})
            for (double x : {98.0, 101.0, 120.0})
            {
                Post p{x, -1.75, 0, 3};
                p.z = z;
                r.posts.push_back(p);
            }
        for (auto& k : conditions(target))
            if (k.name.find("collision") == 0)
                for (int all = 0; all < 2; all++)
                {
                    Cond q = k;
                    q.all  = all;
                    q.ents = {0, 1};
                    r.conds.push_back(q);
                }
        cases.push_back({r.name, [r]() { check(r); }});
    }
    // three entities, any and all
    vector<vector<Post>> fam = {
        {{84, -1.75, 0, 10}, {96, -5.25, 0, -4}, {101.5, -1.75, 0, 0}, {122, 1.75, M_PI, 14}},
        {{60, -1.75, 0, 14}, {101, -5.25, 0.3, 10}, {112, -1.75, 0, 3}, {103, -1.75, 6.25, 10}},
        {{90, -1.75, 0, 8}, {90, -5.25, 0, 8}, {130, -1.75, M_PI, 10}, {97, 1.75, 3.3, 0}},
        {{70, -5.25, 0, 12}, {96, -1.75, 0.2, 5}, {104, -1.75, 3.1, 10}, {125, -5.25, 0, 4}}};
    for (size_t fi = 0; fi < fam.size(); fi++)
        for (size_t ri = 0; ri < refs.size(); ri++)
            for (int all = 0; all < 2; all++)
            {
                Run r;
                r.name  = fmt("family%zu ref%zu %s", fi, ri, all ? "all" : "any");
                r.ref   = refs[ri];
                r.posts = fam[fi];
                for (size_t i = 0; i < r.posts.size(); i++)
                {
                    r.posts[i].vz = i == 1 ? 2 : 0;
                    r.posts[i].ax = i == 2 ? 4 : 0.5;
                    r.posts[i].ay = i == 3 ? -2 : 1;
                    r.posts[i].az = i == 0 ? 1 : -1;
                }
                r.ents  = 3;
                r.depth = deep_ && ri == fi % refs.size() ? 2 : 1;
                r.conds = conditions(target);
                for (auto& k : r.conds)
                {
                    k.all  = all;
                    k.ents = {0, 1, 2};
                }
                if (deep_ && r.depth == 2)
                    r.posts.pop_back();
                cases.push_back({r.name, [r]() { check(r); }});
            }
    for (int kind = 0; kind < 4; kind++)
    {
        for (int first = 0; first < (kind == 3 ? 27 : kind == 2 ? 9 : 8); first++)
        {
        string n = fmt("history %d %s", first, kind == 0 ? "standstill" : kind == 1 ? "offroad" : kind == 2 ? "endofroad" : "travelled");
        cases.push_back({n, [=]() { check_hist(n, kind, kind == 3 ? (deep_ ? 4 : 3) : (deep_ ? 6 : 4), first); }});
        }
    }
    vf::run(cases, 400);
    return vf::finish("about 300 entity conditions (speed, relative speed, acceleration, distance, relative distance, headway, time to collision, reach position, collision, angle, relative clearance; all rules, directions, coordinate systems) "
                      "evaluated at once on every posture of a grid against 5 reference postures; any/all of 3 entities over every assignment of 4 postures in 4 families; stand still, off road, end of road and travelled distance over all histories of 3 entities",
                      {"one straight road", "values within 1e-4 of a limit are left open", "time to collision is decided for movement along one line"});
}
