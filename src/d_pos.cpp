// C26: positions given in a scenario. Every position element x every previous position x every pose of the reference entity, compared with the road description.
#include "net.hpp"
#include "scn.hpp"
#include <memory>
#include <set>
using namespace ref;

struct Mat
{
    double m[3][3];
};
static Mat rot(double h, double p, double r)
{
    double ch = cos(h), sh = sin(h), cp = cos(p), sp = sin(p), cr = cos(r), sr = sin(r);
    return {{{ch * cp, ch * sp * sr - sh * cr, ch * sp * cr + sh * sr}, {sh * cp, sh * sp * sr + ch * cr, sh * sp * cr - ch * sr}, {-sp, cp * sr, cp * cr}}};
}
static Mat mul(const Mat& a, const Mat& b)
{
    Mat o;
    for (int i = 0; i < 3; i++)
        for (int j = 0; j < 3; j++)
            o.m[i][j] = a.m[i][0] * b.m[0][j] + a.m[i][1] * b.m[1][j] + a.m[i][2] * b.m[2][j];
    return o;
}
static double matdiff(const Mat& a, const Mat& b)
{
    double d = 0;
    for (int i = 0; i < 3; i++)
        for (int j = 0; j < 3; j++)
            d = std::max(d, fabs(a.m[i][j] - b.m[i][j]));
    return d;
}

// orientation element: which angles are given
struct Ori
{
    int    kind = 0;  // 0 none, 1 relative, 2 absolute
    bool   hs = false, ps = false, rs = false;
    double h = 0, p = 0, r = 0;
    string xml() const
    {
        if (!kind)
            return "";
        string t = fmt("<Orientation type=\"%s\"", kind == 1 ? "relative" : "absolute");
        if (hs)
            t += fmt(" h=\"%.17g\"", h);
        if (ps)
            t += fmt(" p=\"%.17g\"", p);
        if (rs)
            t += fmt(" r=\"%.17g\"", r);
        return t + "/>";
    }
    string str() const
    {
        string t = kind == 0 ? "none" : kind == 1 ? "rel" : "abs";
        if (hs)
            t += fmt(" h=%g", h);
        if (ps)
            t += fmt(" p=%g", p);
        if (rs)
            t += fmt(" r=%g", r);
        return t;
    }
};
static Ori ori(int kind, double h, bool hs = true, double p = 0, bool ps = false, double r = 0, bool rs = false)
{
    Ori o;
    o.kind = kind;
    o.h    = hs ? h : 0;
    o.hs   = hs;
    o.p    = ps ? p : 0;
    o.ps   = ps;
    o.r    = rs ? r : 0;
    o.rs   = rs;
    return o;
}

struct Pos
{
    enum Type
    {
        WORLD,
        LANE,
        ROAD,
        RELWORLD,
        RELOBJ,
        RELLANE,
        RELROAD,
        TRAJ
    } type;
    double x = 0, y = 0, z = 0;  // or dx, dy, dz
    bool   zs   = false;
    int    road = 0, lane = 0;   // or dLane
    double s = 0, t = 0;         // or ds, dt / offset
    bool   along = false;        // dsLane
    Ori    o;
    bool   relative() const
    {
        return type >= RELWORLD && type <= RELROAD;
    }
    string xml() const
    {
        string zz = zs ? fmt(" %s=\"%.17g\"", type == WORLD ? "z" : "dz", z) : string("");
        switch (type)
        {
            case WORLD:
            {
                string t = fmt("<WorldPosition x=\"%.17g\" y=\"%.17g\"", x, y) + zz;
                if (o.hs)
                    t += fmt(" h=\"%.17g\"", o.h);
                if (o.ps)
                    t += fmt(" p=\"%.17g\"", o.p);
                if (o.rs)
                    t += fmt(" r=\"%.17g\"", o.r);
                return t + "/>";
            }
            case LANE:
                return fmt("<LanePosition roadId=\"%d\" laneId=\"%d\" s=\"%.17g\"", road, lane, s) + (t != 0 ? fmt(" offset=\"%.17g\"", t) : string("")) + ">" + o.xml() + "</LanePosition>";
            case ROAD:
                return fmt("<RoadPosition roadId=\"%d\" s=\"%.17g\" t=\"%.17g\">", road, s, t) + o.xml() + "</RoadPosition>";
            case RELWORLD:
                return fmt("<RelativeWorldPosition entityRef=\"R\" dx=\"%.17g\" dy=\"%.17g\"", x, y) + zz + ">" + o.xml() + "</RelativeWorldPosition>";
            case RELOBJ:
                return fmt("<RelativeObjectPosition entityRef=\"R\" dx=\"%.17g\" dy=\"%.17g\"", x, y) + zz + ">" + o.xml() + "</RelativeObjectPosition>";
            case RELLANE:
                return fmt("<RelativeLanePosition entityRef=\"R\" dLane=\"%d\" %s=\"%.17g\" offset=\"%.17g\">", lane, along ? "dsLane" : "ds", s, t) + o.xml() + "</RelativeLanePosition>";
            case RELROAD:
                return fmt("<RelativeRoadPosition entityRef=\"R\" ds=\"%.17g\" dt=\"%.17g\">", s, t) + o.xml() + "</RelativeRoadPosition>";
            case TRAJ:
                return "<TrajectoryPosition " + fmt("s=\"%.17g\" t=\"%.17g\"", s, t) +
                       "><TrajectoryRef><Trajectory name=\"T\" closed=\"false\"><ParameterDeclarations/><Shape><Polyline>"
                       "<Vertex time=\"0\"><Position><WorldPosition x=\"10\" y=\"5\" /></Position></Vertex>"
                       "<Vertex time=\"1\"><Position><WorldPosition x=\"40\" y=\"5\" /></Position></Vertex>"
                       "<Vertex time=\"2\"><Position><WorldPosition x=\"40\" y=\"45\" /></Position></Vertex>"
                       "</Polyline></Shape></Trajectory></TrajectoryRef></TrajectoryPosition>";
        }
        return "";
    }
    string str() const
    {
        static const char* N[] = {"World", "Lane", "Road", "RelativeWorld", "RelativeObject", "RelativeLane", "RelativeRoad", "Trajectory"};
        string             t   = N[type];
        switch (type)
        {
            case WORLD:
            case RELWORLD:
            case RELOBJ:
                t += fmt("(%g %g", x, y) + (zs ? fmt(" %g", z) : string(""));
                break;
            case LANE:
                t += fmt("(%d %d %g %g", road, lane, s, this->t);
                break;
            case ROAD:
                t += fmt("(%d %g %g", road, s, this->t);
                break;
            case RELLANE:
                t += fmt("(dLane %d %s %g offset %g", lane, along ? "dsLane" : "ds", s, this->t);
                break;
            default:
                t += fmt("(%g %g", s, this->t);
        }
        return t + "; " + o.str() + ")";
    }
};

struct RefPose
{
    int    road, lane;
    double s, off;
    double dh, dp, dr;  // relative to the lane's driving direction
};

struct Want
{
    bool   xy = false, lanes = false, onsurf = false, zs = false;
    double x = 0, y = 0, z = 0;
    int    road = 0, lane = 0;
    double s = 0, t = 0;
    int    om = 0;  // orientation: 0 open, 1 matrix M, 2 heading h and aligned with the surface, 3 aligned with the surface and the road's direction (either way)
    Mat    M;
    double h = 0;
    bool   skip = false;
};

struct Net
{
    Network         n;
    vector<RefPose> poses;
    vector<Pos>     ps;
    bool            sloped = false, rev2 = false;
};

static int drive(const Road& r, int lane)  // driving direction of a lane relative to the road
{
    return (lane <= 0) != r.lht ? 1 : -1;
}
static int step_lane(int lane, int d)  // lanes counted without the centre lane
{
    int sg = d > 0 ? 1 : -1;
    for (int i = 0; i < abs(d); i++)
    {
        lane += sg;
        if (lane == 0)
            lane += sg;
    }
    return lane;
}

static Want want(const Net& N, const Pos& p, const RefPose& q)
{
    Want        w;
    const Network& n = N.n;
    auto        surf = [&](int road, double s, double t) { return n.road(road).at(s, t); };
    auto        on   = [&](int road, int lane, double s, double t, bool lanes)
    {
        Pose a   = surf(road, s, t);
        w.xy     = true;
        w.x      = a.x;
        w.y      = a.y;
        w.zs     = true;
        w.z      = a.z;
        w.road   = road;
        w.lane   = lane;
        w.s      = s;
        w.t      = t;
        w.lanes  = lanes;
        w.onsurf = true;
    };
    // orientation relative to the road, turned by base
    auto orient = [&](const Ori& o, int road, double s, double base)
    {
        Pose a = surf(road, s, 0);
        if (o.kind == 2 && o.hs && o.ps && o.rs)
        {
            w.om = 1;
            w.M  = rot(o.h, o.p, o.r);
        }
        else if (o.kind == 2 && o.hs && !o.ps && !o.rs)
        {
            w.om = 2;
            w.h  = o.h;
            w.M  = rot(a.h, a.p, a.r);
        }
        else if (o.kind == 2)
            w.om = 0;
        else if (o.kind == 1 && base != 0 && (o.ps || o.rs) && N.sloped)
            w.om = 0;
        else
        {
            w.om = 1;
            w.M  = mul(rot(a.h, a.p, a.r), rot(o.h + base, o.p, o.r));
        }
    };
    // the reference
    const Road& rr = n.road(q.road);
    double      rt = rr.lane_t(q.s, q.lane, q.off);
    Pose        ra = rr.at(q.s, rt);
    Mat         RM = mul(rot(ra.h, ra.p, ra.r), rot(q.dh + (drive(rr, q.lane) < 0 ? M_PI : 0), q.dp, q.dr));
    double      rh = atan2(RM.m[1][0], RM.m[0][0]), rp = asin(-RM.m[2][0]), r3 = atan2(RM.m[2][1], RM.m[2][2]);
    switch (p.type)
    {
        case Pos::WORLD:
            w.xy = true;
            w.x  = p.x;
            w.y  = p.y;
            w.zs = p.zs;
            w.z  = p.z;
            w.onsurf = !p.zs;
            if (p.o.hs && p.o.ps && p.o.rs)
            {
                w.om = 1;
                w.M  = rot(p.o.h, p.o.p, p.o.r);
            }
            else if (!p.o.ps && !p.o.rs)
            {
                w.om = p.o.hs ? 2 : 3;
                w.h  = p.o.h;
                w.M.m[0][0] = 9;  // of the road it ends up on
            }
            break;
        case Pos::LANE:
        {
            const Road& r = n.road(p.road);
            on(p.road, p.lane, p.s, r.lane_t(p.s, p.lane, p.t), true);
            orient(p.o, p.road, p.s, drive(r, p.lane) < 0 ? M_PI : 0);
            break;
        }
        case Pos::ROAD:
            on(p.road, 0, p.s, p.t, false);
            orient(p.o, p.road, p.s, 0);
            break;
        case Pos::RELWORLD:
        case Pos::RELOBJ:
        {
            double dx = p.x, dy = p.y, dz = p.zs ? p.z : 0;
            if (p.type == Pos::RELOBJ)
            {
                dx = RM.m[0][0] * p.x + RM.m[0][1] * p.y + RM.m[0][2] * (p.zs ? p.z : 0);
                dy = RM.m[1][0] * p.x + RM.m[1][1] * p.y + RM.m[1][2] * (p.zs ? p.z : 0);
                dz = RM.m[2][0] * p.x + RM.m[2][1] * p.y + RM.m[2][2] * (p.zs ? p.z : 0);
            }
            w.xy     = true;
            w.x      = ra.x + dx;
            w.y      = ra.y + dy;
            w.zs     = p.zs;
            w.z      = ra.z + dz;
            w.onsurf = !p.zs;
            if (p.o.kind == 2)
            {
                w.om = p.o.hs && p.o.ps && p.o.rs ? 1 : 0;
                w.M  = rot(p.o.h, p.o.p, p.o.r);
                if (!w.om && p.o.hs)
                {
                    w.om = 1;
                    w.M  = rot(p.o.h, rp, r3);
                }
            }
            else
            {
                w.om = 1;
                w.M  = rot(rh + p.o.h, rp + p.o.p, r3 + p.o.r);
            }
            break;
        }
        case Pos::RELLANE:
        case Pos::RELROAD:
        {
            WPos a;
            a.road  = q.road;
            a.lane  = q.lane;
            a.s     = q.s;
            a.off   = q.off;
            a.h     = 0;
            int dir = p.along ? drive(rr, q.lane) : 1;
            a.dir   = p.s * dir >= 0 ? 1 : -1;
            vector<WPos> o;
            n.go(a, p.s * dir, -1, rr.curvature(q.s), o, 0);
            if (o.size() != 1 || o[0].rc || o[0].undecided || o[0].off_open)
            {
                w.skip = true;
                break;
            }
            WPos        b = o[0];
            const Road& r = n.road(b.road);
            bool        turned = fabs(angdiff(b.h, 0)) > 1;  // drawn against the reference's road
            bool        wrong  = cos(q.dh) < 1e-6;           // reference faces against its lane
            if (p.type == Pos::RELLANE)
            {
                int sg = p.along ? drive(r, b.lane) : 1;
                if (turned && !p.along && (p.lane || p.t != 0))
                {
                    w.skip = true;  // to which road's direction they refer is left open
                    break;
                }
                if (p.along && wrong && (p.lane || p.t != 0))
                {
                    w.skip = true;
                    break;
                }
                int l = p.lane ? step_lane(b.lane, sg * p.lane) : b.lane;
                if (!r.sec(b.s).lane(l))
                {
                    w.skip = true;
                    break;
                }
                on(b.road, l, b.s, r.lane_t(b.s, l, sg * p.t), true);
                orient(p.o, b.road, b.s, p.along && drive(r, l) < 0 ? M_PI : 0);
                if (p.along && drive(r, l) != drive(r, b.lane))
                    w.om = 0;  // which lane's direction counts is left open
            }
            else
            {
                if (turned && p.t != 0)
                {
                    w.skip = true;
                    break;
                }
                on(b.road, 0, b.s, r.lane_t(b.s, b.lane, b.off) + p.t, false);
                orient(p.o, b.road, b.s, 0);
            }
            break;
        }
        case Pos::TRAJ:
        {
            double h = p.s < 30 ? 0 : M_PI / 2;
            double x = p.s < 30 ? 10 + p.s : 40, y = p.s < 30 ? 5 : 5 + p.s - 30;
            w.xy = true;
            w.x  = x - p.t * sin(h);
            w.y  = y + p.t * cos(h);
            w.om = 2;
            w.h  = h;
            w.M.m[0][0] = 9;
            w.onsurf = true;
            break;
        }
    }
    return w;
}

static string event(int k, const string& who, const string& pos)
{
    (void)who;
    return fmt("<Event name=\"e%d\" priority=\"parallel\" maximumExecutionCount=\"1000000\"><Action name=\"a%d\">", k, k) + scn::pa(scn::teleport(pos)) + "</Action>" +
           scn::trigger("StartTrigger", scn::var_cond("op", std::to_string(k))) + "</Event>";
}
static string group(const string& who, const string& evs)
{
    return "<ManeuverGroup name=\"g" + who + "\" maximumExecutionCount=\"1\"><Actors selectTriggeringEntities=\"false\"><EntityRef entityRef=\"" + who + "\"/></Actors><Maneuver name=\"m" + who + "\">" + evs +
           "</Maneuver></ManeuverGroup>";
}

struct Run
{
    const Net&       N;
    std::set<string> bad;
    int              E = 0, R = 0;
    explicit Run(const Net& n) : N(n) {}
    void fail(const string& kind, const string& what)
    {
        if (bad.insert(kind).second)
            vf::violation(N.n.name + "@" + kind, N.n.name + ": " + what, N.n.xml());
    }
    string pose_pos(const RefPose& q) const
    {
        Pos p;
        p.type = Pos::LANE;
        p.road = q.road;
        p.lane = q.lane;
        p.s    = q.s;
        p.t    = q.off;
        p.o    = ori(1, q.dh, true, q.dp, true, q.dr, true);
        return p.xml();
    }
    bool start(const Pos* init = nullptr, const RefPose* q = nullptr)
    {
        string er, ee;
        for (size_t i = 0; i < N.poses.size(); i++)
            er += event(1000 + static_cast<int>(i), "R", pose_pos(N.poses[i]));
        if (!init)
            for (size_t i = 0; i < N.ps.size(); i++)
                ee += event(static_cast<int>(i), "E", N.ps[i].xml());
        else
            ee = event(0, "E", N.ps[0].xml());
        scn::write_file("n.xodr", N.n.xml());
        string st = "<Story name=\"S\"><Act name=\"A\">" + group("R", er) + group("E", ee) + scn::trigger("StartTrigger", scn::time_cond(0, "greaterOrEqual")) + "</Act></Story>";
        string x  = scn::xosc("n.xodr", scn::vehicle("R") + scn::vehicle("E"),
                             scn::init_private("R", {scn::teleport(q ? pose_pos(*q) : pose_pos(N.poses[0]))}) +
                                 scn::init_private("E", {scn::teleport(init ? init->xml() : scn::lane_pos(1, -1, 5))}),
                             st, "<StopTrigger/>", scn::var_decl("op", "integer", "-1"));
        if (!scn::load(x))
        {
            vf::violation(N.n.name + "@load", "valid scenario rejected", x);
            return false;
        }
        E = SE_GetIdByName("E");
        R = SE_GetIdByName("R");
        return true;
    }
    void fire(int k)
    {
        SE_SetVariableInt("op", k);
        SE_StepDT(0.01f);
        SE_SetVariableInt("op", -1);
        SE_StepDT(0.01f);
        vf::step();
    }
    void check(const Pos& p, const RefPose& q, const string& ctx)
    {
        Want w = want(N, p, q);
        if (w.skip)
            return;
        SE_ScenarioObjectState o;
        SE_GetObjectState(E, &o);
        vf::cmp();
        double x = o.x, y = o.y, z = o.z, h = o.h, pp = o.p, r = o.r, s = o.s, t = o.t;
        static const char* K[] = {"world", "lane", "road", "relworld", "relobj", "rellane", "relroad", "traj"};
        string             k   = K[p.type];
        string             at  = ctx + " " + p.str() +
                    fmt(": entity at %.3f %.3f %.3f orientation %.4f %.4f %.4f (road %d lane %d s %.3f t %.3f)", x, y, z, remainder(h, 2 * M_PI), remainder(pp, 2 * M_PI), remainder(r, 2 * M_PI),
                        static_cast<int>(o.roadId), o.laneId, s, t) +
                    fmt(", reference on road %d lane %d s %g off %g orientation %g %g %g", q.road, q.lane, q.s, q.off, q.dh, q.dp, q.dr);
        if (p.relative())
            k += p.along ? "-along" : "";
        if (w.lanes && (static_cast<int>(o.roadId) != w.road || o.laneId != w.lane || fabs(s - w.s) > 2e-3))
            return fail(k + "@lane", at + fmt(", expected road %d lane %d s %.3f", w.road, w.lane, w.s));
        if (hypot(x - w.x, y - w.y) > 5e-3)
            return fail(k + "@xy", at + fmt(", expected %.3f %.3f", w.x, w.y));
        if (w.zs && fabs(z - w.z) > 2e-3)
            return fail(k + "@z", at + fmt(", expected height %.3f", w.z));
        bool road = static_cast<int>(o.roadId) > 0 && static_cast<int>(o.roadId) < 10;
        if (!road)
            return fail(k + "@noroad", at + ": no road");
        const Road& rd = N.n.road(static_cast<int>(o.roadId));
        Pose        a  = rd.at(s, t);
        bool        in = s > 0.05 && s < rd.length - 0.05;
        if (in && w.onsurf && hypot(a.x - x, a.y - y) > (N.sloped ? 5e-2 : 1e-2))
            fail(k + "@st", at + fmt(": road coordinates correspond to %.3f %.3f", a.x, a.y));
        if (in && w.onsurf && fabs(a.z - z) > 5e-3)
            fail(k + "@surface", at + fmt(": surface is at %.3f", a.z));
        Mat M = rot(h, pp, r);
        Mat S = rot(a.h, a.p, a.r);
        if (w.om == 1)
        {
            if (matdiff(M, w.M) > 2e-3)
                fail(k + "@ori", at + fmt(", expected orientation %.4f %.4f %.4f", atan2(w.M.m[1][0], w.M.m[0][0]), asin(-w.M.m[2][0]), atan2(w.M.m[2][1], w.M.m[2][2])));
        }
        else if (w.om >= 2 && in)
        {
            if (w.om == 2 && fabs(angdiff(h, w.h)) > (N.sloped ? 1e-2 : 2e-3))
                fail(k + "@heading", at + fmt(", expected heading %.4f", w.h));
            if (w.om == 3 && fabs(sin(h - a.h)) > (N.sloped ? 1e-2 : 2e-3))
                fail(k + "@heading", at + fmt(", expected heading of the road %.4f", a.h));
            double d = 0;
            for (int i = 0; i < 3; i++)
                d = std::max(d, fabs(M.m[i][2] - S.m[i][2]));
            if (d > 2e-3)
                fail(k + "@align", at + fmt(": not aligned with the surface (off by %.4f)", d));
        }
    }
};

static void positions(Net& N)
{
    auto add = [&](Pos::Type t, double a, double b, const Ori& o, int road = 0, int lane = 0, bool along = false, double z = 0, bool zs = false)
    {
        Pos p;
        p.type = t;
        p.x = p.s = a;
        p.y = p.t = b;
        p.o       = o;
        p.road    = road;
        p.lane    = lane;
        p.along   = along;
        p.z       = z;
        p.zs      = zs;
        N.ps.push_back(p);
    };
    Ori  none, rh = ori(1, 0.3), rall = ori(1, 0.3, true, 0.05, true, -0.04, true), ah = ori(2, 0.7), aall = ori(2, -2.1, true, 0.06, true, 0.03, true);
    bool T = vf::C().thorough();
    vector<Ori> os = {none, rh, rall, ah, aall};
    // placed by world coordinates: points of the roads
    for (int road : {1, 2})
        for (double s : {12.0, 31.0})
        {
            Pose a = N.n.road(road).at(s, -1.2);
            add(Pos::WORLD, a.x, a.y, ori(0, 0, false));
            add(Pos::WORLD, a.x, a.y, ori(0, 0.9));
            add(Pos::WORLD, a.x, a.y, ori(0, -0.4), 0, 0, false, 1.5, true);
            add(Pos::WORLD, a.x, a.y, ori(0, -0.4, true, 0.1, true, 0.07, true));
            add(Pos::WORLD, a.x, a.y, ori(0, 2.4, true, -0.1, true, 0.2, true), 0, 0, false, 3, true);
        }
    for (auto& o : os)
    {
        add(Pos::LANE, 22, 0, o, 1, -1);
        add(Pos::LANE, 17, 0.6, o, 2, 1);
        add(Pos::LANE, 33, -0.4, o, 1, 2);
        add(Pos::ROAD, 14, -2.7, o, 1);
        add(Pos::ROAD, 26, 3.1, o, 2);
        add(Pos::RELWORLD, 4, -1.5, o);
        add(Pos::RELWORLD, -3, 2, o, 0, 0, false, 0.8, true);
        add(Pos::RELOBJ, 5, 1.5, o);
        add(Pos::RELOBJ, -4, -1, o, 0, 0, false, 0.6, true);
        add(Pos::RELLANE, 7, 0.3, o, 0, 1);
        add(Pos::RELLANE, -5, 0, o, 0, 0);
        add(Pos::RELLANE, 7, 0.3, o, 0, 1, true);
        add(Pos::RELLANE, -5, -0.2, o, 0, 0, true);
        add(Pos::RELROAD, 6, -1.1, o);
        add(Pos::RELROAD, -6, 0, o);
    }
    // relative along the road: distances that stay on the road and that cross onto the next, all lane steps
    for (double ds : T ? vector<double>{-30, -12, 0, 3, 12, 30} : vector<double>{-30, 0, 12, 30})
        for (int dl : {-2, -1, 0, 1, 2})
            for (double off : T ? vector<double>{0, 0.5, -0.7} : vector<double>{0, 0.5})
                for (bool al : {false, true})
                    add(Pos::RELLANE, ds, off, none, 0, dl, al);
    for (double ds : {-30.0, -3.0, 0.0, 30.0})
        for (double dt : {-2.0, 0.0, 1.5})
            add(Pos::RELROAD, ds, dt, none);
    for (double dx : {-6.0, 0.0, 8.0})
        for (double dy : {-2.0, 0.0, 1.0})
        {
            add(Pos::RELOBJ, dx, dy, none);
            add(Pos::RELWORLD, dx, dy, none);
        }
    add(Pos::RELOBJ, 2, 1, ori(1, 0, false, 0.1, true));
    add(Pos::RELOBJ, 2, 1, ori(2, 0, false, 0.1, true, 0.02, true));
    add(Pos::RELWORLD, 2, 1, rh, 0, 0, false, -1, true);
    for (double s : {5.0, 22.0, 45.0})
        for (double t : {0.0, 1.5})
            add(Pos::TRAJ, s, t, none);
}

static vector<Net> nets()
{
    vector<Net> v;
    bool        T  = vf::C().thorough();
    auto        mk = [&](const string& name, int rev, double k, bool lht, bool slope, bool shift)
    {
        Net N;
        Seg s1{40, 2, 2, same(2, 2)}, s2{45, 2, 2, same(2, 2)};
        if (shift)
            s1.next = {{-1, -2}, {1, 2}};  // lanes continue one further out
        N.n      = chain(name, {{s1}, {s2}}, rev, k, false);
        N.rev2   = rev != 0;
        N.sloped = slope;
        for (auto& r : N.n.roads)
        {
            r.lht = lht;
            if (slope)
            {
                r.elev  = {{0, r.id == 1 ? 1.0 : 1.0 + 40 * 0.06, 0.06, 0, 0}};
                r.super = {{0, 0.05, 0, 0, 0}};
            }
        }
        N.poses = {{1, -1, 25, 0, 0, 0, 0}, {1, 1, 20, 0.4, 0, 0, 0}, {2, -2, 15, -0.3, 0.2, 0, 0}, {1, 2, 18, 0, M_PI, 0, 0}};
        if (!slope)
            N.poses.push_back({2, 1, 24, 0.2, -0.3, 0.08, -0.06});
        if (T)
        {
            N.poses.push_back({2, 2, 28, 0, 0, 0, 0});
            N.poses.push_back({1, -2, 12, 0.5, M_PI, 0, 0});
            N.poses.push_back({1, -1, 30, -0.5, -1.2, 0, 0});
        }
        positions(N);
        v.push_back(N);
    };
    for (bool lht : {false, true})
        for (double k : {0.0, 0.012})
        {
            string b = fmt("%s-%s", lht ? "lht" : "rht", k == 0 ? "straight" : "arc");
            mk(b, 0, k, lht, false, false);
            mk(b + "-reversed", 2, k, lht, false, false);
            if (k == 0)
                mk(b + "-slope", 0, k, lht, true, false);
            mk(b + "-shift", 0, k, lht, false, true);
        }
    if (T)
    {
        mk("rht-arc-right", 0, -0.015, false, false, false);
        mk("rht-arc-slope", 0, 0.01, false, true, false);
        mk("lht-arc-slope", 0, 0.01, true, true, false);
        mk("rht-straight-first", 1, 0, false, false, false);
    }
    return v;
}

static void seqs(const Net& N, size_t q)
{
    Run r(N);
    if (!r.start())
        return;
    size_t         n = N.ps.size();
    size_t         cnt = vf::C().thorough() ? 30 : 12;
    for (size_t i = 0; i < cnt; i++)
    {
        // another pose of the reference while the previous position is taken
        size_t a = i * n / cnt, q2 = (q + 1 + i) % N.poses.size();
        for (size_t b = 0; b < n; b++)
        {
            r.fire(1000 + static_cast<int>(q2));
            r.fire(static_cast<int>(a));
            r.check(N.ps[a], N.poses[q2], "after several others");
            r.fire(1000 + static_cast<int>(q));
            r.fire(static_cast<int>(b));
            r.check(N.ps[b], N.poses[q], "after " + N.ps[a].str());
            vf::eval();
        }
    }
    SE_Close();
}
static void inits(const Net& N, size_t part)
{
    std::set<string> bad;
    for (size_t b = part; b < N.ps.size(); b += 4)
    {
        size_t q = (b / 4) % N.poses.size();
        Run    r(N);
        r.bad = bad;
        if (!r.start(&N.ps[b], &N.poses[q]))
            return;
        r.check(N.ps[b], N.poses[q], "initial position");
        bad = r.bad;
        vf::eval();
        SE_Close();
    }
}

int main(int argc, char** argv)
{
    vf::init(argc, argv, "d_pos");
    auto             all = std::make_shared<vector<Net>>(nets());
    vector<vf::Case> cases;
    for (size_t i = 0; i < all->size(); i++)
    {
        const Net* N = &(*all)[i];
        for (size_t q = 0; q < N->poses.size(); q++)
            cases.push_back({N->n.name + fmt(" reference %d", static_cast<int>(q)), [N, q, all]() { seqs(*N, q); }});
        for (size_t q = 0; q < 4; q++)
            cases.push_back({N->n.name + fmt(" init %d", static_cast<int>(q)), [N, q, all]() { inits(*N, q); }});
    }
    vf::run(cases, 600);
    return vf::finish(fmt("%d road pairs (straight, curved, sloped and banked; second road drawn with or against the first; lanes continuing in the same or in a shifted lane) with right- and left-hand traffic; every position element of a "
                          "catalogue of %d (world, lane, road, relative world / object / lane / road, trajectory; given and omitted height and orientation; distances inside the road and across its borders; lane steps -2..2), teleported "
                          "to after each of %d other positions and under each of 4-5 (thorough: 8) poses of the reference entity, and used as initial position",
                          static_cast<int>(all->size()), static_cast<int>((*all)[0].ps.size()), vf::C().thorough() ? 30 : 12),
                      {"roads drawn against the reference's road: to which direction lane steps and lateral offsets refer is left open", "orientations given only in part on sloped roads are checked by heading and surface normal"});
}
