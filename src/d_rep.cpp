// C12: reported object states are taken over as they are; derived motion (velocity, acceleration, rates, odometer) matches the poses.
// C20: positions given by world coordinates are aligned to the road as the position mode says.
#include "scn.hpp"
#include "RoadManager.hpp"
#include <cmath>
#include <cstring>
#include <map>
#include <algorithm>
#include <dirent.h>

template <class... A> static std::string F(const char* f, A... a) { return scn::fmt(f, a...); }
using std::string;
using std::vector;

struct V3
{
    double a = 0, b = 0, c = 0;
};
struct Obs
{
    SE_ScenarioObjectState o;
    V3                     vel, acc, rate, racc;
    double                 odo = 0, accabs = 0, alat = 0, along = 0;
    int                    wheels = 0;
    SE_WheelData           w0;
    bool                   ok = false;
};
static Obs look(int id)
{
    Obs x;
    memset(&x.o, 0, sizeof(x.o));
    memset(&x.w0, 0, sizeof(x.w0));
    x.ok = SE_GetObjectState(id, &x.o) == 0;
    SE_GetObjectVelocityGlobalXYZ(id, &x.vel.a, &x.vel.b, &x.vel.c);
    SE_GetObjectAccelerationGlobalXYZ(id, &x.acc.a, &x.acc.b, &x.acc.c);
    SE_GetObjectAngularVelocity(id, &x.rate.a, &x.rate.b, &x.rate.c);
    SE_GetObjectAngularAcceleration(id, &x.racc.a, &x.racc.b, &x.racc.c);
    SE_GetObjectAccelerationLocalLatLong(id, &x.alat, &x.along);
    x.accabs = SE_GetObjectAcceleration(id);
    x.odo    = SE_GetObjectOdometer(id);
    x.wheels = SE_GetObjectNumberOfWheels(id);
    if (x.wheels > 0)
        SE_GetObjectWheelData(id, 0, &x.w0);
    return x;
}
static double angdiff(double a, double b)
{
    return std::remainder(a - b, 2 * M_PI);
}

// ---- orientation: intrinsic z-y-x
typedef double M3[3][3];
static void rot(double h, double p, double r, M3 m)
{
    double ch = cos(h), sh = sin(h), cp = cos(p), sp = sin(p), cr = cos(r), sr = sin(r);
    m[0][0] = ch * cp, m[0][1] = ch * sp * sr - sh * cr, m[0][2] = ch * sp * cr + sh * sr;
    m[1][0] = sh * cp, m[1][1] = sh * sp * sr + ch * cr, m[1][2] = sh * sp * cr - ch * sr;
    m[2][0] = -sp, m[2][1] = cp * sr, m[2][2] = cp * cr;
}
static void mul(M3 a, M3 b, M3 o)
{
    for (int i = 0; i < 3; i++)
        for (int j = 0; j < 3; j++)
        {
            o[i][j] = 0;
            for (int k = 0; k < 3; k++)
                o[i][j] += a[i][k] * b[k][j];
        }
}
static void euler(M3 m, double& h, double& p, double& r)
{
    h = atan2(m[1][0], m[0][0]);
    p = -asin(std::max(-1.0, std::min(1.0, m[2][0])));
    r = atan2(m[2][1], m[2][2]);
}
static void compose(double h0, double p0, double r0, double h1, double p1, double r1, double& h, double& p, double& r)
{
    M3 a, b, c;
    rot(h0, p0, r0, a);
    rot(h1, p1, r1, b);
    mul(a, b, c);
    euler(c, h, p, r);
}

// ---- the road: straight along x, z = slope * x
static const double LEN = 2000;
static double       SLOPE = 0;
static string       road_file()
{
    string n = F("slope_%g.xodr", SLOPE);
    string r = scn::straight_road(LEN, 2, 2);
    string e = F("<elevationProfile><elevation s=\"0\" a=\"0\" b=\"%.17g\" c=\"0\" d=\"0\"/></elevationProfile>", SLOPE);
    size_t p = r.find("<elevationProfile/>");
    if (p != string::npos)
        r.replace(p, 19, e);
    else
    {
        p = r.find("<lanes>");
        r.insert(p, e);
    }
    scn::write_file(n, scn::odr(r));
    return n;
}
static int lane_of(double t)
{
    int l = t > 0 ? 1 + static_cast<int>(t / 3.5) : -1 - static_cast<int>(-t / 3.5);
    return std::max(-2, std::min(2, l));
}
static double lane_center(int l)
{
    return (l > 0 ? 1 : -1) * (std::abs(l) - 0.5) * 3.5;
}

// ------------------------------------------------------------------------------------------------ C12 tree
struct Op
{
    string                  name;
    std::function<int(int)> call;
    char                    kind;         // P pose, L lateral only, S speed, V vel, A acc, R ang vel, Q ang acc, W wheel, X lock, '.' step
    double                  v[6] = {0, 0, 0, 0, 0, 0};
    int                     sub  = 0;  // P: 0 xyh, 1 pos6, 2 pos6 with nan, 3 road pos; L: 0 t, 1 lane
};
static vector<Op> ops()
{
    vector<Op> v;
    auto       nan_ = std::nan("");
    auto       xyh  = [&](double x, double y, double h) { v.push_back({F("PosXYH(%g,%g,%g)", x, y, h), [=](int id) { return SE_ReportObjectPosXYH(id, x, y, h); }, 'P', {x, y, h}, 0}); };
    xyh(1040, -1.5, 0.1);
    xyh(1043, -5, 0);
    xyh(1042, 2, 3.0);
    v.push_back({"Pos(1045,-2,0.5,-0.1,0.02,0.03)", [=](int id) { return SE_ReportObjectPos(id, 1045, -2, 0.5, -0.1, 0.02, 0.03); }, 'P', {1045, -2, 0.5, -0.1, 0.02, 0.03}, 1});
    v.push_back({"Pos(1044,-4,nan,1.6,nan,nan)", [=](int id) { return SE_ReportObjectPos(id, 1044, -4, nan_, 1.6, nan_, nan_); }, 'P', {1044, -4, nan_, 1.6, nan_, nan_}, 2});
    v.push_back({"RoadPos(1,-2,0.5,1048)", [=](int id) { return SE_ReportObjectRoadPos(id, 1, -2, 0.5, 1048); }, 'P', {-2, 0.5, 1048}, 3});
    v.push_back({"RoadPos(1,-1,-0.25,1046)", [=](int id) { return SE_ReportObjectRoadPos(id, 1, -1, -0.25, 1046); }, 'P', {-1, -0.25, 1046}, 3});
    v.push_back({"Lateral(-4.5)", [=](int id) { return SE_ReportObjectLateralPosition(id, -4.5); }, 'L', {-4.5}, 0});
    v.push_back({"LateralLane(-1,0.5)", [=](int id) { return SE_ReportObjectLateralLanePosition(id, -1, 0.5); }, 'L', {-1, 0.5}, 1});
    v.push_back({"LateralLane(-2,-0.5)", [=](int id) { return SE_ReportObjectLateralLanePosition(id, -2, -0.5); }, 'L', {-2, -0.5}, 1});
    v.push_back({"Speed(12)", [=](int id) { return SE_ReportObjectSpeed(id, 12); }, 'S', {12}});
    v.push_back({"Vel(3,4,1)", [=](int id) { return SE_ReportObjectVel(id, 3, 4, 1); }, 'V', {3, 4, 1}});
    v.push_back({"Acc(1,2,3)", [=](int id) { return SE_ReportObjectAcc(id, 1, 2, 3); }, 'A', {1, 2, 3}});
    v.push_back({"AngVel(.1,.2,.3)", [=](int id) { return SE_ReportObjectAngularVel(id, .1, .2, .3); }, 'R', {.1, .2, .3}});
    v.push_back({"AngAcc(.4,.5,.6)", [=](int id) { return SE_ReportObjectAngularAcc(id, .4, .5, .6); }, 'Q', {.4, .5, .6}});
    v.push_back({"Wheel(.7,.8)", [=](int id) { return SE_ReportObjectWheelStatus(id, .7, .8); }, 'W', {.7, .8}});
    v.push_back({"Lock", [=](int id) { return SE_SetLockOnLane(id, true); }, 'X'});
    v.push_back({"Step(0.1)", nullptr, '.', {0.1}});
    v.push_back({"Step(0.25)", nullptr, '.', {0.25}});
    return v;
}

static void fail(const string& key, const string& where, const string& msg)
{
    vf::violation(key, where + ": " + msg);
}
static bool near_(double a, double b, double tol)
{
    return std::fabs(a - b) <= tol || (std::isnan(a) && std::isnan(b));
}

struct Model
{
    // what has been reported since the last step
    bool pose = false, speed = false, vel = false, acc = false, rate = false, racc = false, wheel = false;
    bool lock = false;
    bool virgin = false;  // object added since the last step: velocity from speed and heading
};

static void check_pose(const Op& op, const Obs& b, const Obs& a, const Model& m, const string& w)
{
    const double* v = op.v;
    double        x, y, zr = 0, hr, pr, rr;
    double        h, p, r;
    double        rp = -atan(SLOPE);
    int           lane;
    double        off;
    vf::cmp(10);
    bool pose_known = true;
    if (op.kind == 'P' && op.sub <= 2)
    {
        x = v[0], y = v[1];
        lane = m.lock ? b.o.laneId : lane_of(y);
        off  = y - lane_center(lane);
        if (op.sub == 0)
        {
            hr = v[2], pr = 0, rr = 0, zr = 0;
        }
        else if (op.sub == 1)
        {
            zr = v[2], hr = v[3], pr = v[4], rr = v[5];
        }
        else
        {
            hr = v[3];
            // relative z, pitch and roll are kept: only known from what was set before, checked via z difference
            zr = b.o.z - SLOPE * b.o.x;
            pr = rr = 0;
            pose_known = false;
        }
        compose(0, rp, 0, hr, pr, rr, h, p, r);
        if (!near_(angdiff(a.o.h, h), 0, 2e-3))
            fail("pose:h", w, F("heading %.6f, reported %.6f", a.o.h, h));
        if (!near_(a.o.z, SLOPE * x + zr, 1e-6))
            fail("pose:z", w, F("z %.6f, expected %.6f", a.o.z, SLOPE * x + zr));
        if (pose_known && (!near_(angdiff(a.o.p, p), 0, 2e-3) || !near_(angdiff(a.o.r, r), 0, 2e-3)))
            fail("pose:pr", w, F("pitch %.6f roll %.6f, expected %.6f %.6f", a.o.p, a.o.r, p, r));
    }
    else
    {
        if (op.kind == 'P')
        {
            lane = static_cast<int>(v[0]), off = v[1], x = v[2];
        }
        else
        {
            x = b.o.s;
            if (op.sub == 1)
            {
                lane = static_cast<int>(v[0]);
                off  = v[1];
            }
            else
            {
                lane = m.lock ? b.o.laneId : lane_of(v[0]);
                off  = v[0] - lane_center(lane);
            }
        }
        y = lane_center(lane) + off;
        if (!near_(a.o.z - SLOPE * x, b.o.z - SLOPE * b.o.x, 1e-6))
            fail("pose:z", w, F("z %.6f above road, before %.6f", a.o.z - SLOPE * x, b.o.z - SLOPE * b.o.x));
        if (!near_(angdiff(a.o.h, b.o.h), 0, 2e-3))
            fail("pose:h", w, F("heading %.6f, before %.6f", a.o.h, b.o.h));
    }
    if (!near_(a.o.x, x, 1e-5) || !near_(a.o.y, y, 1e-5))
        fail("pose:xy", w, F("position (%.6f, %.6f), reported (%.6f, %.6f)", a.o.x, a.o.y, x, y));
    if (!near_(a.o.s, x, 1e-5) || !near_(a.o.t, y, 1e-5) || a.o.laneId != lane || !near_(a.o.laneOffset, off, 1e-5) || a.o.roadId != 1)
        fail("pose:road", w, F("road %d s %.5f t %.5f lane %d offset %.5f, expected 1 %.5f %.5f %d %.5f", static_cast<int>(a.o.roadId), a.o.s, a.o.t, a.o.laneId, a.o.laneOffset, x, y, lane, off));
}

static void same_but(const Obs& b, const Obs& a, const string& except, const string& w)
{
    auto has = [&](char c) { return except.find(c) != string::npos; };
    vf::cmp(8);
    if (!has('P') && (a.o.x != b.o.x || a.o.y != b.o.y || a.o.z != b.o.z || a.o.h != b.o.h || a.o.p != b.o.p || a.o.r != b.o.r || a.o.laneId != b.o.laneId || a.o.s != b.o.s))
        fail("side:pose", w, "the pose changed");
    if (!has('S') && a.o.speed != b.o.speed)
        fail("side:speed", w, "the speed changed");
    if (!has('V') && (a.vel.a != b.vel.a || a.vel.b != b.vel.b || a.vel.c != b.vel.c))
        fail("side:vel", w, "the velocity changed");
    if (!has('A') && (a.acc.a != b.acc.a || a.acc.b != b.acc.b || a.acc.c != b.acc.c))
        fail("side:acc", w, "the acceleration changed");
    if (!has('R') && (a.rate.a != b.rate.a || a.rate.b != b.rate.b || a.rate.c != b.rate.c))
        fail("side:rate", w, "the angular velocity changed");
    if (!has('Q') && (a.racc.a != b.racc.a || a.racc.b != b.racc.b || a.racc.c != b.racc.c))
        fail("side:racc", w, "the angular acceleration changed");
    if (!has('W') && (a.o.wheel_angle != b.o.wheel_angle || a.o.wheel_rot != b.o.wheel_rot))
        fail("side:wheel", w, "the wheels changed");
    if (a.odo != b.odo)
        fail("side:odo", w, "the odometer changed");
}
static bool v3eq(const V3& v, double a, double b, double c, double tol)
{
    return near_(v.a, a, tol) && near_(v.b, b, tol) && near_(v.c, c, tol);
}

// motion derived between two observations dt apart
static void check_derived(const Obs& b, const Obs& a, double dt, const Model& m, bool moved_by_engine, const string& w)
{
    double ex = a.o.x - b.o.x, ey = a.o.y - b.o.y, ez = a.o.z - b.o.z;
    V3     vel = {ex / dt, ey / dt, ez / dt};
    vf::cmp(8);
    // poses are reported as floats, velocities as doubles
    double px = (std::fabs(a.o.x) + std::fabs(b.o.x)) * 1.3e-7 / dt + 1e-5, py = (std::fabs(a.o.y) + std::fabs(b.o.y)) * 1.3e-7 / dt + 1e-5, pz = (std::fabs(a.o.z) + std::fabs(b.o.z)) * 1.3e-7 / dt + 1e-5;
    if (m.vel || m.virgin)
        vel = a.vel;
    else if (!near_(a.vel.a, vel.a, px) || !near_(a.vel.b, vel.b, py) || !near_(a.vel.c, vel.c, pz))
        fail("derived:vel", w, F("velocity (%.5f,%.5f,%.5f), moved (%.5f,%.5f,%.5f)/s", a.vel.a, a.vel.b, a.vel.c, vel.a, vel.b, vel.c));
    if (m.virgin && !m.vel && (!near_(a.vel.a, a.o.speed * cos(a.o.h), 1e-4) || !near_(a.vel.b, a.o.speed * sin(a.o.h), 1e-4)))
        fail("derived:vel0", w, "velocity of a new object is not speed along its heading");
    if (!m.acc && !m.virgin && !v3eq(a.acc, (a.vel.a - b.vel.a) / dt, (a.vel.b - b.vel.b) / dt, (a.vel.c - b.vel.c) / dt, 1e-6 / dt))
        fail("derived:acc", w, F("acceleration (%.5f,%.5f,%.5f), velocity changed (%.5f,%.5f,%.5f)/s", a.acc.a, a.acc.b, a.acc.c, (a.vel.a - b.vel.a) / dt, (a.vel.b - b.vel.b) / dt, (a.vel.c - b.vel.c) / dt));
    double hr = angdiff(a.o.h, b.o.h) / dt;
    if (!m.rate && !m.virgin && !near_(a.rate.a, hr, 2e-6 / dt) && !near_(std::fabs(hr) * dt, M_PI, 1e-5))
        fail("derived:rate", w, F("heading rate %.6f, heading changed %.6f/s", a.rate.a, hr));
    if (!m.racc && !m.virgin && !near_(a.racc.a, (a.rate.a - b.rate.a) / dt, 4e-6 / dt / dt))
        fail("derived:racc", w, F("heading acceleration %.6f, heading rate changed %.6f/s", a.racc.a, (a.rate.a - b.rate.a) / dt));
    if (!m.virgin && !near_(a.odo - b.odo, hypot(ex, ey), (px + py) * dt))
        fail("derived:odo", w, F("odometer %+.6f, moved %.6f", a.odo - b.odo, hypot(ex, ey)));
    if (!m.speed && !moved_by_engine && !near_(a.o.speed, hypot(a.vel.a, a.vel.b), 1e-4 + 1e-6 * a.o.speed))
        fail("derived:speed", w, F("speed %.6f, velocity %.6f", a.o.speed, hypot(a.vel.a, a.vel.b)));
    // views of the same vector
    if (!near_(std::fabs(a.accabs), hypot(a.acc.a, a.acc.b), 1e-9 + 1e-9 * std::fabs(a.accabs)) || (std::fabs(a.along) > 1e-6 && a.along * a.accabs < 0))
        fail("derived:accabs", w, "magnitude of the acceleration");
    double lo = a.acc.a * cos(a.o.h) + a.acc.b * sin(a.o.h), la = -a.acc.a * sin(a.o.h) + a.acc.b * cos(a.o.h);
    double ta = (std::fabs(a.acc.a) + std::fabs(a.acc.b)) * 2e-6 + 1e-9;
    if (!near_(a.along, lo, ta) || !near_(a.alat, la, ta))
        fail("derived:acclocal", w, F("lateral/longitudinal acceleration (%.6f,%.6f), expected (%.6f,%.6f)", a.alat, a.along, la, lo));
}

static void tree_case(int target, int depth, double slope, int part, int parts)
{
    static vector<Op> O = ops();
    SLOPE               = slope;
    int       id        = -1;
    Model     m;
    scn::Tree t;
    t.n     = static_cast<int>(O.size());
    t.depth = depth;
    t.show  = [&](vector<int> p)
    {
        string s;
        for (int i : p)
            s += O[static_cast<size_t>(i)].name + " ";
        return s;
    };
    t.apply = [&](int i)
    {
        const Op& op = O[static_cast<size_t>(i)];
        if (t.path.size() == 1 && i % parts != part)
            return false;
        string w = F("object %d slope %g, ", id, SLOPE) + t.path_str();
        Obs    b = look(id);
        if (op.kind != '.')
        {
            // whether a locked lane survives an explicit lateral position in the road frame is left open
            if (op.kind == 'L' && op.sub == 0 && m.lock)
                return false;
            // two reports of the same kind in a row: covered by the second alone
            if (t.path.size() >= 2 && O[static_cast<size_t>(t.path[t.path.size() - 2])].name == op.name)
                return false;
            int r = op.call(id);
            Obs a = look(id);
            if (r != 0)
                fail("report:refused", w, F("returned %d", r));
            switch (op.kind)
            {
                case 'P':
                    m.pose = true;
                    check_pose(op, b, a, m, w);
                    same_but(b, a, "P", w);
                    break;
                case 'L':
                    check_pose(op, b, a, m, w);
                    same_but(b, a, "P", w);
                    break;
                case 'S':
                    m.speed = true;
                    if (!near_(a.o.speed, op.v[0], 1e-5))
                        fail("report:speed", w, F("speed %.5f", a.o.speed));
                    same_but(b, a, "S", w);
                    break;
                case 'V':
                    m.vel = true;
                    if (!v3eq(a.vel, op.v[0], op.v[1], op.v[2], 1e-9))
                        fail("report:vel", w, "not taken over");
                    same_but(b, a, "V", w);
                    break;
                case 'A':
                    m.acc = true;
                    if (!v3eq(a.acc, op.v[0], op.v[1], op.v[2], 1e-9))
                        fail("report:acc", w, "not taken over");
                    same_but(b, a, "A", w);
                    break;
                case 'R':
                    m.rate = true;
                    if (!v3eq(a.rate, op.v[0], op.v[1], op.v[2], 1e-9))
                        fail("report:rate", w, "not taken over");
                    same_but(b, a, "R", w);
                    break;
                case 'Q':
                    m.racc = true;
                    if (!v3eq(a.racc, op.v[0], op.v[1], op.v[2], 1e-9))
                        fail("report:racc", w, "not taken over");
                    same_but(b, a, "Q", w);
                    break;
                case 'W':
                    m.wheel = true;
                    if (!near_(a.o.wheel_rot, op.v[0], 1e-6) || !near_(a.o.wheel_angle, op.v[1], 1e-6))
                        fail("report:wheel", w, "not taken over");
                    same_but(b, a, "W", w);
                    break;
                case 'X':
                    m.lock = true;
                    same_but(b, a, "", w);
                    break;
            }
        }
        else
        {
            double dt   = op.v[0];
            double t0   = SE_GetSimulationTime();
            SE_StepDT(static_cast<float>(dt));
            double dtr = SE_GetSimulationTime() - t0;
            Obs    a   = look(id);
            if (!near_(dtr, dt, 1e-6))
                fail("step:time", w, F("the time advanced %.9f", dtr));
            if (!near_(a.o.timestamp, SE_GetSimulationTime(), 1e-5))
                fail("step:stamp", w, "time stamp of the state is not the simulation time");
            // pose
            bool moved = !m.pose && target == 0;  // added objects are controlled externally
            if (!moved)
            {
                if (a.o.x != b.o.x || a.o.y != b.o.y || a.o.z != b.o.z || a.o.h != b.o.h || a.o.p != b.o.p || a.o.r != b.o.r)
                    fail("step:pose", w, "the pose was changed by the step");
            }
            else
            {
                double dir = cos(b.o.h) >= 0 ? 1 : -1;
                double d   = dir * b.o.speed * dt;
                if (!near_(a.o.x, b.o.x + d, 2e-4) || !near_(a.o.y, b.o.y, 1e-4) || !near_(angdiff(a.o.h, b.o.h), 0, 1e-3))
                    fail("step:move", w, F("moved (%.5f,%.5f) heading %+.5f, speed %.4f", a.o.x - b.o.x, a.o.y - b.o.y, angdiff(a.o.h, b.o.h), b.o.speed));
            }
            if (m.speed && !near_(a.o.speed, b.o.speed, 1e-6))
                fail("step:speed", w, "the reported speed was changed by the step");
            if (moved && !m.speed && !near_(a.o.speed, b.o.speed, 1e-6))
                fail("step:speed2", w, "the speed changed without reason");
            if (m.vel && !v3eq(a.vel, b.vel.a, b.vel.b, b.vel.c, 0))
                fail("step:vel", w, "the reported velocity was changed by the step");
            if (m.acc && !v3eq(a.acc, b.acc.a, b.acc.b, b.acc.c, 0))
                fail("step:acc", w, "the reported acceleration was changed by the step");
            if (m.rate && !v3eq(a.rate, b.rate.a, b.rate.b, b.rate.c, 0))
                fail("step:rate", w, "the reported angular velocity was changed by the step");
            if (m.racc && !v3eq(a.racc, b.racc.a, b.racc.b, b.racc.c, 0))
                fail("step:racc", w, "the reported angular acceleration was changed by the step");
            if (m.wheel && (a.o.wheel_rot != b.o.wheel_rot || a.o.wheel_angle != b.o.wheel_angle))
                fail("step:wheel", w, "the reported wheel state was changed by the step");
            if (m.wheel && a.wheels > 0 && (!near_(a.w0.p, a.o.wheel_rot, 1e-6) || !near_(a.w0.h, a.o.wheel_angle, 1e-6)))
                fail("step:wheeldata", w, F("wheel data %.4f %.4f does not show the reported wheel state", a.w0.p, a.w0.h));
            // compare with the state after the previous step, where reports may have been made in between
            extern Obs LAST;
            check_derived(LAST, a, dtr, m, moved, w);
            LAST  = a;
            Model n;
            n.lock = m.lock;
            m      = n;
        }
        vf::state(vf::fnv(F("%.4f %.4f %.4f %.4f %.4f %.4f %d", b.o.x, b.o.y, b.o.h, b.o.speed, b.vel.a, b.acc.a, m.pose)));
        return true;
    };
    t.run(
        [&]()
        {
            string rf = road_file();
            string xml = scn::xosc(rf, scn::vehicle("A") + scn::vehicle("B"), scn::init_private("A", {scn::teleport(scn::lane_pos(1, -1, 1020)), scn::speed_action(10)}) + scn::init_private("B", {scn::teleport(scn::lane_pos(1, -2, 1120)), scn::speed_action(0)}), "");
            if (!scn::load(xml))
            {
                fail("load", "", "cannot load");
                return false;
            }
            if (target == 0)
            {
                id = SE_GetIdByName("A");
                SE_StepDT(0.1f);
            }
            else
            {
                int x = SE_AddObject("X", 1, 0, 0, 0, "");
                int y = SE_AddObject("Y", 1, 0, 0, 0, "");
                SE_DeleteObject(x);
                id = y;
                SE_ReportObjectRoadPos(id, 1, -1, 0, 1030);
                SE_ReportObjectSpeed(id, 6);
                if (target == 2)
                {
                    SE_DeleteObject(SE_GetIdByName("B"));
                }
                SE_StepDT(0.1f);
                m = Model();
            }
            extern Obs LAST;
            LAST = look(id);
            return true;
        });
}
Obs LAST;

// ------------------------------------------------------------------------------------------------ C12 example scenarios
static string repo()
{
    const char* r = getenv("VERIF_REPO");
    return r ? r : "/repo";
}
static vector<string> scenarios()
{
    vector<string> v;
    string         d = repo() + "/resources/xosc";
    if (DIR* dir = opendir(d.c_str()))
    {
        while (auto* e = readdir(dir))
        {
            string n = e->d_name;
            if (n.size() > 5 && n.substr(n.size() - 5) == ".xosc")
                v.push_back(n);
        }
        closedir(dir);
    }
    std::sort(v.begin(), v.end());
    return v;
}
static void example(const string& name, const vector<double>& dts, int steps)
{
    scn::quiet();
    SE_SetSeed(7);
    string w0 = name + F(" dt %g..", dts[0]);
    if (SE_Init((repo() + "/resources/xosc/" + name).c_str(), 0, 0, 0, 0) != 0)
        return;
    std::map<int, Obs> last;
    double             tsum = SE_GetSimulationTime();
    for (int i = 0; i < steps; i++)
    {
        double dt = dts[static_cast<size_t>(i) % dts.size()];
        if (SE_StepDT(static_cast<float>(dt)) < 0 || SE_GetQuitFlag())
            break;
        vf::step();
        double t = SE_GetSimulationTime();
        if (!near_(t - tsum, dt, 1e-6))
            fail("example:time", w0, F("step %d advanced the time %.7f", i, t - tsum));
        double             dtr = t - tsum;
        std::map<int, Obs> now;
        tsum = t;
        for (int k = 0; k < SE_GetNumberOfObjects(); k++)
        {
            int id  = SE_GetId(k);
            Obs a   = look(id);
            now[id] = a;
            string w = w0 + F(" step %d t %.3f object %d %s", i, t, id, SE_GetObjectName(id));
            vf::state(vf::fnv(F("%s %d %.3f %.3f %.3f", name.c_str(), id, a.o.x, a.o.y, a.o.speed)));
            if (!near_(a.o.timestamp, t, 1e-5 * (1 + t)) || a.o.id != id)
                fail("example:stamp", w, "time stamp or id of the state is wrong");
            for (double q : {static_cast<double>(a.o.x), static_cast<double>(a.o.y), static_cast<double>(a.o.z), static_cast<double>(a.o.h), static_cast<double>(a.o.p), static_cast<double>(a.o.r), static_cast<double>(a.o.speed), a.vel.a, a.acc.a})
                if (!std::isfinite(q))
                    fail("example:finite", w, "a state value is not a finite number");
            auto it = last.find(id);
            if (it == last.end())
                continue;
            const Obs& b = it->second;
            Model      m;
            double     ex = a.o.x - b.o.x, ey = a.o.y - b.o.y;
            // a jump (teleport): velocity follows speed and heading
            bool jump = near_(a.odo, b.odo, 1e-9) && (ex != 0 || ey != 0 || a.o.z != b.o.z) && near_(a.vel.a, a.o.speed * cos(a.o.h), 1e-3) && near_(a.vel.b, a.o.speed * sin(a.o.h), 1e-3);
            if (jump)
            {
                m.virgin = true;
                vf::count("jumps");
            }
            check_derived(b, a, dtr, m, true, w);
        }
        last = now;
        if (vf::give_up())
            break;
    }
    SE_Close();
    vf::eval();
}
static int c12()
{
    bool             th = vf::C().tier == "thorough";
    vector<vf::Case> cases;
    for (int target : {0, 1, 2})
        for (double sl : {0.0, 0.04})
        {
            bool deep = (target == 0 && sl > 0) || (target == 1 && sl == 0);
            for (int part = 0; part < 19; part++)
                cases.push_back({F("reports object%d slope%g %d", target, sl, part), [=]() { tree_case(target, th ? (deep ? 5 : 4) : (deep ? 4 : 3), sl, part, 19); }});
        }
    vector<vector<double>> dts = {{0.1}, {0.02}, {0.05, 0.2}};
    if (th)
        dts.insert(dts.end(), {{0.001}, {0.01, 0.1, 0.3}, {0.5}});
    for (auto& n : scenarios())
        for (auto& d : dts)
            cases.push_back({F("example %s dt%g/%zu", n.c_str(), d[0], d.size()), [=]() { example(n, d, th ? 2000 : 250); }});
    vf::run(cases, 600);
    return vf::finish("all sequences of 4 (thorough 5) of 17 report calls and 2 steps for a scenario vehicle and added objects (ids differing from indices), flat and sloped road; example scenarios of the repository x time step sequences, every object and step",
                      {"positions in the state are single precision", "straight road in the report trees"});
}

// ------------------------------------------------------------------------------------------------ C20
static string curved_road(double curv, double slope, double super)
{
    string n = F("road_%g_%g_%g.xodr", curv, slope, super);
    string r = scn::straight_road(300, 2, 2);
    size_t p = r.find("<line/>");
    if (p != string::npos && curv != 0)
        r.replace(p, 7, F("<arc curvature=\"%.17g\"/>", curv));
    string e = F("<elevationProfile><elevation s=\"0\" a=\"2\" b=\"%.17g\" c=\"0\" d=\"0\"/></elevationProfile><lateralProfile><superelevation s=\"0\" a=\"%.17g\" b=\"0\" c=\"0\" d=\"0\"/></lateralProfile>", slope, super);
    p = r.find("<elevationProfile/>");
    if (p != string::npos)
        r.erase(p, 19);
    p = r.find("<lateralProfile/>");
    if (p != string::npos)
        r.erase(p, 17);
    p = r.find("<lanes>");
    r.insert(p, e);
    scn::write_file(n, scn::odr(r));
    return n;
}
static const int M_SET[4]  = {1, 1 << 4, 1 << 8, 1 << 12};
static const int M_ABS[4]  = {3, 3 << 4, 3 << 8, 3 << 12};
static const int M_REL[4]  = {7, 7 << 4, 7 << 8, 7 << 12};
static int       mode_of(int bits)  // bit set: absolute
{
    int m = 0;
    for (int i = 0; i < 4; i++)
        m |= (bits >> i) & 1 ? M_ABS[i] : M_REL[i];
    return m;
}
static string mode_str(int bits)
{
    string s;
    for (int i = 0; i < 4; i++)
        s += string(1, "zhpr"[i]) + ((bits >> i) & 1 ? "=abs " : "=rel ");
    return s;
}
struct RoadPose
{
    double z, h, p, r;
};
static RoadPose road_pose(const SE_ScenarioObjectState& o)
{
    roadmanager::Position p;  // default alignment: on the road surface, along the road
    p.SetLanePos(o.roadId, o.laneId, o.s, o.laneOffset);
    return {p.GetZ(), p.GetHRoad(), p.GetPRoad(), p.GetRRoad()};
}
static void expect(const RoadPose& rp, int bits, const double v[4], double out[4])
{
    out[0] = bits & 1 ? v[0] : rp.z + v[0];
    compose(rp.h, bits & 4 ? 0 : rp.p, bits & 8 ? 0 : rp.r, bits & 2 ? v[1] - rp.h : v[1], v[2], v[3], out[1], out[2], out[3]);
    // an absolute angle replaces the angle of the road, heading is measured in the horizontal plane
    if (bits & 2)
        out[1] = v[1];
}
static double worst(const SE_ScenarioObjectState& o, const double e[4])
{
    return std::max(std::fabs(angdiff(o.h, e[1])), std::max(std::fabs(angdiff(o.p, e[2])), std::fabs(angdiff(o.r, e[3]))));
}
static void modes_case(double curv, double slope, double super, int set_bits, bool th)
{
    string rf  = curved_road(curv, slope, super);
    string xml = scn::xosc(rf, scn::vehicle("A"), scn::init_private("A", {scn::teleport(scn::lane_pos(1, -1, 20)), scn::speed_action(10)}), "");
    if (!scn::load(xml))
    {
        fail("load", "", "cannot load");
        return;
    }
    int id = SE_GetIdByName("A");
    // where: along the arc
    struct P
    {
        double s, t;
    };
    for (P q : {P{40, -1.5}, P{120, -4.5}})
    {
        double h0 = curv * q.s, x0 = curv == 0 ? q.s : sin(h0) / curv, y0 = curv == 0 ? 0 : (1 - cos(h0)) / curv;
        double x = x0 - q.t * sin(h0), y = y0 + q.t * cos(h0);
        for (double z : {0.0, 0.7})
            for (double h : {0.0, 0.3, -1.2, 2.9})
                for (double p : {0.0, 0.05})
                    for (double r : {0.0, -0.06})
                        for (int up = 0; up < 16; up++)
                            for (int via = 0; via < 2; via++)
                            {
                                if (!th && via && up != 0 && up != 15)
                                    continue;
                                string w = F("road(curvature %g slope %g superelevation %g) s %g t %g, value z %g h %g p %g r %g, set mode %s%s", curv, slope, super, q.s, q.t, z, h, p, r, mode_str(set_bits).c_str(), via ? "(persistent)" : "(explicit)");
                                vf::doing(w);
                                // back to a known state
                                SE_SetObjectPositionModeDefault(id, SE_SET);
                                SE_SetObjectPositionModeDefault(id, SE_UPDATE);
                                SE_ReportObjectPos(id, x, y, 0, h0, 0, 0);
                                if (via)
                                {
                                    SE_SetObjectPositionMode(id, SE_SET, mode_of(set_bits));
                                    SE_ReportObjectPos(id, x, y, z, h, p, r);
                                }
                                else
                                    SE_ReportObjectPosMode(id, x, y, z, h, p, r, mode_of(set_bits));
                                Obs      a  = look(id);
                                RoadPose rp = road_pose(a.o);
                                double   v[4] = {z, h, p, r}, e[4];
                                expect(rp, set_bits, v, e);
                                vf::cmp(4);
                                vf::eval();
                                // mixed modes combine angles of the road and angles of the world, exact to second order only
                                bool   pure = (set_bits & 14) == 0 || (set_bits & 14) == 14;
                                double tol  = (slope == 0 && super == 0) || pure ? 1e-5 : 0.012;
                                vf::state(vf::fnv(F("%.5f %.5f %.5f %.5f", a.o.z, a.o.h, a.o.p, a.o.r)));
                                if (std::fabs(a.o.x - x) > 2e-4 || std::fabs(a.o.y - y) > 2e-4)
                                    fail("mode:xy", w, F("placed at (%.4f, %.4f), reported (%.4f, %.4f)", a.o.x, a.o.y, x, y));
                                if (std::fabs(a.o.z - e[0]) > 1e-3)
                                    fail("mode:z", w, F("z %.5f, expected %.5f (road %.5f)", a.o.z, e[0], rp.z));
                                if (worst(a.o, e) > tol)
                                    fail("mode:hpr", w, F("orientation (%.5f %.5f %.5f), expected (%.5f %.5f %.5f)", a.o.h, a.o.p, a.o.r, e[1], e[2], e[3]));
                                // now the engine moves it: update mode
                                SE_SetObjectPositionMode(id, SE_UPDATE, mode_of(up));
                                SE_ReportObjectSpeed(id, 10);
                                // relative orientation that the object has now
                                M3 R0, A, rel, R1, B;
                                rot(rp.h, rp.p, rp.r, R0);
                                rot(a.o.h, a.o.p, a.o.r, A);
                                M3 R0t;
                                for (int i = 0; i < 3; i++)
                                    for (int j = 0; j < 3; j++)
                                        R0t[i][j] = R0[j][i];
                                mul(R0t, A, rel);
                                double rh, rpi, rr;
                                euler(rel, rh, rpi, rr);
                                // a step of the engine clears what was reported, a second one moves
                                SE_StepDT(0.01f);
                                Obs b0 = look(id);
                                SE_StepDT(0.2f);
                                Obs      b   = look(id);
                                RoadPose rp2 = road_pose(b.o);
                                (void)R1;
                                (void)B;
                                if (via == 0)
                                {
                                    double u[4] = {up & 1 ? a.o.z : a.o.z - rp.z, up & 2 ? a.o.h : rh, up & 4 ? a.o.p : rpi, up & 8 ? a.o.r : rr};
                                    double f[4];
                                    expect(rp2, up, u, f);
                                    double ahead = b.o.s - a.o.s;
                                    double dir   = std::cos(a.o.h - rp.h) >= 0 ? 1 : -1;
                                    vf::cmp(4);
                                    string w2 = w + ", update mode " + mode_str(up);
                                    if (std::fabs(b.o.t - a.o.t) > 1e-3)
                                        fail("update:t", w2, F("lateral position moved %.4f", b.o.t - a.o.t));
                                    if (ahead * dir < 1.0)
                                        fail("update:s", w2, F("moved %.4f along the road", ahead));
                                    if (std::fabs(b.o.z - f[0]) > 2e-3)
                                        fail("update:z", w2, F("z %.5f, expected %.5f (road %.5f before %.5f)", b.o.z, f[0], rp2.z, rp.z));
                                    double tol2 = slope == 0 && super == 0 && p == 0 && r == 0 ? 1e-4 : 0.03;
                                    // absolute and relative angles mixed on a tilted road: left open (the engine composes them step by step)
                                    bool pure2 = pure && ((up & 14) == 0 || (up & 14) == 14);
                                    if (((slope == 0 && super == 0) || pure2) && worst(b.o, f) > tol2)
                                        fail("update:hpr", w2, F("orientation (%.5f %.5f %.5f), expected (%.5f %.5f %.5f)", b.o.h, b.o.p, b.o.r, f[1], f[2], f[3]));
                                }
                                (void)b0;
                                if (vf::give_up())
                                    return;
                            }
    }
}
static int c20()
{
    bool             th = vf::C().tier == "thorough";
    vector<vf::Case> cases;
    for (double curv : {0.0, 0.01})
        for (double slope : {0.0, 0.06})
            for (double sup : {0.0, 0.05})
                for (int sb = 0; sb < 16; sb++)
                    cases.push_back({F("modes curvature %g slope %g superelevation %g set %d", curv, slope, sup, sb), [=]() { modes_case(curv, slope, sup, sb, th); }});
    vf::run(cases, 600);
    return vf::finish("8 roads (straight/curved, flat/sloped, level/superelevated) x 2 places x 2 heights x 4 headings x 2 pitches x 2 rolls x all 16 combinations of absolute/relative set modes (explicit and persistent) x all 16 update modes followed by engine movement",
                      {"combinations of absolute and relative angles are compared to second order in the slope"});
}

int main(int argc, char** argv)
{
    vf::init(argc, argv, "C12", {"jumps"});
    if (vf::C().prop == "C12")
        return c12();
    if (vf::C().prop == "C20")
        return c20();
    return 2;
}
