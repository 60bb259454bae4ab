// C07: transition dynamics of speed, lane change and lane offset actions, for every sequence of frame times.
#include <algorithm>
#include "story.hpp"
using std::string;
using std::vector;
using vf::fmt;

static double shape_f(const string& s, double p)  // 0..1 -> 0..1
{
    p = p < 0 ? 0 : p > 1 ? 1 : p;
    if (s == "linear")
        return p;
    if (s == "sinusoidal")
        return (1 - cos(M_PI * p)) / 2;
    if (s == "cubic")
        return p * p * (3 - 2 * p);
    return 1;
}
static double peak_slope(const string& s)  // steepest slope of the unit shape
{
    return s == "linear" ? 1 : s == "sinusoidal" ? M_PI / 2 : 1.5;
}
static double peak_curv(const string& s)
{
    return s == "sinusoidal" ? M_PI * M_PI / 2 : 6;
}

static int  g_started, g_ended;
static void on_state(const char* name, int, int state, const char*)
{
    if (string(name) == "ac")
    {
        if (state == 2)
            g_started++;
        if (state == 3)
            g_ended++;
    }
}
static void on_decl(void*)
{
    SE_RegisterStoryBoardElementStateChangeCallback(on_state);
}

struct Dyn
{
    string         name;
    int            kind;  // 0 speed absolute, 1 speed relative, 2 lane change, 3 lane offset
    string         shape, dim;
    double         val = 1;
    double         v0 = 10, v1 = 20;  // speed: initial and target
    double         ref_speed = 0;
    int            factor    = 0;
    int            lane0 = -2, lane1 = -1;
    double         off0 = 0, off1 = 0;
    int            rel    = 0;       // lane target relative to itself
    double         maxacc = 200, maxdec = 200, maxspeed = 100;
    vector<double> dts = {0.05, 0.2};
    int            depth = 8;
    int            reexec = 0;
    double         hdg    = 0;  // heading of the entity relative to the road
    int            chain  = 0;  // the road ends shortly after the start and continues in one drawn in the other direction
    string         ref    = "A";  // relative lane target: reference entity
    int            ref_lane = -1;
    double         ref_hdg  = 0;
    int            cont     = 0;   // relative speed: keep following
    vector<double> refs;           // relative speed: speeds the reference may take, one per frame
};

static string vehicle(const string& name, const Dyn& d)
{
    string s = scn::vehicle(name);
    string a = "maxSpeed=\"100\" maxAcceleration=\"200\" maxDeceleration=\"200\"";
    s.replace(s.find(a), a.size(), fmt("maxSpeed=\"%g\" maxAcceleration=\"%g\" maxDeceleration=\"%g\"", d.maxspeed, d.maxacc, d.maxdec));
    return s;
}
static double lane_t(int lane, double off)
{
    return (lane > 0 ? lane - 0.5 : lane + 0.5) * 3.5 + off;
}

static string chain_roads()
{
    string r;
    for (int id = 1; id <= 2; id++)
    {
        double len = id == 1 ? 2006 : 1994;
        r += fmt("<road name=\"r%d\" length=\"%g\" id=\"%d\" junction=\"-1\"><link><successor elementType=\"road\" elementId=\"%d\" contactPoint=\"end\"/></link>", id, len, id, 3 - id) +
             fmt("<planView><geometry s=\"0\" x=\"%g\" y=\"0\" hdg=\"%.17g\" length=\"%g\"><line/></geometry></planView><lanes><laneSection s=\"0\">", id == 1 ? 0.0 : 4000.0, id == 1 ? 0.0 : M_PI, len);
        auto lane = [&](int l)
        { return fmt("<lane id=\"%d\" type=\"driving\" level=\"false\"><link><successor id=\"%d\"/></link><width sOffset=\"0\" a=\"3.5\" b=\"0\" c=\"0\" d=\"0\"/></lane>", l, -l); };
        r += "<left>" + lane(2) + lane(1) + "</left><center><lane id=\"0\" type=\"none\" level=\"false\"/></center><right>" + lane(-1) + lane(-2) + "</right></laneSection></lanes></road>";
    }
    return r;
}

static void check(const Dyn& c)
{
    scn::Tree tree;
    tree.n     = static_cast<int>(c.dts.size() * std::max<size_t>(1, c.refs.size()));
    double ref_now = c.ref_speed;
    tree.depth = c.depth;
    string doc;
    double elapsed = 0, last_dt = 0, v_start = c.v0, s0 = 50, t_start = 0;
    int    phase   = 0;  // 0 running, 1 ended
    double prev_v = c.v0, prev_t = 0;
    int    runs = 0;
    double pend = 0;

    double target_v = c.v1;
    if (c.kind == 1)
        target_v = c.factor ? c.ref_speed * c.v1 : c.ref_speed + c.v1;
    double lim_target = std::max(-c.maxspeed, std::min(c.maxspeed, target_v));
    double target_t   = 0;

    auto duration_speed = [&](double from) -> double
    {
        double dv = lim_target - from, T;
        if (c.shape == "step" || fabs(dv) < 1e-9)
            return 0;
        if (c.dim == "time")
            T = c.val;
        else if (c.dim == "rate")
            T = fabs(dv) * peak_slope(c.shape) / c.val;
        else if (from * target_v < 0)
        {
            double f = from * from / (from * from + target_v * target_v);
            T        = 2 * f * c.val / fabs(from) + 2 * (1 - f) * c.val / fabs(target_v);
        }
        else
            T = 2 * c.val / fabs(from + target_v);
        // the shape is stretched as far as the performance limits demand, not further
        return std::max(T, fabs(dv) * peak_slope(c.shape) / (dv > 0 ? c.maxacc : c.maxdec));
    };
    bool limited = c.maxacc < 100 || c.maxdec < 100;

    auto fail = [&](const string& what) -> bool
    {
        vf::violation(c.name + "@" + tree.path_str(), c.name + " frames " + tree.path_str() + ": " + what, doc);
        return false;
    };
    auto frame = [&](double dt) -> bool
    {
        int                    st0 = g_started, en0 = g_ended;
        SE_ScenarioObjectState o;
        if (SE_StepDT(dt) != 0 || SE_GetObjectState(0, &o) != 0)
            return fail("step failed");
        bool started = g_started > st0, ended = g_ended > en0;
        if (started)
        {
            elapsed = 0;
            runs++;
            phase   = 0;
            v_start = prev_v;
            t_start = prev_t;
            if (c.kind >= 2)
                s0 = pend;
        }
        if (runs == 0)
            return fail("action did not start");
        elapsed += dt;
        vf::cmp();
        double e = 1e-4;
        double ox = o.x, oy = o.y;
        if (c.kind == 1 && !c.refs.empty())
        {
            // the reference changes its speed while the action runs
            double v = o.speed, goal = std::max(-c.maxspeed, std::min(c.maxspeed, c.factor ? ref_now * c.v1 : ref_now + c.v1)), a = (v - prev_v) / dt;
            vf::state(fmt("%s %.6f %.3f %d", c.name.c_str(), v, goal, phase));
            if (a > c.maxacc + 1e-2 || a < -c.maxdec - 1e-2)
                return fail(fmt("acceleration %.4f outside limits -%g..%g", a, c.maxdec, c.maxacc));
            if (fabs(v) > c.maxspeed + e)
                return fail(fmt("speed %.6f above the vehicle's limit", v));
            if (phase == 1)
            {
                if (fabs(v - prev_v) > e || ended)
                    return fail(fmt("speed %.6f changes after the end (%.6f)", v, prev_v));
            }
            else
            {
                if (c.cont && ended)
                    return fail("a continuous action ended");
                if (ended && fabs(v - goal) > e)
                    return fail(fmt("ended at speed %.6f while the target is %.6f", v, goal));
                bool over = elapsed - dt > c.val - 1e-6;  // transition time is over: follow as directly as the limits allow
                if (limited)
                {
                    double lo = v_start, hi = v_start;
                    for (double r : c.refs)
                    {
                        double g = std::max(-c.maxspeed, std::min(c.maxspeed, c.factor ? r * c.v1 : r + c.v1));
                        lo       = std::min(lo, g);
                        hi       = std::max(hi, g);
                    }
                    if (v < lo - e || v > hi + e)
                        return fail(fmt("speed %.6f outside %g..%g", v, lo, hi));
                }
                else if (over)
                {
                    double want = prev_v + std::max(-c.maxdec * dt, std::min(c.maxacc * dt, goal - prev_v));
                    if (fabs(v - want) > 1e-3)
                        return fail(fmt("speed %.6f, expected %.6f on the way to %.6f", v, want, goal));
                }
                else
                {
                    double want = v_start + (goal - v_start) * shape_f(c.shape, elapsed / c.val);
                    if (fabs(v - want) > 1e-3)
                        return fail(fmt("speed %.6f after %.4f of %.4f s, expected %.6f (target %.6f)", v, elapsed, c.val, want, goal));
                    if (!c.cont && (elapsed > c.val - 1e-6) != ended)
                        return fail(fmt("after %.4f of %.4f s the action has %sended", elapsed, c.val, ended ? "" : "not "));
                }
                if (!c.cont && over && fabs(v - goal) < 1e-7 && !ended)
                    return fail("target reached but the action goes on");
            }
            prev_v = v;
        }
        else if (c.kind <= 1)
        {
            double v = o.speed, T = duration_speed(v_start);
            double want = T < 1e-9 ? lim_target : v_start + (lim_target - v_start) * shape_f(c.shape, elapsed / T);
            if (phase == 1)
                want = lim_target;
            vf::state(fmt("%s %.6f %d", c.name.c_str(), v, phase));
            {
                if (fabs(v - want) > (limited ? 1e-3 : e))
                    return fail(fmt("speed %.6f after %.4f s, expected %.6f (from %g to %g in %g s)", v, elapsed, want, v_start, lim_target, T));
                bool done = elapsed > T - 1e-6;
                bool open = fabs(lim_target - v_start) < 1e-9;  // nothing to change: whether the given time is waited for is left open
                if (phase == 0 && !open && done != ended && !(limited && fabs(elapsed - T) < 1e-3))
                    return fail(fmt("after %.4f of %.4f s the action has %sended", elapsed, T, ended ? "" : "not "));
                if (phase == 1 && ended)
                    return fail("ended twice");
            }
            if (limited)
            {
                double a = (v - prev_v) / dt;
                if (started && c.shape == "step")
                    a = 0;  // a step is applied as such
                if (a > c.maxacc + e || a < -c.maxdec - e)
                    return fail(fmt("acceleration %.4f outside limits -%g..%g", a, c.maxdec, c.maxacc));
                if ((v - prev_v) * (lim_target - v_start) < -e)
                    return fail(fmt("speed moves away from the target: %.6f after %.6f", v, prev_v));
                double lo = std::min(v_start, lim_target) - e, hi = std::max(v_start, lim_target) + e;
                if (v < lo || v > hi)
                    return fail(fmt("speed %.6f outside %g..%g", v, lo, hi));
                if (ended && fabs(v - lim_target) > e)
                    return fail(fmt("ended at speed %.6f instead of %g", v, lim_target));
                if (phase == 1 && fabs(v - lim_target) > e)
                    return fail("speed left the target after the end");
                // never faster than the shape asks for
                if (T > 1e-9 && fabs(v - v_start) > fabs(lim_target - v_start) * shape_f(c.shape, elapsed / T) + e)
                    return fail(fmt("speed %.6f runs ahead of the requested shape", v));
            }
            if (fabs(v) > c.maxspeed + e)
                return fail(fmt("speed %.6f above the vehicle's limit", v));
            prev_v = v;
        }
        else if (c.kind == 2)
        {
            double t   = oy, s = ox;
            double span = fabs(target_t - t_start), p;
            if (c.shape == "step" || span < 1e-9)
                p = 1;
            else if (c.dim == "time")
                p = elapsed / c.val;
            else if (c.dim == "rate")
                p = elapsed / (span * peak_slope(c.shape) / c.val);
            else
                p = fabs(s - s0) / c.val;
            if (phase == 1)
                p = 1;
            double want = t_start + (target_t - t_start) * shape_f(c.shape, p);
            vf::state(fmt("%s %.6f %.6f %d", c.name.c_str(), t, s, phase));
            if (fabs(t - want) > 1e-3)
                return fail(fmt("lateral position %.6f after %.4f s and %.4f m, expected %.6f (from %g to %g)", t, elapsed, s - s0, want, t_start, target_t));
            if (phase == 0 && ended && fabs(t - target_t) > 1e-3)
                return fail(fmt("ended at %.6f instead of %g", t, target_t));
            if (phase == 0 && !ended && p > 1 + 1e-6)
                return fail("action goes on after the target was reached");
            int flip = o.roadId == 1 ? 1 : -1;
            if (phase == 1 && (o.laneId != flip * c.lane1 || fabs(o.laneOffset - flip * c.off1) > 1e-3))
                return fail(fmt("in lane %d offset %.4f, target lane %d offset %g", o.laneId, o.laneOffset, flip * c.lane1, flip * c.off1));
            if ((phase == 1 || ended) && fabs(sin(o.h - (c.hdg))) > 1e-3)
                return fail(fmt("heading %.5f after the end", o.h));
            double path = hypot(s - pend, t - prev_t);
            if (c.dim == "distance" && path > fabs(o.speed) * dt * 1.1 + 0.3 && c.shape != "step" && fabs(o.speed) < 30)
                return fail(fmt("moved %.4f m in %.3f s at %.2f m/s", path, dt, o.speed));
            if (path < fabs(o.speed) * dt * 0.7 && !ended && span < 4)
                return fail(fmt("moved only %.4f m in %.3f s at %.2f m/s", path, dt, o.speed));
            double dirn = cos(c.hdg) * (c.v0 < 0 ? -1 : 1);
            if ((s - pend) * dirn < -1e-6)
                return fail(fmt("longitudinal position moved back from %.4f to %.4f (y %.4f, road %d lane %d s %.4f h %.4f)", pend, s, t, o.roadId, o.laneId, o.s, o.h));
            prev_t = t;
            pend   = s;
        }
        else
        {
            double t = oy, span = fabs(target_t - t_start), T = c.shape == "step" || span < 1e-9 ? 0 : sqrt(peak_curv(c.shape == "linear" ? "cubic" : c.shape) * span / c.val);
            double lo = T < 1e-9 ? 1 : shape_f(c.shape, (elapsed - dt) / T), hi = T < 1e-9 ? 1 : shape_f(c.shape, elapsed / T);
            double p  = span < 1e-9 ? 1 : (t - t_start) / (target_t - t_start);
            vf::state(fmt("%s %.6f %d", c.name.c_str(), t, phase));
            if (phase == 0 && span > 1e-9 && (p < lo - 1e-3 || p > hi + 1e-3))
                return fail(fmt("lateral progress %.5f outside %.5f..%.5f after %.4f of %.4f s", p, lo, hi, elapsed, T));
            if ((phase == 1 || ended) && fabs(t - target_t) > 1e-3)
                return fail(fmt("offset ended at t=%.5f instead of %.5f", t, target_t));
            if (phase == 0 && !ended && elapsed - dt > T + 1e-6)
                return fail("action goes on after its time");
            prev_t = t;
        }
        if (ended)
            phase = 1;
        last_dt = dt;
        return true;
    };

    auto load = [&]() -> bool
    {
        scn::write_file("r.xodr", scn::odr(c.chain ? chain_roads() : scn::straight_road(4000, 2, 2)));
        char cwd[400];
        if (!getcwd(cwd, sizeof(cwd)))
            return false;
        string dynv = fmt("dynamicsShape=\"%s\" dynamicsDimension=\"%s\" value=\"%.17g\"", c.shape.c_str(), c.dim.c_str(), c.val);
        string act;
        if (c.kind == 0)
            act = scn::speed_action(c.v1, c.shape, c.dim, c.val);
        else if (c.kind == 1)
            act = "<LongitudinalAction><SpeedAction><SpeedActionDynamics " + dynv + "/><SpeedActionTarget><RelativeTargetSpeed entityRef=\"R\" " +
                  fmt("value=\"%.17g\" speedTargetValueType=\"%s\" continuous=\"%s\"/>", c.v1, c.factor ? "factor" : "delta", c.cont ? "true" : "false") + "</SpeedActionTarget></SpeedAction></LongitudinalAction>";
        else if (c.kind == 2)
            act = "<LateralAction><LaneChangeAction" + (c.off1 != 0 ? fmt(" targetLaneOffset=\"%.17g\"", c.off1) : string("")) + "><LaneChangeActionDynamics " + dynv + "/><LaneChangeTarget>" +
                  (c.rel ? fmt("<RelativeTargetLane entityRef=\"%s\" value=\"%d\"/>", c.ref.c_str(), c.rel) : fmt("<AbsoluteTargetLane value=\"%d\"/>", c.lane1)) + "</LaneChangeTarget></LaneChangeAction></LateralAction>";
        else
            act = fmt("<LateralAction><LaneOffsetAction continuous=\"false\"><LaneOffsetActionDynamics maxLateralAcc=\"%.17g\" dynamicsShape=\"%s\"/><LaneOffsetTarget>", c.val, c.shape.c_str()) +
                  (c.rel ? fmt("<RelativeTargetLaneOffset entityRef=\"R\" value=\"%.17g\"/>", c.off1) : fmt("<AbsoluteTargetLaneOffset value=\"%.17g\"/>", c.off1)) + "</LaneOffsetTarget></LaneOffsetAction></LateralAction>";
        string posa = fmt("<LanePosition roadId=\"1\" laneId=\"%d\" s=\"%.17g\" offset=\"%.17g\"><Orientation type=\"relative\" h=\"%.17g\"/></LanePosition>", c.lane0, 2000.0, c.off0, c.lane0 > 0 ? c.hdg - M_PI : c.hdg);
        string posr = fmt("<LanePosition roadId=\"1\" laneId=\"%d\" s=\"%.17g\" offset=\"0\"><Orientation type=\"relative\" h=\"%.17g\"/></LanePosition>", c.ref_lane, 1900.0, c.ref_lane > 0 ? c.ref_hdg - M_PI : c.ref_hdg);
        string init = scn::init_private("A", {scn::teleport(posa), scn::speed_action(c.v0)}) + scn::init_private("R", {scn::teleport(posr), scn::speed_action(c.ref_speed)});
        string ev   = fmt("<Event name=\"ev\" priority=\"parallel\" maximumExecutionCount=\"%d\"><Action name=\"ac\">", c.reexec ? 3 : 1) + scn::pa(act) + "</Action>" + scn::trigger("StartTrigger", scn::var_cond("go")) + "</Event>";
        doc         = scn::xosc(string(cwd) + "/r.xodr", vehicle("A", c) + scn::vehicle("R"), init,
                                "<Story name=\"s\"><Act name=\"act\"><ManeuverGroup name=\"mg\" maximumExecutionCount=\"1\"><Actors selectTriggeringEntities=\"false\"><EntityRef entityRef=\"A\"/></Actors><Maneuver name=\"m\">" + ev +
                                    "</Maneuver></ManeuverGroup></Act></Story>",
                                "<StopTrigger/>", scn::var_decl("go", "boolean", "false"));
        SE_RegisterParameterDeclarationCallback(on_decl, nullptr);
        if (!scn::load(doc))
        {
            vf::violation(c.name + "@load", "valid scenario rejected", doc);
            return false;
        }
        SE_StepDT(0.1);
        SE_ScenarioObjectState o;
        SE_GetObjectState(0, &o);
        prev_v = o.speed;
        prev_t = o.y;
        pend   = o.x;
        s0     = o.x;
        if (fabs(o.speed - c.v0) > 1e-5 || o.laneId != c.lane0 || fabs(o.laneOffset - c.off0) > 1e-5)
            return fail(fmt("initial state not as given: speed %g lane %d offset %g", o.speed, o.laneId, o.laneOffset));
        target_t = c.kind == 2 ? lane_t(c.lane1, c.off1) : c.kind == 3 ? (c.rel ? lane_t(c.ref_lane, 0) + c.off1 * (cos(c.ref_hdg) > 0 ? 1 : -1) : lane_t(c.lane0, c.off1)) : 0;
        SE_SetVariableBool("go", true);
        return true;
    };

    if (c.reexec)
    {
        // run, bring the entity back to where it was, run again
        int r = vf::isolated(
            [&]()
            {
                if (!load())
                    return;
                for (int round = 0; round < 3; round++)
                {
                    if (round)
                    {
                        SE_SetVariableBool("go", false);
                        if (c.kind <= 1)
                            SE_ReportObjectSpeed(0, c.v0);
                        else
                            SE_ReportObjectRoadPos(0, 1, c.lane0, c.off0, 2000);
                        SE_StepDT(0.125);
                        if (c.kind <= 1)
                            SE_ReportObjectSpeed(0, c.v0);
                        SE_ScenarioObjectState o;
                        SE_GetObjectState(0, &o);
                        prev_v = c.kind <= 1 ? c.v0 : o.speed;
                        prev_t = o.y;
                        pend   = o.x;
                        SE_SetVariableBool("go", true);
                    }
                    int want = runs + 1;
                    for (int k = 0; k < 80; k++)
                    {
                        vf::step();
                        if (k == 1)
                            SE_SetVariableBool("go", false);
                        if (!frame(0.125))
                            return;
                        if (phase == 1)
                            break;
                    }
                    if (runs != want || phase != 1)
                    {
                        fail(fmt("round %d: started %d times, ended %d", round, runs, phase));
                        return;
                    }
                }
                vf::eval();
            });
        if (r != 0)
            vf::violation("crash:" + c.name, fmt("%s ended abnormally (%d)", c.name.c_str(), r), doc);
        return;
    }
    tree.apply = [&](int in) -> bool
    {
        if (!c.refs.empty())
        {
            ref_now = c.refs[static_cast<size_t>(in) / c.dts.size()];
            SE_ReportObjectSpeed(1, static_cast<float>(ref_now));
        }
        return frame(c.dts[static_cast<size_t>(in) % c.dts.size()]);
    };
    tree.leaf  = [&]()
    {
        vf::outcome(c.name + fmt("%.6f %.6f %d", prev_v, prev_t, phase));
        if (vf::fnv(c.name + tree.path_str()) % 3000 == 1)
            vf::sample(c.name + " frames " + tree.path_str() + fmt(" speed %.4f t %.4f %s", prev_v, prev_t, phase ? "ended" : "running"));
    };
    tree.run([&]() { return load(); });
}

int main(int argc, char** argv)
{
    vf::init(argc, argv, "C07");
    bool                  deep_ = vf::C().thorough();
    std::vector<vf::Case> cases;
    auto                  add = [&](Dyn d)
    {
        cases.push_back({d.name, [d]() { check(d); }});
    };
    vector<string> shapes = {"linear", "sinusoidal", "cubic", "step"}, dims = {"time", "rate", "distance"};
    int            D = deep_ ? 11 : 7;
    for (auto& sh : shapes)
        for (auto& dm : dims)
            for (auto& vv : vector<std::pair<double, double>>{{10, 20}, {20, 5}, {0, 8}, {12, 0}, {-6, 9}, {7, -5}, {10, 10}, {-4, -9}})
                for (double val : dm == "distance" ? vector<double>{4, 9} : dm == "rate" ? vector<double>{12, 40} : vector<double>{0.4, 0.95})
                {
                    if (sh == "step" && val > 0.5 && val != 4)
                        continue;
                    Dyn d;
                    d.kind  = 0;
                    d.shape = sh;
                    d.dim   = dm;
                    d.val   = val;
                    d.v0    = vv.first;
                    d.v1    = vv.second;
                    d.depth = D;
                    d.dts   = {0.05, 0.2};
                    d.name  = fmt("speed %s %s %g: %g->%g", sh.c_str(), dm.c_str(), val, d.v0, d.v1);
                    add(d);
                    if (deep_)
                    {
                        d.dts   = {0.01, 0.1, 0.37};
                        d.depth = 6;
                        d.name += " dt3";
                        add(d);
                    }
                }
    // relative targets
    for (auto& sh : vector<string>{"linear", "cubic", "step"})
        for (auto& dm : vector<string>{"time", "rate"})
            for (int f = 0; f < 2; f++)
                for (double v1 : f ? vector<double>{0.5, 2} : vector<double>{-3, 4})
                {
                    Dyn d;
                    d.kind      = 1;
                    d.shape     = sh;
                    d.dim       = dm;
                    d.val       = dm == "rate" ? 20 : 0.7;
                    d.v0        = 10;
                    d.v1        = v1;
                    d.factor    = f;
                    d.ref_speed = 8;
                    d.depth     = D;
                    d.name      = fmt("relspeed %s %s %s %g", sh.c_str(), dm.c_str(), f ? "factor" : "delta", v1);
                    add(d);
                }
    for (auto& sh : vector<string>{"linear", "sinusoidal", "cubic"})
        for (int f = 0; f < 2; f++)
            for (int cont = 0; cont < 2; cont++)
                for (int lim = 0; lim < 2; lim++)
                {
                    Dyn d;
                    d.kind      = 1;
                    d.shape     = sh;
                    d.dim       = "time";
                    d.val       = 0.3;
                    d.v0        = f ? -2 : 10;
                    d.v1        = f ? 0.5 : -3;
                    d.factor    = f;
                    d.ref_speed = f ? -8 : 8;
                    d.refs      = {d.ref_speed, f ? -14.0 : 12.0};
                    d.dts       = {0.05, 0.2};
                    d.cont      = cont;
                    d.depth     = deep_ ? 5 : 4;
                    if (lim)
                    {
                        d.maxacc   = 12;
                        d.maxdec   = 25;
                        d.maxspeed = 11;
                    }
                    d.name = fmt("following %s %s cont%d lim%d", sh.c_str(), f ? "factor" : "delta", cont, lim);
                    add(d);
                }
    // performance limits
    for (auto& sh : vector<string>{"linear", "sinusoidal", "cubic"})
        for (auto& dm : dims)
            for (auto& vv : vector<std::pair<double, double>>{{10, 14}, {14, 10}, {0, 60}, {-2, -60}, {3, -3}})
            {
                Dyn d;
                d.kind     = 0;
                d.shape    = sh;
                d.dim      = dm;
                d.val      = dm == "rate" ? 30 : dm == "distance" ? 3 : 0.3;
                d.v0       = vv.first;
                d.v1       = vv.second;
                d.maxacc   = 6;
                d.maxdec   = 8;
                d.maxspeed = 40;
                d.depth    = D + 1;
                d.name     = fmt("limited %s %s %g->%g", sh.c_str(), dm.c_str(), d.v0, d.v1);
                add(d);
            }
    {
        Dyn d;
        d.kind     = 0;
        d.shape    = "linear";
        d.dim      = "time";
        d.val      = 0.5;
        d.v0       = 30;
        d.v1       = 60;
        d.maxspeed = 40;
        d.depth    = D;
        d.name     = "top speed";
        add(d);
    }
    // lane changes
    struct L
    {
        int    l0, l1, rel;
        double o0, o1, hdg, v;
    };
    for (auto& sh : shapes)
        for (auto& dm : dims)
            for (auto& l : vector<L>{{-2, -1, 0, 0, 0, 0, 20}, {-1, -2, 0, 0.4, -0.3, 0, 20}, {-1, 1, 0, 0, 0, 0, 20}, {1, 2, 0, 0, 0.5, M_PI, 20}, {-2, -1, 1, 0, 0, 0, 20}, {2, 1, 1, 0, 0, M_PI, 20}, {-2, -2, 0, 0.8, 0, 0, 20}, {-1, 1, 1, 0, 0, 0, 20}, {-2, -1, 0, 0, 0, 0, -15}, {-1, 2, 2, 0, 0, 0, 50}, {-2, 2, 3, 0, 0, 0, 50}, {2, -2, 3, 0, 0, M_PI, 50}})
                for (double val : dm == "distance" ? vector<double>{12, 25} : dm == "rate" ? vector<double>{4, 7} : vector<double>{0.6, 1.1})
                {
                    if (sh == "step" && val != 12 && val != 4 && val != 0.6)
                        continue;
                    Dyn d;
                    d.kind  = 2;
                    d.shape = sh;
                    d.dim   = dm;
                    d.val   = val;
                    d.v0    = l.v;
                    d.lane0 = l.l0;
                    d.lane1 = l.l1;
                    d.rel   = l.rel;
                    d.off0  = l.o0;
                    d.off1  = l.o1;
                    d.hdg   = l.hdg;
                    d.depth = D;
                    d.name  = fmt("lanechange %s %s %g: %d%+g->%d%+g rel%d h%g v%g", sh.c_str(), dm.c_str(), val, l.l0, l.o0, l.l1, l.o1, l.rel, l.hdg, l.v);
                    add(d);
                }
    // lane changes relative to another entity in any lane, driving either way; across the border to a road drawn in the other direction
    struct R
    {
        int    lane;
        double h;
        int    rel, l1, l0;
    };
    for (auto& r : vector<R>{{-2, 0, 1, -1, -2}, {-2, 0, 2, 1, -2}, {-1, 0, -1, -2, -1}, {1, M_PI, 1, -1, -2}, {2, M_PI, 1, 1, -1}, {2, 0, -1, 1, -1}, {2, 0, -3, -2, -1}, {-1, M_PI, 1, -2, -1}, {-2, M_PI, -1, -1, -2}})
    {
        Dyn d;
        d.kind     = 2;
        d.shape    = "sinusoidal";
        d.dim      = "time";
        d.val      = 0.6;
        d.v0       = 50;
        d.lane0    = r.l0;
        d.lane1    = r.l1;
        d.rel      = r.rel;
        d.ref      = "R";
        d.ref_lane = r.lane;
        d.ref_hdg  = r.h;
        d.depth    = D - 2;
        d.name     = fmt("lanechange relative to R in %d h%g: %d%+d->%d", r.lane, r.h, r.l0, r.rel, r.l1);
        add(d);
    }
    for (auto& sh : shapes)
        for (auto& dm : dims)
            for (auto& l : vector<L>{{-2, -1, 0, 0, 0, 0, 20}, {-1, -2, 0, 0.4, -0.3, 0, 20}, {-1, 1, 1, 0, 0, 0, 20}, {-2, -2, 0, 0.8, 0, 0, 20}, {-1, 1, 0, 0, 0.5, 0, 20}})
            {
                Dyn d;
                d.kind  = 2;
                d.shape = sh;
                d.dim   = dm;
                d.val   = dm == "distance" ? 15 : dm == "rate" ? 6 : 0.7;
                d.v0    = l.v;
                d.lane0 = l.l0;
                d.lane1 = l.l1;
                d.rel   = l.rel;
                d.off0  = l.o0;
                d.off1  = l.o1;
                d.chain = 1;
                d.depth = D - 1;
                d.name  = fmt("lanechange over border %s %s: %d%+g->%d%+g rel%d", sh.c_str(), dm.c_str(), l.l0, l.o0, l.l1, l.o1, l.rel);
                add(d);
            }
    for (auto& sh : shapes)
        for (auto& l : vector<L>{{-2, -2, 0, 0, 1, 0, 20}, {-1, -1, 0, 0.5, -1.2, 0, 20}})
        {
            Dyn d;
            d.kind  = 3;
            d.shape = sh;
            d.dim   = "time";
            d.val   = 12;
            d.v0    = l.v;
            d.lane0 = l.l0;
            d.lane1 = l.l1;
            d.off0  = l.o0;
            d.off1  = l.o1;
            d.chain = 1;
            d.depth = D - 1;
            d.name  = fmt("laneoffset over border %s: %d%+g->%+g", sh.c_str(), l.l0, l.o0, l.o1);
            add(d);
        }
    for (auto& sh : vector<string>{"sinusoidal", "cubic"})
        for (auto& r : vector<R>{{-1, 0, 1, -2, -2}, {-1, M_PI, 1, -2, -2}, {1, M_PI, 1, -1, -1}, {1, 0, 1, -1, -1}})
        {
            Dyn d;
            d.kind     = 3;
            d.shape    = sh;
            d.dim      = "time";
            d.val      = 25;
            d.v0       = 20;
            d.lane0    = r.l0;
            d.lane1    = r.l1;
            d.rel      = 1;
            d.off1     = 0.6;
            d.ref_lane = r.lane;
            d.ref_hdg  = r.h;
            d.depth    = D - 1;
            d.name     = fmt("laneoffset %s relative to R in %d h%g: %d", sh.c_str(), r.lane, r.h, r.l0);
            add(d);
        }
    // lane offset
    for (auto& sh : shapes)
        for (double acc : {4.0, 15.0})
            for (auto& l : vector<L>{{-2, -2, 0, 0, 1, 0, 20}, {-1, -1, 0, 0.5, -1.2, 0, 20}, {1, 1, 0, 0, 1, M_PI, 20}, {-2, -2, 1, 0, 0.6, 0, 20}, {-2, -2, 1, 0.3, -0.6, 0, 20}, {-2, -2, 0, 0.7, 0.7, 0, 20}})
            {
                Dyn d;
                d.kind  = 3;
                d.shape = sh;
                d.dim   = "time";
                d.val   = acc;
                d.v0    = l.v;
                d.lane0 = l.l0;
                d.lane1 = l.l1;
                d.rel   = l.rel;
                d.off0  = l.o0;
                d.off1  = l.o1;
                d.hdg   = l.hdg;
                d.depth = D;
                d.name  = fmt("laneoffset %s acc%g: %d%+g->%+g rel%d h%g", sh.c_str(), acc, l.l0, l.o0, l.o1, l.rel, l.hdg);
                add(d);
            }
    // the same action executed again and again
    for (auto& sh : shapes)
        for (auto& dm : dims)
            for (int kind : {0, 1, 2, 3})
            {
                if (kind == 3 && dm != "time")
                    continue;
                if (kind == 1 && dm == "distance")
                    continue;
                Dyn d;
                d.kind      = kind;
                d.reexec    = 1;
                d.shape     = sh;
                d.dim       = dm;
                d.v0        = kind == 2 || kind == 3 ? 20 : 10;
                d.v1        = kind == 1 ? 5 : 18;
                d.ref_speed = 8;
                d.val       = kind <= 1 ? (dm == "time" ? 1.0 : dm == "rate" ? 8 : 15) : kind == 2 ? (dm == "time" ? 1.0 : dm == "rate" ? 5 : 20) : 6;
                d.off1      = kind == 3 ? 0.8 : 0;
                d.lane0     = -2;
                d.lane1     = kind == 2 ? -1 : -2;
                d.name      = fmt("again kind%d %s %s", kind, sh.c_str(), dm.c_str());
                add(d);
            }
    vf::run(cases, 300);
    return vf::finish("speed actions: 4 shapes x 3 dimensions x 8 start/target pairs x 2 values, relative targets, performance limits; lane changes: 4 shapes x 3 dimensions x 9 lane/offset/direction pairs x 2 values; lane offsets: 4 shapes x 2 "
                      "accelerations x 6 targets; all frame time sequences {0.05,0.2}^7 (^11 thorough); repeated execution of each kind",
                      {"straight road", "a lane offset may lag the shape by one frame"});
}
