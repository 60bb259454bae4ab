// C31: a ghost drives the scenario of its entity ahead of time, for every program of up to two events of the bounded set.
#include <algorithm>
#include <map>
#include "story.hpp"
using std::string;
using std::vector;
using vf::fmt;

struct Pose
{
    double x, y, h, v;
};
// triggers and actions
static const double DT = 0.05;
struct Prog
{
    vector<int> trig, act;
    int         follow = 0;  // 0: external controller, reported where it would be without ghost; 1: follow ghost
    double      head   = 2.5;
    double      act_from = -1000;  // when the act starts
};
static const char* TRIG[] = {"time", "distance", "position", "speed", "variable", "after", "headway", "time+distance"};
static const char* ACT[]  = {"speed", "ramp", "lane", "offset", "trajectory", "profile", "brake", "teleport"};
static string      str(const Prog& p)
{
    string s = fmt("headstart %g", p.head);
    if (p.act_from > 0)
        s += fmt(", act from %g s", p.act_from);
    for (size_t i = 0; i < p.trig.size(); i++)
        s += fmt(", %s: %s", TRIG[p.trig[i]], ACT[p.act[i]]);
    return s;
}
static string cond(const string& name, const string& inner)
{
    return "<Condition name=\"" + name + "\" delay=\"0\" conditionEdge=\"none\">" + inner + "</Condition>";
}
static string ent_cond(const string& inner)
{
    return cond("c", "<ByEntityCondition><TriggeringEntities triggeringEntitiesRule=\"any\"><EntityRef entityRef=\"Ego\"/></TriggeringEntities><EntityCondition>" + inner + "</EntityCondition></ByEntityCondition>");
}
static string trig_xml(int t, size_t i)
{
    switch (t)
    {
        case 0:
            return scn::time_cond(i == 0 ? 1.5 : 4, "greaterThan");
        case 1:
            return ent_cond(fmt("<TraveledDistanceCondition value=\"%g\"/>", i == 0 ? 22.2 : 61.3));
        case 2:
            return ent_cond(fmt("<ReachPositionCondition tolerance=\"3\"><Position>") + scn::lane_pos(1, -1, i == 0 ? 130.3 : 160.7) + "</Position></ReachPositionCondition>");
        case 3:
            return ent_cond(fmt("<SpeedCondition value=\"%g\" rule=\"%s\"/>", i == 0 ? 9.0 : 12.0, "greaterThan"));
        case 4:
            return scn::var_cond(fmt("v%zu", i));
        case 5:
            return cond("c", "<ByValueCondition><StoryboardElementStateCondition storyboardElementType=\"action\" storyboardElementRef=\"" + fmt("a%zu", i - 1) + "\" state=\"completeState\"/></ByValueCondition>");
        case 6:
            return ent_cond(fmt("<TimeHeadwayCondition entityRef=\"T\" value=\"%g\" freespace=\"false\" coordinateSystem=\"road\" relativeDistanceType=\"longitudinal\" rule=\"lessThan\"/>", i == 0 ? 5.0 : 3.0));
        default:
            return i == 0 ? scn::time_cond(2.0, "greaterThan") + ent_cond("<TraveledDistanceCondition value=\"10\"/>") : ent_cond("<TraveledDistanceCondition value=\"30.1\"/>") + scn::time_cond(4.6, "greaterThan");
    }
}
static string act_xml(int a, size_t i)
{
    switch (a)
    {
        case 0:
            return scn::speed_action(i == 0 ? 14 : 7);
        case 1:
            return scn::speed_action(i == 0 ? 15 : 6, "linear", "time", 2.2);
        case 2:
            return scn::lane_change(i == 0 ? -2 : -3, "sinusoidal", "time", 2.4);
        case 3:
            return fmt("<LateralAction><LaneOffsetAction continuous=\"false\"><LaneOffsetActionDynamics dynamicsShape=\"sinusoidal\" maxLateralAcc=\"2\"/><LaneOffsetTarget><AbsoluteTargetLaneOffset value=\"%g\"/></LaneOffsetTarget></LaneOffsetAction></LateralAction>", i == 0 ? 1.1 : -0.8);
        case 4:
        {
            double s = i == 0 ? 160 : 230;
            string v;
            for (int k = 0; k < 5; k++)
                v += fmt("<Vertex time=\"%g\"><Position>", k * 1.5) + scn::lane_pos(1, k < 2 ? -1 : -2, s + 15 * k) + "</Position></Vertex>";
            return "<RoutingAction><FollowTrajectoryAction><TrajectoryRef><Trajectory name=\"t\" closed=\"false\"><Shape><Polyline>" + v +
                   "</Polyline></Shape></Trajectory></TrajectoryRef><TimeReference><Timing domainAbsoluteRelative=\"relative\" scale=\"1\" offset=\"0\"/></TimeReference><TrajectoryFollowingMode followingMode=\"position\"/></FollowTrajectoryAction></RoutingAction>";
        }
        case 5:
            return "<LongitudinalAction><SpeedProfileAction followingMode=\"position\"><SpeedProfileEntry time=\"1\" speed=\"12\"/><SpeedProfileEntry time=\"2\" speed=\"5\"/></SpeedProfileAction></LongitudinalAction>";
        case 6:
            return scn::speed_action(0, "linear", "rate", 4);
        default:
            return scn::teleport(scn::lane_pos(1, -2, i == 0 ? 300.25 : 420.5));
    }
}
static bool other(int t)  // triggers that make the ghost start over
{
    return t == 4 || t == 6;
}
// on: bit per event, cleared where such an event never happens
static string document(const Prog& p, int ghost, unsigned on = ~0u)  // 0: none, 1: external, 2: follow ghost
{
    char cwd[400];
    if (!getcwd(cwd, sizeof(cwd)))
        return "";
    string ctrl;
    if (ghost)
        ctrl = fmt("<ObjectController><Controller name=\"c\"><ParameterDeclarations/><Properties><Property name=\"esminiController\" value=\"%s\"/><Property name=\"useGhost\" value=\"true\"/><Property name=\"headstartTime\" value=\"%g\"/></Properties></Controller></ObjectController>",
                   ghost == 1 ? "ExternalController" : "FollowGhostController", p.head);
    string ent = scn::vehicle("Ego");
    if (ghost)
    {
        size_t k = ent.rfind("</ScenarioObject>");
        ent.insert(k, ctrl);
    }
    ent += scn::vehicle("T");
    vector<string> ia = {scn::teleport(scn::lane_pos(1, -1, 100)), scn::speed_action(10)};
    if (ghost)
        ia.push_back("<ActivateControllerAction longitudinal=\"true\" lateral=\"true\"/>");
    string init = scn::init_private("Ego", ia);
    init += scn::init_private("T", {scn::teleport(scn::lane_pos(1, -3, 220)), scn::speed_action(4)});
    string ev;
    for (size_t i = 0; i < p.trig.size(); i++)
    {
        string c = trig_xml(p.trig[i], i);
        if (!(on >> i & 1))
            c = scn::time_cond(1e6);
        ev += fmt("<Event name=\"e%zu\" priority=\"%s\" maximumExecutionCount=\"1\"><Action name=\"a%zu\">", i, "parallel", i) + scn::pa(act_xml(p.act[i], i)) + "</Action>" +
              scn::trigger("StartTrigger", c) +
              "</Event>";
    }
    string story = "<Story name=\"s\"><Act name=\"act\"><ManeuverGroup name=\"g\" maximumExecutionCount=\"1\"><Actors selectTriggeringEntities=\"false\"><EntityRef entityRef=\"Ego\"/></Actors><Maneuver name=\"m\">" + ev +
                   "</Maneuver></ManeuverGroup>" + scn::trigger("StartTrigger", scn::time_cond(p.act_from)) + "<StopTrigger/></Act></Story>";
    return scn::xosc(string(cwd) + "/r.xodr", ent, init, story, "<StopTrigger/>", scn::var_decl("v0", "boolean", "false") + scn::var_decl("v1", "boolean", "false"));
}
static Pose pose(const SE_ScenarioObjectState& s)
{
    return {s.x, s.y, s.h, s.speed};
}
static void inputs(long f)
{
    if (f == 33)
        SE_SetVariableBool("v0", true);
    if (f == 77)
        SE_SetVariableBool("v1", true);
}
static const long FRAMES = 200;
static std::map<string, long> g_start, g_end;
static long                   g_frame = 0;
static void                   on_state(const char* name, int, int state, const char*)
{
    if (state == 2 && !g_start.count(name))
        g_start[name] = g_frame;
    if (state == 3)
        g_end[name] = g_frame;
}
static void on_decl(void*)
{
    SE_RegisterStoryBoardElementStateChangeCallback(on_state);
}
static bool plain_run(const Prog& p, vector<Pose>& out, long n, unsigned on)
{
    g_start.clear();
    g_end.clear();
    g_frame = 0;
    SE_RegisterParameterDeclarationCallback(on_decl, nullptr);
    if (!scn::load(document(p, 0, on)))
        return false;
    SE_ScenarioObjectState s;
    SE_GetObjectState(0, &s);
    out.push_back(pose(s));
    for (long f = 0; f < n; f++)
    {
        g_frame = f + 1;
        inputs(f);
        SE_StepDT(static_cast<float>(DT));
        SE_GetObjectState(0, &s);
        out.push_back(pose(s));
    }
    SE_Close();
    return true;
}
static double adiff(double a, double b)
{
    return fabs(remainder(a - b, 2 * M_PI));
}
static void check(const string& name, const vector<Prog>& ps)
{
    scn::write_file("r.xodr", scn::odr(scn::straight_road(3000, 3, 3)));
    for (auto& p : ps)
    {
        vf::eval();
        vf::doing(name + " " + str(p));
        string       key = name + ":" + str(p), doc = document(p, 1);
        long         H = lround(p.head / DT);
        vector<Pose> plain;
        if (!plain_run(p, plain, FRAMES + H + 6, ~0u))
        {
            vf::violation(key, str(p) + ": the scenario does not load", doc);
            continue;
        }
        // what the ghost can know: other triggers only once they happen to the entity
        vector<std::pair<long, unsigned>> again;  // frame, events that may happen then
        unsigned                          on = ~0u;
        for (size_t i = 0; i < p.trig.size(); i++)
            if (other(p.trig[i]))
                on &= ~(1u << i);
        vector<std::pair<long, size_t>> fire;
        for (size_t i = 0; i < p.trig.size(); i++)
            if (other(p.trig[i]) && g_start.count(fmt("e%zu", i)))
                fire.push_back({g_start[fmt("e%zu", i)], i});
        std::sort(fire.begin(), fire.end());
        // starting over does not bring back what the ghost did already
        bool lost = false;
        for (auto& x : fire)
            for (size_t i = 0; i < p.trig.size(); i++)
            {
                string e = fmt("e%zu", i);
                long   a = g_start.count(e) ? g_start[e] : 1000000, b = g_end.count(e) ? g_end[e] : 1000000;
                if (i != x.second && a <= x.first + H + 2 && b >= x.first - 2)
                    lost = true;
            }
        if (lost)
            continue;
        vector<vector<Pose>> know;
        vector<long>         from;
        know.push_back(plain), from.push_back(-1);
        if (on != ~0u)
        {
            know.clear(), from.clear();
            for (size_t k = 0; k <= fire.size(); k++)
            {
                vector<Pose> r;
                if (k > 0)
                    on |= 1u << fire[k - 1].second;
                plain_run(p, r, FRAMES + H + 6, on);
                know.push_back(r);
                from.push_back(k == 0 ? -1 : fire[k - 1].first);
            }
        }
        if (!scn::load(doc))
        {
            vf::violation(key, str(p) + ": the scenario with ghost does not load", doc);
            continue;
        }
        int gid = SE_GetObjectGhostId(0);
        SE_ScenarioObjectState s, e;
        if (gid < 0)
        {
            vf::violation(key, str(p) + ": no ghost", doc);
            SE_Close();
            continue;
        }
        bool jumps = false, away = false;
        for (int a : p.act)
            jumps |= a == 7, away |= a == 7 || a == 4 || a == 5;
        for (long f = 0; f < FRAMES; f++)
        {
            inputs(f);
            const Pose& r = plain[static_cast<size_t>(f)];
            SE_ReportObjectPosXYH(0, r.x, r.y, r.h);
            SE_ReportObjectSpeed(0, r.v);
            SE_StepDT(static_cast<float>(DT));
            vf::step();
            SE_GetObjectState(gid, &s);
            SE_GetObjectState(0, &e);
            vf::cmp();
            size_t k = from.size() - 1;
            while (k > 0 && f + 1 < from[k])
                k--;
            const Pose& w = know[k][static_cast<size_t>(f + 1 + H)];
            // each restart may be off by a frame
            auto same = [&](size_t c)
            {
                bool r = false;
                for (long o = -4 * static_cast<long>(c); o <= 4 * static_cast<long>(c); o++)
                {
                    const Pose& q = know[c][static_cast<size_t>(f + 1 + H + o)];
                    double      d = hypot(s.x - q.x, s.y - q.y), dh = adiff(s.h, q.h), dv = fabs(s.speed - q.v);
                    double      n = static_cast<double>(c);
                    r |= d < 0.01 + n * 0.76 && fabs(s.y - q.y) < 0.01 + n * 0.02 && dh < 0.001 + n * 0.002 && dv < 0.01 + n * 0.02;
                }
                return r;
            };
            bool ok = same(k) || (k > 0 && f + 1 <= from[k] + 1 && same(k - 1));
            // the trail of the ghost tells where the entity is to be at any time, whatever was asked before
            if (ok && f % 13 == 12 && (k == 0 || f + 1 > from[k] + 1))
            {
                long   t0 = k == 0 ? 6 : from[k] + 8, t1 = f + 1 + H - 8;
                string bad;
                struct Ans
                {
                    double x, y, h, v;
                };
                std::map<long, Ans> ans;
                for (int back = 0; back < 2 && bad.empty(); back++)
                    for (long q = t0; q <= t1 && bad.empty(); q += 3)
                    {
                        long        t = back ? t1 - (q - t0) : q;
                        SE_RoadInfo ri;
                        double      v = 0;
                        int         rc = SE_GetRoadInfoGhostTrailTime(0, static_cast<double>(t) * DT, &ri, &v);
                        vf::cmp();
                        if (rc != 0 && v > 0.01)
                        {
                            bad = fmt("the ghost trail at %.2f s answers %d", static_cast<double>(t) * DT, rc);
                            break;
                        }
                        Ans a{ri.global_pos_x, ri.global_pos_y, ri.trail_heading, v};
                        if (ans.count(t) && (fabs(ans[t].x - a.x) > 1e-3 || fabs(ans[t].y - a.y) > 1e-3 || fabs(ans[t].v - a.v) > 1e-3 || adiff(ans[t].h, a.h) > 1e-3))
                            bad = fmt("the ghost trail at %.2f s is (%.3f, %.3f) or (%.3f, %.3f), depending on what was asked before", static_cast<double>(t) * DT, ans[t].x, ans[t].y, a.x, a.y);
                        ans[t]    = a;
                        long   w0 = 5 + static_cast<long>(k);
                        double lo[3] = {1e9, 1e9, 1e9}, hi[3] = {-1e9, -1e9, -1e9};
                        for (long o = -w0; o <= w0; o++)
                        {
                            size_t at = static_cast<size_t>(std::max(0L, std::min(t + o, FRAMES + H)));
                            const Pose& r2 = know[k][at];
                            double      c[3] = {r2.x, r2.y, r2.v};
                            for (int j = 0; j < 3; j++)
                                lo[j] = std::min(lo[j], c[j]), hi[j] = std::max(hi[j], c[j]);
                        }
                        double c[3] = {a.x, a.y, a.v}, tol[3] = {0.2 + 0.76 * static_cast<double>(k), 0.05, 0.05};
                        for (int j = 0; j < 3; j++)
                            if (!(hi[2] < 0.01 && jumps) && (c[j] < lo[j] - tol[j] || c[j] > hi[j] + tol[j]))  // the trail of a ghost at rest does not grow
                                bad = fmt("the ghost trail at %.2f s is (%.3f, %.3f) with %.3f m/s, without ghost (%.3f, %.3f) with %.3f m/s", static_cast<double>(t) * DT, a.x, a.y, a.v, know[k][static_cast<size_t>(t)].x, know[k][static_cast<size_t>(t)].y, know[k][static_cast<size_t>(t)].v);
                    }
                for (double L : {1.0, 7.0, 18.0})
                {
                    SE_RoadInfo ri, rj;
                    double      v = 0, v2 = 0, ts = 0;
                    if (!bad.empty() || SE_GetRoadInfoAlongGhostTrail(0, L, &ri, &v, &ts) != 0)
                        continue;
                    vf::cmp();
                    double dx = ri.global_pos_x - e.x;
                    if (!away && (dx < 0.9 * L - 1 || dx > L + 1))
                        bad = fmt("%g m ahead on the ghost trail is at x %.3f, the entity at %.3f", L, ri.global_pos_x, e.x);
                    else if (SE_GetRoadInfoGhostTrailTime(0, ts + p.head, &rj, &v2) != 0 || hypot(ri.global_pos_x - rj.global_pos_x, ri.global_pos_y - rj.global_pos_y) > 0.05 || fabs(v - v2) > 0.05)
                        bad = fmt("%g m ahead on the ghost trail is (%.3f, %.3f) with %.3f m/s at %.3f s, but the trail at that time is (%.3f, %.3f) with %.3f m/s", L, ri.global_pos_x, ri.global_pos_y, v, ts, rj.global_pos_x, rj.global_pos_y, v2);
                }
                if (!bad.empty())
                {
                    vf::violation(key, str(p) + fmt(": after %.2f s ", (f + 1) * DT) + bad, doc);
                    break;
                }
            }
            vf::state(fmt("%ld %.2f %.2f %.2f", f, s.x, s.y, static_cast<double>(s.speed)));
            if (!ok)
            {
                vf::violation(key, str(p) + fmt(": after %.2f s the ghost is at (%.3f, %.3f, %.4f) with %.3f m/s, without ghost %g s later (%.3f, %.3f, %.4f) with %.3f m/s", (f + 1) * DT, s.x, s.y, s.h, s.speed, p.head, w.x, w.y, w.h, w.v), doc);
                break;
            }
        }
        SE_Close();
    }
}
// the entity does not do what the ghost planned: starting over, the ghost drives on from where the entity is
static void check_away(const string& name, const vector<int>& acts, double v, double off, long lead)
{
    scn::write_file("r.xodr", scn::odr(scn::straight_road(3000, 3, 3)));
    for (int a : acts)
        for (double head : {2.5, 0.8})
        {
            Prog p;
            p.trig = {4}, p.act = {a}, p.head = head;
            string key = name + ":" + str(p), doc = document(p, 1), what = str(p) + fmt(", the entity drives %g m/s, %g m aside", v, off);
            vf::eval();
            vf::doing(key);
            long F0 = 34 + lead, H = lround(head / DT), N = F0 + 60;
            auto report = [&](long f)
            {
                SE_ReportObjectPosXYH(0, 100 + v * DT * static_cast<double>(f), -1.75 + off, 0);
                SE_ReportObjectSpeed(0, v);
            };
            // the same without ghost, left alone from the trigger on
            vector<Pose>           ref;
            SE_ScenarioObjectState s;
            for (int g = 0; g < 2; g++)
            {
                if (!scn::load(g ? doc : document(p, 0)))
                {
                    vf::violation(key, what + ": the scenario does not load", doc);
                    return;
                }
                int id = g ? SE_GetObjectGhostId(0) : 0;
                for (long f = 0; f < N + (g ? 0 : H + 8); f++)
                {
                    if (f == F0 - 1)
                        SE_SetVariableBool("v0", true);
                    if (g || f < F0)
                        report(f);
                    SE_StepDT(static_cast<float>(DT));
                    vf::step();
                    SE_GetObjectState(id, &s);
                    if (!g)
                        ref.push_back(pose(s));
                    else if (f > F0 + 1)
                    {
                        bool ok = false;
                        for (long o = -2; o <= 2; o++)
                        {
                            const Pose& q = ref[static_cast<size_t>(f + H + o)];
                            ok |= fabs(s.x - q.x) < 0.76 && fabs(s.y - q.y) < 0.03 && adiff(s.h, q.h) < 0.005 && fabs(s.speed - q.v) < 0.05;
                        }
                        vf::cmp();
                        vf::state(fmt("away %ld %.2f %.2f %.2f", f, s.x, s.y, static_cast<double>(s.speed)));
                        if (!ok)
                        {
                            const Pose& q = ref[static_cast<size_t>(f + H)];
                            vf::violation(key, what + fmt(": %.2f s after starting over the ghost is at (%.3f, %.3f, %.4f) with %.3f m/s, the entity left alone would be at (%.3f, %.3f, %.4f) with %.3f m/s", static_cast<double>(f - F0) * DT, s.x, s.y, s.h, s.speed, q.x, q.y, q.h, q.v), doc);
                            break;
                        }
                    }
                }
                SE_Close();
            }
        }
}
int main(int argc, char** argv)
{
    vf::init(argc, argv, "d_ghost");
    bool             T = vf::C().thorough();
    vector<vf::Case> cases;
    vector<Prog>     all;
    for (double head : {2.5, 0.8})
        for (int t = 0; t < 8; t++)
            for (int a = 0; a < 8; a++)
            {
                if (t == 5)
                    continue;
                Prog p;
                p.head = head;
                p.trig = {t}, p.act = {a};
                all.push_back(p);
                p.act_from = 3.125;
                if (!other(t))
                    all.push_back(p);
                p.act_from = -1000;
                for (int t2 = 0; t2 < 8; t2++)
                    for (int a2 = 0; a2 < 8; a2++)
                    {
                        if (!T && (head < 2 || a == 0 || a == 5 || a == 7 || a2 == 0 || a2 == 3 || a2 == 5))
                            continue;
                        if (other(t) && other(t2))
                            continue;
                        if (other(t) && a == 4 && (t2 == 1 || t2 == 7))
                            continue;  // starting over with a jump to the trajectory: is the jump travelled distance?
                        p.trig = {t, t2}, p.act = {a, a2};
                        all.push_back(p);
                    }
            }
    size_t ch = 16;
    for (size_t i = 0; i < all.size(); i += ch)
    {
        vector<Prog> part(all.begin() + static_cast<long>(i), all.begin() + static_cast<long>(std::min(all.size(), i + ch)));
        string       name = fmt("ghost-%zu", i / ch);
        cases.push_back({name, [=]() { vf::isolated([=]() { check(name, part); }, 400); }});
    }
    for (double v : {6.0, 13.0, 0.0})
        for (double off : {0.0, 0.6, -0.4})
            for (long lead : {0, 25})
            {
                string name = fmt("away-%g-%g-%ld", v, off, lead);
                cases.push_back({name, [=]() { vf::isolated([=]() { check_away(name, {0, 1, 2, 3, 5, 6, 7}, v, off, lead); }, 400); }});
            }
    vf::run(cases, 420);
    return vf::finish(
        string("every program of one event (also in an act that starts after 3.1 s), and of two events from ") + (T ? "the whole set" : "a subset") +
            ", out of 8 triggers (time, travelled distance, position, speed, completion of the other event, time and distance together, a variable, headway to another vehicle) and 8 actions (speed step and ramp, speed profile, braking, lane change, lane offset, trajectory, teleport), headstart 2.5 s and 0.8 s, 10 s at 0.05 s; the ghost compared in every frame, its trail every 0.65 s at every 0.15 s forwards and backwards",
        {"stop triggers of acts are not handed over to the ghost, programs have none", "the entity is reported where the same scenario without ghost puts it", "after a restart, what the ghost did may be one frame late (0.76 m along, which moves what is triggered by place by up to 4 frames; 0.02 m across, 0.02 m/s)",
         "programs in which another action is at work while the ghost starts over, and programs with two events that make it start over, are left out: esmini does not bring back what the ghost has done already",
         "the trail does not grow while the ghost is at rest: a relocation at rest is not required to show in the trail"});
}
