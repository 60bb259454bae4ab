// C13: what a recording replays is exactly what the simulation did, frame by frame, in whatever order it is browsed.
// C14: a recording cut off at any byte either is refused or replays the frames that made it to the file, unchanged.
#include "scn.hpp"
#include <map>
#include <optional>
#include <sstream>
#include <cstring>
#include <fcntl.h>
#include "Replay.hpp"

template <class... A> static std::string F(A... a) { return vf::fmt(a...); }
using std::string;
using std::vector;
using namespace scenarioengine;

struct Frame
{
    double                                t;
    std::map<int, SE_ScenarioObjectState> obj;
    std::map<int, string>                 name;
    std::map<int, int>                    brake;  // mode of the brake lights
    double                                rgb[3] = {-1, -1, -1};  // colour given to the low beam of the first object
};

static string road()
{
    // line, arc, line with two lane sections
    string lanes = "<lanes>";
    for (double s : {0.0, 60.0})
    {
        lanes += F("<laneSection s=\"%g\">", s) +
                 "<left><lane id=\"1\" type=\"driving\" level=\"false\"><width sOffset=\"0\" a=\"3.5\" b=\"0\" c=\"0\" d=\"0\"/></lane></left><center><lane id=\"0\" type=\"none\" level=\"false\"/></center>"
                 "<right><lane id=\"-1\" type=\"driving\" level=\"false\"><width sOffset=\"0\" a=\"3.5\" b=\"0\" c=\"0\" d=\"0\"/></lane>"
                 "<lane id=\"-2\" type=\"driving\" level=\"false\"><width sOffset=\"0\" a=\"3.0\" b=\"0\" c=\"0\" d=\"0\"/></lane></right></laneSection>";
    }
    lanes += "</lanes>";
    return scn::odr("<road name=\"r\" length=\"300\" id=\"1\" junction=\"-1\"><planView><geometry s=\"0\" x=\"0\" y=\"0\" hdg=\"0\" length=\"20\"><line/></geometry>"
                    "<geometry s=\"20\" x=\"20\" y=\"0\" hdg=\"0\" length=\"280\"><arc curvature=\"0.005\"/></geometry></planView>"
                    "<elevationProfile><elevation s=\"0\" a=\"1\" b=\"0.02\" c=\"0\" d=\"0\"/></elevationProfile>" +
                    lanes + "</road>");
}

static string light_evt(const string& nm, int val, const string& mode)
{
    return "<Event name=\"" + nm + "\" priority=\"parallel\" maximumExecutionCount=\"1000\"><Action name=\"a" + nm +
           "\"><PrivateAction><AppearanceAction><LightStateAction transitionTime=\"0\"><LightType><VehicleLight vehicleLightType=\"brakeLights\"/></LightType><LightState mode=\"" + mode +
           "\" luminousIntensity=\"6000\"/></LightStateAction></AppearanceAction></PrivateAction></Action>" +
           scn::trigger("StartTrigger", scn::var_cond("L", std::to_string(val))) + "</Event>";
}
static string rgb_evt(int bits)
{
    return F("<Event name=\"K%d\" priority=\"parallel\" maximumExecutionCount=\"1000\"><Action name=\"aK%d\"><PrivateAction><AppearanceAction><LightStateAction transitionTime=\"0\"><LightType><VehicleLight vehicleLightType=\"lowBeam\"/></LightType>"
             "<LightState mode=\"on\" luminousIntensity=\"6000\"><Color colorType=\"other\"><ColorRgb red=\"%g\" green=\"%g\" blue=\"%g\"/></Color></LightState></LightStateAction></AppearanceAction></PrivateAction></Action>",
             bits, bits, bits & 1 ? 0.75 : 0.25, bits & 2 ? 0.75 : 0.25, bits & 4 ? 0.75 : 0.25) +
           scn::trigger("StartTrigger", scn::var_cond("K", std::to_string(bits + 1))) + "</Event>";
}
static string ent_evt(const string& nm, int val, const string& action)
{
    return "<Event name=\"" + nm + "\" priority=\"parallel\" maximumExecutionCount=\"1000\"><Action name=\"a" + nm + "\"><GlobalAction><EntityAction entityRef=\"C\">" + action + "</EntityAction></GlobalAction></Action>" +
           scn::trigger("StartTrigger", scn::var_cond("E", std::to_string(val))) + "</Event>";
}
static string vis_evt(const string& nm, int val, const string& g)
{
    return "<Event name=\"" + nm + "\" priority=\"parallel\" maximumExecutionCount=\"1000\"><Action name=\"a" + nm + "\"><PrivateAction><VisibilityAction graphics=\"" + g +
           "\" traffic=\"true\" sensors=\"true\"/></PrivateAction></Action>" + scn::trigger("StartTrigger", scn::var_cond("V", std::to_string(val))) + "</Event>";
}

static string ctrl_evt(int val, bool lon, bool lat)
{
    return F("<Event name=\"Q%d\" priority=\"parallel\" maximumExecutionCount=\"1000\"><Action name=\"aQ%d\"><PrivateAction><ControllerAction><ActivateControllerAction longitudinal=\"%s\" lateral=\"%s\"/></ControllerAction></PrivateAction></Action>",
             val, val, lon ? "true" : "false", lat ? "true" : "false") +
           scn::trigger("StartTrigger", scn::var_cond("Q", std::to_string(val))) + "</Event>";
}

static string scenario(double v)
{
    string story = "<Story name=\"S\"><Act name=\"A\"><ManeuverGroup name=\"G\" maximumExecutionCount=\"1\"><Actors selectTriggeringEntities=\"false\"><EntityRef entityRef=\"Ego\"/></Actors><Maneuver name=\"M\">" +
                   light_evt("lon", 1, "on") + light_evt("lof", 2, "off") + vis_evt("vof", 1, "false") + vis_evt("von", 2, "true") + rgb_evt(0) + rgb_evt(1) + rgb_evt(2) + rgb_evt(3) + rgb_evt(4) + rgb_evt(5) + rgb_evt(6) + rgb_evt(7) +
                   ent_evt("edel", 1, "<DeleteEntityAction/>") + ent_evt("eadd", 2, "<AddEntityAction><Position>" + scn::lane_pos(1, -2, 50) + "</Position></AddEntityAction>") +
                   "</Maneuver></ManeuverGroup><ManeuverGroup name=\"GB\" maximumExecutionCount=\"1\"><Actors selectTriggeringEntities=\"false\"><EntityRef entityRef=\"B\"/></Actors><Maneuver name=\"MB\">" + ctrl_evt(1, true, false) +
                   ctrl_evt(2, false, true) + ctrl_evt(3, false, false) + "</Maneuver></ManeuverGroup>" + scn::trigger("StartTrigger", scn::time_cond(0, "greaterOrEqual")) + "</Act></Story>";
    return scn::xosc("r.xodr",
                     scn::vehicle("Ego") + scn::vehicle("B", 4, 1.8, 1.2, "<ObjectController><Controller name=\"ext\"><Properties><Property name=\"esminiController\" value=\"ExternalController\"/></Properties></Controller></ObjectController>") + scn::vehicle("C", 4.2, 1.7, 1.1),
                     scn::init_private("Ego", {scn::teleport(scn::lane_pos(1, -1, 15)), scn::speed_action(v)}) + scn::init_private("B", {scn::teleport(scn::world_pos(0, 0, 0))}) + scn::init_private("C", {scn::teleport(scn::lane_pos(1, -2, 50))}),
                     story,
                     "<StopTrigger/>",
                     scn::var_decl("L", "integer", "0") + scn::var_decl("V", "integer", "0") + scn::var_decl("K", "integer", "0") + scn::var_decl("E", "integer", "0") + scn::var_decl("Q", "integer", "0"));
}

static bool load_rec(const string& xml, const string& dat)
{
    scn::quiet();
    const char* argv[] = {"x", "--osc_str", xml.c_str(), "--headless", "--record", dat.c_str()};
    return SE_InitWithArgs(6, argv) == 0;
}

static Frame grab()
{
    Frame f;
    f.t = SE_GetSimulationTime();
    for (int i = 0; i < SE_GetNumberOfObjects(); i++)
    {
        int id = SE_GetId(i);
        SE_ScenarioObjectState s;
        SE_GetObjectState(id, &s);
        f.obj[id]  = s;
        f.name[id] = SE_GetObjectName(id);
        SE_LightState ls;
        f.brake[id] = SE_GetObjectLightState(id, BRAKE_LIGHTS, &ls) == 0 ? ls.light_mode : -1;
    }
    return f;
}

// ---- one operation = some input + one step
enum Op { NONE, NONE_SHORT, MOVE, SPEED, ADDDEL, LIGHT, VIS, NOPS, PX = NOPS, PY, PZ, PH, PP, PR, WROT, WANG, ENT, RED, GREEN, BLUE, CTRL, ALLOPS };
static const char* opname[] = {"step.1", "step.05", "move", "speed", "add/del", "light", "vis", "x", "y", "z", "heading", "pitch", "roll", "wheel rotation", "wheel angle", "entity", "red", "green", "blue", "controller"};

struct World
{
    int         added = -1, nadd = 0, k = 0, light = 0, vis = 0, bits = -1, ctrl = 0;
    bool        gone = false;
    double      pose[6] = {0, 0, 0, 0, 0, 0}, wheel[2] = {0, 0};
    vector<Frame> frames;
    bool do_op(int op)
    {
        double dt = op == NONE_SHORT ? 0.05 : 0.1;
        k++;
        if (op == MOVE)
            SE_ReportObjectRoadPos(1, 1, k % 2 ? -1 : -2, 0.25 * k, 20.0 + 17 * k);
        else if (op == SPEED)
        {
            SE_ReportObjectSpeed(0, 3.0 * k);
            SE_ReportObjectWheelStatus(1, 0.5 * k, 0.03 * k);
        }
        else if (op >= PX && op <= PR)
        {
            // one component of the pose alone
            pose[op - PX] += op < PH ? 1.25 : 0.05;
            SE_ReportObjectPosMode(1, pose[0], pose[1], pose[2], pose[3], pose[4], pose[5], SE_Z_ABS | SE_H_ABS | SE_P_ABS | SE_R_ABS);
        }
        else if (op == WROT || op == WANG)
        {
            wheel[op - WROT] += 0.07;
            SE_ReportObjectWheelStatus(1, wheel[0], wheel[1]);
        }
        else if (op == ADDDEL)
        {
            if (added < 0)
            {
                added = SE_AddObject(F("obj%d", nadd++).c_str(), 1, 0, 0, 3, "");
                SE_ReportObjectPosXYH(added, 40.0 + k, 1.0, 0.1);
            }
            else
            {
                SE_DeleteObject(added);
                added = -1;
            }
        }
        else if (op == LIGHT)
        {
            light = light == 1 ? 2 : 1;
            SE_SetVariableInt("L", light);
        }
        else if (op == VIS)
        {
            vis = vis == 1 ? 2 : 1;
            SE_SetVariableInt("V", vis);
        }
        else if (op == ENT)
        {
            gone = !gone;
            SE_SetVariableInt("E", gone ? 1 : 2);
        }
        else if (op == CTRL)
        {
            ctrl = ctrl % 3 + 1;  // active along the road only, across it only, not at all
            SE_SetVariableInt("Q", ctrl);
        }
        else if (op >= RED && op <= BLUE)
        {
            bits = std::max(bits, 0) ^ (1 << (op - RED));
            SE_SetVariableInt("K", bits + 1);
        }
        if (SE_StepDT(dt) != 0)
            return false;
        SE_SetVariableInt("L", 0);
        SE_SetVariableInt("V", 0);
        SE_SetVariableInt("E", 0);
        SE_SetVariableInt("K", 0);
        SE_SetVariableInt("Q", 0);
        frames.push_back(grab());
        if (bits >= 0)
            for (int i = 0; i < 3; i++)
                frames.back().rgb[i] = bits & (1 << i) ? 0.75 : 0.25;
        return true;
    }
};

static bool near(double a, double b, double e = 1e-5)
{
    return std::fabs(a - b) <= e;
}

static string diff(const ReplayEntry& e, const SE_ScenarioObjectState& s, const string& name)
{
    string d;
    auto   D = [&](const char* n, double got, double want) { if (!near(got, want)) d += F(" %s=%.6g (was %.6g)", n, got, want); vf::cmp(); };
    D("x", e.state.pos.x, s.x);
    D("y", e.state.pos.y, s.y);
    D("z", e.state.pos.z, s.z);
    D("h", e.state.pos.h, s.h);
    D("p", e.state.pos.p, s.p);
    D("r", e.state.pos.r, s.r);
    D("road", e.state.pos.roadId, s.roadId);
    D("lane", e.state.pos.laneId, s.laneId);
    D("offset", e.state.pos.offset, s.laneOffset);
    D("t", e.state.pos.t, s.t);
    D("s", e.state.pos.s, s.s);
    D("speed", e.state.info.speed, s.speed);
    D("wheel_angle", e.state.info.wheel_angle, s.wheel_angle);
    D("wheel_rot", e.state.info.wheel_rot, s.wheel_rot);
    D("model", e.state.info.model_id, s.model_id);
    D("type", e.state.info.obj_type, s.objectType);
    D("category", e.state.info.obj_category, s.objectCategory);
    D("ctrl", e.state.info.ctrl_type, s.ctrl_type);
    D("visibility", e.state.info.visibilityMask, s.visibilityMask);
    D("length", e.state.info.boundingbox.dimensions_.length_, s.length);
    D("width", e.state.info.boundingbox.dimensions_.width_, s.width);
    D("height", e.state.info.boundingbox.dimensions_.height_, s.height);
    D("cx", e.state.info.boundingbox.center_.x_, s.centerOffsetX);
    if (e.state.info.name != name)
        d += " name=" + e.state.info.name + " (was " + name + ")";
    return d;
}

static void check_frame(Replay& r, const Frame& f, const string& how, const string& key, const string& detail)
{
    double t = f.t;
    for (int id : r.GetAllObjectIDs())
    {
        ReplayEntry e = r.GetReplayEntryAtTimeIncremental(id, t);
        bool        was = f.obj.count(id) != 0;
        vf::cmp();
        if (e.state.info.active != was)
        {
            vf::violation(key + ":active", F("%s: at t=%g object %d replays as %s but was %s", how.c_str(), t, id, e.state.info.active ? "active" : "inactive", was ? "active" : "inactive"), detail);
            return;
        }
        if (!was)
            continue;
        string d = diff(e, f.obj.at(id), f.name.at(id));
        int    b = f.brake.at(id);
        if (b != 3 && e.has_lightstate && static_cast<int>(e.state.info.light_state[BRAKE_LIGHTS].mode) != b)
            d += F(" brake light mode %d (was %d)", static_cast<int>(e.state.info.light_state[BRAKE_LIGHTS].mode), b);
        if (!e.has_lightstate && b == 1)
            d += " no brake light (was on)";
        auto& low = e.state.info.light_state[static_cast<size_t>(Object::VehicleLightType::LOW_BEAM)];
        // the colour is scaled by the emission: compare its proportions
        double m0 = std::max(low.rgb[0], std::max(low.rgb[1], low.rgb[2])), m1 = std::max(f.rgb[0], std::max(f.rgb[1], f.rgb[2]));
        if (id == 0 && f.rgb[0] >= 0 && (!e.has_lightstate || m0 <= 0 || !near(low.rgb[0] / m0, f.rgb[0] / m1, 1e-4) || !near(low.rgb[1] / m0, f.rgb[1] / m1, 1e-4) || !near(low.rgb[2] / m0, f.rgb[2] / m1, 1e-4)))
            d += F(" low beam colour %g %g %g (was %g %g %g)", low.rgb[0], low.rgb[1], low.rgb[2], f.rgb[0], f.rgb[1], f.rgb[2]);
        if (!d.empty())
        {
            vf::violation(key + ":state", F("%s: at t=%g object %d replays with%s", how.c_str(), t, id, d.c_str()), detail);
            return;
        }
    }
    for (auto& o : f.obj)
        if (!r.objects_timeline_.count(o.first))
        {
            vf::violation(key + ":missing", F("%s: object %d of frame t=%g is not in the recording", how.c_str(), o.first, t), detail);
            return;
        }
}

static void verify(const vector<Frame>& all, const string& dat, const string& seq)
{
    string key    = "roundtrip";
    string detail = "ops: " + seq;
    vf::doing("replaying " + seq);
    // at one timestamp the last state counts
    vector<Frame> fr;
    for (auto& f : all)
        if (!fr.empty() && near(fr.back().t, f.t, 1e-9))
            fr.back() = f;
        else
            fr.push_back(f);
    Replay r(dat, true);
    vf::cmp();
    bool ok = r.timestamps_.size() == fr.size();
    for (size_t i = 0; ok && i < fr.size(); i++)
        ok = near(r.timestamps_[i], fr[i].t);
    if (!ok)
    {
        string a, b;
        for (double t : r.timestamps_)
            a += F(" %g", t);
        for (auto& f : fr)
            b += F(" %g", f.t);
        vf::violation(key + ":times", "the frames of the recording are at" + a + " but the simulation had frames at" + b, detail);
        return;
    }
    if (!near(r.GetStartTime(), fr.front().t) || !near(r.GetStopTime(), fr.back().t))
        vf::violation(key + ":span", F("replay spans %g..%g, the simulation %g..%g", r.GetStartTime(), r.GetStopTime(), fr.front().t, fr.back().t), detail);
    int n = static_cast<int>(fr.size());
    for (int i = 0; i < n; i++)
        check_frame(r, fr[static_cast<size_t>(i)], "forward", key, detail);
    for (int i = n - 1; i >= 0; i--)
        check_frame(r, fr[static_cast<size_t>(i)], "backward", key, detail);
    for (int i = 0; i < n; i++)
        for (int j = 0; j < n; j++)
        {
            check_frame(r, fr[static_cast<size_t>(i)], "jumping", key, detail);
            check_frame(r, fr[static_cast<size_t>(j)], F("jumping from t=%g", fr[static_cast<size_t>(i)].t), key, detail);
        }
    // the same by binary search
    for (auto& o : r.objects_timeline_)
        for (int i = 0; i < n; i++)
        {
            double t  = fr[static_cast<size_t>(i)].t;
            auto&  tl = o.second;
            auto   same = [&](const char* what, auto& line, auto get)
            {
                if (line.values.empty())
                    return;
                vf::cmp();
                double a = get(line.get_value_binary(t).value()), b = get(line.get_value_incremental(t).value());
                if (a == b)
                    return;
                bool at_end = t >= line.values.back().first - 1e-6 && line.values.size() > 1 && a == get(line.values[line.values.size() - 2].second);
                vf::violation(at_end ? "binary-search-at-last-value" : key + ":binary", F("binary search for %s of object %d at t=%g gives %g, browsing gives %g", what, o.first, t, a, b), detail);
            };
            auto num = [](auto v) { return static_cast<double>(v); };
            same("x", tl.pose_, [](const Dat::Pose& p) { return p.x; });
            same("y", tl.pose_, [](const Dat::Pose& p) { return p.y; });
            same("speed", tl.speed_, num);
            same("lane", tl.lane_id_, num);
            same("s", tl.pos_s_, num);
            same("t", tl.pos_t_, num);
            same("wheel angle", tl.wheel_angle_, num);
            same("active", tl.active_, num);
            same("visibility", tl.visibility_mask_, num);
        }
    vf::outcome(F("%zu frames %zu objects, stop %g, lane %d", fr.size(), r.objects_timeline_.size(), fr.back().t, fr.back().obj.count(1) ? fr.back().obj.at(1).laneId : 99));
    uint64_t h = vf::fnv(seq);
    vf::state(h);
}

static void history(double v, const vector<int>& ops)
{
    string seq;
    for (int o : ops)
        seq += string(seq.empty() ? "" : ",") + opname[o];
    vf::doing("recording " + seq);
    scn::write_file("r.xodr", road());
    if (!load_rec(scenario(v), "x.dat"))
    {
        vf::violation("load", "scenario did not load");
        return;
    }
    World w;
    w.frames.push_back(grab());
    for (int o : ops)
    {
        vf::step();
        if (!w.do_op(o))
            return;
    }
    SE_Close();
    vf::eval();
    verify(w.frames, "x.dat", F("v=%g ", v) + seq);
    unlink("x.dat");
}

static int c13()
{
    bool             th = vf::C().tier == "thorough";
    int              D  = th ? 5 : 4;
    vector<vf::Case> cases;
    for (int a = 0; a < ALLOPS; a++)
        cases.push_back({F("components-%d", a), [=]()
                         {
                             for (int b = 0; b < ALLOPS; b++)
                                 for (int c = th ? 0 : static_cast<int>(ALLOPS) - 2; c < ALLOPS; c++)
                                 {
                                     vector<int> ops = {a, b, c};
                                     string      seq = string(opname[a]) + "," + opname[b] + "," + opname[c];
                                     int         r   = vf::isolated([&]() { history(0, ops); }, 60);
                                     if (r != 0)
                                         vf::violation(F("crash:%s", seq.c_str()), F("recording or replaying ended abnormally (%d) for ops %s", r, seq.c_str()));
                                     if (vf::give_up())
                                         return;
                                 }
                         }});
    for (double v : {0.0, 10.0})
        for (int a = 0; a < NOPS; a++)
            for (int b = 0; b < NOPS; b++)
                cases.push_back({F("v%g-%d%d", v, a, b), [=]()
                                 {
                                     int rest = D - 2;
                                     long tot = 1;
                                     for (int i = 0; i < rest; i++)
                                         tot *= NOPS;
                                     for (long x = 0; x < tot; x++)
                                     {
                                         vector<int> ops = {a, b};
                                         long        y   = x;
                                         for (int i = 0; i < rest; i++)
                                         {
                                             ops.push_back(static_cast<int>(y % NOPS));
                                             y /= NOPS;
                                         }
                                         string seq;
                                         for (int o : ops)
                                             seq += string(seq.empty() ? "" : ",") + opname[o];
                                         int r = vf::isolated([&]() { history(v, ops); }, 60);
                                         if (r != 0)
                                             vf::violation(F("crash:v%g:%s", v, seq.c_str()), F("recording or replaying ended abnormally (%d) for v=%g ops %s", r, v, seq.c_str()));
                                         if (vf::give_up())
                                             return;
                                     }
                                 }});
    vf::run(cases, 600);
    return vf::finish(F("all %d-step histories over 7 operations (plain step of two lengths, move, speed/wheels, add/delete object, lights, visibility), and all pairs of 20 operations (also single pose components, wheels, entity actions, light colours, controller domains), x moving/standing ego; every frame, both directions, every ordered pair of frames", D),
                      {"no ghost restart in the recorded run"});
}


// ------------------------------------------------------------------------------------------------ truncated recordings
struct Layout
{
    string         bytes;
    size_t         header_end = 0;
    vector<size_t> frame_start;  // offset of each TIMESTAMP packet
    vector<double> frame_time;
    bool           ok = false;
};
static Layout parse(const string& file)
{
    Layout        l;
    std::ifstream f(file, std::ios::binary);
    std::stringstream ss;
    ss << f.rdbuf();
    l.bytes = ss.str();
    auto u32 = [&](size_t o) { uint32_t v = 0; memcpy(&v, l.bytes.data() + o, 4); return v; };
    if (l.bytes.size() < 12)
        return l;
    size_t o = 12 + u32(8);
    l.header_end = o;
    while (o + 8 <= l.bytes.size())
    {
        uint32_t id = u32(o), n = u32(o + 4);
        if (o + 8 + n > l.bytes.size())
            return l;
        if (id == static_cast<uint32_t>(Dat::PacketId::TIMESTAMP))
        {
            double t;
            memcpy(&t, l.bytes.data() + o + 8, 8);
            l.frame_start.push_back(o);
            l.frame_time.push_back(t);
        }
        o += 8 + n;
    }
    l.ok = o == l.bytes.size();
    return l;
}

// 0 fine, 1 refused, 2 violation reported
static int check_cut(const string& file, const vector<Frame>& fr, const Layout& l, size_t c, const string& seq)
{
    string detail = F("ops: %s; file of %zu bytes cut after %zu bytes", seq.c_str(), l.bytes.size(), c);
    size_t complete = 0;  // frames that are followed by another one in the file
    for (size_t i = 1; i < l.frame_start.size(); i++)
        if (l.frame_start[i] + 16 <= c)
            complete = i;
    std::unique_ptr<Replay> r;
    try
    {
        r = std::make_unique<Replay>(file, true);
    }
    catch (const std::exception& e)
    {
        vf::cmp();
        if (c >= l.header_end)
            vf::violation("cut:refused", F("a recording with an intact header is refused: %s", e.what()), detail);
        return 1;
    }
    vf::cmp();
    if (c < l.header_end)
    {
        if (r->timestamps_.size() || r->objects_timeline_.size())
            vf::violation("cut:header", "a recording without a complete header is accepted", detail);
        return 1;
    }
    // the frame time reconstruction needs one frame interval: nothing is demanded before two complete frames
    if (complete < 2)
    {
        for (double t : r->timestamps_)
            for (int id : r->GetAllObjectIDs())
                r->GetReplayEntryAtTimeIncremental(id, t);
        return 1;
    }
    auto at = [&](double t) -> const Frame*
    {
        for (auto it = fr.rbegin(); it != fr.rend(); ++it)
            if (near(it->t, t))
                return &*it;
        return nullptr;
    };
    double last = l.frame_time[complete - 1];
    // every complete frame is there and unchanged
    size_t k = 0;
    for (auto& f : fr)
    {
        if (f.t > last + 1e-6)
            break;
        vf::cmp();
        while (k < r->timestamps_.size() && r->timestamps_[k] < f.t - 1e-5)
            k++;
        if (k >= r->timestamps_.size() || !near(r->timestamps_[k], f.t))
        {
            vf::violation("cut:frame-lost", F("frame t=%g was completely written but is not replayed", f.t), detail);
            return 2;
        }
        check_frame(*r, f, "cut recording", "cut", detail);
    }
    // nothing is invented: each further value is the recorded one of the last complete frame or of the frame that was being
    // written (whose length may be missing from the file, so that its time is not known for sure)
    vector<const Frame*> cand;
    for (auto& f : fr)
        if (f.t >= last - 1e-6 && f.t <= l.frame_time[complete] + 1e-6)
            cand.push_back(&f);
    for (double t : r->timestamps_)
    {
        vf::cmp();
        if (t <= last + 1e-6)
        {
            if (!at(t))
            {
                vf::violation("cut:frame-invented", F("frame t=%g is replayed but never happened", t), detail);
                return 2;
            }
            continue;
        }
        for (int id : r->GetAllObjectIDs())
        {
            ReplayEntry e = r->GetReplayEntryAtTimeIncremental(id, t);
            if (!e.state.info.active)
                continue;
            vf::cmp();
            vector<const SE_ScenarioObjectState*> s;
            for (const Frame* q : cand)
                if (q->obj.count(id))
                    s.push_back(&q->obj.at(id));
            auto one = [&](const char* n, double got, std::function<double(const SE_ScenarioObjectState&)> g)
            {
                for (auto* x : s)
                    if (near(got, g(*x)))
                        return;
                vf::violation("cut:value-invented", F("object %d at t=%g replays with %s=%g, which was never recorded", id, t, n, got), detail);
            };
            one("x", e.state.pos.x, [](const SE_ScenarioObjectState& q) { return q.x; });
            one("y", e.state.pos.y, [](const SE_ScenarioObjectState& q) { return q.y; });
            one("z", e.state.pos.z, [](const SE_ScenarioObjectState& q) { return q.z; });
            one("h", e.state.pos.h, [](const SE_ScenarioObjectState& q) { return q.h; });
            one("s", e.state.pos.s, [](const SE_ScenarioObjectState& q) { return q.s; });
            one("t", e.state.pos.t, [](const SE_ScenarioObjectState& q) { return q.t; });
            one("lane", e.state.pos.laneId, [](const SE_ScenarioObjectState& q) { return q.laneId; });
            one("road", e.state.pos.roadId, [](const SE_ScenarioObjectState& q) { return q.roadId; });
            one("speed", e.state.info.speed, [](const SE_ScenarioObjectState& q) { return q.speed; });
            one("wheel_rot", e.state.info.wheel_rot, [](const SE_ScenarioObjectState& q) { return q.wheel_rot; });
            one("wheel_angle", e.state.info.wheel_angle, [](const SE_ScenarioObjectState& q) { return q.wheel_angle; });
            one("length", e.state.info.boundingbox.dimensions_.length_, [](const SE_ScenarioObjectState& q) { return q.length; });
        }
    }
    return 0;
}

static void cut_history(double v, const vector<int>& ops, int part, int parts)
{
    string seq = F("v=%g ", v);
    for (int o : ops)
        seq += string(",") + opname[o];
    scn::write_file("r.xodr", road());
    if (!load_rec(scenario(v), "x.dat"))
    {
        vf::violation("load", "scenario did not load");
        return;
    }
    World w;
    w.frames.push_back(grab());
    for (int o : ops)
        if (!w.do_op(o))
            return;
    SE_Close();
    Layout l = parse("x.dat");
    vf::cmp();
    if (!l.ok)
    {
        vf::violation("layout", "a finished recording does not end at a packet boundary");
        return;
    }
    for (size_t c = static_cast<size_t>(part); c <= l.bytes.size(); c += static_cast<size_t>(parts))
    {
        vf::eval();
        vf::step();
        vf::doing(F("%s cut at %zu", seq.c_str(), c));
        string cut = "c.dat";
        scn::write_file(cut, l.bytes.substr(0, c));
        int r = vf::isolated([&]()
                             {
                                 int k = 3;
                                 try
                                 {
                                     k = check_cut(cut, w.frames, l, c, seq);
                                 }
                                 catch (const std::exception& e)
                                 {
                                     vf::violation("cut:exception", F("replaying a cut recording throws: %s", e.what()), F("ops: %s; cut after %zu of %zu bytes", seq.c_str(), c, l.bytes.size()));
                                 }
                                 vf::outcome(F("result %d", k));
                                 size_t fr = 0;
                                 for (size_t q : l.frame_start)
                                     fr += q < c;
                                 vf::outcome(F("cut in frame %zu", fr));
                                 vf::state(vf::fnv(seq) ^ c);
                             },
                             30);
        if (r != 0)
            vf::violation("cut:crash", F("replaying a cut recording ended abnormally (%d)", r), F("ops: %s; cut after %zu of %zu bytes", seq.c_str(), c, l.bytes.size()));
        if (vf::give_up())
            return;
    }
}

static int c14()
{
    bool                     th = vf::C().tier == "thorough";
    vector<vector<int>>      hs = {{NONE, MOVE, SPEED, ADDDEL, NONE, NONE_SHORT, ADDDEL, NONE}, {NONE, ADDDEL, LIGHT, VIS, MOVE, ADDDEL, ADDDEL, SPEED}, {NONE, NONE, NONE_SHORT, NONE, SPEED, NONE}};
    if (th)
        for (int a = 0; a < NOPS; a++)
            for (int b = 0; b < NOPS; b++)
                hs.push_back({NONE, NONE, a, b, a, NONE_SHORT});
    vector<vf::Case> cases;
    int              parts = th ? 1 : 8;
    for (size_t h = 0; h < hs.size(); h++)
        for (double v : {0.0, 10.0})
            for (int part = 0; part < parts; part++)
                cases.push_back({F("h%zu-v%g-%d", h, v, part), [=]() { cut_history(v, hs[h], part, parts); }});
    vf::run(cases, 600);
    return vf::finish(F("%zu recorded histories x moving/standing ego, cut after every single byte", hs.size()), {"the file contains a prefix of what was written, as after a crash or a full disk"});
}

int main(int argc, char** argv)
{
    vf::init(argc, argv, "C13");
    if (vf::C().prop == "C13")
        return c13();
    if (vf::C().prop == "C14")
        return c14();
    return 2;
}
