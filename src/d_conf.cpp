// C33: actions of one entity in the same domain: the latest one ends the others, all the rest goes on. Every sequence of starts up to the depth.
#include <map>
#include <set>
#include "story.hpp"
using std::string;
using std::vector;
using vf::fmt;

static std::map<string, int> g_run;  // action name -> running (initial actions: how many, they share names)
static void                  on_state(const char* name, int, int state, const char*)
{
    if (string(name).compare(0, 5, "Init ") == 0)
        g_run[name] += state == 2 ? 1 : state == 3 ? -1 : 0;
    else if (state == 2)
        g_run[name] = 1;
    else if (state == 3 || state == 1)
        g_run[name] = 0;
}
static void on_decl(void*)
{
    SE_RegisterStoryBoardElementStateChangeCallback(on_state);
}

enum { LON = 1, LAT = 2, LIGHT = 4 };
struct Act
{
    string name, xml;
    int    mask;      // domains
    int    light;     // which light
    bool   lasting;   // runs on until ended
    string ent;
};
static string light(const string& type)
{
    return "<AppearanceAction><LightStateAction transitionTime=\"0\"><LightType><VehicleLight vehicleLightType=\"" + type +
           "\"/></LightType><LightState mode=\"flashing\" luminousIntensity=\"6000\" flashingOffDuration=\"0.3\" flashingOnDuration=\"0.4\"/></LightStateAction></AppearanceAction>";
}
static string traj(bool timing)
{
    string v;
    for (int i = 0; i < 3; i++)
        v += fmt("<Vertex time=\"%d\"><Position>", i * 300) + scn::world_pos(110 + 100 * i, -1.75, 0) + "</Position></Vertex>";
    return "<RoutingAction><FollowTrajectoryAction><TrajectoryRef><Trajectory name=\"t\" closed=\"false\"><Shape><Polyline>" + v + "</Polyline></Shape></Trajectory></TrajectoryRef><TimeReference>" +
           (timing ? "<Timing domainAbsoluteRelative=\"relative\" scale=\"1\" offset=\"0\"/>" : "<None/>") + "</TimeReference><TrajectoryFollowingMode followingMode=\"position\"/></FollowTrajectoryAction></RoutingAction>";
}
static string keep(bool lat)
{
    return string(lat ? "<LateralAction><LateralDistanceAction" : "<LongitudinalAction><LongitudinalDistanceAction") +
           " entityRef=\"T\" continuous=\"true\" freespace=\"false\" coordinateSystem=\"lane\" distance=\"2\"><DynamicConstraints maxAcceleration=\"2\" maxDeceleration=\"2\" maxSpeed=\"40\"/>" +
           (lat ? "</LateralDistanceAction></LateralAction>" : "</LongitudinalDistanceAction></LongitudinalAction>");
}
static vector<Act> acts()
{
    string offs = "<LateralAction><LaneOffsetAction continuous=\"false\"><LaneOffsetActionDynamics dynamicsShape=\"sinusoidal\" maxLateralAcc=\"0.00001\"/><LaneOffsetTarget><AbsoluteTargetLaneOffset value=\"0.8\"/></LaneOffsetTarget></LaneOffsetAction></LateralAction>";
    string prof = "<LongitudinalAction><SpeedProfileAction followingMode=\"position\"><SpeedProfileEntry time=\"500\" speed=\"40\"/></SpeedProfileAction></LongitudinalAction>";
    string vis  = "<VisibilityAction graphics=\"true\" traffic=\"true\" sensors=\"true\"/>";
    return {{"spd", scn::speed_action(30, "linear", "time", 500), LON, 0, true, "A"},
            {"prf", prof, LON, 0, true, "A"},
            {"kpl", keep(false), LON, 0, true, "A"},
            {"lch", scn::lane_change(-2, "linear", "time", 500), LAT, 0, true, "A"},
            {"off", offs, LAT, 0, true, "A"},
            {"kpt", keep(true), LAT, 0, true, "A"},
            {"trj", traj(true), LON | LAT, 0, true, "A"},
            {"trn", traj(false), LAT, 0, true, "A"},
            {"tel", scn::teleport(scn::lane_pos(1, -1, 105)), LON | LAT, 0, false, "A"},
            {"vis", vis, 0, 0, false, "A"},
            {"low", light("lowBeam"), LIGHT, 2, true, "A"},
            {"br1", light("brakeLights"), LIGHT, 1, true, "A"},
            {"br2", light("brakeLights"), LIGHT, 1, true, "A"},
            {"spB", scn::speed_action(30, "linear", "time", 500), LON, 0, true, "B"},
            {"lcB", scn::lane_change(-2, "linear", "time", 500), LAT, 0, true, "B"},
            // initial actions, running from the beginning
            {"Init A LongitudinalAction", scn::speed_action(20, "linear", "time", 500), LON, 0, true, "A"},
            {"Init A LateralAction", scn::lane_change(-2, "linear", "time", 500), LAT, 0, true, "A"},
            {"Init A AppearanceAction", light("brakeLights"), LIGHT, 1, true, "A"}};
}
static const size_t N = 15;  // those started by events
// running initial actions: none, one of them, all
static const vector<vector<size_t>> INIT = {{}, {N}, {N + 1}, {N + 2}, {N, N + 1, N + 2}};
static string document(int init)
{
    scn::write_file("r.xodr", scn::odr(scn::straight_road(500, 2, 3)));
    char cwd[400];
    if (!getcwd(cwd, sizeof(cwd)))
        return "";
    string groups, vars;
    auto   as = acts();
    for (size_t i = 0; i < N; i++)
    {
        auto& a = as[i];
        groups += "<ManeuverGroup name=\"g" + a.name + "\" maximumExecutionCount=\"1\"><Actors selectTriggeringEntities=\"false\"><EntityRef entityRef=\"" + a.ent + "\"/></Actors><Maneuver name=\"m" + a.name + "\"><Event name=\"e" + a.name +
                  "\" priority=\"parallel\" maximumExecutionCount=\"100\"><Action name=\"" + a.name + "\">" + scn::pa(a.xml) + "</Action>" + scn::trigger("StartTrigger", scn::var_cond("v" + a.name, "1")) + "</Event></Maneuver></ManeuverGroup>";
        vars += scn::var_decl("v" + a.name, "integer", "0");
    }
    string story = "<Story name=\"s\"><Act name=\"act\">" + groups + scn::trigger("StartTrigger", scn::time_cond(-1)) + "<StopTrigger/></Act></Story>";
    vector<string> ia = {scn::teleport(scn::lane_pos(1, -1, 100)), scn::speed_action(10)};
    for (size_t k : INIT[static_cast<size_t>(init)])
        ia.push_back(as[k].xml);
    return scn::xosc(string(cwd) + "/r.xodr",
                     scn::vehicle("A") + scn::vehicle("B") + scn::vehicle("T"),
                     scn::init_private("A", ia) + scn::init_private("B", {scn::teleport(scn::lane_pos(1, -1, 60)), scn::speed_action(10)}) + scn::init_private("T", {scn::teleport(scn::lane_pos(1, -3, 180)), scn::speed_action(10)}),
                     story,
                     "<StopTrigger/>",
                     vars);
}

struct Model
{
    std::set<size_t> run;
    bool             kpt_lon = false;  // known finding lateral-distance-domain: keeping a lateral distance counts as longitudinal
    int              mask(const vector<Act>& as, size_t k) const
    {
        return kpt_lon && as[k].name == "kpt" ? LON : as[k].mask;
    }
    void start(const vector<Act>& as, size_t k)
    {
        const Act& a = as[k];
        if (run.count(k))
            return;  // runs already
        for (size_t i = 0; i < as.size(); i++)
            if (run.count(i) && as[i].ent == a.ent && (mask(as, i) & mask(as, k)) && (!(a.mask & LIGHT) || as[i].light == a.light))
                run.erase(i);
        if (a.lasting)
            run.insert(k);
    }
};

// which actions run, against the model; empty: as expected
static string differs(const vector<Act>& as, const Model& m, int f)
{
    string w;
    for (size_t i = 0; i < as.size(); i++)
    {
        vf::cmp();
        bool r = g_run.count(as[i].name) && g_run[as[i].name] > 0;
        if (!as[i].lasting && f == 0)
            continue;
        if (r != (m.run.count(i) != 0))
            w += (w.empty() ? "" : "; ") + as[i].name + (r ? " still runs" : " has ended");
    }
    return w;
}
// the speed changes as the running actions say
static string speed_differs(const vector<Act>& as, const Model& m, double dv, int f)
{
    vf::cmp();
    if (m.run.count(N))
        return dv <= 0 ? "the initial speed action, still running, does not change the speed" : "";
    for (size_t k : m.run)
        if (as[k].ent == "A" && ((as[k].mask & LON) || as[k].name == "kpt"))
            return "";
    return f > 0 && fabs(dv) > 1e-6 ? fmt("the speed changes by %.6f although no action for it runs", dv) : "";
}

// one history: each element is the set of actions triggered in one frame
static void play(const string& name, const string& doc, const vector<vector<size_t>>& hist, int init)
{
    auto   as = acts();
    Model  m, other;  // other: what the known finding makes of it
    string h;
    for (size_t k : INIT[static_cast<size_t>(init)])
        m.run.insert(k);
    other.run     = m.run;
    other.kpt_lon = true;
    g_run.clear();
    SE_RegisterParameterDeclarationCallback(on_decl, nullptr);
    if (!scn::load(doc))
    {
        vf::violation(name + "@load", "valid scenario rejected", doc);
        return;
    }
    SE_StepDT(0.1);
    for (auto& ks : hist)
    {
        for (size_t k : ks)
        {
            h += (h.empty() ? "" : k == ks.front() ? ", " : "+") + as[k].name;
            SE_SetVariableInt(("v" + as[k].name).c_str(), 1);
        }
        // events are looked at in the order of the story; one that runs when its turn comes is not started again
        for (Model* x : {&m, &other})
        {
            std::set<size_t> before = x->run;
            for (size_t k : std::set<size_t>(ks.begin(), ks.end()))
                if (!before.count(k))
                    x->start(as, k);
        }
        SE_StepDT(0.1);
        vf::step();
        for (size_t k : ks)
            SE_SetVariableInt(("v" + as[k].name).c_str(), 0);
        for (int f = 0; f < 3; f++)
        {
            SE_ScenarioObjectState s0, s1;
            string                 w = differs(as, m, f), o = differs(as, other, f);
            SE_GetObjectState(0, &s0);
            SE_StepDT(0.1);
            vf::step();
            SE_GetObjectState(0, &s1);
            if (w.empty())
                w = speed_differs(as, m, s1.speed - s0.speed, f);
            if (o.empty())
                o = speed_differs(as, other, s1.speed - s0.speed, f);
            if (!w.empty())
            {
                string text = "after starting " + h + (init ? fmt(" (initial actions %d)", init) : "") + fmt(", frame %d: ", f) + w;
                if (!vf::violation(o.empty() && !m.kpt_lon ? "lateral-distance-domain" : name + ":" + h, text, doc))
                {
                    SE_Close();
                    return;
                }
                m = other;  // the rest of the history as the finding has it
            }
        }
        string key;
        for (size_t k : m.run)
            key += as[k].name;
        vf::state(key);
        vf::outcome(key);
    }
    vf::eval();
    SE_Close();
}

int main(int argc, char** argv)
{
    vf::init(argc, argv, "d_conf");
    vector<vf::Case> cases;
    bool             th = vf::C().thorough();
    size_t           n  = N;
    size_t           depth = th ? 4 : 3;
    for (int in = 0; in < static_cast<int>(INIT.size()); in++)
        for (size_t a = 0; a < n; a++)
            for (size_t b = 0; b < n; b++)
            {
                string name = fmt("%s-%s%s", acts()[a].name.c_str(), acts()[b].name.c_str(), in ? fmt("-init%d", in).c_str() : "");
                cases.push_back({name, [=]()
                                 {
                                     vf::isolated(
                                         [=]()
                                         {
                                             string doc = document(in);
                                             size_t tot = 1;
                                             size_t d   = in ? depth - 1 : depth;
                                             for (size_t i = 2; i < d; i++)
                                                 tot *= n;
                                             for (size_t x = 0; x < tot; x++)
                                             {
                                                 vector<vector<size_t>> h = {{a}, {b}};
                                                 size_t                 y = x;
                                                 for (size_t i = 2; i < d; i++)
                                                 {
                                                     h.push_back({y % n});
                                                     y /= n;
                                                 }
                                                 play(name, doc, h, in);
                                                 if (vf::give_up())
                                                     return;
                                             }
                                             // both in one frame, then each single action
                                             if (a < b)
                                                 for (size_t c = 0; c < n; c++)
                                                     play(name, doc, {{a, b}, {c}}, in);
                                         },
                                         100);
                                 }});
            }
    vf::run(cases, 600);
    return vf::finish(fmt("15 actions (3 longitudinal, 4 lateral, trajectory and teleport in both, lights, none; two on another entity), every sequence of %zu starts, every pair started in one frame followed by every action; from the beginning and with a running initial speed action, lane change, light or all of them (one start less)", depth),
                      {"actions of one event do not conflict with each other", "acquire position and controller actions are left out"});
}
