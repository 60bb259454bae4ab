// C32: road signs are reported as the road description has them; traffic lights show the state last commanded.
#include <map>
#include <set>
#include "road.hpp"
#include "scn.hpp"
#include "esminiLib.hpp"
#include "esminiRMLib.hpp"
#include "RoadManager.hpp"
using std::string;
using std::vector;
template <class... A>
static string F(const char* f, A... a)
{
    return vf::fmt(f, a...);
}

// ------------------------------------------------------------------ signs
struct Sign
{
    int                              id;
    double                           s, t, z, len, wid, hgt;
    int                              ori;
    string                           name;
    vector<std::pair<int, int>>      valid;
};
static vector<ref::Road> make_roads(int variant)
{
    using namespace ref;
    vector<Road> out;
    for (int k = 0; k < 2; k++)
    {
        Road r;
        r.id = k == 0 ? 3 : 17;
        r.x0 = 10, r.y0 = -4 + 500 * k, r.h0 = 0.4 + k;
        Geom g;
        g.type = Geom::LINE, g.len = 60;
        r.geoms.push_back(g);
        if (variant != 0)
        {
            Geom a;
            a.type = Geom::ARC, a.len = 80;
            a.k0 = a.k1 = k == 0 ? 0.01 : -0.015;
            r.geoms.push_back(a);
        }
        r.sections.push_back(section(0, 2, 2));
        if (variant == 2)
        {
            r.elev  = {{0, 1, 0.02, 0.0002, 0}};
            r.super = {{0, 0.03, 0.0004, 0, 0}};
        }
        r.lht = variant == 1 && k == 1;
        r.finish();
        out.push_back(r);
    }
    return out;
}
static void signs(const string& name, int variant)
{
    auto                      roads = make_roads(variant);
    vector<vector<Sign>>      all(roads.size());
    vector<vector<std::pair<int, int>>> V = {{}, {{-1, -1}}, {{-2, -1}, {1, 2}}, {{2, 2}, {-2, -2}, {1, 1}}};
    int                       id = 100;
    for (size_t k = 0; k < roads.size(); k++)
    {
        size_t n = 0;
        for (double s : {0.0, 23.5, roads[k].length - 7.25, roads[k].length})
            for (double t : {-6.5, 0.0, 8.25})
                for (int o : {1, -1, 0})
                    for (double z : {0.0, 2.4})
                    {
                        if (k == 1 && z > 0 && t == 0)
                            continue;
                        Sign g{id++, s, t, z, 0.1 + 0.01 * static_cast<double>(n), 0.6 + 0.02 * static_cast<double>(n), 0.9, o, F("sign_%zu_%zu", k, n), V[n % V.size()]};
                        all[k].push_back(g);
                        n++;
                    }
        string x = "<signals>";
        for (auto& g : all[k])
        {
            x += F("<signal s=\"%.10g\" t=\"%g\" id=\"%d\" name=\"%s\" dynamic=\"no\" orientation=\"%s\" zOffset=\"%g\" country=\"\" type=\"-1\" subtype=\"-1\" value=\"-1\" height=\"%g\" width=\"%g\" length=\"%g\" hOffset=\"0\" pitch=\"0\" roll=\"0\">",
                     g.s, g.t, g.id, g.name.c_str(), g.ori == 0 ? "none" : g.ori > 0 ? "+" : "-", g.z, g.hgt, g.wid, g.len);
            for (auto& v : g.valid)
                x += F("<validity fromLane=\"%d\" toLane=\"%d\"/>", v.first, v.second);
            x += "</signal>";
        }
        roads[k].extra = x + "</signals>";
    }
    string odr = "<?xml version=\"1.0\"?><OpenDRIVE><header revMajor=\"1\" revMinor=\"6\"/>";
    for (auto& r : roads)
        odr += r.xml();
    odr += "</OpenDRIVE>";
    scn::write_file("signs.xodr", odr);
    char cwd[400];
    if (!getcwd(cwd, sizeof(cwd)))
        return;
    for (int lib = 0; lib < 2; lib++)
        vf::isolated(
            [&]()
            {
                const char* L = lib ? "RM" : "SE";
                if (lib == 0 ? !scn::load(scn::xosc(string(cwd) + "/signs.xodr", scn::vehicle("Ego"), scn::init_private("Ego", {scn::teleport(scn::lane_pos(3, -1, 5))}), "", "<StopTrigger/>", "")) : RM_Init((string(cwd) + "/signs.xodr").c_str()) != 0)
                {
                    vf::violation(name + ":load", "the road network with signs does not load", odr);
                    return;
                }
                // in order and backwards: the answers do not depend on what was asked before
                for (int back = 0; back < 2; back++)
                    for (size_t kk = 0; kk < roads.size(); kk++)
                    {
                        size_t k   = back ? roads.size() - 1 - kk : kk;
                        auto&  r   = roads[k];
                        id_t   rid = static_cast<id_t>(r.id);
                        long   n   = lib ? RM_GetNumberOfRoadSigns(rid) : static_cast<long>(SE_GetNumberOfRoadSigns(rid));
                        vf::cmp();
                        if (n != static_cast<long>(all[k].size()))
                        {
                            vf::violation(name + ":count", F("%s: %ld signs on road %d, described are %zu", L, n, r.id, all[k].size()), odr);
                            continue;
                        }
                        for (size_t ii = 0; ii < all[k].size(); ii++)
                        {
                            size_t      i = back ? all[k].size() - 1 - ii : ii;
                            auto&       g = all[k][i];
                            RM_RoadSign a;
                            memset(&a, 0, sizeof(a));
                            int rc;
                            if (lib)
                                rc = RM_GetRoadSign(rid, static_cast<unsigned>(i), &a);
                            else
                            {
                                SE_RoadSign b;
                                memset(&b, 0, sizeof(b));
                                rc = SE_GetRoadSign(rid, static_cast<unsigned>(i), &b);
                                a.id = b.id, a.x = b.x, a.y = b.y, a.z = b.z, a.z_offset = b.z_offset, a.h = b.h, a.roadId = b.roadId, a.s = b.s, a.t = b.t, a.name = b.name, a.orientation = b.orientation, a.length = b.length, a.height = b.height, a.width = b.width;
                            }
                            vf::step();
                            vf::cmp(12);
                            string    what;
                            ref::Pose w = r.at(g.s, g.t);
                            if (rc != 0)
                                what = F("answers %d", rc);
                            else if (a.id != g.id || string(a.name) != g.name)
                                what = F("is %d %s", a.id, a.name);
                            else if (fabs(a.x - w.x) + fabs(a.y - w.y) + fabs(a.z - w.z) > 0.01)
                                what = F("is at (%.3f, %.3f, %.3f), not (%.3f, %.3f, %.3f)", a.x, a.y, a.z, w.x, w.y, w.z);
                            else if (fabs(ref::angdiff(a.h, w.h)) > 0.002)
                                what = F("has heading %.4f, the road %.4f", a.h, w.h);
                            else if (a.roadId != rid)
                                what = F("is on road %d", static_cast<int>(a.roadId));
                            else if (fabs(a.s - g.s) > 1e-4 || fabs(a.t - g.t) > 1e-4 || fabs(a.z_offset - g.z) > 1e-6)
                                what = F("is at s %.4f t %.4f z offset %.4f, not %.4f %.4f %.4f", a.s, a.t, a.z_offset, g.s, g.t, g.z);
                            else if (a.orientation != (g.ori < 0 ? -1 : 1))
                                what = F("has orientation %d, described %d", a.orientation, g.ori);
                            else if (fabs(a.length - g.len) + fabs(a.width - g.wid) + fabs(a.height - g.hgt) > 1e-6)
                                what = F("has size %g %g %g, described %g %g %g", a.length, a.width, a.height, g.len, g.wid, g.hgt);
                            else
                            {
                                long nv = lib ? RM_GetNumberOfRoadSignValidityRecords(rid, static_cast<unsigned>(i)) : static_cast<long>(SE_GetNumberOfRoadSignValidityRecords(rid, static_cast<unsigned>(i)));
                                if (nv != static_cast<long>(g.valid.size()))
                                    what = F("has %ld validity records, described %zu", nv, g.valid.size());
                                for (size_t v = 0; v < g.valid.size() && what.empty(); v++)
                                {
                                    int f = 99, t = 99;
                                    if (lib)
                                    {
                                        RM_RoadObjValidity q{99, 99};
                                        RM_GetRoadSignValidityRecord(rid, static_cast<unsigned>(i), static_cast<unsigned>(v), &q);
                                        f = q.fromLane, t = q.toLane;
                                    }
                                    else
                                    {
                                        SE_RoadObjValidity q{99, 99};
                                        SE_GetRoadSignValidityRecord(rid, static_cast<unsigned>(i), static_cast<unsigned>(v), &q);
                                        f = q.fromLane, t = q.toLane;
                                    }
                                    vf::cmp();
                                    if (f != g.valid[v].first || t != g.valid[v].second)
                                        what = F("is valid for lanes %d..%d, described %d..%d", f, t, g.valid[v].first, g.valid[v].second);
                                }
                            }
                            vf::state(F("%d %d %zu %zu", lib, variant, k, i));
                            if (!what.empty())
                                vf::violation(name + ":" + g.name, F("%s: sign %s of road %d ", L, g.name.c_str(), r.id) + what, odr);
                        }
                        // beyond the last
                        RM_RoadSign a;
                        SE_RoadSign b;
                        unsigned    past = static_cast<unsigned>(all[k].size());
                        vf::cmp();
                        if ((lib ? RM_GetRoadSign(rid, past, &a) : SE_GetRoadSign(rid, past, &b)) >= 0)
                            vf::violation(name + ":past", F("%s: there is a sign beyond the last one of road %d", L, r.id), odr);
                    }
                vf::eval();
            },
            60);
}
// ------------------------------------------------------------------ traffic lights
struct Light
{
    int    id;
    string type, sub;
    int    lamps;
    vector<string> states;
};
static std::set<string> g_started;
static void             on_state(const char* name, int, int state, const char*)
{
    if (state == 2 && name[0] == 'w')
        g_started.insert(name);
}
static void on_decl(void*)
{
    SE_RegisterStoryBoardElementStateChangeCallback(on_state);
}
static const std::map<string, int> MODE = {{"unknown", 0}, {"other", 1}, {"off", 2}, {"on", 3}, {"flashing", 4}, {"counting", 5}, {"broken", 1}};
static vector<string>              split(const string& s)
{
    vector<string> o;
    string         c;
    for (char ch : s + ";")
        if (ch == ';')
        {
            if (!c.empty())
                o.push_back(c);
            c.clear();
        }
        else
            c += ch;
    return o;
}
static string light_doc(const vector<Light>& ls, const string& init)
{
    char cwd[400];
    if (!getcwd(cwd, sizeof(cwd)))
        return "";
    string road = scn::straight_road(500, 1, 2), sg = "<signals>";
    for (auto& l : ls)
        sg += F("<signal s=\"%d\" t=\"-5\" id=\"%d\" name=\"tl%d\" dynamic=\"yes\" orientation=\"+\" zOffset=\"2\" country=\"OpenDRIVE\" type=\"%s\" subtype=\"%s\" height=\"0.9\" width=\"0.3\" length=\"0.2\" hOffset=\"0\" pitch=\"0\" roll=\"0\"/>", 100 + l.id, l.id, l.id, l.type.c_str(), l.sub.c_str());
    road.insert(road.rfind("</road>"), sg + "</signals>");
    scn::write_file("lights.xodr", scn::odr(road));
    string ev;
    int    k = 0;
    auto   set = [](int id, const string& st) { return F("<GlobalAction><InfrastructureAction><TrafficSignalAction><TrafficSignalStateAction name=\"%d\" state=\"%s\"/></TrafficSignalAction></InfrastructureAction></GlobalAction>", id, st.c_str()); };
    for (auto& l : ls)
        for (auto& st : l.states)
        {
            ev += F("<Event name=\"s%d\" priority=\"parallel\" maximumExecutionCount=\"1000000\"><Action name=\"as%d\">", k, k) + set(l.id, st) + "</Action>" + scn::trigger("StartTrigger", scn::var_cond("op", std::to_string(k))) + "</Event>";
            ev += F("<Event name=\"w%d\" priority=\"parallel\" maximumExecutionCount=\"1000000\"><Action name=\"aw%d\"><GlobalAction><VariableAction variableRef=\"x\"><SetAction value=\"1\"/></VariableAction></GlobalAction></Action>", k, k) +
                  scn::trigger("StartTrigger", F("<Condition name=\"c%d\" delay=\"0\" conditionEdge=\"none\"><ByValueCondition><TrafficSignalCondition name=\"%d\" state=\"%s\"/></ByValueCondition></Condition>", k, l.id, st.c_str())) + "</Event>";
            k++;
        }
    // two lights by one event
    ev += F("<Event name=\"both\" priority=\"parallel\" maximumExecutionCount=\"1000000\"><Action name=\"b0\">") + set(ls[0].id, ls[0].states[1]) + "</Action><Action name=\"b1\">" + set(ls[1].id, ls[1].states[1]) + "</Action>" +
          scn::trigger("StartTrigger", scn::var_cond("op", std::to_string(k))) + "</Event>";
    string story = "<Story name=\"s\"><Act name=\"act\"><ManeuverGroup name=\"g\" maximumExecutionCount=\"1\"><Actors selectTriggeringEntities=\"false\"/><Maneuver name=\"m\">" + ev + "</Maneuver></ManeuverGroup>" + scn::trigger("StartTrigger", scn::time_cond(-1)) +
                   "<StopTrigger/></Act></Story>";
    return scn::xosc(string(cwd) + "/lights.xodr", scn::vehicle("Ego"), init + scn::init_private("Ego", {scn::teleport(scn::lane_pos(1, -1, 5))}), story, "<StopTrigger/>", scn::var_decl("op", "integer", "-1") + scn::var_decl("x", "integer", "0"));
}
static void lights(const string& name, const vector<Light>& ls, bool init, int depth, int first)
{
    string ini;
    if (init)
        for (auto& l : ls)
            ini += F("<GlobalAction><InfrastructureAction><TrafficSignalAction><TrafficSignalStateAction name=\"%d\" state=\"%s\"/></TrafficSignalAction></InfrastructureAction></GlobalAction>", l.id, l.states[0].c_str());
    string         doc = light_doc(ls, ini);
    vector<string> now(ls.size());
    if (init)
        for (size_t i = 0; i < ls.size(); i++)
            now[i] = ls[i].states[0];
    scn::Tree tree;
    int       ops = 1;
    for (auto& l : ls)
        ops += static_cast<int>(l.states.size());
    tree.n     = ops;
    tree.depth = depth;
    auto look  = [&](const string& path) -> bool
    {
        g_started.clear();
        SE_StepDT(0.05f);
        SE_StepDT(0.05f);
        int  k  = 0;
        bool ok = true;
        string all;
        for (size_t i = 0; i < ls.size(); i++)
        {
            for (auto& st : ls[i].states)
            {
                bool real = g_started.count(F("w%d", k++)) > 0, want = now[i] == st;
                vf::cmp();
                if (now[i].empty() && st.find("on") == string::npos && st.find("f") != string::npos)
                    continue;  // never set: lamps are off, whether the condition holds then is left open
                if (real != want)
                {
                    vf::violation(name + ":" + path, F("after operations %s light %d is in state \"%s\", the condition for \"%s\" %s", path.c_str(), ls[i].id, now[i].c_str(), st.c_str(), real ? "holds" : "does not hold"), doc);
                    ok = false;
                }
            }
            // the lamps
            roadmanager::TrafficLight* tl = nullptr;
            for (auto* s : roadmanager::Position::GetOpenDrive()->GetDynamicSignals())
                if (s != nullptr && s->GetId() == ls[i].id)
                    tl = dynamic_cast<roadmanager::TrafficLight*>(s);
            vf::cmp();
            if (tl == nullptr || tl->GetNrLamps() != static_cast<size_t>(ls[i].lamps))
            {
                vf::violation(name + ":lamps", F("light %d (type %s %s) does not have %d lamps", ls[i].id, ls[i].type.c_str(), ls[i].sub.c_str(), ls[i].lamps), doc);
                return false;
            }
            auto want = now[i].empty() ? vector<string>(static_cast<size_t>(ls[i].lamps), "off") : split(now[i]);
            for (size_t j = 0; j < tl->GetNrLamps(); j++)
            {
                auto* lamp = tl->GetLamp(j);
                vf::cmp();
                all += F("%d", static_cast<int>(lamp->GetMode()));
                if (static_cast<int>(lamp->GetMode()) != MODE.at(want[j]) || lamp->IsBroken() != (want[j] == "broken"))
                {
                    vf::violation(name + ":" + path + ":lamp", F("after operations %s lamp %zu of light %d has mode %d, not \"%s\"", path.c_str(), j, ls[i].id, static_cast<int>(lamp->GetMode()), want[j].c_str()), doc);
                    ok = false;
                }
            }
        }
        vf::state(name + all);
        return ok;
    };
    tree.apply = [&](int op) -> bool
    {
        if (tree.path.size() == 1 && op != first)
            return false;
        SE_SetVariableInt("op", op);
        SE_StepDT(0.05f);
        SE_SetVariableInt("op", -1);
        SE_StepDT(0.05f);
        SE_StepDT(0.05f);
        int k = 0;
        for (size_t i = 0; i < ls.size(); i++)
            for (auto& st : ls[i].states)
                if (k++ == op)
                    now[i] = st;
        if (op == ops - 1)
            now[0] = ls[0].states[1], now[1] = ls[1].states[1];
        return look(tree.path_str());
    };
    tree.run(
        [&]() -> bool
        {
            SE_RegisterParameterDeclarationCallback(on_decl, nullptr);
            if (!scn::load(doc))
            {
                vf::violation(name + ":load", "the scenario does not load", doc);
                return false;
            }
            SE_StepDT(0.05f);
            SE_StepDT(0.05f);
            return look("-");
        });
}
int main(int argc, char** argv)
{
    vf::init(argc, argv, "d_signal");
    bool             T = vf::C().thorough();
    vector<vf::Case> cases;
    for (int v = 0; v < 3; v++)
        cases.push_back({F("signs-%d", v), [=]() { signs(F("signs-%d", v), v); }});
    vector<vector<Light>> sets = {
        {{1, "1000001", "-1", 3, {"off;off;on", "on;off;off", "off;flashing;off", "on;on;off", "off;off;off", "counting;other;broken"}}, {2, "1000002", "-1", 2, {"on;off", "off;on", "flashing;off", "off;off"}}},
        {{7, "1.000.011", "10", 3, {"on;off;off", "off;off;on", "off;on;off", "broken;off;unknown"}}, {8, "1000008", "", 1, {"off", "flashing", "on", "broken"}}, {4, "1000009", "30", 2, {"on;off", "off;on"}}},
        {{11, "1000002", "30", 3, {"on;on;off", "off;off;on"}}, {12, "1000013", "100", 1, {"on", "off"}}, {13, "1000010", "20", 2, {"on;off", "off;on"}}, {10, "1000011", "50", 3, {"on;on;on", "off;off;on", "flashing;off;off"}}},
    };
    for (size_t s = 0; s < sets.size(); s++)
        for (int init = 0; init < 2; init++)
        {
            int ops = 1;
            for (auto& l : sets[s])
                ops += static_cast<int>(l.states.size());
            for (int f = 0; f < ops; f++)
            {
                string name = F("lights-%zu-%d-%d", s, init, f);
                auto   ls   = sets[s];
                cases.push_back({name, [=]() { lights(name, ls, init, T ? 5 : 4, f); }});
            }
        }
    vf::run(cases, T ? 600 : 200);
    return vf::finish(F("signs: 2 roads x 3 shapes (straight, curved, curved with slope and superelevation), 72 and 60 signs each (4 places along, 3 across, 3 orientations, 2 heights, 4 lists of lanes), both libraries, asked forwards and backwards; lights: 3 sets of 2 to 4 lights with 1 to 3 lamps, every sequence of %d state actions (one light, or two lights by one event), with and without initial states", T ? 5 : 4),
                      {"the heading of a sign is that of the road, its orientation is reported separately", "whether a condition on a light that was never set holds for \"off\" is left open", "traffic signal controllers are not supported by esmini"});
}
