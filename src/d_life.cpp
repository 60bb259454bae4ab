// C23: entities appear and disappear exactly as added and deleted. C24: object sensors.
#include <algorithm>
#include <map>
#include <set>
#include "scn.hpp"
using std::string;
using std::vector;
using vf::fmt;

static string road_file()
{
    scn::write_file("r.xodr", scn::odr(scn::straight_road(4000, 2, 2, -1000)));
    char cwd[400];
    return getcwd(cwd, sizeof(cwd)) ? string(cwd) + "/r.xodr" : "";
}
static string entity_action(const string& name, bool add, double x)
{
    return "<GlobalAction><EntityAction entityRef=\"" + name + "\">" +
           (add ? "<AddEntityAction><Position>" + scn::world_pos(x, -1.75) + "</Position></AddEntityAction>" : string("<DeleteEntityAction/>")) + "</EntityAction></GlobalAction>";
}
static string event(const string& name, int op, const string& action, const string& more = "")
{
    return "<Event name=\"" + name + "\" priority=\"parallel\" maximumExecutionCount=\"100\"><Action name=\"a_" + name + "\">" + action + "</Action>" + more +
           scn::trigger("StartTrigger", scn::var_cond("op", std::to_string(op))) + "</Event>";
}

// ---- C23
struct Ent
{
    string name;
    int    id;
    double x, v;
    int    type;
    bool   moves;  // by the engine
};
struct LifeCase
{
    string      name;
    vector<int> ops;
    int         depth;
    int         first = -1;  // fixed first operation, to split the tree
};
static std::map<string, int> g_state;  // story board element -> last state
static int                   g_done[20];
static void                  on_state(const char* name, int, int state, const char*)
{
    g_state[name] = state;
    if (state == 1 || state == 3)
        for (int k = 1; k < 9; k++)
            if (string(name) == fmt("e%d", k) && state == 1)
                g_done[k]++;
}
static void on_decl(void*)
{
    SE_RegisterStoryBoardElementStateChangeCallback(on_state);
}
static const char* OPN[] = {"step", "delB", "addB", "delT", "addT", "api+car", "api+misc", "api-old", "api-new", "speed", "sensor", "delB+addB", "api-A?"};
static void        life(const LifeCase& c)
{
    scn::Tree tree;
    tree.n     = static_cast<int>(c.ops.size());
    tree.depth = c.depth - (c.first >= 0);
    string               doc;
    vector<Ent>          act;      // active, in order
    std::map<string, Ent> pool;    // deleted by the scenario
    vector<int>          api;      // ids of objects added by calls
    std::set<int>        seen;     // ids ever given
    int                  serial = 0, listed = -1, speedy = -1;
    double               t = 0;
    std::map<int, double> vel;
    tree.show = [&](vector<int> p)
    {
        string s = c.first >= 0 ? string(OPN[c.first]) : "";
        for (int i : p)
            s += (s.empty() ? "" : ",") + string(OPN[c.ops[static_cast<size_t>(i)]]);
        return s;
    };
    auto fail = [&](const string& what) -> bool
    {
        vf::violation(c.name + "@" + tree.path_str(), "after " + tree.path_str() + ": " + what, doc);
        return false;
    };
    auto compare = [&](bool stepped) -> bool
    {
        vf::cmp();
        if (SE_GetNumberOfObjects() != static_cast<int>(act.size()))
            return fail(fmt("%d objects, expected %zu", SE_GetNumberOfObjects(), act.size()));
        string st;
        for (size_t i = 0; i < act.size(); i++)
        {
            const Ent& e = act[i];
            if (SE_GetId(static_cast<int>(i)) != e.id)
                return fail(fmt("object %zu has id %d, expected %d", i, SE_GetId(static_cast<int>(i)), e.id));
            const char* n = SE_GetObjectName(e.id);
            if (!n || e.name != n)
                return fail(fmt("object %d is named %s, expected %s", e.id, n ? n : "null", e.name.c_str()));
            if (SE_GetIdByName(e.name.c_str()) != e.id)
                return fail(fmt("name %s gives id %d, expected %d", e.name.c_str(), SE_GetIdByName(e.name.c_str()), e.id));
            SE_ScenarioObjectState o;
            if (SE_GetObjectState(e.id, &o) != 0)
                return fail(fmt("no state of object %d", e.id));
            if (o.id != e.id || o.objectType != e.type)
                return fail(fmt("state of object %d says id %d, type %d (expected %d)", e.id, o.id, o.objectType, e.type));
            if (fabs(o.x - e.x) > 1e-2 || fabs(o.speed - e.v) > 1e-3)
                return fail(fmt("%s at x %.4f with speed %.4f, expected %.4f and %.4f", e.name.c_str(), o.x, o.speed, e.x, e.v));
            if (stepped && fabs(o.timestamp - t) > 1e-6)
                return fail(fmt("state of %s is from time %.4f, now %.4f", e.name.c_str(), o.timestamp, t));
            st += fmt("%s:%.2f:%.2f ", e.name.c_str(), e.x, e.v);
        }
        for (auto& p : pool)
        {
            if (SE_GetIdByName(p.first.c_str()) != -1)
                return fail(p.first + " is deleted but still found by its name");
        }
        for (int id : seen)
        {
            SE_ScenarioObjectState o;
            bool                   in = false;
            for (auto& e : act)
                in = in || e.id == id;
            for (auto& e : pool)
                in = in || e.second.id == id;  // entities of the scenario can be asked for by id while they are away
            if (!in && SE_GetObjectState(id, &o) == 0)
                return fail(fmt("object %d is deleted but still has a state", id));
        }
        vf::state(st);
        // sensors see all the others, right after a step exactly them, else at least no others
        for (int s = 0; s < SE_GetNumberOfObjectSensors(); s++)
        {
            int list[64];
            int n = SE_FetchSensorObjectList(s, list);
            int host = s == 0 ? 0 : listed;
            bool alive = false;
            for (auto& e : act)
                alive = alive || e.id == host;
            std::multiset<int> got(list, list + std::max(0, n)), want;
            for (auto& e : act)
                if (e.id != host && alive)
                    want.insert(e.id);
            if (stepped && got != want)
                return fail(fmt("sensor %d of object %d lists %d objects, expected %zu", s, host, n, want.size()));
            for (int id : got)
            {
                bool in = false;
                for (auto& e : act)
                    in = in || e.id == id;
                if (!in)
                    return fail(fmt("sensor %d lists object %d, which is gone", s, id));
            }
        }
        return true;
    };
    auto step = [&](double dt) -> bool
    {
        if (SE_StepDT(static_cast<float>(dt)) != 0)
            return fail("step failed");
        t += dt;
        for (auto& e : act)
            if (e.moves)
                e.x += e.v * dt;
        double tx = NAN;
        for (auto& e : act)
            if (e.name == "T")
                tx = e.x;
        for (auto& e : act)
            if (e.name == "R")
                e.x = tx - 4;
        return compare(true);
    };
    auto remove = [&](const string& n)
    {
        for (size_t i = 0; i < act.size(); i++)
            if (act[i].name == n)
            {
                pool[n] = act[i];
                act.erase(act.begin() + static_cast<long>(i));
                return true;
            }
        return false;
    };
    auto insert = [&](const string& n, double x)
    {
        auto it = pool.find(n);
        if (it == pool.end())
            return false;
        Ent e = it->second;
        e.x   = x;
        act.push_back(e);
        pool.erase(it);
        return true;
    };
    auto story = [&](int op, const vector<std::pair<string, double>>& changes) -> bool
    {
        SE_SetVariableInt("op", op);
        int before = g_done[op];
        for (auto& ch : changes)
        {
            bool        add = !std::isnan(ch.second);
            string      n   = ch.first;
            if (add ? insert(n, ch.second) : remove(n))
                if (n == "T")
                {
                    if (add)
                        insert("R", ch.second - 4);
                    else
                        remove("R");
                }
        }
        if (!step(0.1))
            return false;
        SE_SetVariableInt("op", 0);
        if (!step(0.1))
            return false;
        if (g_done[op] != before + 1)
            return fail(fmt("the event completed %d times instead of once", g_done[op] - before));
        return true;
    };
    auto apply = [&](int op) -> bool
    {
        switch (op)
        {
            case 0:
                return step(0.3);
            case 1:
                return story(1, {{"B", NAN}});
            case 2:
                return story(2, {{"B", 200}});
            case 3:
                return story(3, {{"T", NAN}});
            case 4:
                return story(4, {{"T", 300}});
            case 11:
                return story(5, {{"B", NAN}, {"B", 200}});
            case 5:
            case 6:
            {
                string n    = fmt("n%d", serial);
                int    type = op == 5 ? 1 : 3;
                int    id   = SE_AddObject(n.c_str(), type, 0, 0, -1, nullptr);
                if (id < 0 || seen.count(id))
                    return fail(fmt("new object got id %d", id));
                seen.insert(id);
                double x = 400 + 10 * serial++;
                if (SE_ReportObjectPosXYH(id, x, 1.75, 0) != 0)
                    return fail("new object not found");
                act.push_back({n, id, x, 0, type, false});
                api.push_back(id);
                return compare(false);
            }
            case 7:
            case 8:
            {
                if (api.empty())
                    return SE_DeleteObject(1000) == -1 && compare(false);
                int id = op == 7 ? api.front() : api.back();
                if (SE_DeleteObject(id) != 0)
                    return fail("object not deleted");
                api.erase(std::find(api.begin(), api.end(), id));
                for (size_t i = 0; i < act.size(); i++)
                    if (act[i].id == id)
                    {
                        act.erase(act.begin() + static_cast<long>(i));
                        break;
                    }
                if (SE_DeleteObject(id) != -1)
                    return fail("object deleted twice");
                return compare(false);
            }
            case 9:
            {
                // a speed action that takes long, on the newest object (which is moved by calls)
                if (api.empty())
                    return true;
                SE_SpeedActionStruct a = {api.back(), 0.0, 1, 2, 3.0};
                SE_InjectSpeedAction(&a);
                speedy = api.back();
                return compare(false);
            }
            case 10:
            {
                if (api.empty() || listed >= 0)
                    return true;
                listed = api.back();
                if (SE_AddObjectSensor(listed, 0, 0, 0, 0, 0, 1e6, 7, 50) < 0)
                    return fail("no sensor");
                return true;
            }
        }
        return true;
    };
    tree.apply = [&](int in) { return apply(c.ops[static_cast<size_t>(in)]); };
    tree.run(
        [&]() -> bool
        {
            string ents = scn::vehicle("A") + scn::vehicle("B") +
                          scn::vehicle("R", 5, 2, 0, "").replace(scn::vehicle("R", 5, 2, 0, "").find("<Properties/>"), 0, "<TrailerCoupler dx=\"3\"/>");
            string t1 = scn::vehicle("T");
            t1.replace(t1.find("<Properties/>"), 0, "<TrailerHitch dx=\"-1\"/><Trailer><TrailerRef entityRef=\"R\"/></Trailer>");
            ents += t1 + scn::vehicle("C");
            string init = scn::init_private("A", {scn::teleport(scn::world_pos(0, -1.75)), scn::speed_action(10)}) +
                          scn::init_private("B", {scn::teleport(scn::world_pos(50, -1.75)), scn::speed_action(5)}) +
                          scn::init_private("T", {scn::teleport(scn::world_pos(100, -1.75)), scn::speed_action(8)});
            doc = scn::xosc(road_file(), ents, init,
                            "<Story name=\"s\"><Act name=\"act\"><ManeuverGroup name=\"mg\" maximumExecutionCount=\"1\"><Actors selectTriggeringEntities=\"false\"/><Maneuver name=\"m\">" +
                                event("e1", 1, entity_action("B", false, 0)) + event("e2", 2, entity_action("B", true, 200)) + event("e3", 3, entity_action("T", false, 0)) +
                                event("e4", 4, entity_action("T", true, 300)) +
                                event("e5", 5, entity_action("B", false, 0), "<Action name=\"a5b\">" + entity_action("B", true, 200) + "</Action>") + "</Maneuver></ManeuverGroup></Act></Story>",
                            "<StopTrigger/>", scn::var_decl("op", "integer", "0"));
            SE_RegisterParameterDeclarationCallback(on_decl, nullptr);
            if (!scn::load(doc))
            {
                vf::violation(c.name + "@load", "valid scenario rejected", doc);
                return false;
            }
            for (int i = 0; i < SE_GetNumberOfObjects(); i++)
            {
                int         id = SE_GetId(i);
                const char* n  = SE_GetObjectName(id);
                SE_ScenarioObjectState o;
                SE_GetObjectState(id, &o);
                act.push_back({n, id, o.x, o.speed, 1, string(n) != "R"});
                if (!seen.insert(id).second)
                    return fail("two objects with the same id");
            }
            if (act.size() != 4)
                return fail(fmt("%zu objects to begin with", act.size()));
            if (SE_AddObjectSensor(0, 0, 0, 0, 0, 0, 1e6, 7, 50) != 0)
                return fail("no sensor");
            if (!step(0.1))
                return false;
            return c.first < 0 || apply(c.first);
        });
}

// ---- C24
struct SensorCase
{
    string name;
    double hx, hy, hh;  // pose of the host
    int    max;
};
struct S
{
    double x, y, h, n, f, fov;
    int    max;
};
static double wrap(double a)
{
    while (a > M_PI)
        a -= 2 * M_PI;
    while (a < -M_PI)
        a += 2 * M_PI;
    return a;
}
static void sensors(const SensorCase& c)
{
    string ents, init;
    auto   add = [&](const string& n, const string& more)
    {
        ents += scn::vehicle(n);
        init += "<Private entityRef=\"" + n + "\">" + scn::pa(scn::teleport(scn::world_pos(0, 0))) + more + "</Private>";
    };
    add("H", "");
    for (int i = 0; i < 6; i++)
        add(fmt("o%d", i), i == 5 ? scn::pa("<VisibilityAction graphics=\"true\" traffic=\"true\" sensors=\"false\"/>") : "");
    string doc = scn::xosc(road_file(), ents, init, "<Story name=\"s\"/>");
    if (!scn::load(doc))
    {
        vf::violation(c.name + "@load", "valid scenario rejected", doc);
        return;
    }
    vector<S> sens;
    bool      th = vf::C().thorough();
    for (auto& p : vector<std::pair<double, double>>{{0, 0}, {4, 0}, {2, 1}, {-1.5, -1}})
        for (double h : {0.0, 0.7, 1.57, 3.14, -2.2, -1.57, -0.4})
            for (double fov : {0.4, 1.57, 3.3, 5.5, 7.0})
                for (auto& r : vector<std::pair<double, double>>{{0, 40}, {6, 25}})
                {
                    S s = {p.first, p.second, h, r.first, r.second, fov, c.max};
                    if (SE_AddObjectSensor(0, s.x, s.y, 0.5, s.h, s.n, s.f, s.fov, s.max) != static_cast<int>(sens.size()))
                    {
                        vf::violation(c.name + "@add", "sensor not added", doc);
                        return;
                    }
                    sens.push_back(s);
                }
    int na = th ? 48 : 16;
    for (int place = 0; place < na * 3; place++)
    {
        if (vf::give_up())
            break;
        double px[7], py[7];
        for (int i = 0; i < 6; i++)
        {
            int    k = place + i * 7;
            double a = 2 * M_PI * (k % na) / na, d = (i == 2 && place % 5 == 0) ? 0 : 3 + 13 * ((k / na + i) % 3);
            if (place >= na * 2)
                a = 0;  // all in a row, exactly ahead
            px[i + 1] = c.hx + d * cos(c.hh + a);
            py[i + 1] = c.hy + d * sin(c.hh + a);
            SE_ReportObjectPosXYH(i + 1, px[i + 1], py[i + 1], 0.3 * i);
        }
        SE_ReportObjectPosXYH(0, c.hx, c.hy, c.hh);
        SE_StepDT(0.01f);
        vf::step();
        for (size_t k = 0; k < sens.size(); k++)
        {
            const S&           s = sens[k];
            std::set<int>      must, may;
            double             sx = c.hx + s.x * cos(c.hh) - s.y * sin(c.hh), sy = c.hy + s.x * sin(c.hh) + s.y * cos(c.hh);
            for (int i = 1; i <= 5; i++)
            {
                double dx = px[i] - sx, dy = py[i] - sy, d = hypot(dx, dy), a = fabs(wrap(atan2(dy, dx) - c.hh - s.h));
                bool   close = d < 1e-3;  // direction undefined
                if (d >= s.n - 1e-4 && d <= s.f + 1e-4 && (close || a < s.fov / 2 + 1e-4))
                {
                    may.insert(i);
                    if (!close && d > s.n + 1e-4 && d < s.f - 1e-4 && a < s.fov / 2 - 1e-4)
                        must.insert(i);
                }
            }
            int  list[64];
            int  n = SE_FetchSensorObjectList(static_cast<int>(k), list);
            vf::cmp();
            std::set<int> got(list, list + std::max(0, n));
            string        where = fmt("sensor at (%.2f, %.2f) heading %.2f range %.0f-%.0f field of view %.2f max %d, host (%.1f, %.1f, %.2f), placement %d", s.x, s.y, s.h, s.n, s.f, s.fov, s.max, c.hx, c.hy, c.hh, place);
            string        key   = fmt("%s@%zu/%d", c.name.c_str(), k, place);
            if (n < 0 || static_cast<int>(got.size()) != n || n > s.max)
                vf::violation(key, where + fmt(": lists %d objects, %zu different", n, got.size()), doc);
            for (int g : got)
                if (!may.count(g))
                    vf::violation(key, where + fmt(": lists object %d at (%.2f, %.2f), which it cannot see", g, g > 0 && g < 7 ? px[g] : 0, g > 0 && g < 7 ? py[g] : 0), doc);
            if (n < std::min(s.max, static_cast<int>(must.size())))
                vf::violation(key, where + fmt(": lists %d objects, %zu are visible", n, must.size()), doc);
            if (n < s.max)
                for (int m : must)
                    if (!got.count(m))
                        vf::violation(key, where + fmt(": misses object %d at (%.2f, %.2f)", m, px[m], py[m]), doc);
            vf::state(fmt("%zu %d %zu", k, place, got.size()));
            vf::eval();
        }
    }
    SE_Close();
}

int main(int argc, char** argv)
{
    vf::init(argc, argv, "d_life");
    vector<vf::Case> cases;
    bool             th = vf::C().thorough();
    if (vf::C().prop == "C23")
    {
        struct Set
        {
            string      n;
            vector<int> ops;
            int         depth;
        };
        for (auto& s : vector<Set>{{"scenario", {0, 1, 2, 3, 4, 11}, th ? 6 : 4}, {"calls", {0, 5, 6, 7, 8, 9, 10}, th ? 6 : 5}, {"both", {0, 1, 2, 3, 4, 5, 7, 8, 9, 11}, th ? 5 : 4}})
            for (int f : s.ops)
                cases.push_back({s.n + " " + OPN[f], [s, f]() { life({s.n + " " + OPN[f], s.ops, s.depth, f}); }});
        vf::run(cases, 600);
        return vf::finish(fmt("every sequence of {step, delete or add an entity or a tractor with its trailer by the scenario, delete and add at once} to depth %d, of {step, add vehicle or object, delete oldest or newest, inject a speed action, attach a sensor} "
                              "to depth %d and of all of them to depth %d; set, order, ids, names, types, places, speeds and sensor lists compared after each",
                              th ? 6 : 4, th ? 6 : 5, th ? 5 : 4),
                          {"SE_DeleteObject is applied to objects added by SE_AddObject only, not to entities the scenario refers to"});
    }
    for (double h : {0.0, 0.9, 2.5, 3.14159, -1.3})
        for (int max : {20, 2, 1})
        {
            double hx = 10 + 7 * h;
            SensorCase c = {fmt("host h%.1f max%d", h, max), hx, -1.75, h, max};
            cases.push_back({c.name, [c]() { sensors(c); }});
        }
    vf::run(cases, 300);
    return vf::finish(fmt("280 sensors (4 places, 7 headings, 5 fields of view, 2 ranges) x 3 capacities x 5 host poses x %d placements of six objects (one invisible to sensors, one at times at the host's place)", th ? 144 : 48),
                      {"objects within 0.1 mm of a limit or at the sensor's place may be listed or not"});
}
