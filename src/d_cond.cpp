// C03: condition edges, delays and their combination in triggers.
// C04: by-value conditions (rules, types), storyboard element state conditions.
#include "story.hpp"
using namespace story;

// ------------------------------------------------------------------------------------------------ C03
enum Edge
{
    E_NONE,
    E_RISING,
    E_FALLING,
    E_BOTH
};
static const char* EDGE[] = {"none", "rising", "falling", "risingOrFalling"};

struct MCond
{
    int  var;
    Edge edge;
    int  delay2;  // in half frames
    // state
    bool                                 seen  = false;
    bool                                 last  = false;
    bool                                 value = false;
    std::vector<std::pair<double, bool>> hist;
    double                               before = -1;     // time of the previous evaluation
    bool                                 open   = false;  // several outcomes in the time that passed

    bool eval(double t, bool raw, bool* rose)
    {
        bool cur = edge == E_NONE ? raw : seen && (edge == E_RISING ? raw && !last : edge == E_FALLING ? !raw && last : raw != last);
        last     = raw;
        seen     = true;
        if (!hist.empty() && hist.back().first == t)
            hist.back().second = cur;
        else
            hist.push_back({t, cur});
        bool v = false;
        double at  = t - delay2 * 0.5 * DT;
        bool   any = false;
        for (auto& h : hist)
            if (h.first <= at + 1e-9)
            {
                v = h.second;
                if (h.first > before - delay2 * 0.5 * DT + 1e-9 && h.second)
                    any = true;
            }
        // with frames of different lengths a short outcome may lie between two evaluations: an edge must not be lost, a level is open
        open   = any && !v && edge == E_NONE;
        v      = v || (any && edge != E_NONE);
        before = t;
        *rose  = v && !value;
        value = v;
        return v;
    }
    void reset()
    {
        hist.clear();
        value  = false;
        before = -1;
    }
    std::string str() const
    {
        return fmt("v%d:%s+%d", var, EDGE[edge], delay2);
    }
};

struct C3
{
    std::string                     name;
    std::vector<std::vector<MCond>> groups;
    int                             nvars = 1;
    int                             place = 0;  // 0 event start, 1 act start, 2 act stop, 3 storyboard stop
    int                             max   = 3;
    int                             depth = 6;
    bool                            init  = false;  // initial value of the variables
    int                             run   = 1;      // place 0: frames the event takes, during which its trigger is not looked at
    bool                            steps = false;  // frames of two lengths
};

static std::vector<std::string>& cond_log()
{
    static std::vector<std::string> v;
    return v;
}
static void on_cond(const char* name, double)
{
    cond_log().push_back(name);
}
static std::map<std::string, std::string>& el_log()
{
    static std::map<std::string, std::string> m;
    return m;
}
static void on_state(const char* name, int, int state, const char*)
{
    el_log()[name] += static_cast<char>('0' + state);
}
static void on_decl(void*)
{
    SE_RegisterStoryBoardElementStateChangeCallback(on_state);
    SE_RegisterConditionCallback(on_cond);
}

static std::string setvar_event(const std::string& trig, int max, int run = 1)
{
    return fmt("<Event name=\"e\" priority=\"parallel\" maximumExecutionCount=\"%d\"><Action name=\"a\">", max) +
           (run > 1 ? scn::pa(scn::speed_action(5, "linear", "time", run * DT))
                    : "<GlobalAction><VariableAction variableRef=\"dummy\"><SetAction value=\"1\"/></VariableAction></GlobalAction>") +
           "</Action>" + trig + "</Event>";
}

static void check3(const C3& c)
{
    C3        m = c;  // model state
    int       execs = 0;
    bool      done  = false;
    double    t     = 0;
    scn::Tree tree;
    tree.n     = 1 << (c.nvars + (c.steps ? 1 : 0));
    tree.depth = c.depth;
    std::string doc, trace;
    int         busy  = 0;
    auto frame = [&](int bits, const std::string& where) -> bool
    {
        // model
        std::multiset<std::string> rise;
        bool                       fire = false;
        std::multiset<std::string> seen(cond_log().begin(), cond_log().end());
        std::string key = c.place == 0 || c.place == 4 ? "e" : c.place == 3 ? "storyBoard" : "act";
        bool        got;
        if (c.place == 0 || c.place == 1 || c.place == 4)
            got = el_log()[key].find('2') != std::string::npos;
        else
            got = el_log()[key].find('3') != std::string::npos;
        bool ended_now = false;
        if (busy > 0)
        {
            if (--busy == 0)
                ended_now = true;
        }
        else if (!done)
        {
            for (auto& g : m.groups)
            {
                bool all = true;
                for (auto& k : g)
                {
                    bool r = false;
                    all &= k.eval(t, bits >> k.var & 1, &r);
                    if (k.open && got)
                    {
                        all     = true;  // only used for single conditions
                        r       = !seen.empty();
                        k.value = true;
                    }
                    if (r)
                        rise.insert("c_" + k.str());
                }
                fire |= all;
            }
            if (fire)
            {
                for (auto& g : m.groups)
                    for (auto& k : g)
                        k.seen = false;
                execs++;
                busy = c.run - 1;
                if (execs >= c.max || (c.place && c.place != 4))
                    done = true;
                else if (!busy)
                    ended_now = true;
            }
        }
        if (ended_now && !done)
            for (auto& g : m.groups)
                for (auto& k : g)
                    k.reset();
        vf::cmp(2);
        std::string                st = c.name + fmt("%d%d", execs, done);
        for (auto& g : m.groups)
            for (auto& k : g)
                st += fmt("%d%d%d", k.seen, k.last, k.value);
        vf::state(st);
        trace += got ? "!" : ".";
        if (got != fire || seen != rise)
        {
            std::string a, b;
            for (auto& s : rise)
                a += s + " ";
            for (auto& s : seen)
                b += s + " ";
            vf::violation(c.name + "@" + where,
                          fmt("trigger %s, variable values per frame %s: expected %s (conditions turning true: %s), observed %s (%s)",
                              c.name.c_str(),
                              where.c_str(),
                              fire ? "trigger" : "no trigger",
                              a.c_str(),
                              got ? "trigger" : "no trigger",
                              b.c_str()),
                          doc);
            return false;
        }
        return true;
    };
    tree.apply = [&](int in) -> bool
    {
        for (int i = 0; i < c.nvars; i++)
            SE_SetVariableBool(fmt("v%d", i).c_str(), in >> i & 1);
        el_log().clear();
        cond_log().clear();
        double dt = c.steps && (in >> c.nvars & 1) ? 4 * DT : DT;
        SE_StepDT(static_cast<float>(dt));
        bool ok = frame(in & ((1 << c.nvars) - 1), tree.path_str());
        t += dt;
        return ok && !(c.place == 3 && done);  // the scenario is over
    };
    tree.leaf = [&]()
    {
        vf::outcome(c.name + trace);
        if (vf::fnv(c.name + trace) % 3000 == 1)
            vf::sample(c.name + " " + tree.path_str() + " " + trace);
    };
    tree.run(
        [&]() -> bool
        {
            scn::write_file("r.xodr", scn::odr(scn::straight_road(400, 0, 2)));
            char cwd[400];
            if (!getcwd(cwd, sizeof(cwd)))
                return false;
            std::string trig, vars = scn::var_decl("dummy", "integer", "0");
            for (int i = 0; i < c.nvars; i++)
                vars += scn::var_decl(fmt("v%d", i), "boolean", c.init ? "true" : "false");
            for (auto& g : c.groups)
            {
                trig += "<ConditionGroup>";
                for (auto& k : g)
                    trig += fmt("<Condition name=\"c_%s\" delay=\"%.17g\" conditionEdge=\"%s\"><ByValueCondition><VariableCondition variableRef=\"v%d\" value=\"true\" "
                                "rule=\"equalTo\"/></ByValueCondition></Condition>",
                                k.str().c_str(),
                                k.delay2 * 0.5 * DT,
                                EDGE[k.edge],
                                k.var);
                trig += "</ConditionGroup>";
            }
            std::string never = "<StartTrigger><ConditionGroup>" + scn::time_cond(1e6) + "</ConditionGroup></StartTrigger>";
            std::string ev    = setvar_event(c.place == 0 || c.place == 4 ? "<StartTrigger>" + trig + "</StartTrigger>" : never, c.place == 4 ? 1 : c.max, c.run);
            std::string st    = "<Story name=\"s\"><Act name=\"act\"><ManeuverGroup name=\"mg\" maximumExecutionCount=\"" + std::to_string(c.place == 4 ? c.max : 1) +
                             "\"><Actors selectTriggeringEntities=\"false\">" + (c.run > 1 ? "<EntityRef entityRef=\"A\"/>" : "") + "</Actors><Maneuver name=\"m\">" + ev + "</Maneuver></ManeuverGroup>" + (c.place == 1 ? "<StartTrigger>" + trig + "</StartTrigger>" : "") +
                             (c.place == 2 ? "<StopTrigger>" + trig + "</StopTrigger>" : "") + "</Act></Story>";
            doc = scn::xosc(std::string(cwd) + "/r.xodr",
                            scn::vehicle("A"),
                            scn::init_private("A", {scn::teleport(scn::lane_pos(1, -1, 50))}),
                            st,
                            c.place == 3 ? "<StopTrigger>" + trig + "</StopTrigger>" : "<StopTrigger/>",
                            vars);
            SE_RegisterParameterDeclarationCallback(on_decl, nullptr);
            el_log().clear();
            cond_log().clear();
            if (!scn::load(doc))
            {
                vf::violation(c.name + "@load", "valid scenario rejected", doc);
                return false;
            }
            return frame(c.init ? (1 << c.nvars) - 1 : 0, "load") && !(c.place == 3 && done);
        });
}

static std::vector<C3> gen3(bool deep_)
{
    std::vector<C3> v;
    auto            add = [&](std::vector<std::vector<MCond>> g, int nvars, int place, int max, int depth, bool init)
    {
        C3 c;
        c.groups = g;
        c.nvars  = nvars;
        c.place  = place;
        c.max    = max;
        c.depth  = depth;
        c.init   = init;
        c.name   = fmt("place%d max%d init%d", place, max, init);
        for (auto& x : g)
        {
            c.name += " [";
            for (auto& k : x)
                c.name += " " + k.str();
            c.name += " ]";
        }
        v.push_back(c);
    };
    int delays[] = {0, 1, 2, 3, 4, 6};
    for (int e = 0; e < 4; e++)
        for (int d : delays)
            for (int place = 0; place < 4; place++)
                for (int max = 1; max <= (place ? 1 : 3); max += 2)
                    for (int init = 0; init < 2; init++)
                        add({{{0, Edge(e), d}}}, 1, place, max, deep_ ? 11 : 8, init);
    // an event repeated by its group, an event that takes several frames, frames of different lengths
    for (int e = 0; e < 4; e++)
        for (int d : delays)
        {
            add({{{0, Edge(e), d}}}, 1, 4, 3, deep_ ? 9 : 8, false);
            for (int run = 2; run <= 3; run++)
            {
                add({{{0, Edge(e), d}}}, 1, 0, 3, deep_ ? 10 : 8, false);
                v.back().run = run;
                v.back().name += fmt(" run%d", run);
            }
            add({{{0, Edge(e), d}}}, 1, 0, 3, deep_ ? 6 : 5, false);
            v.back().steps = true;
            v.back().name += " steps";
        }
    // two conditions in one group, or in two groups
    std::vector<std::pair<int, int>> kinds = {{0, 0}, {1, 0}, {2, 0}, {3, 0}, {0, 2}, {1, 2}, {2, 4}, {0, 3}};
    for (auto a : kinds)
        for (auto b : kinds)
            for (int two = 0; two < 2; two++)
            {
                MCond x{0, Edge(a.first), a.second}, y{1, Edge(b.first), b.second};
                if (two)
                    add({{x}, {y}}, 2, 0, 3, deep_ ? 6 : 5, false);
                else
                    add({{x, y}}, 2, 0, 3, deep_ ? 6 : 5, false);
            }
    // three conditions: (a and b) or c, and a and b and c
    for (auto a : {kinds[0], kinds[1], kinds[4]})
        for (auto b : {kinds[0], kinds[1], kinds[2], kinds[5]})
            for (auto k : {kinds[0], kinds[1], kinds[3]})
                for (int two = 0; two < 2; two++)
                {
                    MCond x{0, Edge(a.first), a.second}, y{1, Edge(b.first), b.second}, z{2, Edge(k.first), k.second};
                    if (two)
                        add({{x, y}, {z}}, 3, 0, 2, deep_ ? 4 : 3, false);
                    else
                        add({{x, y, z}}, 3, 0, 2, deep_ ? 4 : 3, false);
                }
    return v;
}


// ------------------------------------------------------------------------------------------------ C04: values
static const char* RULES[] = {"greaterThan", "greaterOrEqual", "lessThan", "lessOrEqual", "equalTo", "notEqualTo"};
template <class T>
static bool rule_holds(int r, T a, T b)
{
    switch (r)
    {
        case 0:
            return a > b;
        case 1:
            return a >= b;
        case 2:
            return a < b;
        case 3:
            return a <= b;
        case 4:
            return a == b;
        default:
            return a != b;
    }
}
static int rule_of(const std::string& type, int r, const std::string& a, const std::string& b)
{
    if (type == "integer")
        return rule_holds(r, atoi(a.c_str()), atoi(b.c_str()));
    if (type == "double")
        return rule_holds(r, atof(a.c_str()), atof(b.c_str()));
    if (type == "boolean")
        return rule_holds(r, a == "true", b == "true");
    return rule_holds(r, a, b);
}

// kind: 0 variable through the API, 1 parameter through the API, 2 variable through a VariableAction
static void check4v(const std::string& name, const std::string& type, const std::vector<std::string>& values, const std::string& ref, int rule, int kind, int depth)
{
    scn::Tree tree;
    tree.n     = static_cast<int>(values.size());
    tree.depth = depth;
    std::string doc, trace;
    auto verdict = [&](const std::string& val, const std::string& where) -> bool
    {
        bool got  = el_log()["e"].find('2') != std::string::npos;
        bool want = rule_of(type, rule, val, ref);
        vf::cmp();
        vf::state(name + val);
        trace += got ? "!" : ".";
        if (got != want)
        {
            vf::violation(name + "@" + where, fmt("%s: value %s %s %s must be %d, the condition says %d", name.c_str(), val.c_str(), RULES[rule], ref.c_str(), want, got), doc);
            return false;
        }
        return true;
    };
    tree.apply = [&](int in) -> bool
    {
        const std::string& v = values[static_cast<size_t>(in)];
        int                r = -1;
        if (type == "integer")
            r = kind ? SE_SetParameterInt("p", atoi(v.c_str())) : SE_SetVariableInt("p", atoi(v.c_str()));
        else if (type == "double")
            r = kind ? SE_SetParameterDouble("p", atof(v.c_str())) : SE_SetVariableDouble("p", atof(v.c_str()));
        else if (type == "boolean")
            r = kind ? SE_SetParameterBool("p", v == "true") : SE_SetVariableBool("p", v == "true");
        else
            r = kind ? SE_SetParameterString("p", v.c_str()) : SE_SetVariableString("p", v.c_str());
        if (r != 0)
        {
            vf::violation(name + "@set", "could not set the value");
            return false;
        }
        el_log().clear();
        SE_StepDT(DT);
        return verdict(v, tree.path_str());
    };
    tree.leaf = [&]() { vf::outcome(name + trace); };
    tree.run(
        [&]() -> bool
        {
            scn::write_file("r.xodr", scn::odr(scn::straight_road(400, 0, 2)));
            char cwd[400];
            if (!getcwd(cwd, sizeof(cwd)))
                return false;
            std::string vars = scn::var_decl("dummy", "integer", "0"), params;
            if (kind == 0)
                vars += scn::var_decl("p", type, values[0]);
            else
                params = "<ParameterDeclaration name=\"p\" parameterType=\"" + type + "\" value=\"" + values[0] + "\"/>";
            std::string cond = std::string("<StartTrigger><ConditionGroup><Condition name=\"c\" delay=\"0\" conditionEdge=\"none\"><ByValueCondition>") +
                               (kind == 0 ? "<VariableCondition variableRef=\"p\"" : "<ParameterCondition parameterRef=\"p\"") + " value=\"" + ref + "\" rule=\"" + RULES[rule] +
                               "\"/></ByValueCondition></Condition></ConditionGroup></StartTrigger>";
            doc = scn::xosc(std::string(cwd) + "/r.xodr",
                            scn::vehicle("A"),
                            scn::init_private("A", {scn::teleport(scn::lane_pos(1, -1, 50))}),
                            "<Story name=\"s\"><Act name=\"act\"><ManeuverGroup name=\"mg\" maximumExecutionCount=\"1\"><Actors selectTriggeringEntities=\"false\"/><Maneuver name=\"m\">" +
                                setvar_event(cond, 100) + "</Maneuver></ManeuverGroup></Act></Story>",
                            "<StopTrigger/>",
                            vars,
                            params);
            SE_RegisterParameterDeclarationCallback(on_decl, nullptr);
            el_log().clear();
            if (!scn::load(doc))
            {
                vf::violation(name + "@load", "valid scenario rejected", doc);
                return false;
            }
            return verdict(values[0], "load");
        });
}

static void check4t(const std::string& name, double ref, int rule)
{
    int r = vf::isolated(
        [&]()
        {
            scn::write_file("r.xodr", scn::odr(scn::straight_road(400, 0, 2)));
            char cwd[400];
            if (!getcwd(cwd, sizeof(cwd)))
                _exit(7);
            std::string cond = "<StartTrigger><ConditionGroup>" + scn::time_cond(ref, RULES[rule]) + "</ConditionGroup></StartTrigger>";
            std::string doc  = scn::xosc(std::string(cwd) + "/r.xodr",
                                        scn::vehicle("A"),
                                        scn::init_private("A", {scn::teleport(scn::lane_pos(1, -1, 50))}),
                                        "<Story name=\"s\"><Act name=\"act\"><ManeuverGroup name=\"mg\" maximumExecutionCount=\"1\"><Actors selectTriggeringEntities=\"false\"/><Maneuver name=\"m\">" +
                                            setvar_event(cond, 100) + "</Maneuver></ManeuverGroup></Act></Story>",
                                        "<StopTrigger/>",
                                        scn::var_decl("dummy", "integer", "0"));
            SE_RegisterParameterDeclarationCallback(on_decl, nullptr);
            el_log().clear();
            if (!scn::load(doc))
            {
                vf::violation(name + "@load", "valid scenario rejected", doc);
                return;
            }
            for (int k = -1; k < 9; k++)
            {
                double t = k <= 0 ? 0 : k * DT;
                if (k >= 0)
                {
                    el_log().clear();
                    SE_StepDT(DT);
                    vf::step();
                }
                bool got = el_log()["e"].find('2') != std::string::npos, want = rule_holds(rule, t, ref);
                vf::cmp();
                vf::state(name + fmt("%d", k));
                if (got != want)
                    vf::violation(name + fmt("@%d", k), fmt("simulation time %g %s %g must be %d, the condition says %d", t, RULES[rule], ref, want, got), doc);
            }
            vf::eval();
            vf::outcome(name);
        });
    if (r)
        vf::violation(name + "@crash", "the process ended abnormally");
}

// ------------------------------------------------------------------------------------------------ C04: storyboard element states
struct Change
{
    std::string name;
    int         state;
};
static std::vector<Change>& change_log()
{
    static std::vector<Change> v;
    return v;
}
static void on_el_change(const char* name, int, int state, const char*)
{
    change_log().push_back({name, state});
}
static void on_decl_change(void*)
{
    SE_RegisterStoryBoardElementStateChangeCallback(on_el_change);
}
static void check4s(const std::string& name, int me, int mg, int frames, int stop, int depth)
{
    struct Obs
    {
        std::string name, type, ref;
        int         target;  // 0 standby 1 running 2 complete 3 start 4 end 5 stop
        int         probe;
        bool        once = false, fired = false;
        std::vector<std::pair<int, int>> pd = {};  // changes (state, transition) of the element since the last evaluation
        int                              cur = 0;
    };
    static const char*       ST[] = {"standbyState", "runningState", "completeState", "startTransition", "endTransition", "stopTransition"};
    std::vector<Obs>         obs;
    std::pair<const char*, const char*> els[] = {{"story", "s"}, {"act", "act"}, {"maneuverGroup", "mg"}, {"maneuver", "m"}, {"event", "ev"}, {"action", "ac"}};
    for (int probe = 0; probe < 2; probe++)
        for (auto& e : els)
            for (int t = 0; t < 6; t++)
                for (int once = 0; once < 2; once++)
                    obs.push_back({fmt("o%d_%s_%s%s", probe, e.second, ST[t], once ? "_once" : ""), e.first, e.second, t, probe, once == 1, false});
    auto ev = [&](const std::string& n, const std::string& cond, int max)
    {
        return fmt("<Event name=\"%s\" priority=\"parallel\" maximumExecutionCount=\"%d\"><Action name=\"a_%s\"><GlobalAction><VariableAction variableRef=\"dummy\"><SetAction value=\"1\"/>"
                   "</VariableAction></GlobalAction></Action><StartTrigger><ConditionGroup>",
                   n.c_str(),
                   max,
                   n.c_str()) +
               cond + "</ConditionGroup></StartTrigger></Event>";
    };
    auto watcher = [&](int probe)
    {
        std::string s = fmt("<Story name=\"w%d\"><Act name=\"w%d_act\"><ManeuverGroup name=\"w%d_mg\" maximumExecutionCount=\"1\"><Actors selectTriggeringEntities=\"false\"/><Maneuver name=\"w%d_m\">", probe, probe, probe, probe);
        s += ev(fmt("probe%d", probe), scn::time_cond(-1), 1000);
        for (auto& o : obs)
            if (o.probe == probe)
                s += ev(o.name,
                        "<Condition name=\"c\" delay=\"0\" conditionEdge=\"none\"><ByValueCondition><StoryboardElementStateCondition storyboardElementRef=\"" + o.ref + "\" storyboardElementType=\"" +
                            o.type + "\" state=\"" + ST[o.target] + "\"/></ByValueCondition></Condition>",
                        o.once ? 1 : 1000);
        return s + "</Maneuver></ManeuverGroup></Act></Story>";
    };
    std::map<std::string, int>                              now_;
    scn::Tree                                               tree;
    tree.n     = stop ? 4 : 2;
    tree.depth = depth;
    std::string doc, trace;
    auto        frame = [&](const std::string& where) -> bool
    {
        std::set<std::string> want, got, unsure;
        int                   phase = 0;
        for (auto& c : change_log())
        {
            bool watched = false;
            for (auto& e : els)
                watched |= c.name == e.second;
            if (watched)
            {
                // complete in the trigger phase is a stop, in the action phase an end
                int tr = c.state == 2 ? 3 : c.state == 1 ? (now_[c.name] == 2 ? 4 : -1) : c.state == 3 ? (phase == 1 ? (c.name == "ac" ? 5 : 6) : 4) : -1;
                for (auto& o : obs)
                    if (o.ref == c.name)
                        o.pd.push_back({c.state, tr});
                now_[c.name] = c.state;
            }
            for (int p = 0; p < 2; p++)
                if (c.name == fmt("probe%d", p) && c.state == 2)
                {
                    phase = p == 0 ? 1 : 2;
                    for (auto& o : obs)
                        if (o.probe == p)
                        {
                            auto pd = o.pd;
                            bool v  = false;
                            o.pd.clear();
                            int was = o.cur;
                            if (!pd.empty())
                                o.cur = pd.back().first;
                            for (auto& x : pd)
                                v |= o.target < 3 ? x.first == o.target + 1 : x.second == o.target;
                            if (pd.empty())
                                v = o.target < 3 && was == o.target + 1;
                            // whether a stopped parent reports an end or a stop transition is left open
                            bool open = false;
                            for (auto& x : pd)
                                open |= x.second == 6 && o.target >= 4;
                            if (open)
                            {
                                unsure.insert(o.name);
                                continue;
                            }
                            if (v && !(o.once && o.fired))
                                want.insert(o.name);
                            if (v)
                                o.fired = true;
                        }
                }
            if (c.name[0] == 'o' && c.state == 2)
                got.insert(c.name);
            if (c.name[0] == 'o' && c.state == 1 && got.count(c.name))
                for (auto& o : obs)
                    if (o.name == c.name && !o.pd.empty())
                    {
                        // the observing event starts over: it knows the state, transitions before this point are history
                        o.cur = o.pd.back().first;
                        o.pd.clear();
                    }
        }
        for (auto& u : unsure)
        {
            for (auto& o : obs)
                if (o.name == u && got.count(u))
                    o.fired = true;
            want.erase(u);
            got.erase(u);
        }
        vf::cmp(static_cast<long>(obs.size()));
        std::string st = name;
        for (auto& e : els)
            st += fmt("%d", now_[e.second]);
        for (auto& g : got)
            st += g;
        vf::state(st);
        trace += fmt("%zu.", got.size());
        if (want != got)
        {
            std::string a, b;
            for (auto& x : want)
                if (!got.count(x))
                    a += x + " ";
            for (auto& x : got)
                if (!want.count(x))
                    b += x + " ";
            vf::violation(name + "@" + where, fmt("%s inputs %s: state conditions that should have triggered but did not: %s; that should not have but did: %s", name.c_str(), where.c_str(), a.c_str(), b.c_str()), doc);
            return false;
        }
        return true;
    };
    tree.apply = [&](int in) -> bool
    {
        SE_SetVariableBool("v1", in & 1);
        SE_SetVariableBool("x", in & 2);
        change_log().clear();
        SE_StepDT(DT);
        return frame(tree.path_str());
    };
    tree.leaf = [&]()
    {
        vf::outcome(name + trace);
        if (vf::fnv(name + trace) % 200 == 1)
            vf::sample(name + " " + tree.path_str() + " triggered per frame " + trace);
    };
    tree.run(
        [&]() -> bool
        {
            scn::write_file("r.xodr", scn::odr(scn::straight_road(400, 0, 2)));
            char cwd[400];
            if (!getcwd(cwd, sizeof(cwd)))
                return false;
            std::string target = fmt("<Story name=\"s\"><Act name=\"act\"><ManeuverGroup name=\"mg\" maximumExecutionCount=\"%d\"><Actors selectTriggeringEntities=\"false\"><EntityRef entityRef=\"A\"/></Actors>"
                                     "<Maneuver name=\"m\"><Event name=\"ev\" priority=\"parallel\" maximumExecutionCount=\"%d\"><Action name=\"ac\">",
                                     mg,
                                     me) +
                                 scn::pa(scn::speed_action(20, "linear", "time", frames * DT)) + "</Action>" + scn::trigger("StartTrigger", scn::var_cond("v1")) +
                                 "</Event></Maneuver></ManeuverGroup>" + (stop ? scn::trigger("StopTrigger", scn::var_cond("x")) : "") + "</Act></Story>";
            doc = scn::xosc(std::string(cwd) + "/r.xodr",
                            scn::vehicle("A"),
                            scn::init_private("A", {scn::teleport(scn::lane_pos(1, -1, 50)), scn::speed_action(10)}),
                            watcher(0) + target + watcher(1),
                            "<StopTrigger/>",
                            scn::var_decl("dummy", "integer", "0") + scn::var_decl("v1", "boolean", "false") + scn::var_decl("x", "boolean", "false"));
            SE_RegisterParameterDeclarationCallback(on_decl_change, nullptr);
            change_log().clear();
            if (!scn::load(doc))
            {
                vf::violation(name + "@load", "valid scenario rejected", doc);
                return false;
            }
            return frame("load");
        });
}

static void gen4(std::vector<vf::Case>& cases, bool deep_)
{
    struct TV
    {
        const char*              type;
        std::vector<std::string> values, refs;
    };
    std::vector<TV> tv = {{"integer", {"0", "-2", "-1", "1", "2", "10", "2147483647"}, {"-1", "0", "1", "10"}},
                          {"double", {"0", "-1.5", "-0.25", "0.25", "0.251", "0.25001", "1.5", "16777216", "16777217", "1e9"}, {"-0.25", "0", "0.25", "1.5", "16777216"}},
                          {"boolean", {"false", "true"}, {"false", "true"}},
                          {"string", {"a", "b", "ab", "B", "10", "9"}, {"a", "ab", "10"}}};
    for (auto& x : tv)
        for (auto& ref : x.refs)
            for (int r = 0; r < 6; r++)
                for (int kind = 0; kind < 2; kind++)
                {
                    std::string n = fmt("%s %s %s %s", kind ? "parameter" : "variable", x.type, RULES[r], ref.c_str());
                    cases.push_back({n, [n, x, ref, r, kind, deep_]() { check4v(n, x.type, x.values, ref, r, kind, deep_ ? 4 : 2); }});
                }
    for (double ref : {0.0, 0.0625, 0.125, 0.25, 0.3, 0.75})
        for (int r = 0; r < 6; r++)
        {
            std::string n = fmt("time %s %g", RULES[r], ref);
            cases.push_back({n, [n, ref, r]() { check4t(n, ref, r); }});
        }
    for (int me = 1; me <= 2; me++)
        for (int mg = 1; mg <= 2; mg++)
            for (int fr = 1; fr <= 3; fr++)
                for (int stop = 0; stop < 2; stop++)
                    if (me * mg < 4)
                    {
                        std::string n = fmt("states me%d mg%d fr%d stop%d", me, mg, fr, stop);
                        cases.push_back({n, [=]() { check4s(n, me, mg, fr, stop, stop ? (deep_ ? 6 : 4) : (deep_ ? 11 : 8)); }});
                    }
}

int main(int argc, char** argv)
{
    vf::init(argc, argv, "C03");
    std::vector<vf::Case> cases;
    if (vf::C().prop == "C03")
        for (auto& c : gen3(vf::C().thorough()))
            cases.push_back({c.name, [c]() { check3(c); }});
    else
        gen4(cases, vf::C().thorough());
    vf::run(cases, 200);
    if (vf::C().prop == "C04")
        return vf::finish("4 types x 2-4 reference values x 6 rules x all value sequences of length 2, for variables and parameters; simulation time: 6 rules x 6 thresholds x 10 frames; "
                          "storyboard element state conditions: 6 element types x 6 states/transitions, observed before and after the element, repeated or once, over all trigger/stop histories of length 4-8",
                          {"fixed frame time 0.125 s", "reported state changes are taken as the history of an element (they are decided by C01)"});
    return vf::finish("4 edges x 6 delays (0-3 frames, also between frames) x 4 trigger places (event, act start/stop, storyboard stop) x repetition x initial value, all 2^8 variable histories; "
                      "64 pairs as AND and as OR, all 4^5 histories; 36 triples as a AND b AND c and as (a AND b) OR c, all 8^3 histories",
                      {"fixed frame time 0.125 s"});
}
