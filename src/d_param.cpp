// C15: an attribute given by parameter or expression acts as its value; declared values keep to their scope.
// C16: parameter distributions run every combination once.
// C17: parameters and variables hold the last value set, in their type.
#include "scn.hpp"
#include <map>
#include <cstring>
#include <sstream>
#include <array>
#include <sys/resource.h>

using scn::fmt;
using std::string;
using std::vector;

// ------------------------------------------------------------------------------------------------ expressions
struct E
{
    string op;  // "lit" value text, "par" name, unary, binary, function
    string text;
    double val = 0;
    bool   boolean = false;
    vector<E> a;
};

static int prec(const string& op)
{
    if (op == "or")
        return 1;
    if (op == "and")
        return 2;
    if (op == "+" || op == "-")
        return 4;
    if (op == "*" || op == "/" || op == "%")
        return 5;
    if (op == "neg" || op == "not")
        return 6;
    return 9;
}

static string render(const E& e, int style, int parent = 0, bool right = false)
{
    string s;
    string sp = style == 1 ? "" : " ";
    if (e.op == "lit" || e.op == "par")
        return e.text;
    int p = prec(e.op);
    if (e.op == "neg")
        s = "-" + render(e.a[0], style, 7);
    else if (e.op == "not")
        s = style == 1 ? "not(" + render(e.a[0], style, 0) + ")" : "not " + render(e.a[0], style, 7);
    else if (p == 9)
    {
        s = e.op + "(";
        for (size_t i = 0; i < e.a.size(); i++)
            s += (i ? string(style == 2 ? " , " : ",") : "") + render(e.a[i], style, 0);
        return s + ")";
    }
    else
    {
        string o = e.op == "and" || e.op == "or" ? " " + e.op + " " : sp + e.op + sp;
        s = render(e.a[0], style, p, false) + o + render(e.a[1], style, p, true);
    }
    bool par = style == 2 || p < parent || (p == parent && right);
    return par ? "(" + s + ")" : s;
}

static bool eval(const E& e, double& v)
{
    if (e.op == "lit" || e.op == "par")
    {
        v = e.val;
        return true;
    }
    double x = 0, y = 0;
    if (!eval(e.a[0], x) || (e.a.size() > 1 && !eval(e.a[1], y)))
        return false;
    if (e.op == "neg")
        v = -x;
    else if (e.op == "not")
        v = !x;
    else if (e.op == "+")
        v = x + y;
    else if (e.op == "-")
        v = x - y;
    else if (e.op == "*")
        v = x * y;
    else if (e.op == "/")
    {
        if (y == 0)
            return false;
        v = x / y;
    }
    else if (e.op == "%")
    {
        if (y == 0)
            return false;
        v = std::remainder(x, y);
        if (std::fabs(std::fabs(v) - std::fabs(y) / 2) < 1e-9)
            return false;  // tie
    }
    else if (e.op == "and")
        v = x != 0 && y != 0;
    else if (e.op == "or")
        v = x != 0 || y != 0;
    else if (e.op == "round")
        v = std::rint(x);
    else if (e.op == "floor")
        v = std::floor(x);
    else if (e.op == "ceil")
        v = std::ceil(x);
    else if (e.op == "abs")
        v = std::fabs(x);
    else if (e.op == "sign")
    {
        if (x == 0)
            return false;
        v = x < 0 ? -1 : 1;
    }
    else if (e.op == "sqrt")
    {
        if (x < 0)
            return false;
        v = std::sqrt(x);
    }
    else if (e.op == "pow")
    {
        if (x <= 0 || std::fabs(y) > 6)
            return false;
        v = std::pow(x, y);
    }
    else if (e.op == "max")
        v = std::max(x, y);
    else if (e.op == "min")
        v = std::min(x, y);
    else
        return false;
    return std::isfinite(v) && std::fabs(v) < 1e6;
}

struct Par
{
    const char *name, *type, *text;
    double      val;
    bool        boolean;
};
static const vector<Par> PARS = {{"A", "double", "4", 4, false},
                                 {"N", "integer", "-3", -3, false},
                                 {"D", "double", "1.5", 1.5, false},
                                 {"H", "double", "-0.5", -0.5, false},
                                 {"AB", "integer", "7", 7, false},  // its name begins with another name
                                 {"T", "boolean", "true", 1, true},
                                 {"F", "boolean", "false", 0, true}};

static E lit(const string& t)
{
    return {"lit", t, atof(t.c_str()), false, {}};
}
static E par(const Par& p)
{
    return {"par", string("$") + p.name, p.val, p.boolean, {}};
}
static vector<E> atoms()
{
    vector<E> v = {lit("2"), lit("0.25"), lit("10")};
    for (auto& p : PARS)
        if (!p.boolean)
            v.push_back(par(p));
    return v;
}
static vector<E> batoms()
{
    vector<E> v;
    for (auto& p : PARS)
        if (p.boolean)
            v.push_back(par(p));
    v.push_back({"lit", "true", 1, true, {}});
    v.push_back({"lit", "false", 0, true, {}});
    return v;
}
static const vector<string> BIN = {"+", "-", "*", "/", "%"}, FUN1 = {"round", "floor", "ceil", "sqrt", "abs", "sign"}, FUN2 = {"pow", "max", "min"};

static vector<E> grow(const vector<E>& x, const vector<E>& y, bool with_fun)
{
    vector<E> r;
    for (auto& a : x)
    {
        r.push_back({"neg", "", 0, false, {a}});
        if (with_fun)
            for (auto& f : FUN1)
                r.push_back({f, "", 0, false, {a}});
        for (auto& b : y)
        {
            for (auto& o : BIN)
                r.push_back({o, "", 0, false, {a, b}});
            if (with_fun)
                for (auto& f : FUN2)
                    r.push_back({f, "", 0, false, {a, b}});
        }
    }
    return r;
}
static vector<E> bgrow(const vector<E>& x, const vector<E>& y)
{
    vector<E> r;
    for (auto& a : x)
    {
        r.push_back({"not", "", 0, true, {a}});
        for (auto& b : y)
            for (string o : {"and", "or"})
                r.push_back({o, "", 0, true, {a, b}});
    }
    return r;
}

static string params_xml()
{
    string s;
    for (auto& p : PARS)
        s += string("<ParameterDeclaration name=\"") + p.name + "\" parameterType=\"" + p.type + "\" value=\"" + p.text + "\"/>";
    return s;
}

static void check_exprs(const vector<E>& es, int style, bool boolean)
{
    string                        vars;
    vector<std::pair<string, double>> want;
    for (auto& e : es)
    {
        double v;
        if (!eval(e, v))
            continue;
        string t = "${" + render(e, style) + "}";
        vars += scn::var_decl(fmt("x%zu", want.size()), boolean ? "boolean" : "double", t);
        want.push_back({t, v});
    }
    auto one = [&](const string& v)
    {
        scn::write_file("r.xodr", scn::odr(scn::straight_road(100, 1, 1)));
        return scn::load(scn::xosc("r.xodr", scn::vehicle("Ego"), scn::init_private("Ego", {scn::teleport(scn::lane_pos(1, -1, 10))}), "", "<StopTrigger/>", v, params_xml()));
    };
    if (!one(vars))
    {
        // find the culprits one by one
        for (auto& w : want)
            if (!one(scn::var_decl("x", boolean ? "boolean" : "double", w.first)))
            {
                vf::violation(boolean ? "bool:refused" : "expr:refused", "a scenario with the expression " + w.first + " does not load");
                if (vf::give_up())
                    return;
            }
        return;
    }
    for (size_t i = 0; i < want.size(); i++)
    {
        vf::eval();
        vf::step();
        vf::cmp();
        string n = fmt("x%zu", i);
        if (boolean)
        {
            bool b = false;
            int  r = SE_GetVariableBool(n.c_str(), &b);
            if (r != 0 || b != (want[i].second != 0))
                vf::violation("bool:value", fmt("%s is %s, expected %s", want[i].first.c_str(), r ? "unknown" : b ? "true" : "false", want[i].second ? "true" : "false"));
            vf::outcome(b ? "true" : "false");
        }
        else
        {
            double d = 0;
            int    r = SE_GetVariableDouble(n.c_str(), &d);
            if (r != 0 || std::fabs(d - want[i].second) > 1e-6 + 1e-9 * std::fabs(want[i].second))
                vf::violation("expr:value", fmt("%s is %.9g, expected %.9g", want[i].first.c_str(), d, want[i].second));
            vf::outcome(fmt("%.2f", d));
        }
        vf::state(vf::fnv(want[i].first));
    }
    SE_Close();
}

static void split(vector<vf::Case>& cases, const string& name, const vector<E>& es, bool boolean, size_t chunk = 1500)
{
    for (int style = 0; style < 3; style++)
        for (size_t i = 0; i < es.size(); i += chunk)
        {
            vector<E> part(es.begin() + static_cast<long>(i), es.begin() + static_cast<long>(std::min(i + chunk, es.size())));
            cases.push_back({fmt("%s-style%d-%zu", name.c_str(), style, i), [=]() { check_exprs(part, style, boolean); }});
        }
}


// ------------------------------------------------------------------------------------------------ scopes
// A maneuver of a story. The value its events see for $p follows from the text alone.
struct Man
{
    int  kind;    // 0 plain, 1 own declaration, 2 catalog with its default, 3 catalog given a number, 4 catalog given $p, 5 catalog given ${$p+10}
    int  nested;  // 0 nothing, 1 an environment, 2 a trajectory, each with its own declaration of p, before the event that reads $p
};
static double man_value(const Man& m, double outer, int serial)
{
    switch (m.kind)
    {
        case 0:
            return outer;
        case 1:
            return 40 + serial;
        case 2:
            return 30;
        case 3:
            return 60 + serial;
        case 4:
            return outer;
        default:
            return outer + 10;
    }
}
static string pdecl(double v)
{
    return fmt("<ParameterDeclarations><ParameterDeclaration name=\"p\" parameterType=\"double\" value=\"%g\"/></ParameterDeclarations>", v);
}
static string ev(const string& name, const string& action)
{
    return "<Event name=\"" + name + "\" priority=\"parallel\" maximumExecutionCount=\"1\"><Action name=\"a" + name + "\">" + action + "</Action>" +
           scn::trigger("StartTrigger", scn::time_cond(-1)) + "</Event>";
}
static string setvar(const string& var, const string& value)
{
    return "<GlobalAction><VariableAction variableRef=\"" + var + "\"><SetAction value=\"" + value + "\"/></VariableAction></GlobalAction>";
}
static string man_events(int nested, const string& id)
{
    string s;
    if (nested == 1)
        s += ev("n" + id, "<GlobalAction><EnvironmentAction><Environment name=\"e\">" + pdecl(71) + "<TimeOfDay animation=\"false\" dateTime=\"2020-01-01T12:00:00\"/></Environment></EnvironmentAction></GlobalAction>");
    if (nested == 2)
        s += ev("n" + id,
                "<PrivateAction><RoutingAction><FollowTrajectoryAction><TrajectoryRef><Trajectory name=\"t\" closed=\"false\">" + pdecl(72) +
                    "<Shape><Polyline><Vertex time=\"0\"><Position><WorldPosition x=\"$p\" y=\"0\"/></Position></Vertex><Vertex time=\"90\"><Position><WorldPosition x=\"90\" "
                    "y=\"0\"/></Position></Vertex></Polyline></Shape></Trajectory></TrajectoryRef><TimeReference><None/></TimeReference><TrajectoryFollowingMode "
                    "followingMode=\"position\"/></FollowTrajectoryAction></RoutingAction></PrivateAction>");
    return s;
}
static string man_xml(const Man& m, const string& var, int serial)
{
    if (m.kind <= 1)
        return "<Maneuver name=\"m" + var + "\">" + (m.kind == 1 ? pdecl(40 + serial) : "") + man_events(m.nested, var) + ev("r" + var, setvar(var, "$p")) + "</Maneuver>";
    // the catalog entry writes into the variable named by its parameter
    string s = "<CatalogReference catalogName=\"Man\" entryName=\"" + string(m.nested == 0 ? "plain" : m.nested == 1 ? "env" : "traj") +
               "\"><ParameterAssignments><ParameterAssignment parameterRef=\"var\" value=\"" + var + "\"/>";
    if (m.kind >= 3)
        s += "<ParameterAssignment parameterRef=\"p\" value=\"" + (m.kind == 3 ? fmt("%d", 60 + serial) : m.kind == 4 ? string("$p") : string("${$p + 10}")) + "\"/>";
    return s + "</ParameterAssignments></CatalogReference>";
}
static string man_entry(const string& name, int nested)
{
    return "<Maneuver name=\"" + name +
           "\"><ParameterDeclarations><ParameterDeclaration name=\"var\" parameterType=\"string\" value=\"none\"/><ParameterDeclaration name=\"p\" parameterType=\"double\" "
           "value=\"30\"/></ParameterDeclarations>" +
           man_events(nested, name) + ev("r" + name, setvar("$var", "$p")) + "</Maneuver>";
}
static const char* CATS = "<CatalogLocations><VehicleCatalog><Directory path=\".\"/></VehicleCatalog><ManeuverCatalog><Directory path=\".\"/></ManeuverCatalog></CatalogLocations>";
static string catalog(const string& name, const string& body)
{
    return "<?xml version=\"1.0\"?><OpenSCENARIO><FileHeader revMajor=\"1\" revMinor=\"2\" date=\"2024-01-01T00:00:00\" description=\"v\" author=\"v\"/><Catalog name=\"" + name + "\">" +
           body + "</Catalog></OpenSCENARIO>";
}
static void scope_files()
{
    scn::write_file("r.xodr", scn::odr(scn::straight_road(100, 1, 1)));
    scn::write_file("Man.xosc", catalog("Man", man_entry("plain", 0) + man_entry("env", 1) + man_entry("traj", 2)));
}

static void check_scopes(int story_decl, const vector<vector<Man>>& st)
{
    scope_files();
    string         stories, vars;
    vector<double> want;
    int            serial = 0;
    string         what;
    for (size_t i = 0; i < st.size(); i++)
    {
        bool   own   = story_decl & (1 << i);
        double outer = own ? 20 + static_cast<double>(i) : 1;
        stories += fmt("<Story name=\"s%zu\">", i) + (own ? pdecl(outer) : "") + fmt("<Act name=\"act%zu\">", i);
        what += fmt(" story%zu%s", i, own ? "(p)" : "");
        for (size_t k = 0; k < st[i].size(); k++)
        {
            string var = fmt("v%d", serial);
            vars += scn::var_decl(var, "double", "-1");
            stories += fmt("<ManeuverGroup maximumExecutionCount=\"1\" name=\"g%d\"><Actors selectTriggeringEntities=\"false\"><EntityRef entityRef=\"Ego\"/></Actors>", serial) +
                       man_xml(st[i][k], var, serial) + "</ManeuverGroup>";
            want.push_back(man_value(st[i][k], outer, serial));
            what += fmt(" %d.%d", st[i][k].kind, st[i][k].nested);
            serial++;
        }
        stories += scn::trigger("StartTrigger", scn::time_cond(-1)) + "</Act></Story>";
    }
    vf::eval();
    if (!scn::load(scn::xosc("r.xodr", scn::vehicle("Ego"), scn::init_private("Ego", {scn::teleport(scn::lane_pos(1, -1, 10))}), stories, "<StopTrigger/>", vars,
                             "<ParameterDeclaration name=\"p\" parameterType=\"double\" value=\"1\"/>", "", CATS)))
    {
        vf::violation("scope:refused", "does not load:" + what);
        return;
    }
    for (int i = 0; i < 3; i++)
        SE_StepDT(0.125f);
    for (size_t i = 0; i < want.size(); i++)
    {
        double d = -2;
        SE_GetVariableDouble(fmt("v%zu", i).c_str(), &d);
        vf::cmp();
        vf::step();
        if (std::fabs(d - want[i]) > 1e-6)
            vf::violation("scope:maneuver", fmt("maneuver %zu sees p = %g, its scope gives %g;%s", i, d, want[i], what.c_str()));
        vf::outcome(fmt("%g", d));
    }
    double g = -1;
    SE_GetParameterDouble("p", &g);
    vf::cmp();
    if (std::fabs(g - 1) > 1e-9)
        vf::violation("scope:global", fmt("the global p is %g after loading, declared 1;%s", g, what.c_str()));
    vf::state(vf::fnv(what));
    SE_Close();
}

// entities taken from catalogs; the length of each is its parameter p
static string veh_entry(const string& name, const string& trailer)
{
    string v = scn::vehicle("X", 5, 2, 0);
    v        = v.substr(v.find("<Vehicle"), v.find("</Vehicle>") + 10 - v.find("<Vehicle"));
    auto rep = [&](const string& a, const string& b) { v.replace(v.find(a), a.size(), b); };
    rep("name=\"car_X\"", "name=\"" + name + "\"");
    rep("length=\"5\"", "length=\"$p\"");
    rep("<BoundingBox>", pdecl(30) + "<BoundingBox>");
    rep("<Properties/>", "<Properties/>" + trailer);
    return v;
}
static void check_entities(const vector<int>& kinds)
{
    scn::write_file("r.xodr", scn::odr(scn::straight_road(500, 1, 1)));
    string hitch = "<TrailerHitch dx=\"-1\"/>";
    scn::write_file("Veh.xosc",
                    catalog("Veh",
                            veh_entry("plain", "") +
                                veh_entry("pulling", hitch + "<Trailer><Trailer><CatalogReference catalogName=\"Veh\" entryName=\"trailer\"/></Trailer></Trailer>") +
                                veh_entry("pulling2",
                                          hitch + "<Trailer><Trailer><CatalogReference catalogName=\"Veh\" entryName=\"trailer\"><ParameterAssignments><ParameterAssignment parameterRef=\"p\" "
                                                  "value=\"${$p + 2}\"/></ParameterAssignments></CatalogReference></Trailer></Trailer>") +
                                veh_entry("trailer", "<TrailerCoupler dx=\"2\"/>")));
    string         ents, init, what;
    vector<double> want;
    for (size_t i = 0; i < kinds.size(); i++)
    {
        string n = fmt("E%zu", i);
        int    k = kinds[i] % 5, pull = kinds[i] / 5;  // k: 0 inline, 1 default, 2 number, 3 $p, 4 ${}
        what += fmt(" %d/%d", k, pull);
        double len;
        if (k == 0)
        {
            string v = scn::vehicle(n, 5, 2, 0);
            v.replace(v.find("length=\"5\""), 10, "length=\"$p\"");
            if (pull == 1)
                v.replace(v.find("<BoundingBox>"), 13, pdecl(17) + "<BoundingBox>");
            ents += v;
            want.push_back(pull == 1 ? 17 : 6);
        }
        else
        {
            ents += "<ScenarioObject name=\"" + n + "\"><CatalogReference catalogName=\"Veh\" entryName=\"" + (pull == 0 ? "plain" : pull == 1 ? "pulling" : "pulling2") + "\">";
            if (k > 1)
                ents += "<ParameterAssignments><ParameterAssignment parameterRef=\"p\" value=\"" + string(k == 2 ? "9" : k == 3 ? "$p" : "${$p * 2}") + "\"/></ParameterAssignments>";
            ents += "</CatalogReference></ScenarioObject>";
            len = k == 1 ? 30 : k == 2 ? 9 : k == 3 ? 6 : 12;
            want.push_back(len);
            if (pull == 1)
                want.push_back(30);
            if (pull == 2)
                want.push_back(len + 2);
        }
        init += scn::init_private(n, {scn::teleport(scn::lane_pos(1, i % 2 ? 1 : -1, 100 + 100 * static_cast<double>(i)))});
    }
    vf::eval();
    if (!scn::load(scn::xosc("r.xodr", ents, init, "", "<StopTrigger/>", "", "<ParameterDeclaration name=\"p\" parameterType=\"double\" value=\"6\"/>", "", CATS)))
    {
        vf::violation("scope:refused-entities", "does not load:" + what);
        return;
    }
    vector<double> got;
    for (int i = 0; i < SE_GetNumberOfObjects(); i++)
    {
        SE_ScenarioObjectState st;
        SE_GetObjectState(SE_GetId(i), &st);
        got.push_back(st.length);
    }
    // trailers may be listed anywhere: compare as multisets
    std::sort(got.begin(), got.end());
    std::sort(want.begin(), want.end());
    vf::cmp();
    vf::step();
    bool ok = got.size() == want.size();
    for (size_t i = 0; ok && i < got.size(); i++)
        ok = std::fabs(got[i] - want[i]) < 1e-4;
    if (!ok)
    {
        string g, w;
        for (double d : got)
            g += fmt(" %g", d);
        for (double d : want)
            w += fmt(" %g", d);
        vf::violation("scope:entity", "entities" + what + ": lengths" + g + ", expected" + w);
    }
    vf::state(vf::fnv(what));
    vf::outcome(what);
    SE_Close();
}


static int c15()
{
    bool             th = vf::C().tier == "thorough";
    vector<vf::Case> cases;
    auto             a0 = atoms();
    split(cases, "atoms", a0, false);
    auto a1 = grow(a0, a0, true);
    split(cases, "depth1", a1, false);
    vector<E> small = {a0[0], a0[1], a0[4], a0[6]};
    auto      s1    = grow(small, small, th);
    split(cases, "depth2l", grow(s1, small, th), false);
    split(cases, "depth2r", grow(small, s1, th), false);
    auto b0 = batoms();
    split(cases, "bool0", b0, true);
    auto b1 = bgrow(b0, b0);
    split(cases, "bool1", b1, true);
    split(cases, "bool2l", bgrow(b1, b0), true);
    split(cases, "bool2r", bgrow(b0, b1), true);
    // scopes
    for (int decl = 0; decl < 4; decl++)
        for (int k0 = 0; k0 < 6; k0++)
            for (int n0 = 0; n0 < 3; n0++)
                cases.push_back({fmt("scope-%d-%d%d", decl, k0, n0),
                                 [=]()
                                 {
                                     for (int k1 = 0; k1 < 6; k1++)
                                         for (int n1 = 0; n1 < (th ? 3 : 1); n1++)
                                             for (int k2 = 0; k2 < (th ? 6 : 2); k2++)
                                             {
                                                 check_scopes(decl, {{{k0, n0}, {k1, n1}}, {{k2, 0}, {0, 0}}});
                                                 if (vf::give_up())
                                                     return;
                                             }
                                 }});
    for (int a = 0; a < 15; a++)
        cases.push_back({fmt("entities-%d", a),
                         [=]()
                         {
                             for (int b = 0; b < 15; b++)
                                 for (int c : {0, 1, 5})
                                     if (!vf::give_up())
                                         check_entities({a, b, c});
                         }});
    vf::run(cases, 300);
    return vf::finish("all expressions over 8 numeric atoms (literals, parameters, negative values) to depth 1 and over 4 atoms to depth 2 with 5 operators, unary minus and 9 functions; all boolean expressions to depth 2; 3 ways of writing each; "
                      "all scenarios of 2 stories (each with or without a declaration) and 4 maneuvers over 6 ways of giving a parameter and nested declarations; all 3-entity scenarios over 5 ways of giving a parameter and trailers",
                      {"remainder as IEEE remainder, as the documentation says"});
}

// ------------------------------------------------------------------------------------------------ distributions
struct Fac
{
    string                              xml;
    vector<std::map<string, string>>    sets;  // parameter -> value
};
static Fac f_set(const string& p, const vector<string>& v)
{
    Fac f;
    f.xml = "<DeterministicSingleParameterDistribution parameterName=\"" + p + "\"><DistributionSet>";
    for (auto& x : v)
    {
        f.xml += "<Element value=\"" + x + "\"/>";
        f.sets.push_back({{p, x}});
    }
    f.xml += "</DistributionSet></DeterministicSingleParameterDistribution>";
    return f;
}
static Fac f_range(const string& p, double lo, double up, double step, int n)
{
    Fac f;
    f.xml = "<DeterministicSingleParameterDistribution parameterName=\"" + p + fmt("\"><DistributionRange stepWidth=\"%.10g\"><Range lowerLimit=\"%.10g\" upperLimit=\"%.10g\"/>", step, lo, up) +
            "</DistributionRange></DeterministicSingleParameterDistribution>";
    for (int i = 0; i < n; i++)
        f.sets.push_back({{p, fmt("%.10g", lo + i * step)}});
    return f;
}
static Fac f_multi(const vector<std::map<string, string>>& sets)
{
    Fac f;
    f.xml = "<DeterministicMultiParameterDistribution><ValueSetDistribution>";
    for (auto& s : sets)
    {
        f.xml += "<ParameterValueSet>";
        for (auto& kv : s)
            f.xml += "<ParameterAssignment parameterRef=\"" + kv.first + "\" value=\"" + kv.second + "\"/>";
        f.xml += "</ParameterValueSet>";
    }
    f.xml += "</ValueSetDistribution></DeterministicMultiParameterDistribution>";
    f.sets = sets;
    return f;
}
static vector<Fac> factors(const string& p, const string& q)
{
    return {f_set(p, {"7"}),
            f_set(p, {"3", "1", "2"}),
            f_range(p, 0, 0.3, 0.1, 4),
            f_range(p, -1, 1, 0.7, 3),
            f_range(p, 2, 2, 1, 1),
            f_multi({{{p, "11"}}, {{p, "12"}, {q, "13"}}}),
            f_multi({{{p, "21"}, {q, "22"}}, {{q, "23"}}, {{p, "24"}}})};
}
static const char* PNAMES[] = {"a", "aq", "b", "bq", "c", "cq"};
static string      values_now()
{
    string s;
    for (auto n : PNAMES)
    {
        double d = -99;
        SE_GetParameterDouble(n, &d);
        s += fmt("%s=%.5f ", n, d);
    }
    return s;
}
static void dist_files(const vector<Fac>& fs, const char* name = "dist.xosc")
{
    string params;
    for (int i = 0; i < 6; i++)
        params += fmt("<ParameterDeclaration name=\"%s\" parameterType=\"double\" value=\"%d\"/>", PNAMES[i], -10 - i);
    scn::write_file("r.xodr", scn::odr(scn::straight_road(100, 1, 1)));
    scn::write_file("scen.xosc", scn::xosc("r.xodr", scn::vehicle("Ego"), scn::init_private("Ego", {scn::teleport(scn::lane_pos(1, -1, 10))}), "", "<StopTrigger/>", "", params));
    string x = "<?xml version=\"1.0\"?><OpenSCENARIO><FileHeader revMajor=\"1\" revMinor=\"2\" date=\"2024-01-01T00:00:00\" description=\"v\" author=\"v\"/><ParameterValueDistribution>"
               "<ScenarioFile filepath=\"scen.xosc\"/><Deterministic>";
    for (auto& f : fs)
        x += f.xml;
    scn::write_file(name, x + "</Deterministic></ParameterValueDistribution></OpenSCENARIO>");
}
static string expect(const std::map<string, string>& m)
{
    string s;
    for (int i = 0; i < 6; i++)
    {
        auto it = m.find(PNAMES[i]);
        s += fmt("%s=%.5f ", PNAMES[i], it == m.end() ? -10.0 - i : atof(it->second.c_str()));
    }
    return s;
}
static void combos(const vector<Fac>& fs, size_t i, std::map<string, string> m, std::map<string, int>& out)
{
    if (i == fs.size())
    {
        out[expect(m)]++;
        return;
    }
    for (auto& s : fs[i].sets)
    {
        auto k = m;
        for (auto& kv : s)
            k[kv.first] = kv.second;
        combos(fs, i + 1, k, out);
    }
}
static bool init_perm()
{
    return SE_Init("scen.xosc", 0, 0, 0, 0) == 0;
}

static void check_dist(const vector<Fac>& fs, const string& what)
{
    scn::quiet();
    dist_files(fs);
    std::map<string, int> want, got;
    combos(fs, 0, {}, want);
    unsigned n = 1;
    for (auto& f : fs)
        n *= static_cast<unsigned>(f.sets.size());
    vf::eval();
    SE_ResetParameterDistribution();
    if (SE_SetParameterDistribution("dist.xosc") != 0)
    {
        vf::violation("dist:refused", what);
        return;
    }
    vf::cmp();
    if (SE_GetNumberOfPermutations() != n)
    {
        vf::violation("dist:count", fmt("%s: %u permutations, expected %u", what.c_str(), SE_GetNumberOfPermutations(), n));
        return;
    }
    vector<string> by_index;
    for (unsigned i = 0; i < n; i++)
    {
        vf::step();
        vf::cmp(2);
        if (!init_perm())
        {
            vf::violation("dist:init", what);
            return;
        }
        if (SE_GetPermutationIndex() != static_cast<int>(i))
            vf::violation("dist:order", fmt("%s: run %u has index %d", what.c_str(), i, SE_GetPermutationIndex()));
        string v = values_now();
        by_index.push_back(v);
        got[v]++;
        vf::state(vf::fnv(v));
        vf::outcome(v);
        SE_StepDT(0.1f);
        SE_Close();
    }
    if (got != want)
    {
        string d;
        for (auto& kv : want)
            if (got[kv.first] != kv.second)
                d += fmt(" [%s] %d times instead of %d;", kv.first.c_str(), got[kv.first], kv.second);
        for (auto& kv : got)
            if (!want.count(kv.first))
                d += " unexpected [" + kv.first + "];";
        vf::violation("dist:combinations", what + ":" + d.substr(0, 400));
    }
    // selecting each index, in reverse, gives the same values again
    for (unsigned i = n; i-- > 0;)
    {
        vf::cmp(2);
        if (SE_SelectPermutation(i) != 0 || !init_perm() || SE_GetPermutationIndex() != static_cast<int>(i) || values_now() != by_index[i])
        {
            vf::violation("dist:select", fmt("%s: selecting %u gives index %d and %s, before %s", what.c_str(), i, SE_GetPermutationIndex(), values_now().c_str(), by_index[i].c_str()));
            return;
        }
        SE_Close();
    }
    vf::cmp(2);
    if (SE_SelectPermutation(n) == 0)
        vf::violation("dist:select-range", what + ": an index past the last is accepted");
    if (SE_SelectPermutation(n - 1) != 0 || !init_perm() || values_now() != by_index[n - 1])
        vf::violation("dist:select-after-refusal", what);
    SE_Close();
    // without a distribution the declared values are back
    SE_ResetParameterDistribution();
    vf::cmp();
    if (SE_GetNumberOfPermutations() != 0 || !init_perm() || values_now() != expect({}))
        vf::violation("dist:reset", what + ": after the reset " + values_now());
    SE_Close();
}

static int c16()
{
    vector<vf::Case> cases;
    bool             th = vf::C().tier == "thorough";
    auto             A = factors("a", "aq"), B = factors("b", "bq"), C = factors("c", "cq");
    for (size_t i = 0; i < A.size(); i++)
    {
        cases.push_back({fmt("one-%zu", i), [=]() { check_dist({A[i]}, fmt("%zu", i)); }});
        for (size_t j = 0; j < B.size(); j++)
        {
            cases.push_back({fmt("two-%zu%zu", i, j), [=]() { check_dist({A[i], B[j]}, fmt("%zu x %zu", i, j)); }});
            for (size_t k = 0; k < C.size(); k++)
                if (th || (k == 0 || k == 5))
                    cases.push_back({fmt("three-%zu%zu%zu", i, j, k), [=]() { check_dist({A[i], B[j], C[k]}, fmt("%zu x %zu x %zu", i, j, k)); }});
        }
    }
    // ranges
    vector<std::array<double, 4>> ranges;
    for (double lo : {-2.0, 0.0, 0.05})
        for (double step : {0.1, 0.25, 1.0, 3.0})
            for (int n : {1, 2, 5, 40})
                for (double frac : {0.0, 0.5})
                    ranges.push_back({lo, lo + (n - 1 + frac) * step, step, static_cast<double>(n)});
    for (auto& r : ranges)
        cases.push_back({fmt("range-%g-%g-%g", r[0], r[1], r[2]), [=]() { check_dist({f_range("a", r[0], r[1], r[2], static_cast<int>(r[3]))}, fmt("range %g..%g step %g", r[0], r[1], r[2])); }});
    // malformed ranges are refused (they must not hang)
    for (auto r : vector<std::array<double, 3>>{{0, 1, 0}, {0, 1, -1}, {1, 0, 1}, {1, 1, 0}})
        cases.push_back({fmt("bad-%g-%g-%g", r[0], r[1], r[2]),
                         [=]()
                         {
                             scn::quiet();
                             dist_files({f_range("a", r[0], r[1], r[2], 0)});
                             vf::eval();
                             vf::cmp();
                             struct rlimit rl = {2000000000, 2000000000};
                             setrlimit(RLIMIT_AS, &rl);
                             if (SE_SetParameterDistribution("dist.xosc") == 0 && SE_GetNumberOfPermutations() > 1000)
                                 vf::violation("dist:bad-range", fmt("range %g..%g step %g is accepted", r[0], r[1], r[2]));
                         }});
    vf::run(cases, 60);
    return vf::finish("all products of 1, 2 and (two or all third factors) 3 distributions out of 7 (value sets, ranges, multi-parameter sets of different sizes); 96 ranges; each run in order, then by index in reverse; malformed ranges",
                      {"deterministic distributions; stochastic ones are not supported by esmini"});
}

// ------------------------------------------------------------------------------------------------ typed values
struct Slot
{
    char   type;  // i d s b
    double num;
    string str;
};
static const vector<string> NAMES = {"I", "D", "S", "B"};
static std::map<string, Slot> g_model;

static int set_any(bool var, char t, const string& n, double num, const string& str)
{
    switch (t)
    {
        case 'i':
            return var ? SE_SetVariableInt(n.c_str(), static_cast<int>(num)) : SE_SetParameterInt(n.c_str(), static_cast<int>(num));
        case 'd':
            return var ? SE_SetVariableDouble(n.c_str(), num) : SE_SetParameterDouble(n.c_str(), num);
        case 's':
            return var ? SE_SetVariableString(n.c_str(), str.c_str()) : SE_SetParameterString(n.c_str(), str.c_str());
        default:
            return var ? SE_SetVariableBool(n.c_str(), num != 0) : SE_SetParameterBool(n.c_str(), num != 0);
    }
}
static int get_any(bool var, char t, const string& n, double& num, string& str)
{
    int         r, i = 0;
    double      d = 0;
    bool        b = false;
    const char* c = "";
    switch (t)
    {
        case 'i':
            r   = var ? SE_GetVariableInt(n.c_str(), &i) : SE_GetParameterInt(n.c_str(), &i);
            num = i;
            return r;
        case 'd':
            r   = var ? SE_GetVariableDouble(n.c_str(), &d) : SE_GetParameterDouble(n.c_str(), &d);
            num = d;
            return r;
        case 's':
            r = var ? SE_GetVariableString(n.c_str(), &c) : SE_GetParameterString(n.c_str(), &c);
            if (r == 0)
                str = c;
            return r;
        default:
            r   = var ? SE_GetVariableBool(n.c_str(), &b) : SE_GetParameterBool(n.c_str(), &b);
            num = b;
            return r;
    }
}
static const string TYPES = "idsb";

static void check_all(bool var, const string& trace)
{
    for (auto& kv : g_model)
        for (char t : TYPES)
        {
            double num = -77;
            string str = "?";
            int    r   = get_any(var, t, kv.first, num, str);
            vf::cmp();
            if (t != kv.second.type)
            {
                if (r == 0)
                    vf::violation("typed:get-wrong-type", fmt("%s of type %c is read as %c;%s", kv.first.c_str(), kv.second.type, t, trace.c_str()));
                continue;
            }
            if (r != 0 || (t == 's' ? str != kv.second.str : num != kv.second.num))
                vf::violation("typed:value", fmt("%s %s reads %g \"%s\" (%d), the last value set is %g \"%s\";%s", var ? "variable" : "parameter", kv.first.c_str(), num, str.c_str(), r, kv.second.num, kv.second.str.c_str(), trace.c_str()));
        }
    double d;
    string s;
    for (char t : TYPES)
        if (get_any(var, t, "nosuch", d, s) == 0)
            vf::violation("typed:unknown", "an undeclared name is found");
}

struct Op
{
    char   type;
    string name;
    double num;
    string str;
};
static vector<Op> ops()
{
    vector<Op> v;
    for (string n : {"I", "D", "S", "B", "$I", "$S", "nosuch", ""})
        for (char t : TYPES)
            for (int k = 0; k < 2; k++)
                v.push_back({t, n, t == 'd' ? (k ? 2.123456789e-3 : -1e9) : t == 'i' ? (k ? -5 : 2000000000) : k, k ? "" : "a $I b"});
    return v;
}

static bool typed_load()
{
    scn::write_file("r.xodr", scn::odr(scn::straight_road(100, 1, 1)));
    string decl[2];
    for (int var = 0; var < 2; var++)
        for (auto nv : vector<std::array<string, 3>>{{"I", "integer", "4"}, {"D", "double", "0.5"}, {"S", "string", "x y"}, {"B", "boolean", "true"}})
            decl[var] += var ? scn::var_decl(nv[0], nv[1], nv[2]) : "<ParameterDeclaration name=\"" + nv[0] + "\" parameterType=\"" + nv[1] + "\" value=\"" + nv[2] + "\"/>";
    g_model = {{"I", {'i', 4, ""}}, {"D", {'d', 0.5, ""}}, {"S", {'s', 0, "x y"}}, {"B", {'b', 1, ""}}};
    return scn::load(scn::xosc("r.xodr", scn::vehicle("Ego"), scn::init_private("Ego", {scn::teleport(scn::lane_pos(1, -1, 10))}), "", "<StopTrigger/>", decl[1], decl[0]));
}

static void apply_op(bool var, const Op& o, const string& trace)
{
    string n  = o.name.size() > 1 && o.name[0] == '$' ? o.name.substr(1) : o.name;
    auto   it = g_model.find(n);
    int    r  = set_any(var, o.type, o.name, o.num, o.str);
    bool   ok = it != g_model.end() && it->second.type == o.type;
    vf::cmp();
    vf::step();
    if (ok != (r == 0))
        vf::violation(ok ? "typed:set-refused" : "typed:set-wrong-type", fmt("setting %s as %c returns %d;%s", o.name.c_str(), o.type, r, trace.c_str()));
    if (ok)
    {
        it->second.num = o.type == 'b' ? (o.num != 0) : o.num;
        it->second.str = o.str;
        if (o.type != 's')
            it->second.str = "";
    }
}

// actions on variables
static string var_action(const string& var, int kind)
{
    string in = kind == 0 ? "<SetAction value=\"12\"/>"
                : kind == 1 ? "<ModifyAction><Rule><AddValue value=\"2.5\"/></Rule></ModifyAction>"
                : kind == 2 ? "<ModifyAction><Rule><MultiplyByValue value=\"-3\"/></Rule></ModifyAction>"
                : kind == 3 ? "<ModifyAction><Rule><AddValue value=\"-4\"/></Rule></ModifyAction>"
                            : "<ModifyAction><Rule><MultiplyByValue value=\"2.5\"/></Rule></ModifyAction>";
    return "<GlobalAction><VariableAction variableRef=\"" + var + "\">" + in + "</VariableAction></GlobalAction>";
}

// every sequence of actions on an integer and a double variable, interleaved with sets through the API
static void check_actions(int first)
{
    scn::write_file("r.xodr", scn::odr(scn::straight_road(100, 1, 1)));
    string events, vars = scn::var_decl("I", "integer", "4") + scn::var_decl("D", "double", "0.5");
    for (int k = 0; k < 5; k++)
        for (string v : {"I", "D"})
        {
            string g = "g" + v + fmt("%d", k);
            vars += scn::var_decl(g, "boolean", "false");
            events += "<Event name=\"e" + g + "\" priority=\"parallel\" maximumExecutionCount=\"1000\"><Action name=\"a" + g + "\">" + var_action(v, k) + "</Action>" +
                      scn::trigger("StartTrigger", scn::var_cond(g, "true", "rising")) + "</Event>";
        }
    string stories = "<Story name=\"s\"><Act name=\"a\"><ManeuverGroup maximumExecutionCount=\"1\" name=\"g\"><Actors selectTriggeringEntities=\"false\"/><Maneuver name=\"m\">" + events +
                     "</Maneuver></ManeuverGroup>" + scn::trigger("StartTrigger", scn::time_cond(-1)) + "</Act></Story>";
    string xml = scn::xosc("r.xodr", scn::vehicle("Ego"), scn::init_private("Ego", {scn::teleport(scn::lane_pos(1, -1, 10))}), stories, "<StopTrigger/>", vars);
    vf::eval();
    if (!scn::load(xml))
    {
        vf::violation("typed:refused", "the scenario does not load");
        return;
    }
    for (int i = 0; i < 2; i++)
        SE_StepDT(0.125f);
    int         I = 4;
    double      D = 0.5;
    string      trace;
    scn::Tree   t;
    t.n     = 12;
    t.depth = vf::C().tier == "thorough" ? 4 : 3;
    auto apply = [&](int in)
    {
        trace += fmt(" %d", in);
        if (in < 10)
        {
            string v = in % 2 ? "D" : "I";
            string g = "g" + v + fmt("%d", in / 2);
            SE_SetVariableBool(g.c_str(), true);
            SE_StepDT(0.125f);
            SE_StepDT(0.125f);
            SE_SetVariableBool(g.c_str(), false);
            SE_StepDT(0.125f);
            double x = in % 2 ? D : I;
            double r = in / 2 == 0 ? 12 : in / 2 == 1 ? x + 2.5 : in / 2 == 2 ? x * -3 : in / 2 == 3 ? x - 4 : x * 2.5;
            if (in % 2)
                D = r;
            else if (in / 2 == 1 || (in / 2 == 4 && I % 2))
            {
                // half a unit: either neighbour will do
                int got = 0;
                SE_GetVariableInt("I", &got);
                if (std::fabs(got - r) > 1)
                    vf::violation("typed:action", fmt("I is %d after adding or multiplying by 2.5: %d;%s", got, I, trace.c_str()));
                I = got;
            }
            else
                I = static_cast<int>(r);
        }
        else if (in == 10)
            SE_SetVariableInt("I", I = 100);
        else
            SE_SetVariableDouble("D", D = -0.125);
        vf::step();
        vf::cmp(2);
        int    gi = -1;
        double gd = -1;
        SE_GetVariableInt("I", &gi);
        SE_GetVariableDouble("D", &gd);
        if (gi != I || std::fabs(gd - D) > 1e-9)
        {
            vf::violation("typed:action", fmt("I = %d, D = %g, expected %d and %g;%s", gi, gd, I, D, trace.c_str()));
            return false;
        }
        vf::state(vf::fnv(fmt("%d %g", I, D)));
        vf::outcome(fmt("%d", I));
        return true;
    };
    if (apply(first))
    {
        t.depth--;
        t.apply = apply;
        t.node();
    }
}

// set actions of the scenario on parameters and variables of all types, in all orders with sets through the library
static void check_sets(int first)
{
    scn::write_file("r.xodr", scn::odr(scn::straight_road(100, 1, 1)));
    struct A
    {
        bool   var;
        string name, text;
        double num;
        string str;
    };
    vector<A> as;
    for (int var = 0; var < 2; var++)
        for (auto& nv : vector<std::pair<string, vector<string>>>{{"I", {"-7", "2000000000", "0"}}, {"D", {"-1.25e-2", "3.5", "1234567.125"}}, {"S", {"x  z", "-3.70"}}, {"B", {"false", "true"}}})
            for (auto& t : nv.second)
                as.push_back({var != 0, nv.first, t, nv.first == "B" ? t == "true" : nv.first == "S" ? 0 : atof(t.c_str()), nv.first == "S" ? t : ""});
    string decl[2], events;
    for (int var = 0; var < 2; var++)
        for (auto nv : vector<std::array<string, 3>>{{"I", "integer", "4"}, {"D", "double", "0.5"}, {"S", "string", "x y"}, {"B", "boolean", "true"}})
            decl[var] += var ? scn::var_decl(nv[0], nv[1], nv[2]) : "<ParameterDeclaration name=\"" + nv[0] + "\" parameterType=\"" + nv[1] + "\" value=\"" + nv[2] + "\"/>";
    decl[1] += scn::var_decl("op", "integer", "-1");
    for (size_t i = 0; i < as.size(); i++)
        events += fmt("<Event name=\"e%zu\" priority=\"parallel\" maximumExecutionCount=\"1000\"><Action name=\"a%zu\"><GlobalAction>", i, i) +
                  (as[i].var ? "<VariableAction variableRef=\"" : "<ParameterAction parameterRef=\"") + as[i].name + "\"><SetAction value=\"" + as[i].text + "\"/>" + (as[i].var ? "</VariableAction>" : "</ParameterAction>") +
                  "</GlobalAction></Action>" + scn::trigger("StartTrigger", scn::var_cond("op", std::to_string(i), "none")) + "</Event>";
    string stories = "<Story name=\"s\"><Act name=\"a\"><ManeuverGroup maximumExecutionCount=\"1\" name=\"g\"><Actors selectTriggeringEntities=\"false\"/><Maneuver name=\"m\">" + events +
                     "</Maneuver></ManeuverGroup>" + scn::trigger("StartTrigger", scn::time_cond(-1)) + "</Act></Story>";
    vf::eval();
    if (!scn::load(scn::xosc("r.xodr", scn::vehicle("Ego"), scn::init_private("Ego", {scn::teleport(scn::lane_pos(1, -1, 10))}), stories, "<StopTrigger/>", decl[1], decl[0])))
    {
        vf::violation("typed:refused", "the scenario does not load");
        return;
    }
    SE_StepDT(0.125f);
    g_model = {{"I", {'i', 4, ""}}, {"D", {'d', 0.5, ""}}, {"S", {'s', 0, "x y"}}, {"B", {'b', 1, ""}}};
    std::map<string, Slot> other = g_model;  // parameters; g_model: variables
    string                 trace;
    auto                   go = [&](int in)
    {
        if (in < static_cast<int>(as.size()))
        {
            auto& a = as[static_cast<size_t>(in)];
            trace += " " + string(a.var ? "variable " : "parameter ") + a.name + " set to '" + a.text + "'";
            SE_SetVariableInt("op", in);
            SE_StepDT(0.125f);
            SE_SetVariableInt("op", -1);
            SE_StepDT(0.125f);
            auto& m = (a.var ? g_model : other)[a.name];
            m.num   = a.num;
            m.str   = a.str;
        }
        else
        {
            int  k   = in - static_cast<int>(as.size());
            bool var = k >= 4;
            char t   = TYPES[static_cast<size_t>(k % 4)];
            trace += fmt(" library sets %s %s", var ? "variable" : "parameter", NAMES[static_cast<size_t>(k % 4)].c_str());
            auto& m = (var ? g_model : other)[NAMES[static_cast<size_t>(k % 4)]];
            m.num   = t == 's' ? 0 : t == 'b' ? 0 : t == 'i' ? -12 : 7.25;
            m.str   = t == 's' ? "lib" : "";
            set_any(var, t, NAMES[static_cast<size_t>(k % 4)], m.num, m.str);
        }
        vf::step();
        check_all(true, trace);
        std::swap(g_model, other);
        check_all(false, trace);
        std::swap(g_model, other);
        vf::state(vf::fnv(trace));
        return true;
    };
    go(first);
    scn::Tree t;
    t.n     = static_cast<int>(as.size()) + 8;
    t.depth = vf::C().thorough() ? 2 : 1;
    t.apply = go;
    t.node();
}

static int c17()
{
    bool             th = vf::C().tier == "thorough";
    auto             O = ops();
    vector<vf::Case> cases;
    for (int var = 0; var < 2; var++)
        for (size_t a = 0; a < O.size(); a++)
            cases.push_back({fmt("%s-%zu", var ? "variable" : "parameter", a),
                             [=]()
                             {
                                 if (!typed_load())
                                 {
                                     vf::violation("typed:refused", "the scenario does not load");
                                     return;
                                 }
                                 string trace;
                                 auto   go = [&](int in)
                                 {
                                     auto& o = O[static_cast<size_t>(in)];
                                     trace += fmt(" set%c(%s,%g,%s)", o.type, o.name.c_str(), o.num, o.str.c_str());
                                     apply_op(var, o, trace);
                                     check_all(var, trace);
                                     if (var && th)
                                     {
                                         SE_StepDT(0.125f);
                                         check_all(var, trace + " step");
                                     }
                                     string h;
                                     for (auto& kv : g_model)
                                         h += fmt("%g%s,", kv.second.num, kv.second.str.c_str());
                                     vf::state(vf::fnv(h));
                                     vf::outcome(h);
                                     return true;
                                 };
                                 check_all(var, " declared");
                                 go(static_cast<int>(a));
                                 scn::Tree t;
                                 t.n     = static_cast<int>(O.size());
                                 t.depth = 1 + (th ? 1 : 0);
                                 t.apply = go;
                                 t.node();
                             }});
    for (int f = 0; f < 12; f++)
        cases.push_back({fmt("actions-%d", f), [=]() { check_actions(f); }});
    for (int f = 0; f < 28; f++)
        cases.push_back({fmt("sets-%d", f), [=]() { check_sets(f); }});
    vf::run(cases, 300);
    return vf::finish("all sequences of two (thorough: three) set actions of the scenario and sets through the library on parameters and variables of four types; all sequences of two (thorough: three) typed sets over 64 operations (four types, right and wrong, known and unknown names, with and without prefix) for parameters and variables, every value read back in every type after each; all sequences of 3 (4) variable actions and sets",
                      {"strings through the generic SE_SetParameter struct are left out: the header says const char*, the code expects std::string"});
}

int main(int argc, char** argv)
{
    vf::init(argc, argv, "C15");
    if (vf::C().prop == "C15")
        return c15();
    if (vf::C().prop == "C16")
        return c16();
    if (vf::C().prop == "C17")
        return c17();
    return 2;
}
