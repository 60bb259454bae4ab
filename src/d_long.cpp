// C28: speed profiles, for every sequence of targets up to the depth and several ways to divide time into frames.
// C29: keeping a distance; C30: arriving together.
#include <algorithm>
#include <map>
#include "story.hpp"
using std::string;
using std::vector;
using vf::fmt;

// ------------------------------------------------------------------------------------------------ common
static std::map<string, int> g_end, g_start;
static void                  on_state(const char* name, int, int state, const char*)
{
    if (state == 2)
        g_start[name]++;
    if (state == 3)
        g_end[name]++;
}
static void on_decl(void*)
{
    SE_RegisterStoryBoardElementStateChangeCallback(on_state);
}
static string event(const string& id, const string& actor, const string& action, double t0, const string& before = "")
{
    return "<ManeuverGroup name=\"g" + id + "\" maximumExecutionCount=\"1\"><Actors selectTriggeringEntities=\"false\"><EntityRef entityRef=\"" + actor +
           "\"/></Actors><Maneuver name=\"m" + id + "\"><Event name=\"e" + id + "\" priority=\"override\" maximumExecutionCount=\"1\"><Action name=\"a" + id + "\">" +
           scn::pa(action) + "</Action>" + scn::trigger("StartTrigger", scn::time_cond(t0, "greaterOrEqual")) + "</Event>" +
           (before.empty() ? "" : "<Event name=\"f" + id + "\" priority=\"parallel\" maximumExecutionCount=\"1\"><Action name=\"b" + id + "\">" + scn::pa(before) + "</Action>" +
                                      scn::trigger("StartTrigger", scn::time_cond(0, "greaterOrEqual")) + "</Event>") + "</Maneuver></ManeuverGroup>";
}
static string one_story(const string& groups)
{
    return "<Story name=\"s\"><Act name=\"act\">" + groups + scn::trigger("StartTrigger", scn::time_cond(-1)) + "<StopTrigger/></Act></Story>";
}
static bool start_up(const string& doc)
{
    g_end.clear();
    g_start.clear();
    SE_RegisterParameterDeclarationCallback(on_decl, nullptr);
    bool ok = scn::load(doc);
    return ok;
}
struct Sched
{
    string         name;
    vector<double> dts;  // repeated
};
static const vector<Sched> SCHEDS = {{"0.05", {0.05}}, {"0.1/0.03", {0.1, 0.03}}, {"0.25", {0.25}}, {"0.01..0.6", {0.01, 0.6, 0.17}}};

// ------------------------------------------------------------------------------------------------ C28 speed profile
struct Entry
{
    double t;  // < 0: not given
    double v;
};
struct Cons
{
    double acc = 0, dec = 0, accr = 0, decr = 0;  // 0: not given
};
struct Prof
{
    bool          follow = false;
    double        v0     = 0;
    vector<Entry> e;
    Cons          c;
    double        a0     = 0;  // acceleration when the profile starts
    double        ref = 0;  // speed of the referred entity, 0: none
    double        t0  = 0.5;
    string        key;
    string        str() const
    {
        string s = follow ? "follow" : "position";
        s += fmt(" from %g", v0);
        for (auto& x : e)
            s += x.t < 0 ? fmt(" (-,%g)", x.v) : fmt(" (%g,%g)", x.t, x.v);
        s += fmt(" acc %g dec %g rates %g %g", c.acc, c.dec, c.accr, c.decr);
        if (a0 != 0)
            s += fmt(" accelerating by %g", a0);
        if (ref != 0)
            s += fmt(" relative to %g", ref);
        return s;
    }
};
struct Seg
{
    double t, v, a, j;
};
struct Ref
{
    vector<Seg> seg;  // quadratic pieces, the last one holds
    bool        exact = true;
    double      at(double t) const
    {
        size_t i = 0;
        while (i + 1 < seg.size() && t > seg[i + 1].t)
            i++;
        double d = t - seg[i].t;
        return seg[i].v + seg[i].a * d + 0.5 * seg[i].j * d * d;
    }
};
static const double BIG = 1e10;
// what the profile asks for: corner points of straight lines, time relative to the start
static vector<Seg> corners(const Prof& p)
{
    vector<Seg> k;
    double      acc = p.c.acc > 0 ? p.c.acc : BIG, dec = p.c.dec > 0 ? p.c.dec : BIG, t = 0, v = p.v0;
    size_t      i = 0;
    if (p.e[0].t == 0)
    {
        if (!p.follow)
            v = p.e[0].v + p.ref;
        i = 1;
    }
    k.push_back({t, v, 0, 0});
    for (; i < p.e.size(); i++)
    {
        double dv = p.e[i].v + p.ref - v, a;
        if (p.e[i].t < 0)
            a = dv > 0 ? acc : -dec;
        else
            a = std::max(-dec, std::min(acc, dv / p.e[i].t));
        double T = p.e[i].t < 0 || a == acc || a == -dec ? (fabs(dv) < 1e-9 ? std::max(0.0, p.e[i].t) : dv / a) : p.e[i].t;
        if (T < 1e-9 && (!p.follow || fabs(dv) < 1e-9))  // a jump or nothing
        {
            v         = v + dv;
            k.back().v = v;
            continue;
        }
        a = dv / T;
        t += T;
        v += dv;
        if (p.follow && k.size() > 1 && fabs(k[k.size() - 2].a - a) < 1e-9)
        {
            k.back() = {t, v, 0, 0};  // one straight line
            continue;
        }
        k.back().a = a;
        k.push_back({t, v, 0, 0});
    }
    return k;
}
static Ref model(const Prof& p)
{
    Ref         r;
    vector<Seg> k = corners(p);
    if (!p.follow)
    {
        r.seg = k;
        return r;
    }
    double jp = p.c.accr > 0 ? p.c.accr : BIG, jm = p.c.decr > 0 ? p.c.decr : BIG;
    if (k.size() == 1)
    {
        r.seg = k;
        return r;
    }
    if (k.size() == 2)
    {
        double dv = k[1].v - k[0].v, T = k[1].t, s = dv > 0 ? 1 : -1, j0 = dv > 0 ? jp : jm, j1 = dv > 0 ? jm : jp, lim = dv > 0 ? (p.c.acc > 0 ? p.c.acc : BIG) : (p.c.dec > 0 ? p.c.dec : BIG);
        double D = fabs(dv), h = 1 / j0 + 1 / j1;
        if (D < 1e-9)
        {
            r.seg = k;
            return r;
        }
        double top = std::min(lim, sqrt(2 * D / h)), a = top;
        if (D / top + top * h / 2 < T)
            a = (T - sqrt(std::max(0.0, T * T - 2 * h * D))) / h;  // smaller root of h/2 a^2 - T a + D = 0
        double t1 = a / j0, end = D / a + a * h / 2, t2 = end - a / j1, v1 = k[0].v + s * a * t1 / 2;
        r.seg.push_back({0, k[0].v, 0, s * j0});
        r.seg.push_back({t1, v1, s * a, 0});
        r.seg.push_back({t2, k[1].v - s * a * (end - t2) / 2, s * a, -s * j1});
        r.seg.push_back({end, k[1].v, 0, 0});
        return r;
    }
    // lines with rounded corners
    struct Line
    {
        double a, m;  // v = a t + m
    };
    vector<Line> L;
    for (auto& c : k)
        L.push_back({c.a, c.v - c.a * c.t});
    double t = 0, v = k[0].v, a = 0;
    auto   jerk = [&](double to)
    { return to > a ? jp : -jm; };
    if (fabs(L[0].a) > 1e-9)
    {
        double j = jerk(L[0].a), d = L[0].a / j;
        r.seg.push_back({0, v, 0, j});
        t = d;
        v += j * d * d / 2;
        a = L[0].a;
    }
    r.seg.push_back({t, v, a, 0});
    double m = v - a * t;
    for (size_t i = 1; i < L.size(); i++)
    {
        if (fabs(L[i].a - a) < 1e-9)
        {
            if (fabs(L[i].m - m) > 1e-6)
            {
                r.exact = false;  // no corner to round: the profile runs in parallel to the one asked for; left open
            }
            continue;
        }
        double x = (m - L[i].m) / (L[i].a - a), j = jerk(L[i].a), d = (L[i].a - a) / j;
        if (x - d / 2 < t - 1e-9)
        {
            r.exact = false;  // cannot be followed: reverts to straight lines (documented)
            return r;
        }
        double v1 = a * (x - d / 2) + m;
        r.seg.push_back({x - d / 2, v1, a, j});
        t = x + d / 2;
        v = L[i].a * t + L[i].m;
        a = L[i].a;
        m = L[i].m;
        r.seg.push_back({t, v, a, 0});
    }
    return r;
}

static string prof_action(const Prof& p)
{
    string s = string("<LongitudinalAction><SpeedProfileAction followingMode=\"") + (p.follow ? "follow" : "position") + "\">";
    if (p.ref != 0)
        s.insert(s.size() - 1, " entityRef=\"R\"");
    if (p.c.acc + p.c.dec + p.c.accr + p.c.decr > 0)
    {
        s += "<DynamicConstraints";
        if (p.c.acc > 0)
            s += fmt(" maxAcceleration=\"%.17g\"", p.c.acc);
        if (p.c.dec > 0)
            s += fmt(" maxDeceleration=\"%.17g\"", p.c.dec);
        if (p.c.accr > 0)
            s += fmt(" maxAccelerationRate=\"%.17g\"", p.c.accr);
        if (p.c.decr > 0)
            s += fmt(" maxDecelerationRate=\"%.17g\"", p.c.decr);
        s += "/>";
    }
    if (p.ref != 0)
        s += "<EntityRef entityRef=\"R\"/>";
    for (auto& e : p.e)
        s += e.t < 0 ? fmt("<SpeedProfileEntry speed=\"%.17g\"/>", e.v) : fmt("<SpeedProfileEntry time=\"%.17g\" speed=\"%.17g\"/>", e.t, e.v);
    return s + "</SpeedProfileAction></LongitudinalAction>";
}

static void check_profiles(const string& name, vector<Prof> ps, const Sched& sc)
{
    scn::write_file("r.xodr", scn::odr(scn::straight_road(4000, 2, 2)));
    char cwd[400];
    if (!getcwd(cwd, sizeof(cwd)))
        return;
    string ent, init, groups;
    bool   ref = false;
    for (size_t i = 0; i < ps.size(); i++)
    {
        string n = fmt("V%zu", i);
        ent += scn::vehicle(n);
        init += scn::init_private(n, {scn::teleport(scn::lane_pos(1, -1, 50)), scn::speed_action(ps[i].v0)});
        groups += event(fmt("%zu", i), n, prof_action(ps[i]), ps[i].t0, ps[i].a0 != 0 ? scn::speed_action(ps[i].v0 + ps[i].a0 * 20, "linear", "time", 20) : "");
        ref = ref || ps[i].ref != 0;
    }
    if (ref)
    {
        ent += scn::vehicle("R");
        init += scn::init_private("R", {scn::teleport(scn::lane_pos(1, -2, 50)), scn::speed_action(ps[0].ref)});
    }
    string doc = scn::xosc(string(cwd) + "/r.xodr", ent, init, one_story(groups));
    if (!start_up(doc))
    {
        vf::violation(name + ":load", name + ": scenario does not load", doc);
        return;
    }
    size_t      n = ps.size();
    vector<Ref> r;
    vector<int> dead(n, 0);
    vector<double> start(n, -1), endt(n, -1), prev(n);
    vector<double> pa(n, 0);
    double      horizon = 0;
    for (size_t i = 0; i < n; i++)
    {
        r.push_back(model(ps[i]));
        prev[i] = ps[i].v0;
        horizon = std::max(horizon, (r[i].exact ? r[i].seg.back().t : corners(ps[i]).back().t + 8) + ps[i].t0 + 4);
    }
    double t = 0, pdt = 1;
    for (long f = 0; t < horizon; f++)
    {
        double dt = sc.dts[static_cast<size_t>(f) % sc.dts.size()];
        SE_StepDT(dt);
        vf::step();
        t += dt;
        for (size_t i = 0; i < n; i++)
        {
            if (dead[i])
                continue;
            const Prof&            p = ps[i];
            SE_ScenarioObjectState o;
            string                 an = fmt("a%zu", i);
            auto                   fail = [&](const string& what)
            {
                dead[i] = 1;
                vf::violation(p.key.empty() ? "profile:" + p.str() : p.key, name + ": " + p.str() + ", frames of " + sc.name + fmt(" s, %.3f s after the start: ", t - (start[i] < 0 ? t : start[i])) + what, doc);
            };
            if (SE_GetObjectState(static_cast<int>(i), &o) != 0)
            {
                fail("no state");
                continue;
            }
            if (start[i] < 0 && g_start[an] > 0)
            {
                start[i] = t - dt;
                if (p.a0 != 0)
                {
                    ps[i].v0 = prev[i];
                    r[i]     = model(ps[i]);
                    if (p.follow)
                        r[i].exact = false;
                }
            }
            double v = o.speed;
            vf::cmp();
            if (start[i] < 0)
            {
                if (t - dt >= p.t0 - 1e-9)
                    fail("not started");
                pa[i]   = (v - prev[i]) / dt;
                prev[i] = v;
                continue;
            }
            double x = t - start[i], last = p.follow && p.e.size() == 1 && p.e[0].t == 0 ? p.v0 : p.e.back().v + p.ref;
            bool   ended = g_end[an] > 0;
            if (g_end[an] > 1)
                fail("ended twice");
            if (ended && endt[i] < 0)
            {
                endt[i] = x;
                if (fabs(v - last) > 1e-4)
                    fail(fmt("ended at %.5f m/s instead of %g", v, last));
            }
            double late = 0;
            if (r[i].exact)
            {
                double want = r[i].at(x);
                vf::state(fmt("%s %.5f %d", p.str().c_str(), v, ended));
                if (fabs(v - want) > 2e-4 && fabs(v - r[i].at(x - 1e-6)) > 2e-4 && fabs(v - r[i].at(x + 1e-6)) > 2e-4)
                    fail(fmt("speed %.5f, expected %.5f", v, want));
                double T = r[i].seg.back().t;
                if (!ended && x > T + pdt + dt)
                    fail(fmt("not ended although the last target was reached after %.4f s", T));
                if (ended && endt[i] == x && x < T - 1e-3)
                {
                    // only if nothing is left to do
                    for (double y = x; y < T; y += 0.01)
                        if (fabs(r[i].at(y) - last) > 1e-4)
                        {
                            fail(fmt("ended early, the profile lasts %.4f s", T));
                            break;
                        }
                }
            }
            else
            {
                vector<Seg> k  = corners(p);
                double      lo = 1e9, hi = -1e9;
                for (auto& c : k)
                    lo = std::min(lo, c.v), hi = std::max(hi, c.v);
                vf::state(fmt("%s %.5f %d", p.str().c_str(), v, ended));
                if (p.a0 != 0)
                {
                    // the acceleration it starts with has to be worn off first
                    double jp = p.c.accr > 0 ? p.c.accr : BIG, jm = p.c.decr > 0 ? p.c.decr : BIG, over = p.a0 * p.a0 / 2 / (p.a0 > 0 ? jm : jp);
                    lo -= over, hi += over, late = 10;
                }
                if (v < lo - 1e-3 || v > hi + 1e-3)
                    fail(fmt("speed %.5f outside of the targets %g..%g", v, lo, hi));
                if (x > k.back().t + pdt + dt + late && !ended)
                    fail(fmt("not ended although the last target should be reached after %.4f s", k.back().t));
                if (ended && fabs(v - last) > 1e-3)
                    fail(fmt("speed %.5f after the end, the last target is %g", v, last));
            }
            double a = (v - prev[i]) / dt;
            double acc = p.c.acc > 0 ? p.c.acc : BIG, dec = p.c.dec > 0 ? p.c.dec : BIG;
            bool   jump = !p.follow && p.e[0].t == 0 && start[i] == t - dt;
            if (!dead[i] && !jump && r[i].exact && (a > acc + 1e-3 / dt * 0.01 + 1e-3 || a < -dec - 1e-3))
                fail(fmt("acceleration %.4f outside -%g..%g", a, dec, acc));
            if (!dead[i] && p.follow && (r[i].exact || (p.a0 != 0 && p.e.size() == 1)))
            {
                double j = 2 * (a - pa[i]) / (dt + pdt), jp = p.c.accr > 0 ? p.c.accr : BIG, jm = p.c.decr > 0 ? p.c.decr : BIG;
                if (j > jp + 0.05 || j < -jm - 0.05)
                    fail(fmt("jerk %.4f outside -%g..%g", j, jm, jp));
            }
            pa[i]   = a;
            prev[i] = v;
        }
        pdt = dt;
    }
    for (size_t i = 0; i < n; i++)
        vf::eval();
    SE_Close();
}

static void gen(vector<Entry>& cur, size_t len, const vector<Entry>& alpha, const std::function<void()>& f)
{
    if (cur.size() == len)
    {
        f();
        return;
    }
    for (auto& a : alpha)
    {
        if (!cur.empty() && a.t == 0)
            continue;
        cur.push_back(a);
        gen(cur, len, alpha, f);
        cur.pop_back();
    }
}

// executed once more, a profile does what it does when it is executed for the first time
static void check_again(const string& name, const vector<Prof>& ps, double cut, double dt)
{
    scn::write_file("r.xodr", scn::odr(scn::straight_road(4000, 2, 2)));
    char cwd[400];
    if (!getcwd(cwd, sizeof(cwd)))
        return;
    string ent, init, groups;
    auto   ev = [](const string& id, const string& act, vector<string> when)
    {
        string g;
        for (auto& w : when)
            g += "<ConditionGroup>" + scn::var_cond("op", w) + "</ConditionGroup>";
        return "<Event name=\"" + id + "\" priority=\"override\" maximumExecutionCount=\"100\"><Action name=\"a" + id + "\">" + scn::pa(act) + "</Action><StartTrigger>" + g + "</StartTrigger></Event>";
    };
    double after = 0;
    for (size_t i = 0; i < ps.size(); i++)
    {
        double u = i % 2 ? ps[i].v0 : 17;
        for (int k = 0; k < 2; k++)
        {
            string n = fmt("%c%zu", k ? 'B' : 'A', i);
            ent += scn::vehicle(n);
            init += scn::init_private(n, {scn::teleport(scn::lane_pos(1, -1, 50)), scn::speed_action(ps[i].v0)});
            groups += "<ManeuverGroup name=\"g" + n + "\" maximumExecutionCount=\"1\"><Actors selectTriggeringEntities=\"false\"><EntityRef entityRef=\"" + n + "\"/></Actors><Maneuver name=\"m" + n + "\">" +
                      ev("p" + n, prof_action(ps[i]), k ? vector<string>{"3"} : vector<string>{"1", "3"}) + ev("s" + n, scn::speed_action(u), {"2"}) + "</Maneuver></ManeuverGroup>";
        }
        after = std::max(after, corners(ps[i]).back().t + 8);
    }
    ent += scn::vehicle("R");
    init += scn::init_private("R", {scn::teleport(scn::lane_pos(1, -2, 50)), scn::speed_action(7)});
    string doc = scn::xosc(string(cwd) + "/r.xodr", ent, init, one_story(groups), "<StopTrigger/>", scn::var_decl("op", "integer", "-1"));
    if (!start_up(doc))
    {
        vf::violation(name + ":load", name + ": scenario does not load", doc);
        return;
    }
    auto go = [&](int op, double len)
    {
        for (double t = 0; t < len; t += dt)
        {
            SE_SetVariableInt("op", t == 0 ? op : -1);
            SE_StepDT(dt);
            vf::step();
        }
    };
    go(-1, 0.5);
    go(1, cut > 0 ? cut : after);
    go(2, 1.0);
    vector<bool> dead(ps.size());
    for (double t = 0; t < after; t += dt)
    {
        go(t == 0 ? 3 : -1, dt / 2);
        for (size_t i = 0; i < ps.size(); i++)
        {
            SE_ScenarioObjectState a, b;
            if (dead[i] || SE_GetObjectState(static_cast<int>(2 * i), &a) != 0 || SE_GetObjectState(static_cast<int>(2 * i + 1), &b) != 0)
                continue;
            string ia = fmt("apA%zu", i), ib = fmt("apB%zu", i);
            vf::cmp();
            vf::state(fmt("again %zu %.4f", i, static_cast<double>(a.speed)));
            bool ea = g_end[ia] >= (cut > 0 ? g_start[ia] : 2), eb = g_end[ib] >= 1;
            if (fabs(a.speed - b.speed) > 1e-4 || ea != eb)
            {
                dead[i] = true;
                vf::violation("again:" + ps[i].str(), name + ": " + ps[i].str() + fmt(" executed again %s from %g m/s, %.3f s after the start: speed %.5f%s, when first executed %.5f%s", cut > 0 ? "after it was interrupted" : "after its end", i % 2 ? ps[i].v0 : 17, t + dt, a.speed, ea ? " and ended" : "", b.speed, eb ? " and ended" : ""), doc);
            }
        }
    }
    vf::eval();
    SE_Close();
}
static void profile_cases(vector<vf::Case>& cases)
{
    bool         th = vf::C().thorough();
    vector<Prof> all;
    vector<Cons> cons = {{0, 0, 0, 0}, {5, 8, 10, 20}, {2, 3, 1, 2}, {4, 4, 0, 0}};
    for (int follow = 0; follow < 2; follow++)
        for (size_t ci = 0; ci < cons.size(); ci++)
            for (double v0 : {0.0, 10.0})
                for (size_t len = 1; len <= 3; len++)
                {
                    vector<Entry> alpha;
                    vector<double> ts = {-1, 0, 1, 4}, vs = {0, 5, 10, 20};
                    if (len == 3 && !th)
                        vs = {5, 10, 20}, ts = {-1, 0, 2};
                    for (double t : ts)
                        for (double v : vs)
                            alpha.push_back({t, v});
                    for (double ref : {0.0, 7.0})
                    {
                        if (ref != 0 && (len == 3 || ci == 0) && !th)
                            continue;
                        vector<Entry> cur;
                        gen(cur,
                            len,
                            alpha,
                            [&]()
                            {
                                Prof p;
                                p.follow = follow;
                                p.v0     = v0;
                                p.e      = cur;
                                p.c      = cons[ci];
                                p.ref    = ref;
                                if (follow && ci == 0)
                                    for (auto& e : cur)
                                        if (e.t < 0)
                                            return;  // nothing limits how fast the target is to be reached
                                all.push_back(p);
                            });
                    }
                }
    for (int follow = 0; follow < 2; follow++)
        for (size_t ci = 1; ci < 3; ci++)
            for (double a0 : {1.0, 1.8, -1.0})
                for (double v0 : {10.0, 20.0})
                    for (size_t len = 1; len <= 2; len++)
                    {
                        vector<Entry> alpha, cur;
                        for (double t : {-1.0, 1.0, 4.0, 9.0})
                            for (double v : {0.0, 8.0, 10.0, 14.0, 20.0})
                                alpha.push_back({t, v});
                        gen(cur,
                            len,
                            alpha,
                            [&]()
                            {
                                Prof p;
                                p.follow = follow;
                                p.v0     = v0;
                                p.a0     = a0;
                                p.e      = cur;
                                p.c      = cons[ci];
                                all.push_back(p);
                            });
                    }
    {
        // listed in known_findings.txt
        Prof p;
        p.follow = true;
        p.v0     = 20;
        p.a0     = -2.5;
        p.e      = {{4, 10}};
        p.c      = cons[2];
        p.key    = "profile-steeper-initial-deceleration";
        cases.push_back({"profile-finding", [=]() { vf::isolated([=]() { check_profiles("profile-finding", {p}, SCHEDS[0]); }, 100); }});
    }
    const size_t CH = 60;
    vector<vector<Prof>> chunks;
    for (double ref : {0.0, 7.0})
    {
        vector<Prof> cur;
        for (auto& p : all)
            if (p.ref == ref)
            {
                cur.push_back(p);
                if (cur.size() == CH)
                {
                    chunks.push_back(cur);
                    cur.clear();
                }
            }
        if (!cur.empty())
            chunks.push_back(cur);
    }
    for (size_t i = 0; i < chunks.size(); i++)
        for (size_t s = 0; s < SCHEDS.size(); s++)
        {
            string       name = fmt("profile-%zu-%zu", i, s);
            vector<Prof> ps   = chunks[i];
            Sched        sc   = SCHEDS[s];
            cases.push_back({name, [=]() { vf::isolated([=]() { check_profiles(name, ps, sc); }, 100); }});
        }
    for (size_t i = 0; i < chunks.size(); i++)
        if (th || i % 3 == 0)
            for (double cut : {0.0, 1.2})
            {
                vector<Prof> ps;
                for (auto& p : chunks[i])
                    if (p.a0 == 0)
                        ps.push_back(p);
                string name = fmt("again-%zu-%g", i, cut);
                if (!ps.empty())
                    cases.push_back({name, [=]() { vf::isolated([=]() { check_again(name, ps, cut, 0.1); }, 100); }});
            }
}

// ------------------------------------------------------------------------------------------------ C29 keeping a distance
struct Keep
{
    bool   lat  = false;
    double dist = 12, gap = 0;            // gap > 0: time gap
    string disp = "trailingReferencedEntity";
    bool   free = false, cont = true;
    string cs   = "entity";
    double acc = 0, dec = 0, accr = 0, decr = 0, vmax = 0;  // 0: not given
    int    dir = 1;                       // 1: right lanes along s, -1: left lanes against s
    double head = 30;                     // how far the target is ahead at first
    double v0 = 10, vt = 10;
    int    lane_t = 1, lane_a = 1;        // lane number on the driving side
    int    oncoming = 0;                  // the target drives the other way (lateral only)
    string str() const
    {
        string s = lat ? "lateral" : "longitudinal";
        s += gap > 0 ? fmt(" time gap %g", gap) : fmt(" distance %g", dist);
        s += " " + disp + (free ? " freespace" : "") + (cont ? " continuous" : "") + " " + cs + (dir > 0 ? "" : " left lanes") + fmt(" target %g ahead in lane %d at %g, actor in lane %d at %g", head, lane_t, vt, lane_a, v0);
        if (oncoming)
            s += " oncoming";
        if (acc + dec + accr + decr + vmax > 0)
            s += fmt(" limits %g %g %g %g %g", acc, dec, accr, decr, vmax);
        return s;
    }
    bool rigid() const
    {
        return acc + dec + accr + decr + vmax == 0;
    }
};
static const double R_CURVE = 600;
static string       keep_road(bool curved)
{
    if (!curved)
        return scn::straight_road(4000, 3, 3);
    return fmt("<road name=\"r1\" length=\"3000\" id=\"1\" junction=\"-1\"><planView><geometry s=\"0\" x=\"0\" y=\"0\" hdg=\"0\" length=\"3000\"><arc curvature=\"%.17g\"/></geometry></planView>", 1 / R_CURVE) +
           scn::lanes_xml(3, 3) + "</road>";
}
static string keep_action(const Keep& k, const string& target)
{
    string s = k.lat ? "<LateralAction><LateralDistanceAction" : "<LongitudinalAction><LongitudinalDistanceAction";
    s += " entityRef=\"" + target + "\" continuous=\"" + (k.cont ? "true" : "false") + "\" freespace=\"" + (k.free ? "true" : "false") + "\" coordinateSystem=\"" + k.cs + "\"";
    if (!k.disp.empty())
        s += " displacement=\"" + k.disp + "\"";
    s += k.gap > 0 ? fmt(" timeGap=\"%.17g\"", k.gap) : fmt(" distance=\"%.17g\"", k.dist);
    s += ">";
    if (!k.rigid())
    {
        s += "<DynamicConstraints";
        auto a = [&](const char* n, double v)
        {
            if (v > 0)
                s += fmt(" %s=\"%.17g\"", n, v);
        };
        a("maxAcceleration", k.acc), a("maxDeceleration", k.dec), a("maxAccelerationRate", k.accr), a("maxDecelerationRate", k.decr), a("maxSpeed", k.vmax);
        s += "/>";
    }
    return s + (k.lat ? "</LateralDistanceAction></LateralAction>" : "</LongitudinalDistanceAction></LongitudinalAction>");
}
struct KeepWorld
{
    vector<Keep> ks;
    bool         curved = false;
    string       doc, name;
    vector<int>  dead;
    vector<string> what;
    bool load()
    {
        scn::write_file("r.xodr", scn::odr(keep_road(curved)));
        char cwd[400];
        if (!getcwd(cwd, sizeof(cwd)))
            return false;
        string ent, init, groups;
        for (size_t i = 0; i < ks.size(); i++)
        {
            const Keep& k  = ks[i];
            string      a  = fmt("A%zu", i), t = fmt("T%zu", i);
            double      s0 = 1500;
            ent += scn::vehicle(t) + scn::vehicle(a);
            int lt = k.oncoming ? k.dir * k.lane_t : -k.dir * k.lane_t;
            init += scn::init_private(t, {scn::teleport(scn::lane_pos(1, lt, s0 + k.dir * k.head)), scn::speed_action(k.vt)});
            init += scn::init_private(a, {scn::teleport(scn::lane_pos(1, -k.dir * k.lane_a, s0)), scn::speed_action(k.v0)});
            groups += "<ManeuverGroup name=\"g" + a + "\" maximumExecutionCount=\"1\"><Actors selectTriggeringEntities=\"false\"><EntityRef entityRef=\"" + a + "\"/></Actors><Maneuver name=\"m" + a +
                      "\"><Event name=\"e" + a + "\" priority=\"parallel\" maximumExecutionCount=\"100\"><Action name=\"a" + fmt("%zu", i) + "\">" + scn::pa(keep_action(k, t)) + "</Action>" +
                      scn::trigger("StartTrigger", scn::var_cond("go", "1")) + "</Event></Maneuver></ManeuverGroup>";
        }
        doc  = scn::xosc(string(cwd) + "/r.xodr", ent, init, one_story(groups), "<StopTrigger/>", scn::var_decl("go", "integer", "0"));
        dead = vector<int>(ks.size(), 0);
        return start_up(doc);
    }
    bool state(size_t i, SE_ScenarioObjectState& a, SE_ScenarioObjectState& t)
    {
        return SE_GetObjectState(static_cast<int>(2 * i), &t) == 0 && SE_GetObjectState(static_cast<int>(2 * i + 1), &a) == 0;
    }
    void fail(size_t i, const string& how, const string& msg)
    {
        if (dead[i])
            return;
        dead[i] = 1;
        vf::violation(name + ":" + ks[i].str(), name + ": " + ks[i].str() + ", " + how + ": " + msg, doc);
    }
    // distance ahead along the driving direction
    double ahead(size_t i, const SE_ScenarioObjectState& a, const SE_ScenarioObjectState& t)
    {
        double d = curved ? t.s - a.s : t.x - a.x;
        return d * ks[i].dir;
    }
    double want_long(size_t i, double vt, int side)
    {
        const Keep& k = ks[i];
        double      d = k.gap > 0 ? fabs(vt) * k.gap : k.dist;
        if (k.free)
            d += 5;
        return side * d;
    }
    int side(size_t i, double first_ahead)
    {
        const Keep& k = ks[i];
        return k.disp == "any" ? (first_ahead < 0 ? -1 : 1) : k.disp == "leadingReferencedEntity" ? -1 : 1;
    }
};

// no limits: the distance holds after every frame, whatever the target does
static void keep_rigid_tree(const string& name, const vector<Keep>& ks, bool curved, const vector<double>& dts, const vector<double>& vts, int depth)
{
    scn::Tree tree;
    KeepWorld w;
    w.ks = ks, w.curved = curved, w.name = name;
    int moves  = static_cast<int>(dts.size() * vts.size());
    tree.n     = moves + 2;  // and: put the actor elsewhere, start again what has ended
    tree.depth = depth;
    vector<int>    sd(ks.size(), 0), over(ks.size(), 0), frames(ks.size(), 0);
    vector<double> va(ks.size(), 0), was(ks.size(), 0);
    bool           first = true;
    auto           how   = [&]() { return "frames " + tree.path_str(); };
    tree.apply           = [&](int op) -> bool
    {
        size_t n  = ks.size();
        bool   re = op >= moves;
        double dt = re ? dts[0] : dts[static_cast<size_t>(op) % dts.size()], vt = re ? 10 : vts[static_cast<size_t>(op) / dts.size()];
        if (re && first)
            return true;
        SE_ScenarioObjectState a, t;
        for (size_t i = 0; i < n; i++)
        {
            w.state(i, a, t);
            if (re)
            {
                SE_ReportObjectRoadPos(static_cast<int>(2 * i + 1), 1, a.laneId, 0, t.s + ks[i].dir * (op == moves ? 25 : -22));
                SE_ReportObjectSpeed(static_cast<int>(2 * i + 1), 6);
                w.state(i, a, t);
            }
            if (first || (re && over[i]))
            {
                sd[i]     = w.side(i, w.ahead(i, a, t));
                over[i]   = 0;
                frames[i] = 0;
            }
            if (re)
                frames[i] = -1;
            was[i] = w.ahead(i, a, t);
            SE_ReportObjectSpeed(static_cast<int>(2 * i), vt);
        }
        if (first || re)
            SE_SetVariableInt("go", 1);
        vector<int> e0(n);
        for (size_t i = 0; i < n; i++)
            e0[i] = g_end[fmt("a%zu", i)];
        SE_StepDT(dt);
        SE_SetVariableInt("go", 0);
        first = false;
        for (size_t i = 0; i < n; i++)
        {
            if (w.dead[i])
                continue;
            const Keep& k = ks[i];
            if (!w.state(i, a, t))
            {
                w.fail(i, how(), "no state");
                continue;
            }
            vf::cmp();
            double got = w.ahead(i, a, t), want = w.want_long(i, vt, sd[i]);
            bool   ended = g_end[fmt("a%zu", i)] > e0[i];
            vf::state(fmt("%zu %.3f %.3f %d", i, got, static_cast<double>(a.speed), over[i]));
            if (!over[i])
            {
                // changing sides costs one more frame, as the gap between the boxes does not count their lengths; touching is both ahead and behind
                bool cross = k.free && was[i] * want < 0, touch = k.free && fabs(fabs(want) - 5) < 1e-9 && fabs(got + want) < 2e-3;
                // on the curve the distance is taken along the reference line, the way to it along the lane
                double curve = curved ? 8e-3 + 1.1 * fabs(was[i] - want) * k.lane_a * 3.5 / R_CURVE : 0;
                if (fabs(got - want) > 2e-3 + curve + (re ? vt * dt : 0) && !cross && !touch)  // what a reported position is, it stays during that frame
                    w.fail(i, how(), fmt("the target is %.4f m ahead, asked for %.4f", got, want));
                if (fabs(a.speed - vt) > 1e-4)
                    w.fail(i, how(), fmt("speed %.4f while the target drives %.4f", a.speed, vt));
                if (k.cont && ended)
                    w.fail(i, how(), "a continuous action ended");
                frames[i]++;
                if (ended)
                    over[i] = 1;
                else if (!k.cont && frames[i] > (k.free ? 2 : 1) + (curved ? 1 : 0) && k.gap <= 0)
                    w.fail(i, how(), "not ended although the distance is reached");
            }
            else if (fabs(a.speed - va[i]) > 1e-4)
                w.fail(i, how(), fmt("speed changes to %.4f after the end", a.speed));
            if (fabs(fabs(a.t) - (k.lane_a - 0.5) * 3.5) > 1e-3)
                w.fail(i, how(), fmt("lateral position %.4f", a.t));
            va[i] = a.speed;
        }
        return true;
    };
    tree.run(
        [&]() -> bool
        {
            if (!w.load())
            {
                vf::violation(name + ":load", name + ": scenario does not load", w.doc);
                return false;
            }
            return true;
        });
}

// with limits: limits hold, the distance and the target's speed are reached and held
static void keep_dynamic(const string& name, const vector<Keep>& ks, bool curved, const Sched& sc, double v2)
{
    KeepWorld w;
    w.ks = ks, w.curved = curved, w.name = name;
    if (!w.load())
    {
        vf::violation(name + ":load", name + ": scenario does not load", w.doc);
        return;
    }
    size_t                 n = ks.size();
    vector<int>            sd(n), over(n, 0);
    vector<double>         va(n), acc(n, 0), endv(n, 0);
    SE_ScenarioObjectState a, t;
    for (size_t i = 0; i < n; i++)
    {
        w.state(i, a, t);
        sd[i] = w.side(i, w.ahead(i, a, t));
        va[i] = a.speed;
    }
    SE_SetVariableInt("go", 1);
    double now = 0;
    const double T1 = 35, T2 = 70;
    bool         changed = false;
    for (long f = 0; now < T2; f++)
    {
        double dt = sc.dts[static_cast<size_t>(f) % sc.dts.size()];
        if (!changed && now > T1)
        {
            changed = true;
            for (size_t i = 0; i < n; i++)
                SE_ReportObjectSpeed(static_cast<int>(2 * i), v2);
        }
        SE_StepDT(dt);
        vf::step();
        if (f == 0)
            SE_SetVariableInt("go", 0);
        now += dt;
        for (size_t i = 0; i < n; i++)
        {
            if (w.dead[i])
                continue;
            const Keep& k   = ks[i];
            string      how = fmt("frames of %s s, after %.3f s", sc.name.c_str(), now);
            if (!w.state(i, a, t))
            {
                w.fail(i, how, "no state");
                continue;
            }
            vf::cmp();
            double got = w.ahead(i, a, t), want = w.want_long(i, t.speed, sd[i]), x = (a.speed - va[i]) / dt;
            vf::state(fmt("%zu %.2f %.2f", i, got, static_cast<double>(a.speed)));
            double am = k.acc > 0 ? k.acc : 200, dm = k.dec > 0 ? k.dec : 200, vm = k.vmax > 0 ? k.vmax : 100, tol = 1e-4 / dt + 1e-3;
            if (over[i])
            {
                if (fabs(x) > tol)
                    w.fail(i, how, fmt("speed changes to %.4f after the end", a.speed));
            }
            else
            {
                if (x > am + tol || x < -dm - tol)
                    w.fail(i, how, fmt("acceleration %.4f outside -%g..%g", x, dm, am));
                if (fabs(a.speed) > vm + 1e-4 && fabs(a.speed) > k.v0 + 1e-4)
                    w.fail(i, how, fmt("speed %.4f above the limit", a.speed));
                bool capped = fabs(fabs(a.speed) - vm) < 1e-4;
                if (!capped && k.accr > 0 && x > 0 && x > acc[i] + k.accr * dt + tol)
                    w.fail(i, how, fmt("acceleration rises from %.4f to %.4f in %.3f s", acc[i], x, dt));
                if (!capped && k.decr > 0 && x < 0 && x < acc[i] - k.decr * dt - tol)
                    w.fail(i, how, fmt("acceleration falls from %.4f to %.4f in %.3f s", acc[i], x, dt));
                bool late = (now > T1 - 1 && now < T1) || now > T2 - 1;
                if (k.free && fabs(fabs(want) - 5) < 1e-3 && fabs(got) < 5.25)
                    got = want;  // no gap asked for and none left
                if (late && t.speed <= vm && (fabs(got - want) > 0.25 || fabs(a.speed - t.speed) > 0.15))
                    w.fail(i, how, fmt("the target is %.4f m ahead and drives %.3f, the actor %.3f; asked for %.4f m", got, t.speed, a.speed, want));
                if (g_end[fmt("a%zu", i)] > 0)
                {
                    over[i] = 1;
                    if (k.cont)
                        w.fail(i, how, "a continuous action ended");
                    if (fabs(got - want) > 0.1 + fabs(a.speed - t.speed) * dt + fabs(x) * dt * dt + 1e-3)
                        w.fail(i, how, fmt("ended with the target %.4f m ahead, asked for %.4f", got, want));
                }
                else if (late && !k.cont && t.speed <= vm)
                    w.fail(i, how, "not ended");
            }
            acc[i] = x;
            va[i]  = a.speed;
        }
    }
    for (size_t i = 0; i < n; i++)
        vf::eval();
    SE_Close();
}

// lateral: left or right of the target, on reaching it and while the target changes its offset; executed again later
static void keep_lateral(const string& name, const vector<Keep>& ks, bool curved, const Sched& sc)
{
    KeepWorld w;
    w.ks = ks, w.curved = curved, w.name = name;
    if (!w.load())
    {
        vf::violation(name + ":load", name + ": scenario does not load", w.doc);
        return;
    }
    size_t                 n = ks.size();
    vector<double>         pt(n), pv(n, 0), since(n, 0);
    vector<int>            ends(n, 0), lastend(n, 0);
    SE_ScenarioObjectState a, t;
    for (size_t i = 0; i < n; i++)
    {
        w.state(i, a, t);
        pt[i] = a.t;
    }
    double now = 0, off = 0;
    int    step = 0;
    long   round_start = 0;
    double tr = 0;
    for (long f = 0; step < 4; f++)
    {
        double dt = sc.dts[static_cast<size_t>(f) % sc.dts.size()];
        // each round: the target takes another offset, the action is started again unless it is continuous
        if (f == round_start)
        {
            const double offs[4] = {0, 0.7, -0.9, 0.3};
            off                  = offs[step];
            for (size_t i = 0; i < n; i++)
            {
                w.state(i, a, t);
                SE_ReportObjectLateralLanePosition(static_cast<int>(2 * i), t.laneId, off);
                ends[i] = g_end[fmt("a%zu", i)];
            }
            SE_SetVariableInt("go", 1);
            tr = 0;
        }
        SE_StepDT(dt);
        vf::step();
        if (f == round_start)
            SE_SetVariableInt("go", 0);
        now += dt;
        tr += dt;
        long nf = f - round_start + 1;
        bool last = tr > 20;
        for (size_t i = 0; i < n; i++)
        {
            if (w.dead[i])
                continue;
            const Keep& k   = ks[i];
            string      how = fmt("frames of %s s, round %d, after %.3f s", sc.name.c_str(), step, tr);
            if (!w.state(i, a, t))
            {
                w.fail(i, how, "no state");
                continue;
            }
            vf::cmp();
            // left of the target as it drives
            double tdir = k.oncoming ? -k.dir : k.dir, sgn = k.disp == "rightToReferencedEntity" ? -1 : 1;
            double want = sgn * (k.dist + (k.free ? 2 : 0)), got;
            if (k.cs == "road")
                got = (a.t - t.t) * tdir;
            else
                got = -(a.x - t.x) * sin(t.h) + (a.y - t.y) * cos(t.h);
            bool ended = g_end[fmt("a%zu", i)] > ends[i];
            vf::state(fmt("%zu %.3f %d", i, got, ended));
            if (k.cont && ended)
                w.fail(i, how, "a continuous action ended");
            double v = (a.t - pt[i]) / dt, ac = (v - pv[i]) / dt;
            if (k.rigid())
            {
                if (nf >= 2 && (k.cont || nf <= 2) && fabs(got - want) > 2e-3)
                    w.fail(i, how, fmt("%.4f m left of the target, asked for %.4f", got, want));
                if (!k.cont && k.cs == "road" && nf >= 4 && !ended)
                    w.fail(i, how, "not ended");
            }
            else if (k.cs == "road")
            {
                if (k.vmax > 0 && fabs(v) > k.vmax + 1e-3)
                    w.fail(i, how, fmt("lateral speed %.4f above %g", v, k.vmax));
                if (k.acc > 0 && nf > 2 && !ended && fabs(ac) > k.acc + 2e-2 / dt)
                    w.fail(i, how, fmt("lateral acceleration %.4f above %g", ac, k.acc));
                if (k.vmax > 0 && k.acc == 0 && nf >= 2 && !ended)
                {
                    // straight to the target at that speed
                    double left = fabs(got - want), was = since[i];
                    double need = std::max(0.0, was - k.vmax * dt);
                    if (nf > 2 && fabs(left - need) > 2e-3)
                        w.fail(i, how, fmt("%.4f m to go after %.4f m, limit %g m/s", left, was, k.vmax));
                }
                since[i] = fabs(got - want);
                if (last && fabs(got - want) > 0.05 && (k.cont || ended))
                    w.fail(i, how, fmt("%.4f m left of the target, asked for %.4f", got, want));
                if (last && !k.cont && !ended && !(curved && k.acc > 0 && dt > 0.2))  // there the chords of the curve are felt as lateral speed of the target
                    w.fail(i, how, "not ended");
                if (nf > 2 && fabs(a.speed - k.v0) > 1e-3)
                    w.fail(i, how, fmt("speed %.4f", a.speed));
            }
            else
            {
                if (last && fabs(got - want) > 0.05)
                    w.fail(i, how, fmt("%.4f m left of the target, asked for %.4f", got, want));
                if (nf > 2 && fabs(a.speed - k.v0) > 1e-3)
                    w.fail(i, how, fmt("speed %.4f", a.speed));
            }
            pt[i] = a.t;
            pv[i] = v;
        }
        if (last)
        {
            step++;
            round_start = f + 1;
        }
    }
    for (size_t i = 0; i < n; i++)
        vf::eval();
    SE_Close();
}

static void keep_cases(vector<vf::Case>& cases)
{
    bool         th = vf::C().thorough();
    vector<Keep> rigid[2], dyn[2], lat[2];
    for (int curved = 0; curved < 2; curved++)
        for (int dir : {1, -1})
            for (string cs : {"entity", "lane", "road"})
                for (string disp : {"trailingReferencedEntity", "leadingReferencedEntity", "any"})
                    for (int free = 0; free < 2; free++)
                        for (double head : {30.0, -20.0})
                            for (int g = 0; g < 2; g++)
                                for (int cont = 1; cont >= 0; cont--)
                                {
                                    if (curved && (cs == "entity" || free))
                                        continue;  // measured in a straight line there
                                    Keep k;
                                    k.cs = cs, k.disp = disp, k.free = free, k.head = head, k.gap = g ? 1.5 : 0, k.cont = cont, k.dir = dir;
                                    k.lane_t = g ? 2 : 1, k.lane_a = curved ? k.lane_t : 1;
                                    rigid[curved].push_back(k);
                                    struct L
                                    {
                                        double acc, dec, accr, decr, vmax;
                                    };
                                    const L lims[] = {{3, 5, 0, 0, 0}, {2, 2, 4, 4, 0}, {6, 4, 0, 0, 25}};
                                    for (size_t q = 0; q < 3; q++)
                                    {
                                        if (!th && (q + static_cast<size_t>(g) + static_cast<size_t>(free) + (dir > 0 ? 0 : 1)) % 3 != 0)
                                            continue;
                                        Keep d = k;
                                        d.acc = lims[q].acc, d.dec = lims[q].dec, d.accr = lims[q].accr, d.decr = lims[q].decr, d.vmax = lims[q].vmax;
                                        d.v0 = 14, d.vt = 10;
                                        dyn[curved].push_back(d);
                                    }
                                }
    for (int curved = 0; curved < 2; curved++)
        for (int dir : {1, -1})
            for (string cs : {"road", "entity"})
                for (string disp : {"leftToReferencedEntity", "rightToReferencedEntity", ""})
                    for (int free = 0; free < 2; free++)
                        for (int cont = 1; cont >= 0; cont--)
                            for (int onc = 0; onc < 2; onc++)
                                for (int q = 0; q < 4; q++)
                                {
                                    if (cs == "entity" && (curved || q == 1 || q == 3 || onc || !cont))
                                        continue;
                                    Keep k;
                                    k.lat = true, k.cs = cs, k.disp = disp, k.free = free, k.cont = cont, k.dir = dir, k.oncoming = onc, k.dist = 1.5, k.head = onc ? 200 : 10;
                                    k.lane_t = 2, k.lane_a = 1, k.v0 = k.vt = 10;
                                    if (onc)
                                        k.lane_t = 1;
                                    if (q == 1)
                                        k.vmax = 2;
                                    if (q == 2)
                                        k.acc = 3;
                                    if (q == 3)
                                        k.acc = 3, k.vmax = 1;
                                    lat[curved].push_back(k);
                                }
    auto add = [&](const string& base, const vector<Keep>& v, size_t ch, const std::function<void(const string&, const vector<Keep>&)>& fn)
    {
        for (size_t i = 0; i < v.size(); i += ch)
        {
            vector<Keep> part(v.begin() + static_cast<long>(i), v.begin() + static_cast<long>(std::min(v.size(), i + ch)));
            string       name = fmt("%s-%zu", base.c_str(), i / ch);
            cases.push_back({name, [=]() { fn(name, part); }});
        }
    };
    for (int curved = 0; curved < 2; curved++)
    {
        string c = curved ? "curve" : "straight";
        add("rigid-" + c, rigid[curved], 12, [=](const string& n, const vector<Keep>& v) { keep_rigid_tree(n, v, curved, {0.05, 0.2}, {0, 10, 17}, th ? 5 : 4); });
        for (size_t s = 0; s < SCHEDS.size() - 1; s++)
            for (double v2 : {18.0, 4.0, 0.0})
                add("limits-" + c + fmt("-%zu-%g", s, v2), dyn[curved], 40, [=](const string& n, const vector<Keep>& v) { vf::isolated([=]() { keep_dynamic(n, v, curved, SCHEDS[s], v2); }, 100); });
        for (size_t s = 0; s < SCHEDS.size() - 1; s++)
            add("lateral-" + c + fmt("-%zu", s), lat[curved], 24, [=](const string& n, const vector<Keep>& v) { vf::isolated([=]() { keep_lateral(n, v, curved, SCHEDS[s]); }, 100); });
    }
}

int main(int argc, char** argv)
{
    vf::init(argc, argv, "d_long");
    string           prop = vf::C().prop;
    vector<vf::Case> cases;
    if (prop == "C28")
        profile_cases(cases);
    if (prop == "C29")
        keep_cases(cases);
    vf::run(cases, 110);
    bool T = vf::C().thorough();
    if (prop == "C29")
        return vf::finish(string("longitudinal: distance 12 m or 1.5 s, trailing/leading/any, reference points or free space, entity/lane/road coordinates, both sides of the road, target 30 m ahead or 20 m behind, continuous or not; without limits every sequence of up to ") +
                              (T ? "5" : "4") + " frames of 0.05/0.2 s with target speeds 0, 10, 17 m/s or the actor put elsewhere (and started again when ended), straight road and curve; with " + (T ? "3" : "a third of 3") +
                              " sets of limits, target changing to 18, 4, 0 m/s, in 3 divisions of time; lateral: left/right/default, road and entity coordinates, same way and oncoming, 4 sets of limits, 4 rounds with the target's offset changed, 3 divisions of time",
                          {"free space and entity coordinates are left out on the curve, where they are measured in a straight line",
                           "changing sides with a free-space distance may take one more frame, as may anything on the curve, where the distance is taken along the reference line and driven along the lane",
                           "the lateral distance holds from the second frame"});
    return vf::finish(string("every profile of up to 2 targets (times omitted, 0, 1, 4 s; speeds 0, 5, 10, 20 m/s) and of 3 targets (") + (T ? "same times and speeds" : "times omitted, 0, 2 s; speeds 5, 10, 20") +
                          "), position and follow mode, from 0 and 10 m/s, 4 sets of limits, absolute and relative to an entity; profiles of up to 2 targets that interrupt an acceleration; each with 4 ways to divide time into frames",
                      {"follow mode without any limit and without times is left out: nothing says how fast the target is to be reached",
                       "where the rounded profile does not fit the targets (documented to revert to straight lines) only the range of speeds, the final speed and the end are compared"});
}
