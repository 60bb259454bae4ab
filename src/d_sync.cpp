// C30: arriving together (SynchronizeAction), for every combination of distances, speeds, final speed, steady state and
// master speed history of the bounded set and several ways to divide time into frames; executed twice.
#include <algorithm>
#include <map>
#include "story.hpp"
using std::string;
using std::vector;
using vf::fmt;

static std::map<string, int> g_end;
static void                  on_state(const char* name, int, int state, const char*)
{
    if (state == 3)
        g_end[name]++;
}
static void on_decl(void*)
{
    SE_RegisterStoryBoardElementStateChangeCallback(on_state);
}
struct Sched
{
    string         name;
    vector<double> dts;
};
static const vector<Sched> SCHEDS = {{"0.05", {0.05}}, {"0.1/0.03", {0.1, 0.03}}, {"0.2", {0.2}}};

struct Sync
{
    double dm = 200, da = 100;  // distances to the destinations
    double v0 = 10, vf = -1;    // actor's speed, final speed (< 0: none)
    int    rel = 0;             // final speed relative to the master: 1 delta, 2 factor
    int    ss = 0;              // steady state: 1 time, 2 distance, 3 position
    double ssv = 0;
    double tol = 0;             // 0: not given
    int    dir = 1;
    vector<double> vm = {10, 10, 10};  // master's speeds, 2 s each
    string str() const
    {
        string s = fmt("master %g m, actor %g m to go at %g m/s, final %g%s", dm, da, v0, vf, rel == 1 ? " delta" : rel == 2 ? " factor" : "");
        if (ss)
            s += fmt(" steady %s %g", ss == 1 ? "time" : ss == 2 ? "distance" : "position", ssv);
        if (tol > 0)
            s += fmt(" tolerance %g", tol);
        s += dir > 0 ? "" : " left lanes";
        s += " master speeds";
        for (double v : vm)
            s += fmt(" %g", v);
        return s;
    }
    double fin(double master) const
    {
        return rel == 1 ? master + vf : rel == 2 ? master * vf : vf;
    }
};
static const double S0 = 2000;
static string       sync_action(const Sync& k, const string& master)
{
    string s = "<SynchronizeAction masterEntityRef=\"" + master + "\"";
    if (k.tol > 0)
        s += fmt(" targetToleranceMaster=\"%g\" targetTolerance=\"%g\"", k.tol, k.tol);
    s += "><TargetPositionMaster>" + scn::lane_pos(1, -k.dir, S0 + k.dir * k.dm) + "</TargetPositionMaster><TargetPosition>" + scn::lane_pos(1, -2 * k.dir, S0 + k.dir * k.da) + "</TargetPosition>";
    if (k.vf >= 0 || k.rel)
    {
        string ss = k.ss == 1 ? fmt("<TargetTimeSteadyState time=\"%g\"/>", k.ssv) : k.ss == 2 ? fmt("<TargetDistanceSteadyState distance=\"%g\"/>", k.ssv)
                  : k.ss == 3 ? "<TargetPositionSteadyState>" + scn::lane_pos(1, -2 * k.dir, S0 + k.dir * (k.da - k.ssv)) + "</TargetPositionSteadyState>"
                              : "";
        s += "<FinalSpeed>";
        s += k.rel ? fmt("<RelativeSpeedToMaster value=\"%g\" speedTargetValueType=\"%s\">", k.vf, k.rel == 1 ? "delta" : "factor") + ss + "</RelativeSpeedToMaster>"
                   : fmt("<AbsoluteSpeed value=\"%g\">", k.vf) + ss + "</AbsoluteSpeed>";
        s += "</FinalSpeed>";
    }
    return s + "</SynchronizeAction>";
}
struct Run
{
    vector<Sync> ks;
    string       name, doc;
    vector<int>  dead;
    void fail(size_t i, const string& how, const string& msg)
    {
        if (dead[i])
            return;
        dead[i] = 1;
        vf::violation(name + ":" + ks[i].str(), name + ": " + ks[i].str() + ", " + how + ": " + msg, doc);
    }
    bool load(int go)
    {
        scn::write_file("r.xodr", scn::odr(scn::straight_road(4000, 3, 3)));
        char cwd[400];
        if (!getcwd(cwd, sizeof(cwd)))
            return false;
        string ent, init, groups;
        for (size_t i = 0; i < ks.size(); i++)
        {
            const Sync& k = ks[i];
            string      a = fmt("A%zu", i), m = fmt("M%zu", i);
            ent += scn::vehicle(m) + scn::vehicle(a);
            init += scn::init_private(m, {scn::teleport(scn::lane_pos(1, -k.dir, S0)), scn::speed_action(k.vm[0])});
            init += scn::init_private(a, {scn::teleport(scn::lane_pos(1, -2 * k.dir, S0)), scn::speed_action(k.v0)});
            groups += "<ManeuverGroup name=\"g" + a + "\" maximumExecutionCount=\"1\"><Actors selectTriggeringEntities=\"false\"><EntityRef entityRef=\"" + a + "\"/></Actors><Maneuver name=\"m" + a +
                      "\"><Event name=\"e" + a + "\" priority=\"parallel\" maximumExecutionCount=\"100\"><Action name=\"a" + fmt("%zu", i) + "\">" + scn::pa(sync_action(k, m)) + "</Action>" +
                      scn::trigger("StartTrigger", scn::var_cond("go", "1")) + "</Event></Maneuver></ManeuverGroup>";
        }
        doc  = scn::xosc(string(cwd) + "/r.xodr", ent, init, "<Story name=\"s\"><Act name=\"act\">" + groups + scn::trigger("StartTrigger", scn::time_cond(-1)) + "<StopTrigger/></Act></Story>", "<StopTrigger/>",
                         scn::var_decl("go", "integer", go ? "1" : "0"));
        dead = vector<int>(ks.size(), 0);
        g_end.clear();
        SE_RegisterParameterDeclarationCallback(on_decl, nullptr);
        return scn::load(doc);
    }
};
// the speed a given time after the start, the master driving constantly; < 0: left open
static double ideal(const Sync& k, double time)
{
    double tol = k.tol > 0 ? k.tol : 1, vm = k.vm[0], s = k.da - tol, t = (k.dm - tol) / vm, v0 = k.v0;
    if (k.vf < 0 && !k.rel)
        return v0 + (2 * s / t - 2 * v0) / t * time;
    double v1 = k.fin(vm);
    if (k.ss)
    {
        double sd = k.ss == 1 ? k.ssv * v1 : k.ssv;
        if (time > t - sd / v1)
            return v1;
        s -= sd;
        t -= sd / v1;
    }
    if (time > t)
        return v1;
    // up (or down) to vx at time x, then straight to v1 with the same acceleration the other way round
    double x, vx;
    if (fabs(v1 - v0) < 1e-9)
    {
        x  = t / 2;
        vx = 2 * s / t - v0;
    }
    else
    {
        // area: (v0+vx)/2 x + (vx+v1)/2 (t-x) = s and (vx-v0)/x = (vx-v1)/(t-x)
        double q = sqrt(std::max(0.0, 4 * s * s - 4 * (v0 + v1) * t * s + 2 * (v0 * v0 + v1 * v1) * t * t)), y[2] = {(2 * s - q) / (2 * t), (2 * s + q) / (2 * t)};
        x = vx = -1;
        for (double c : y)
        {
            double d = 2 * c - v0 - v1, xx = d == 0 ? -1 : t * (c - v0) / d;
            if (xx > 0 && xx < t)
                x = xx, vx = c;
        }
        if (x < 0)
            return -1;
    }
    if (vx >= 0)
        return time < x ? v0 + (vx - v0) * time / x : vx + (v1 - vx) * (time - x) / (t - x);
    // not without a stop: brake, wait, start
    double t1 = 2 * v0 * s / (v0 * v0 + v1 * v1), t2 = 2 * v1 * s / (v0 * v0 + v1 * v1);
    if (v0 <= 0)
        t1 = 0, t2 = 2 * s / v1;
    if (t1 * v0 / 2 > s / 2 - 0.5)
        return -1;  // brakes as hard as possible instead
    return time < t1 ? v0 * (1 - time / t1) : time < t - t2 ? 0 : v1 * (time - t + t2) / t2;
}
// executing it again means the same: each round starts with both vehicles put back
static void check(const string& name, const vector<Sync>& ks, const Sched& sc, bool at_once)
{
    Run r;
    r.ks = ks, r.name = name;
    if (!r.load(at_once))
    {
        vf::violation(name + ":load", name + ": scenario does not load", r.doc);
        return;
    }
    size_t         n = ks.size();
    for (int round = 0; round < 2; round++)
    {
        vector<int>            over(n, 0), e0(n), short_(n, 0), still(n, 0);
        vector<double>         pv(n), sa(n), sm(n);
        SE_ScenarioObjectState a, m;
        // put back just before the start, to arrive there at the given speed (a reported position stays for one frame)
        for (size_t i = 0; i < n && (round > 0 || !at_once); i++)
        {
            SE_ReportObjectRoadPos(static_cast<int>(2 * i), 1, -ks[i].dir, 0, S0 - ks[i].dir * 0.02 * ks[i].vm[0]);
            SE_ReportObjectRoadPos(static_cast<int>(2 * i + 1), 1, -2 * ks[i].dir, 0, S0 - ks[i].dir * 0.02 * ks[i].v0);
            SE_ReportObjectSpeed(static_cast<int>(2 * i), ks[i].vm[0]);
            SE_ReportObjectSpeed(static_cast<int>(2 * i + 1), ks[i].v0);
        }
        for (int q = 0; q < 3 && (round > 0 || !at_once); q++)
            SE_StepDT(0.01);
        for (size_t i = 0; i < n; i++)
        {
            e0[i] = g_end[fmt("a%zu", i)];
            pv[i] = ks[i].v0;
        }
        SE_SetVariableInt("go", 1);
        double now = 0;
        size_t phase = 99;
        for (long f = 0; now < 60; f++)
        {
            double dt = sc.dts[static_cast<size_t>(f) % sc.dts.size()];
            size_t ph = std::min<size_t>(2, static_cast<size_t>(now / 2));
            if (ph != phase)
                for (size_t i = 0; i < n; i++)
                    SE_ReportObjectSpeed(static_cast<int>(2 * i), ks[i].vm[ph]);
            phase = ph;
            SE_StepDT(dt);
            vf::step();
            if (f == 0)
                SE_SetVariableInt("go", 0);
            now += dt;
            bool all = true;
            for (size_t i = 0; i < n; i++)
            {
                const Sync& k = ks[i];
                if (r.dead[i] || over[i])
                    continue;
                string how = fmt("frames of %s s, round %d, after %.3f s", sc.name.c_str(), round, now);
                if (SE_GetObjectState(static_cast<int>(2 * i), &m) != 0 || SE_GetObjectState(static_cast<int>(2 * i + 1), &a) != 0)
                {
                    r.fail(i, how, "no state");
                    continue;
                }
                vf::cmp();
                double ma = (m.x - S0) * k.dir, aa = (a.x - S0) * k.dir, vm = k.vm[ph], tol = k.tol > 0 ? k.tol : 1.0;
                double lm = k.dm - ma, la = k.da - aa;
                vf::state(fmt("%zu %.2f %.2f %.2f", i, lm, la, static_cast<double>(a.speed)));
                if (a.speed < -1e-4)
                    r.fail(i, how, fmt("drives backwards, %.3f m/s", a.speed));
                // the master stands: wait
                still[i] = vm == 0 ? still[i] + 1 : 0;
                if (still[i] > 2 && fabs(a.speed) > 1e-4 && (k.vf >= 0 || k.rel))
                    r.fail(i, how, fmt("drives %.3f m/s while the master stands", a.speed));
                if (k.vm[0] == k.vm[1] && k.vm[1] == k.vm[2] && !short_[i] && g_end[fmt("a%zu", i)] == e0[i])
                {
                    double id = ideal(k, now), slope = 0;
                    for (double x = now - 0.6; x < now + 0.6; x += 0.1)
                        if (x > 0 && ideal(k, x) >= 0 && ideal(k, x - 0.1) >= 0 && x > 0.1)
                            slope = std::max(slope, fabs(ideal(k, x) - ideal(k, x - 0.1)) / 0.1);
                    vf::cmp();
                    if (id >= 0 && fabs(a.speed - id) > 3 + 3 * slope * dt)
                        r.fail(i, how, fmt("speed %.3f, by constant accelerations it would be %.3f", a.speed, id));
                }
                // the last part of the way at the final speed, once the master drives constantly
                if (k.ss && now > 4.5 && g_end[fmt("a%zu", i)] == e0[i])
                {
                    double fin = k.fin(vm), sd = k.ss == 1 ? k.ssv * fin : k.ssv;
                    if ((la - tol < sd - fin * 0.5 || (lm - tol) / vm < sd / fin - 0.5) && fabs(a.speed - fin) > 1e-3)
                        r.fail(i, how, fmt("speed %.3f instead of %.3f in the steady state", a.speed, fin));
                }
                double tm = vm > 0 ? (lm - tol) / vm : 1e9;
                // no final speed: a constant acceleration can only take longer by stopping on the way
                if (k.vf < 0 && !k.rel && vm > 0 && tm > 0 && 2 * (la - tol) / tm < a.speed - 1e-6)
                    short_[i] = 1;
                if (g_end[fmt("a%zu", i)] > e0[i])
                {
                    over[i] = 1;
                    if (short_[i])
                        continue;
                    double fin = k.fin(vm);
                    if ((k.vf >= 0 || k.rel) && fabs(a.speed - fin) > 1e-4)
                        r.fail(i, how, fmt("ends with %.4f m/s, final speed is %.4f", a.speed, fin));
                    // the edge of the tolerance is where both meet
                    if (lm > tol + vm * dt + 1e-3 || lm < -vm * 2 * dt - 1e-3)
                        r.fail(i, how, fmt("ended with the master %.3f m from its destination", lm));
                    double slack = (std::max<double>(std::max(a.speed, pv[i]), 1) + 0) * 2 * dt + 0.1;
                    if (fabs(la) > tol + slack)
                        r.fail(i, how, fmt("the master is %.3f m, the actor %.3f m from its destination", lm, la));
                    double jump = fabs(a.speed - pv[i]);
                    if ((k.vf >= 0 || k.rel) && jump > 0.5 + 10 * dt)
                        r.fail(i, how, fmt("speed changes from %.3f to %.3f in the last frame", pv[i], a.speed));
                }
                else
                {
                    all = false;
                    if (lm < -2 * vm * dt - 1e-3)
                        r.fail(i, how, "not ended although the master passed its destination");
                }
                pv[i] = a.speed;
            }
            if (all)
                break;
        }
        for (size_t i = 0; i < n; i++)
            if (!r.dead[i] && !over[i])
                r.fail(i, fmt("frames of %s s, round %d", sc.name.c_str(), round), "not ended after 60 s");
    }
    for (size_t i = 0; i < n; i++)
        vf::eval();
    SE_Close();
}
int main(int argc, char** argv)
{
    vf::init(argc, argv, "d_sync");
    bool             T = vf::C().thorough();
    vector<vf::Case> cases;
    vector<Sync>     all;
    vector<vector<double>> hist;
    vector<double>         sp = T ? vector<double>{0, 5, 10, 20} : vector<double>{0, 10, 20};
    for (double a : sp)
        for (double b : sp)
            for (double c : vector<double>{8, 15})
                hist.push_back({a, b, c});
    for (double v : {8.0, 15.0, 25.0})
        hist.push_back({v, v, v});
    for (auto& h : hist)
        for (double da : {60.0, 150.0, 300.0})
            for (double v0 : {0.0, 8.0, 20.0})
                for (double vf : {-1.0, 0.0, 6.0, 15.0})
                {
                    Sync k;
                    k.vm = h, k.da = da, k.v0 = v0, k.vf = vf;
                    k.dm = 250;
                    k.dir = all.size() % 2 ? 1 : -1;
                    all.push_back(k);
                    if (vf < 6 || h[0] != h[1])
                        continue;
                    for (int ss = 1; ss < 4; ss++)
                    {
                        Sync q = k;
                        q.ss = ss, q.ssv = ss == 1 ? 1.5 : 20;
                        all.push_back(q);
                        q.dir = -q.dir;
                        all.push_back(q);
                    }
                    Sync q = k;
                    q.tol = 4;
                    all.push_back(q);
                    q = k, q.rel = 1, q.vf = 3;
                    all.push_back(q);
                    q = k, q.rel = 2, q.vf = 0.8;
                    all.push_back(q);
                }
    size_t ch = 36;
    for (size_t s = 0; s < SCHEDS.size(); s++)
        for (size_t i = 0; i < all.size(); i += ch)
            for (int once = 0; once < 2; once++)
            {
                vector<Sync> part(all.begin() + static_cast<long>(i), all.begin() + static_cast<long>(std::min(all.size(), i + ch)));
                string       name = fmt("%s-%zu-%zu", once ? "first" : "later", s, i / ch);
                cases.push_back({name, [=]() { vf::isolated([=]() { check(name, part, SCHEDS[s], once); }, 100); }});
            }
    vf::run(cases, 110);
    return vf::finish(string("master 250 m from its destination with every sequence of three speeds (") + (T ? "0, 5, 10, 20" : "0, 10, 20") +
                          "; then 8, 15; 2 s each, or constantly 8, 15, 25), actor 60, 150, 300 m from its own at 0, 8, 20 m/s, no final speed or 0, 6, 15 m/s, relative to the master (delta, factor), steady state by time, distance or position, tolerance default or 4 m, both sides of the road; started in the first frame or later, executed twice, 3 divisions of time",
                      {"arrival is compared within two frames of driving plus the tolerance, the speed on the way within 3 m/s plus 3 frames of its change",
                       "without final speed: only while a constant acceleration without stop can meet the time", "braking to a stop over more than half the way (done as hard as possible instead): only the arrival is compared"});
}
