// C01: storyboard element life cycle. C02: event priorities. C05 (domain conflicts) is d_domain.
#include "story.hpp"
using namespace story;

static P action(const std::string& n, int dom, int frames, const std::string& ent = "A", double speed = 60)
{
    P a       = mk(ACTION, n);
    a->dom    = dom;
    a->frames = frames;
    a->entity = ent;
    a->speed  = speed;
    return a;
}
static P event(const std::string& n, const std::string& var, int maxe, char prio, std::vector<P> acts)
{
    P e         = mk(EVENT, n, acts);
    e->start_var = var;
    e->max_exec = maxe;
    e->prio     = prio;
    return e;
}
static P group(const std::string& n, int maxe, std::vector<std::string> actors, std::vector<P> mans)
{
    P g         = mk(GROUP, n, mans);
    g->max_exec = maxe;
    g->actors   = actors;
    return g;
}
static P act(const std::string& n, const std::string& sv, const std::string& ev, std::vector<P> gs)
{
    P a          = mk(ACT, n, gs);
    a->start_var = sv;
    a->stop_var  = ev;
    return a;
}
static P board(std::vector<P> stories, const std::string& stop = "")
{
    P b        = mk(BOARD, "storyBoard", stories);
    b->stop_var = stop;
    return b;
}

static std::vector<Spec> lifecycle(bool deep_)
{
    std::vector<Spec> v;
    auto add = [&](const std::string& n, P root, std::vector<std::string> vars, int depth, std::vector<std::string> ents = {"A", "B"}, bool subsets = true)
    {
        Spec s;
        s.name     = n;
        s.root     = root;
        s.vars     = vars;
        s.depth    = depth;
        s.entities = ents;
        s.subsets  = subsets;
        v.push_back(s);
    };
    // 1. one event: repetition counts of the event and of its group, action duration, act stop trigger, storyboard stop trigger
    for (int me = 1; me <= 3; me++)
        for (int mg = 1; mg <= 3; mg++)
            for (int fr = 1; fr <= 3; fr++)
                for (int stop = 0; stop < 3; stop++)
                {
                    if (me > 1 && mg > 1)
                        continue;  // what a restarted group does to the execution count of its events is not specified
                    std::vector<std::string> vars = {"v1"};
                    if (stop)
                        vars.push_back("x");
                    P a = act("act", "", stop == 1 ? "x" : "", {group("mg", mg, {"A"}, {mk(MANEUVER, "m", {event("e", "v1", me, 'P', {action("a", LONG, fr)})})})});
                    add(fmt("one me%d mg%d fr%d stop%d", me, mg, fr, stop), board({mk(STORY, "s", {a})}, stop == 2 ? "x" : ""), vars, stop ? (deep_ ? 6 : 5) : (deep_ ? 11 : 9));
                }
    // 2. two events in one maneuver / two maneuvers / two groups / two acts / two stories: completion needs all of them
    for (int shape = 0; shape < 5; shape++)
        for (int f1 = 1; f1 <= 2; f1++)
            for (int f2 = 1; f2 <= 3; f2 += 2)
                for (int me = 1; me <= 2; me++)
                    for (int mg = 1; mg <= 2; mg++)
                    {
                        if (me > 1 && mg > 1)
                            continue;
                        P e1 = event("e1", "v1", me, 'P', {action("a", LONG, f1, "A")});
                        P e2 = event("e2", "v2", 1, 'P', {action("b", shape == 0 ? (f2 == 1 ? NONE : NONE) : LONG, shape == 0 ? 1 : f2, shape >= 2 ? "B" : "A")});
                        if (shape == 1)
                        {
                            e2->ch[0]->dom    = NONE;
                            e2->ch[0]->frames = 1;
                        }
                        if (shape <= 1 && f2 > 1)
                            continue;
                        std::vector<P> top;
                        if (shape == 0)
                            top = {mk(STORY, "s", {act("act", "", "", {group("mg", mg, {"A"}, {mk(MANEUVER, "m", {e1, e2})})})})};
                        if (shape == 1)
                            top = {mk(STORY, "s", {act("act", "", "", {group("mg", mg, {"A"}, {mk(MANEUVER, "m1", {e1}), mk(MANEUVER, "m2", {e2})})})})};
                        if (shape == 2)
                            top = {mk(STORY, "s", {act("act", "", "", {group("g1", mg, {"A"}, {mk(MANEUVER, "m1", {e1})}), group("g2", 1, {"B"}, {mk(MANEUVER, "m2", {e2})})})})};
                        if (shape == 3)
                            top = {mk(STORY, "s",
                                      {act("act1", "", "", {group("g1", mg, {"A"}, {mk(MANEUVER, "m1", {e1})})}), act("act2", "", "", {group("g2", 1, {"B"}, {mk(MANEUVER, "m2", {e2})})})})};
                        if (shape == 4)
                            top = {mk(STORY, "s1", {act("act1", "", "", {group("g1", mg, {"A"}, {mk(MANEUVER, "m1", {e1})})})}),
                                   mk(STORY, "s2", {act("act2", "", "", {group("g2", 1, {"B"}, {mk(MANEUVER, "m2", {e2})})})})};
                        add(fmt("two shape%d f%d%d me%d mg%d", shape, f1, f2, me, mg), board(top), {"v1", "v2"}, deep_ ? 6 : 5);
                    }
    // 3. act start and stop triggers, two acts, stop of one act must leave the other alone
    for (int own = 0; own < 2; own++)
        for (int f1 = 2; f1 <= 3; f1++)
            for (int me = 1; me <= 2; me++)
            {
                P e1 = event("e1", "v1", me, 'P', {action("a", LONG, f1, "A")});
                P e2 = event("e2", own ? "v2" : "v1", 1, 'P', {action("b", LONG, 2, "B")});
                add(fmt("acts own%d f%d me%d", own, f1, me),
                    board({mk(STORY, "s",
                              {act("act1", "s1", "x1", {group("g1", 1, {"A"}, {mk(MANEUVER, "m1", {e1})})}), act("act2", "", "", {group("g2", 1, {"B"}, {mk(MANEUVER, "m2", {e2})})})})}),
                    own ? std::vector<std::string>{"v1", "s1", "x1", "v2"} : std::vector<std::string>{"v1", "s1", "x1"},
                    own ? (deep_ ? 5 : 4) : (deep_ ? 5 : 4),
                    {"A", "B"},
                    !own);
            }
    // 3b. a stop trigger of the act or of the storyboard in every combination of states of two or three events below it
    for (int shape = 0; shape < 6; shape++)
        for (int stop = 1; stop <= 2; stop++)
            for (int me = 1; me <= 2; me++)
            {
                P                        e1 = event("e1", "v1", me, 'P', {action("a", LONG, 3, "A")});
                P                        e2 = event("e2", "v2", 1, 'P', {action("b", LONG, 3, "B")});
                P                        e3 = event("e3", "v2", 1, 'P', {action("c", LAT, 3, "C")});
                e3->ch[0]->lane             = -1;
                std::string              sx = stop == 1 ? "x" : "";
                std::vector<P>           top;
                std::vector<std::string> both = {"A", "B"};
                auto one = [&](const std::string& n, const std::string& ent, P e) { return group("g" + n, 1, {ent}, {mk(MANEUVER, "m" + n, {e})}); };
                auto mixed = [&](P x) { x->ch[0]->dom = NONE; x->ch[0]->frames = 1; x->ch[0]->entity = ""; };
                if (shape == 0)
                {
                    mixed(e2);
                    top = {mk(STORY, "s", {act("act", "", sx, {group("mg", 1, {"A"}, {mk(MANEUVER, "m", {e1, e2})})})})};
                }
                if (shape == 1)
                {
                    mixed(e2);
                    top = {mk(STORY, "s", {act("act", "", sx, {group("mg", 1, {"A"}, {mk(MANEUVER, "m", {e2, e1})})})})};
                }
                if (shape == 2)
                {
                    mixed(e2);
                    top = {mk(STORY, "s", {act("act", "", sx, {group("mg", 1, {"A"}, {mk(MANEUVER, "m2", {e2}), mk(MANEUVER, "m1", {e1})})})})};
                }
                if (shape == 3)
                    top = {mk(STORY, "s", {act("act", "", sx, {one("1", "A", e1), one("2", "B", e2)}), act("act3", "", "", {one("3", "C", e3)})})};
                if (shape == 4)
                    top = {mk(STORY, "s", {act("act1", "", sx, {one("1", "A", e1)}), act("act2", "v1", sx, {one("2", "B", e2)})})};
                if (shape == 5)
                    top = {mk(STORY, "s1", {act("act1", "", sx, {one("1", "A", e1)})}), mk(STORY, "s2", {act("act2", "v1", "", {one("2", "B", e2)})})};
                add(fmt("stop shape%d by%d me%d", shape, stop, me), board(top, stop == 2 ? "x" : ""), {"v1", "v2", "x"}, deep_ ? 5 : 4, {"A", "B", "C"});
            }
    // 4. several actions in one event, several actors in one group: the event ends when its last action ends
    for (int f1 = 1; f1 <= 3; f1++)
        for (int f2 = 1; f2 <= 3; f2++)
            for (int me = 1; me <= 2; me++)
            {
                P a = action("a", LONG, f1, "A"), b = action("b", LAT, f2, "A"), c = action("c", NONE, 1, "");
                b->lane = -1;
                if (me == 2)
                {
                    // a repeated lane change has nothing left to do: repeat only the other two
                    if (f2 > 1)
                        continue;
                    add(fmt("multi f%d me2", f1), board({mk(STORY, "s", {act("act", "", "x", {group("mg", 1, {"A"}, {mk(MANEUVER, "m", {event("e", "v1", 2, 'P', {a, c})})})})})}), {"v1", "x"}, deep_ ? 7 : 5, {"A"});
                }
                else
                    add(fmt("multi f%d%d", f1, f2), board({mk(STORY, "s", {act("act", "", "x", {group("mg", 1, {"A"}, {mk(MANEUVER, "m", {event("e", "v1", 1, 'P', {a, b, c})})})})})}), {"v1", "x"}, deep_ ? 6 : 5, {"A"});
            }
    // 5. events without start trigger run as soon as their maneuver does, also when repeated and next to triggered ones
    for (int me = 1; me <= 3; me++)
        for (int mg = 1; mg <= 2; mg++)
            for (int f1 = 1; f1 <= 3; f1++)
                for (int n = 0; n < 3; n++)
                {
                    if (me > 1 && mg > 1)
                        continue;
                    P              e1 = event("e1", "", me, 'P', {action("a", LONG, f1, "A")});
                    P              e2 = event("e2", "v1", 1, 'P', {action("c", NONE, 1, "")});
                    std::vector<P> es = n == 0 ? std::vector<P>{e1} : n == 1 ? std::vector<P>{e1, e2} : std::vector<P>{e2, e1};
                    add(fmt("notrig%d me%d mg%d f%d", n, me, mg, f1),
                        board({mk(STORY, "s", {act("act", "s1", "x", {group("mg", mg, {"A"}, {mk(MANEUVER, "m", es)})})})}),
                        {"s1", "v1", "x"},
                        deep_ ? 5 : 4,
                        {"A"});
                }
    // 6. several actors: each entity has its own instance of the action, the event ends with the last of them
    for (int shape = 0; shape < 3; shape++)
        for (int me = 1; me <= 2; me++)
            for (int mg = 1; mg <= 2; mg++)
            {
                if (me > 1 && mg > 1)
                    continue;
                P a = action("a", LONG, 2, "A"), a2 = action("a", LONG, 2, "B"), b = action("b", NONE, 1, "");
                a2->twin = true;
                P              e1 = event("e1", "v1", me, 'P', {a, a2});
                P              e2 = event("e2", "v2", 1, 'P', {b});
                std::vector<P> ms = shape == 0   ? std::vector<P>{mk(MANEUVER, "m1", {e1, e2})}
                                    : shape == 1 ? std::vector<P>{mk(MANEUVER, "m1", {e1}), mk(MANEUVER, "m2", {e2})}
                                                 : std::vector<P>{mk(MANEUVER, "m2", {e2}), mk(MANEUVER, "m1", {e1})};
                add(fmt("actors shape%d me%d mg%d", shape, me, mg), board({mk(STORY, "s", {act("act", "", "x", {group("mg", mg, {"A", "B"}, ms)})})}), {"v1", "v2", "x"}, deep_ ? 5 : 4);
            }
    return v;
}

static std::vector<Spec> priorities(bool deep_)
{
    std::vector<Spec> v;
    const char        pr[] = {'O', 'S', 'P'};
    // two events on different domains/entities of one maneuver; and a third event in a sibling maneuver which must never be affected
    for (char p1 : pr)
        for (char p2 : pr)
            for (int f1 = 1; f1 <= 3; f1++)
                for (int f2 = 1; f2 <= 2; f2++)
                    for (int m1 = 1; m1 <= 2; m1++)
                        for (int sib = 0; sib < 2; sib++)
                        {
                            Spec s;
                            P    e1 = event("e1", "v1", m1, p1, {action("a", LONG, f1, "A")});
                            P    e2 = event("e2", "v2", 2, p2, {action("b", NONE, 1, "")});
                            if (f2 == 2)
                            {
                                P b     = action("b", LAT, 3, "A");
                                b->lane = -1;
                                e2      = event("e2", "v2", 1, p2, {b});
                            }
                            std::vector<P> gs = {group("mg", 1, {"A"}, {mk(MANEUVER, "m1", {e1, e2})})};
                            s.vars            = {"v1", "v2"};
                            if (sib)
                            {
                                // fires together with v1
                                gs.push_back(group("g2", 1, {"B"}, {mk(MANEUVER, "m2", {event("e3", "v1", 1, 'P', {action("c", LONG, 4, "B")})})}));
                                if (f1 == 3 && !deep_)
                                    continue;
                            }
                            s.root     = board({mk(STORY, "s", {act("act", "", "", gs)})});
                            s.name     = fmt("prio %c%c f%d%d m%d sib%d", p1, p2, f1, f2, m1, sib);
                            s.entities = {"A", "B"};
                            s.depth    = deep_ ? 6 : 5;
                            v.push_back(s);
                        }
    // an event with several running actions, on one or two entities, is overridden as a whole, and may run again; a sibling maneuver of the same group is left alone
    for (char p1 : pr)
        for (char p2 : pr)
            for (int m1 = 1; m1 <= 2; m1++)
                for (int kind = 0; kind < 4; kind++)
                    for (int order = 0; order < 2; order++)
                    {
                        P a = action("a", LONG, 3, "A"), a2 = action("a", LONG, 3, "B"), l = action("l", LAT, 4, "A");
                        a2->twin = true;
                        l->lane  = -1;
                        if (m1 == 2 && kind == 1)
                            continue;  // a repeated lane change has nothing left to do
                        P e1 = event("e1", "v1", m1, p1, kind == 1 ? std::vector<P>{a, l} : kind == 2 ? std::vector<P>{action("n", NONE, 1, ""), a, a2} : std::vector<P>{a, a2});
                        if (kind == 1)
                            a->entity = "A";
                        P              e2 = event("e2", "v2", 2, p2, {action("c", NONE, 1, "")});
                        std::vector<P> es = order ? std::vector<P>{e2, e1} : std::vector<P>{e1, e2};
                        std::vector<P> ms = {mk(MANEUVER, "m1", es)};
                        if (kind == 3)
                        {
                            P d       = action("d", LAT, 4, "A");
                            P d2      = action("d", LAT, 4, "B");
                            d->lane   = -1;
                            d2->lane  = -1;
                            d2->twin  = true;
                            ms.insert(ms.begin(), mk(MANEUVER, "m0", {event("e0", "v1", 1, 'P', {d, d2})}));
                            ms.push_back(mk(MANEUVER, "m2", {event("e3", "v2", 1, 'S', {action("g", NONE, 1, "")})}));
                        }
                        Spec s;
                        s.root     = board({mk(STORY, "s", {act("act", "", "", {group("mg", 1, kind == 1 ? std::vector<std::string>{"A"} : std::vector<std::string>{"A", "B"}, ms)})})});
                        s.name     = fmt("priomulti %c%c m%d kind%d order%d", p1, p2, m1, kind, order);
                        s.entities = {"A", "B"};
                        s.vars     = {"v1", "v2"};
                        s.depth    = deep_ ? 5 : 4;
                        v.push_back(s);
                    }
    // three events in one maneuver, every combination of priorities
    for (char p1 : pr)
        for (char p2 : pr)
            for (char p3 : pr)
            {
                Spec s;
                P    b     = action("b", LAT, 2, "A");
                b->lane    = -1;
                s.root     = board({mk(STORY, "s",
                                   {act("act", "", "",
                                        {group("mg", 1, {"A"}, {mk(MANEUVER, "m", {event("e1", "v1", 1, p1, {action("a", LONG, 3, "A")}), event("e2", "v2", 1, p2, {b}), event("e3", "v3", 2, p3, {action("c", NONE, 1, "")})})})})})});
                s.name     = fmt("prio3 %c%c%c", p1, p2, p3);
                s.entities = {"A"};
                s.vars     = {"v1", "v2", "v3"};
                s.depth    = deep_ ? 4 : 3;
                v.push_back(s);
            }
    return v;
}

struct Kind_
{
    const char* name;
    int         dom;
    std::string xml;     // inside PrivateAction
    const char* init;    // name of the init action
};
static std::vector<Kind_> kinds()
{
    std::vector<Kind_> k;
    k.push_back({"speed", LONG, scn::speed_action(60, "linear", "time", 100), "LongitudinalAction"});
    k.push_back({"speedprofile", LONG,
                 "<LongitudinalAction><SpeedProfileAction followingMode=\"position\"><SpeedProfileEntry speed=\"60\" time=\"100\"/></SpeedProfileAction></LongitudinalAction>",
                 "LongitudinalAction"});
    k.push_back({"longdist", LONG,
                 "<LongitudinalAction><LongitudinalDistanceAction entityRef=\"C\" distance=\"60\" freespace=\"false\" continuous=\"true\" displacement=\"trailingReferencedEntity\">"
                 "<DynamicConstraints maxAcceleration=\"1\" maxDeceleration=\"1\" maxSpeed=\"60\"/></LongitudinalDistanceAction></LongitudinalAction>",
                 "LongitudinalAction"});
    k.push_back({"lanechange", LAT, scn::lane_change(-1, "linear", "time", 100), "LateralAction"});
    k.push_back({"laneoffset", LAT,
                 "<LateralAction><LaneOffsetAction continuous=\"true\"><LaneOffsetActionDynamics maxLateralAcc=\"0.1\" dynamicsShape=\"sinusoidal\"/><LaneOffsetTarget>"
                 "<AbsoluteTargetLaneOffset value=\"1.0\"/></LaneOffsetTarget></LaneOffsetAction></LateralAction>",
                 "LateralAction"});
    for (int timed = 0; timed < 2; timed++)
        k.push_back({timed ? "timedtrajectory" : "trajectory", timed ? (LONG | LAT) : LAT,
                     fmt("<RoutingAction><FollowTrajectoryAction><TrajectoryRef><Trajectory name=\"t\" closed=\"false\"><Shape><Polyline>"
                         "<Vertex %s><Position><WorldPosition x=\"0\" y=\"-4\" h=\"0\"/></Position></Vertex><Vertex %s><Position><WorldPosition x=\"390\" y=\"-4\" h=\"0\"/></Position></Vertex>"
                         "</Polyline></Shape></Trajectory></TrajectoryRef><TimeReference>%s</TimeReference><TrajectoryFollowingMode followingMode=\"position\"/></FollowTrajectoryAction></RoutingAction>",
                         timed ? "time=\"0\"" : "",
                         timed ? "time=\"30\"" : "",
                         timed ? "<Timing domainAbsoluteRelative=\"relative\" scale=\"1\" offset=\"0\"/>" : "<None/>"),
                     "RoutingAction"});
    // lights share a lamp: indicators with each other and the warning lights, fog lights with front/rear fog lights
    const char* lights[] = {"daytimeRunningLights", "indicatorLeft", "indicatorRight", "warningLights", "fogLights", "fogLightsFront", "fogLightsRear"};
    const int   lamps[]  = {16, 32, 32, 32, 64 | 128, 64, 128};
    for (int i = 0; i < 7; i++)
        k.push_back({lights[i], lamps[i],
                     std::string("<AppearanceAction><LightStateAction transitionTime=\"100\"><LightType><VehicleLight vehicleLightType=\"") + lights[i] +
                         "\"/></LightType><LightState mode=\"on\" luminousIntensity=\"100\"/></LightStateAction></AppearanceAction>",
                     "AppearanceAction"});
    return k;
}

static std::vector<Spec> domains(bool deep_)
{
    std::vector<Spec> v;
    auto              ks = kinds();
    auto mkact = [&](const std::string& n, const Kind_& k, const std::string& ent)
    {
        P a    = action(n, k.dom, 9999, ent);
        a->body = scn::pa(k.xml);
        return a;
    };
    // all ordered pairs of action kinds, in one maneuver / two groups / two stories, same or different entity, and with a bystander
    for (size_t i = 0; i < ks.size(); i++)
        for (size_t j = 0; j < ks.size(); j++)
            for (int shape = 0; shape < 4; shape++)
                for (int same = 0; same < 2; same++)
                {
                    if (shape == 0 && !same)
                        continue;
                    if (shape == 3 && !same)
                        continue;
                    Spec s;
                    std::string eb = same ? "A" : "B";
                    P    e1 = event("e1", "v1", 1, 'P', {mkact("x", ks[i], "A")});
                    P    e2 = event("e2", "v2", 1, 'P', {mkact("y", ks[j], eb)});
                    std::vector<P> top;
                    if (shape == 0)
                        top = {mk(STORY, "s", {act("act", "", "", {group("mg", 1, {"A"}, {mk(MANEUVER, "m", {e1, e2})})})})};
                    if (shape == 1)
                        top = {mk(STORY, "s", {act("act", "", "", {group("g1", 1, {"A"}, {mk(MANEUVER, "m1", {e1})}), group("g2", 1, {eb}, {mk(MANEUVER, "m2", {e2})})})})};
                    if (shape == 2)
                        top = {mk(STORY, "s1", {act("act1", "", "", {group("g1", 1, {"A"}, {mk(MANEUVER, "m1", {e1})})})}),
                               mk(STORY, "s2", {act("act2", "", "", {group("g2", 1, {eb}, {mk(MANEUVER, "m2", {e2})})})})};
                    if (shape == 3)
                    {
                        // two actors in the group of e2: B's instance must not touch A's actions, A's must replace A's
                        P y2    = mkact("y", ks[j], "B");
                        y2->twin = true;
                        e2->ch.push_back(y2);
                        top = {mk(STORY, "s1", {act("act1", "", "", {group("g1", 1, {"A"}, {mk(MANEUVER, "m1", {e1})}), group("g2", 1, {"A", "B"}, {mk(MANEUVER, "m2", {e2})})})})};
                    }
                    s.root     = board(top);
                    s.name     = fmt("pair %s %s shape%d same%d", ks[i].name, ks[j].name, shape, same);
                    s.entities = {"A", "B", "C"};
                    s.vars     = {"v1", "v2"};
                    s.depth    = deep_ ? 4 : (shape == 0 ? 3 : 2);
                    v.push_back(s);
                }
    // three running actions of different domains, a fourth replaces exactly the conflicting ones
    for (size_t i = 0; i < ks.size(); i++)
    {
        Spec s;
        P    e1 = event("e1", "v1", 1, 'P', {mkact("x1", ks[0], "A"), mkact("x2", ks[3], "A"), mkact("x3", ks[7], "A"), mkact("x4", ks[8], "A")});
        P    e2 = event("e2", "v2", 2, 'P', {mkact("y", ks[i], "A")});
        P    e3 = event("e3", "v1", 1, 'P', {mkact("z1", ks[0], "B"), mkact("z2", ks[3], "B"), mkact("z3", ks[7], "B")});
        // a global action in between has no part in conflicts
        e1->ch.insert(e1->ch.begin() + (i % 3), action("n", NONE, 1, ""));
        if (i % 2)
            e2->ch.insert(e2->ch.begin(), action("n2", NONE, 1, ""));
        s.root  = board({mk(STORY, "s", {act("act", "", "", {group("g1", 1, {"A"}, {mk(MANEUVER, "m1", {e1, e2})}), group("g2", 1, {"B"}, {mk(MANEUVER, "m2", {e3})})})})});
        s.name  = fmt("mix %s", ks[i].name);
        s.entities = {"A", "B", "C"};
        s.vars     = {"v1", "v2"};
        s.depth    = deep_ ? 5 : 4;
        v.push_back(s);
    }
    // a running init action is replaced by the first conflicting storyboard action, and only by that
    for (size_t i = 0; i < ks.size(); i++)
        for (size_t j = 0; j < ks.size(); j++)
            for (int same = 0; same < 2; same++)
            {
                Spec        s;
                std::string eb = same ? "A" : "B";
                P           e2 = event("e2", "v2", 1, 'P', {mkact("y", ks[j], eb)});
                s.root         = board({mk(STORY, "s", {act("act", "", "", {group("mg", 1, {eb}, {mk(MANEUVER, "m", {e2})})})})});
                s.name         = fmt("init %s %s same%d", ks[i].name, ks[j].name, same);
                s.entities     = {"A", "B", "C"};
                s.vars         = {"v2"};
                s.init_action  = {ks[i].xml};
                s.init_dom     = {ks[i].dom};
                s.init_name    = {ks[i].init};
                s.depth        = 3;
                v.push_back(s);
            }
    return v;
}

int main(int argc, char** argv)
{
    std::string prop = "C01";
    for (int i = 1; i + 1 < argc; i++)
        if (std::string(argv[i]) == "--prop")
            prop = argv[i + 1];
    vf::init(argc, argv, prop.c_str());
    std::vector<vf::Case> cases;
    for (auto& s : prop == "C01" ? lifecycle(vf::C().thorough()) : prop == "C02" ? priorities(vf::C().thorough()) : domains(vf::C().thorough()))
        cases.push_back({s.name, [s]() { check(s); }});
    vf::run(cases, 200);
    return vf::finish(prop == "C01" ? "every storyboard of the listed shapes (1-2 stories/acts/groups/maneuvers, 1-3 actions, execution counts 1-3, durations 1-3 frames), "
                                      "every sequence of trigger inputs (all subsets of 1-4 trigger variables per frame) of length 3-11"
                      : prop == "C05"
                          ? "all ordered pairs of 14 action kinds (3 longitudinal, 3 lateral, 1 both, 7 lights) x 4 storyboard shapes x same/other entity, init actions, 4+1 mixes; all trigger sequences of length 2-5"
                                    : "2-3 events of one maneuver, all 9/27 priority combinations, durations 1-4 frames, repetition, all sequences of trigger subsets of length 3-6",
                      {"fixed frame time 0.125 s", "triggers are level conditions on scenario variables (conditions themselves: C03, C04)"});
}
