// C18: calls naming things that do not exist are refused and change nothing.
// C19: a scenario runs the same whatever was run before it in the process, and the same every time.
#include "scn.hpp"
#include "esminiRMLib.hpp"
#include <cstring>
#include <map>
#include <climits>
#include <sstream>
#include <fstream>

using scn::fmt;
using std::string;
using std::vector;

// ------------------------------------------------------------------------------------------------ observation
static void add(string& s, double v)
{
    s += fmt("%.17g,", v);
}
static string observe_object(int id)
{
    string                 s;
    SE_ScenarioObjectState o;
    memset(&o, 0, sizeof(o));
    int r = SE_GetObjectState(id, &o);
    s += fmt("%d:%d:%d:%d:%d:%d:", id, r, o.model_id, o.ctrl_type, static_cast<int>(o.roadId), static_cast<int>(o.junctionId));
    for (double v : {o.timestamp, o.x, o.y, o.z, o.h, o.p, o.r, o.speed, o.t, o.s, o.laneOffset, o.centerOffsetX, o.centerOffsetY, o.centerOffsetZ, o.width, o.length, o.height, o.wheel_angle, o.wheel_rot, static_cast<double>(o.laneId), static_cast<double>(o.objectType), static_cast<double>(o.objectCategory), static_cast<double>(o.visibilityMask)})
        add(s, v);
    double a = 0, b = 0, c = 0;
    SE_GetObjectVelocityGlobalXYZ(id, &a, &b, &c);
    add(s, a), add(s, b), add(s, c);
    SE_GetObjectAccelerationGlobalXYZ(id, &a, &b, &c);
    add(s, a), add(s, b), add(s, c);
    SE_GetObjectAngularVelocity(id, &a, &b, &c);
    add(s, a), add(s, b), add(s, c);
    SE_GetObjectAngularAcceleration(id, &a, &b, &c);
    add(s, a), add(s, b), add(s, c);
    add(s, SE_GetObjectOdometer(id));
    s += fmt("col%d;", SE_GetObjectNumberOfCollisions(id));
    const char* n = SE_GetObjectName(id);
    s += n ? n : "?";
    SE_OverrideActionList ol;
    memset(&ol, 0, sizeof(ol));
    SE_GetOverrideActionStatus(id, &ol);
    add(s, ol.brake.active), add(s, ol.throttle.active), add(s, ol.throttle.value), add(s, ol.gear.number);
    s += fmt("route%d,%d;\n", SE_GetObjectRouteStatus(id), SE_GetNumberOfRoutePoints(id));
    return s;
}
static string observe()
{
    string s = fmt("t=%.17g n=%d q=%d\n", SE_GetSimulationTime(), SE_GetNumberOfObjects(), SE_GetQuitFlag());
    for (int i = 0; i < SE_GetNumberOfObjects(); i++)
        s += observe_object(SE_GetId(i));
    for (int i = 0; i < SE_GetNumberOfVariables(); i++)
    {
        int         type = 0;
        const char* n    = SE_GetVariableName(i, &type);
        double      d    = 0;
        int         iv   = 0;
        bool        b    = false;
        if (SE_GetVariableDouble(n, &d) == 0 || SE_GetVariableInt(n, &iv) == 0 || SE_GetVariableBool(n, &b) == 0)
            s += fmt("%s=%g/%d/%d ", n, d, iv, b);
    }
    for (int i = 0; i < SE_GetNumberOfParameters(); i++)
    {
        int         type = 0;
        const char* n    = SE_GetParameterName(i, &type);
        double      d    = 0;
        if (SE_GetParameterDouble(n, &d) == 0)
            s += fmt("%s=%g ", n, d);
    }
    return s;
}
static string first_diff(const string& a, const string& b)
{
    size_t i = 0;
    while (i < a.size() && i < b.size() && a[i] == b[i])
        i++;
    size_t k = i > 60 ? i - 60 : 0;
    return "..." + a.substr(k, 120) + " <> ..." + b.substr(k, 120);
}

// ------------------------------------------------------------------------------------------------ C18
static string sign_road()
{
    string r = scn::straight_road(300, 2, 2);
    string sg =
        "<signals><signal s=\"50\" t=\"-8\" id=\"1\" name=\"s1\" dynamic=\"no\" orientation=\"+\" zOffset=\"1\" type=\"274\" subtype=\"50\" country=\"de\" value=\"50\" height=\"1\" width=\"1\">"
        "<validity fromLane=\"-2\" toLane=\"-1\"/></signal><signal s=\"80\" t=\"8\" id=\"2\" name=\"s2\" dynamic=\"no\" orientation=\"-\" zOffset=\"1\" type=\"274\" subtype=\"60\" country=\"de\" "
        "value=\"60\" height=\"1\" width=\"1\"/></signals>";
    r.insert(r.rfind("</road>"), sg);
    return r;
}
static string world_xml()
{
    scn::write_file("r.xodr", scn::odr(sign_road()));
    string ents = scn::vehicle("A") + scn::vehicle("B") + scn::vehicle("C");
    string init = scn::init_private("A", {scn::teleport(scn::lane_pos(1, -1, 10)), scn::speed_action(10)}) +
                  scn::init_private("B", {scn::teleport(scn::lane_pos(1, -2, 40)), scn::speed_action(5)}) +
                  scn::init_private("C", {scn::teleport(scn::lane_pos(1, 1, 90)), scn::speed_action(3)});
    return scn::xosc("r.xodr", ents, init, "", "<StopTrigger/>", scn::var_decl("V", "double", "1"), "<ParameterDeclaration name=\"P\" parameterType=\"double\" value=\"2\"/>");
}

static int  g_deleted = -1, g_good = 0;
static int  neg(int r) { return r < 0; }
static int  none(const char* s) { return s == nullptr || *s == 0; }

struct Call
{
    string                   name;
    char                     kind;  // o object id, r road id, h position handle, others: index of their own range, given in `bad`
    std::function<int(int)>  f;     // performs the call, returns nonzero if the call reported the refusal
    vector<int>              bad;   // for kinds other than o, r, h
    bool                     needs_running = false;  // the other arguments are only valid in a running scenario
};

static SE_ScenarioObjectState st_;
static double                 d_[6];

static vector<Call> calls()
{
    vector<Call> v;
    auto         o = [&](const string& n, std::function<int(int)> f) { v.push_back({n, 'o', f, {}}); };
    o("SE_DeleteObject", [](int i) { return neg(SE_DeleteObject(i)); });
    o("SE_ReportObjectPos", [](int i) { return neg(SE_ReportObjectPos(i, 20, -2, 0, 0, 0, 0)); });
    o("SE_ReportObjectPosMode", [](int i) { return neg(SE_ReportObjectPosMode(i, 20, -2, 0, 0, 0, 0, 0)); });
    o("SE_ReportObjectPosXYH", [](int i) { return neg(SE_ReportObjectPosXYH(i, 20, -2, 0)); });
    o("SE_ReportObjectRoadPos", [](int i) { return neg(SE_ReportObjectRoadPos(i, 1, -1, 0, 30)); });
    o("SE_ReportObjectSpeed", [](int i) { return neg(SE_ReportObjectSpeed(i, 17)); });
    o("SE_ReportObjectLateralPosition", [](int i) { return neg(SE_ReportObjectLateralPosition(i, 1)); });
    o("SE_ReportObjectLateralLanePosition", [](int i) { return neg(SE_ReportObjectLateralLanePosition(i, -1, 0.5)); });
    o("SE_ReportObjectVel", [](int i) { return neg(SE_ReportObjectVel(i, 1, 2, 3)); });
    o("SE_ReportObjectAngularVel", [](int i) { return neg(SE_ReportObjectAngularVel(i, 1, 2, 3)); });
    o("SE_ReportObjectAcc", [](int i) { return neg(SE_ReportObjectAcc(i, 1, 2, 3)); });
    o("SE_ReportObjectAngularAcc", [](int i) { return neg(SE_ReportObjectAngularAcc(i, 1, 2, 3)); });
    o("SE_ReportObjectWheelStatus", [](int i) { return neg(SE_ReportObjectWheelStatus(i, 1, 0.2)); });
    o("SE_SetSnapLaneTypes", [](int i) { return neg(SE_SetSnapLaneTypes(i, 2)); });
    o("SE_SetLockOnLane", [](int i) { return neg(SE_SetLockOnLane(i, true)); });
    o("SE_SetObjectPositionMode", [](int i) { SE_SetObjectPositionMode(i, SE_SET, 0); return 1; });
    o("SE_SetObjectPositionModeDefault", [](int i) { SE_SetObjectPositionModeDefault(i, SE_SET); return 1; });
    o("SE_GetObjectState", [](int i) { return neg(SE_GetObjectState(i, &st_)); });
    o("SE_GetObjectLightState", [](int i) { SE_LightState l; return neg(SE_GetObjectLightState(i, static_cast<SE_VehicleLightType>(0), &l)); });
    o("SE_GetObjectRouteStatus", [](int i) { return SE_GetObjectRouteStatus(i) <= 0; });
    o("SE_GetObjectInLaneType", [](int i) { SE_GetObjectInLaneType(i); return 1; });
    o("SE_ObjectCanChangeLanes", [](int i) { return SE_ObjectCanChangeLanes(i) != 0; });
    o("SE_GetOverrideActionStatus", [](int i) { SE_OverrideActionList l; return neg(SE_GetOverrideActionStatus(i, &l)); });
    o("SE_GetObjectTypeName", [](int i) { return none(SE_GetObjectTypeName(i)); });
    o("SE_GetObjectName", [](int i) { return none(SE_GetObjectName(i)); });
    o("SE_GetObjectModelFileName", [](int i) { return none(SE_GetObjectModelFileName(i)); });
    o("SE_ObjectHasGhost", [](int i) { return SE_ObjectHasGhost(i) <= 0; });
    o("SE_GetObjectGhostId", [](int i) { return neg(SE_GetObjectGhostId(i)); });
    o("SE_GetObjectGhostState", [](int i) { return neg(SE_GetObjectGhostState(i, &st_)); });
    o("SE_GetObjectNumberOfCollisions", [](int i) { return SE_GetObjectNumberOfCollisions(i) <= 0; });
    o("SE_GetObjectCollision", [](int i) { return neg(SE_GetObjectCollision(i, 0)); });
    o("SE_GetObjectOdometer", [](int i) { double d = SE_GetObjectOdometer(i); return d == 0.0 || std::isnan(d); });
    o("SE_GetObjectVelocityGlobalXYZ", [](int i) { return neg(SE_GetObjectVelocityGlobalXYZ(i, d_, d_ + 1, d_ + 2)); });
    o("SE_GetObjectAngularVelocity", [](int i) { return neg(SE_GetObjectAngularVelocity(i, d_, d_ + 1, d_ + 2)); });
    o("SE_GetObjectAngularAcceleration", [](int i) { return neg(SE_GetObjectAngularAcceleration(i, d_, d_ + 1, d_ + 2)); });
    o("SE_GetObjectAcceleration", [](int i) { double d = SE_GetObjectAcceleration(i); return d <= 0.0 || std::isnan(d); });
    o("SE_GetObjectAccelerationGlobalXYZ", [](int i) { return neg(SE_GetObjectAccelerationGlobalXYZ(i, d_, d_ + 1, d_ + 2)); });
    o("SE_GetObjectAccelerationLocalLatLong", [](int i) { return neg(SE_GetObjectAccelerationLocalLatLong(i, d_, d_ + 1)); });
    o("SE_GetObjectNumberOfWheels", [](int i) { return SE_GetObjectNumberOfWheels(i) <= 0; });
    o("SE_GetObjectWheelData", [](int i) { SE_WheelData w; return neg(SE_GetObjectWheelData(i, 0, &w)); });
    o("SE_GetRoadInfoAtDistance", [](int i) { SE_RoadInfo r; return neg(SE_GetRoadInfoAtDistance(i, 10, &r, 0, true)); });
    o("SE_GetRoadInfoAlongRoute", [](int i) { SE_RoadInfo r; return neg(SE_GetRoadInfoAlongRoute(i, 10, &r, 0, true)); });
    o("SE_GetRoadInfoAlongGhostTrail", [](int i) { SE_RoadInfo r; return neg(SE_GetRoadInfoAlongGhostTrail(i, 10, &r, d_, d_ + 1)); });
    o("SE_GetRoadInfoGhostTrailTime", [](int i) { SE_RoadInfo r; return neg(SE_GetRoadInfoGhostTrailTime(i, 1, &r, d_)); });
    o("SE_GetDistanceToObject-a", [](int i) { SE_PositionDiff p; return neg(SE_GetDistanceToObject(i, g_good, false, &p)); });
    o("SE_GetDistanceToObject-b", [](int i) { SE_PositionDiff p; return neg(SE_GetDistanceToObject(g_good, i, false, &p)); });
    o("SE_SimpleGetDistanceToObject-a", [](int i) { return neg(SE_SimpleGetDistanceToObject(i, g_good, static_cast<SE_RelativeDistanceType>(1), 100, d_, d_ + 1)); });
    o("SE_SimpleGetDistanceToObject-b", [](int i) { return neg(SE_SimpleGetDistanceToObject(g_good, i, static_cast<SE_RelativeDistanceType>(1), 100, d_, d_ + 1)); });
    o("SE_GetTimeToCollision-a", [](int i) { return neg(SE_GetTimeToCollision(i, g_good, 0, static_cast<SE_RelativeDistanceType>(1), false, d_)); });
    o("SE_GetTimeToCollision-b", [](int i) { return neg(SE_GetTimeToCollision(g_good, i, 0, static_cast<SE_RelativeDistanceType>(1), false, d_)); });
    o("SE_ViewSensorData", [](int i) { SE_ViewSensorData(i); return 1; });
    o("SE_RegisterObjectCallback", [](int i) { SE_RegisterObjectCallback(i, [](SE_ScenarioObjectState*, void*) {}, nullptr); return 1; });
    o("SE_GetNumberOfRoutePoints", [](int i) { return SE_GetNumberOfRoutePoints(i) <= 0; });
    o("SE_GetRoutePoint", [](int i) { SE_RouteInfo r; return neg(SE_GetRoutePoint(i, 0, &r)); });
    o("SE_GetRouteTotalLength", [](int i) { return SE_GetRouteTotalLength(i) <= 0; });
    o("SE_InjectSpeedAction", [](int i) { SE_SpeedActionStruct a = {i, 20, 1, 2, 1}; SE_InjectSpeedAction(&a); return 1; });
    o("SE_InjectLaneChangeAction", [](int i) { SE_LaneChangeActionStruct a = {i, 0, -2, 1, 2, 1}; SE_InjectLaneChangeAction(&a); return 1; });
    o("SE_InjectLaneOffsetAction", [](int i) { SE_LaneOffsetActionStruct a = {i, 1, 1, 1}; SE_InjectLaneOffsetAction(&a); return 1; });
    o("SE_SetCameraObjectFocus", [](int i) { SE_SetCameraObjectFocus(i); return 1; });
    o("SE_CropOSIDynamicGroundTruth", [](int i) { SE_CropOSIDynamicGroundTruth(i, 10); return 1; });
    // index arguments
    vector<int> big = {-1, 1000, INT_MAX, INT_MIN};
    auto        x   = [&](const string& n, vector<int> bad, std::function<int(int)> f, bool running = true) { v.push_back({n, 'x', f, bad, running}); };
    x("SE_GetId", {-1, 3, 1000, INT_MAX, INT_MIN}, [](int i) { return neg(SE_GetId(i)); }, false);
    x("SE_GetIdByName", {0, 1}, [](int i) { return neg(SE_GetIdByName(i ? "nobody" : "")); }, false);
    x("SE_GetNumberOfProperties", {-1, 3, 1000, INT_MAX, INT_MIN}, [](int i) { return SE_GetNumberOfProperties(i) <= 0; }, false);
    x("SE_GetObjectPropertyName-object", {-1, 3, 1000, INT_MAX, INT_MIN}, [](int i) { return none(SE_GetObjectPropertyName(i, 0)); }, false);
    x("SE_GetObjectPropertyName-property", big, [](int i) { return none(SE_GetObjectPropertyName(0, i)); }, false);
    x("SE_GetObjectPropertyValue", {-1, 3, 1000, INT_MAX, INT_MIN}, [](int i) { return none(SE_GetObjectPropertyValue(i, "x")); }, false);
    x("SE_GetObjectPropertyValue-name", {0}, [](int) { return none(SE_GetObjectPropertyValue(0, "nosuch")); }, false);
    x("SE_GetObjectCollision-index", big, [](int i) { return neg(SE_GetObjectCollision(g_good, i)); });
    x("SE_GetObjectWheelData-index", {-1, 4, 1000, INT_MAX, INT_MIN}, [](int i) { SE_WheelData w; return neg(SE_GetObjectWheelData(g_good, i, &w)); });
    x("SE_GetObjectLightState-type", {-1, 1000, INT_MAX}, [](int i) { SE_LightState l; return neg(SE_GetObjectLightState(g_good, static_cast<SE_VehicleLightType>(i), &l)); });
    x("SE_GetRoutePoint-index", big, [](int i) { SE_RouteInfo r; return neg(SE_GetRoutePoint(g_good, static_cast<unsigned>(i), &r)); });
    x("SE_FetchSensorObjectList", big, [](int i) { int l[100]; return SE_FetchSensorObjectList(i, l) <= 0; }, false);
    x("SE_GetVariableName", {-1, 1, 1000, INT_MAX, INT_MIN}, [](int i) { int t; return none(SE_GetVariableName(i, &t)); }, false);
    x("SE_GetParameterName", {-1, 1, 1000, INT_MAX, INT_MIN}, [](int i) { int t; return none(SE_GetParameterName(i, &t)); }, false);
    x("SE_GetRoadSign-index", {-1, 2, 1000, INT_MAX, INT_MIN}, [](int i) { SE_RoadSign s; return neg(SE_GetRoadSign(1, static_cast<unsigned>(i), &s)); }, false);
    x("SE_GetNumberOfRoadSignValidityRecords-index", {-1, 2, 1000, INT_MAX, INT_MIN}, [](int i) { SE_GetNumberOfRoadSignValidityRecords(1, static_cast<unsigned>(i)); return 1; }, false);
    x("SE_GetRoadSignValidityRecord-sign", {-1, 2, 1000, INT_MAX, INT_MIN}, [](int i) { SE_RoadObjValidity s; return neg(SE_GetRoadSignValidityRecord(1, static_cast<unsigned>(i), 0, &s)); }, false);
    x("SE_GetRoadSignValidityRecord-index", {-1, 1, 1000, INT_MAX, INT_MIN}, [](int i) { SE_RoadObjValidity s; return neg(SE_GetRoadSignValidityRecord(1, 0, static_cast<unsigned>(i), &s)); }, false);
    x("SE_SelectPermutation", big, [](int i) { return neg(SE_SelectPermutation(static_cast<unsigned>(i))); }, false);
    x("SE_GetOptionValueByIndex", big, [](int i) { return none(SE_GetOptionValueByIndex("nosuch", static_cast<unsigned>(i))); }, false);
    x("SE_GetOptionValueByEnum", big, [](int i) { SE_GetOptionValueByEnum(static_cast<unsigned>(i)); return 1; }, false);
    x("SE_InjectedActionOngoing", big, [](int i) { return !SE_InjectedActionOngoing(i); }, false);
    x("SE_ReportObjectRoadPos-road", {-1, 2, 1000, INT_MAX}, [](int i) { return neg(SE_ReportObjectRoadPos(g_good, static_cast<id_t>(i), -1, 0, 30)); });
    // parameters and variables
    x("SE_SetParameterInt", {0}, [](int) { return neg(SE_SetParameterInt("nosuch", 1)); }, false);
    x("SE_SetVariableDouble", {0}, [](int) { return neg(SE_SetVariableDouble("nosuch", 1)); }, false);
    x("SE_GetVariableDouble", {0}, [](int) { return neg(SE_GetVariableDouble("nosuch", d_)); }, false);
    x("SE_GetParameter", {0}, [](int) { SE_Parameter p = {"nosuch", d_}; return neg(SE_GetParameter(&p)); }, false);
    x("SE_SetVariable", {0}, [](int) { SE_Variable p = {"nosuch", d_}; return neg(SE_SetVariable(p)); }, false);
    x("SE_GetVariable", {0}, [](int) { SE_Variable p = {"nosuch", d_}; return neg(SE_GetVariable(&p)); }, false);
    // road ids
    auto r = [&](const string& n, std::function<int(int)> f) { v.push_back({n, 'r', f, {}}); };
    r("SE_GetNumberOfRoadSigns", [](int i) { return SE_GetNumberOfRoadSigns(static_cast<id_t>(i)) == 0 || SE_GetNumberOfRoadSigns(static_cast<id_t>(i)) == static_cast<unsigned>(-1); });
    r("SE_GetRoadSign", [](int i) { SE_RoadSign s; return neg(SE_GetRoadSign(static_cast<id_t>(i), 0, &s)); });
    r("SE_GetNumberOfRoadSignValidityRecords", [](int i) { SE_GetNumberOfRoadSignValidityRecords(static_cast<id_t>(i), 0); return 1; });
    r("SE_GetRoadSignValidityRecord", [](int i) { SE_RoadObjValidity s; return neg(SE_GetRoadSignValidityRecord(static_cast<id_t>(i), 0, 0, &s)); });
    r("SE_GetRoadIdString", [](int i) { return none(SE_GetRoadIdString(static_cast<id_t>(i))); });
    r("SE_GetJunctionIdString", [](int i) { return none(SE_GetJunctionIdString(static_cast<id_t>(i))); });
    x("SE_GetRoadIdFromString", {0}, [](int) { return SE_GetRoadIdFromString("nosuch") == static_cast<id_t>(-1); }, false);
    x("SE_GetJunctionIdFromString", {0}, [](int) { return SE_GetJunctionIdFromString("nosuch") == static_cast<id_t>(-1); }, false);
    return v;
}

static vector<Call> rm_calls()
{
    vector<Call> v;
    auto         h = [&](const string& n, std::function<int(int)> f) { v.push_back({n, 'h', f, {}}); };
    h("RM_DeletePosition", [](int i) { return neg(RM_DeletePosition(i)); });
    h("RM_CopyPosition", [](int i) { return neg(RM_CopyPosition(i)); });
    h("RM_SetObjectPositionMode", [](int i) { RM_SetObjectPositionMode(i, 1, 0); return 1; });
    h("RM_SetObjectPositionModeDefault", [](int i) { RM_SetObjectPositionModeDefault(i, 1); return 1; });
    h("RM_SetSnapLaneTypes", [](int i) { return neg(RM_SetSnapLaneTypes(i, 2)); });
    h("RM_SetLockOnLane", [](int i) { return neg(RM_SetLockOnLane(i, true)); });
    h("RM_GetNumberOfRoadsOverlapping", [](int i) { return RM_GetNumberOfRoadsOverlapping(i) <= 0; });
    h("RM_GetOverlappingRoadId", [](int i) { return RM_GetOverlappingRoadId(i, 0) == static_cast<id_t>(-1); });
    h("RM_SetLanePosition", [](int i) { return neg(RM_SetLanePosition(i, 1, -1, 0, 10, true)); });
    h("RM_SetRoadPosition", [](int i) { return neg(RM_SetRoadPosition(i, 1, 10, 0, true)); });
    h("RM_SetS", [](int i) { return neg(RM_SetS(i, 20)); });
    h("RM_SetWorldPosition", [](int i) { return neg(RM_SetWorldPosition(i, 5, -1, 0, 0, 0, 0)); });
    h("RM_SetWorldXYHPosition", [](int i) { return neg(RM_SetWorldXYHPosition(i, 5, -1, 0)); });
    h("RM_SetWorldXYZHPosition", [](int i) { return neg(RM_SetWorldXYZHPosition(i, 5, -1, 0, 0)); });
    h("RM_SetWorldPositionMode", [](int i) { return neg(RM_SetWorldPositionMode(i, 5, -1, 0, 0, 0, 0, 0)); });
    h("RM_SetH", [](int i) { return neg(RM_SetH(i, 1)); });
    h("RM_SetHMode", [](int i) { return neg(RM_SetHMode(i, 1, 0)); });
    h("RM_SetRoadId", [](int i) { return neg(RM_SetRoadId(i, 1)); });
    h("RM_PositionMoveForward", [](int i) { return neg(RM_PositionMoveForward(i, 5, -1)); });
    h("RM_GetPositionData", [](int i) { RM_PositionData d; return neg(RM_GetPositionData(i, &d)); });
    h("RM_GetSpeedLimit", [](int i) { return RM_GetSpeedLimit(i) <= 0; });
    h("RM_GetLaneInfo", [](int i) { RM_RoadLaneInfo d; return neg(RM_GetLaneInfo(i, 5, &d, 0, true)); });
    h("RM_GetProbeInfo", [](int i) { RM_RoadProbeInfo d; return neg(RM_GetProbeInfo(i, 5, &d, 0, true)); });
    h("RM_GetLaneWidth", [](int i) { return neg(RM_GetLaneWidth(i, -1, d_)); });
    h("RM_GetLaneType", [](int i) { return RM_GetLaneType(i, -1) <= 0; });
    h("RM_GetInLaneType", [](int i) { return RM_GetInLaneType(i) <= 1; });
    h("RM_SubtractAFromB-a", [](int i) { RM_PositionDiff d; return neg(RM_SubtractAFromB(i, 0, &d)); });
    h("RM_SubtractAFromB-b", [](int i) { RM_PositionDiff d; return neg(RM_SubtractAFromB(0, i, &d)); });
    auto x = [&](const string& n, vector<int> bad, std::function<int(int)> f, bool running = true) { v.push_back({n, 'x', f, bad, running}); };
    x("RM_GetIdOfRoadFromIndex", {-1, 1, 1000, INT_MAX, INT_MIN}, [](int i) { return RM_GetIdOfRoadFromIndex(static_cast<unsigned>(i)) == static_cast<id_t>(-1); }, false);
    x("RM_GetOverlappingRoadId-index", {-1, 1, 1000, INT_MAX, INT_MIN}, [](int i) { return RM_GetOverlappingRoadId(0, static_cast<unsigned>(i)) == static_cast<id_t>(-1); });
    x("RM_GetLaneIdByIndex-index", {-1, 5, 1000, INT_MAX, INT_MIN}, [](int i) { int l; return neg(RM_GetLaneIdByIndex(1, i, 10, -1, &l)); }, false);
    x("RM_GetDrivableLaneIdByIndex-index", {-1, 4, 1000, INT_MAX, INT_MIN}, [](int i) { int l; return neg(RM_GetDrivableLaneIdByIndex(1, i, 10, &l)); }, false);
    x("RM_GetLaneWidth-lane", {-3, 3, 1000, INT_MAX, INT_MIN}, [](int i) { RM_GetLaneWidth(0, i, d_); return 1; });
    x("RM_GetLaneWidthByRoadId-lane", {-3, 3, 1000, INT_MAX, INT_MIN}, [](int i) { RM_GetLaneWidthByRoadId(1, i, 10, d_); return 1; }, false);
    x("RM_GetLaneType-lane", {-3, 3, 1000, INT_MAX, INT_MIN}, [](int i) { return RM_GetLaneType(0, i) <= 0; });
    x("RM_GetLaneTypeByRoadId-lane", {-3, 3, 1000, INT_MAX, INT_MIN}, [](int i) { return RM_GetLaneTypeByRoadId(1, i, 10) <= 0; }, false);
    x("RM_GetRoadSign-index", {-1, 2, 1000, INT_MAX, INT_MIN}, [](int i) { RM_RoadSign s; return neg(RM_GetRoadSign(1, static_cast<unsigned>(i), &s)); }, false);
    x("RM_GetNumberOfRoadSignValidityRecords-index", {-1, 2, 1000, INT_MAX, INT_MIN}, [](int i) { return RM_GetNumberOfRoadSignValidityRecords(1, static_cast<unsigned>(i)) <= 0; }, false);
    x("RM_GetRoadSignValidityRecord-sign", {-1, 2, 1000, INT_MAX, INT_MIN}, [](int i) { RM_RoadObjValidity s; return neg(RM_GetRoadSignValidityRecord(1, static_cast<unsigned>(i), 0, &s)); }, false);
    x("RM_GetRoadSignValidityRecord-index", {-1, 1, 1000, INT_MAX, INT_MIN}, [](int i) { RM_RoadObjValidity s; return neg(RM_GetRoadSignValidityRecord(1, 0, static_cast<unsigned>(i), &s)); }, false);
    x("RM_SetLanePosition-road", {-1, 2, 1000, INT_MAX}, [](int i) { return neg(RM_SetLanePosition(0, static_cast<id_t>(i), -1, 0, 10, true)); });
    x("RM_SetRoadPosition-road", {-1, 2, 1000, INT_MAX}, [](int i) { return neg(RM_SetRoadPosition(0, static_cast<id_t>(i), 10, 0, true)); });
    x("RM_SetRoadId-road", {-1, 2, 1000, INT_MAX}, [](int i) { return neg(RM_SetRoadId(0, static_cast<id_t>(i))); });
    auto r = [&](const string& n, std::function<int(int)> f) { v.push_back({n, 'r', f, {}}); };
    r("RM_GetRoadLength", [](int i) { return RM_GetRoadLength(static_cast<id_t>(i)) <= 0; });
    r("RM_GetRoadIdString", [](int i) { return none(RM_GetRoadIdString(static_cast<id_t>(i))); });
    r("RM_GetJunctionIdString", [](int i) { return none(RM_GetJunctionIdString(static_cast<id_t>(i))); });
    r("RM_GetRoadNumberOfLanes", [](int i) { return RM_GetRoadNumberOfLanes(static_cast<id_t>(i), 10, -1) <= 0; });
    r("RM_GetLaneIdByIndex", [](int i) { int l; return neg(RM_GetLaneIdByIndex(static_cast<id_t>(i), 0, 10, -1, &l)); });
    r("RM_GetRoadNumberOfDrivableLanes", [](int i) { return RM_GetRoadNumberOfDrivableLanes(static_cast<id_t>(i), 10) <= 0; });
    r("RM_GetDrivableLaneIdByIndex", [](int i) { int l; return neg(RM_GetDrivableLaneIdByIndex(static_cast<id_t>(i), 0, 10, &l)); });
    r("RM_GetLaneWidthByRoadId", [](int i) { return neg(RM_GetLaneWidthByRoadId(static_cast<id_t>(i), -1, 10, d_)); });
    r("RM_GetLaneTypeByRoadId", [](int i) { return RM_GetLaneTypeByRoadId(static_cast<id_t>(i), -1, 10) <= 0; });
    r("RM_GetNumberOfRoadSigns", [](int i) { return RM_GetNumberOfRoadSigns(static_cast<id_t>(i)) <= 0; });
    r("RM_GetRoadSign", [](int i) { RM_RoadSign s; return neg(RM_GetRoadSign(static_cast<id_t>(i), 0, &s)); });
    r("RM_GetNumberOfRoadSignValidityRecords", [](int i) { return RM_GetNumberOfRoadSignValidityRecords(static_cast<id_t>(i), 0) <= 0; });
    r("RM_GetRoadSignValidityRecord", [](int i) { RM_RoadObjValidity s; return neg(RM_GetRoadSignValidityRecord(static_cast<id_t>(i), 0, 0, &s)); });
    x("RM_GetRoadIdFromString", {0}, [](int) { return RM_GetRoadIdFromString("nosuch") == static_cast<id_t>(-1); }, false);
    x("RM_GetJunctionIdFromString", {0}, [](int) { return RM_GetJunctionIdFromString("nosuch") == static_cast<id_t>(-1); }, false);
    return v;
}

static string rm_observe()
{
    string s = fmt("%d roads %d positions\n", RM_GetNumberOfRoads(), RM_GetNrOfPositions());
    for (int i = 0; i < RM_GetNrOfPositions() && i < 10; i++)
    {
        RM_PositionData d;
        memset(&d, 0, sizeof(d));
        int r = RM_GetPositionData(i, &d);
        s += fmt("%d %d %.17g %.17g %.17g %.17g %.17g %.17g %d %d %.17g %.17g %.17g\n", i, r, d.x, d.y, d.z, d.h, d.p, d.r, static_cast<int>(d.roadId), d.laneId, d.laneOffset, d.s, d.hRelative);
    }
    return s;
}

// states the library can be in
enum State
{
    FRESH,
    RUNNING,
    CLOSED,
    FAILED,
    NSTATES
};
static const char* STATE[] = {"never initialised", "running", "closed", "failed to initialise"};

static void se_state(int st)
{
    scn::quiet();
    if (st == FRESH)
        return;
    string xml = world_xml();
    if (st == FAILED)
    {
        SE_InitWithString("<OpenSCENARIO><nonsense/>", 0, 0, 0, 0);
        return;
    }
    if (SE_InitWithString(xml.c_str(), 0, 0, 0, 0) != 0)
        _exit(97);
    for (int i = 0; i < 3; i++)
        SE_StepDT(0.1);
    g_deleted = SE_AddObject("X", 1, 0, 0, 0, "");
    SE_ReportObjectPosXYH(g_deleted, 60, 3, 0);
    SE_StepDT(0.1);
    SE_DeleteObject(g_deleted);
    SE_StepDT(0.1);
    g_good = SE_GetIdByName("A");
    if (st == CLOSED)
        SE_Close();
}
static void rm_state(int st)
{
    RM_SetOptionPersistent("disable_stdout");
    RM_SetOptionPersistent("disable_log");
    if (st == FRESH)
        return;
    string x = scn::odr(sign_road());
    if (st == FAILED)
    {
        RM_InitWithString("<nonsense>");
        return;
    }
    if (RM_InitWithString(x.c_str()) != 0)
        _exit(97);
    for (int i = 0; i < 3; i++)
        RM_CreatePosition();
    RM_SetLanePosition(0, 1, -1, 0, 20, true);
    RM_SetLanePosition(1, 1, 1, 0.3, 40, true);
    RM_SetLanePosition(2, 1, -2, 0, 60, true);
    RM_DeletePosition(2);
    g_deleted = 2;
    if (st == CLOSED)
        RM_Close();
}

static void misuse(const Call& c, bool rm, int st)
{
    vector<int> vals = c.bad;
    if (c.kind == 'o')
        vals = {-1, 77, 100000, INT_MAX, INT_MIN, -2};  // -2: the deleted object
    if (c.kind == 'h')
        vals = {-1, 2, 3, 1000, INT_MAX, INT_MIN};
    if (c.name == "RM_DeletePosition")
        vals.erase(vals.begin());  // -1 is documented: all of them
    if (c.kind == 'r')
        vals = {-1, 0, 2, 1000, INT_MAX};
    if (st != RUNNING)
    {
        if (c.kind == 'o' || c.kind == 'h')
            vals.push_back(0);
        if (c.kind == 'r')
            vals.push_back(1);
    }
    int n0 = vf::C().sh->nviol.load();
    for (int v : vals)
    {
        int r = vf::isolated(
            [&]()
            {
                if (rm)
                    rm_state(st);
                else
                    se_state(st);
                int    a      = c.kind == 'o' && v == -2 ? g_deleted : v;
                if (c.kind == 'o' && v == -2 && st == FRESH)
                    a = -2;
                string before = rm ? rm_observe() : observe();
                vf::doing(fmt("%s(%d), %s", c.name.c_str(), a, STATE[st]));
                int refused = c.f(a);
                vf::cmp(2);
                vf::step();
                if (!refused)
                    vf::violation("misuse:accepted:" + c.name, fmt("%s with %s %d (%s) reports no error", c.name.c_str(), c.kind == 'o' ? "object id" : c.kind == 'r' ? "road id" : c.kind == 'h' ? "position handle" : "argument", a, STATE[st]));
                string after = rm ? rm_observe() : observe();
                if (after != before)
                    vf::violation("misuse:changed:" + c.name, fmt("%s with %d (%s) changes the state: ", c.name.c_str(), a, STATE[st]) + first_diff(before, after));
                if (st == RUNNING && !rm)
                {
                    // and the run goes on
                    SE_StepDT(0.1);
                    if (SE_GetNumberOfObjects() != 3)
                        vf::violation("misuse:changed:" + c.name, fmt("%s with %d: %d objects in the next step", c.name.c_str(), a, SE_GetNumberOfObjects()));
                }
                vf::state(vf::fnv(c.name + fmt("%d/%d", v, st)));
                vf::outcome(c.name);
                if (rm)
                    RM_Close();
                else
                    SE_Close();
            },
            20);
        vf::eval();
        if (r != 0)
            vf::violation("misuse:crash:" + c.name, fmt("%s with %d (%s) ends the process (status %d)", c.name.c_str(), v, STATE[st], r));
        if (vf::C().sh->nviol > n0)
            return;
    }
}

static int c18()
{
    vector<vf::Case> cases;
    for (bool rm : {false, true})
        for (auto& c : rm ? rm_calls() : calls())
            for (int st = 0; st < NSTATES; st++)
                if (!(c.needs_running && st != RUNNING))
                    cases.push_back({c.name + "/" + STATE[st], [=]() { misuse(c, rm, st); }});
    vf::run(cases, 300);
    return vf::finish(fmt("%zu + %zu library calls x up to 7 ids, handles or indices that do not exist (past the last, negative, extreme, deleted) x 4 states of the library; error reported, nothing observable changed, run continues", calls().size(), rm_calls().size()),
                      {"null pointers for out-arguments are the caller's error and left out", "functions without an error value (void, unsigned counts) are only required not to crash and not to change anything"});
}


// ------------------------------------------------------------------------------------------------ C19
#include <dirent.h>
#include <algorithm>
static string repo()
{
    const char* r = getenv("VERIF_REPO");
    return r ? r : "/repo";
}
static vector<string> scenarios()
{
    vector<string> v;
    string         d = repo() + "/resources/xosc";
    if (DIR* dir = opendir(d.c_str()))
    {
        while (auto* e = readdir(dir))
        {
            string n = e->d_name;
            if (n.size() > 5 && n.substr(n.size() - 5) == ".xosc")
                v.push_back(n);
        }
        closedir(dir);
    }
    std::sort(v.begin(), v.end());
    return v;
}
static int start(const string& name)
{
    return SE_Init((repo() + "/resources/xosc/" + name).c_str(), 0, 0, 0, 0);
}
static const int STEPS = 60;
static string    trace_of(const string& name, double dt = 0.1)
{
    string s;
    SE_SetSeed(7);
    int r = start(name);
    s += fmt("init %d\n", r);
    if (r != 0)
        return s;
    for (int i = 0; i < STEPS; i++)
    {
        s += fmt("step %d ", i) + observe();
        if (SE_StepDT(dt) < 0)
        {
            s += "end\n";
            break;
        }
        vf::step();
    }
    s += observe();
    return s;
}

// what may have happened in the process before
struct Before
{
    string                name;
    std::function<void()> f;
};
static void keep(SE_ScenarioObjectState*, void*)
{
}
static vector<Before> befores(const vector<string>& sc, bool th)
{
    vector<Before> v;
    vector<string> few = {"acc-test.xosc", "cut-in_environment.xosc", "follow_ghost.xosc", "left-hand-traffic_using_road_rule.xosc", "lane_change_crest.xosc", "ltap-od.xosc", "light_state.xosc", "swarm.xosc", "traffic_lights.xosc", "trailers.xosc", "alks_r157_cut_in_quick_brake.xosc", "cut-in_parameter_set.xosc"};
    for (auto& n : th ? sc : few)
        v.push_back({n + ", closed",
                     [=]()
                     {
                         trace_of(n);
                         SE_Close();
                         SE_ResetParameterDistribution();
                     }});
    for (auto& n : th ? few : vector<string>{"cut-in.xosc", "swarm.xosc"})
        v.push_back({n + ", not closed",
                     [=]()
                     {
                         trace_of(n);
                         SE_ResetParameterDistribution();
                     }});
    v.push_back({"a scenario that does not load",
                 []()
                 {
                     SE_InitWithString("<OpenSCENARIO><ParameterDeclarations><ParameterDeclaration name=\"x\" parameterType=\"double\" value=\"$y\"/></ParameterDeclarations></OpenSCENARIO>", 0, 0, 0, 0);
                     start("no_such_file.xosc");
                 }});
    v.push_back({"a run with everything set by the caller",
                 []()
                 {
                     string xml = world_xml();
                     SE_SetOption("collision");
                     SE_SetOptionValue("ground_plane", "");
                     SE_InitWithString(xml.c_str(), 0, 0, 0, 0);
                     SE_SetParameterDouble("P", 17);
                     SE_SetVariableDouble("V", 18);
                     int id = SE_AddObject("Y", 1, 0, 0, 0, "");
                     SE_ReportObjectPosXYH(id, 50, -2, 0);
                     SE_SetLockOnLane(SE_GetId(0), true);
                     SE_SetSnapLaneTypes(SE_GetId(0), 2);
                     SE_SetObjectPositionMode(SE_GetId(0), SE_SET, 7);
                     SE_RegisterObjectCallback(SE_GetId(0), keep, nullptr);
                     SE_SpeedActionStruct a = {SE_GetId(0), 30, 1, 2, 100};
                     SE_InjectSpeedAction(&a);
                     for (int i = 0; i < 5; i++)
                         SE_StepDT(0.1);
                     SE_Close();
                 }});
    return v;
}

static void isolation(const string& b, const vector<Before>& bs)
{
    auto file = [&](const char* w) { return string("trace_") + w + ".txt"; };
    auto in_child = [&](const char* w, std::function<void()> before)
    {
        unlink(file(w).c_str());
        return vf::isolated(
            [&]()
            {
                scn::quiet();
                if (before)
                    before();
                scn::write_file(file(w), trace_of(b));
                SE_Close();
            },
            60);
    };
    auto slurp = [&](const char* w)
    {
        std::ifstream     f(file(w));
        std::stringstream ss;
        ss << f.rdbuf();
        return ss.str();
    };
    int r = in_child("fresh", nullptr);
    if (r != 0)
    {
        vf::violation("isolation:crash", b + fmt(" alone ends the process (status %d)", r));
        return;
    }
    string fresh = slurp("fresh");
    vf::state(vf::fnv(fresh));
    vf::outcome(fmt("%zu", vf::fnv(fresh)));
    auto compare = [&](const string& what, int rc)
    {
        vf::eval();
        vf::cmp();
        if (rc != 0)
        {
            vf::violation("isolation:crash:" + what, b + fmt(" after %s ends the process (status %d)", what.c_str(), rc));
            return;
        }
        string t = slurp("after");
        if (t != fresh)
            vf::violation("isolation:differs:" + what, b + " after " + what + " runs differently than in a fresh process: " + first_diff(fresh, t));
    };
    compare("nothing (repetition)", in_child("after", nullptr));
    for (auto& x : bs)
    {
        vf::doing(b + " after " + x.name);
        compare(x.name, in_child("after", x.f));
        if (vf::give_up())
            return;
    }
    vf::doing("itself");
    compare("itself",
            in_child("after",
                     [&]()
                     {
                         trace_of(b);
                         SE_Close();
                         SE_ResetParameterDistribution();
                     }));
}

static int c19()
{
    bool             th = vf::C().tier == "thorough";
    auto             sc = scenarios();
    auto             bs = befores(sc, th);
    vector<vf::Case> cases;
    for (auto& b : sc)
        cases.push_back({b, [=]() { isolation(b, bs); }});
    vf::run(cases, 900);
    return vf::finish(fmt("each of the %zu example scenarios of the repository, %d steps, after each of %zu histories (other scenarios run to the same length and closed or not closed, failed loads, settings made through the API, itself), compared with the same scenario in a fresh process, all observable values to the last bit",
                          sc.size(), STEPS, bs.size() + 2),
                      {"the seed is set by the caller before each run"});
}

int main(int argc, char** argv)
{
    vf::init(argc, argv, "C18");
    if (vf::C().prop == "C18")
        return c18();
    if (vf::C().prop == "C19")
        return c19();
    return 2;
}
