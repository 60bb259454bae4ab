# Small helper for the demonstrations: drives the built library of the tree in the current directory through its C API.
import ctypes, os, sys, tempfile, shutil, atexit
ROOT = os.getcwd()
L = ctypes.CDLL(os.path.join(ROOT, "bin", "libesminiLib.so"))
SCR = tempfile.mkdtemp()
atexit.register(lambda: shutil.rmtree(SCR, True))
os.chdir(SCR)
_rep = os.dup(1)
L.SE_StepDT.argtypes = [ctypes.c_double]
L.SE_GetSimulationTime.restype = ctypes.c_double
DT = 0.125


def say(*a):
    os.write(2, (" ".join(map(str, a)) + "\n").encode())


def ok(cond, *a):
    if not cond:
        say("FAIL:", *a)
        sys.stdout.flush()
        os._exit(1)


def done():
    say("ok")
    os._exit(0)


def road(length=1000, left=0, right=3, width=3.5, extra=""):
    ln = lambda i: '<lane id="%d" type="driving" level="false"><width sOffset="0" a="%g" b="0" c="0" d="0"/></lane>' % (i, width)
    x = '<?xml version="1.0"?><OpenDRIVE><header revMajor="1" revMinor="5" name="" version="1"/><road name="r" length="%g" id="1" junction="-1">' % length
    x += '<planView><geometry s="0" x="0" y="0" hdg="0" length="%g"><line/></geometry></planView><lanes><laneSection s="0">' % length
    if left:
        x += "<left>" + "".join(ln(i) for i in range(left, 0, -1)) + "</left>"
    x += '<center><lane id="0" type="none" level="false"/></center>'
    if right:
        x += "<right>" + "".join(ln(-i) for i in range(1, right + 1)) + "</right>"
    return x + "</laneSection></lanes>" + extra + "</road></OpenDRIVE>"


def put(name, text):
    p = os.path.join(SCR, name)
    with open(p, "wb" if isinstance(text, bytes) else "w") as h:
        h.write(text)
    return p


def vehicle(name, length=5, width=2, cx=1.4, extra=""):
    return ('<ScenarioObject name="%s"><Vehicle name="car_%s" vehicleCategory="car"><BoundingBox><Center x="%g" y="0" z="0.75"/><Dimensions width="%g" length="%g" height="1.5"/>'
            '</BoundingBox><Performance maxSpeed="100" maxAcceleration="200" maxDeceleration="200"/><Axles><FrontAxle maxSteering="0.5" wheelDiameter="0.6" trackWidth="1.7" '
            'positionX="2.9" positionZ="0.3"/><RearAxle maxSteering="0" wheelDiameter="0.6" trackWidth="1.7" positionX="0" positionZ="0.3"/></Axles><Properties/></Vehicle>%s</ScenarioObject>'
            % (name, name, cx, width, length, extra))


def tele(lane=-1, s=50, off=0, rd=1):
    return '<PrivateAction><TeleportAction><Position><LanePosition roadId="%d" laneId="%d" s="%.17g" offset="%.17g"/></Position></TeleportAction></PrivateAction>' % (rd, lane, s, off)


def speed(v, shape="step", dim="time", val=0):
    return ('<PrivateAction><LongitudinalAction><SpeedAction><SpeedActionDynamics dynamicsShape="%s" dynamicsDimension="%s" value="%.17g"/><SpeedActionTarget>'
            '<AbsoluteTargetSpeed value="%.17g"/></SpeedActionTarget></SpeedAction></LongitudinalAction></PrivateAction>' % (shape, dim, val, v))


def init(ent, *acts):
    return '<Private entityRef="%s">%s</Private>' % (ent, "".join(acts))


def vcond(var, val="true", edge="none", delay=0, rule="equalTo"):
    return ('<Condition name="c_%s" delay="%g" conditionEdge="%s"><ByValueCondition><VariableCondition variableRef="%s" value="%s" rule="%s"/></ByValueCondition></Condition>'
            % (var, delay, edge, var, val, rule))


def trig(cond, tag="StartTrigger"):
    return "<%s><ConditionGroup>%s</ConditionGroup></%s>" % (tag, cond, tag)


def event(name, cond, *actions, prio="parallel", n=1):
    return '<Event name="%s" priority="%s" maximumExecutionCount="%d">%s%s</Event>' % (
        name, prio, n, "".join('<Action name="%s_%d">%s</Action>' % (name, i, a) for i, a in enumerate(actions)), trig(cond))


def group(name, actors, *maneuvers, n=1):
    return '<ManeuverGroup name="%s" maximumExecutionCount="%d"><Actors selectTriggeringEntities="false">%s</Actors>%s</ManeuverGroup>' % (
        name, n, "".join('<EntityRef entityRef="%s"/>' % a for a in actors), "".join(maneuvers))


def maneuver(name, *events):
    return '<Maneuver name="%s">%s</Maneuver>' % (name, "".join(events))


def story(*groups, stop=""):
    return '<Story name="story"><Act name="act">%s%s</Act></Story>' % ("".join(groups), stop)


def xosc(roadfile, ents, inits, stories="", stop="<StopTrigger/>", vars=(), params="", cat="<CatalogLocations/>", netx=""):
    return ('<?xml version="1.0"?><OpenSCENARIO><FileHeader revMajor="1" revMinor="2" date="2024-01-01T00:00:00" description="v" author="v"/><ParameterDeclarations>%s</ParameterDeclarations>'
            '<VariableDeclarations>%s</VariableDeclarations>%s<RoadNetwork>%s%s</RoadNetwork><Entities>%s</Entities><Storyboard><Init><Actions>%s</Actions></Init>%s%s</Storyboard></OpenSCENARIO>'
            % (params, "".join('<VariableDeclaration name="%s" variableType="%s" value="%s"/>' % v for v in vars), cat,
               '<LogicFile filepath="%s"/>' % roadfile if roadfile else "", netx, ents, inits, stories, stop))


changes = []
CB = ctypes.CFUNCTYPE(None, ctypes.c_char_p, ctypes.c_int, ctypes.c_int, ctypes.c_char_p)
_cb = CB(lambda n, t, s, p: changes.append((n.decode(), t, s)))


def load(xml, disable_ctrls=0):
    for o in (b"disable_stdout", b"disable_log"):
        L.SE_SetOptionPersistent(o)
    ok(L.SE_InitWithString(xml.encode(), disable_ctrls, 0, 0, 0) == 0, "scenario not loaded")
    L.SE_RegisterStoryBoardElementStateChangeCallback(_cb)


def setb(var, v):
    L.SE_SetVariableBool(var.encode(), ctypes.c_bool(v))


def step(n=1, dt=DT):
    for _ in range(n):
        L.SE_StepDT(dt)


def last(name):
    r = None
    for c in changes:
        if c[0] == name:
            r = c[2]
    return r


class State(ctypes.Structure):
    _fields_ = ([(n, ctypes.c_int) for n in "id model_id ctrl_type".split()] + [(n, ctypes.c_double) for n in "timestamp x y z h p r".split()]
                + [("roadId", ctypes.c_uint32), ("junctionId", ctypes.c_uint32), ("t", ctypes.c_double), ("laneId", ctypes.c_int)]
                + [(n, ctypes.c_double) for n in "laneOffset s speed cx cy cz width length height".split()]
                + [("objectType", ctypes.c_int), ("objectCategory", ctypes.c_int), ("wheel_angle", ctypes.c_double), ("wheel_rot", ctypes.c_double), ("visibilityMask", ctypes.c_int)])


def get(i):
    st = State()
    ok(L.SE_GetObjectState(i, ctypes.byref(st)) == 0, "no object", i)
    return st


STANDBY, RUNNING, COMPLETE = 1, 2, 3
