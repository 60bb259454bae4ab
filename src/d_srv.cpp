// LDFLAGS: -Wl,--wrap=recvfrom -Wl,--wrap=socket -Wl,--wrap=bind -Wl,--wrap=setsockopt -Wl,--wrap=pthread_mutex_lock -Wl,--wrap=pthread_mutex_unlock
// C21: messages received by the UDP server threads while the simulation runs: every interleaving of the two threads at their
// synchronisation points (socket creation, receive, every mutex acquisition, every frame) up to a preemption bound is executed, the
// thread sanitizer watching all memory accesses (the scheduler itself is invisible to it and adds no happens-before edges).
#include "vf.hpp"
#include "playerbase.hpp"
#include "PlayerServer.hpp"
#include "Server.hpp"
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <pthread.h>
#include <sched.h>
#include <unistd.h>
#include <cmath>
#include <cstring>
#include <fstream>
#include <sstream>

using namespace scenarioengine;
using std::string;
using std::vector;
template <class... A>
static string F(const char* f, A... a)
{
    return vf::fmt(f, a...);
}
#define NT __attribute__((no_sanitize("thread"), noinline))

// ------------------------------------------------------------------------------------------------ scheduler
enum
{
    ABSENT,
    RUN,
    AT,
    FREE,
    DONE
};
enum
{
    K_OP,
    K_LOCK,
    K_RECV,
    K_SOCKET
};
static const int MAXC = 4000;
struct Shared
{
    int           n;             // choice points met
    unsigned char taken[MAXC];   // 1: switched to the other thread
    int           prefix_n;
    unsigned char prefix[MAXC];
    int           points;
    int           preempt;
    char          what[200];
};
static Shared* SH;
struct Sched
{
    volatile int on, turn, st[2], kind[2], final;
    void* volatile want[2];
    struct
    {
        void* m;
        int   owner, depth;
    } lk[64];
    volatile int nlk;
    volatile int msgs_left;
    volatile long idle_polls;
};
static Sched         G;
extern "C" const char* __tsan_default_options();
extern "C" const char* __tsan_default_options()
{
    return "halt_on_error=1:exitcode=66:die_after_fork=0:report_thread_leaks=0";
}
static __thread int  me = -1;
static const char*   PACKETS[16];
static int           PSIZE[16];
static volatile int  NPACK, NEXT;
struct Ev
{
    char   kind;  // 'm' message k delivered, 'd' done, 'f' frame begins, 'e' frame ends
    int    k;
    double t;
};
static Ev           EV[400];
static volatile int NEV;
static ScenarioPlayer* P;

NT static void pause_()
{
    sched_yield();
}
NT static int owner(void* m)
{
    for (int i = 0; i < G.nlk; i++)
        if (G.lk[i].m == m)
            return G.lk[i].owner;
    return -1;
}
NT static void own(void* m, int o, int d)
{
    for (int i = 0; i < G.nlk; i++)
        if (G.lk[i].m == m)
        {
            G.lk[i].depth += d;
            G.lk[i].owner = G.lk[i].depth > 0 ? o : -1;
            return;
        }
    if (d > 0 && G.nlk < 64)
    {
        int i         = G.nlk;
        G.lk[i].m     = m;
        G.lk[i].owner = o;
        G.lk[i].depth = 1;
        G.nlk         = i + 1;
    }
}
NT static bool can(int t)
{
    if (G.st[t] != AT)
        return false;
    if (G.kind[t] == K_LOCK)
    {
        int o = owner(G.want[t]);
        return o == -1 || o == t;
    }
    if (G.kind[t] == K_RECV)
        return NEXT < NPACK || G.final;
    return true;
}
NT static void point(int kind, void* m)
{
    if (!G.on || me < 0)
        return;
    int o = 1 - me;
    G.kind[me] = kind;
    G.want[me] = m;
    if (G.st[o] == FREE || G.st[o] == DONE || G.st[o] == ABSENT || G.st[me] == FREE)
        return;
    __sync_synchronize();
    G.st[me] = AT;
    int  pick = me;
    bool a = can(me), b = can(o);
    SH->points++;
    if (a && b)
    {
        int c = 0;
        if (SH->n < SH->prefix_n)
            c = SH->prefix[SH->n];
        if (SH->n < MAXC)
            SH->taken[SH->n++] = static_cast<unsigned char>(c);
        if (c)
            pick = o;
    }
    else if (b)
        pick = o;
    else if (!a)
    {
        strcpy(SH->what, "deadlock: both threads wait for a mutex");
        _exit(77);
    }
    __sync_synchronize();
    G.turn = pick;
    while (G.turn != me && G.st[o] != FREE)
        pause_();
    __sync_synchronize();
    G.st[me] = RUN;
}
NT static void server_arrives()
{
    if (G.on && me < 0)
    {
        me         = 1;
        G.kind[1]  = K_SOCKET;
        __sync_synchronize();
        G.st[1] = AT;
        while (G.turn != 1 && G.st[0] != FREE)
            pause_();
        G.st[1] = RUN;
    }
}
NT static void event(char k, int n)
{
    int i = NEV;
    if (i < 400)
    {
        EV[i].kind = k;
        EV[i].k    = n;
        EV[i].t    = 0;
        NEV        = i + 1;
    }
}
extern "C"
{
    int     __real_pthread_mutex_lock(pthread_mutex_t*);
    int     __real_pthread_mutex_unlock(pthread_mutex_t*);
    NT int __wrap_pthread_mutex_lock(pthread_mutex_t* m)
    {
        point(K_LOCK, m);
        int r = __real_pthread_mutex_lock(m);
        if (G.on && me >= 0)
            own(m, me, 1);
        return r;
    }
    NT int __wrap_pthread_mutex_unlock(pthread_mutex_t* m)
    {
        if (G.on && me >= 0)
            own(m, me, -1);
        return __real_pthread_mutex_unlock(m);
    }
    NT int __wrap_socket(int, int, int)
    {
        server_arrives();
        return open("/dev/null", O_RDWR);
    }
    NT int __wrap_bind(int, const struct sockaddr*, socklen_t)
    {
        return 0;
    }
    NT int __wrap_setsockopt(int, int, int, const void*, socklen_t)
    {
        return 0;
    }
    NT ssize_t __wrap_recvfrom(int, void* buf, size_t n, int, struct sockaddr*, socklen_t*)
    {
        static __thread int last = -1;
        if (last >= 0)
            event('d', last);
        last = -1;
        point(K_RECV, nullptr);
        if (G.final)
        {
            // the main thread waits for this one to end
            usleep(1000);
            if (++G.idle_polls > 4000)
            {
                strcpy(SH->what, "hang: the server thread goes on receiving after it was told to stop");
                _exit(78);
            }
            return -1;
        }
        if (NEXT < NPACK)
        {
            int    k = NEXT;
            size_t s = static_cast<size_t>(PSIZE[k]) < n ? static_cast<size_t>(PSIZE[k]) : n;
            for (size_t i = 0; i < s; i++)
                static_cast<volatile char*>(buf)[i] = PACKETS[k][i];
            NEXT = k + 1;
            event('m', k);
            last = k;
            return static_cast<ssize_t>(s);
        }
        return -1;
    }
}
NT static void main_op()
{
    point(K_OP, nullptr);
}
NT static void wait_for_server()
{
    // the thread has been created: wait until it is at its first point
    for (long i = 0; G.st[1] == ABSENT; i++)
    {
        usleep(100);
        if (i > 50000)
        {
            strcpy(SH->what, "the server thread does not start");
            _exit(78);
        }
    }
}
NT static void begin()
{
    memset(&G, 0, sizeof(G));
    me      = 0;
    G.turn  = 0;
    G.st[0] = RUN;
    G.on    = 1;
}
NT static void begin_final()
{
    G.final = 1;
    __sync_synchronize();
    G.st[0] = FREE;
}
NT static void end_all()
{
    G.on = 0;
    me   = -1;
}

// ------------------------------------------------------------------------------------------------ programs
struct Prog
{
    string               name;
    vector<ActionStruct> msgs;
    string               ops;  // f frame, i inject speed from the main thread, o ask for ongoing actions
    int                  kind = 0;  // 0 player server, 1 ego server, 2 player server started by Init
    vector<EgoStateBuffer_t> ego;
};
static const double DT = 0.1;

static string repo()
{
    const char* r = getenv("VERIF_REPO");
    return r ? r : "/repo";
}
static string scenario_xml(bool external)
{
    auto veh = [](const char* n, bool ext)
    {
        return F("<ScenarioObject name=\"%s\"><Vehicle name=\"car\" vehicleCategory=\"car\"><BoundingBox><Center x=\"1.4\" y=\"0\" z=\"0.75\"/><Dimensions width=\"2\" length=\"5\" height=\"1.5\"/></BoundingBox>"
                 "<Performance maxSpeed=\"70\" maxAcceleration=\"50\" maxDeceleration=\"50\"/><Axles><FrontAxle maxSteering=\"0.5\" wheelDiameter=\"0.6\" trackWidth=\"1.8\" positionX=\"2.8\" positionZ=\"0.3\"/>"
                 "<RearAxle maxSteering=\"0\" wheelDiameter=\"0.6\" trackWidth=\"1.8\" positionX=\"0\" positionZ=\"0.3\"/></Axles></Vehicle>%s</ScenarioObject>",
                 n,
                 ext ? "<ObjectController><Controller name=\"c\"><Properties><Property name=\"esminiController\" value=\"ExternalController\"/></Properties></Controller></ObjectController>" : "");
    };
    auto init = [](const char* n, int lane, double s, double v, bool ext)
    {
        return F("<Private entityRef=\"%s\"><PrivateAction><TeleportAction><Position><LanePosition roadId=\"1\" laneId=\"%d\" s=\"%g\" offset=\"0\"/></Position></TeleportAction></PrivateAction>"
                 "<PrivateAction><LongitudinalAction><SpeedAction><SpeedActionDynamics dynamicsShape=\"step\" dynamicsDimension=\"time\" value=\"0\"/><SpeedActionTarget><AbsoluteTargetSpeed value=\"%g\"/>"
                 "</SpeedActionTarget></SpeedAction></LongitudinalAction></PrivateAction>%s</Private>",
                 n,
                 lane,
                 s,
                 v,
                 ext ? "<PrivateAction><ControllerAction><ActivateControllerAction longitudinal=\"true\" lateral=\"true\"/></ControllerAction></PrivateAction>" : "");
    };
    return string("<?xml version=\"1.0\"?><OpenSCENARIO><FileHeader revMajor=\"1\" revMinor=\"2\" date=\"2024-01-01T00:00:00\" description=\"v\" author=\"v\"/><ParameterDeclarations/><CatalogLocations/>"
                  "<RoadNetwork><LogicFile filepath=\"") +
           repo() + "/resources/xodr/straight_500m.xodr\"/></RoadNetwork><Entities>" + veh("A", external) + veh("B", false) + "</Entities><Storyboard><Init><Actions>" + init("A", -1, 50, 10, external) +
           init("B", -1, 100, 7, false) + "</Actions></Init><StopTrigger/></Storyboard></OpenSCENARIO>";
}

static ScenarioPlayer* new_player(bool external, const char* option)
{
    static string       xml = scenario_xml(external);
    static vector<char*> av;
    static vector<string> a = {"x", "--osc_str", xml, "--headless", "--disable_stdout", "--disable_log", "--fixed_timestep", "0.1"};
    if (option)
        a.push_back(string("--") + option);
    av.clear();
    for (auto& s : a)
        av.push_back(&s[0]);
    return new ScenarioPlayer(static_cast<int>(av.size()), av.data());
}
static double now_()
{
    return P->scenarioEngine->getSimulationTime();
}

static void fail(const Prog& p, const string& key, const string& msg)
{
    string sched;
    for (int i = 0; i < SH->n; i++)
        sched += SH->taken[i] ? 'S' : '.';
    string ev;
    for (int i = 0; i < NEV; i++)
        ev += F(" %c%d", EV[i].kind, EV[i].k);
    vf::violation(key, p.name + ": " + msg, "schedule " + sched + "\nevents" + ev);
}
static bool changes_state(int type)
{
    return type >= 4 && type <= 7;
}

static void run_player_server(const Prog& p)
{
    begin();
    double t0;
    if (p.kind == 2)
    {
        P = new_player(false, "player_server");
        if (P->Init() != 0)
        {
            fail(p, "init", "the player does not start");
            return;
        }
        wait_for_server();
        // (Init makes the first frame)
        t0 = 0;
    }
    else
    {
        t0 = now_();
        P->player_server_->Start();
        wait_for_server();
    }
    Object* A  = P->scenarioEngine->entities_.object_[0];
    Object* B  = P->scenarioEngine->entities_.object_[1];
    double  xb = 100;
    int     fi = 0;
    double  last_main_inject = -1;
    int     inject_ev = -1;
    int     ongoing   = 0;
    for (char c : p.ops)
    {
        main_op();
        if (c == 'f')
        {
            event('f', fi);
            P->Frame(DT);
            event('e', fi);
            fi++;
        }
        else if (c == 'i')
        {
            SpeedActionStruct s = {A->GetId(), 17, 3, 2, 0};
            // as SE_InjectSpeedAction does
            P->player_server_->InjectSpeedAction(s);
            last_main_inject = 17;
            inject_ev        = NEV;
        }
        else if (c == 'o')
        {
            ongoing += P->player_server_->InjectedActionOngoing(static_cast<int>(OSCAction::ActionType::LONG_SPEED));
        }
    }
    main_op();
    begin_final();
    P->player_server_->Stop();
    end_all();
    // ---- what must have happened
    double T = now_() - t0;
    double steps = 0;
    int    certain = 0, uncertain = 0;
    int    delivered = 0;
    for (int i = 0; i < NEV; i++)
        if (EV[i].kind == 'm')
        {
            delivered++;
            auto& m = p.msgs[static_cast<size_t>(EV[i].k)];
            if (m.action_type == static_cast<int>(UDP_ACTION_TYPE::STEP_DT))
                steps += m.message.stepDT.dt;
            if (m.action_type == static_cast<int>(UDP_ACTION_TYPE::STEP))
                steps += 0.1;
        }
    for (int f = 0; f < fi; f++)
    {
        int  st   = 1;  // playing
        bool sure = true, inside = false;
        int  pend = 0;
        for (int i = 0; i < NEV; i++)
        {
            if (EV[i].kind == 'f' && EV[i].k == f)
            {
                inside = true;
                if (pend)
                    sure = false;
            }
            if (EV[i].kind == 'e' && EV[i].k == f)
                break;
            if (EV[i].kind == 'm' && changes_state(p.msgs[static_cast<size_t>(EV[i].k)].action_type))
            {
                pend++;
                if (inside)
                    sure = false;
            }
            if (EV[i].kind == 'd' && changes_state(p.msgs[static_cast<size_t>(EV[i].k)].action_type))
            {
                pend--;
                if (!inside)
                    st = p.msgs[static_cast<size_t>(EV[i].k)].action_type == static_cast<int>(UDP_ACTION_TYPE::PLAY);
            }
        }
        if (!sure)
            uncertain++;
        else if (st)
            certain++;
    }
    double k = (T - steps) / DT;
    vf::cmp(4);
    vf::outcome(F("%s T=%.4f", p.name.c_str(), T));
    if (std::fabs(k - std::round(k)) > 1e-6 || k < certain - 1e-6 || k > certain + uncertain + 1e-6)
        fail(p, "frames", F("the simulation advanced %.4f s: %.4f s by step messages and %.2f frames of the main loop, which should be %d to %d", T, steps, k, certain, certain + uncertain));
    if (std::fabs(B->pos_.GetX() - xb - 7 * T) > 1e-6)
        fail(p, "motion", F("an object with constant speed 7 moved %.6f m in %.4f s", B->pos_.GetX() - xb, T));
    // injected actions complete
    P->SetState(ScenarioPlayer::PlayerState::PLAYER_STATE_PLAYING);
    bool quit = P->IsQuitRequested();
    for (int i = 0; i < 30; i++)
        P->Frame(DT);
    double speed = 10;
    int    lane  = -1;
    double offset = 0;
    bool   want_quit = false;
    for (int i = 0; i < NEV; i++)
    {
        if (last_main_inject > 0 && i == inject_ev)
            speed = last_main_inject;
        if (EV[i].kind != 'm')
            continue;
        auto& m = p.msgs[static_cast<size_t>(EV[i].k)];
        if (m.action_type == 1)
            speed = m.message.speed.speed;
        if (m.action_type == 2)
            lane = m.message.laneChange.target;
        if (m.action_type == 3)
            offset = m.message.laneOffset.offset;
        if (m.action_type == 8)
            want_quit = true;
    }
    if (last_main_inject > 0 && inject_ev >= NEV)
        speed = last_main_inject;
    // two actions injected concurrently: the order between them is open
    bool both = false;
    for (int i = 0; i < NEV; i++)
        if (EV[i].kind == 'm' && p.msgs[static_cast<size_t>(EV[i].k)].action_type == 1 && last_main_inject > 0)
            both = true;
    vf::cmp(4);
    if (both ? (std::fabs(A->GetSpeed() - 17) > 1e-6 && std::fabs(A->GetSpeed() - 20) > 1e-6 && std::fabs(A->GetSpeed() - 25) > 1e-6) : std::fabs(A->GetSpeed() - speed) > 1e-6)
        fail(p, "speed", F("speed %.4f, injected %.4f", A->GetSpeed(), speed));
    if (A->pos_.GetLaneId() != lane)
        fail(p, "lane", F("lane %d, injected %d", A->pos_.GetLaneId(), lane));
    if (std::fabs(A->pos_.GetOffset() - offset) > 1e-6)
        fail(p, "offset", F("lane offset %.4f, injected %.4f", A->pos_.GetOffset(), offset));
    if (quit != want_quit)
        fail(p, "quit", F("quit requested %d, received %d", quit, want_quit));
    if (P->player_server_->NumberOfActions() != 0 || P->player_server_->InjectedActionOngoing(-1))
        fail(p, "left", F("%d injected actions are left after all were completed", P->player_server_->NumberOfActions()));
}

static void run_ego_server(const Prog& p)
{
    begin();
    StartServer(P->scenarioEngine);
    wait_for_server();
    Object* A = P->scenarioEngine->entities_.object_[0];
    for (size_t i = 0; i < p.ops.size(); i++)
    {
        main_op();
        event('f', static_cast<int>(i));
        P->Frame(DT);
        event('e', static_cast<int>(i));
    }
    main_op();
    begin_final();
    StopServer();
    end_all();
    int last = -1;
    for (int i = 0; i < NEV; i++)
        if (EV[i].kind == 'm')
            last = EV[i].k;
    if (last >= 0)
    {
        auto& e = p.ego[static_cast<size_t>(last)];
        vf::cmp(3);
        vf::outcome(F("%s last %d", p.name.c_str(), last));
        if (std::fabs(A->pos_.GetX() - e.x) > 1e-6 || std::fabs(A->pos_.GetY() - e.y) > 1e-6 || std::fabs(A->wheel_angle_ - e.wheel_angle) > 1e-6)
            fail(p, "ego", F("ego at (%.3f, %.3f), last received (%.3f, %.3f)", A->pos_.GetX(), A->pos_.GetY(), e.x, e.y));
    }
}

static int BOUND = 2;
static void explore(const Prog& p)
{
    SH = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    for (size_t i = 0; i < p.msgs.size(); i++)
    {
        PACKETS[i] = reinterpret_cast<const char*>(&p.msgs[i]);
        PSIZE[i]   = sizeof(ActionStruct);
    }
    for (size_t i = 0; i < p.ego.size(); i++)
    {
        PACKETS[i] = reinterpret_cast<const char*>(&p.ego[i]);
        PSIZE[i]   = sizeof(EgoStateBuffer_t);
    }
    NPACK = static_cast<int>(p.kind == 1 ? p.ego.size() : p.msgs.size());
    NEXT  = 0;
    NEV   = 0;
    if (p.kind != 2)
    {
        P = new_player(p.kind == 1, nullptr);
        if (P->Init() != 0)
        {
            vf::violation("load", "the player does not start");
            return;
        }
    }
    vector<unsigned char> prefix;
    string                errfile = "tsan_" + std::to_string(getpid());
    for (;;)
    {
        SH->n        = 0;
        SH->points   = 0;
        SH->what[0]  = 0;
        SH->prefix_n = static_cast<int>(prefix.size());
        for (size_t i = 0; i < prefix.size(); i++)
            SH->prefix[i] = prefix[i];
        string s;
        for (auto c : prefix)
            s += c ? 'S' : '.';
        vf::doing(p.name + " schedule " + s);
        fflush(nullptr);
        pid_t c = fork();
        if (c == 0)
        {
            int fd = open(errfile.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
            dup2(fd, 2);
            alarm(60);
            if (p.kind == 1)
                run_ego_server(p);
            else
                run_player_server(p);
            _exit(0);
        }
        int st = 0;
        while (waitpid(c, &st, 0) < 0 && errno == EINTR)
        {
        }
        vf::eval();
        vf::step(SH->points);
        vf::state(vf::fnv(SH->taken, static_cast<size_t>(SH->n), vf::fnv(p.name)));
        if (st != 0)
        {
            std::ifstream     f(errfile);
            std::stringstream ss;
            ss << f.rdbuf();
            string e = ss.str();
            if (WIFEXITED(st) && (WEXITSTATUS(st) == 77 || WEXITSTATUS(st) == 78))
                vf::violation(WEXITSTATUS(st) == 77 ? "deadlock" : "hang", p.name + " schedule " + s + ": " + SH->what);
            else if (e.find("data race") != string::npos)
                vf::violation("race", p.name + " schedule " + s + ": data race", e.substr(0, 4000));
            else
                vf::violation("crash", p.name + " schedule " + s + F(": ended with status 0x%x", st), e.substr(0, 4000));
        }
        if (vf::give_up())
            break;
        // next schedule, depth first, at most BOUND preemptions
        vector<unsigned char> t(SH->taken, SH->taken + SH->n);
        int                   i = static_cast<int>(t.size()) - 1;
        for (; i >= 0; i--)
        {
            if (t[static_cast<size_t>(i)] == 0)
            {
                int pre = 0;
                for (int j = 0; j < i; j++)
                    pre += t[static_cast<size_t>(j)];
                if (pre < BOUND)
                    break;
            }
        }
        if (i < 0)
            break;
        t[static_cast<size_t>(i)] = 1;
        t.resize(static_cast<size_t>(i) + 1);
        prefix = t;
    }
    unlink(errfile.c_str());
}

static ActionStruct speed_msg(double v, int shape = 3, double val = 0)
{
    ActionStruct a;
    memset(&a, 0, sizeof(a));
    a.action_type   = 1;
    a.message.speed = {0, v, shape, 2, val};
    return a;
}
static ActionStruct lane_msg(int lane)
{
    ActionStruct a;
    memset(&a, 0, sizeof(a));
    a.action_type        = 2;
    a.message.laneChange = {0, 0, lane, 1, 2, 0.3};
    return a;
}
static ActionStruct offset_msg(double off)
{
    ActionStruct a;
    memset(&a, 0, sizeof(a));
    a.action_type        = 3;
    a.message.laneOffset = {0, off, 5, 3};
    return a;
}
static ActionStruct msg(UDP_ACTION_TYPE t, double dt = 0)
{
    ActionStruct a;
    memset(&a, 0, sizeof(a));
    a.action_type       = static_cast<int>(t);
    a.message.stepDT.dt = dt;
    return a;
}

int main(int argc, char** argv)
{
    vf::init(argc, argv, "C21");
    bool         th = vf::C().tier == "thorough";
    using U         = UDP_ACTION_TYPE;
    auto step       = [](double dt) { return msg(U::STEP_DT, dt); };
    vector<Prog> v;
    v.push_back({"stop at once", {}, ""});
    v.push_back({"one speed action", {speed_msg(20)}, "ff"});
    v.push_back({"two speed actions", {speed_msg(20, 1, 0.2), speed_msg(25)}, "ff"});
    v.push_back({"speed and lane", {speed_msg(20), lane_msg(1)}, "ff"});
    v.push_back({"lane and speed", {lane_msg(1), speed_msg(20, 1, 0.25)}, "fff"});
    v.push_back({"main injects too", {speed_msg(20)}, "fif"});
    v.push_back({"main injects, lane message", {lane_msg(1)}, "fif"});
    v.push_back({"ask for ongoing actions", {speed_msg(20), speed_msg(25, 1, 0.2)}, "fofo"});
    v.push_back({"offset and speed", {offset_msg(0.5), speed_msg(20)}, "ff"});
    v.push_back({"speed and offset, main injects", {speed_msg(20, 1, 0.2), offset_msg(0.5)}, "fif"});
    v.push_back({"pause", {msg(U::PAUSE)}, "fff"});
    v.push_back({"pause, play", {msg(U::PAUSE), msg(U::PLAY)}, "fff"});
    v.push_back({"step dt", {step(0.013)}, "ff"});
    v.push_back({"pause, step dt", {msg(U::PAUSE), step(0.013)}, "ff"});
    v.push_back({"pause, step", {msg(U::PAUSE), msg(U::STEP)}, "ff"});
    v.push_back({"two step dt", {step(0.013), step(0.017)}, "ff"});
    v.push_back({"step dt, play", {step(0.013), msg(U::PLAY)}, "ff"});
    v.push_back({"speed, step dt", {speed_msg(20), step(0.013)}, "ff"});
    v.push_back({"quit", {msg(U::QUIT)}, "f"});
    v.push_back({"unknown message", {msg(static_cast<U>(77))}, "f"});
    {
        Prog p{"ego server, one state", {}, "ff", 1, {{150, -1.5, 0, 0, 0, 0, 0, 0.1}}};
        v.push_back(p);
        Prog q{"ego server, two states", {}, "ff", 1, {{150, -1.5, 0, 0, 0, 0, 0, 0.1}, {160, -1.2, 0, 0.05, 0, 0, 0, 0.2}}};
        v.push_back(q);
        Prog r{"ego server, stop at once", {}, "", 1, {}};
        v.push_back(r);
    }
    {
        Prog p{"messages while starting", {speed_msg(20)}, "f", 2};
        v.push_back(p);
        Prog q{"step while starting", {step(0.013)}, "f", 2};
        v.push_back(q);
    }
    if (th)
    {
        vector<ActionStruct> all = {speed_msg(20), speed_msg(25, 1, 0.2), lane_msg(1), offset_msg(0.5), msg(U::PAUSE), msg(U::PLAY), step(0.013), msg(U::STEP), msg(U::QUIT)};
        for (auto& a : all)
            for (auto& b : all)
                v.push_back({F("pair %d %d", a.action_type, b.action_type), {a, b}, "ff"});
    }
    vector<vf::Case> cases;
    for (auto& p : v)
        cases.push_back({p.name + F(" (%zu)", cases.size()), [=]()
                         {
                             BOUND = th ? 4 : 3;
                             explore(p);
                         }});
    vf::run(cases, 900);
    return vf::finish(F("%zu message sequences and main loops; every interleaving of main and server thread at socket, receive, mutex and frame points with at most %d preemptions, watched by the thread sanitizer", v.size(), th ? 4 : 3),
                      {"the main loop is Frame() and injection; the library's read functions are called by the same thread that steps", "log output is disabled", "sockets are replaced by a stand-in that delivers the messages"});
}
