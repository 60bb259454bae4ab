// Helpers to write small OpenSCENARIO / OpenDRIVE worlds and to drive the real engine through its public C API.
#pragma once
#include "vf.hpp"
#include "esminiLib.hpp"

namespace scn
{
    using vf::fmt;

    // ---------------------------------------------------------------- trees of real executions
    // Explores every input sequence of length `depth` over {0..n-1} from the current process state. Each branch runs in a
    // process of its own (fork), so prefixes are shared and no execution sees another's effects.
    // apply(input) performs one step and returns false to prune (e.g. after a violation).
    struct Tree
    {
        int                                     n     = 2;
        int                                     depth = 3;
        std::function<bool(int)>                apply;
        std::function<void()>                   leaf;
        std::vector<int>                        path;
        std::function<std::string(std::vector<int>)> show;

        std::string path_str() const
        {
            if (show)
                return show(path);
            std::string s;
            for (int i : path)
                s += std::to_string(i);
            return s;
        }

        void node()
        {
            if (static_cast<int>(path.size()) == depth)
            {
                vf::eval();
                if (leaf)
                    leaf();
                return;
            }
            int m = n;  // apply may change n for the next level
            for (int i = 0; i < m; i++)
            {
                if (vf::give_up())
                    return;
                bool last = i == m - 1;
                if (!last)
                {
                    pid_t p = fork();
                    if (p == 0)
                    {
                        go(i);
                        _exit(0);
                    }
                    if (p < 0)
                        _exit(98);
                    path.push_back(i);
                    reap(p);
                    path.pop_back();
                }
                else
                    go(i);
            }
        }
        void go(int i)
        {
            path.push_back(i);
            vf::doing("inputs " + path_str());
            vf::step();
            if (apply(i))
                node();
            else
                vf::eval();
            path.pop_back();
        }
        void reap(pid_t p)
        {
            int st = 0;
            while (waitpid(p, &st, 0) < 0 && errno == EINTR)
            {
            }
            if (WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st) != 0))
                vf::violation("crash:" + vf::C().cur_case + ":" + path_str(),
                              fmt("the process ended abnormally (status 0x%x) below inputs %s of %s", st, path_str().c_str(), vf::C().cur_case.c_str()));
        }
        // root: runs the whole tree in a forked child; setup() brings the engine into the root state (return false to give up)
        void run(const std::function<bool()>& setup)
        {
            pid_t p = fork();
            if (p == 0)
            {
                if (setup())
                    node();
                _exit(0);
            }
            path.clear();
            reap(p);
        }
    };

    // ---------------------------------------------------------------- OpenDRIVE
    struct LaneSpec
    {
        int         id;
        double      width = 3.5;
        std::string type  = "driving";
    };
    inline std::string lanes_xml(int left, int right, double width = 3.5)
    {
        std::string s = "<lanes><laneSection s=\"0\">";
        if (left)
        {
            s += "<left>";
            for (int i = left; i >= 1; i--)
                s += fmt("<lane id=\"%d\" type=\"driving\" level=\"false\"><width sOffset=\"0\" a=\"%.17g\" b=\"0\" c=\"0\" d=\"0\"/></lane>", i, width);
            s += "</left>";
        }
        s += "<center><lane id=\"0\" type=\"none\" level=\"false\"/></center>";
        if (right)
        {
            s += "<right>";
            for (int i = 1; i <= right; i++)
                s += fmt("<lane id=\"%d\" type=\"driving\" level=\"false\"><width sOffset=\"0\" a=\"%.17g\" b=\"0\" c=\"0\" d=\"0\"/></lane>", -i, width);
            s += "</right>";
        }
        return s + "</laneSection></lanes>";
    }
    inline std::string odr(const std::string& body)
    {
        return "<?xml version=\"1.0\"?><OpenDRIVE><header revMajor=\"1\" revMinor=\"5\" name=\"\" version=\"1\" north=\"0\" south=\"0\" east=\"0\" west=\"0\"/>" +
               body + "</OpenDRIVE>";
    }
    inline std::string straight_road(double length, int left, int right, double x = 0, double y = 0, double h = 0, int id = 1)
    {
        return fmt("<road name=\"r%d\" length=\"%.17g\" id=\"%d\" junction=\"-1\"><planView><geometry s=\"0\" x=\"%.17g\" y=\"%.17g\" hdg=\"%.17g\" "
                   "length=\"%.17g\"><line/></geometry></planView>",
                   id,
                   length,
                   id,
                   x,
                   y,
                   h,
                   length) +
               lanes_xml(left, right) + "</road>";
    }
    inline void write_file(const std::string& name, const std::string& text)
    {
        std::ofstream f(name, std::ios::binary);
        f << text;
    }

    // ---------------------------------------------------------------- OpenSCENARIO
    inline std::string vehicle(const std::string& name, double len = 5, double wid = 2, double cx = 1.4, const std::string& extra = "")
    {
        return "<ScenarioObject name=\"" + name + "\"><Vehicle name=\"car_" + name +
               "\" vehicleCategory=\"car\"><BoundingBox>" +
               fmt("<Center x=\"%.17g\" y=\"0\" z=\"0.75\"/><Dimensions width=\"%.17g\" length=\"%.17g\" height=\"1.5\"/>", cx, wid, len) +
               "</BoundingBox><Performance maxSpeed=\"100\" maxAcceleration=\"200\" maxDeceleration=\"200\"/>"
               "<Axles><FrontAxle maxSteering=\"0.5\" wheelDiameter=\"0.6\" trackWidth=\"1.7\" positionX=\"2.9\" positionZ=\"0.3\"/>"
               "<RearAxle maxSteering=\"0\" wheelDiameter=\"0.6\" trackWidth=\"1.7\" positionX=\"0\" positionZ=\"0.3\"/></Axles><Properties/></Vehicle>" +
               extra + "</ScenarioObject>";
    }
    inline std::string lane_pos(int road, int lane, double s, double offset = 0)
    {
        return fmt("<LanePosition roadId=\"%d\" laneId=\"%d\" s=\"%.17g\" offset=\"%.17g\"/>", road, lane, s, offset);
    }
    inline std::string world_pos(double x, double y, double h = 0)
    {
        return fmt("<WorldPosition x=\"%.17g\" y=\"%.17g\" h=\"%.17g\"/>", x, y, h);
    }
    inline std::string pa(const std::string& inner)
    {
        return "<PrivateAction>" + inner + "</PrivateAction>";
    }
    inline std::string teleport(const std::string& pos)
    {
        return "<TeleportAction><Position>" + pos + "</Position></TeleportAction>";
    }
    inline std::string speed_action(double v, const std::string& shape = "step", const std::string& dim = "time", double val = 0)
    {
        return fmt("<LongitudinalAction><SpeedAction><SpeedActionDynamics dynamicsShape=\"%s\" dynamicsDimension=\"%s\" value=\"%.17g\"/>"
                   "<SpeedActionTarget><AbsoluteTargetSpeed value=\"%.17g\"/></SpeedActionTarget></SpeedAction></LongitudinalAction>",
                   shape.c_str(),
                   dim.c_str(),
                   val,
                   v);
    }
    inline std::string lane_change(int lane, const std::string& shape, const std::string& dim, double val)
    {
        return fmt("<LateralAction><LaneChangeAction><LaneChangeActionDynamics dynamicsShape=\"%s\" dynamicsDimension=\"%s\" value=\"%.17g\"/>"
                   "<LaneChangeTarget><AbsoluteTargetLane value=\"%d\"/></LaneChangeTarget></LaneChangeAction></LateralAction>",
                   shape.c_str(),
                   dim.c_str(),
                   val,
                   lane);
    }
    inline std::string init_private(const std::string& entity, const std::vector<std::string>& actions)
    {
        std::string s = "<Private entityRef=\"" + entity + "\">";
        for (auto& a : actions)
            s += pa(a);
        return s + "</Private>";
    }
    inline std::string var_decl(const std::string& name, const std::string& type, const std::string& val)
    {
        return "<VariableDeclaration name=\"" + name + "\" variableType=\"" + type + "\" value=\"" + val + "\"/>";
    }
    // variable condition, level triggered
    inline std::string var_cond(const std::string& var, const std::string& value = "true", const std::string& edge = "none", double delay = 0, const std::string& rule = "equalTo")
    {
        return fmt("<Condition name=\"c_%s\" delay=\"%.17g\" conditionEdge=\"%s\"><ByValueCondition><VariableCondition variableRef=\"%s\" value=\"%s\" "
                   "rule=\"%s\"/></ByValueCondition></Condition>",
                   var.c_str(),
                   delay,
                   edge.c_str(),
                   var.c_str(),
                   value.c_str(),
                   rule.c_str());
    }
    inline std::string trigger(const std::string& tag, const std::string& conds)
    {
        return "<" + tag + "><ConditionGroup>" + conds + "</ConditionGroup></" + tag + ">";
    }
    inline std::string time_cond(double t, const std::string& rule = "greaterThan")
    {
        return fmt("<Condition name=\"t\" delay=\"0\" conditionEdge=\"none\"><ByValueCondition><SimulationTimeCondition value=\"%.17g\" rule=\"%s\"/>"
                   "</ByValueCondition></Condition>",
                   t,
                   rule.c_str());
    }
    inline std::string xosc(const std::string& roadfile,
                            const std::string& entities,
                            const std::string& init_actions,
                            const std::string& stories,
                            const std::string& stop    = "<StopTrigger/>",
                            const std::string& vars    = "",
                            const std::string& params  = "",
                            const std::string& netx    = "",
                            const std::string& catalogs = "<CatalogLocations/>")
    {
        return "<?xml version=\"1.0\"?><OpenSCENARIO><FileHeader revMajor=\"1\" revMinor=\"2\" date=\"2024-01-01T00:00:00\" description=\"v\" author=\"v\"/>"
               "<ParameterDeclarations>" + params + "</ParameterDeclarations><VariableDeclarations>" + vars + "</VariableDeclarations>" + catalogs +
               "<RoadNetwork>" + (roadfile.empty() ? "" : "<LogicFile filepath=\"" + roadfile + "\"/>") + netx + "</RoadNetwork><Entities>" + entities +
               "</Entities><Storyboard><Init><Actions>" + init_actions + "</Actions></Init>" + stories + stop + "</Storyboard></OpenSCENARIO>";
    }

    inline void quiet()
    {
        SE_SetOptionPersistent("disable_stdout");
        SE_SetOptionPersistent("disable_log");
    }
    inline bool load(const std::string& xml, int disable_ctrls = 0)
    {
        quiet();
        return SE_InitWithString(xml.c_str(), disable_ctrls, 0, 0, 0) == 0;
    }
}  // namespace scn
