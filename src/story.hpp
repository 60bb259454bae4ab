// Reference model of the storyboard (written from the OpenSCENARIO execution model and the user guide, not from the
// implementation's classes) plus the generator of the corresponding OpenSCENARIO document.
#pragma once
#include "scn.hpp"
#include <memory>

namespace story
{
    using vf::fmt;
    enum St
    {
        INIT     = 0,
        STANDBY  = 1,
        RUNNING  = 2,
        COMPLETE = 3
    };
    enum Kind
    {
        BOARD = 1,
        STORY,
        ACT,
        GROUP,
        MANEUVER,
        EVENT,
        ACTION
    };
    enum Dom
    {
        NONE = 0,  // global, takes one frame
        LONG = 1,
        LAT  = 2
    };

    const double DT = 0.125;

    struct El;
    struct Model;
    typedef std::shared_ptr<El> P;

    struct El
    {
        Kind           kind;
        std::string    name;
        std::vector<P> ch;
        El*            parent = nullptr;
        Model*         model  = nullptr;
        // specification
        std::string start_var, stop_var;  // trigger variables ("" = no trigger)
        int         max_exec = -1;        // group and event
        char        prio     = 'P';       // O, S, P
        int         dom      = NONE;
        int         frames   = 1;
        std::string entity;
        int         lane  = 0;
        double      speed = 0;
        std::string body;            // explicit XML of the action
        bool        twin = false;    // further instance of the preceding action (second actor)
        std::vector<std::string> actors;  // group
        // state
        St  st    = INIT;
        int execs = 0;
        int left  = 0;

        std::string path() const
        {
            if (kind == BOARD)
                return "";
            if (!parent || parent->kind == BOARD)
                return name;
            return parent->path() + "::" + name;
        }
        void set(St s);
        bool all_complete() const
        {
            for (auto& c : ch)
                if (c->st != COMPLETE)
                    return false;
            return true;
        }
        void start();
        void start_event();
        void triggers();
        void step();
        void stop();
        void end();
        void reset()
        {
            for (auto& c : ch)
                c->reset();
            st = INIT;
        }
        void child_done()
        {
            if (kind != BOARD && st != COMPLETE && all_complete())
                end();
        }
    };

    struct Model
    {
        P                                     root;
        std::vector<P>                        inits;  // init actions
        std::set<std::string>                 on;  // variables that are true now
        std::map<std::string, std::string>    log;  // path -> states entered this frame
        bool                                  quit = false;

        void link(El* e, El* parent)
        {
            e->parent = parent;
            e->model  = this;
            for (auto& c : e->ch)
                link(c.get(), e);
        }
        bool is(const std::string& v) const
        {
            return on.count(v) > 0;
        }
        void frame(bool first)
        {
            log.clear();
            if (quit)
                return;
            if (first)
            {
                for (auto& i : inits)
                    i->start();
                root->start();
            }
            root->triggers();
            for (auto& i : inits)
                i->step();
            root->step();
            if (root->st != RUNNING)
                quit = true;
        }
        template <class F>
        void each(El* e, F f)
        {
            f(e);
            for (auto& c : e->ch)
                each(c.get(), f);
        }
        std::string canon()
        {
            std::string s;
            each(root.get(), [&](El* e) { s += fmt("%d%d%d,", e->st, e->execs, e->left); });
            return s;
        }
    };

    inline void El::set(St s)
    {
        if (s != st)
        {
            st = s;
            model->log[path()] += static_cast<char>('0' + s);
        }
    }
    // An element with a start trigger first waits for it; an element without one runs as soon as its parent does.
    inline void El::start()
    {
        if (kind == EVENT && st != INIT)
        {
            start_event();
            return;
        }
        if (st == INIT && (!start_var.empty() || kind == EVENT))
        {
            set(STANDBY);
            return;
        }
        set(RUNNING);
        execs++;
        if (kind == ACTION)
            left = frames;
        if (kind != EVENT)
            for (auto& c : ch)
                c->start();
    }
    inline void El::start_event()
    {
        bool other = false;
        for (auto& e : parent->ch)
            if (e->st == RUNNING && e.get() != this)
                other = true;
        if (prio == 'S' && other)
            return;
        if (prio == 'O')
            for (auto& e : parent->ch)
                if (e.get() != this && e->st == RUNNING)
                    e->end();
        set(RUNNING);
        execs++;
        for (auto& a : ch)
        {
            if (a->dom)
            {
                std::vector<El*> conflict;
                auto             find = [&](El* o)
                {
                    if (o->kind == ACTION && o != a.get() && o->st == RUNNING && o->entity == a->entity && (o->dom & a->dom))
                        conflict.push_back(o);
                };
                for (auto& i : model->inits)
                    find(i.get());
                model->each(model->root.get(), find);
                for (El* o : conflict)
                    if (o->st == RUNNING)
                        o->end();
            }
            a->start();
        }
    }
    inline void El::triggers()
    {
        if (st == RUNNING && !stop_var.empty() && model->is(stop_var))
        {
            stop();
        }
        if (st == STANDBY && (start_var.empty() || model->is(start_var)))
            start();
        if (st == RUNNING)
            for (auto& c : ch)
                c->triggers();
    }
    inline void El::step()
    {
        if (st != RUNNING)
            return;
        if (kind == ACTION)
        {
            if (--left <= 0)
                end();
            return;
        }
        for (auto& c : ch)
            c->step();
    }
    inline void El::stop()
    {
        for (auto& c : ch)
            c->stop();
        if (st == STANDBY || st == RUNNING)
        {
            set(COMPLETE);
            if (parent)
                parent->child_done();
        }
    }
    inline void El::end()
    {
        if (st == COMPLETE)
            return;
        for (auto& c : ch)
            if (c->st == RUNNING)
                c->end();
        if (st != RUNNING && st != STANDBY)
            return;
        if ((kind == GROUP || kind == EVENT) && execs < max_exec)
        {
            if (st == STANDBY)
                return;
            set(STANDBY);
            for (auto& c : ch)
                c->reset();
        }
        else
            set(COMPLETE);
        if (parent)
            parent->child_done();
    }

    // ---------------------------------------------------------------- builders
    inline P mk(Kind k, const std::string& n, std::vector<P> ch = {})
    {
        P e     = std::make_shared<El>();
        e->kind = k;
        e->name = n;
        e->ch   = ch;
        return e;
    }
    inline P deep(const P& p)
    {
        P e = std::make_shared<El>(*p);
        for (auto& c : e->ch)
            c = deep(c);
        return e;
    }

    // ---------------------------------------------------------------- to OpenSCENARIO
    inline std::string xml(El* e)
    {
        std::string s;
        auto        kids = [&]()
        {
            std::string r;
            for (auto& c : e->ch)
                r += xml(c.get());
            return r;
        };
        switch (e->kind)
        {
            case STORY:
                return "<Story name=\"" + e->name + "\">" + kids() + "</Story>";
            case ACT:
                return "<Act name=\"" + e->name + "\">" + kids() + (e->start_var.empty() ? "" : scn::trigger("StartTrigger", scn::var_cond(e->start_var))) +
                       (e->stop_var.empty() ? "" : scn::trigger("StopTrigger", scn::var_cond(e->stop_var))) + "</Act>";
            case GROUP:
                s = fmt("<ManeuverGroup name=\"%s\" maximumExecutionCount=\"%d\"><Actors selectTriggeringEntities=\"false\">", e->name.c_str(), e->max_exec);
                for (auto& a : e->actors)
                    s += "<EntityRef entityRef=\"" + a + "\"/>";
                return s + "</Actors>" + kids() + "</ManeuverGroup>";
            case MANEUVER:
                return "<Maneuver name=\"" + e->name + "\">" + kids() + "</Maneuver>";
            case EVENT:
                return fmt("<Event name=\"%s\" priority=\"%s\" maximumExecutionCount=\"%d\">",
                           e->name.c_str(),
                           e->prio == 'O' ? "override" : (e->prio == 'S' ? "skip" : "parallel"),
                           e->max_exec) +
                       kids() + (e->start_var.empty() ? "" : scn::trigger("StartTrigger", scn::var_cond(e->start_var))) + "</Event>";
            case ACTION:
                if (e->twin)
                    return "";
                if (!e->body.empty())
                    return "<Action name=\"" + e->name + "\">" + e->body + "</Action>";
                if (e->dom == NONE)
                    return "<Action name=\"" + e->name +
                           "\"><GlobalAction><VariableAction variableRef=\"dummy\"><SetAction value=\"3\"/></VariableAction></GlobalAction></Action>";
                if (e->dom == LONG)
                    return "<Action name=\"" + e->name + "\">" + scn::pa(scn::speed_action(e->speed, "linear", "time", e->frames * DT)) + "</Action>";
                return "<Action name=\"" + e->name + "\">" + scn::pa(scn::lane_change(e->lane, "linear", "time", e->frames * DT)) + "</Action>";
            default:
                return kids();
        }
    }

    inline std::map<std::string, std::string>& real_log()
    {
        static std::map<std::string, std::string> m;
        return m;
    }
    inline void on_change(const char*, int, int state, const char* path)
    {
        real_log()[path] += static_cast<char>('0' + state);
    }
    inline void on_param_decl(void*)
    {
        SE_RegisterStoryBoardElementStateChangeCallback(on_change);
    }
    inline std::string show(const std::map<std::string, std::string>& m)
    {
        static const char* nm[] = {"init", "standby", "running", "complete"};
        std::string        s;
        for (auto& k : m)
        {
            s += " " + (k.first.empty() ? std::string("<storyboard>") : k.first) + "=";
            for (char c : k.second)
                s += std::string(nm[c - '0']) + ",";
        }
        return s.empty() ? " (no change)" : s;
    }

    struct Spec
    {
        std::string              name;
        P                        root;
        std::vector<std::string> vars;
        std::vector<std::string> entities;
        int                      depth = 4;
        bool                     subsets = true;  // inputs: every subset of the variables (else: none or exactly one)
        std::vector<std::string> init_action;  // per entity: further init action (XML), never ending
        std::vector<int>         init_dom;
        std::vector<std::string> init_name;
    };

    inline std::string document(const Spec& sp, const std::string& roadfile)
    {
        std::string ents, init, vars = scn::var_decl("dummy", "integer", "0");
        for (size_t i = 0; i < sp.entities.size(); i++)
        {
            ents += scn::vehicle(sp.entities[i]);
            // one Private element per entity; the default speed only when no other longitudinal init action is given
            bool                     own_speed = i < sp.init_dom.size() && (sp.init_dom[i] & LONG);
            std::vector<std::string> acts      = {scn::teleport(scn::lane_pos(1, -2, 50 + 20 * static_cast<double>(i)))};
            if (!own_speed)
                acts.push_back(scn::speed_action(40));
            if (i < sp.init_action.size() && !sp.init_action[i].empty())
                acts.push_back(sp.init_action[i]);
            init += scn::init_private(sp.entities[i], acts);
        }
        for (auto& v : sp.vars)
            vars += scn::var_decl(v, "boolean", "false");
        return scn::xosc(roadfile,
                         ents,
                         init,
                         xml(sp.root.get()),
                         sp.root->stop_var.empty() ? "<StopTrigger/>" : scn::trigger("StopTrigger", scn::var_cond(sp.root->stop_var)),
                         vars);
    }

    // Runs one storyboard against every input sequence, comparing every frame with the model.
    inline void check(const Spec& sp)
    {
        Model m;
        m.root = deep(sp.root);
        m.link(m.root.get(), nullptr);
        auto add_init = [&](const std::string& ent, const std::string& what, int dom, int frames)
        {
            P a       = mk(ACTION, "Init " + ent + " " + what);
            a->dom    = dom;
            a->frames = frames;
            a->entity = ent;
            m.link(a.get(), nullptr);
            m.inits.push_back(a);
        };
        for (size_t i = 0; i < sp.entities.size(); i++)
        {
            add_init(sp.entities[i], "TeleportAction", LONG | LAT, 1);
            if (!(i < sp.init_dom.size() && (sp.init_dom[i] & LONG)))
                add_init(sp.entities[i], "LongitudinalAction", LONG, 1);
            if (i < sp.init_action.size() && !sp.init_action[i].empty())
                add_init(sp.entities[i], sp.init_name[i], sp.init_dom[i], 9999);
        }
        size_t    nv  = sp.vars.size();
        int       nin = sp.subsets ? (1 << nv) : static_cast<int>(nv) + 1;
        scn::Tree tree;
        tree.n     = nin;
        tree.depth = sp.depth;
        auto bits  = [&](int in) { return sp.subsets ? in : (in == 0 ? 0 : 1 << (in - 1)); };
        tree.show  = [&](std::vector<int> p)
        {
            std::string s;
            for (int i : p)
            {
                s += "{";
                for (size_t v = 0; v < nv; v++)
                    if (bits(i) & (1 << v))
                        s += sp.vars[v] + " ";
                s += "}";
            }
            return s;
        };
        std::string doc;
        std::string trace;
        auto        compare = [&](int frame) -> bool
        {
            vf::cmp(static_cast<long>(m.log.size()) + 1);
            vf::state(sp.name + m.canon());
            bool same = real_log() == m.log;
            bool q    = SE_GetQuitFlag() == 1;
            trace += fmt(" | %d:", frame) + show(real_log());
            if (!same || q != m.quit)
            {
                vf::violation(sp.name + "@" + tree.path_str(),
                              fmt("storyboard %s, frame %d after trigger inputs %s:\n expected%s%s\n observed%s%s",
                                  sp.name.c_str(),
                                  frame,
                                  tree.path_str().c_str(),
                                  show(m.log).c_str(),
                                  m.quit ? " QUIT" : "",
                                  show(real_log()).c_str(),
                                  q ? " QUIT" : ""),
                              doc);
                return false;
            }
            return true;
        };
        tree.apply = [&](int in) -> bool
        {
            m.on.clear();
            for (size_t v = 0; v < nv; v++)
            {
                bool b = bits(in) & (1 << v);
                if (b)
                    m.on.insert(sp.vars[v]);
                SE_SetVariableBool(sp.vars[v].c_str(), b);
            }
            real_log().clear();
            SE_StepDT(DT);
            m.frame(false);
            return compare(static_cast<int>(tree.path.size()));
        };
        tree.leaf = [&]()
        {
            vf::outcome(sp.name + trace);
            if (vf::fnv(trace) % 5000 == 1)
                vf::sample(sp.name + " " + tree.path_str() + trace);
        };
        tree.run(
            [&]() -> bool
            {
                scn::write_file("r.xodr", scn::odr(scn::straight_road(400, 3, 3)));
                char cwd[400];
                if (!getcwd(cwd, sizeof(cwd)))
                    return false;
                doc = document(sp, std::string(cwd) + "/r.xodr");
                SE_RegisterParameterDeclarationCallback(on_param_decl, nullptr);
                real_log().clear();
                if (!scn::load(doc))
                {
                    vf::violation(sp.name + "@load", "valid scenario rejected", doc);
                    return false;
                }
                m.frame(true);
                return compare(0);
            });
    }
}  // namespace story
