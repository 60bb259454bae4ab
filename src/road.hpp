// Reference model of OpenDRIVE roads: description, XML writer, and independent evaluation (plan view, elevation, lanes).
#pragma once
#include <algorithm>
#include "vf.hpp"

namespace ref
{
    using std::string;
    using std::vector;
    using vf::fmt;

    struct Poly
    {
        double s = 0, a = 0, b = 0, c = 0, d = 0;
        double at(double x) const
        {
            double p = x - s;
            return a + p * (b + p * (c + p * d));
        }
        double prim(double x) const
        {
            double p = x - s;
            return b + p * (2 * c + p * 3 * d);
        }
    };
    inline double poly_at(const vector<Poly>& v, double s)
    {
        if (v.empty())
            return 0;
        size_t i = 0;
        while (i + 1 < v.size() && s >= v[i + 1].s)
            i++;
        return v[i].at(s);
    }
    inline double poly_prim(const vector<Poly>& v, double s)
    {
        if (v.empty())
            return 0;
        size_t i = 0;
        while (i + 1 < v.size() && s >= v[i + 1].s)
            i++;
        return v[i].prim(s);
    }

    struct Geom
    {
        enum Type
        {
            LINE,
            ARC,
            SPIRAL,
            POLY3,
            PP3_NORM,
            PP3_ARC
        } type;
        double len;
        double k0 = 0, k1 = 0;        // arc / spiral curvature
        Poly   u, v;                  // poly3: v; paramPoly3: u, v
        double s = 0, x = 0, y = 0, h = 0;  // filled by Road::finish

        // local pose at ds, by numerical integration independent of the code under test
        void local(double ds, double& lx, double& ly, double& lh) const
        {
            if (type == LINE)
            {
                lx = ds;
                ly = lh = 0;
            }
            else if (type == ARC)
            {
                lh = k0 * ds;
                if (fabs(k0) < 1e-12)
                {
                    lx = ds;
                    ly = 0;
                }
                else
                {
                    lx = sin(lh) / k0;
                    ly = (1 - cos(lh)) / k0;
                }
            }
            else if (type == SPIRAL)
            {
                double kd = (k1 - k0) / len;
                int    n  = 200;
                double hstep = ds / n;
                lx = ly = 0;
                auto th = [&](double q) { return k0 * q + 0.5 * kd * q * q; };
                for (int i = 0; i < n; i++)
                {
                    double a = i * hstep, m = a + hstep / 2, b = a + hstep;
                    lx += hstep / 6 * (cos(th(a)) + 4 * cos(th(m)) + cos(th(b)));
                    ly += hstep / 6 * (sin(th(a)) + 4 * sin(th(m)) + sin(th(b)));
                }
                lh = th(ds);
            }
            else
            {
                double p = param(ds);
                if (type == POLY3)
                {
                    lx = p;
                    ly = v.at(p);
                    lh = atan2(v.prim(p), 1.0);
                }
                else
                {
                    lx = u.at(p);
                    ly = v.at(p);
                    lh = atan2(v.prim(p), u.prim(p));
                }
            }
        }
        double speed(double p) const
        {
            return type == POLY3 ? hypot(1.0, v.prim(p)) : hypot(u.prim(p), v.prim(p));
        }
        double arc(double p0, double p1, int n = 400) const
        {
            double sum = 0, st = (p1 - p0) / n;
            for (int i = 0; i < n; i++)
            {
                double a = p0 + i * st;
                sum += st / 6 * (speed(a) + 4 * speed(a + st / 2) + speed(a + st));
            }
            return sum;
        }
        // curve parameter at arc length ds
        double param(double ds) const
        {
            double pmax = type == PP3_NORM ? 1.0 : len * 1.5;
            double lo = 0, hi = pmax;
            if (type == PP3_NORM && arc(0, 1) <= ds)
                return 1;
            for (int i = 0; i < 60; i++)
            {
                double m = (lo + hi) / 2;
                if (arc(0, m) < ds)
                    lo = m;
                else
                    hi = m;
            }
            return (lo + hi) / 2;
        }
        double curvature(double ds) const
        {
            if (type == LINE)
                return 0;
            if (type == ARC)
                return k0;
            if (type == SPIRAL)
                return k0 + (k1 - k0) * ds / len;
            double e = 0.01, x0, y0, h0, h1;
            double a = std::max(0.0, ds - e), b = std::min(len, ds + e);
            local(a, x0, y0, h0);
            local(b, x0, y0, h1);
            return remainder(h1 - h0, 2 * M_PI) / (b - a);
        }
        string xml() const
        {
            string t = fmt("<geometry s=\"%.17g\" x=\"%.17g\" y=\"%.17g\" hdg=\"%.17g\" length=\"%.17g\">", s, x, y, h, len);
            switch (type)
            {
                case LINE:
                    t += "<line/>";
                    break;
                case ARC:
                    t += fmt("<arc curvature=\"%.17g\"/>", k0);
                    break;
                case SPIRAL:
                    t += fmt("<spiral curvStart=\"%.17g\" curvEnd=\"%.17g\"/>", k0, k1);
                    break;
                case POLY3:
                    t += fmt("<poly3 a=\"%.17g\" b=\"%.17g\" c=\"%.17g\" d=\"%.17g\"/>", v.a, v.b, v.c, v.d);
                    break;
                default:
                    t += fmt("<paramPoly3 aU=\"%.17g\" bU=\"%.17g\" cU=\"%.17g\" dU=\"%.17g\" aV=\"%.17g\" bV=\"%.17g\" cV=\"%.17g\" dV=\"%.17g\" pRange=\"%s\"/>",
                             u.a, u.b, u.c, u.d, v.a, v.b, v.c, v.d, type == PP3_NORM ? "normalized" : "arcLength");
            }
            return t + "</geometry>";
        }
    };
    inline Geom line(double l)
    {
        Geom g;
        g.type = Geom::LINE;
        g.len  = l;
        return g;
    }
    inline Geom arc(double l, double k)
    {
        Geom g;
        g.type = Geom::ARC;
        g.len  = l;
        g.k0 = g.k1 = k;
        return g;
    }
    inline Geom spiral(double l, double k0, double k1)
    {
        Geom g;
        g.type = Geom::SPIRAL;
        g.len  = l;
        g.k0   = k0;
        g.k1   = k1;
        return g;
    }
    inline Geom pp3(double scale, Poly u, Poly v, bool norm)
    {
        Geom g;
        g.type = norm ? Geom::PP3_NORM : Geom::PP3_ARC;
        g.u    = u;
        g.v    = v;
        g.len  = 1;
        if (norm)
            g.len = g.arc(0, 1);
        else
            g.len = scale;  // u'^2 + v'^2 == 1 expected for arcLength
        return g;
    }
    inline Geom poly3(double len, Poly v)
    {
        Geom g;
        g.type = Geom::POLY3;
        g.len  = len;
        g.v    = v;
        return g;
    }

    struct Lane
    {
        int          id;
        vector<Poly> width = {{0, 3.5}};
        string       type  = "driving";
        int          pred = 0, succ = 0;  // 0: no link
        struct Height
        {
            double s, inner, outer;
        };
        vector<Height> height;
        // height above the road plane at a section relative s, q in 0..1 from the inner to the outer border
        double height_at(double s, double q) const
        {
            if (height.empty())
                return 0;
            size_t i = 0;
            while (i + 1 < height.size() && s >= height[i + 1].s)
                i++;
            double in = height[i].inner, out = height[i].outer;
            if (i + 1 < height.size())
            {
                double f = (s - height[i].s) / (height[i + 1].s - height[i].s);
                in += f * (height[i + 1].inner - in);
                out += f * (height[i + 1].outer - out);
            }
            return in + std::min(std::max(q, 0.0), 1.0) * (out - in);
        }
    };
    struct Section
    {
        double       s = 0;
        vector<Lane> lanes;  // without the centre lane
        const Lane*  lane(int id) const
        {
            for (auto& l : lanes)
                if (l.id == id)
                    return &l;
            return nullptr;
        }
    };
    struct Link
    {
        int  id    = -1;
        bool junct = false;
        bool end   = false;  // contact point of the linked road
    };
    struct Pose
    {
        double x = 0, y = 0, z = 0, h = 0, p = 0, r = 0;
    };
    struct Road
    {
        int             id = 1;
        int             junction = -1;
        bool            lht = false;
        bool            ascending = false;  // order of the lanes in the file
        double          x0 = 0, y0 = 0, h0 = 0;
        vector<Geom>    geoms;
        vector<Poly>    elev, super, loff;
        vector<Section> sections;
        Link            pred, succ;
        struct Type
        {
            double s;
            string type;
            double speed;
            string unit;
        };
        vector<Type> types;
        double       length = 0;
        string       extra;  // signals, objects

        void finish()
        {
            double s = 0, x = x0, y = y0, h = h0;
            for (auto& g : geoms)
            {
                g.s = s;
                g.x = x;
                g.y = y;
                g.h = h;
                double lx, ly, lh;
                g.local(g.len, lx, ly, lh);
                x += lx * cos(h) - ly * sin(h);
                y += lx * sin(h) + ly * cos(h);
                h += lh;
                s += g.len;
            }
            length = s;
        }
        void end_pose(double& x, double& y, double& h) const
        {
            plan(length, x, y, h);
        }
        const Geom& geom_at(double s) const
        {
            size_t i = 0;
            while (i + 1 < geoms.size() && s > geoms[i + 1].s)
                i++;
            return geoms[i];
        }
        void plan(double s, double& x, double& y, double& h) const
        {
            const Geom& g = geom_at(s);
            double      lx, ly, lh;
            g.local(s - g.s, lx, ly, lh);
            x = g.x + lx * cos(g.h) - ly * sin(g.h);
            y = g.y + lx * sin(g.h) + ly * cos(g.h);
            h = g.h + lh;
        }
        double curvature(double s) const
        {
            const Geom& g = geom_at(s);
            return g.curvature(s - g.s);
        }
        // pose of the road surface at s, t: orientation is that of the reference line
        Pose at(double s, double t, double up = 0) const
        {
            Pose o;
            plan(s, o.x, o.y, o.h);
            double z  = poly_at(elev, s);
            o.p       = -atan(poly_prim(elev, s));
            o.r       = poly_at(super, s);
            double ch = cos(o.h), sh = sin(o.h), cp = cos(o.p), sp = sin(o.p), cr = cos(o.r), sr = sin(o.r);
            // second column of Rz(h) Ry(p) Rx(r)
            o.x += t * (ch * sp * sr - sh * cr);
            o.y += t * (sh * sp * sr + ch * cr);
            o.z = z + t * (cp * sr);
            // third column
            o.x += up * (ch * sp * cr + sh * sr);
            o.y += up * (sh * sp * cr - ch * sr);
            o.z += up * (cp * cr);
            return o;
        }
        size_t sec_idx(double s) const
        {
            size_t i = 0;
            while (i + 1 < sections.size() && s >= sections[i + 1].s)
                i++;
            return i;
        }
        const Section& sec(double s) const
        {
            return sections[sec_idx(s)];
        }
        double width(double s, int id) const
        {
            const Section& c = sec(s);
            const Lane*    l = c.lane(id);
            return l ? poly_at(l->width, s - c.s) : 0;
        }
        double width_prim(double s, int id) const
        {
            const Section& c = sec(s);
            const Lane*    l = c.lane(id);
            return l ? poly_prim(l->width, s - c.s) : 0;
        }
        double lane_t(double s, int id, double off = 0) const  // t of lane centre + off
        {
            double t = poly_at(loff, s), sum = 0;
            int    sg = id < 0 ? -1 : 1;
            for (int k = 1; k < abs(id); k++)
                sum += width(s, sg * k);
            if (id)
                sum += width(s, id) / 2;
            return t + sg * sum + off;
        }
        double lane_slope(double s, int id) const  // dt/ds of the lane centre
        {
            double t = poly_prim(loff, s), sum = 0;
            int    sg = id < 0 ? -1 : 1;
            for (int k = 1; k < abs(id); k++)
                sum += width_prim(s, sg * k);
            if (id)
                sum += width_prim(s, id) / 2;
            return t + sg * sum;
        }
        string lane_xml(const Lane& l) const
        {
            string t = fmt("<lane id=\"%d\" type=\"%s\" level=\"false\"><link>", l.id, l.type.c_str());
            if (l.pred)
                t += fmt("<predecessor id=\"%d\"/>", l.pred);
            if (l.succ)
                t += fmt("<successor id=\"%d\"/>", l.succ);
            t += "</link>";
            for (auto& w : l.width)
                t += fmt("<width sOffset=\"%.17g\" a=\"%.17g\" b=\"%.17g\" c=\"%.17g\" d=\"%.17g\"/>", w.s, w.a, w.b, w.c, w.d);
            for (auto& h : l.height)
                t += fmt("<height sOffset=\"%.17g\" inner=\"%.17g\" outer=\"%.17g\"/>", h.s, h.inner, h.outer);
            return t + "</lane>";
        }
        string xml() const
        {
            string t = fmt("<road name=\"r%d\" length=\"%.17g\" id=\"%d\" junction=\"%d\"%s><link>", id, length, id, junction, lht ? " rule=\"LHT\"" : "");
            auto   lk = [](const char* n, const Link& l) -> string
            {
                if (l.id < 0)
                    return "";
                if (l.junct)
                    return fmt("<%s elementType=\"junction\" elementId=\"%d\"/>", n, l.id);
                return fmt("<%s elementType=\"road\" elementId=\"%d\" contactPoint=\"%s\"/>", n, l.id, l.end ? "end" : "start");
            };
            t += lk("predecessor", pred) + lk("successor", succ) + "</link>";
            for (auto& y : types)
                t += fmt("<type s=\"%.17g\" type=\"%s\">", y.s, y.type.c_str()) +
                     (y.speed > 0 ? fmt("<speed max=\"%.17g\" unit=\"%s\"/>", y.speed, y.unit.c_str()) : string("")) + "</type>";
            t += "<planView>";
            for (auto& g : geoms)
                t += g.xml();
            t += "</planView><elevationProfile>";
            for (auto& e : elev)
                t += fmt("<elevation s=\"%.17g\" a=\"%.17g\" b=\"%.17g\" c=\"%.17g\" d=\"%.17g\"/>", e.s, e.a, e.b, e.c, e.d);
            t += "</elevationProfile><lateralProfile>";
            for (auto& e : super)
                t += fmt("<superelevation s=\"%.17g\" a=\"%.17g\" b=\"%.17g\" c=\"%.17g\" d=\"%.17g\"/>", e.s, e.a, e.b, e.c, e.d);
            t += "</lateralProfile><lanes>";
            for (auto& e : loff)
                t += fmt("<laneOffset s=\"%.17g\" a=\"%.17g\" b=\"%.17g\" c=\"%.17g\" d=\"%.17g\"/>", e.s, e.a, e.b, e.c, e.d);
            for (auto& c : sections)
            {
                string      left, right;
                vector<int> ids;
                for (auto& l : c.lanes)
                    ids.push_back(l.id);
                std::sort(ids.rbegin(), ids.rend());
                if (ascending)
                    std::reverse(ids.begin(), ids.end());
                for (int i : ids)
                    (i > 0 ? left : right) += lane_xml(*c.lane(i));
                t += fmt("<laneSection s=\"%.17g\">", c.s) + (left.empty() ? "" : "<left>" + left + "</left>") +
                     "<center><lane id=\"0\" type=\"none\" level=\"false\"/></center>" + (right.empty() ? "" : "<right>" + right + "</right>") + "</laneSection>";
            }
            return t + "</lanes>" + extra + "</road>";
        }
    };
    inline Section section(double s, int left, int right, double w = 3.5, const string& type = "driving")
    {
        Section c;
        c.s = s;
        for (int i = 1; i <= left; i++)
        {
            Lane l;
            l.id    = i;
            l.width = {{0, w}};
            l.type  = type;
            c.lanes.push_back(l);
        }
        for (int i = 1; i <= right; i++)
        {
            Lane l;
            l.id    = -i;
            l.width = {{0, w}};
            l.type  = type;
            c.lanes.push_back(l);
        }
        return c;
    }
    inline double angdiff(double a, double b)
    {
        return remainder(a - b, 2 * M_PI);
    }
}  // namespace ref
