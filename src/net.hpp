// Road networks: chains of roads (each drawn with or against the direction of travel), rings, junctions; reference walk along lane links.
#pragma once
#include <functional>
#include "road.hpp"
namespace ref
{
    struct Conn
    {
        int                              in = 0, road = 0;
        bool                             end = false;  // contact point of the connecting road
        vector<std::pair<int, int>>      links;        // from lane of the incoming road, to lane of the connecting road
    };
    struct Junct
    {
        int          id = 100;
        vector<Conn> conns;
        string       xml() const
        {
            string t = fmt("<junction id=\"%d\" name=\"j%d\">", id, id);
            int    n = 0;
            for (auto& c : conns)
            {
                t += fmt("<connection id=\"%d\" incomingRoad=\"%d\" connectingRoad=\"%d\" contactPoint=\"%s\">", n++, c.in, c.road, c.end ? "end" : "start");
                for (auto& l : c.links)
                    t += fmt("<laneLink from=\"%d\" to=\"%d\"/>", l.first, l.second);
                t += "</connection>";
            }
            return t + "</junction>";
        }
    };
    struct WPos
    {
        int    road = 0, lane = 0;
        double s = 0, off = 0;
        int    dir = 1;     // +1: moving with increasing s
        double h   = 0;     // heading relative to the road direction
        int    rc  = 0;     // 0 ok, -2 end of road
        bool   off_open = false;  // lane offset left open (forced move to a neighbour lane)
        double slack = 0;   // s tolerance (curvature changed within one move)
        bool   undecided = false;
        int    links = 0;
        int    code  = 0;   // what the last crossing was: 1 a road, 2 a junction, 3 the end of a lane; -1 left open
    };
    struct Network
    {
        string        name;
        vector<Road>  roads;
        vector<Junct> juncts;
        std::function<bool(int, int)> prefer;  // (from road, connecting road) preferred in junctions
        const Road&   road(int id) const
        {
            for (auto& r : roads)
                if (r.id == id)
                    return r;
            abort();
        }
        string xml() const
        {
            string b;
            for (auto& r : roads)
                b += r.xml();
            for (auto& j : juncts)
                b += j.xml();
            return "<?xml version=\"1.0\"?><OpenDRIVE><header revMajor=\"1\" revMinor=\"5\" name=\"\" version=\"1\" north=\"0\" south=\"0\" east=\"0\" west=\"0\"/>" + b + "</OpenDRIVE>";
        }
        double tof(const WPos& p) const
        {
            return road(p.road).lane_t(p.s, p.lane, p.off);
        }
        static int closest(const Road& r, const Section& c, double s, double t)
        {
            (void)s;
            int    best = 0;
            double d    = 1e9;
            for (auto& l : c.lanes)
                if (l.type == "driving")
                {
                    double sum = 0;
                    int    sg  = l.id < 0 ? -1 : 1;
                    for (int k = 1; k <= abs(l.id); k++)
                        sum += poly_at(c.lane(sg * k)->width, 0) / (k == abs(l.id) ? 2 : 1);
                    double e = fabs(t - sg * sum);
                    if (e < d)
                    {
                        d    = e;
                        best = l.id;
                    }
                }
            (void)r;
            return best;
        }
        // connections of a junction may also be travelled from the outgoing road backwards
        vector<Conn> both(const Junct& j) const
        {
            vector<Conn> v = j.conns;
            for (auto& c : j.conns)
            {
                const Road& q = road(c.road);
                const Link& o = c.end ? q.pred : q.succ;
                Conn        b;
                b.in   = o.id;
                b.road = c.road;
                b.end  = !c.end;
                for (auto& l : c.links)
                {
                    const Lane* a = (c.end ? q.sections.back() : q.sections.front()).lane(l.second);
                    const Lane* z = q.sections.size() == 1 ? a : nullptr;
                    if (z)
                        b.links.push_back({c.end ? z->pred : z->succ, z->id});
                }
                bool dup = false;
                for (auto& d : v)
                    if (d.in == b.in && d.road == b.road && d.links == b.links)
                        dup = true;
                if (!dup)
                    v.push_back(b);
            }
            return v;
        }
        // all possible results (several only where the choice is random)
        void walk(WPos p, double dist, double sel, vector<WPos>& out) const
        {
            const Road& r0 = road(p.road);
            double      k  = r0.curvature(p.s), sc = 1 / (1 - k * tof(p));
            go(p, dist * sc * p.dir, sel, k, out, 0);
        }
        void go(WPos p, double ds, double sel, double k0, vector<WPos>& out, int links) const
        {
            const Road& r  = road(p.road);
            double      to = p.s + ds;
            bool        fw = ds >= 0;
            // sections
            size_t si = r.sec_idx(p.s);
            if (!fw && si > 0 && p.s == r.sections[si].s)
                si--;
            double tp = tof(p) - p.off;
            while (fw ? (si + 1 < r.sections.size() && to >= r.sections[si + 1].s) : (si > 0 && to < r.sections[si].s))
            {
                const Lane* l = r.sections[si].lane(p.lane);
                int         n = l ? (fw ? l->succ : l->pred) : 0;
                size_t      sn = fw ? si + 1 : si - 1;
                if (p.lane != 0 && (n == 0 || !r.sections[sn].lane(n)))
                {
                    n          = closest(r, r.sections[sn], fw ? r.sections[sn].s : r.sections[si].s, tp);
                    p.off_open = true;
                }
                if (p.lane != 0)
                    p.lane = n;
                si = sn;
                double se = fw ? r.sections[sn].s + 1e-9 : r.sections[sn + 1].s - 1e-9;
                tp = r.lane_t(se, p.lane);
            }
            if (to >= 0 && to <= r.length)
            {
                p.s = to;
                // a lane narrowed down to nothing: the closest lane that has a width
                const Lane* nl = r.sections[si].lane(p.lane);
                if (nl && nl->width.size() > 1)
                {
                    double w = poly_at(nl->width, to - r.sections[si].s);
                    if (w < 1e-9 && links == 0)
                    {
                        p.lane     = abs(p.lane) == 1 ? 2 * p.lane : p.lane < 0 ? p.lane + 1 : p.lane - 1;
                        p.off      = 0;
                        p.off_open = false;
                        p.code     = -1;
                    }
                    else if (w < 3.5 || links)
                        p.undecided = true;
                }
                if (links && k0 != r.curvature(to))
                    p.slack += fabs(ds) * (fabs(r.curvature(to)) + fabs(k0)) * 8;
                p.links = links;
                out.push_back(p);
                return;
            }
            if (const Lane* nl = r.sections[si].lane(p.lane))
                if (nl->width.size() > 1)
                {
                    p.undecided = true;  // leaving the road through a lane of no width
                    out.push_back(p);
                    return;
                }
            double      rest = fw ? to - r.length : -to;
            const Link& lk   = fw ? r.succ : r.pred;
            auto        stop = [&]()
            {
                p.s     = fw ? r.length : 0;
                p.rc    = -2;
                p.links = links;
                out.push_back(p);
            };
            if (lk.id < 0)
                return stop();
            auto enter = [&](int rid, int lane, bool end, int code)
            {
                const Road& q   = road(rid);
                WPos        n   = p;
                bool        rev = fw == end;  // leaving through the end into an end, or through the start into a start
                n.road          = rid;
                n.s             = end ? q.length : 0;
                double t_old    = tp;
                if (rev)
                {
                    n.off   = -n.off;
                    n.dir   = -n.dir;
                    n.h     = n.h + M_PI;
                    t_old   = -t_old;
                }
                const Section& c = end ? q.sections.back() : q.sections.front();
                if (p.lane != 0 && (lane == 0 || !c.lane(lane)))
                {
                    lane       = closest(q, c, n.s, t_old);
                    n.off      = 0;  // a forced move ends on the lane centre
                    n.off_open = false;
                    code       = 3;
                }
                n.lane = lane;
                n.code = code;
                go(n, end ? -rest : rest, sel, k0, out, links + 1);
            };
            if (!lk.junct)
            {
                const Lane* l = r.sections[si].lane(p.lane);
                return enter(lk.id, l ? (fw ? l->succ : l->pred) : 0, lk.end, 1);
            }
            for (auto& j : juncts)
                if (j.id == lk.id)
                {
                    struct Cand
                    {
                        int    road, lane;
                        bool   end;
                        double ang;
                    };
                    vector<Cand> cs;
                    double       x, y, h_in;
                    r.plan(fw ? r.length : 0, x, y, h_in);
                    if (!fw)
                        h_in += M_PI;
                    for (auto& c : both(j))
                        if (c.in == r.id)
                            for (auto& l : c.links)
                                if (l.first == p.lane)
                                {
                                    const Road& q = road(c.road);
                                    double      h;
                                    q.plan(c.end ? 0 : q.length, x, y, h);
                                    if (c.end)
                                        h += M_PI;
                                    cs.push_back({c.road, l.second, c.end, angdiff(h, h_in)});
                                }
                    if (cs.empty())
                        return stop();
                    if (prefer)
                    {
                        vector<Cand> pc;
                        for (auto& c : cs)
                            if (prefer(r.id, c.road))
                                pc.push_back(c);
                        if (!pc.empty())
                            cs = pc;
                    }
                    if (fw != (p.lane < 0))
                    {
                        WPos keep = p;
                        stop();  // whether a junction can be travelled backwards is left open
                        p = keep;
                    }
                    double best = 1e9;
                    for (auto& c : cs)
                        best = std::min(best, fabs(angdiff(c.ang, sel)));
                    for (auto& c : cs)
                        // travelling against the lane direction: the angle refers to the lane direction, the choice is left open
                        if (cs.size() == 1 || sel < 0 || fw != (p.lane < 0) || fabs(angdiff(c.ang, sel)) < best + 1e-6)
                            enter(c.road, c.lane, c.end, 2);
                    return;
                }
            abort();
        }
    };

    // shortest way along connected lanes from a to b, leaving a's road at either end
    struct Way
    {
        double len  = 1e9;
        bool   fwd  = true;   // leaves through the end of a's road
        int    lane = 0;      // a's lane continued to b
        bool   rev  = false;  // b's road is drawn against a's
        int    via  = 0;
        bool   back = false;  // travels a junction backwards
    };
    inline void ways(const Network& n, const WPos& a, const WPos& b, vector<Way>& out)
    {
        struct St
        {
            int    road, lane;
            bool   at_end;
            double len;
            bool   fwd, rev;
            int    depth;
            bool   back;
        };
        vector<St> todo;
        auto across = [](const Road& r, int lane, double s0, double s1)
        {
            size_t i = r.sec_idx(s0), j = r.sec_idx(s1);
            while (i != j && lane)
            {
                const Lane* l = r.sections[i].lane(lane);
                lane          = l ? (i < j ? l->succ : l->pred) : 0;
                i += i < j ? 1 : -1;
            }
            return lane;
        };
        const Road& ra = n.road(a.road);
        if (a.road == b.road)
            return;
        todo.push_back({a.road, across(ra, a.lane, a.s, ra.length - 1e-6), true, ra.length - a.s, true, false, 0, false});
        todo.push_back({a.road, across(ra, a.lane, a.s, 1e-6), false, a.s, false, false, 0, false});
        while (!todo.empty())
        {
            St s = todo.back();
            todo.pop_back();
            if (s.lane == 0 || s.depth > 9)
                continue;
            const Road& r  = n.road(s.road);
            const Link& lk = s.at_end ? r.succ : r.pred;
            if (lk.id < 0)
                continue;
            struct E
            {
                int  road, lane;
                bool end;
                bool back = false;
            };
            vector<E> es;
            if (!lk.junct)
            {
                const Lane* l = (s.at_end ? r.sections.back() : r.sections.front()).lane(s.lane);
                es.push_back({lk.id, l ? (s.at_end ? l->succ : l->pred) : 0, lk.end});
            }
            else
                for (auto& j : n.juncts)
                    if (j.id == lk.id)
                    {
                        size_t ci = 0;
                        for (auto& c : n.both(j))
                        {
                            bool bk = ci++ >= j.conns.size();
                            if (c.in == r.id)
                            {
                                bool any = false;
                                for (auto& l : c.links)
                                    if (l.first == s.lane)
                                    {
                                        es.push_back({c.road, l.second, c.end, bk});
                                        any = true;
                                    }
                                if (!any)
                                    es.push_back({c.road, 0, c.end, bk});
                            }
                        }
                    }
            for (auto& e : es)
            {
                if (!e.lane && e.road != b.road)
                    continue;  // the target's road may be reached in any of its lanes
                const Road& q = n.road(e.road);
                St          t = s;
                t.road        = e.road;
                t.rev         = s.at_end == e.end ? !s.rev : s.rev;
                t.depth++;
                t.back = s.back || e.back;
                if (e.road == b.road)
                {
                    Way w;
                    w.len  = s.len + (e.end ? q.length - b.s : b.s);
                    w.fwd  = s.fwd;
                    w.lane = across(q, e.lane, e.end ? q.length - 1e-6 : 1e-6, b.s);
                    w.rev  = t.rev;
                    w.via  = t.depth;
                    w.back = t.back;
                    out.push_back(w);
                    continue;
                }
                t.len    = s.len + q.length;
                t.lane   = across(q, e.lane, e.end ? q.length - 1e-6 : 1e-6, e.end ? 1e-6 : q.length - 1e-6);
                t.at_end = !e.end;
                todo.push_back(t);
            }
        }
    }

    // ---- chains: described in the direction of travel, then cut into roads drawn with or against it
    struct Seg
    {
        double             len;
        int                nl, nr;
        std::map<int, int> next;  // lane -> lane of the next segment
    };
    inline std::map<int, int> same(int nl, int nr)
    {
        std::map<int, int> m;
        for (int i = -nr; i <= nl; i++)
            if (i)
                m[i] = i;
        return m;
    }
    // chain of roads; each road is a list of segments (lane sections); bit i of rev: road i is drawn against the direction of travel
    inline Network chain(const string& name, const vector<vector<Seg>>& rs, int rev, double k, bool closed, double h0 = 0.4, int id0 = 1)
    {
        Network n;
        n.name = name;
        double S = 0;
        Road   base;
        base.h0 = h0;
        double total = 0;
        for (auto& r : rs)
            for (auto& s : r)
                total += s.len;
        base.geoms = {k == 0 ? line(total) : arc(total, k)};
        base.finish();
        size_t N   = rs.size();
        auto   isr = [&](size_t i) { return (rev >> i) & 1; };
        auto   sgn = [&](size_t i) { return isr(i) ? -1 : 1; };
        for (size_t i = 0; i < N; i++)
        {
            double L = 0;
            for (auto& s : rs[i])
                L += s.len;
            Road   r;
            double x, y, h;
            base.plan(isr(i) ? S + L : S, x, y, h);
            r.id = id0 + static_cast<int>(i);
            r.x0 = x;
            r.y0 = y;
            r.h0 = isr(i) ? h + M_PI : h;
            double kk = isr(i) ? -k : k;
            r.geoms   = {k == 0 ? line(L) : arc(L, kk)};
            r.finish();
            bool hn = i + 1 < N || closed, hp = i > 0 || closed;
            size_t in = (i + 1) % N, ip = (i + N - 1) % N;
            Link nx, pv;
            if (hn)
            {
                nx.id  = id0 + static_cast<int>(in);
                nx.end = isr(in);
            }
            if (hp)
            {
                pv.id  = id0 + static_cast<int>(ip);
                pv.end = !isr(ip);
            }
            r.succ = isr(i) ? pv : nx;
            r.pred = isr(i) ? nx : pv;
            double s0 = 0;
            for (size_t j = 0; j < rs[i].size(); j++)
            {
                const Seg& g = rs[i][j];
                Section    c = isr(i) ? section(L - s0 - g.len, g.nr, g.nl) : section(s0, g.nl, g.nr);
                for (auto& l : c.lanes)
                {
                    int tl = sgn(i) * l.id;  // id in the direction of travel
                    // next
                    int fwd = 0, bwd = 0;
                    bool has_next = j + 1 < rs[i].size() || hn;
                    int  ns = j + 1 < rs[i].size() ? sgn(i) : sgn(in);
                    if (has_next && g.next.count(tl))
                        fwd = ns * g.next.at(tl);
                    const Seg* pg = j > 0 ? &rs[i][j - 1] : hp ? &rs[ip].back() : nullptr;
                    int        ps = j > 0 ? sgn(i) : sgn(ip);
                    if (pg)
                        for (auto& m : pg->next)
                            if (m.second == tl)
                                bwd = ps * m.first;
                    l.succ = isr(i) ? bwd : fwd;
                    l.pred = isr(i) ? fwd : bwd;
                }
                r.sections.push_back(c);
                s0 += g.len;
            }
            if (isr(i))
                std::reverse(r.sections.begin(), r.sections.end());
            n.roads.push_back(r);
            S += L;
        }
        return n;
    }

    // ---- star junction with arms at multiples of 90 degrees, two lanes per direction: inner lane left/straight, outer lane straight/right
    // bit i of inward: arm i is drawn towards the junction; mode 0: one connecting road per movement, drawn in driving direction,
    // 1: drawn against it, 2: one road for both directions
    inline Network star(const string& name, int arms, int inward, int mode, double R = 20, double L = 60)
    {
        Network n;
        n.name = name;
        Junct J;
        J.id = 50;
        auto isin = [&](int i) { return (inward >> i) & 1; };
        for (int i = 0; i < arms; i++)
        {
            Road   r;
            double a = i * M_PI / 2;
            r.id     = i + 1;
            double d = isin(i) ? R + L : R;
            r.x0     = d * cos(a);
            r.y0     = d * sin(a);
            r.h0     = isin(i) ? a + M_PI : a;
            r.geoms  = {line(L)};
            r.finish();
            Link j;
            j.id    = J.id;
            j.junct = true;
            (isin(i) ? r.succ : r.pred) = j;
            r.sections = {section(0, 2, 2)};
            n.roads.push_back(r);
        }
        auto lane_in = [&](int i, int k) { return isin(i) ? -k : k; };   // k-th lane towards the junction
        auto lane_out = [&](int i, int k) { return isin(i) ? k : -k; };
        int  id = 11;
        for (int i = 0; i < arms; i++)
            for (int j = 0; j < arms; j++)
            {
                if (i == j || (mode == 2 && j < i))
                    continue;
                int turn = (j - i + 4) % 4;  // 1: arm to the left of the arm we come from = right turn, 2 straight, 3 left turn
                // from arm i: heading i*90+180; leaving heading j*90: difference (j-i)*90-180: 1 -> -90 (right), 2 -> 0, 3 -> +90 (left)
                Road   r;
                bool   against = mode == 1;
                double a = i * M_PI / 2, b = j * M_PI / 2;
                r.id       = id++;
                r.junction = J.id;
                double len = turn == 2 ? 2 * R : R * M_PI / 2, k = turn == 2 ? 0 : turn == 3 ? 1 / R : -1 / R;
                r.x0 = R * cos(against ? b : a);
                r.y0 = R * sin(against ? b : a);
                r.h0 = against ? b + M_PI : a + M_PI;
                r.geoms = {turn == 2 ? line(len) : arc(len, against ? -k : k)};
                r.finish();
                Link li, lj;
                li.id  = i + 1;
                li.end = isin(i);
                lj.id  = j + 1;
                lj.end = isin(j);
                r.pred = against ? lj : li;
                r.succ = against ? li : lj;
                auto lanes = [](int tr) { return tr == 2 ? vector<int>{1, 2} : tr == 3 ? vector<int>{1} : vector<int>{2}; };
                Section c = mode == 2 ? section(0, 2, 2) : against ? section(0, 2, 0) : section(0, 0, 2);
                Conn    ci, cj;
                ci.in = i + 1;
                ci.road = r.id;
                ci.end = against;
                cj.in = j + 1;
                cj.road = r.id;
                cj.end = true;
                for (auto& l : c.lanes)
                {
                    int  kk = abs(l.id);
                    bool ij = against || l.id < 0;  // lane used for i -> j
                    vector<int> us = ij ? lanes(turn) : lanes(4 - turn);
                    if (std::find(us.begin(), us.end(), kk) == us.end())
                    {
                        l.type = "none";
                        continue;
                    }
                    int from = lane_in(ij ? i : j, kk), to = lane_out(ij ? j : i, kk);
                    bool drawn = ij != against;  // lane travels with increasing s
                    l.pred = drawn ? from : to;
                    l.succ = drawn ? to : from;
                    (ij ? ci : cj).links.push_back({from, l.id});
                }
                r.sections = {c};
                n.roads.push_back(r);
                J.conns.push_back(ci);
                if (mode == 2)
                    J.conns.push_back(cj);
            }
        n.juncts.push_back(J);
        return n;
    }
    // two stars sharing a road: arm 1 of the first is arm 3 of the second
    inline Network twin(const string& name, int inward_a, int inward_b, int mode, double R = 20, double L = 60)
    {
        if (inward_a & 1)
            inward_b &= ~4;
        else
            inward_b |= 4;
        Network a = star(name, 4, inward_a, mode, R, L), b = star(name, 4, inward_b, mode, R, L);
        auto    rid = [](int id) { return id == 3 ? 1 : id < 10 ? id + 80 : id + 30; };
        for (auto& r : b.roads)
        {
            for (Link* l : {&r.pred, &r.succ})
                if (l->id >= 0)
                    l->id = l->junct ? 60 : rid(l->id);
            if (r.junction >= 0)
                r.junction = 60;
            if (r.id == 3)
            {
                (inward_a & 1 ? a.roads[0].pred : a.roads[0].succ) = inward_a & 1 ? r.pred : r.succ;
                continue;
            }
            r.id = rid(r.id);
            r.x0 += 2 * R + L;
            r.finish();
            a.roads.push_back(r);
        }
        Junct j = b.juncts[0];
        j.id    = 60;
        for (auto& c : j.conns)
        {
            c.in   = rid(c.in);
            c.road = rid(c.road);
        }
        a.juncts.push_back(j);
        return a;
    }
}  // namespace ref
