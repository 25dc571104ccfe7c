// F04: user transmission tables.  Exhaustive small tables and update histories
// against a piecewise-linear reference table.
#include "mc.hpp"
#include "fisx_transmissiontable.h"
using namespace mc;
using fisx::TransmissionTable;
typedef std::vector<double> VD;

struct Model {
    std::string name, comment;
    std::vector<std::pair<double, double> > t;      // nodes, ascending energy
    Model() { t.push_back(std::make_pair(0.0, 1.0)); }
    double at(double e) const
    {
        if (t.empty()) return 1.0;
        if (e <= t.front().first) return t.front().second;
        if (e >= t.back().first) return t.back().second;
        for (size_t i = 0; i + 1 < t.size(); i++)
            if (e >= t[i].first && e < t[i + 1].first)
                return t[i].second + (t[i + 1].second - t[i].second) * (e - t[i].first) / (t[i + 1].first - t[i].first);
        return NAN;
    }
    // returns false when the update must be refused (state unchanged)
    bool set(const VD & e, const VD & v, const std::string & n, const std::string & c)
    {
        if (name.size() && n.size()) return false;
        if (comment.size() && c.size()) return false;
        if (e.size() != v.size()) return false;
        for (size_t i = 0; i < e.size(); i++)
        {
            if (e[i] < 0 || v[i] < 0) return false;
            if (i && e[i] < e[i - 1]) return false;
        }
        std::vector<std::pair<double, double> > k;
        for (size_t i = 0; i < e.size(); i++)
        {
            if (i && e[i] == e[i - 1])
            {
                // a repeated energy is a step 0.001 eV wide; the last one given counts
                if (i > 1 && e[i - 2] == e[i]) k.back().second = v[i];
                else k.push_back(std::make_pair(e[i] + 1e-6, v[i]));
            }
            else k.push_back(std::make_pair(e[i], v[i]));
        }
        t = k;
        if (n.size()) name = n;
        if (c.size()) comment = c;
        return true;
    }
    std::string canon() const
    {
        std::string s = name + "|" + comment;
        for (auto & p : t) s += "|" + num6(p.first) + "," + num6(p.second);
        return s;
    }
};

static void observe(Run & r, const TransmissionTable & t, const Model & m, const std::string & where)
{
    r.check(t.getName() == m.name, where + ":name", "name is '" + t.getName() + "' expected '" + m.name + "'");
    r.check(t.getComment() == m.comment, where + ":comment", "comment is '" + t.getComment() + "'");
    std::map<double, double> g = t.getTransmissionTable();
    bool same = g.size() == m.t.size(); size_t i = 0;
    if (same) for (auto & p : g) { same = same && p.first == m.t[i].first && p.second == m.t[i].second; i++; }
    r.check(same, where + ":table", "stored table differs from " + m.canon());
    VD q;
    q.push_back(0.0); q.push_back(0.3); q.push_back(1e6); q.push_back(-1.0);
    for (size_t k = 0; k < m.t.size(); k++)
    {
        q.push_back(m.t[k].first);
        q.push_back(m.t[k].first + 1e-9); q.push_back(m.t[k].first - 1e-9);
        if (k) { double a = m.t[k - 1].first, b = m.t[k].first; q.push_back(0.5 * (a + b)); q.push_back(a + 0.125 * (b - a)); q.push_back(a + 0.97 * (b - a)); }
    }
    VD desc(q.rbegin(), q.rend());
    VD v = t.getTransmission(q), w = t.getTransmission(desc);
    r.check(v.size() == q.size() && w.size() == q.size(), where + ":vector size");
    for (size_t k = 0; k < q.size(); k++)
    {
        double want = m.at(q[k]);
        r.eq(t.getTransmission(q[k]), want, where + ":value", 1e-7, 1e-9);
        r.eq(v[k], t.getTransmission(q[k]), where + ":vector equals scalar", 0, 0);
        r.eq(w[q.size() - 1 - k], v[k], where + ":order of queries", 0, 0);
    }
    // exactly tabulated energies are exact
    for (size_t k = 0; k < m.t.size(); k++)
        r.eq(t.getTransmission(m.t[k].first), m.t[k].second, where + ":tabulated value", 1e-15, 0);
    r.state(m.canon());
}

static std::string show(const VD & e, const VD & v)
{
    std::string s = "[";
    for (size_t i = 0; i < e.size(); i++) s += (i ? " " : "") + num6(e[i]);
    s += "]->[";
    for (size_t i = 0; i < v.size(); i++) s += (i ? " " : "") + num6(v[i]);
    return s + "]";
}

int main(int argc, char ** argv)
{
    static Main M;
    return M.main(argc, argv, [](Main & M) {
        bool T = M.thorough();
        static const VD E = {0.0, 1.0, 2.0, 3.5, 10.0, -1.0};
        static const VD V = {0.0, 0.25, 1.0, -0.1, 1.5};
        int maxn = T ? 5 : 4;
        // every table over the grid, in every order, by both interfaces
        M.suite("tables", 6 * 5, [=](Run & r, int job) {
            int n = r.choose(maxn + 1);
            VD e, v;
            if (n == 0) { if (job) return; }
            else { e.push_back(E[job / 5]); v.push_back(V[job % 5]); }
            int nv = n > 3 ? 3 : 5;
            for (int i = 1; i < n; i++) { e.push_back(r.pick(E)); v.push_back(V[r.choose(nv)]); }
            std::string sh = show(e, v);
            TransmissionTable t; Model m;
            bool ok = m.set(e, v, "", "");
            r.op("set vectors " + sh);
            bool th = throws([&] { t.setTransmissionTable(e, v); });
            r.check(th == !ok, ok ? "valid table refused" : "invalid table accepted", sh);
            observe(r, t, m, "vectors");
            std::map<double, double> mp; VD me, mv;
            for (size_t i = 0; i < e.size(); i++) mp[e[i]] = v[i];
            for (auto & p : mp) { me.push_back(p.first); mv.push_back(p.second); }
            TransmissionTable t2; Model m2;
            ok = m2.set(me, mv, "", "");
            r.op("set map");
            th = throws([&] { t2.setTransmissionTable(mp); });
            r.check(th == !ok, ok ? "valid map refused" : "invalid map accepted", sh);
            observe(r, t2, m2, "map");
        });
        // every history of updates
        int depth = T ? 5 : 4;
        M.suite("histories", 3 * 15, [=](Run & r, int job) {
            static const std::vector<std::pair<VD, VD> > tabs = {
                {{1, 2, 5}, {0.1, 0.7, 0.4}}, {{2}, {0.5}}, {{}, {}}, {{3, 3, 4}, {0.2, 0.9, 0.1}},
                {{1, 2}, {0.1}}, {{2, 1}, {0.3, 0.4}}, {{1, 2}, {0.1, -0.2}}, {{-1, 2}, {0.1, 0.2}}};
            static const std::vector<std::string> names = {"", "A"};
            TransmissionTable t = job % 3 == 0 ? TransmissionTable() : job % 3 == 1 ? TransmissionTable("N") : TransmissionTable("N", "C");
            Model m; if (job % 3) m.name = "N"; if (job % 3 == 2) m.comment = "C";
            for (int d = 0; d < depth; d++)
            {
                int o = d == 0 ? job / 3 : r.choose(15);
                if (o == 0) { r.op("setName B"); t.setName("B"); m.name = "B"; }
                else if (o == 1) { r.op("setName ''"); t.setName(""); m.name = ""; }
                else if (o == 2) { r.op("setComment D"); t.setComment("D"); m.comment = "D"; }
                else if (o == 3) { r.op("setComment ''"); t.setComment(""); m.comment = ""; }
                else if (o == 4)
                {
                    r.op("copy"); TransmissionTable c(t); c.setName("other"); c.setTransmissionTable(VD(1, 7.0), VD(1, 0.77));
                }
                else
                {
                    int k = (o - 5) * 8 / 10;        // spread 10 ops over the 8 tables
                    bool nm = (o == 9 || o == 5 || o == 12), cm = (o == 10 || o == 5 || o == 12);
                    bool viaMap = (o == 14 || o == 6 || o == 12);
                    VD e = tabs[k].first, v = tabs[k].second;
                    bool th, ok;
                    std::string n = nm ? "X" : "", c = cm ? "Y" : "";
                    if (viaMap)
                    {
                        std::map<double, double> mp; VD me, mv;
                        for (size_t i = 0; i < e.size() && i < v.size(); i++) mp[e[i]] = v[i];
                        for (auto & p : mp) { me.push_back(p.first); mv.push_back(p.second); }
                        r.op("setMap " + show(me, mv) + " name='" + n + "' comment='" + c + "'");
                        ok = m.set(me, mv, n, c);
                        th = throws([&] { t.setTransmissionTable(mp, n, c); });
                    }
                    else
                    {
                        r.op("setVectors " + show(e, v) + " name='" + n + "' comment='" + c + "'");
                        ok = m.set(e, v, n, c);
                        th = throws([&] { t.setTransmissionTable(e, v, n, c); });
                    }
                    r.check(th == !ok, ok ? "valid update refused" : "invalid update accepted", r.log);
                }
                observe(r, t, m, "history");
            }
        });
    });
}
