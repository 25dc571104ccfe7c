// F07: material update histories against a normalised-map model.
#include "mc.hpp"
#include "fisx_material.h"
using namespace mc;
using fisx::Material;
typedef std::vector<double> VD;
typedef std::vector<std::string> VS;

struct Model {
    std::string name = "Unset name", comment; double density = 1.0, thickness = 1.0; bool named = false;
    std::map<std::string, double> comp;
    std::string canon() const
    {
        std::string s = name + "|" + comment + "|" + num6(density) + "|" + num6(thickness) + (named ? "!" : "");
        for (auto & p : comp) s += "|" + p.first + "=" + num6(p.second);
        return s;
    }
    bool init(const std::string & n, double d, double t, const std::string & c)
    {
        if (n.empty() || !(d > 0) || !(t > 0)) return false;
        name = n; density = d; thickness = t; comment = c; named = true; return true;
    }
    bool set(const VS & n, const VD & a)
    {
        if (n.size() != a.size()) return false;
        for (double x : a) if (!(x > 0)) return false;
        std::map<std::string, double> s; double tot = 0;
        for (size_t i = 0; i < n.size(); i++) { s[n[i]] += a[i]; tot += a[i]; }
        for (auto & p : s) p.second /= tot;
        comp = s; return true;
    }
};

static void observe(Run & r, Material & m, const Model & k, const std::string & w)
{
    r.check(m.getName() == k.name, w + ":name", m.getName() + " vs " + k.name);
    r.check(m.getComment() == k.comment, w + ":comment", m.getComment() + " vs " + k.comment);
    r.eq(m.getDefaultDensity(), k.density, w + ":density", 0, 0);
    r.eq(m.getDefaultThickness(), k.thickness, w + ":thickness", 0, 0);
    std::map<std::string, double> c = m.getComposition();
    bool same = c.size() == k.comp.size(); double sum = 0;
    for (auto & p : c) sum += p.second;
    if (same) for (auto & p : k.comp) { auto it = c.find(p.first); same = same && it != c.end() && Run::close(it->second, p.second, 1e-12, 0); }
    std::string got; for (auto & p : c) got += p.first + "=" + num(p.second) + " ";
    r.check(same, w + ":composition", "got " + got + " want " + k.canon());
    if (k.comp.size()) r.eq(sum, 1.0, w + ":fractions sum to one", 1e-12);
    r.state(k.canon());
}
static std::string show(const VS & n, const VD & a)
{ std::string s = "["; for (auto & x : n) s += x + " "; s += "]/["; for (double x : a) s += num6(x) + " "; return s + "]"; }

int main(int argc, char ** argv)
{
    static Main M;
    return M.main(argc, argv, [](Main & M) {
        bool T = M.thorough();
        static const VS N = {"Fe", "O", "H2O", "Air"};
        static const VD A = {1.0, 0.25, 3e-7, 2e4, 0.0, -1.0};
        // every list of components
        M.suite("compositions", 24, [=](Run & r, int job) {
            int n = r.choose(T ? 5 : 4);
            VS names; VD am;
            if (n == 0 && job) return;
            for (int i = 0; i < n; i++)
            {
                names.push_back(i == 0 ? N[job / 6] : r.pick(N));
                am.push_back(i == 0 ? A[job % 6] : A[r.choose(i > 2 ? 3 : 6)]);
            }
            int miss = r.choose(3);      // equal lengths, one amount too many, one too few
            if (miss == 1) am.push_back(1.0);
            if (miss == 2) { if (am.empty()) return; am.pop_back(); }
            Material m("X", 2.5, 0.5, "c"); Model k; k.init("X", 2.5, 0.5, "c");
            k.set({"Old"}, {1.0}); m.setComposition(VS(1, "Old"), VD(1, 1.0));
            r.op("setComposition " + show(names, am));
            bool ok = k.set(names, am);
            bool th = throws([&] { m.setComposition(names, am); });
            r.check(th == !ok, ok ? "valid composition refused" : "invalid composition accepted", r.log);
            observe(r, m, k, "lists");
            if (miss == 0)
            {
                std::map<std::string, double> mp; VS n2; VD a2;
                for (size_t i = 0; i < names.size(); i++) mp[names[i]] = am[i];
                for (auto & p : mp) { n2.push_back(p.first); a2.push_back(p.second); }
                Material m2("Y"); Model k2; k2.init("Y", 1, 1, "");
                r.op("setComposition(map)");
                ok = k2.set(n2, a2);
                th = throws([&] { m2.setComposition(mp); });
                r.check(th == !ok, ok ? "valid composition map refused" : "invalid composition map accepted", r.log);
                observe(r, m2, k2, "map");
                // normalising an already normalised composition changes nothing
                if (ok && n) { m2.setComposition(m2.getComposition()); observe(r, m2, k2, "idempotent"); }
            }
        });
        int depth = T ? 5 : 4;
        const int NOP = 15;
        M.suite("histories", NOP * 3, [=](Run & r, int job) {
            Material m; Model k;
            if (job % 3 == 1) { m = Material("Base"); k.init("Base", 1, 1, ""); }
            if (job % 3 == 2) { m = Material("Base", 7.5, 0.125, "steel"); k.init("Base", 7.5, 0.125, "steel"); }
            for (int d = 0; d < depth; d++)
            {
                int o = d == 0 ? job / 3 : r.choose(NOP);
                bool ok = true, th = false;
                auto comp = [&](const VS & n, const VD & a)
                { r.op("setComposition " + show(n, a)); ok = k.set(n, a); th = throws([&] { m.setComposition(n, a); }); };
                auto init = [&](const std::string & n, double de, double t, const std::string & c)
                { r.op("initialize " + n + " " + num6(de) + " " + num6(t) + " " + c); ok = k.init(n, de, t, c); th = throws([&] { m.initialize(n, de, t, c); }); };
                auto nm = [&](const std::string & n)
                { r.op("setName " + n); ok = !k.named && k.init(n, k.density, k.thickness, k.comment); th = throws([&] { m.setName(n); }); };
                switch (o)
                {
                case 0: comp({"Fe", "O"}, {2, 3}); break;
                case 1: comp({"Fe", "Fe", "O"}, {1, 1, 2}); break;
                case 2: comp({"Air"}, {0.1}); break;
                case 3: comp({"Fe", "O"}, {1, -1}); break;
                case 4: comp({"Fe", "O"}, {0, 1}); break;
                case 5: comp({"Fe", "O"}, {1}); break;
                case 6: comp({}, {}); break;
                case 7: init("A", 3.0, 0.25, "first"); break;
                case 8: init("", 2.0, 1.0, "bad"); break;
                case 9: init("B", 0.0, 1.0, "bad"); break;
                case 10: init("B", 2.0, -1.0, "bad"); break;
                case 11: init("B", 0.5, 2.0, ""); break;
                case 12: nm("C"); break;
                case 13: nm(""); break;
                case 14: { r.op("copy and change the copy"); Material c(m); try { c.initialize("Z", 9, 9, "z"); c.setComposition(VS(1, "Z"), VD(1, 1.0)); } catch (...) { } } break;
                }
                r.check(th == !ok, ok ? "valid update refused" : "invalid update accepted", r.log);
                observe(r, m, k, "history");
            }
        });
    });
}
