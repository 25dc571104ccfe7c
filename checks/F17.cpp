// F17: peak families and emission lines.  Every element of three libraries around
// every one of its edges, and every pair of elements.
#include "mc.hpp"
#include "reflibs.hpp"
#include "fisx_xrf.h"
using namespace mc;
using namespace fisx;
typedef std::map<std::string, double> MD;
typedef std::map<std::string, MD> MMD;
typedef std::vector<double> VD;
typedef std::vector<std::string> VS;
typedef std::vector<std::pair<std::string, double> > PF;

static std::map<std::string, double> families(const ref::Element & e, double E)
{
    MD f;
    for (auto & s : e.shells)
        if (e.binding.at(s.first) > 0 && E > e.binding.at(s.first) && ref::get(s.second.constants, "omega") > 0) f[e.name + " " + s.first] = e.binding.at(s.first);
    return f;
}
static void same(Run & r, const MD & got, const MD & want, const std::string & key, const std::string & at)
{
    std::string d;
    for (auto & p : want) { auto i = got.find(p.first); if (i == got.end()) d += " missing " + p.first; else if (!Run::close(i->second, p.second, 1e-10, 1e-12)) d += " " + p.first + "=" + num6(i->second) + " want " + num6(p.second); }
    for (auto & p : got) if (!want.count(p.first)) d += " extra " + p.first;
    r.check(d.empty(), key, at + d);
}
static void checkFamilies(Run & r, const PF & got, const MD & want, const std::string & w, const std::string & at)
{
    MD g; std::string d;
    for (size_t i = 0; i < got.size(); i++)
    {
        if (i && got[i].second < got[i - 1].second) d += " not ordered";
        if (g.count(got[i].first)) d += " repeated " + got[i].first;
        g[got[i].first] = got[i].second;
    }
    r.check(d.empty(), w + ":order of families", at + d);
    same(r, g, want, w + ":families", at);
}
// energies around every edge; the last one of each group is clear of rounding
static VD around(const ref::Element & e)
{
    std::set<double> q;
    for (auto & b : e.binding) if (b.second > 0) { q.insert(b.second); q.insert(std::nextafter(b.second, 1e9)); q.insert(std::nextafter(b.second, 0.0)); q.insert(b.second * 1.01); q.insert(b.second * 0.99); }
    q.insert(0.001); q.insert(1000.0); q.insert(20.0);
    return VD(q.begin(), q.end());
}

int main(int argc, char ** argv)
{
    static Main M;
    M.init = [] {
        initLibraries(3);
        for (int i = 0; i < 3; i++)
        {
            Material m("mix"); VS n = {"Fe", "SiO2", "PbCl2"}; VD a = {0.2, 0.5, 0.3}; m.setComposition(n, a);
            LIB[i]->addMaterial(m);
        }
    };
    return M.main(argc, argv, [](Main & M) {
        bool T = M.thorough();
        M.suite("edges", 109 * 3, [=](Run & r, int job) {
            int which = job / 109;
            const ref::Element & m = REF[which]->el[REF[which]->order[job % 109]];
            Elements & L = *LIB[which];
            const Element & e = L.getElement(m.name);
            std::string w = LIBNAME[which];
            VD q = around(m);
            MD last, lastF;
            r.op(w + " " + m.name);
            for (double E : q)
            {
                r.step();
                std::string at = m.name + " at " + num(E);
                MD f = families(m, E);
                checkFamilies(r, L.getPeakFamilies(m.name, E), f, w, at);
                checkFamilies(r, L.getPeakFamilies(VS(1, m.name), E), f, w + " list", at);
                MD g = e.getEmittedXRayLines(E), want = m.emitted(E);
                same(r, g, want, w + ":lines", at);
                same(r, L.getEmittedXRayLines(m.name, E), want, w + ":library lines", at);
                for (auto & p : last) r.check(g.count(p.first), w + ":line lost at a higher energy", at + " " + p.first);
                for (auto & p : lastF) r.check(f.count(p.first), w + ":family lost at a higher energy", at + " " + p.first);
                last = g; lastF = f;
                // excited shells: every one with a binding energy below
                VS x = e.getExcitedShells(E); std::set<std::string> xs(x.begin(), x.end());
                for (auto & b : m.binding) r.check(xs.count(b.first) == (b.second > 0 && E > b.second), w + ":excited shells", at + " " + b.first);
                r.check(xs.size() == x.size(), w + ":excited shells repeated", at);
                // what is produced has a positive rate at the energy of the transition; a subshell takes part from its edge on
                MMD fac = L.getExcitationFactors(m.name, E);
                for (auto & l : fac)
                {
                    std::string s = m.shells.count(l.first.substr(0, 2)) ? l.first.substr(0, 2) : l.first.substr(0, 1);
                    bool own = m.shells.count(s) && m.shells.at(s).fluo().count(l.first);
                    r.check(own, w + ":foreign line", at + " " + l.first);
                    if (!own) continue;
                    r.check(l.second["rate"] > 0, w + ":line without rate", at + " " + l.first);
                    r.eq(l.second["energy"], m.lineEnergy(l.first), w + ":energy of produced line", 1e-10);
                    r.check(E >= m.binding.at(s), w + ":impossible line", at + " " + l.first);
                }
            }
            same(r, L.getEmittedXRayLines(m.name), m.emitted(1000.0), w + ":all lines", m.name);
            same(r, e.getEmittedXRayLines(), m.emitted(1000.0), w + ":all lines", m.name);
            for (auto & s : m.shells) same(r, e.getXRayLines(s.first), s.second.fluo(), w + ":lines of a family", m.name);
            r.state(w + m.name);
        });
        int step = T ? 1 : 3;
        M.suite("pairs", 109, [=](Run & r, int job) {
            Elements & L = *LIB[0]; ref::Library & Q = *REF[0];
            const ref::Element & a = Q.el[Q.order[job]];
            int b0 = job % step + step * r.choose(109 / step);
            if (b0 >= 109) return;
            const ref::Element & b = Q.el[Q.order[b0]];
            static const VD E = {0.4, 1.9, 6.0, 15.2, 60.0};
            double x = r.pick(E);
            r.op(a.name + " and " + b.name + " at " + num6(x));
            MD f = families(a, x), g = families(b, x); f.insert(g.begin(), g.end());
            VS l; l.push_back(a.name); if (b.name != a.name) l.push_back(b.name);
            checkFamilies(r, L.getPeakFamilies(l, x), f, "list", r.log);
            if (a.name == b.name) return;
            checkFamilies(r, L.getPeakFamilies(a.name + b.name, x), f, "formula", r.log);
            checkFamilies(r, L.getPeakFamilies(b.name + "2" + a.name + "3", x), f, "formula", r.log);
            r.state(r.log);
        });
        M.suite("mixtures", 3, [=](Run & r, int job) {
            Elements & L = *LIB[job]; ref::Library & Q = *REF[job];
            static const std::vector<std::pair<std::string, VS> > mix = {
                {"mix", {"Fe", "Si", "O", "Pb", "Cl"}}, {"Fe2O3", {"Fe", "O"}}, {"(NH4)2SO4", {"N", "H", "S", "O"}}, {"C3(Si2Pb)0.5", {"C", "Si", "Pb"}}};
            static const VD E = {0.1, 0.6, 1.838, 1.839, 2.6, 3.0, 7.0, 7.111, 7.2, 13.1, 15.0, 15.3, 16.0, 87.0, 90.0, 200.0};
            auto & p = r.pick(mix); double x = r.pick(E);
            MD f; for (auto & n : p.second) { MD g = families(Q.el[n], x); f.insert(g.begin(), g.end()); }
            r.op(p.first + " at " + num6(x));
            checkFamilies(r, L.getPeakFamilies(p.first, x), f, "mixture", r.log);
            checkFamilies(r, L.getPeakFamilies(p.second, x), f, "list", r.log);
            r.state(r.log);
        });
        // a layer answers for its material, directly and through the calculator
        M.suite("layers", 9, [=](Run & r, int kind) {
            Elements & L = *LIB[0]; ref::Library & Q = *REF[0];
            static const VD E = {0.1, 0.6, 1.838, 1.839, 2.6, 3.0, 7.0, 7.111, 7.2, 13.1, 15.0, 15.3, 16.0, 87.0, 90.0, 200.0};
            double x = r.pick(E); Layer l("Cu", 1.0, 0.01); VS el; std::string name;
            auto own = [&](const std::map<std::string, double> & c) { Material m("own", 1.0, 0.01); m.setComposition(c); l.setMaterial(m); };
            if (kind == 0) el = {"Cu"};
            if (kind == 1) { l.setMaterial("mix"); el = {"Fe", "Si", "O", "Pb", "Cl"}; }
            if (kind == 2) { l.setMaterial("(NH4)2SO4"); el = {"N", "H", "S", "O"}; }
            if (kind == 3) { own({{"Pb", 1}}); el = {"Pb"}; }
            if (kind == 4) { own({{"Fe", 1}, {"SiO2", 2}, {"FeS", 1}}); el = {"Fe", "Si", "O", "S"}; }
            if (kind == 5) { own({{"mix", 1}, {"Ba", 3}}); el = {"Fe", "Si", "O", "Pb", "Cl", "Ba"}; }
            if (kind == 6) { own({{"Ba", 3}}); l.setMaterial("FeO"); el = {"Fe", "O"}; }
            if (kind == 7) { own({{"Ba", 3}}); own({{"Zn", 1}, {"S", 1}}); el = {"Zn", "S"}; }
            if (kind == 8) { l = Layer("Ag2Au", 1.0, 0.01); el = {"Ag", "Au"}; }
            MD f; for (auto & n : el) { MD g = families(Q.el[n], x); f.insert(g.begin(), g.end()); }
            r.op("layer " + std::to_string(kind) + " at " + num6(x));
            checkFamilies(r, l.getPeakFamilies(x, L), f, "layer", r.log);
            XRF c; checkFamilies(r, c.getLayerPeakFamilies(l, x, L), f, "layer, calculator", r.log);
            std::map<std::string, double> given = l.getComposition(L), other = {{"Pb", 1.0}};
            checkFamilies(r, c.getLayerPeakFamilies(l, x, L, given), f, "layer, calculator, its composition given", r.log);
            checkFamilies(r, c.getLayerPeakFamilies(l, x, L, other), families(Q.el["Pb"], x), "layer, calculator, one element given", r.log);
            other["Sn"] = 0.5; f = families(Q.el["Pb"], x); { MD g = families(Q.el["Sn"], x); f.insert(g.begin(), g.end()); }
            checkFamilies(r, c.getLayerPeakFamilies(l, x, L, other), f, "layer, calculator, two elements given", r.log);
            r.state(r.log);
        });
        M.suite("unknown", 1, [=](Run & r, int) {
            static const VS bad = {"", "Zz", "fe", "Fe(", "nothing", "FeZz"};
            std::string n = r.pick(bad);
            r.op("unknown " + n);
            r.check(throws([&] { LIB[0]->getPeakFamilies(n, 20.0); }), "unknown name accepted", n);
            r.check(throws([&] { LIB[0]->getPeakFamilies(VS(1, n), 20.0); }), "unknown name accepted in a list", n);
            r.check(throws([&] { LIB[0]->getEmittedXRayLines(n, 20.0); }), "unknown name accepted", n);
            r.check(LIB[0]->getPeakFamilies(VS(), 20.0).empty(), "families of nothing");
        });
    });
}
