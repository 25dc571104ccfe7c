// F19: escape peaks of detectors against an independent evaluation of the escape
// probability.
#include "mc.hpp"
#include "reflibs.hpp"
#include "fisx_detector.h"
using namespace mc;
using namespace fisx;
typedef std::map<std::string, double> MD;
typedef std::map<std::string, MD> MMD;
typedef std::vector<double> VD;
typedef std::vector<std::string> VS;
static const double PI_ = std::acos(-1.0);
static MD norm(MD c) { double s = 0; for (auto & p : c) s += p.second; for (auto & p : c) p.second /= s; return c; }

struct Det { const char * name; MD atoms; };
static const std::vector<Det> DET = {
    {"Si", {{"Si", 1}}}, {"Ge", {{"Ge", 1}}}, {"CdTe", {{"Cd", 1}, {"Te", 1}}}, {"GaAs", {{"Ga", 1}, {"As", 1}}}, {"NaI", {{"Na", 1}, {"I", 1}}},
    {"HgI2", {{"Hg", 1}, {"I", 2}}}, {"Ar", {{"Ar", 1}}}, {"Xe", {{"Xe", 1}}}, {"Gd2O2S", {{"Gd", 2}, {"O", 2}, {"S", 1}}}, {"Bi4Ge3O12", {{"Bi", 4}, {"Ge", 3}, {"O", 12}}}, {"C5H8O2", {{"C", 5}, {"H", 8}, {"O", 2}}}};
static MD fractions(const MD & a) { MD r; for (auto & p : a) r[p.first] = p.second * REF[0]->el.at(p.first).mass; return norm(r); }

static double mixMu(int lib, const MD & c, double e)
{
    double s = 0; static std::map<std::pair<int, std::string>, std::map<double, double> > memo;
    for (auto & p : c) { auto & m = memo[{lib, p.first}]; auto i = m.find(e); if (i == m.end()) { if (m.size() > 3000) m.clear(); i = m.insert({e, REF[lib]->el.at(p.first).total(e)}).first; } s += p.second * i->second; }
    return s;
}
// every line with its escape ratio for a thick detector
struct Peak { double thick, energy, x; };
static std::map<std::string, Peak> peaks(int lib, const MD & c, double e, double angle)
{
    std::map<std::string, Peak> r; double si = angle == 90.0 ? 1.0 : std::fabs(std::sin(angle * PI_ / 180)), mi = mixMu(lib, c, e);
    for (auto & p : c)
        for (auto & l : REF[lib]->el.at(p.first).factors(e, p.second))
        {
            double ef = l.second.at("energy"), x = si * mixMu(lib, c, ef) / mi;
            Peak k; k.energy = e - ef; k.x = x; k.thick = l.second.at("rate") * 0.5 / mi * (1 - x * std::log1p(1 / x));
            r[p.first + "_" + l.first + "esc"] = k;
        }
    return r;
}
static void judge(Run & r, const MMD & got, const std::map<std::string, Peak> & all, double threshold, double eff, const std::string & w)
{
    std::string d; int n = 0;
    for (auto & p : all)
    {
        bool near = Run::close(p.second.thick, threshold, 1e-7 + 2e-15 * p.second.x * p.second.x, 1e-16), in = p.second.thick > threshold;
        auto g = got.find(p.first);
        if (g == got.end()) { if (in && !near) { if (n++ < 4) d += " missing " + p.first + " ratio " + num6(p.second.thick); } continue; }
        if (!in && !near) { if (n++ < 4) d += " extra " + p.first + " ratio " + num6(p.second.thick); continue; }
        // the cancelling difference in the escape probability limits the precision
        if (!g->second.count("rate") || !Run::close(g->second.at("rate"), p.second.thick / eff, 1e-8 + 2e-15 * p.second.x * p.second.x, 1e-18)) { if (n++ < 4) d += " " + p.first + " ratio " + num(ref::get(g->second, "rate")) + " want " + num(p.second.thick / eff); }
        if (!g->second.count("energy") || !Run::close(g->second.at("energy"), p.second.energy, 1e-9, 1e-9)) { if (n++ < 4) d += " " + p.first + " at " + num(ref::get(g->second, "energy")) + " want " + num(p.second.energy); }
        if (!(ref::get(g->second, "energy") >= 0)) d += " " + p.first + " below zero";
        if (!(ref::get(g->second, "rate") > 0)) d += " " + p.first + " not positive";
    }
    for (auto & g : got) if (!all.count(g.first)) { if (n++ < 4) d += " invented " + g.first; }
    r.check(d.empty(), w, d);
}
static VD energies(int lib, const MD & c)
{
    std::set<double> q = {0.5, 2.0, 5.9, 20.0, 60.0, 122.0, 600.0};
    for (auto & p : c) for (auto & s : VS{"K", "L1", "L3", "M1", "M5"})
    {
        double b = ref::get(REF[lib]->el.at(p.first).binding, s);
        if (b > 0.2) { q.insert(b); q.insert(std::nextafter(b, 0.0)); q.insert(b * 1.001); }
    }
    return VD(q.begin(), q.end());
}
static const VD ANGLE = {90.0, 45.0, 10.0, 135.0, -60.0, 1.0};
static const VD THICK = {0.0, 1e-4, 0.05, 2.0};
static const VD THR = {1e-7, 0.0, 1e-4, 1e-2, 1.0};

int main(int argc, char ** argv)
{
    static Main M;
    M.init = [] {
        initLibraries(2);
        for (int i = 0; i < 2; i++) { Material m("sensor", 5.0, 0.1); m.setComposition(VS{"CdTe", "ZnTe"}, VD{9, 1}); LIB[i]->addMaterial(m); }
    };
    static const int ND = (int) DET.size() + 1;
    return M.main(argc, argv, [](Main & M) {
        bool T = M.thorough();
        auto material = [](int k) {
            if (k < (int) DET.size()) return fractions(DET[k].atoms);
            MD a = fractions({{"Cd", 1}, {"Te", 1}}), b = fractions({{"Zn", 1}, {"Te", 1}}), c; for (auto & p : a) c[p.first] += 0.9 * p.second; for (auto & p : b) c[p.first] += 0.1 * p.second; return c;
        };
        M.suite("library", 2 * ND * 6, [=](Run & r, int job) {
            int lib = job % 2, k = job / 2 % ND, part = job / 2 / ND; MD c = material(k); VD E = energies(lib, c);
            if (part >= (int) E.size()) return;
            int n = ((int) E.size() - part + 5) / 6; double e = E[part + 6 * r.choose(n)], a = ANGLE[r.choose(T ? 6 : lib == 0 ? 5 : 2)];
            r.note(std::string(lib ? "other bindings " : "default ") + (k < (int) DET.size() ? DET[k].name : "sensor") + " at " + num(e) + " keV, angle " + num6(a));
            r.site("escape");
            auto all = peaks(lib, c, e, a);
            MMD last; bool first = true;
            for (auto t : THICK) for (auto th : THR)
            {
                r.step();
                double eff = t > 0 ? -std::expm1(-mixMu(lib, c, e) * t / std::fabs(std::sin(a * PI_ / 180))) : 1.0;
                MMD g = LIB[lib]->getEscape(c, e, 0.010, th, 4, a, t);
                judge(r, g, all, th, eff, "library" + std::string(t > 0 ? ", thin" : ""));
                if (t == 0 && th == 1e-7) { last = g; first = false; }
                if (t == 0 && th > 1e-7) for (auto & p : g) r.check(last.count(p.first), "a higher threshold adds peaks", p.first);
            }
            if (a == 90.0)
            {
                judge(r, LIB[lib]->getEscape(c, e), all, 1e-7, 1.0, "library, defaults");
                Detector d(k < (int) DET.size() ? DET[k].name : "sensor", 5.0, 0.1);
                judge(r, d.getEscape(e, *LIB[lib]), all, 1e-7, 1.0, "detector");
                for (auto th : THR) { d.setMinimumEscapePeakIntensity(th); judge(r, d.getEscape(e, *LIB[lib]), all, th, 1.0, "detector with threshold"); judge(r, d.getEscape(e, *LIB[lib], "label", 1), all, th, 1.0, "detector, labelled"); }
                Detector o("any", 5.0, 0.1); Material m("stuff"); m.setComposition(c); o.setMaterial(m);
                judge(r, o.getEscape(e, *LIB[lib]), all, 1e-7, 1.0, "detector with own material");
            }
            r.state(r.log);
        });
        // every pure element as detector
        M.suite("elements", 98, [=](Run & r, int z) {
            std::string s = ref::TABLE[z].symbol; MD c; c[s] = 1; VD E = energies(0, c); double e = r.pick(E);
            r.note(s + " at " + num(e)); r.step(); r.site("escape of " + s);
            judge(r, LIB[0]->getEscape(c, e), peaks(0, c, e, 90.0), 1e-7, 1.0, "pure element"); r.state(r.log);
        });
        M.suite("refusals", 1, [=](Run & r, int) {
            r.note("refusals"); r.step(); Elements & L = *LIB[0];
            for (auto & n : {"", "Nope", "(("}) { Detector d(n, 1, 1); r.check(throws([&] { d.getEscape(20.0, L); }), "detector without material not refused", n); r.check(throws([&] { d.getEscape(20.0, L, "x"); }) && throws([&] { d.getEscape(20.0, L, "x"); }), "labelled query without material not refused", n); }
            r.check(throws([&] { L.getEscape(MD{{"Nope", 1.0}}, 20.0); }), "unknown element not refused"); r.check(throws([&] { L.getEscape(MD(), 20.0); }), "empty composition not refused");
        });
    });
}
