// F11: attenuation of mixtures in every equivalent description against the
// weighted sum of the coefficients of the elements.
#include "mc.hpp"
#include "reflibs.hpp"
#include "fisx_xrf.h"
#include <fstream>
using namespace mc;
using namespace fisx;
typedef std::map<std::string, double> MD;
typedef std::vector<double> VD;
typedef std::vector<std::string> VS;
typedef std::map<std::string, VD> MV;

static const VS EL = {"H", "C", "O", "Si", "Fe", "Cu", "Sn", "Gd", "Pb", "U"};
static const VD AM = {1.0, 2.0, 0.25, 1e-3, 1e6};
static const char * PROC[] = {"coherent", "compton", "pair", "photoelectric", "total"};
static MD norm(MD c) { double s = 0; for (auto & p : c) s += p.second; for (auto & p : c) p.second /= s; return c; }
static MD massFractions(const MD & atoms) { MD r; for (auto & p : atoms) r[p.first] = p.second * REF[0]->el.at(p.first).mass; return norm(r); }

// what an element does, asked once per energy
static const MD & elemental(int lib, const std::string & el, double e)
{
    static std::map<std::string, std::map<double, MD> > memo[3];
    auto & m = memo[lib][el]; auto i = m.find(e);
    if (i != m.end()) return i->second;
    return m[e] = lib < 2 ? REF[lib]->el.at(el).muAt(e) : LIB[lib]->getMassAttenuationCoefficients(el, e);
}
static VD energies(const MD & c)
{
    std::set<double> q = {1.0, 20.0, 150.0};
    for (auto & p : c)
        for (auto & s : {"K", "L3", "M5"})
        {
            double b = ref::get(REF[0]->el.at(p.first).binding, s);
            if (b > 0.5) { q.insert(b); q.insert(std::nextafter(b, 0.0)); }
        }
    return VD(q.begin(), q.end());
}
static void judgeOne(Run & r, const MD & got, const MD & frac, int lib, double e, const std::string & key)
{
    std::string d; double t = 0;
    for (auto & p : frac) t += p.second * elemental(lib, p.first, e).at("total");
    for (auto & k : PROC)
    {
        double w = 0; for (auto & p : frac) w += p.second * elemental(lib, p.first, e).at(k);
        auto i = got.find(k);
        if (i == got.end()) d += std::string(" no ") + k;
        else if (!Run::close(i->second, w, 1e-8, 1e-13 * t)) d += std::string(" ") + k + " " + num(i->second) + " want " + num(w);
    }
    auto i = got.find("energy");
    if (i == got.end() || i->second != e) d += " energy";
    r.check(d.empty(), key, num(e) + " keV" + d);
}
static void judge(Run & r, MV got, const MD & frac, int lib, const VD & E, const std::string & key)
{
    for (auto & p : got) if (!r.check(p.second.size() == E.size() || p.first.size() < 3 || p.first == "all other", key + ":length", p.first)) return;
    for (auto & k : PROC) if (!r.check(got.count(k) && got[k].size() == E.size(), key + ":missing", k)) return;
    for (size_t i = 0; i < E.size(); i++)
    {
        MD one; one["energy"] = got["energy"].size() == E.size() ? got["energy"][i] : -1; for (auto & k : PROC) one[k] = got[k][i];
        judgeOne(r, one, frac, lib, E[i], key);
    }
}
static std::string cnt(double v) { char b[60]; snprintf(b, sizeof b, "%.9f", v); std::string s = b; while (s.back() == '0') s.pop_back(); if (s.back() == '.') s.pop_back(); return s; }

static void everyWay(Run & r, int lib, const MD & amount)
{
    Elements & L = *LIB[lib]; L.removeMaterials();
    MD frac = norm(amount); VD E = energies(amount); VD R(E.rbegin(), E.rend());
    r.site("map");
    judge(r, L.getMassAttenuationCoefficients(amount, E), frac, lib, E, "map");
    judge(r, L.getMassAttenuationCoefficients(amount, R), frac, lib, R, "map, energies descending");
    double e = E[E.size() / 2];
    judgeOne(r, L.getMassAttenuationCoefficients(amount, e), frac, lib, e, "map, one energy");
    for (double f : {1e-4, 1e5})
    {
        MD s = amount; for (auto & p : s) p.second *= f;
        judge(r, L.getMassAttenuationCoefficients(s, E), frac, lib, E, "map scaled");
    }
    judge(r, L.getMassAttenuationCoefficients(frac, E, 1), frac, lib, E, "composition in elements");
    judgeOne(r, L.getMassAttenuationCoefficients(frac, e, 1), frac, lib, e, "composition in elements, one energy");
    r.site("formula");
    std::string f; for (auto & p : amount) f += p.first + cnt(p.second);
    MD ff = massFractions(amount);
    judge(r, L.getMassAttenuationCoefficients(f, E), ff, lib, E, "formula");
    judgeOne(r, L.getMassAttenuationCoefficients(f, e), ff, lib, e, "formula, one energy");
    judge(r, L.getMassAttenuationCoefficients(MD{{f, 0.3}}, E), ff, lib, E, "map of a formula");
    // formula and elements overlapping
    MD both = amount; double tot = 0; for (auto & p : amount) tot += p.second;
    std::string g = "(" + f + ")2"; both[g] = tot; MD fb; for (auto & p : frac) fb[p.first] = 0.5 * p.second + 0.5 * ff[p.first];
    judge(r, L.getMassAttenuationCoefficients(both, E), fb, lib, E, "elements and formula together");
    r.site("material");
    Material m("stuff", 2.0, 3.0); m.setComposition(amount); L.addMaterial(m);
    judge(r, L.getMassAttenuationCoefficients("stuff", E), frac, lib, E, "material");
    judgeOne(r, L.getMassAttenuationCoefficients("stuff", e), frac, lib, e, "material, one energy");
    judge(r, L.getMassAttenuationCoefficients(MD{{"stuff", 4.0}, {f, 4.0}}, E), fb, lib, E, "material and formula together");
    Material o("outer"); o.setComposition(VS{"stuff", f}, VD{3.0, 3.0}); L.addMaterial(o);
    judge(r, L.getMassAttenuationCoefficients("outer", E), fb, lib, E, "material of materials");
    r.site("layers");
    Layer l1("stuff", 1.0, 1.0), l2("", 1.0, 1.0), l3(f, 1.0, 1.0), l4("name", 1.0, 1.0);
    l2.setMaterial(m); l4.setMaterial("outer"); Layer l5("x"); l5.setMaterial(o);
    XRF x;
    struct { const Layer * l; const MD * f; const char * n; } W[] = {{&l1, &frac, "layer by material name"}, {&l2, &frac, "layer with material"}, {&l3, &ff, "layer by formula"}, {&l4, &fb, "layer by other name"}, {&l5, &fb, "layer with material of materials"}};
    for (auto & w : W)
    {
        judge(r, w.l->getMassAttenuationCoefficients(E, L), *w.f, lib, E, w.n);
        judgeOne(r, w.l->getMassAttenuationCoefficients(e, L), *w.f, lib, e, std::string(w.n) + ", one energy");
        judge(r, x.getLayerMassAttenuationCoefficients(*w.l, E, L), *w.f, lib, E, std::string("calculator, ") + w.n);
        judgeOne(r, x.getLayerMassAttenuationCoefficients(*w.l, e, L), *w.f, lib, e, std::string("calculator, one energy, ") + w.n);
        judge(r, x.getLayerMassAttenuationCoefficients(*w.l, E, L, *w.f), *w.f, lib, E, std::string("calculator, composition given, ") + w.n);
        judgeOne(r, x.getLayerMassAttenuationCoefficients(*w.l, e, L, *w.f), *w.f, lib, e, std::string("calculator, composition and one energy given, ") + w.n);
        static const MD ONE = {{"Sn", 1.0}};
        judge(r, x.getLayerMassAttenuationCoefficients(*w.l, E, L, ONE), ONE, lib, E, std::string("calculator, other composition given, ") + w.n);
        judgeOne(r, x.getLayerMassAttenuationCoefficients(*w.l, e, L, ONE), ONE, lib, e, std::string("calculator, other composition and one energy given, ") + w.n);
        MD c = w.l->getComposition(L), c2 = x.getLayerComposition(*w.l, L); std::string d;
        for (auto & p : *w.f) if (!Run::close(ref::get(c, p.first), p.second, 1e-9, 1e-12) || !Run::close(ref::get(c2, p.first), p.second, 1e-9, 1e-12)) d += " " + p.first;
        r.check(d.empty() && c.size() == w.f->size() && c2.size() == w.f->size(), std::string("composition, ") + w.n, d);
    }
    L.removeMaterials();
    std::string s; for (auto & p : frac) s += p.first + num6(p.second); r.state(s + num(lib));
}

int main(int argc, char ** argv)
{
    static Main M;
    M.init = [] { initLibraries(3); };
    return M.main(argc, argv, [](Main & M) {
        bool T = M.thorough(); int n = (int) EL.size();
        M.suite("mixtures", 3 * n, [=](Run & r, int job) {
            int lib = job / n, a = job % n; MD m; m[EL[a]] = AM[r.choose((int) AM.size())];
            int b = a + r.choose(n - a);
            if (b > a)
            {
                m[EL[b]] = AM[r.choose((int) AM.size())];
                int c = b + r.choose(n - b);
                if (c > b) { m[EL[c]] = AM[T ? r.choose((int) AM.size()) : (a + b + c) % (int) AM.size()]; if (!T && (a + b + c + lib) % 3) return; }
            }
            std::string s = LIBNAME[lib]; for (auto & p : m) s += " " + p.first + "=" + num6(p.second);
            r.note(s); r.step();
            everyWay(r, lib, m);
        });
        // all elements singly and in one big mixture
        M.suite("elements", 3, [=](Run & r, int lib) {
            int z = r.choose(T ? 98 : 33); if (!T) z = z * 3;
            MD m; m[ref::TABLE[z].symbol] = 1.0; if (z == 0) for (int i = 0; i < 98; i++) m[ref::TABLE[i].symbol] = 1.0 + i % 7;
            r.note(std::string(LIBNAME[lib]) + " " + ref::TABLE[z].symbol); r.step();
            everyWay(r, lib, m);
        });
        // what cannot be understood is refused, an amount of nothing adds nothing
        M.suite("refusals", 1, [=](Run & r, int) {
            Elements & L = *LIB[0]; r.note("refusals"); r.step();
            VD E = {5.0, 20.0};
            for (auto & c : std::vector<MD>{{}, {{"Fe", 0.0}}, {{"Nope", 1.0}}, {{"Fe", 1.0}, {"Nope", 0.5}}, {{"Fe", -1.0}}, {{"Fe", 2.0}, {"Cu", -1.0}}, {{"", 1.0}}})
            {
                std::string s; for (auto & p : c) s += p.first + "=" + num(p.second) + " ";
                r.check(throws([&] { L.getMassAttenuationCoefficients(c, E); }), "vector query not refused", s);
                r.check(throws([&] { L.getMassAttenuationCoefficients(c, 5.0); }), "scalar query not refused", s);
            }
            for (auto & s : {"Nope", "", "fe", "Fe-O", "(Fe"})
            {
                r.check(throws([&] { L.getMassAttenuationCoefficients(std::string(s), E); }), "name not refused", s);
                r.check(throws([&] { L.getMassAttenuationCoefficients(std::string(s), 5.0); }), "name not refused, one energy", s);
                Layer l(s, 1.0, 1.0);
                r.check(throws([&] { l.getMassAttenuationCoefficients(E, L); }), "layer not refused", s);
                r.check(throws([&] { XRF x; x.getLayerMassAttenuationCoefficients(l, E, L); }), "layer not refused by the calculator", s);
            }
            judge(r, L.getMassAttenuationCoefficients(MD{{"Fe", 1.0}, {"Cu", 0.0}}, E), MD{{"Fe", 1.0}}, 0, E, "an amount of zero");
            r.check(L.getMassAttenuationCoefficients(MD{{"Fe", 1.0}}, VD())["total"].empty(), "no energies");
        });
        // materials known to the calculator only (configuration file)
        M.suite("configured materials", 18, [=](Run & r, int job) {
            Elements & L = *LIB[job % 3]; L.removeMaterials(); int lib = job % 3;
            std::string fn = std::string(getenv("FISX_MC_SCRATCH")) + "/f11_" + std::to_string(getpid()) + ".cfg";
            int shadow = r.choose(3), use = job / 3; VD E = {4.0, 12.0, 30.0};
            {
                std::ofstream f(fn.c_str());
                f << "[fit]\nenergy = 20.\nenergyweight = 1.\nenergyflag = 1\nenergyscatter = 1\n[Materials.A]\nDensity = 2.0\nThickness = 0.1\nCompoundList = Fe, Cr\nCompoundFraction = 3.0, 1.0\n"
                  << "[Materials.Bee]\nDensity = 1.5\nThickness = 0.2\nCompoundList = A, SiO2\nCompoundFraction = 1.0, 1.0\n";
            }
            XRF x; x.readConfigurationFromFile(fn); ::unlink(fn.c_str());
            if (shadow) { Material s(shadow == 1 ? "A" : "other"); s.setComposition(VS{"Pb"}, VD{1}); L.addMaterial(s); }
            r.note("layer kind " + std::to_string(use) + " library material " + std::to_string(shadow)); r.step();
            MD A = {{"Fe", 0.75}, {"Cr", 0.25}}, si = massFractions(MD{{"Si", 1}, {"O", 2}}), B; for (auto & p : A) B[p.first] += p.second / 2; for (auto & p : si) B[p.first] += p.second / 2;
            Layer l(use == 0 ? "A" : use == 1 ? "Bee" : use == 2 ? "CuO" : use == 3 ? "other" : "free", 1.0, 1.0); MD w = use == 0 ? A : use == 1 ? B : use == 2 ? massFractions(MD{{"Cu", 1}, {"O", 1}}) : MD{{"Pb", 1}};
            if (use == 4) { Material m("mine"); m.setComposition(VS{"Bee", "Cu"}, VD{1, 3}); l.setMaterial(m); w.clear(); for (auto & p : B) w[p.first] += 0.25 * p.second; w["Cu"] += 0.75; }
            if (use == 5) { Material m("A"); m.setComposition(VS{"Cu"}, VD{1}); l.setMaterial(m); w = MD{{"Cu", 1}}; }
            bool th = false; MV got;
            th = throws([&] { got = x.getLayerMassAttenuationCoefficients(l, E, L); });
            if (use == 3 && shadow != 2) { r.check(th, "unknown material"); }
            else if (r.check(!th, "configured material threw")) judge(r, got, w, lib, E, "configured material");
            L.removeMaterials();
        });
    });
}
