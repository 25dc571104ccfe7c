// F20: transmission of layers against the Beer-Lambert law.
#include "mc.hpp"
#include "reflibs.hpp"
#include "fisx_xrf.h"
using namespace mc;
using namespace fisx;
typedef std::map<std::string, double> MD;
typedef std::vector<double> VD;
typedef std::vector<std::string> VS;
static MD norm(MD c) { double s = 0; for (auto & p : c) s += p.second; for (auto & p : c) p.second /= s; return c; }
static MD atoms(MD a) { for (auto & p : a) p.second *= REF[0]->el.at(p.first).mass; return norm(a); }
static double mu(const MD & c, double e)
{
    static std::map<std::string, std::map<double, double> > memo; double s = 0;
    for (auto & p : c) { auto & m = memo[p.first]; auto i = m.find(e); if (i == m.end()) i = m.insert({e, REF[0]->el.at(p.first).total(e)}).first; s += p.second * i->second; }
    return s;
}
static const double PI_ = std::acos(-1.0);
static const VD ANGLE = {90.0, 45.0, 30.0, 1.0, 0.1, 135.0, 179.0, -45.0, -90.0, -10.0};
static const VD ENERGY = {20.0, 1.0, 7.112, 8.979, 88.0045, 500.0};
static const VD DENS = {0.0, 1.0, 7.9, 1e-3, 19.3, -1.0};
static const VD THICK = {-1.0, 0.0, 1e-7, 1e-4, 0.01, 1.0, 100.0};
static const VD FILL = {1.0, 0.5, 0.0, 0.99, 0.001};

static void judge(Run & r, const Layer & l, const MD & comp, double density, double thickness, double fill, double angle, const std::string & w)
{
    XRF x; Elements & L = *LIB[0];
    double depth = angle == 90.0 ? density * thickness : density * thickness / std::sin(std::fabs(angle) * PI_ / 180.0);
    bool refuse = comp.empty() || !(depth > 0) || !(density > 0) || !(thickness > 0);
    r.eq(l.getDensity(), density, w + ":density"); r.eq(l.getThickness(), thickness, w + ":thickness"); r.eq(l.getFunnyFactor(), fill, w + ":fill factor");
    VD E = ENERGY, v1, v2, v3, R(E.rbegin(), E.rend()), v4;
    bool t1 = throws([&] { v1 = l.getTransmission(E, L, angle); }), t2 = throws([&] { v2 = x.getLayerTransmission(l, E, L, angle); }), t3 = throws([&] { v4 = l.getTransmission(R, L, angle); });
    bool t4 = false; if (comp.size()) t4 = throws([&] { v3 = x.getLayerTransmission(l, E, L, angle, comp); });
    if (refuse)
    {
        r.check(t1 && t2 && t3, w + ":incomplete layer not refused"); if (comp.size()) r.check(t4, w + ":incomplete layer with composition not refused");
        r.check(throws([&] { l.getTransmission(20.0, L, angle); }), w + ":incomplete layer not refused, scalar");
        r.check(throws([&] { x.getLayerTransmission(l, 20.0, L, angle); }), w + ":incomplete layer not refused, calculator, scalar");
        return;
    }
    if (!r.check(!t1 && !t2 && !t3 && !t4, w + ":threw")) return;
    if (!r.check(v1.size() == E.size() && v2.size() == E.size() && v3.size() == E.size() && v4.size() == E.size(), w + ":length")) return;
    // a composition given in the call replaces that of the layer
    static const std::vector<MD> GIVEN = {{{"Sn", 1.0}}, {{"Al", 0.25}, {"Au", 0.75}}};
    for (auto & c : GIVEN)
    {
        VD v = x.getLayerTransmission(l, E, L, angle, c); if (!r.check(v.size() == E.size(), w + ":length, other composition")) continue;
        for (size_t i = 0; i < E.size(); i += 2) { double m = mu(c, E[i]), t = (1 - fill) + fill * std::exp(-m * depth); r.eq(v[i], t, w + ":calculator, other composition given", 1e-8 * (1 + m * depth)); if (!i) r.eq(x.getLayerTransmission(l, E[i], L, angle, c), t, w + ":calculator, other composition, scalar", 1e-8 * (1 + m * depth)); }
    }
    for (size_t i = 0; i < E.size(); i++)
    {
        double t = (1 - fill) + fill * std::exp(-mu(comp, E[i]) * depth), tol = 1e-8 * (1 + mu(comp, E[i]) * depth);
        r.eq(v1[i], t, w + ":layer, vector", tol); r.eq(v2[i], t, w + ":calculator, vector", tol); r.eq(v3[i], t, w + ":calculator, composition given", tol);
        r.eq(v4[E.size() - 1 - i], t, w + ":layer, descending energies", tol);
        if (angle == 90.0) { r.eq(l.getTransmission(E[i], L), t, w + ":default angle", tol); r.eq(l.getTransmission(E, L)[i], t, w + ":default angle, vector", tol); r.eq(x.getLayerTransmission(l, E[i], L), t, w + ":calculator, default angle", tol); r.eq(x.getLayerTransmission(l, E, L)[i], t, w + ":calculator, default angle, vector", tol); }
        r.eq(l.getTransmission(E[i], L, angle), t, w + ":layer, scalar", tol); r.eq(x.getLayerTransmission(l, E[i], L, angle), t, w + ":calculator, scalar", tol);
        r.check(v1[i] >= 0 && v1[i] <= 1 + 1e-12, w + ":outside [0,1]", num(v1[i]));
    }
}

int main(int argc, char ** argv)
{
    static Main M;
    M.init = [] {
        initLibraries(1); Elements & L = *LIB[0];
        Material a("Reg", 2.5, 0.02); a.setComposition(VS{"Fe", "SiO2"}, VD{1, 3}); L.addMaterial(a);
        Material b("Outer", 3.5, 0.003); b.setComposition(VS{"Reg", "Pb"}, VD{1, 1}); L.addMaterial(b);
    };
    static const int KINDS = 12;
    return M.main(argc, argv, [](Main & M) {
        bool T = M.thorough();
        // how the material is described
        auto make = [](int kind, double d, double t, double f, MD & comp, double & dd, double & tt) {
            MD reg = {{"Fe", 0.25}}; for (auto & p : atoms({{"Si", 1}, {"O", 2}})) reg[p.first] += 0.75 * p.second;
            MD out; for (auto & p : reg) out[p.first] += p.second / 2; out["Pb"] += 0.5;
            dd = d; tt = t; MD def;
            auto own = [&](Layer & l, const MD & c, double md, double mt) { Material m("own", md, mt); m.setComposition(c); l.setMaterial(m); if (dd <= 0) dd = md; if (tt <= 0) tt = mt; };
            switch (kind)
            {
                case 0: { comp = {{"Fe", 1}}; return Layer("Fe", d, t, f); }
                case 1: { comp = atoms({{"H", 2}, {"O", 1}}); return Layer("H2O", d, t, f); }
                case 2: { comp = reg; return Layer("Reg", d, t, f); }
                case 3: { comp = out; return Layer("Outer", d, t, f); }
                case 4: { comp = {{"Cu", 0.3}, {"Zn", 0.7}}; Layer l("free", d, t, f); own(l, comp, 8.0, 0.0005); return l; }
                case 5: { comp = out; Layer l("Fe", d, t, f); own(l, {{"Reg", 2}, {"Pb", 2}}, 4.0, 0.01); return l; }
                case 6: { comp = {}; return Layer("", d, t, f); }
                case 7: { comp = {}; return Layer("Nope", d, t, f); }
                case 8: { comp = {{"Pb", 1}}; Layer l("Fe", d, t, f); l.setMaterial("Pb"); return l; }
                case 9: { comp = {{"Pb", 1}}; Layer l("x", d, t, f); own(l, {{"Cu", 1}}, 8.0, 0.0005); l.setMaterial("Pb"); return l; }
                case 10: { comp = atoms({{"Ca", 1}, {"C", 1}, {"O", 3}}); Layer l("x", d, t, f); own(l, {{"Cu", 1}}, 8.0, 0.0005); own(l, {{"CaCO3", 5}}, 2.7, 0.1); return l; }
                default: { comp = {{"Fe", 1}}; Layer l(Layer("Fe", d, t, f)); Layer k("Cu", 2, 2, 0.2); k = l; return k; }
            }
        };
        M.suite("layers", KINDS * (int) DENS.size(), [=](Run & r, int job) {
            int kind = job % KINDS; double d = DENS[job / KINDS], t = r.pick(THICK), f = r.pick(FILL), dd, tt; MD comp;
            Layer l = make(kind, d, t, f, comp, dd, tt); double a = r.pick(ANGLE);
            r.note("kind " + std::to_string(kind) + " density " + num6(d) + " thickness " + num6(t) + " fill " + num6(f) + " angle " + num6(a)); r.step(); r.site("transmission");
            judge(r, l, comp, dd, tt, f, a, "layer"); r.state(r.log);
        });
        // an incomplete layer is refused wherever the calculator meets it
        M.suite("calculator", KINDS, [=](Run & r, int kind) {
            double d = DENS[r.choose(3) * 5 % 6], t = THICK[r.choose(4)], f = 1, dd, tt; MD comp; Layer l = make(kind, d, t, f, comp, dd, tt);
            int where = r.choose(4); XRF x; x.setSingleEnergyBeam(20.0); Layer ok("Fe", 7.9, 0.001);
            r.note("kind " + std::to_string(kind) + " density " + num6(d) + " thickness " + num6(t)); r.step(); r.site("role");
            std::vector<Layer> s = {ok}, v = {l};
            if (where == 0) s = {l}; if (where == 1) s = {ok, l}; if (where == 2) x.setBeamFilters(v); if (where == 3) x.setAttenuators(v);
            x.setSample(s);
            bool refuse = comp.empty() || dd <= 0 || tt <= 0;
            bool t1 = throws([&] { x.getMultilayerFluorescence(VS{"Fe"}, *LIB[0], std::vector<int>{0}, VS{"K"}); });
            r.check(t1 == refuse, refuse ? "incomplete layer accepted in a calculation" : "complete layer refused in a calculation", where < 2 ? "sample" : where == 2 ? "filter" : "attenuator");
        });
        // changes of density, thickness and material in every order
        M.suite("updates", KINDS, [=](Run & r, int kind) {
            MD comp; double d, t; Layer l = make(kind, 0.0, 0.0, 0.75, comp, d, t);
            r.note("kind " + std::to_string(kind));
            int n = T ? 4 : 3;
            for (int i = 0; i < n; i++)
            {
                int k = r.choose(8);
                if (k == 0) { r.op("density 3"); l.setDensity(3); d = 3; }
                else if (k == 1) { r.op("thickness 0.002"); l.setThickness(0.002); t = 0.002; }
                else if (k == 2) { r.op("density 0"); r.check(throws([&] { l.setDensity(0); }), "density 0 accepted"); }
                else if (k == 3) { r.op("thickness -1"); r.check(throws([&] { l.setThickness(-1); }), "negative thickness accepted"); }
                else if (k == 4) { r.op("material by name"); l.setMaterial("Reg"); comp = {{"Fe", 0.25}}; for (auto & p : atoms({{"Si", 1}, {"O", 2}})) comp[p.first] += 0.75 * p.second; }
                else if (k == 5) { r.op("own material"); Material m("m", 1.5, 0.03); m.setComposition(VS{"Al"}, VD{1}); l.setMaterial(m); comp = {{"Al", 1}}; if (d <= 0) d = 1.5; if (t <= 0) t = 0.03; }
                else if (k == 6) { r.op("density 11, thickness 1e-5"); l.setDensity(11); l.setThickness(1e-5); d = 11; t = 1e-5; }
                else { r.op("unknown name"); l.setMaterial("Nope"); comp.clear(); }
                judge(r, l, comp, d, t, 0.75, ANGLE[i * 2], "updated");
            }
        });
        // monotony: deeper, flatter or fuller never transmits more
        M.suite("order", KINDS, [=](Run & r, int kind) {
            if (kind == 6 || kind == 7) return;
            MD comp; double dd, tt; double d = DENS[1 + r.choose(4)], f = r.pick(FILL); double e = r.pick(ENERGY);
            r.note("kind " + std::to_string(kind) + " energy " + num6(e)); r.step();
            double last = 2;
            for (size_t i = 2; i < THICK.size(); i++)
            {
                Layer l = make(kind, d, THICK[i], f, comp, dd, tt); double v = l.getTransmission(e, *LIB[0]), flat = l.getTransmission(e, *LIB[0], 20.0), full = make(kind, d, THICK[i], 1.0, comp, dd, tt).getTransmission(e, *LIB[0]);
                r.check(v <= last * (1 + 1e-12), "thicker transmits more"); r.check(flat <= v * (1 + 1e-12), "flatter transmits more"); r.check(full <= v * (1 + 1e-12), "fuller transmits more"); last = v;
            }
        });
    });
}
