// F26: splitting a layer into sublayers of the same material changes no total.
#include "mc.hpp"
#include "refxrf.hpp"
using namespace mc;
using namespace refx;
using ref::get;
using fisx::XRF;

static std::vector<RLayer> MAT;
static const std::vector<VD> PARTS = {{0.5, 0.5}, {0.2, 0.8}, {0.7, 0.3}, {0.3, 0.3, 0.4}, {0.25, 0.25, 0.25, 0.25}, {0.6, 0.1, 0.3}};
static const std::vector<VD> BEAM = {{17.4}, {9.9, 31.0}, {12.0, 7.4, 60.0}};
static const std::vector<std::pair<double, double> > ANGLE = {{45, 45}, {85, 20}, {90, 90}};
static void menu() { MAT = {RLayer("Cr2Fe6Ni", {{"Cr", 2}, {"Fe", 6}, {"Ni", 1}}, 7.9, 0.0012), RLayer("ZnSCa", {{"Zn", 1}, {"S", 1}, {"Ca", 1}}, 4.1, 0.0009), RLayer("PbFe", {{"Pb", 1}, {"Fe", 1}}, 9.0, 0.0008)}; }
struct Totals { double p = 0, s = 0, r = 0; };
// summed over the layers [a, b), what reaches the detector
static std::map<std::string, Totals> totals(const Setup & s, int a, int b, int sec)
{
    XRF x; s.apply(x); std::map<std::string, Totals> t;
    static const VS E = {"Fe", "Cr", "Zn", "Pb", "Ca"}, F = {"K", "K", "K", "L3", "K"};
    for (auto & k : x.getMultilayerFluorescence(E, *LIB[0], std::vector<int>(1, -1), F, sec, 0, 1)) for (auto & l : k.second) if (l.first >= a && l.first < b) for (auto & line : l.second)
    { Totals & q = t[k.first + " " + line.first]; double e = get(line.second, "efficiency"); q.p += e * get(line.second, "primary"); q.s += e * get(line.second, "secondary"); q.r += get(line.second, "rate"); }
    return t;
}
static void same(Run & r, const std::map<std::string, Totals> & got, const std::map<std::string, Totals> & want, double tol, const std::string & w, const std::string & at, double weak = 2e-6)
{
    std::string d; int n = 0; auto bad = [&](const std::string & m) { if (n++ < 4) d += " " + m + ";"; };
    for (auto & p : want)
    {
        auto g = got.find(p.first); if (g == got.end()) { bad(p.first + " missing"); continue; }
        if (!Run::close(g->second.p, p.second.p, 1e-9, 1e-290)) bad(p.first + " primary " + num(g->second.p) + " want " + num(p.second.p));
        if (!Run::close(g->second.s, p.second.s, tol, weak * p.second.p + 1e-290)) bad(p.first + " secondary " + num(g->second.s) + " want " + num(p.second.s));
        if (!Run::close(g->second.r, p.second.p + p.second.s, 1e-4, 1e-290)) bad(p.first + " rate " + num(g->second.r) + " want " + num(p.second.p + p.second.s));
    }
    for (auto & g : got) if (!want.count(g.first)) bad(g.first + " extra");
    r.check(d.empty(), w, d.empty() ? d : at + ":" + d);
}
static Main M;
int main(int argc, char ** argv)
{
    M.init = [] { initLibraries(1); menu(); };
    M.main(argc, argv, [](Main & M) {
        bool T = M.thorough();
        // stack: 1..3 different layers, one of them split
        M.suite("sample", 3 * 3 * 15, [=](Run & r, int job) {
            static const std::vector<std::vector<int> > STACK = {{0}, {1}, {2}, {0, 1}, {1, 0}, {0, 2}, {2, 0}, {1, 2}, {2, 1}, {0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
            Setup s; for (double e : BEAM[job % 3]) s.beam.push_back({e, 1.0}); auto a = ANGLE[job / 3 % 3]; s.in = a.first; s.out = a.second;
            auto & st = STACK[job / 9]; for (int m : st) s.sample.push_back(MAT[m]);
            int at = r.choose((int) st.size()), np = r.choose(T ? 6 : 3); if (!T) np = (np * 2 + job) % 6;
            auto & parts = PARTS[np]; Setup t = s; t.sample.clear();
            for (int i = 0; i < (int) st.size(); i++) { if (i != at) { t.sample.push_back(s.sample[i]); continue; } for (double f : parts) { RLayer l = s.sample[i]; l.t *= f; t.sample.push_back(l); } }
            int sec = (T || (job + at + np) % 2) ? 1 : 0, extra = (int) parts.size() - 1;
            std::string w = "stack"; for (auto & l : t.sample) w += " " + l.name + "(" + num6(l.t) + ")"; w += " beam"; for (auto & p : s.beam) w += " " + num6(p.first); w += " angles " + num6(s.in) + "/" + num6(s.out) + " split layer " + str(at); r.note(w); r.step(); r.site("sample");
            same(r, totals(t, at, at + extra + 1, sec), totals(s, at, at + 1, sec), 2e-3, sec ? "split layer with enhancement" : "split layer", w);
            for (int i = 0; i < (int) st.size(); i++) if (i != at) { int k = i < at ? i : i + extra; same(r, totals(t, k, k + 1, sec), totals(s, i, i + 1, sec), 2e-3, sec ? "neighbour of a split layer with enhancement" : "neighbour of a split layer", w + " seen in layer " + str(k)); }
        });
        // a thin layer on top of a thick one that excites it, and of which the beam reaches the deeper parts at a few percent down to 1e-4 only:
        // what the documented cut leaves out (beams weaker than 1e-4) is below the tolerance
        M.suite("deep sample", 3 * 3 * 3, [=](Run & r, int job) {
            static const std::vector<std::pair<double, double> > DEEP = {{3, 90}, {15, 60}, {45, 45}};
            Setup s; s.beam.push_back({job % 3 == 2 ? 17.4 : 12.0, 1.0}); auto a = DEEP[job / 3 % 3]; s.in = a.first; s.out = a.second; int kind = job / 9;
            RLayer top("Fe", {{"Fe", 1}}, 7.9, 2e-5), middle("C3Al", {{"C", 3}, {"Al", 1}}, 2.0, 0.0), bottom = kind == 1 ? RLayer("ZnC4", {{"Zn", 1}, {"C", 4}}, 3.0, 0.0) : MAT[1];
            double depth = r.choose(T ? 4 : 2) * 2.0 + 4.0, rs = std::sin(s.in * 3.14159265358979323846 / 180.0), e = s.beam[0].first;
            auto thick = [&](RLayer & l, double d) { double m = get(LIB[0]->getMassAttenuationCoefficients(l.name, e), "total"); l.t = d * rs / (m * l.rho); };
            thick(middle, 2.0); thick(bottom, depth);
            s.sample = {top}; if (kind == 2) s.sample.push_back(middle); s.sample.push_back(bottom); int at = r.choose((int) s.sample.size()), np = r.choose(6); auto & parts = PARTS[np];
            Setup t = s; t.sample.clear(); for (int i = 0; i < (int) s.sample.size(); i++) { if (i != at) { t.sample.push_back(s.sample[i]); continue; } for (double f : parts) { RLayer l = s.sample[i]; l.t *= f; t.sample.push_back(l); } }
            int extra = (int) parts.size() - 1; std::string w = "deep stack"; for (auto & l : t.sample) w += " " + l.name + "(" + num6(l.t) + ")"; w += " beam " + num6(e) + " angles " + num6(s.in) + "/" + num6(s.out) + " split layer " + str(at); r.note(w); r.step(); r.site("deep");
            same(r, totals(t, at, at + extra + 1, 1), totals(s, at, at + 1, 1), 2e-3, "split layer of a deep stack", w, 1e-4);
            for (int i = 0; i < (int) s.sample.size(); i++) if (i != at) { int k = i < at ? i : i + extra; same(r, totals(t, k, k + 1, 1), totals(s, i, i + 1, 1), 2e-3, "neighbour of a split layer in a deep stack", w + " seen in layer " + str(k), 1e-4); }
        });
        M.suite("filters and attenuators", 3 * 6, [=](Run & r, int job) {
            RLayer al("Al", {{"Al", 1}}, 2.7, 0.004), cu("Cu", {{"Cu", 1}}, 8.9, 0.0006), ka("C22H10N2O5", {{"C", 22}, {"H", 10}, {"N", 2}, {"O", 5}}, 1.42, 0.01);
            RTable a, b; a.n = {{3.0, 0.2}, {30.0, 0.9}}; b.n = {{5.0, 0.9}, {9.0, 0.4}};
            Setup s; for (double e : BEAM[job % 3]) s.beam.push_back({e, 1.0}); s.sample = {MAT[job % 3], MAT[(job + 1) % 3]}; s.filters = {al, cu, ka}; s.attenuators = {ka, al, cu}; s.userFilters = {a, b}; s.userAttenuators = {b, a};
            Setup t = s; int n = PARTS.size(); int p = job / 3, i = r.choose(3), kind = r.choose(3), perm = r.choose(6);
            auto change = [&](std::vector<RLayer> & v) { std::vector<RLayer> o; for (int k = 0; k < 3; k++) { if (k != i) { o.push_back(v[k]); continue; } for (double f : PARTS[p % n]) { RLayer l = v[k]; if (f > 0.55) l.rho *= f; else l.t *= f; o.push_back(l); } }
                for (int k = 0; k < perm; k++) std::rotate(o.begin(), o.begin() + 1, o.end()); if (perm & 1) std::swap(o[0], o[2]); v = o; };
            if (kind != 1) change(t.filters); if (kind != 0) change(t.attenuators); if (perm & 1) std::swap(t.userFilters[0], t.userFilters[1]); if (perm & 2) std::swap(t.userAttenuators[0], t.userAttenuators[1]);
            r.note("split " + str(i) + " kind " + str(kind) + " order " + str(perm)); r.step(); r.site("filters");
            same(r, totals(t, 0, 2, 0), totals(s, 0, 2, 0), 1e-9, "split and reordered filters or attenuators", "job " + str(job) + " split " + str(i) + " kind " + str(kind) + " order " + str(perm));
        });
    });
}
