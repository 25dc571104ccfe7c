// F21: geometric efficiency against the solid angle of a disk, and its use in the rates.
#include "mc.hpp"
#include "refxrf.hpp"
using namespace mc;
using namespace refx;
using ref::get;
using fisx::XRF; using fisx::Layer; using fisx::Detector;

static const VD DIST = {0.05, 1.0, 2.5, 10.0, 1000.0}, DIAM = {0.0, 1e-4, 0.3, 1.0, 30.0}, OUT = {90, 45, 30, 10, 0.5, 120, 179}, THICK = {1e-7, 1e-3, 0.04, 1.5};
static const std::vector<std::string> MATERIAL = {"Fe", "SiO2", "Pb"};

static double solid(double d, double D) { if (D == 0) return 1; double h = std::hypot(d, D / 2), t = (D / 2) / (h + d); return 0.5 * (D / 2) / h * t; }      // (1-cos)/2 = sin*tan(half)/2 without cancellation
static double depth(const VD & t, int ref, int l, double out) { double s = std::sin(out * PI / 180), d = 0; for (int i = ref; i < l; i++) d += t[i] / s; for (int i = l; i < ref; i++) d -= t[i] / s; return d; }
static void compare(Run & r, const Result & a, const Result & b, const std::function<double(int)> & g, const std::string & w)
{
    std::string bad; int n = 0;
    auto note = [&](const std::string & m) { if (n++ < 4) bad += " " + m + ";"; };
    if (a.size() != b.size()) note("elements differ");
    for (auto & e : a) for (auto & l : e.second)
    {
        auto i = b.find(e.first); if (i == b.end() || !i->second.count(l.first)) { note(e.first + " missing"); continue; }
        const MMD & other = i->second.at(l.first);
        if (other.size() != l.second.size()) note(e.first + " other lines");
        for (auto & line : l.second)
        {
            auto k = other.find(line.first); if (k == other.end()) { note(line.first + " missing"); continue; }
            if (k->second.size() != line.second.size()) note(line.first + " other entries");
            for (auto & v : line.second)
            {
                double f = v.first == "rate" || v.first == "efficiency" ? g(l.first) : 1.0, got = get(k->second, v.first);
                if (!Run::close(got, v.second * f, 1e-11, 1e-300)) note(e.first + " layer " + str(l.first) + " " + line.first + " " + v.first + "=" + num(got) + " want " + num(v.second * f));
            }
        }
    }
    r.check(n == 0, w, bad);
}
static Main M;
int main(int argc, char ** argv)
{
    M.init = [] { initLibraries(1); };
    M.main(argc, argv, [](Main & M) {
        bool T = M.thorough();
        M.suite("geometry", (int) (DIST.size() * DIAM.size() * OUT.size()), [=](Run & r, int job) {
            double d = DIST[job % DIST.size()], D = DIAM[job / DIST.size() % DIAM.size()], out = OUT[job / DIST.size() / DIAM.size()];
            int n = 1 + r.choose(T ? 4 : 3); VD t; std::vector<Layer> s;
            for (int i = 0; i < n; i++) { t.push_back(r.pick(THICK)); s.push_back(Layer(MATERIAL[(i + n + job) % 3], 1.0 + i, t[i])); }
            int ref = r.choose(n); bool area = r.flip();
            Detector det(job % 2 ? "Si" : "", 2.33, 0.05); det.setDistance(d);
            if (area) det.setActiveArea(PI * D * D / 4); else det.setDiameter(D);
            XRF x; x.setSample(s, ref); x.setDetector(det); x.setGeometry(job % 3 ? 45 : 10, out);
            std::string at = "distance " + num6(d) + " diameter " + num6(D) + " exit " + num6(out) + " reference " + str(ref) + " thicknesses"; for (double v : t) at += " " + num6(v);
            r.note(at); r.step(); r.site("geometry");
            r.check(Run::close(x.getDetector().getDiameter(), D, 1e-14, 0) && Run::close(x.getDetector().getActiveArea(), PI * D * D / 4, 1e-14, 0) && x.getDetector().getDistance() == d, "size not kept", at);
            r.check(x.getReferenceLayer() == ref, "reference layer not kept", at);
            double last = 2;
            for (int l = 0; l < n; l++)
            {
                double path = d + depth(t, ref, l, out);
                if (path <= 0 && D > 0) continue;                    // detector inside the sample
                double g = x.getGeometricEfficiency(l), want = solid(path, D);
                r.check(Run::close(g, want, 1e-9, 2e-16), l == ref ? "reference layer" : l > ref ? "layer below the reference" : "layer above the reference", at + " layer " + str(l) + ": " + num(g) + " want " + num(want));
                r.check(D == 0 ? g == 1 : g >= 0 && g <= 0.5, "outside its range", at + ": " + num(g));
                if (D > 0) r.check(g <= last + 3e-16, "deeper layers see more of the detector", at); last = g;
                r.check(x.getGeometricEfficiency(l) == g, "repeated question", at);
                if (l == 0) r.check(x.getGeometricEfficiency() == g, "default layer", at);
            }
            if (D > 0) { r.check(throws([&] { x.getGeometricEfficiency(-1); }), "negative layer accepted", at); r.check(throws([&] { x.getGeometricEfficiency(n); }) && throws([&] { x.getGeometricEfficiency(n + 5); }), "layer beyond the sample accepted", at); }
            r.state(at);
        });
        // samples of many layers
        M.suite("many layers", 5 * 3, [=](Run & r, int job) {
            static const std::vector<int> COUNT = {4, 5, 6, 9, 13};
            int n = COUNT[job % 5]; double out = OUT[job / 5], d = 400, D = 2.5; VD t; std::vector<Layer> s;
            int shape = r.choose(4);
            for (int i = 0; i < n; i++) { t.push_back(shape == 0 ? 0.04 : shape == 1 ? 0.3 * (i + 1) : shape == 2 ? 1.5 / (i + 1) : THICK[i % 4]); s.push_back(Layer(MATERIAL[i % 3], 1.0 + i, t[i])); }
            int ref = r.choose(n); XRF x; Detector det("Si", 2.33, 0.05); det.setDistance(d); det.setDiameter(D);
            x.setSample(s, ref); x.setDetector(det); x.setGeometry(45, out);
            std::string at = str(n) + " layers shape " + str(shape) + " exit " + num6(out) + " reference " + str(ref);
            r.note(at); r.step(); r.site("many layers"); r.check(x.getReferenceLayer() == ref, "reference layer not kept", at);
            for (int l = 0; l < n; l++)
            {
                double path = d + depth(t, ref, l, out); if (path <= 0) continue;
                double g = x.getGeometricEfficiency(l), want = solid(path, D);
                r.check(Run::close(g, want, 1e-9, 0), "efficiency of a layer", at + " layer " + str(l) + ": " + num(g) + " want " + num(want));
            }
            r.state(at);
        });
        // area and diameter are one quantity, and refused sizes leave it alone
        M.suite("histories", 2, [=](Run & r, int job) {
            double D = 0, d = 10; Detector det(job ? "Si" : "", job ? 2.33 : 0.0, job ? 0.05 : 0.0);
            std::vector<Layer> s = {Layer("Fe", 7.9, 0.1), Layer("SiO2", 2.2, 0.4)};
            XRF x; x.setSample(s); x.setGeometry(45, 30); int n = T ? 5 : 4;
            auto look = [&](const Detector & k) { return Run::close(k.getDiameter(), D, 1e-14, 0) && Run::close(k.getActiveArea(), PI * D * D / 4, 1e-13, 0) && k.getDistance() == d; };
            r.check(look(det), "size at the beginning");
            double set = -1, sd = 0; int ref = 0;
            for (int i = 0; i < n; i++)
            {
                int k = r.choose(11);
                if (k == 0) { r.op("area 0.5"); det.setActiveArea(0.5); D = 2 * std::sqrt(0.5 / PI); }
                if (k == 1) { r.op("area 0"); det.setActiveArea(0); D = 0; }
                if (k == 2) { r.op("diameter 2"); det.setDiameter(2); D = 2; }
                if (k == 3) { r.op("area -1"); r.check(throws([&] { det.setActiveArea(-1); }), "negative area accepted"); }
                if (k == 4) { r.op("diameter -1"); r.check(throws([&] { det.setDiameter(-1); }), "negative diameter accepted"); }
                if (k == 5) { r.op("distance 0"); r.check(throws([&] { det.setDistance(0); }) && throws([&] { det.setDistance(-3); }), "distance zero or negative accepted"); }
                if (k == 6) { r.op("distance 3"); det.setDistance(3); d = 3; }
                if (k == 7) { r.op("installed"); x.setDetector(det); set = D; sd = d; }
                if (k == 8) { r.op("reference 1"); x.setSample(s, 1); ref = 1; }
                if (k == 9) { r.op("sample set again"); x.setSample(s); ref = 0; }
                if (k == 10) { r.op("reference out of range"); r.check(throws([&] { x.setSample(s, 2); }) && throws([&] { x.setSample(s, -1); }), "reference layer out of range accepted"); }
                r.check(look(det), "size after the change", "diameter " + num(det.getDiameter()) + " want " + num(D));
                double G = set < 0 ? 0 : set, dd = set < 0 ? 10 : sd;
                for (int l = 0; l < 2; l++) { double g = x.getGeometricEfficiency(l), w = solid(dd + depth({0.1, 0.4}, ref, l, 30), G); r.check(Run::close(g, w, 1e-12, 1e-16), "efficiency after the change", num(g) + " want " + num(w)); }
            }
            r.state(num(D) + " " + num(d) + " " + num(set) + " " + num(sd) + " " + str(ref));
        });
        // applied once to every rate and to nothing else
        M.suite("rates", 4 * 3, [=](Run & r, int job) {
            static const std::vector<std::vector<RLayer> > S = {{RLayer("Fe", {{"Fe", 1}}, 7.87, 0.01)}, {RLayer("SiO2", {{"Si", 1}, {"O", 2}}, 2.2, 0.3), RLayer("FeCr", {{"Fe", 1}, {"Cr", 1}}, 7.0, 0.002), RLayer("CuZn", {{"Cu", 1}, {"Zn", 1}}, 8.0, 0.05)},
                {RLayer("FeCr", {{"Fe", 1}, {"Cr", 1}}, 7.0, 0.0002), RLayer("CuZn", {{"Cu", 1}, {"Zn", 1}}, 8.0, 0.0004)}, {RLayer("SiO2", {{"Si", 1}, {"O", 2}}, 2.2, 0.3), RLayer("PbO", {{"Pb", 1}, {"O", 1}}, 9.0, 0.01)}};
            Setup s; s.sample = S[job % 4]; s.reference = (job / 4) % (int) s.sample.size();
            s.beam = {{20.0, 1}}; if (r.flip()) s.beam = {{30.0, 1}, {9.3, 3}, {2.4, 1}};
            s.out = job % 2 ? 45 : 20; s.in = 60;
            int det = r.choose(3), secondary = r.choose(3), mf = r.choose(2); s.area = r.flip() ? 0.3 : 50; s.distance = r.flip() ? 1.2 : 8;
            if (det) { s.hasDetector = true; s.detector = RLayer(det == 1 ? "Si" : "Ge", {{det == 1 ? "Si" : "Ge", 1}}, det == 1 ? 2.33 : 5.3, 0.05); }
            XRF x; s.apply(x);
            VS el = {"Fe", "Cr", "Cu", "Si", "Pb"}, fam = {"K", "K", "Ka", "K", "L"}; std::vector<int> lay(5, -1);
            std::string at = "set-up " + str(job) + " detector " + str(det) + " secondary " + str(secondary);
            r.note(at); r.step(); r.site("rates");
            auto on = x.getMultilayerFluorescence(el, *LIB[0], lay, fam, secondary, 1, mf), off = x.getMultilayerFluorescence(el, *LIB[0], lay, fam, secondary, 0, mf), def = x.getMultilayerFluorescence(el, *LIB[0], lay, fam, secondary);
            compare(r, off, on, [&](int l) { return geometric(s, l); }, "solid angle");
            auto mf0 = mf ? x.getMultilayerFluorescence(el, *LIB[0], lay, fam, secondary, 0, 0) : off;
            compare(r, mf0, def, [&](int l) { return geometric(s, l); }, "default is with solid angle");
            // without size, or with another material or energy, the same factor
            Detector none = x.getDetector(); none.setDiameter(0); x.setDetector(none);
            compare(r, off, x.getMultilayerFluorescence(el, *LIB[0], lay, fam, secondary, 1, mf), [](int) { return 1.0; }, "no size");
        });
    });
}
