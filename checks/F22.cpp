// F22: primary rates against an independent evaluation of the fundamental-parameter sum.
#include "mc.hpp"
#include "refxrf.hpp"
using namespace mc;
using namespace refx;
using ref::get;
using fisx::XRF;

static std::vector<std::vector<std::pair<double, double> > > BEAMS;
static std::vector<std::vector<RLayer> > SAMPLES, FILTERS, ATTEN;
static std::vector<std::vector<RTable> > UF, UA;
static std::vector<RLayer> DETS;
static std::vector<std::pair<double, double> > ANGLES = {{45, 45}, {90, 90}, {12, 67.5}, {75, 3}, {0.5, 89}};
static Data * DD[2];

static void menu()
{
    BEAMS = {{{17.4, 1.0}}, {{7.5, 2.0}, {9.2, 6.0}}, {{40.0, 1.0}, {5.0, 0.0}, {13.5, 3.0}, {13.5, 1.0}}, {{2.0, 1.0}}, {{0.3, 5.0}, {95.0, 1.0}, {26.0, 2.0}}};
    RLayer fe("Fe", {{"Fe", 1}}, 7.87, 0.0010), feThick("Fe", {{"Fe", 1}}, 7.87, 1.0), brass("CuZn", {{"Cu", 1}, {"Zn", 1}}, 8.5, 0.0005), glass("SiO2", {{"Si", 1}, {"O", 2}}, 2.2, 0.002),
        pb("PbO", {{"Pb", 1}, {"O", 1}}, 9.5, 0.0003), cafe("CaFe2O4", {{"Ca", 1}, {"Fe", 2}, {"O", 4}}, 5.0, 0.01), thin("FeCr", {{"Fe", 1}, {"Cr", 1}}, 7.0, 1e-9);
    SAMPLES = {{fe}, {feThick}, {brass, cafe}, {glass, pb, fe}, {thin}, {glass, feThick, brass, pb}, {pb, cafe, cafe, glass}, {glass, fe, thin, brass, thin, cafe, fe, thin, pb, brass, thin, fe}};
    RLayer al("Al", {{"Al", 1}}, 2.7, 0.005), alGrid("Al", {{"Al", 1}}, 2.7, 0.05, 0.4), kapton("C22H10N2O5", {{"C", 22}, {"H", 10}, {"N", 2}, {"O", 5}}, 1.42, 0.0025), cu("Cu", {{"Cu", 1}}, 8.9, 0.0008);
    FILTERS = {{}, {al}, {alGrid, cu, kapton}}; ATTEN = {{}, {kapton}, {cu, alGrid}};
    UF = {{}, {{{{1.0, 0.2}, {10.0, 0.7}, {30.0, 0.9}}}}, {{{{5.0, 0.0}, {20.0, 1.0}}}, {{{0.0, 0.5}}}}}; UA = {{}, {{{{2.0, 0.0}, {8.0, 0.9}}}, {{{6.0, 0.4}, {6.5, 0.8}}}}};
    DETS = {RLayer("Si", {{"Si", 1}}, 2.33, 0.05), RLayer("CdTe", {{"Cd", 1}, {"Te", 1}}, 5.85, 0.1), RLayer("Ge", {{"Ge", 1}}, 5.32, 0.001), RLayer("I", {{"I", 1}}, 4.9, 0.002)};
}
static std::string show(const Setup & s)
{
    std::string o = "beam"; for (auto & p : s.beam) o += " " + num6(p.first) + ":" + num6(p.second);
    o += " filters"; for (auto & l : s.filters) o += " " + l.name; o += "+" + str(s.userFilters.size()); o += " sample"; for (auto & l : s.sample) o += " " + l.name + "(" + num6(l.t) + ")";
    o += " attenuators"; for (auto & l : s.attenuators) o += " " + l.name; o += "+" + str(s.userAttenuators.size());
    o += s.hasDetector ? " detector " + s.detector.name + (s.detectorThickness ? "" : " (no thickness)") + (s.detectorDensity ? "" : " (no density)") : ""; o += " area " + num6(s.area) + " angles " + num6(s.in) + "/" + num6(s.out);
    return o;
}
static void judge(Run & r, int lib, Setup s, const std::vector<Request> & q, const Options & o, const std::string & w, const std::string & at)
{
    Data & D = *DD[lib];
    XRF x; s.apply(x);
    VS el, fam; std::vector<int> lay; for (auto & k : q) { el.push_back(k.element); fam.push_back(k.family); lay.push_back(k.layer); }
    r.site(w); r.step();
    Result got = x.getMultilayerFluorescence(el, *LIB[lib], lay, fam, 0, o.solid, o.massFractions);
    std::string d; int n = 0;
    auto bad = [&](const std::string & m) { if (n++ < 4) d += " " + m + ";"; };
    std::set<std::string> used;
    double si = std::sin(s.in * PI / 180), so = std::sin(s.out * PI / 180);
    auto rays = s.rays();
    std::map<std::string, std::set<int> > wanted;
    for (auto & k : q) for (int l = 0; l < (int) s.sample.size(); l++) if (k.layer < 0 || k.layer == l) wanted[k.element + " " + k.family].insert(l);
    for (auto & k : wanted)
    {
        std::string e = k.first.substr(0, k.first.find(' ')), f = k.first.substr(k.first.find(' ') + 1);
        for (int l : k.second)
        {
            double mf = get(s.sample[l].comp, e), mass = s.sample[l].rho * s.sample[l].t, scale = o.massFractions ? mf : 1.0;
            MMD want;
            if (scale > 0) for (auto & ray : rays)
            {
                double wt = beamWeight(D, s, ray.first, ray.second);
                if (wt <= 0) continue;
                double above = 0; for (int j = 0; j < l; j++) above += D.mu(s.sample[j].comp, ray.first) * s.sample[j].rho * s.sample[j].t / si;
                for (auto & line : D.factors(e, ray.first))
                {
                    if (!inFamily(line.first, f) || line.second.at("factor") <= 0) continue;
                    double le = line.second.at("energy"), a = D.mu(s.sample[l].comp, ray.first) / si, b = D.mu(s.sample[l].comp, le) / so;
                    want[line.first]["energy"] = le; want[line.first]["mu_1_i"] = D.mu(s.sample[l].comp, le);
                    want[line.first]["primary"] += scale * wt * std::exp(-above) / si * line.second.at("rate") * mass * phi((a + b) * mass);
                }
            }
            const MMD * g = nullptr;
            auto i = got.find(k.first); if (i != got.end()) { auto j = i->second.find(l); if (j != i->second.end()) g = &j->second; }
            if (want.empty()) { if (g && g->size()) bad(k.first + " in layer " + str(l) + " reported although not excited or not there"); continue; }
            used.insert(k.first + "#" + str(l));
            // escape peaks of a detector, by the detector itself
            std::map<std::string, MMD> esc;
            if (s.hasDetector) for (auto & x : want) { fisx::Detector det(s.detector.name, s.detectorDensity ? s.detector.rho : -1.0, s.detectorThickness ? s.detector.t : -1.0); esc[x.first] = det.getEscape(x.second.at("energy"), *LIB[lib], "", 1); }
            std::set<std::string> names;
            for (auto & x : want)
            {
                names.insert(x.first);
                double p = x.second["primary"], lost = 0, eff = efficiency(D, s, l, x.second["energy"], o.solid);
                for (auto & c : esc[x.first]) lost += c.second["rate"];
                if (!g || !g->count(x.first)) { if (p > 1e-290) bad(k.first + " layer " + str(l) + " " + x.first + " missing"); continue; }
                const MD & h = g->at(x.first);
                auto cmp = [&](const char * key, double v, double tol, double abs = 1e-300) { auto it = h.find(key); if (it == h.end()) bad(x.first + " without " + key); else if (!Run::close(it->second, v, tol, abs)) bad(k.first + " layer " + str(l) + " " + x.first + " " + key + "=" + num(it->second) + " want " + num(v)); else if (!(it->second >= 0)) bad(x.first + " " + key + " negative"); };
                double depth = 0; for (int j = 0; j < l; j++) depth += s.sample[j].rho * s.sample[j].t * (D.mu(s.sample[j].comp, x.second["energy"]) / so + D.mu(s.sample[j].comp, rays[0].first) / si);
                double tol = 1e-8 + 1e-9 * depth, thin = 1e-15 / std::max(1e-14, mass);          // 1-exp(-x) for a very thin layer is not more precise than that
                cmp("energy", x.second["energy"], 1e-9); cmp("mu_1_i", x.second["mu_1_i"], 1e-8); cmp("massFraction", mf, 1e-9);
                cmp("primary", p, tol + thin); cmp("secondary", 0, 0); cmp("efficiency", eff, tol + (s.hasDetector ? 1e-7 : 0), 1e-16 * (s.hasDetector ? 1 : 1e-280)); cmp("rate", p * eff * (1 - lost), tol + thin + (s.hasDetector ? 1e-7 : 0), s.hasDetector ? 1e-16 * p : 1e-300);
                for (auto & c : esc[x.first])
                {
                    std::string nm = x.first + " " + c.first; names.insert(nm);
                    auto it = g->find(nm); if (it == g->end()) { bad(nm + " missing"); continue; }
                    if (!Run::close(get(it->second, "rate"), p * eff * c.second["rate"], tol + thin + 1e-7, 1e-16 * p)) bad(nm + " rate=" + num(get(it->second, "rate")) + " want " + num(p * eff * c.second["rate"]));
                    if (!Run::close(get(it->second, "energy"), c.second["energy"], 1e-9, 1e-9)) bad(nm + " energy");
                    if (!Run::close(get(it->second, "ratio"), c.second["rate"], 1e-9, 0)) bad(nm + " ratio");
                    if (!Run::close(get(it->second, "primary"), p * c.second["rate"], tol + thin, 0)) bad(nm + " primary");
                }
            }
            if (g) for (auto & x : *g) if (!names.count(x.first)) bad(k.first + " layer " + str(l) + " reports " + x.first + " which is not excited");
        }
    }
    for (auto & k : got) for (auto & l : k.second) if (!used.count(k.first + "#" + str(l.first)) && l.second.size()) { if (!wanted.count(k.first) || !wanted[k.first].count(l.first)) bad(k.first + " layer " + str(l.first) + " not requested"); }
    r.check(d.empty(), w, d.empty() ? d : at + " " + show(s) + (o.solid ? " solid angle" : "") + (o.massFractions ? " mass fractions" : "") + ":" + d);
}

static Main M;
int main(int argc, char ** argv)
{
    M.init = [] { initLibraries(2); menu(); DD[0] = new Data(0); DD[1] = new Data(1); };
    M.main(argc, argv, [](Main & M) {
        bool T = M.thorough();
        const int NB = 5, NS = 8, NA = 5;
        M.suite("setups", NB * NS * NA, [=](Run & r, int job) {
            Setup s; s.beam = BEAMS[job % NB]; s.sample = SAMPLES[job / NB % NS]; s.in = ANGLES[job / NB / NS].first; s.out = ANGLES[job / NB / NS].second;
            int f = r.choose(3), u = r.choose(3);
            s.filters = FILTERS[f]; s.userFilters = UF[u];
            int d = r.choose(T ? 7 : 4);
            if (!T && d == 3) d += (f + u + job) % 4;
            // the flags, the library and (quick) the attenuators take turns rather than being multiplied
            s.attenuators = ATTEN[T ? r.choose(3) : (f + u + job) % 3]; s.userAttenuators = UA[T ? r.choose(2) : (f + d + job / 5) % 2];
                                // none, size only, Si with size, Si without thickness, CdTe, Ge thin, I thin
            if (d == 1) { s.area = 0.5; s.distance = 3; }
            if (d == 2) { s.hasDetector = true; s.detector = DETS[0]; s.area = 0.3; s.distance = 2.5; }
            if (d == 3) { s.hasDetector = true; s.detector = DETS[0]; int h = T ? (int) r.choose(3) : (f + u) % 3; s.detectorThickness = h == 1; s.detectorDensity = h == 2; }
            if (d == 4) { s.hasDetector = true; s.detector = DETS[1]; s.area = 12; s.distance = 1.5; s.reference = (int) s.sample.size() - 1; }
            if (d == 5) { s.hasDetector = true; s.detector = DETS[2]; }
            if (d == 6) { s.hasDetector = true; s.detector = DETS[3]; s.area = 2; s.distance = 4; }
            int turn = T ? (int) r.choose(2) * 2 + (job + d + f) % 2 : (job + d + f + 3 * u) % 4;
            Options o; o.solid = turn & 1; o.massFractions = turn & 2;
            std::vector<Request> q = {{"Fe", "K", -1}, {"Pb", "L", -1}, {"Pb", "M", (int) s.sample.size() - 1}, {"Cu", "Ka", 0}, {"Cu", "Kb", -1}, {"Ca", "KL3", -1}, {"Pb", "L3", -1}, {"Si", "K", 0}, {"U", "L1", 0}, {"Fe", "L", -1}};
            judge(r, turn == 3 ? 1 : 0, s, q, o, "set-up", "");
        });
        M.suite("elements", 98, [=](Run & r, int job) {
            std::string e = ref::TABLE[job].symbol;
            const MD & b = REF[0]->el.at(e).binding;
            VD en = {5.0, 33.0, 115.0};
            for (auto & sh : ref::SHELLS()) { double v = get(b, sh); if (v > 0.06 && (T || sh != "M4")) { en.push_back(v * (1 - 1e-6)); en.push_back(v); en.push_back(v * (1 + 1e-6)); } }
            double energy = en[r.choose(en.size())];
            int matrix = r.choose(T ? 3 : 2), mode = r.choose(2);
            Setup s; s.in = 30; s.out = 60; s.beam = {{energy, 1}};
            if (mode) s.beam = {{energy, 1}, {energy * 0.7, 2}, {energy * 1.6, 1}};
            if (matrix == 0) s.sample = {RLayer(e, {{e, 1}}, 1.0, 0.0005)};
            else if (matrix == 1) s.sample = {RLayer("Ar", {{"Ar", 1}}, 0.0018, 1.0), RLayer(e + "3Bi", {{e, 3}, {"Bi", 1}}, 3.0, 0.001)};
            else s.sample = {RLayer(e, {{e, 1}}, 1.0, 0.0001), RLayer(e, {{e, 1}}, 2.0, 0.1)};
            if (e == "Bi" && matrix == 1) { s.sample[1] = RLayer("Bi4", {{"Bi", 1}}, 3.0, 0.001); }
            std::vector<Request> q; for (auto f : {"K", "Ka", "Kb", "L", "L1", "L2", "L3", "M", "M1", "M2", "M3", "M4", "M5"}) q.push_back({e, f, -1});
            Options o; o.massFractions = mode;
            judge(r, matrix == 1, s, q, o, "element", e + " at " + num(energy));
        });
    });
}
