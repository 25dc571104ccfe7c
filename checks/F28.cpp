// F28: tertiary excitation against the result without it.
#include "mc.hpp"
#include "refxrf.hpp"
using namespace mc;
using namespace refx;
using ref::get;
using fisx::XRF;

static std::vector<std::vector<RLayer> > SAMPLES;
static void menu()
{
    RLayer steel("Cr2Fe6Ni", {{"Cr", 2}, {"Fe", 6}, {"Ni", 1}}, 7.9, 0.5), foil("Cr2Fe6Ni", {{"Cr", 2}, {"Fe", 6}, {"Ni", 1}}, 7.9, 0.001), zn("ZnFeCrCaS", {{"Zn", 3}, {"Fe", 2}, {"Cr", 2}, {"Ca", 2}, {"S", 1}}, 5.1, 0.01), fe("Fe", {{"Fe", 1}}, 7.87, 0.01), trace("Fe1000Cr", {{"Fe", 1000}, {"Cr", 1}}, 7.8, 0.05), pb("PbZnFe", {{"Pb", 1}, {"Zn", 1}, {"Fe", 1}}, 8, 0.002);
    // elements of a few percent, down to below the limit for contributing
    RLayer some("Fe50CrZn2", {{"Fe", 50}, {"Cr", 1}, {"Zn", 2}}, 7.8, 0.05), little("Ni160Fe8Cr2", {{"Ni", 160}, {"Fe", 8}, {"Cr", 2}}, 8, 0.02);
    SAMPLES = {{steel}, {foil}, {zn}, {fe}, {trace}, {foil, zn}, {pb, steel}, {fe, foil, pb}, {some}, {little, some}};
}
static Main M;
int main(int argc, char ** argv)
{
    M.init = [] { initLibraries(1); menu(); };
    M.main(argc, argv, [](Main & M) {
        bool T = M.thorough();
        M.suite("tertiary", 10 * 3 * 3, [=](Run & r, int job) {
            static const std::vector<VD> BEAM = {{20.0}, {8.5, 14.0}, {7.2, 40.0, 11.0}};
            Setup s; s.sample = SAMPLES[job % 10]; for (double e : BEAM[job / 10 % 3]) s.beam.push_back({e, 1.0});
            if (job / 30 == 1) { s.hasDetector = true; s.detector = RLayer("Si", {{"Si", 1}}, 2.33, 0.04); s.area = 0.3; s.in = 60; s.out = 15; }
            if (job / 30 == 2) { s.attenuators = {RLayer("Al", {{"Al", 1}}, 2.7, 0.01)}; s.hasDetector = true; s.detector = RLayer("Ge", {{"Ge", 1}}, 5.3, 0.3); s.in = 90; s.out = 45; }
            // which lines are asked for: every non-empty subset of six
            static const std::vector<std::pair<std::string, std::string> > MENU = {{"Cr", "K"}, {"Fe", "K"}, {"Ni", "K"}, {"Zn", "K"}, {"Ca", "K"}, {"Pb", "L3"}};
            static const std::vector<int> FEW = {1, 2, 3, 5, 7, 8, 12, 15, 22, 31, 33, 43, 63};
            int mask = T ? 1 + (int) r.choose(63) : FEW[r.choose((int) FEW.size())], mf = T ? (int) r.choose(2) : mask & 1;
            VS e, f; std::string at = "sample"; for (auto & l : s.sample) at += " " + l.name; at += " detector " + str(job / 30) + " beam " + str(job / 10 % 3) + " asked"; for (int i = 0; i < 6; i++) if (mask >> i & 1) { e.push_back(MENU[i].first); f.push_back(MENU[i].second); at += " " + MENU[i].first; }
            r.note(at); r.step(); r.site("tertiary");
            XRF x; s.apply(x);
            Result two = x.getMultilayerFluorescence(e, *LIB[0], std::vector<int>(1, -1), f, 1, 1, mf), three = x.getMultilayerFluorescence(e, *LIB[0], std::vector<int>(1, -1), f, 2, 1, mf);
            std::string d; int n = 0; auto bad = [&](const std::string & m) { if (n++ < 4) d += " " + m + ";"; };
            // factor by which each asked-for line is enhanced in each layer
            MD factor;
            for (auto & k : two) for (auto & l : k.second) for (auto & line : l.second)
            {
                if (line.first.find("esc") != std::string::npos) continue;
                double p = get(line.second, "primary"), q = p > 0 ? (p + get(line.second, "secondary")) / p : 1;
                if (q >= 1.01 && get(line.second, "massFraction") >= 5e-3) factor[k.first.substr(0, k.first.find(' ')) + " " + line.first + " 0" + std::to_string(l.first)] = q;
            }
            for (auto & k : two) for (auto & l : k.second) for (auto & line : l.second)
            {
                std::string nm = k.first + " layer " + str(l.first) + " " + line.first;
                if (!three.count(k.first) || !three[k.first].count(l.first) || !three[k.first][l.first].count(line.first)) { bad(nm + " lost"); continue; }
                const MD & h = three[k.first][l.first][line.first];
                for (auto & v : line.second) if (v.first != "rate" && get(h, v.first, NAN) != v.second) bad(nm + " " + v.first + " changed from " + num(v.second) + " to " + num(get(h, v.first, NAN)));
                for (auto & v : h) if (!line.second.count(v.first) && v.first != "tertiary") bad(nm + " new entry " + v.first);
                double p = get(h, "primary"), q = get(h, "secondary"), t = get(h, "tertiary", NAN);
                if (!(t >= 0)) { bad(nm + " tertiary " + num(t)); continue; }
                bool esc = line.first.find("esc") != std::string::npos;
                double bound = 0, parent = 1;
                if (!esc)
                {
                    if (p > 0 && (p + q) / p >= 1.01) for (auto & c : factor) bound += get(line.second, c.first) * (c.second - 1);
                    if (!Run::close(t, bound, 1e-9, 1e-290)) bad(nm + " tertiary " + num(t) + " want " + num(bound));
                    // efficiency, less what escapes from the detector
                    double lost = 0; for (auto & o : l.second) if (o.first.compare(0, line.first.size() + 1, line.first + " ") == 0) lost += get(o.second, "ratio");
                    if (!Run::close(get(h, "rate"), (1 - lost) * get(h, "efficiency") * (p + q + t), 1e-9, 1e-290)) bad(nm + " rate " + num(get(h, "rate")) + " want " + num((1 - lost) * get(h, "efficiency") * (p + q + t)));
                }
                else
                {
                    auto & o = three[k.first][l.first][line.first.substr(0, line.first.find(' '))]; parent = get(h, "ratio");
                    if (!Run::close(t, parent * get(o, "tertiary"), 1e-9, 1e-290)) bad(nm + " tertiary " + num(t) + " want " + num(parent * get(o, "tertiary")));
                    if (!Run::close(get(h, "rate"), parent * get(o, "efficiency") * (get(o, "primary") + get(o, "secondary") + get(o, "tertiary")), 1e-9, 1e-290)) bad(nm + " rate " + num(get(h, "rate")));
                }
            }
            for (auto & k : three) for (auto & l : k.second) { if (!two.count(k.first) || !two[k.first].count(l.first)) { bad(k.first + " layer " + str(l.first) + " new"); continue; } for (auto & line : l.second) if (!two[k.first][l.first].count(line.first)) bad(k.first + " " + line.first + " new"); }
            r.check(d.empty(), "tertiary", d.empty() ? d : at + ":" + d);
        });
    });
}
