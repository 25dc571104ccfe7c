// F24: superposition over the beam and scaling by mass fraction and solid angle.
#include "mc.hpp"
#include "refxrf.hpp"
using namespace mc;
using namespace refx;
using ref::get;
using fisx::XRF;

static std::vector<Setup> SETUPS;
static const std::vector<double> EN = {3.2, 5.992, 7.3, 8.5, 13.4, 15.3, 30.0, 92.0};
static const std::vector<Request> Q = {{"Fe", "K", -1}, {"Cr", "K", -1}, {"Pb", "L", -1}, {"Pb", "M", 0}, {"Ca", "K", -1}};
static VS QE, QF; static std::vector<int> QL;
static void menu()
{
    RLayer steel("Cr2Fe6", {{"Cr", 2}, {"Fe", 6}}, 7.9, 0.0008), pb("PbCa2", {{"Pb", 1}, {"Ca", 2}}, 5.0, 0.0006), mix("Fe2PbCr", {{"Fe", 2}, {"Pb", 1}, {"Cr", 1}}, 8.0, 0.01), al("Al", {{"Al", 1}}, 2.7, 0.003);
    Setup a; a.sample = {steel, pb}; a.attenuators = {al}; a.area = 0.8; a.distance = 2;
    Setup b; b.sample = {mix}; b.hasDetector = true; b.detector = RLayer("Si", {{"Si", 1}}, 2.33, 0.04); b.area = 0.3; b.distance = 3; b.in = 70; b.out = 20; b.filters = {al};
    Setup c; c.sample = {pb, mix, steel}; c.reference = 2; c.area = 5; c.distance = 1.1; RTable t; t.n = {{2.0, 0.3}, {40.0, 0.9}}; c.userFilters = {t}; c.userAttenuators = {t};
    SETUPS = {a, b, c};
    for (auto & k : Q) { QE.push_back(k.element); QF.push_back(k.family); QL.push_back(k.layer); }
}
static Result compute(const Setup & s, int sec, int solid, int mf, bool handOver = false)
{
    XRF x; s.apply(x);
    if (!handOver) return x.getMultilayerFluorescence(QE, *LIB[0], QL, QF, sec, solid, mf);
    VD e, w; for (auto & p : s.beam) { e.push_back(p.first); w.push_back(p.second); }
    fisx::Beam b; b.setBeam(e, w); x.setBeam(VD(2, 50.0), VD(2, 1.0));
    return x.getMultilayerFluorescence(QE, *LIB[0], QL, QF, sec, solid, mf, 0.0, b);
}
static bool additive(const std::string & k) { return k != "energy" && k != "efficiency" && k != "energy_threshold" && k != "mu_1_i" && k != "massFraction" && k != "ratio"; }
static void same(Run & r, const Result & got, const Result & want, const std::string & w, const std::string & at, double rtol = 1e-10)
{
    std::string d; int n = 0; auto bad = [&](const std::string & m) { if (n++ < 4) d += " " + m + ";"; };
    for (auto & k : want) for (auto & l : k.second) for (auto & line : l.second)
    {
        const MD * g = nullptr; auto i = got.find(k.first); if (i != got.end()) { auto j = i->second.find(l.first); if (j != i->second.end()) { auto m = j->second.find(line.first); if (m != j->second.end()) g = &m->second; } }
        std::string nm = k.first + " layer " + str(l.first) + " " + line.first;
        if (!g) { bad(nm + " missing"); continue; }
        for (auto & v : line.second)
        {
            auto q = g->find(v.first); double have = q == g->end() ? 0.0 : q->second, scale = v.first == "rate" ? 0 : get(line.second, "secondary") * 1e-13;
            if (!Run::close(have, v.second, rtol, 1e-280 + scale)) bad(nm + " " + v.first + "=" + num(have) + " want " + num(v.second));
        }
        for (auto & v : *g) if (!line.second.count(v.first) && v.second != 0) bad(nm + " extra " + v.first);
    }
    for (auto & k : got) for (auto & l : k.second) for (auto & line : l.second) { auto i = want.find(k.first); if (i == want.end() || !i->second.count(l.first) || !i->second.at(l.first).count(line.first)) bad(k.first + " " + line.first + " extra"); }
    r.check(d.empty(), w, d.empty() ? d : at + ":" + d);
}
static Main M;
int main(int argc, char ** argv)
{
    M.init = [] { initLibraries(1); menu(); };
    M.main(argc, argv, [](Main & M) {
        bool T = M.thorough();
        const int NE = 8;
        // every subset of the energies, in two orders, with three kinds of weights
        M.suite("superposition", 3 * 2 * 32, [=](Run & r, int job) {
            int setup = job % 3, sec = job / 3 % 2, low = job / 6; int mask = low * 8 + r.choose(8);
            int bits = __builtin_popcount(mask); if (bits == 0 || (!T && bits > (sec ? 3 : 4))) return;
            int kind = T ? (int) r.choose(4) : (mask + job) % 4;
            Setup s = SETUPS[setup]; s.beam.clear();
            for (int i = 0; i < NE; i++) if (mask >> i & 1) s.beam.push_back({EN[i], kind == 0 ? 1.0 : kind == 1 ? 1 + i : kind == 2 ? 1e4 * (9 - i) : 0.001 * (1 + i * i)});
            if (kind & 1) std::reverse(s.beam.begin(), s.beam.end());
            if (kind == 2) { auto p = s.beam[0]; s.beam[0].second *= 0.25; s.beam.push_back({p.first, p.second * 0.75}); }
            if (kind == 3) s.beam.push_back({20.0, 0.0});
            std::string at = "set-up " + str(setup) + " secondary " + str(sec) + " beam"; for (auto & p : s.beam) at += " " + num6(p.first) + ":" + num6(p.second);
            r.note(at); r.step(); r.site("superposition");
            double sum = 0; for (auto & p : s.beam) sum += p.second;
            Result want;
            static std::map<std::string, Result> memo;
            for (auto & p : s.beam)
            {
                if (p.second <= 0) continue;
                std::string key = str(setup) + " " + str(sec) + " " + num(p.first);
                if (!memo.count(key)) { Setup one = s; one.beam = {{p.first, 1.0}}; memo[key] = compute(one, sec, 0, 0); }
                for (auto & k : memo[key]) for (auto & l : k.second) for (auto & line : l.second) for (auto & v : line.second)
                { double & x = want[k.first][l.first][line.first][v.first]; if (additive(v.first)) x += v.second * p.second / sum; else x = v.second; }
            }
            Result got = compute(s, sec, 0, 0);
            same(r, got, want, "sum over the rays", at);
            if (mask % 3 == 0) r.check(got == compute(s, sec, 0, 0, true), "beam handed over", at);
        });
        M.suite("normalisation", 3 * 8 * 2, [=](Run & r, int job) {
            Setup s = SETUPS[job % 3]; s.beam = {{EN[job / 3 % 8], 1.0}, {EN[(job / 3 + 3) % 8] * 1.01, 2.0}}; int sec = job / 24;
            int what = r.choose(3);                                   // mass fractions, solid angle, both
            std::string at = "set-up " + str(job % 3) + " secondary " + str(sec) + " beam " + num6(s.beam[0].first) + " " + num6(s.beam[1].first);
            r.note(at); r.step(); r.site("normalisation");
            Result plain = compute(s, sec, 0, 0), got = compute(s, sec, what != 0, what != 1), want;
            for (auto & k : plain) for (auto & l : k.second)
            {
                double mf = get(s.sample[l.first].comp, k.first.substr(0, k.first.find(' '))), geo = what ? geometric(s, l.first) : 1.0;
                if (what != 1 && mf == 0) continue;
                for (auto & line : l.second) for (auto & v : line.second)
                {
                    double x = v.second;
                    if (v.first == "massFraction") { r.eq(x, mf, "mass fraction reported", 1e-9); }
                    else if (v.first == "efficiency") x *= geo;
                    else if (additive(v.first)) { if (what != 1) x *= mf; if (v.first == "rate") x *= geo; }
                    want[k.first][l.first][line.first][v.first] = x;
                }
            }
            same(r, got, want, what == 0 ? "mass fractions" : what == 1 ? "solid angle" : "mass fractions and solid angle", at);
        });
        M.suite("transparent", 3 * 8, [=](Run & r, int job) {
            Setup s = SETUPS[job % 3]; s.beam = {{EN[job / 3], 1.0}, {17.0, 2.0}};
            int what = r.choose(8); Setup t = s;
            RLayer clear("Fe", {{"Fe", 1}}, 7.87, 0.1, 0.0), nothing("Fe", {{"Fe", 1}}, 7.87, 1e-25); RTable one; one.n = {{0.0, 1.0}}; RTable empty;
            if (what == 0) t.filters.insert(t.filters.begin(), clear); else if (what == 1) t.filters.push_back(nothing); else if (what == 2) t.attenuators.insert(t.attenuators.begin(), clear); else if (what == 3) t.attenuators.push_back(nothing);
            else if (what == 4) t.userFilters.push_back(one); else if (what == 5) t.userAttenuators.insert(t.userAttenuators.begin(), one); else if (what == 6) { t.filters.push_back(clear); t.filters.push_back(clear); t.attenuators.push_back(nothing); } else { std::reverse(t.filters.begin(), t.filters.end()); for (auto & p : t.beam) p.second *= 1000; }
            r.note("set-up " + str(job % 3) + " change " + str(what)); r.step(); r.site("transparent");
            int sec = job % 2; same(r, compute(t, sec, 1, 0), compute(s, sec, 1, 0), "transparent filter or attenuator", "set-up " + str(job % 3) + " change " + str(what), 1e-12);
        });
    });
}
