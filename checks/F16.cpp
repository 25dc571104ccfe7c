// F16: vacancy cascades.  Every element of three libraries and every small
// transition scheme, for every initial distribution over a grid.
#include "mc.hpp"
#include "reflibs.hpp"
using namespace mc;
using namespace fisx;
typedef std::map<std::string, double> MD;
typedef std::map<std::string, MD> MMD;
typedef std::vector<double> VD;
typedef std::vector<std::string> VS;

static void same(Run & r, const MD & got, const MD & want, const std::string & key, const std::string & at)
{
    std::string d;
    for (auto & p : want) { auto i = got.find(p.first); if (i == got.end()) { if (p.second != 0) d += " missing " + p.first; } else if (!Run::close(i->second, p.second, 1e-10, 1e-14)) d += " " + p.first + "=" + num6(i->second) + " want " + num6(p.second); }
    for (auto & p : got) if (!want.count(p.first) && p.second != 0) d += " extra " + p.first + "=" + num6(p.second);
    r.check(d.empty(), key, at + d);
}
static void sameLines(Run & r, const MMD & got, const MMD & want, const std::string & key, const std::string & at)
{
    std::string d;
    for (auto & p : want)
    {
        auto i = got.find(p.first);
        if (i == got.end()) { if (p.second.at("rate") > 1e-18) d += " missing " + p.first; continue; }
        if (!Run::close(ref::get(i->second, "rate"), p.second.at("rate"), 1e-10, 1e-18)) d += " " + p.first + " rate " + num6(ref::get(i->second, "rate")) + " want " + num6(p.second.at("rate"));
        if (!Run::close(ref::get(i->second, "energy"), p.second.at("energy"), 1e-10, 1e-12)) d += " " + p.first + " energy " + num6(ref::get(i->second, "energy")) + " want " + num6(p.second.at("energy"));
    }
    for (auto & p : got) if (!want.count(p.first)) d += " extra " + p.first;
    r.check(d.empty(), key, at + d);
}
static std::string show(const MD & m) { std::string s; for (auto & p : m) s += p.first + "=" + num6(p.second) + " "; return s; }

static void observe(Run & r, Element e, const ref::Element & m, const MD & d, const std::string & w)
{
    std::string at = e.getName() + " " + show(d);
    bool bad = false;
    for (auto & s : m.shells) if (ref::get(d, s.first) > 0 && s.second.yields() > 1.0001) bad = true;
    if (bad) return;
    r.site(w + ":cascade");
    MD c = e.getCascadeModifiedVacancyDistribution(d);
    MD want = m.cascade(d);
    bool impossible = false;
    for (auto & s : m.shells) if (ref::get(want, s.first) > 0 && s.second.yields() > 1.0001) impossible = true;
    if (impossible) return;
    same(r, c, want, w + ":cascade", at);
    for (int casc = 0; casc < 2; casc++)
        for (int y = 0; y < 2; y++)
            sameLines(r, e.getXRayLinesFromVacancyDistribution(d, casc, y), m.lines(d, casc, y), w + ":lines cascade=" + str(casc) + " yield=" + str(y), at);
    sameLines(r, e.getXRayLinesFromVacancyDistribution(d), m.lines(d), w + ":lines default arguments", at);
    e.setCascadeCacheEnabled(1); e.fillCascadeCache();
    for (int casc = 0; casc < 2; casc++)
        for (int y = 0; y < 2; y++)
            sameLines(r, e.getXRayLinesFromVacancyDistribution(d, casc, y), m.lines(d, casc, y), w + ":lines from cascade cache", at);
    // linear: three times the vacancies, and the sum of the single ones
    MD t; for (auto & p : d) t[p.first] = 3.0 * p.second;
    MD ct = e.getCascadeModifiedVacancyDistribution(t), s;
    for (auto & p : d) { MD one; one[p.first] = p.second; MD q = e.getCascadeModifiedVacancyDistribution(one); for (auto & x : q) s[x.first] += x.second; }
    for (auto & p : c) { r.eq(ct[p.first], 3.0 * p.second, w + ":scaling", 1e-12); if (d.size()) r.eq(s[p.first], p.second, w + ":superposition", 1e-12); }
    // however few they are
    MD u; for (auto & p : d) u[p.first] = 9.5367431640625e-7 * p.second;      // 2^-20
    MD cu = e.getCascadeModifiedVacancyDistribution(u);
    for (auto & p : c) r.check(Run::close(cu[p.first], 9.5367431640625e-7 * p.second, 1e-10, 1e-24), w + ":scaling of few vacancies", at + p.first + "=" + num(cu[p.first]));
    auto lu = e.getXRayLinesFromVacancyDistribution(u); auto wl = m.lines(u); std::string du;
    for (auto & l : wl) if (!Run::close(lu.count(l.first) ? ref::get(lu[l.first], "rate") : 0.0, l.second["rate"], 1e-10, 1e-24)) du += " " + l.first;
    r.check(du.empty(), w + ":lines of few vacancies", at + du);
    for (auto & l : m.lines(d)) r.eq(e.getTransitionEnergy(l.first), l.second.at("energy"), w + ":transition energy", 1e-12);
}

int main(int argc, char ** argv)
{
    static Main M;
    M.init = [] { initLibraries(3); };
    return M.main(argc, argv, [](Main & M) {
        bool T = M.thorough();
        // distributions over the library
        M.suite("library", 109 * 3, [=](Run & r, int job) {
            int which = job / 109;
            const ref::Element & m = REF[which]->el[REF[which]->order[job % 109]];
            const Element & e = LIB[which]->getElement(m.name);
            MD d; int kind = r.choose(T ? 9 + 36 + 4 : 9 + 9 + 4);
            if (kind < 9) d[ref::SHELLS()[kind]] = 1.0;
            else if (kind < (T ? 45 : 18))
            {
                if (T) { int k = kind - 9, a = 0; while (k >= 8 - a) { k -= 8 - a; a++; } d[ref::SHELLS()[a]] = 0.3; d[ref::SHELLS()[a + 1 + k]] = 0.7; }
                else { d[ref::SHELLS()[kind - 9]] = 0.3; d[ref::SHELLS()[(kind - 8) % 9]] = 0.7; }
            }
            else
            {
                int k = kind - (T ? 45 : 18);
                if (k == 0) {}
                else if (k == 1) { for (auto & s : ref::SHELLS()) d[s] = 0.1; d["all other"] = 0.5; }
                else if (k == 2) { for (auto & s : ref::SHELLS()) d[s] = 0.0; }
                else { for (size_t i = 0; i < 9; i++) d[ref::SHELLS()[i]] = 1.0 / (1 + i); d["N1"] = 3.0; }
            }
            r.op(std::string(LIBNAME[which]) + " " + m.name + " " + show(d));
            observe(r, e, m, d, LIBNAME[which]);
            same(r, LIB[which]->getCascadeModifiedVacancyDistribution(m.name, d), e.getCascadeModifiedVacancyDistribution(d), "library query", m.name);
            sameLines(r, LIB[which]->getXRayLinesFromVacancyDistribution(m.name, d), m.lines(d), "library query lines", m.name);
            sameLines(r, LIB[which]->getXRayLinesFromVacancyDistribution(m.name, d, 0, 1), m.lines(d, false, true), "library query lines", m.name);
            sameLines(r, LIB[which]->getXRayLinesFromVacancyDistribution(m.name, d, 1, 0), m.lines(d, true, false), "library query lines", m.name);
            r.state(r.log);
        });
        // every small scheme of transitions
        static const std::vector<VS> KN = {{}, {"K-L1L1"}, {"K-L1L2", "K-L2L3", "K-L3M1"}, {"K-L2L2", "K-M1M2", "K-L3N1"}, {"K-L3L3", "K-N1N1"}};
        static const std::vector<VS> LN = {{}, {"L1-L2M1", "L1-L3M1", "L1-M1M2"}, {"L1-L2N1", "L1-M1M1"}, {"L1-L3M4", "L1-L3M5", "L1-M2N1"}};
        static const std::vector<VS> L2N = {{}, {"L2-L3M1", "L2-M1M1"}, {"L2-M2M3", "L2-L3N1", "L2-L3M5"}};
        static const std::vector<VS> KR = {{}, {"KL2", "KL3"}, {"KL1", "KL3", "KM3", "KN2"}};
        M.suite("schemes", (int) (KN.size() * LN.size() * L2N.size()), [=](Run & r, int job) {
            const VS & kn = KN[job % KN.size()], & ln = LN[job / KN.size() % LN.size()], & l2 = L2N[job / KN.size() / LN.size()];
            MD b; b["K"] = 20; b["L1"] = 4; b["L2"] = 3.5; b["L3"] = 3; b["M1"] = 0.9; b["M2"] = 0.8; b["M3"] = 0.7; b["M4"] = 0.5; b["M5"] = 0.4; b["N1"] = 0.1; b["N2"] = 0.0;
            int missing = r.choose(3);
            if (missing == 1) b.erase("L2");
            if (missing == 2) { b.erase("M4"); b.erase("M5"); }
            Element e("Xx", 40); ref::Element m; m.name = "Xx";
            e.setBindingEnergies(b); m.setBinding(b);
            auto non = [&](const std::string & s, const VS & l) {
                if (!b.count(s) || l.empty()) return;
                VD v; for (size_t i = 0; i < l.size(); i++) v.push_back(1.0 + 2.0 * i);
                e.setNonradiativeTransitions(s, l, v); m.shells[s].setNon(l, v);
            };
            auto rad = [&](const std::string & s, const VS & l) {
                if (!b.count(s) || l.empty()) return;
                VD v; for (size_t i = 0; i < l.size(); i++) v.push_back(3.0 - i * 0.5);
                e.setRadiativeTransitions(s, l, v); m.shells[s].setRad(l, v);
            };
            auto con = [&](const std::string & s, const MD & c) { if (!b.count(s)) return; e.setShellConstants(s, c); m.shells[s].setConstants(c); };
            non("K", kn); non("L1", ln); non("L2", l2); non("L3", {"L3-M1M2", "L3-M4M5", "L3-M5M5"}); non("M1", {"M1-M2N1", "M1-M3N1", "M1-M5N1", "M1-N1N1"});
            rad("K", r.pick(KR)); rad("L1", {"L1M2", "L1M3"}); rad("L2", {"L2M4", "L2M1"}); rad("L3", {"L3M5", "L3M1", "L3N1"}); rad("M1", {"M1N2", "M1N1"});
            static const VD ok = {0.0, 0.4, 1.0};
            MD c; c["omega"] = r.pick(ok); con("K", c);
            int y = r.choose(3);
            MD c1; c1["omega"] = y ? 0.1 : 0.0; c1["f12"] = y == 1 ? 0.2 : 0.0; c1["f13"] = y ? 0.5 : 0.0; con("L1", c1);
            MD c2; c2["omega"] = 0.2; c2["f23"] = y == 2 ? 0.8 : 0.15; con("L2", c2);
            MD c3; c3["omega"] = 0.3; con("L3", c3);
            MD c4; c4["omega"] = 0.01; c4["f12"] = 0.3; c4["f13"] = 0.4; c4["f15"] = 0.2; con("M1", c4);
            MD d; int k = r.choose(6);
            if (k == 0) d["K"] = 1; else if (k == 1) d["L1"] = 2; else if (k == 2) { d["K"] = 0.5; d["L2"] = 0.25; d["M1"] = 0.25; }
            else if (k == 3) { for (auto & s : ref::SHELLS()) d[s] = 1; } else if (k == 4) d["L2"] = 1; else d["M1"] = 1;
            r.op("scheme " + str(job) + " missing " + str(missing) + " yields " + str(y) + " omegaK " + num6(c["omega"]) + " distribution " + show(d));
            observe(r, e, m, d, "scheme");
            r.state(r.log);
        });
    });
}
