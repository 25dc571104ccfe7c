// F09: the library against an independent reader of the same data files.
// Every element, every way of building the library, every history of file
// replacements up to the bound.
#include "mc.hpp"
#include "ref.hpp"
#include "fisx_elements.h"
#include "fisx_shell.h"
#include "newtable.hpp"
using namespace mc;
using namespace fisx;
typedef std::map<std::string, std::map<std::string, double> > MMD;
typedef std::map<std::string, double> MD;

static std::string D, DUP;                     // data directory, alternative spellings of it
static ref::Library * R0 = nullptr, * RP = nullptr;
static Elements * L0 = nullptr, * LP = nullptr;
static std::vector<std::vector<Xrow> > XCOM;

static void loadXcom(const std::string & path)
{
    XCOM.clear();
    for (auto & s : ref::readSpec(path))
    {
        int ie = -1, ic = -1, ii = -1, ip = -1, iq = -1;
        for (size_t i = 0; i < s.labels.size(); i++)
        {
            std::string k = ref::Shell::upper(s.labels[i]);
            if (k.find("ENERGY") != std::string::npos) ie = i;
            else if (k.find("COMPTON") != std::string::npos) ii = i;
            else if (k.find("RAYLEIGH") != std::string::npos || (k.find("COHERENT") != std::string::npos && k.find("INCOH") == std::string::npos && k.find("TOTAL") == std::string::npos)) ic = i;
            else if (k.find("PHOTO") != std::string::npos) ip = i;
            else if (k.find("PAIR") != std::string::npos) iq = i;
        }
        std::vector<Xrow> v;
        for (auto & r : s.rows) { Xrow x; x.e = r[ie]; x.coh = r[ic]; x.com = r[ii]; x.photo = r[ip]; x.pair = iq < 0 ? 0.0 : r[iq]; v.push_back(x); }
        XCOM.push_back(v);
    }
}

static bool sameMap(Run & r, const MD & got, const MD & want, const std::string & key, double rtol)
{
    std::string d;
    for (auto & p : want) { auto i = got.find(p.first); if (i == got.end()) d += " missing " + p.first; else if (!Run::close(i->second, p.second, rtol, 1e-300)) d += " " + p.first + "=" + num(i->second) + " want " + num(p.second); }
    for (auto & p : got) if (!want.count(p.first)) d += " extra " + p.first + "=" + num(p.second);
    return r.check(d.empty(), key, d);
}
static MD nonzero(const MD & m) { MD r; for (auto & p : m) if (p.second != 0.0) r.insert(p); return r; }
// supplied rates as shares, whatever scale is kept
static MD shares(const MD & m)
{
    MD r; double t = 0; for (auto & p : m) if (p.first != "TOTAL") t += p.second;
    if (t > 0) for (auto & p : m) if (p.first != "TOTAL" && p.second != 0.0) r[p.first] = p.second / t;
    return r;
}

static void basics(Run & r, Elements & L, const ref::Element & e, const std::string & w)
{
    const Element & x = L.getElement(e.name);
    r.check(L.isElementNameDefined(e.name), w + ":defined");
    r.check(x.getName() == e.name, w + ":symbol", x.getName());
    r.check(L.getLongName(e.name) == e.longName && x.getLongName() == e.longName, w + ":long name", L.getLongName(e.name));
    r.check(L.getAtomicNumber(e.name) == e.z && x.getAtomicNumber() == e.z, w + ":atomic number");
    r.eq(L.getAtomicMass(e.name), e.mass, w + ":atomic mass", 1e-12);
    r.eq(x.getAtomicMass(), e.mass, w + ":atomic mass", 1e-12);
    r.eq(L.getDensity(e.name), e.density, w + ":density", 1e-12);
    r.check(L.getRow(e.name) == e.row && L.getColumn(e.name) == e.column, w + ":row and column");
}
static void shellData(Run & r, Elements & L, const ref::Element & e, const std::string & w)
{
    sameMap(r, nonzero(L.getBindingEnergies(e.name)), nonzero(e.binding), w + ":binding energies", 1e-14);
    Element x = L.getElementCopy(e.name);
    for (auto & s : ref::SHELLS())
    {
        auto it = e.shells.find(s);
        if (it == e.shells.end()) continue;
        const ref::Shell & q = it->second;
        MD c = L.getShellConstants(e.name, s);
        for (auto & p : q.constants) r.eq(ref::get(c, p.first, -1), p.second, w + ":constant " + p.first, 1e-14);
        double omegaA = 1.0; for (auto & p : q.constants) omegaA -= p.second;
        sameMap(r, nonzero(x.getFluorescenceRatios(s)), q.fluo(), w + ":radiative ratios", 1e-12);
        sameMap(r, shares(L.getRadiativeTransitions(e.name, s)), shares(q.rad), w + ":radiative transitions", 1e-12);
        sameMap(r, shares(L.getNonradiativeTransitions(e.name, s)), shares(q.non), w + ":nonradiative transitions", 1e-12);
        MD a = x.getAugerRatios(s), qa = q.auger(); a.erase("TOTAL"); qa.erase("TOTAL");
        sameMap(r, nonzero(a), nonzero(qa), w + ":Auger ratios", 1e-9);
        MMD k = x.getCosterKronigRatios(s), qk = q.ck();
        for (auto & g : qk)
        {
            MD u = k[g.first], v = g.second; u.erase("TOTAL"); v.erase("TOTAL");
            sameMap(r, nonzero(u), nonzero(v), w + ":Coster-Kronig ratios " + g.first, 1e-9);
        }
        r.check(k.size() == qk.size(), w + ":Coster-Kronig groups");
    }
}
static void muEpdl(Run & r, Elements & L, const ref::Element & e, const std::string & w)
{
    std::map<std::string, std::vector<double> > t = L.getMassAttenuationCoefficients(e.name);
    size_t n = e.muE.size();
    r.check(t["energy"].size() == n, w + ":table length", str(t["energy"].size()) + " want " + str(n));
    if (t["energy"].size() != n) return;
    for (size_t i = 0; i < n; i++)
    {
        r.eq(t["energy"][i], e.muE[i], w + ":table energy", 2e-6);
        double sum = 0;
        for (auto & k : {"photoelectric", "coherent", "compton", "pair"})
        { r.eq(t[k][i], e.mu.at(k)[i], w + ":table " + k, 1e-12, 1e-12 * t["total"][i]); sum += e.mu.at(k)[i]; }
        r.eq(t["total"][i], sum, w + ":table total", 1e-12);
    }
}
static void muXcom(Run & r, Elements & L, const ref::Element & e, const std::string & w)
{
    if ((size_t) e.z > XCOM.size()) { muEpdl(r, L, e, w); return; }
    muNew(r, L, e, XCOM[e.z - 1], w);
}

struct Op { int kind; std::string main, file; };     // 0 constants 1 radiative 2 nonradiative 3 cross sections
static std::vector<Op> OPS;
static void makeOps()
{
    OPS.clear();
    for (auto & m : {"K", "L", "M"})
    {
        std::string s = m;
        OPS.push_back({0, s, D + "/" + s + "ShellConstants.dat"});
        OPS.push_back({1, s, D + "/" + s + "ShellRates.dat"});
        OPS.push_back({0, s, D + "/EADL97_" + s + "ShellConstants.dat"});
        OPS.push_back({1, s, D + "/EADL97_" + s + "ShellRadiativeRates.dat"});
        OPS.push_back({2, s, D + "/EADL97_" + s + "ShellNonradiativeRates.dat"});
    }
    OPS.push_back({3, "", D + "/XCOM_CrossSections.dat"});
    // refused: nothing may change
    OPS.push_back({0, "X", D + "/EADL97_KShellConstants.dat"});
    OPS.push_back({1, "K", D + "/missing.dat"});
    OPS.push_back({2, "L", D + "/missing.dat"});
    OPS.push_back({3, "", D + "/missing.dat"});
}
static bool apply(Elements & L, const Op & o)
{
    return !throws([&] {
        if (o.kind == 0) L.setShellConstantsFile(o.main, o.file);
        else if (o.kind == 1) L.setShellRadiativeTransitionsFile(o.main, o.file);
        else if (o.kind == 2) L.setShellNonradiativeTransitionsFile(o.main, o.file);
        else L.setMassAttenuationCoefficientsFile(o.file);
    });
}

int main(int argc, char ** argv)
{
    static Main M;
    M.init = [] {
        D = getenv("FISX_MC_DATA");
        R0 = new ref::Library(); R0->load(D);
        RP = new ref::Library(); RP->bindings(D + "/BindingEnergies.dat"); RP->crossSections(D + "/EPDL97_CrossSections.dat");
        for (auto & m : {"K", "L", "M"})
        {
            RP->constants(D + "/EADL97_" + m + "ShellConstants.dat");
            RP->transitions(D + "/EADL97_" + m + "ShellNonradiativeRates.dat", false);
            RP->transitions(D + "/EADL97_" + m + "ShellRadiativeRates.dat", true);
        }
        L0 = new Elements(D); LP = new Elements(D, 1);
        loadXcom(D + "/XCOM_CrossSections.dat");
        makeOps();
    };
    return M.main(argc, argv, [](Main & M) {
        M.assumptions.push_back("EPDL97_CrossSections.dat is not part of the repository: a synthetic file with the same layout stands in for it");
        M.suite("default library", 109, [](Run & r, int job) {
            const ref::Element & e = R0->el[R0->order[job]];
            r.op(e.name);
            r.check(L0->getElementNames().size() == 109 && L0->getElementNames()[job] == e.name, "element list");
            basics(r, *L0, e, "default"); shellData(r, *L0, e, "default"); muEpdl(r, *L0, e, "default");
            r.state("d" + e.name);
        });
        // every way of constructing
        M.suite("constructors", 8, [](Run & r, int job) {
            std::string dir = D + (job & 1 ? "/" : "");
            int way = job / 2;
            std::string bind[] = {"", "/BindingEnergies.dat", "/EADL97_BindingEnergies.dat"};
            int b = way == 2 ? r.choose(3) : 0, x = way == 2 ? r.choose(2) : 0;
            r.op("constructor " + str(way) + " dir " + (job & 1 ? "with" : "without") + " separator " + bind[b] + (x ? " XCOM" : ""));
            Elements * L;
            if (way == 0) L = new Elements(dir);
            else if (way == 1) L = new Elements(dir, (short) 1);
            else if (way == 3) L = new Elements(dir, (short) 0);
            else L = new Elements(dir, b ? D + bind[b] : std::string(), x ? D + "/XCOM_CrossSections.dat" : "");
            ref::Library Q = (way == 1 || b == 1) ? *RP : *R0;
            if (way == 1)
                for (auto & m : {"K", "L", "M"})
                { Q.constants(D + "/" + m + "ShellConstants.dat"); Q.transitions(D + "/" + m + "ShellRates.dat", true); }
            std::string w = "constructor";
            for (auto & n : Q.order)
            {
                r.step();
                basics(r, *L, Q.el[n], w); shellData(r, *L, Q.el[n], w);
                if (way == 1 || x) muXcom(r, *L, Q.el[n], w); else muEpdl(r, *L, Q.el[n], w);
            }
            for (auto & m : {"K", "L", "M"})
            {
                std::string p = way == 1 ? "" : "EADL97_";
                auto has = [&](const std::string & f, const std::string & end) { return ref::ends(f, "/" + end); };
                r.check(has(L->getShellConstantsFile(m), p + m + "ShellConstants.dat"), "reported constants file", L->getShellConstantsFile(m));
                r.check(has(L->getShellRadiativeTransitionsFile(m), p + m + (way == 1 ? "ShellRates.dat" : "ShellRadiativeRates.dat")), "reported radiative file", L->getShellRadiativeTransitionsFile(m));
                r.check(has(L->getShellNonradiativeTransitionsFile(m), std::string("EADL97_") + m + "ShellNonradiativeRates.dat"), "reported nonradiative file", L->getShellNonradiativeTransitionsFile(m));
            }
            r.state(r.log);
            delete L;
        });
        // every history of replacements
        int depth = M.thorough() ? 3 : 2;
        M.suite("replacements", 20 * 2, [=](Run & r, int job) {
            bool pym = job % 2; int first = job / 2;
            Elements L(*(pym ? LP : L0));
            ref::Library Q = pym ? *RP : *R0;
            bool xcom = pym;
            std::map<std::string, std::string> files[3];
            for (auto & m : {"K", "L", "M"})
            {
                files[0][m] = L.getShellConstantsFile(m); files[1][m] = L.getShellRadiativeTransitionsFile(m);
                files[2][m] = L.getShellNonradiativeTransitionsFile(m);
                if (pym) { Q.constants(D + "/" + m + "ShellConstants.dat"); Q.transitions(D + "/" + m + "ShellRates.dat", true); }
            }
            r.note(pym ? "PyMca library" : "default library");
            for (int d = 0; d < depth; d++)
            {
                const Op & o = OPS[d == 0 ? first : r.choose((int) OPS.size())];
                r.op("kind " + str(o.kind) + " shell " + o.main + " file " + o.file.substr(D.size()));
                bool must = o.main != "X" && o.file.find("missing") == std::string::npos;
                bool ok = apply(L, o);
                r.check(ok == must, must ? "replacement refused" : "invalid replacement accepted", r.log);
                if (must && o.kind == 0) Q.constants(o.file);
                if (must && o.kind == 1) Q.transitions(o.file, true);
                if (must && o.kind == 2) Q.transitions(o.file, false);
                if (must && o.kind == 3) xcom = true;
                if (must && o.kind < 3) files[o.kind][o.main] = o.file;
            }
            // three elements of four are compared by binding and mass only in the deep histories
            for (auto & n : Q.order)
            {
                const ref::Element & e = Q.el[n];
                shellData(r, L, e, "replaced");
                if (e.z % 7 != 1) continue;
                basics(r, L, e, "replaced");
                if (xcom) muXcom(r, L, e, "replaced"); else muEpdl(r, L, e, "replaced");
            }
            for (auto & m : {"K", "L", "M"})
            {
                r.check(L.getShellConstantsFile(m) == files[0][m], "reported constants file", L.getShellConstantsFile(m));
                r.check(L.getShellRadiativeTransitionsFile(m) == files[1][m], "reported radiative file", L.getShellRadiativeTransitionsFile(m));
                r.check(L.getShellNonradiativeTransitionsFile(m) == files[2][m], "reported nonradiative file", L.getShellNonradiativeTransitionsFile(m));
            }
            r.state(r.log);
        });
        // the PyMca library is the default one switched to the same files, in any order of switching
        M.suite("switching", 6, [](Run & r, int job) {
            Elements L(D, D + "/BindingEnergies.dat", job % 2 ? D + "/XCOM_CrossSections.dat" : "");
            std::vector<int> todo = {0, 1, 2}; std::string order;
            static const int perm[3][3] = {{0, 1, 2}, {2, 1, 0}, {1, 2, 0}};
            if (job % 2 == 0 && job / 2 == 0) L.setMassAttenuationCoefficientsFile(D + "/XCOM_CrossSections.dat");
            for (int i = 0; i < 3; i++)
            {
                std::string m = std::string(1, "KLM"[perm[job / 2][i]]);
                L.setShellRadiativeTransitionsFile(m, D + "/" + m + "ShellRates.dat");
                L.setShellConstantsFile(m, D + "/" + m + "ShellConstants.dat");
            }
            if (job % 2 == 0 && job / 2) L.setMassAttenuationCoefficientsFile(D + "/XCOM_CrossSections.dat");
            r.op("switched in order " + str(job));
            for (auto & n : R0->order)
            {
                r.step();
                r.check(L.getBindingEnergies(n) == LP->getBindingEnergies(n), "switched:binding");
                for (auto & s : ref::SHELLS())
                    if (L.getBindingEnergies(n).count(s))
                    {
                        r.check(L.getShellConstants(n, s) == LP->getShellConstants(n, s), "switched:constants", n + s);
                        r.check(L.getRadiativeTransitions(n, s) == LP->getRadiativeTransitions(n, s), "switched:radiative", n + s);
                        r.check(L.getNonradiativeTransitions(n, s) == LP->getNonradiativeTransitions(n, s), "switched:nonradiative", n + s);
                    }
                r.check(L.getMassAttenuationCoefficients(n) == LP->getMassAttenuationCoefficients(n), "switched:mu table", n);
                for (double e : {0.3, 1.5, 5.0, 14.0, 33.3, 120.0})
                {
                    r.check(L.getElement(n).getMassAttenuationCoefficients(e) == LP->getElement(n).getMassAttenuationCoefficients(e), "switched:mu", n);
                    r.check(L.getExcitationFactors(n, e) == LP->getExcitationFactors(n, e), "switched:excitation factors", n);
                }
            }
            r.state(r.log);
        });
    });
}
