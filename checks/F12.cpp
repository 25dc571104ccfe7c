// F12: questions leave no trace.  Every history of questions to the objects of two
// users is put in a fresh process; each answer must equal, bit for bit, the answer
// the same question gets when it is the only one ever asked.  Then: programs of two
// users (changes and questions), all interleavings of their calls.
#include "mc.hpp"
#include "reflibs.hpp"
#include "fisx_xrf.h"
#include "fisx_epdl97.h"
#include "bytes.hpp"
#include "child.hpp"
#include "fisx_math.h"
#include "fisx_simplespecfile.h"
#include "fisx_simpleini.h"
#include <functional>
#include <unistd.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <poll.h>
using namespace mc;
using namespace fisx;
typedef std::map<std::string, double> MD;
typedef std::vector<double> VD;
typedef std::vector<std::string> VS;

struct World {
    Elements * L = nullptr; XRF * x = nullptr; Detector * d = nullptr; Layer * named = nullptr, * own = nullptr; Beam * beam = nullptr; TransmissionTable * table = nullptr; EPDL97 * epdl = nullptr;
    SimpleSpecfile * spec = nullptr; SimpleIni * ini = nullptr; Shell * shell = nullptr; Element * el = nullptr; Material * mat = nullptr;
};
static World W[3][2], COMMON[3][2];
static std::string scratch;
static std::string iniFile()
{
    std::string f = scratch + "/questions" + std::to_string(getpid()) + ".ini";
    FILE * o = fopen(f.c_str(), "w"); fputs("[first]\nkey = 1, 2\nother = text\n[first.sub]\nkey = 3\n[Second]\nkey = 4\n", o); fclose(o); return f;
}
static Elements * library(int u)
{
    Elements * L = new Elements(*LIB[u ? 1 : 0]);
    Material m("Steel", 7.8, 0.1, "alloy"); m.setComposition(VS{"Fe", "Cr"}, u ? VD{3, 2} : VD{7, 2}); L->addMaterial(m);
    Material k("Mix", 3.0, 0.2); k.setComposition(VS{"Steel", "SiO2", "Pb"}, VD{1, 2, u ? 0.5 : 1.5}); L->addMaterial(k);
    return L;
}
static World world(int u, Elements * L)
{
    World w; w.L = L;
    w.named = new Layer("Mix", 3.0, 0.01, 0.9); w.own = new Layer("own", 5.0, 0.002); Material m("own"); m.setComposition(VS{"Fe", "PbO"}, VD{1, 1.0 + u}); w.own->setMaterial(m); w.mat = new Material(m);
    w.d = new Detector(u ? "Ge" : "Si", 2.33, 0.05); w.d->setActiveArea(0.3); w.d->setDistance(3.0);
    w.beam = new Beam(); w.beam->setBeam(u ? VD{9, 30, 18} : VD{12, 8}, u ? VD{1, 2, 3} : VD{2, 1});
    w.table = new TransmissionTable("table"); w.table->setTransmissionTable(u ? VD{1, 5, 20} : VD{2, 30}, u ? VD{0, 0.5, 1} : VD{0.25, 0.75});
    w.epdl = new EPDL97(D);
    w.spec = new SimpleSpecfile(D + (u ? "/LShellRates.dat" : "/KShellRates.dat")); w.ini = new SimpleIni(iniFile());
    w.el = new Element(L->getElement(u ? "Pb" : "Fe")); w.shell = new Shell(w.el->getShell("L1"));
    w.x = new XRF(); w.x->setBeam(*w.beam); w.x->setGeometry(u ? 60 : 45, u ? 30 : 45, 90); w.x->setDetector(*w.d);
    w.x->setBeamFilters(std::vector<Layer>(1, Layer("Al", 2.7, 0.002))); w.x->setUserBeamFilters(std::vector<TransmissionTable>(1, *w.table)); w.x->setAttenuators(std::vector<Layer>(1, Layer("Be", 1.85, 0.003)));
    std::vector<Layer> s; s.push_back(Layer("Steel", 7.8, 0.0008)); s.push_back(*w.own); if (u) s.push_back(*w.named); w.x->setSample(s, 0);
    return w;
}

struct Question { std::string name; std::function<void(World &, Bytes &)> ask; bool light; };
static std::vector<Question> Q;
// many small questions in one: put forwards, backwards and forwards again, every one must get the same answer each time
static const char * ORDER = "<an answer depends on the order>";
struct Asks {
    std::vector<std::function<void(Bytes &)> > f;
    void operator()(std::function<void(Bytes &)> g) { f.push_back(g); }
    std::string one(size_t i) { Bytes b; try { f[i](b); b << "answered"; } catch (std::exception &) { b = Bytes(); b << "refused"; } return b.s; }
    void ask(Bytes & o) { VS a(f.size()); bool same = true; for (size_t i = 0; i < f.size(); i++) a[i] = one(i); for (size_t i = f.size(); i-- > 0;) same = same && one(i) == a[i]; for (size_t i = 0; i < f.size(); i++) same = same && one(i) == a[i]; for (auto & x : a) o << x; if (!same) o.s += ORDER; }
};
static void questions()
{
    auto add = [](const char * n, std::function<void(World &, Bytes &)> f, bool light = false) { Q.push_back({n, f, light}); };
    // the library
    add("attenuation of a material", [](World & w, Bytes & o) { o << w.L->getMassAttenuationCoefficients("Mix", 12.3); }, true);
    add("attenuation of a formula at several energies", [](World & w, Bytes & o) { o << w.L->getMassAttenuationCoefficients("Fe2O3", VD{20, 7.112, 3, 20}); }, true);
    add("attenuation of a composition", [](World & w, Bytes & o) { o << w.L->getMassAttenuationCoefficients(MD{{"Pb", 2}, {"SiO2", 1}}, VD{12.3, 88.1}) << w.L->getMassAttenuationCoefficients(MD{{"Pb", 2}, {"SiO2", 1}}, 12.3) << w.L->getMassAttenuationCoefficients(MD{{"Pb", 0.5}, {"Fe", 0.5}}, 12.3, 1); });
    add("attenuation tables of an element", [](World & w, Bytes & o) { o << w.L->getMassAttenuationCoefficients("Fe") << w.L->getElement("Pb").getMassAttenuationCoefficients(); });
    add("attenuation at more energies than are remembered", [](World & w, Bytes & o) { VD e; for (int i = 0; i < 10005; i++) e.push_back(1.0 + 0.009 * i); o << w.L->getElement("Fe").getMassAttenuationCoefficients(e); });
    add("composition of materials and formulas", [](World & w, Bytes & o) { o << w.L->getComposition("Mix") << w.L->getComposition("Steel") << w.L->parseFormula("Ca(NO3)2") << w.L->getCompositionFromFormula("PbCr2"); std::vector<Material> v(1, *w.mat); o << w.L->getComposition("own", v) << w.L->getComposition(MD{{"own", 1}, {"Mix", 3}}, v); }, true);
    add("materials", [](World & w, Bytes & o) { o << w.L->getMaterialNames() << w.L->getMaterial("Mix") << w.L->getMaterialCopy("Steel") << w.L->createMaterial("new", 2, 3, "x"); });
    add("a copied material, changed", [](World & w, Bytes & o) { Material m = w.L->getMaterialCopy("Steel"); m.setComposition(VS{"Al"}, VD{1}); Element e = w.L->getElementCopy("Fe"); e.setDensity(1.0); e.setCacheEnabled(0); o << m; });
    add("properties of elements", [](World & w, Bytes & o) { for (auto s : {"H", "Fe", "Pb", "U"}) o << w.L->getAtomicMass(s) << w.L->getAtomicNumber(s) << w.L->getDensity(s) << w.L->getLongName(s) << w.L->getColumn(s) << w.L->getRow(s) << w.L->getBindingEnergies(s) << (int) w.L->isElementNameDefined(s); o << w.L->getElementNames(); });
    add("shell data", [](World & w, Bytes & o) { o << w.L->getRadiativeTransitions("Pb", "L3") << w.L->getNonradiativeTransitions("Pb", "L1") << w.L->getShellConstants("Pb", "M1") << w.L->getShellConstantsFile("K") << w.L->getShellRadiativeTransitionsFile("L"); Element e = w.L->getElement("Pb"); o << e.getXRayLines() << e.getXRayLines("L3") << e.getAugerRatios("L2") << e.getCosterKronigRatios("L1") << e.getFluorescenceRatios("K") << e.getTransitionEnergy("KL3"); });
    add("emitted lines and excited shells", [](World & w, Bytes & o) { o << w.L->getEmittedXRayLines("Pb", 14.0) << w.L->getEmittedXRayLines("Pb") << w.L->getEmittedXRayLines("Fe", 7.2) << w.L->getElement("Pb").getExcitedShells(14.0); });
    add("vacancies at one energy", [](World & w, Bytes & o) { o << w.L->getInitialPhotoelectricVacancyDistribution("Pb", 20.0) << w.L->getElement("Pb").getPartialPhotoelectricMassAttenuationCoefficients(20.0); }, true);
    add("vacancies at several energies", [](World & w, Bytes & o) { o << w.L->getInitialPhotoelectricVacancyDistribution("Pb", VD{100, 20, 3}); });
    add("cascade and lines from vacancies", [](World & w, Bytes & o) { MD v{{"K", 0.1}, {"L1", 0.2}, {"L3", 0.3}}; o << w.L->getCascadeModifiedVacancyDistribution("Pb", v) << w.L->getXRayLinesFromVacancyDistribution("Pb", v) << w.L->getXRayLinesFromVacancyDistribution("Pb", MD{{"L1", 1}}, 0, 1) << w.L->getXRayLinesFromVacancyDistribution("Pb", v, 1, 0); });
    add("excitation factors at one energy", [](World & w, Bytes & o) { o << w.L->getExcitationFactors("Pb", 20.0) << w.L->getExcitationFactors("Pb", 20.0, 0.3); }, true);
    add("excitation factors at several energies", [](World & w, Bytes & o) { o << w.L->getExcitationFactors("Fe", VD{8, 20, 8}, VD{1, 2, 3}) << w.L->getExcitationFactors("Pb", VD{100, 20}); });
    add("peak families", [](World & w, Bytes & o) { o << w.L->getPeakFamilies("Mix", 20.0) << w.L->getPeakFamilies(VS{"Fe", "Pb", "Cr"}, 14.0); });
    add("escape of the library", [](World & w, Bytes & o) { o << w.L->getEscape(MD{{"Si", 1}}, 9.0) << w.L->getEscape(MD{{"Ge", 1}}, 30.0, 0.01, 1e-3, 2, 60.0, 0.01); }, true);
    add("state of the caches", [](World & w, Bytes & o) { o << w.L->isEscapeCacheEnabled() << (int) w.L->isCacheEnabled("Fe") << w.L->isElementCascadeCacheFilled("Fe"); });
    add("refused by the library", [](World & w, Bytes & o) {
        auto t = [&](std::function<void()> f) { try { f(); o << "answered"; } catch (std::exception &) { o << "refused"; } };
        t([&] { o << w.L->getMassAttenuationCoefficients("Zz", 10.0); }); t([&] { o << w.L->getMassAttenuationCoefficients("Mix", VD{10, -1}); }); t([&] { o << w.L->getComposition("Nope"); }); t([&] { o << w.L->getExcitationFactors("Xx", 10.0); }); t([&] { o << w.L->getExcitationFactors("Pb", VD{20, 30}, VD{1, 2, 3}); });
        t([&] { o << w.L->getElement("Steel").getName(); }); t([&] { o << w.L->getMaterial("Nope"); }); t([&] { o << w.L->getEscape(MD{{"Zz", 1}}, 9.0); }); t([&] { o << w.L->getRadiativeTransitions("Fe", "Q1"); }); t([&] { o << w.L->getPeakFamilies("Nope", 9.0); }); t([&] { o << w.L->createMaterial(""); }); }, true);
    // layers, tables, beams, materials
    add("a layer of a registered material", [](World & w, Bytes & o) { o << w.named->getComposition(*w.L) << w.named->getTransmission(9.0, *w.L, 30.0) << w.named->getTransmission(VD{9, 20}, *w.L) << w.named->getMassAttenuationCoefficients(9.0, *w.L) << w.named->getMassAttenuationCoefficients(VD{20, 9}, *w.L) << w.named->getPeakFamilies(20.0, *w.L) << *w.named; }, true);
    add("a layer of its own material", [](World & w, Bytes & o) { o << w.own->getComposition(*w.L) << w.own->getTransmission(9.0, *w.L) << w.own->getTransmission(VD{9, 20}, *w.L, 10.0) << w.own->getPeakFamilies(20.0, *w.L) << w.own->getMaterial() << *w.own; });
    add("a layer questioned about nonsense", [](World & w, Bytes & o) { auto t = [&](std::function<void()> f) { try { f(); o << "answered"; } catch (std::exception &) { o << "refused"; } }; t([&] { o << w.own->getTransmission(-1.0, *w.L); }); t([&] { o << w.own->getTransmission(9.0, *w.L, 0.0); }); Layer l("Nope", 1, 1); t([&] { o << l.getTransmission(9.0, *w.L); }); });
    add("a user table", [](World & w, Bytes & o) { o << w.table->getTransmission(VD{0.5, 3, 100}) << w.table->getTransmission(7.0) << w.table->getTransmissionTable() << w.table->getName() << w.table->getComment(); });
    add("a beam and a material", [](World & w, Bytes & o) { o << *w.beam << *w.mat; for (auto & r : w.beam->getBeam()) o << r.energy << r.weight; });
    // detectors
    add("escape peaks", [](World & w, Bytes & o) { o << w.d->getEscape(20.0, *w.L); }, true);
    add("escape peaks under a label", [](World & w, Bytes & o) { o << w.d->getEscape(9.0, *w.L, "label") << w.d->getEscape(20.0, *w.L, "label"); });
    add("escape peaks under a label, stored", [](World & w, Bytes & o) { o << w.d->getEscape(9.0, *w.L, "label", 0) << w.d->getEscape(30.0, *w.L, "other", 0); }, true);
    add("the detector as a layer", [](World & w, Bytes & o) { o << w.d->getTransmission(9.0, *w.L) << w.d->getComposition(*w.L) << w.d->getActiveArea() << w.d->getDiameter() << w.d->getDistance() << w.d->getEscapePeakIntensityThreshold() << w.d->getEscapePeakNThreshold() << *w.d; Detector k(*w.d); k.setMinimumEscapePeakIntensity(0.1); o << k.getEscape(20.0, *w.L); });
    // fluorescence
    add("primary rates", [](World & w, Bytes & o) { o << w.x->getMultilayerFluorescence(VS{"Fe", "Pb"}, *w.L, std::vector<int>{-1, 1}, VS{"K", "L"}); }, true);
    add("primary rates of one element", [](World & w, Bytes & o) { o << w.x->getMultilayerFluorescence("Fe", *w.L, 0, "K", 0, 0, 1); });
    add("secondary rates", [](World & w, Bytes & o) { o << w.x->getMultilayerFluorescence("Fe", *w.L, 1, "K", 1); });
    add("secondary rates with a limit", [](World & w, Bytes & o) { o << w.x->getMultilayerFluorescence("Cr", *w.L, 0, "K", 1, 1, 0, 0.01); });
    add("tertiary rates", [](World & w, Bytes & o) { o << w.x->getMultilayerFluorescence("Cr", *w.L, 0, "K", 2); });
    add("rates as text", [](World & w, Bytes & o) { o << w.x->getMultilayerFluorescence(VS{"Fe K 0", "Pb L", "Cr Ka 1"}, *w.L, 0, 1, 1); });
    add("rates with another beam", [](World & w, Bytes & o) { Beam b; b.setBeam(VD{25, 12}, VD{1, 1}); o << w.x->getMultilayerFluorescence("Pb", *w.L, 1, "L", 0, 1, 0, 0.0, b) << w.x->getMultilayerFluorescence(VS(1, "Fe K 0"), *w.L, 0, 0, 0, 0.0, b); }, true);
    add("rates refused", [](World & w, Bytes & o) { auto t = [&](std::function<void()> f) { try { f(); o << "answered"; } catch (std::exception &) { o << "refused"; } }; t([&] { o << w.x->getMultilayerFluorescence("Fe", *w.L, -1, "K"); }); t([&] { o << w.x->getMultilayerFluorescence(VS{"Fe", "Xx"}, *w.L, std::vector<int>(1, 0), VS{"K", "K"}, 0); }); t([&] { o << w.x->getMultilayerFluorescence(VS(1, "Fe"), *w.L); }); t([&] { o << w.x->getGeometricEfficiency(9); }); XRF y; t([&] { o << y.getMultilayerFluorescence("Fe", *w.L, 0, "K"); }); }, true);
    add("geometry and thresholds", [](World & w, Bytes & o) { o << w.x->getGeometricEfficiency() << w.x->getGeometricEfficiency(1) << w.x->getEnergyThreshold("Pb", "L3", *w.L) << w.x->getEnergyThreshold("Fe", "K", *w.L); });
    add("the configuration", [](World & w, Bytes & o) { o << w.x->getBeam() << w.x->getSample() << w.x->getBeamFilters() << w.x->getAttenuators() << w.x->getMaterials() << w.x->getAlphaIn() << w.x->getAlphaOut() << w.x->getScatteringAngle() << w.x->getReferenceLayer() << (Layer) w.x->getDetector(); XRF k(*w.x); k.setGeometry(10, 10, 20); k.setSingleEnergyBeam(50.0); o << k.getMultilayerFluorescence("Pb", *w.L, 1, "L"); });
    add("layers through the calculator", [](World & w, Bytes & o) { o << w.x->getLayerComposition(*w.own, *w.L) << w.x->getLayerMassAttenuationCoefficients(*w.named, 9.0, *w.L) << w.x->getLayerTransmission(*w.named, VD{9, 20}, *w.L, 45.0) << w.x->getLayerPeakFamilies(*w.own, 20.0, *w.L); });
    // the data readers and the single objects
    add("EPDL97", [](World & w, Bytes & o) { o << w.epdl->getMassAttenuationCoefficients(26, 9.0) << w.epdl->getMassAttenuationCoefficients(82, VD{20, 5}) << w.epdl->getPhotoelectricWeights(82, 20.0) << w.epdl->getBindingEnergies(26); });
    add("files", [](World & w, Bytes & o) { o << w.spec->getNumberOfScans() << w.spec->getScanLabels(0) << w.spec->getScanData(0) << w.ini->getSections() << w.ini->readSection("first") << w.ini->readSection("SECOND", false) << w.ini->readSection("nope"); VS v; w.ini->getSubsections("first", v); o << v; });
    add("an element and a subshell", [](World & w, Bytes & o) { o << w.el->getMassAttenuationCoefficients(20.0) << w.el->getPhotoelectricExcitationFactors(20.0) << w.el->getInitialPhotoelectricVacancyDistribution(20.0) << w.el->extractEdgeEnergiesFromMassAttenuationCoefficients() << w.el->getMassAttenuationCoefficients(VD{3, 20}); o << w.shell->getAugerRatios() << w.shell->getCosterKronigRatios() << w.shell->getFluorescenceRatios() << w.shell->getDirectVacancyTransferRatios("L3") << w.shell->getFluorescenceYield() << w.shell->getShellConstants(); });
    add("functions", [](World & w, Bytes & o) { o << Math::E1(0.3) << Math::En(3, 12.0) << Math::deBoerL0(1.0, 2.0, 3.0, 5.0, 0.01) << Math::deBoerX(0.5, 0.2, 0.1, 0.2, 0.3, 0.4, 0.0) << Math::erf(0.4) << Elements::toString(3.5); });
    // the odd ends of every part
    add("transitions between subshells, defined or not", [](World & w, Bytes & o) {
        Asks t;
        for (auto k : {"KL3", "KP2", "L1Q1", "M5N3", "Q1Q2", "KL1", "KL3", "L3P5", "ZZ", "K", "L3M5"}) { t([=, &w](Bytes & o) { o << w.el->getTransitionEnergy(k); }); for (auto e : {"H", "Fe", "U"}) t([=, &w](Bytes & o) { o << w.L->getElement(e).getTransitionEnergy(k); }); }
        for (auto k : {"K", "L2", "M5", "N1", "Q", ""}) { t([=, &w](Bytes & o) { o << w.el->getRadiativeTransitions(k); }); t([=, &w](Bytes & o) { o << w.el->getXRayLines(k); }); t([=, &w](Bytes & o) { o << w.el->getShellConstants(k); }); t([=, &w](Bytes & o) { o << w.L->getNonradiativeTransitions("Fe", k); }); } t.ask(o); }, true);
    add("outside of the tables", [](World & w, Bytes & o) {
        Asks t;
        for (double e : {0.0, 1e-4, 0.02, 900.0, 1e5}) { t([=, &w](Bytes & o) { o << w.L->getMassAttenuationCoefficients("Mix", e); }); t([=, &w](Bytes & o) { o << w.L->getExcitationFactors("Pb", e); }); t([=, &w](Bytes & o) { o << w.L->getInitialPhotoelectricVacancyDistribution("Fe", e); }); t([=, &w](Bytes & o) { o << w.epdl->getMassAttenuationCoefficients(26, e); }); t([=, &w](Bytes & o) { o << w.table->getTransmission(e); }); t([=, &w](Bytes & o) { o << w.d->getEscape(e, *w.L); }); t([=, &w](Bytes & o) { o << w.named->getTransmission(e, *w.L); }); t([=, &w](Bytes & o) { o << w.el->getMassAttenuationCoefficients(e); }); t([=, &w](Bytes & o) { o << w.L->getPeakFamilies("Mix", e); }); t([=, &w](Bytes & o) { o << w.L->getEmittedXRayLines("Pb", e); }); }
        for (int z : {0, 101, 200}) t([=, &w](Bytes & o) { o << w.epdl->getBindingEnergies(z); });
        for (double x : {0.0, 1e-20, 2.0, 500.0}) { t([=, &w](Bytes & o) { o << Math::E1(x); }); t([=, &w](Bytes & o) { o << Math::En(2, x); }); t([=, &w](Bytes & o) { o << Math::deBoerL0(x, 1, 2, 3, 4); }); t([=, &w](Bytes & o) { o << Math::deBoerX(x, 1, 2, 3, 4, 5, 0.0); }); t([=, &w](Bytes & o) { o << Math::deBoerV(x, 1, 2, 3, 4, 5, 0.5, 0.1); }); } t.ask(o); });
    add("empty questions", [](World & w, Bytes & o) {
        Asks t;
        t([=, &w](Bytes & o) { o << w.L->getMassAttenuationCoefficients("Fe", VD()); }); t([=, &w](Bytes & o) { o << w.L->getMassAttenuationCoefficients(MD(), VD{9}); }); t([=, &w](Bytes & o) { o << w.L->getExcitationFactors("Fe", VD()); }); t([=, &w](Bytes & o) { o << w.L->getComposition(""); }); t([=, &w](Bytes & o) { o << w.L->parseFormula(""); }); t([=, &w](Bytes & o) { o << w.L->getCascadeModifiedVacancyDistribution("Pb", MD()); }); t([=, &w](Bytes & o) { o << w.L->getXRayLinesFromVacancyDistribution("Pb", MD()); });
        t([=, &w](Bytes & o) { o << w.L->getPeakFamilies(VS(), 9.0); }); t([=, &w](Bytes & o) { o << w.own->getTransmission(VD(), *w.L); }); t([=, &w](Bytes & o) { o << w.table->getTransmission(VD()); }); t([=, &w](Bytes & o) { o << w.x->getMultilayerFluorescence(VS(), *w.L); }); t([=, &w](Bytes & o) { o << w.L->getEscape(MD(), 9.0); }); t([=, &w](Bytes & o) { o << w.L->getMassAttenuationCoefficients(MD{{"Fe", 0.0}}, 9.0); }); t.ask(o); });
}
static const std::set<std::string> HEAVY = {"attenuation at more energies than are remembered", "tertiary rates", "secondary rates", "secondary rates with a limit", "rates as text", "the configuration"};
static std::string answer(int q, World & w) { Bytes o; try { Q[q].ask(w, o); } catch (std::exception & e) { o << "threw"; } return o.s; }
#include "F12_variants.hpp"

// cache settings every user starts with
enum { DEFAULT, CACHED, PLAINLY, SETTINGS };
static const char * SETTING[] = {"caches as created", "caches on and filled", "caches off"};
static void prepare(World & w, int c)
{
    if (c == DEFAULT) return;
    w.L->setEscapeCacheEnabled(c == CACHED); w.el->setCacheEnabled(c == CACHED);
    for (auto s : {"Fe", "Pb", "Cr", "Si", "Ge", "O"}) { w.L->setCacheEnabled(s, c == CACHED); w.L->setElementCascadeCacheEnabled(s, c == CACHED); if (c == CACHED) { w.L->fillCache(s, VD{20, 9, 12.3, 5}); w.L->fillElementCascadeCache(s); } }
    if (c == CACHED) w.L->updateEscapeCache(MD{{"Si", 1}}, VD{9, 20});
}
static World & of(bool common, int u, int c) { return common ? COMMON[c][u] : W[c][u]; }
static std::map<std::string, std::vector<std::string> > BASE;
static const std::vector<std::string> & baseline(Run & r, bool common, int u, int c)
{
    std::vector<std::string> & b = BASE[str(common) + str(u) + str(c)];
    if (b.empty()) for (size_t q = 0; q < Q.size(); q++)
    {
        std::string s, t;
        if (!fresh([&](std::string & o) { o = answer(q, of(common, u, c)); }, s, t)) r.fail("a question on its own", Q[q].name + ": " + t);
        if (s.find(ORDER) != std::string::npos) r.fail("an answer depends on the order of the questions", Q[q].name);
        b.push_back(s);
    }
    return b;
}

// ---- two users with changes, call by call --------------------------------------
typedef std::function<void(World &, Bytes &)> Call;
struct Program { std::string name; std::vector<Call> calls; };
static std::vector<Program> P;
static void programs()
{
    P.push_back({"materials", {[](World & w, Bytes & o) { Material m("Brass", 8.5, 1.0); m.setComposition(VS{"Cu", "Zn"}, VD{3, 2}); w.L->addMaterial(m); }, [](World & w, Bytes & o) { o << w.L->getComposition("Brass") << w.L->getMaterialNames(); }, [](World & w, Bytes & o) { w.L->setMaterialComposition("Steel", MD{{"Al", 1}, {"Fe", 4}}); }, [](World & w, Bytes & o) { o << w.L->getComposition("Mix") << w.named->getTransmission(9.0, *w.L) << w.x->getMultilayerFluorescence("Fe", *w.L, 0, "K"); }}});
    P.push_back({"library data", {[](World & w, Bytes & o) { w.L->setMassAttenuationCoefficients("Fe", VD{1, 10, 100}, VD{5, 0.5, 0.05}, VD{1, 1, 1}, VD{0.5, 0.4, 0.3}, VD{0, 0, 0}); }, [](World & w, Bytes & o) { o << w.L->getMassAttenuationCoefficients("Steel", 20.0) << w.L->getExcitationFactors("Fe", 20.0); }, [](World & w, Bytes & o) { w.L->setShellRadiativeTransitionsFile("L", D + "/LShellRates.dat"); }, [](World & w, Bytes & o) { o << w.L->getRadiativeTransitions("Pb", "L3") << w.L->getExcitationFactors("Pb", 20.0) << w.x->getMultilayerFluorescence("Pb", *w.L, 1, "M"); }}});
    P.push_back({"caches", {[](World & w, Bytes & o) { w.L->setCacheEnabled("Fe", 0); w.L->setCacheEnabled("Pb"); w.L->fillCache("Pb", VD{20, 9}); }, [](World & w, Bytes & o) { w.L->setEscapeCacheEnabled(); w.L->updateEscapeCache(MD{{"Si", 1}}, VD{9.0, 20.0}); o << w.L->getEscape(MD{{"Si", 1}}, 9.0); }, [](World & w, Bytes & o) { o << w.L->getCacheSize("Pb") << w.L->getExcitationFactors("Pb", 20.0) << (int) w.L->isCacheEnabled("Fe"); }, [](World & w, Bytes & o) { w.L->clearEscapeCache(); w.L->clearCache("Pb"); o << w.d->getEscape(20.0, *w.L) << w.L->isEscapeCacheEnabled() << w.L->getCacheSize("Pb"); }}});
    P.push_back({"detector", {[](World & w, Bytes & o) { w.d->setMinimumEscapePeakIntensity(1e-3); o << w.d->getEscape(20.0, *w.L, "label"); }, [](World & w, Bytes & o) { w.d->setMaterial("GaAs"); o << w.d->getEscape(20.0, *w.L, "label", 0); }, [](World & w, Bytes & o) { w.d->setActiveArea(0.1); w.x->setDetector(*w.d); }, [](World & w, Bytes & o) { o << w.x->getGeometricEfficiency() << w.x->getMultilayerFluorescence("Fe", *w.L, 0, "K"); }}});
    P.push_back({"experiment", {[](World & w, Bytes & o) { w.x->setBeam(VD{15, 40}, VD{1, 1}); }, [](World & w, Bytes & o) { o << w.x->getMultilayerFluorescence(VS{"Cr", "Fe"}, *w.L, std::vector<int>(1, -1), VS{"K", "K"}, 1); }, [](World & w, Bytes & o) { w.x->setGeometry(20, 70, 90); w.x->setSample(std::vector<Layer>(2, *w.own), 1); }, [](World & w, Bytes & o) { o << w.x->getMultilayerFluorescence(VS(1, "Fe K"), *w.L, 1) << w.x->getSample() << w.x->getReferenceLayer(); }}});
    P.push_back({"configuration file", {[](World & w, Bytes & o) { w.x->readConfigurationFromFile(scratch + "/q.cfg"); }, [](World & w, Bytes & o) { o << w.x->getBeam() << w.x->getSample() << w.x->getMaterials(); }, [](World & w, Bytes & o) { w.x->setSingleEnergyBeam(12.0); }, [](World & w, Bytes & o) { o << w.x->getMultilayerFluorescence("Fe", *w.L, 0, "K", 0, 0); }}});
    P.push_back({"single objects", {[](World & w, Bytes & o) { w.beam->setBeam(VD{4, 5, 6}, VD{1, 1, 2}); w.table->setTransmissionTable(VD{1, 3}, VD{0.1, 0.3}); }, [](World & w, Bytes & o) { o << *w.beam << w.table->getTransmission(2.0); }, [](World & w, Bytes & o) { w.el->setShellConstants("K", MD{{"omega", 0.25}}); w.el->setRadiativeTransitions("K", MD{{"KL3", 1}, {"KM3", 3}}); w.own->setMaterial(std::string("Al")); w.mat->setComposition(VS{"C", "O"}, VD{1, 2}); }, [](World & w, Bytes & o) { o << w.el->getPhotoelectricExcitationFactors(20.0) << w.own->getComposition(*w.L) << *w.mat; try { w.table->setTransmissionTable(VD{3, 1}, VD{1}); } catch (std::exception &) { o << "refused"; } o << w.table->getTransmission(2.0); }}});
    P.push_back({"elements", {[](World & w, Bytes & o) { Element e("Zz", 120); e.setMassAttenuationCoefficients(VD{1, 10, 100}, VD{5, 0.5, 0.05}, VD{1, 1, 1}, VD{0.5, 0.4, 0.3}); e.setAtomicMass(300); w.L->addElement(e); }, [](World & w, Bytes & o) { o << w.L->getComposition("ZzO") << w.L->getMassAttenuationCoefficients("ZzO", 9.0) << w.L->getElementNames(); }, [](World & w, Bytes & o) { Element e(w.L->getElement("Fe")); e.setBindingEnergies(VS{"K"}, VD{7.0}); w.L->addElement(e); }, [](World & w, Bytes & o) { o << w.L->getBindingEnergies("Fe") << w.L->getExcitationFactors("Fe", 7.05); Elements k(*w.L); k.removeMaterials(); o << w.L->getMaterialNames(); }}});
}
static std::string solo(const Program & p, World & w) { std::string s; for (auto & c : p.calls) { Bytes o; try { c(w, o); } catch (std::exception & e) { o << "threw"; } s += o.s; s += "#"; } return s; }

static Main M;
int main(int argc, char ** argv)
{
    const char * sc = getenv("FISX_MC_SCRATCH"); scratch = sc ? sc : "/tmp"; M.hangSeconds = 300;
    { FILE * o = fopen((scratch + "/q.cfg").c_str(), "w"); fputs("[fit]\nenergy = 17.4, 9.0\nenergyweight = 1, 2\n[attenuators]\nMatrix = 1, S1, 7.0, 0.001, 40, 50, 0, 90\n[Materials.S1]\nCompoundList = Fe, Pb\nCompoundFraction = 1, 2\nDensity = 7\nThickness = 0.001\n", o); fclose(o); }
    questions(); programs(); variants();
    M.init = [] {
        initChildren();
        initLibraries(2);
        for (int c = 0; c < SETTINGS; c++)
        {
            Elements * both = library(0);
            for (int u = 0; u < 2; u++) { W[c][u] = world(u, library(u)); prepare(W[c][u], c); COMMON[c][u] = world(u, both); prepare(COMMON[c][u], c); }
        }
    };
    return M.main(argc, argv, [](Main & M) {
        bool T = M.thorough(); int n = (int) Q.size(); VS names; std::vector<int> light; for (int i = 0; i < n; i++) if (Q[i].light) light.push_back(i);
        // histories of questions, each answered in one fresh process, then every question to both users
        auto history = [=](Run & r, bool common, int c, const std::vector<std::pair<int, int> > & h, bool battery) {
            std::string at = common ? "one library, " : "own libraries, "; at += SETTING[c]; at += ": ";
            for (auto & p : h) at += std::string(p.first ? " second user: " : " first user: ") + Q[p.second].name + ";";
            r.op(at); r.site("history");
            std::vector<const std::vector<std::string> *> base = {&baseline(r, common, 0, c), &baseline(r, common, 1, c)};
            std::vector<std::pair<int, int> > all = h; if (battery) { for (int u = 0; u < 2; u++) for (int q = 0; q < (int) Q.size(); q++) if (h.size() == 1 || T || !HEAVY.count(Q[q].name)) all.push_back({u, q}); all.push_back(h[0]); }
            std::string s, t;
            bool ok = fresh([&](std::string & o) { for (size_t i = 0; i < all.size(); i++) { auto & p = all[i]; std::string a = answer(p.second, of(common, p.first, c)); const std::string & b = (*base[p.first])[p.second]; if (a != b) { size_t k = 0; while (k < a.size() && k < b.size() && a[k] == b[k]) k++; o += std::string(i < h.size() ? "" : "afterwards, ") + (p.first ? "second" : "first") + " user: " + Q[p.second].name + " (from byte " + str(k) + " of " + str(b.size()) + ");"; } } }, s, t);
            r.check(ok, "a process answering questions", at + t);
            r.check(s.empty(), "an answer depends on earlier questions", at + " -> " + s.substr(0, 400));
            r.state(at);
        };
        M.suite("histories", 2 * n, [=](Run & r, int job) {
            // first question to the first user; second to either; three settings, own or common library
            int c = r.choose(SETTINGS); bool common = job / n; int q = job % n;
            std::vector<std::pair<int, int> > h = {{0, q}};
            int k = (int) r.choose(n + 1); if (k < n) { int u = T ? (int) r.choose(2) : (q + k + c) % 2; h.push_back({u, k}); }
            history(r, common, c, h, T || k == n || (q + k) % 8 == 0);
        });
        int nl = (int) light.size();
        M.suite("longer histories", 2 * nl * nl, [=](Run & r, int job) {
            int c = T ? (int) r.choose(SETTINGS) : 1 + job % 2; bool common = (job / nl / nl) % 2; std::vector<std::pair<int, int> > h = {{0, light[job % nl]}, {1, light[job / nl % nl]}};
            int third = r.choose(nl), u = T ? (int) r.choose(2) : (third + job / nl) % 2; h.push_back({u, light[third]}); if (T) h.push_back({1 - u, light[r.choose(nl)]});
            h.push_back(h[0]);
            history(r, common, c, h, false);
        });
        // a question in two variants one after the other, and the first one again: every ordered pair of every group
        static std::vector<std::pair<int, int> > VJ; if (VJ.empty()) for (size_t k = 0; k < G.size(); k++) for (size_t i = 0; i < G[k].asks.size(); i++) VJ.push_back({(int) k, (int) i});
        M.suite("variants", (int) VJ.size(), [=](Run & r, int job) {
            const Group & g = G[VJ[job].first]; int first = VJ[job].second;
            static std::map<std::string, std::string> memo;
            int c = T ? (int) r.choose(SETTINGS) : (int) (first % 3), u = T ? (int) r.choose(2) : first / 3 % 2;
            auto put = [](const Ask & f, World & w) { Bytes b; try { f(w, b); } catch (std::exception &) { b = Bytes(); b << "refused"; } return b.s; };
            auto alone = [&](int i) -> const std::string & { std::string key = g.name + str(i) + "/" + str(c) + str(u); auto k = memo.find(key); if (k == memo.end()) { std::string s, t; if (!fresh([&](std::string & o) { o = put(g.asks[i], W[c][u]); }, s, t)) r.fail("a question on its own", g.name + " " + str(i) + t); k = memo.insert({key, s}).first; } return k->second; };
            int second = r.choose(g.asks.size());
            std::string at = g.name + " (" + SETTING[c] + "): form " + str(first) + ", form " + str(second) + ", form " + str(first); r.op(at); r.site("variants");
            std::string s, t; const std::string & a = alone(first), & b = alone(second);
            bool ok = fresh([&](std::string & o) { if (put(g.asks[first], W[c][u]) != a) o += " the first answer;"; if (put(g.asks[second], W[c][u]) != b) o += " the second answer;"; if (put(g.asks[first], W[c][u]) != a) o += " the repeated answer;"; }, s, t);
            r.check(ok, "a process answering variants", at + t); r.check(s.empty(), "an answer depends on the variant asked before", at + ":" + s + " differs from the answer of a fresh process"); r.state(at);
        });
        // all interleavings of the calls of two programs with their own objects
        int np = (int) P.size();
        M.suite("interleaved calls", np * np, [=](Run & r, int job) {
            if (!T && job % np > job / np) return; const Program & a = P[job % np], & b = P[job / np]; static std::map<int, std::pair<std::string, std::string> > memo;
            auto i = memo.find(job); if (i == memo.end()) { std::string x, y, t; if (!fresh([&](std::string & o) { o = solo(a, W[0][0]); }, x, t) || !fresh([&](std::string & o) { o = solo(b, W[0][1]); }, y, t)) r.fail("a program on its own", t); i = memo.insert({job, {x, y}}).first; }
            std::vector<int> order; int left[2] = {(int) a.calls.size(), (int) b.calls.size()};
            while (left[0] || left[1]) { int u = !left[0] ? 1 : !left[1] ? 0 : (int) r.choose(2); left[u]--; order.push_back(u); }
            std::string at = a.name + " and " + b.name + ", order "; for (int u : order) at += str(u);
            r.op(at); r.site("interleaving"); std::string s, t;
            bool ok = fresh([&](std::string & o) { size_t at[2] = {0, 0}; std::string g[2]; for (int u : order) { const Program & p = u ? b : a; Bytes x; try { p.calls[at[u]++](W[0][u], x); } catch (std::exception & e) { x << "threw"; } g[u] += x.s; g[u] += "#"; } if (g[0] != i->second.first) o += " first user"; if (g[1] != i->second.second) o += " second user"; }, s, t);
            r.check(ok, "a process with two programs", at + t); r.check(s.empty(), "two users disturb each other", at + ":" + s + " obtains something else than alone"); r.state(at);
        });
    });
}
