// The C++ side of F30: every class of the library behind one function taking and returning text.
// Built as a shared object with the sources of the library, next to (and independent of) the
// Python extension.  Values: i<long>;  d<hexfloat>;  s<len>:<bytes>  L<n>:<values>  M<n>:<key><value>...
#include "fisx_beam.h"
#include "fisx_detector.h"
#include "fisx_element.h"
#include "fisx_elements.h"
#include "fisx_epdl97.h"
#include "fisx_layer.h"
#include "fisx_material.h"
#include "fisx_math.h"
#include "fisx_shell.h"
#include "fisx_simpleini.h"
#include "fisx_simplespecfile.h"
#include "fisx_transmissiontable.h"
#include "fisx_version.h"
#include "fisx_xrf.h"
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <vector>
using namespace fisx;
typedef std::string S;
typedef std::vector<double> VD;
typedef std::map<S, double> MD;
typedef std::vector<S> VS;

struct V
{
    char t;
    long i; double d; S s;
    std::vector<V> l;
    V() : t('i'), i(0), d(0) {}
    V(int x) : t('i'), i(x), d(x) {}
    V(long x) : t('i'), i(x), d(x) {}
    V(double x) : t('d'), i((long) x), d(x) {}
    V(const S & x) : t('s'), i(0), d(0), s(x) {}
    template<class T> V(const std::vector<T> & x) : t('L'), i(0), d(0)
    { for (size_t k = 0; k < x.size(); k++) l.push_back(V(x[k])); }
    template<class A, class B> V(const std::pair<A, B> & x) : t('L'), i(0), d(0)
    { l.push_back(V(x.first)); l.push_back(V(x.second)); }
    template<class A, class B> V(const std::map<A, B> & x) : t('M'), i(0), d(0)
    { for (auto & p : x) { l.push_back(V(p.first)); l.push_back(V(p.second)); } }

    double D() const { return d; }
    int I() const { return (int) i; }
    VD vd() const { VD r; for (auto & x : l) r.push_back(x.d); return r; }
    std::vector<int> vi() const { std::vector<int> r; for (auto & x : l) r.push_back((int) x.i); return r; }
    VS vs() const { VS r; for (auto & x : l) r.push_back(x.s); return r; }
    MD md() const { MD r; for (size_t k = 0; k + 1 < l.size(); k += 2) r[l[k].s] = l[k + 1].d; return r; }
    std::map<double, double> mdd() const
    { std::map<double, double> r; for (size_t k = 0; k + 1 < l.size(); k += 2) r[l[k].d] = l[k + 1].d; return r; }
};

static V parse(const char *& p)
{
    V v;
    v.t = *p++;
    char * e;
    if (v.t == 'i') { v.i = strtol(p, &e, 10); v.d = (double) v.i; p = e + 1; }
    else if (v.t == 'd') { v.d = strtod(p, &e); v.i = (long) v.d; p = e + 1; }
    else
    {
        long n = strtol(p, &e, 10);
        p = e + 1;
        if (v.t == 's') { v.s.assign(p, n); p += n; }
        else for (long k = 0; k < (v.t == 'M' ? 2 * n : n); k++) v.l.push_back(parse(p));
    }
    return v;
}

static void put(const V & v, S & o)
{
    char b[64];
    if (v.t == 'i') { snprintf(b, sizeof b, "i%ld;", v.i); o += b; }
    else if (v.t == 'd') { snprintf(b, sizeof b, "d%a;", v.d); o += b; }
    else if (v.t == 's') { snprintf(b, sizeof b, "s%zu:", v.s.size()); o += b; o += v.s; }
    else
    {
        snprintf(b, sizeof b, "%c%zu:", v.t, v.t == 'M' ? v.l.size() / 2 : v.l.size());
        o += b;
        for (auto & x : v.l) put(x, o);
    }
}

template<class T> struct Box
{
    std::vector<std::unique_ptr<T> > all;
    long add(T * x) { all.push_back(std::unique_ptr<T>(x)); return (long) all.size() - 1; }
    T & operator[](const V & v) { return *all.at(v.i); }
};
static Box<Beam> beams; static Box<Detector> dets; static Box<EPDL97> epdls; static Box<Element> els;
static Box<Elements> libs; static Box<Layer> layers; static Box<Material> mats; static Box<Shell> shells;
static Box<SimpleIni> inis; static Box<SimpleSpecfile> specs; static Box<TransmissionTable> tabs; static Box<XRF> xrfs;

typedef std::vector<V> A;
static std::vector<Layer> layerList(const V & v)
{ std::vector<Layer> r; for (auto & x : v.l) r.push_back(layers[x]); return r; }
static std::vector<TransmissionTable> tabList(const V & v)
{ std::vector<TransmissionTable> r; for (auto & x : v.l) r.push_back(tabs[x]); return r; }

static std::map<S, std::function<V(const A &)> > table()
{
    std::map<S, std::function<V(const A &)> > t;
    #define OP(name) t[name] = [](const A & a) -> V
    // Version
    OP("fisxVersion") { return V(fisxVersion()); };
    // Math
    OP("Math.E1") { return V(Math::E1(a[0].d)); };
    OP("Math.En") { return V(Math::En(a[0].I(), a[1].d)); };
    OP("Math.deBoerD") { return V(Math::deBoerD(a[0].d)); };
    OP("Math.deBoerL0") { return V(Math::deBoerL0(a[0].d, a[1].d, a[2].d, a[3].d, a[4].d)); };
    OP("Math.deBoerX") { return V(Math::deBoerX(a[0].d, a[1].d, a[2].d, a[3].d, a[4].d, a[5].d, a[6].d)); };
    OP("Math.erf") { return V(Math::erf(a[0].d)); };
    OP("Math.erfc") { return V(Math::erfc(a[0].d)); };
    // Beam
    OP("Beam.new") { return V(beams.add(new Beam())); };
    OP("Beam.copy") { return V(beams.add(new Beam(beams[a[0]]))); };
    OP("Beam.setBeam") { beams[a[0]].setBeam(a[1].vd(), a[2].vd(), std::vector<int>(), VD()); return V(); };
    OP("Beam.getBeam") { auto r = beams[a[0]].getBeamAsDoubleVectors(); return V(std::vector<VD>(r.begin(), r.begin() + 2)); };
    // Material
    OP("Material.new") { return V(mats.add(new Material(a[0].s, a[1].d, a[2].d, a[3].s))); };
    OP("Material.getName") { return V(mats[a[0]].getName()); };
    OP("Material.setName") { mats[a[0]].setName(a[1].s); return V(); };
    OP("Material.setCompositionFromLists") { mats[a[0]].setComposition(a[1].vs(), a[2].vd()); return V(); };
    OP("Material.setComposition") { mats[a[0]].setComposition(a[1].md()); return V(); };
    OP("Material.getComposition") { return V(mats[a[0]].getComposition()); };
    // TransmissionTable
    OP("Table.new") { return V(tabs.add(new TransmissionTable())); };
    OP("Table.getName") { return V(tabs[a[0]].getName()); };
    OP("Table.setName") { tabs[a[0]].setName(a[1].s); return V(); };
    OP("Table.getComment") { return V(tabs[a[0]].getComment()); };
    OP("Table.setComment") { tabs[a[0]].setComment(a[1].s); return V(); };
    OP("Table.setLists") { tabs[a[0]].setTransmissionTable(a[1].vd(), a[2].vd(), a[3].s, a[4].s); return V(); };
    OP("Table.setMap") { tabs[a[0]].setTransmissionTable(a[1].mdd(), a[2].s, a[3].s); return V(); };
    OP("Table.getTable") { return V(tabs[a[0]].getTransmissionTable()); };
    OP("Table.single") { return V(tabs[a[0]].getTransmission(a[1].d)); };
    OP("Table.many") { return V(tabs[a[0]].getTransmission(a[1].vd())); };
    // Shell
    OP("Shell.new") { return V(shells.add(new Shell(a[0].s))); };
    OP("Shell.setRad") { shells[a[0]].setRadiativeTransitions(a[1].vs(), a[2].vd()); return V(); };
    OP("Shell.setNonrad") { shells[a[0]].setNonradiativeTransitions(a[1].vs(), a[2].vd()); return V(); };
    OP("Shell.setConst") { shells[a[0]].setShellConstants(a[1].md()); return V(); };
    OP("Shell.getAuger") { return V(shells[a[0]].getAugerRatios()); };
    OP("Shell.getCK") { return V(shells[a[0]].getCosterKronigRatios()); };
    OP("Shell.getFluo") { return V(shells[a[0]].getFluorescenceRatios()); };
    OP("Shell.getRad") { return V(shells[a[0]].getRadiativeTransitions()); };
    OP("Shell.getNonrad") { return V(shells[a[0]].getNonradiativeTransitions()); };
    OP("Shell.getDirect") { return V(shells[a[0]].getDirectVacancyTransferRatios(a[1].s)); };
    OP("Shell.getConst") { return V(shells[a[0]].getShellConstants()); };
    // Element
    OP("Element.new") { return V(els.add(new Element(a[0].s, a[1].I()))); };
    OP("Element.setName") { els[a[0]].setName(a[1].s); return V(); };
    OP("Element.setZ") { els[a[0]].setAtomicNumber(a[1].I()); return V(); };
    OP("Element.getZ") { return V((int) els[a[0]].getAtomicNumber()); };
    OP("Element.setBinding") { els[a[0]].setBindingEnergies(a[1].md()); return V(); };
    OP("Element.getBinding") { return V(els[a[0]].getBindingEnergies()); };
    OP("Element.setMu") { els[a[0]].setMassAttenuationCoefficients(a[1].vd(), a[2].vd(), a[3].vd(), a[4].vd(), a[5].vd()); return V(); };
    OP("Element.getMu") { return V(els[a[0]].getMassAttenuationCoefficients()); };
    OP("Element.getMuMany") { return V(els[a[0]].getMassAttenuationCoefficients(a[1].vd())); };
    OP("Element.setRad") { els[a[0]].setRadiativeTransitions(a[1].s, a[2].vs(), a[3].vd()); return V(); };
    OP("Element.getRad") { return V(els[a[0]].getRadiativeTransitions(a[1].s)); };
    OP("Element.setNonrad") { els[a[0]].setNonradiativeTransitions(a[1].s, a[2].vs(), a[3].vd()); return V(); };
    OP("Element.getNonrad") { return V(els[a[0]].getNonradiativeTransitions(a[1].s)); };
    OP("Element.setConst") { els[a[0]].setShellConstants(a[1].s, a[2].md()); return V(); };
    OP("Element.getConst") { return V(els[a[0]].getShellConstants(a[1].s)); };
    OP("Element.getLines") { return V(els[a[0]].getXRayLinesFromVacancyDistribution(a[1].md())); };
    // EPDL97
    OP("EPDL97.new") { return V(epdls.add(new EPDL97(a[0].s))); };
    OP("EPDL97.setDir") { epdls[a[0]].setDataDirectory(a[1].s); return V(); };
    OP("EPDL97.setBinding") { epdls[a[0]].setBindingEnergies(a[1].I(), a[2].md()); return V(); };
    OP("EPDL97.getBinding") { return V(epdls[a[0]].getBindingEnergies(a[1].I())); };
    OP("EPDL97.getMu") { return V(epdls[a[0]].getMassAttenuationCoefficients(a[1].I())); };
    OP("EPDL97.getMuMany") { return V(epdls[a[0]].getMassAttenuationCoefficients(a[1].I(), a[2].vd())); };
    OP("EPDL97.getWeights") { return V(epdls[a[0]].getPhotoelectricWeights(a[1].I(), a[2].vd())); };
    // readers
    OP("Ini.new") { return V(inis.add(new SimpleIni(a[0].s))); };
    OP("Ini.getKeys") { return V(inis[a[0]].getSections()); };
    OP("Ini.readKey") { return V(inis[a[0]].readSection(a[1].s)); };
    OP("Spec.new") { return V(specs.add(new SimpleSpecfile(a[0].s))); };
    OP("Spec.n") { return V(specs[a[0]].getNumberOfScans()); };
    OP("Spec.labels") { return V(specs[a[0]].getScanLabels(a[1].I())); };
    OP("Spec.data") { return V(specs[a[0]].getScanData(a[1].I())); };
    // Layer
    OP("Layer.new") { return V(layers.add(new Layer(a[0].s, a[1].d, a[2].d, a[3].d))); };
    OP("Layer.getComposition") { return V(layers[a[0]].getComposition(libs[a[1]])); };
    OP("Layer.getTransmission") { return V(layers[a[0]].getTransmission(a[1].vd(), libs[a[2]], a[3].d)); };
    OP("Layer.setMaterial") { layers[a[0]].setMaterial(mats[a[1]]); return V(); };
    OP("Layer.getFamilies") { return V(layers[a[0]].getPeakFamilies(a[1].d, libs[a[2]])); };
    // Detector
    OP("Detector.new") { return V(dets.add(new Detector(a[0].s, a[1].d, a[2].d, a[3].d))); };
    OP("Detector.getTransmission") { return V(dets[a[0]].getTransmission(a[1].vd(), libs[a[2]], a[3].d)); };
    OP("Detector.setActiveArea") { dets[a[0]].setActiveArea(a[1].d); return V(); };
    OP("Detector.setDiameter") { dets[a[0]].setDiameter(a[1].d); return V(); };
    OP("Detector.setDistance") { dets[a[0]].setDistance(a[1].d); return V(); };
    OP("Detector.setN") { dets[a[0]].setMaximumNumberOfEscapePeaks(a[1].I()); return V(); };
    OP("Detector.getActiveArea") { return V(dets[a[0]].getActiveArea()); };
    OP("Detector.getDiameter") { return V((double) dets[a[0]].getDiameter()); };
    OP("Detector.getDistance") { return V((double) dets[a[0]].getDistance()); };
    OP("Detector.getET") { return V((double) dets[a[0]].getEscapePeakEnergyThreshold()); };
    OP("Detector.getIT") { return V((double) dets[a[0]].getEscapePeakIntensityThreshold()); };
    OP("Detector.getNT") { return V((int) dets[a[0]].getEscapePeakNThreshold()); };
    OP("Detector.getAlpha") { return V((double) dets[a[0]].getEscapePeakAlphaIn()); };
    OP("Detector.getThickness") { return V((double) dets[a[0]].getThickness()); };
    OP("Detector.getDensity") { return V((double) dets[a[0]].getDensity()); };
    OP("Detector.getComposition") { return V(dets[a[0]].getComposition(libs[a[1]])); };
    OP("Detector.getEscape") { return V(dets[a[0]].getEscape(a[1].d, libs[a[2]], a[3].s, a[4].I())); };
    // Elements
    OP("Elements.new1") { return V(libs.add(new Elements(a[0].s))); };
    OP("Elements.pymca") { return V(libs.add(new Elements(a[0].s, (short) 1))); };
    OP("Elements.new3") { return V(libs.add(new Elements(a[0].s, a[1].s, a[2].s))); };
    OP("Elements.copy") { return V(libs.add(new Elements(libs[a[0]]))); };
    OP("Elements.getElementNames") { return V(libs[a[0]].getElementNames()); };
    OP("Elements.getAtomicMass") { return V((double) libs[a[0]].getAtomicMass(a[1].s)); };
    OP("Elements.getAtomicNumber") { return V((int) libs[a[0]].getAtomicNumber(a[1].s)); };
    OP("Elements.getDensity") { return V(libs[a[0]].getDensity(a[1].s)); };
    OP("Elements.getLongName") { return V(libs[a[0]].getLongName(a[1].s)); };
    OP("Elements.getColumn") { return V(libs[a[0]].getColumn(a[1].s)); };
    OP("Elements.getRow") { return V(libs[a[0]].getRow(a[1].s)); };
    OP("Elements.getMaterialNames") { return V(libs[a[0]].getMaterialNames()); };
    OP("Elements.getComposition") { return V(libs[a[0]].getComposition(a[1].s)); };
    OP("Elements.addMaterial") { libs[a[0]].addMaterial(mats[a[1]], a[2].I()); return V(); };
    OP("Elements.removeMaterials") { libs[a[0]].removeMaterials(); return V(); };
    OP("Elements.setConstFile") { libs[a[0]].setShellConstantsFile(a[1].s, a[2].s); return V(); };
    OP("Elements.setRadFile") { libs[a[0]].setShellRadiativeTransitionsFile(a[1].s, a[2].s); return V(); };
    OP("Elements.getConstFile") { return V(libs[a[0]].getShellConstantsFile(a[1].s)); };
    OP("Elements.getRadFile") { return V(libs[a[0]].getShellRadiativeTransitionsFile(a[1].s)); };
    OP("Elements.getNonradFile") { return V(libs[a[0]].getShellNonradiativeTransitionsFile(a[1].s)); };
    OP("Elements.setMu") { libs[a[0]].setMassAttenuationCoefficients(a[1].s, a[2].vd(), a[3].vd(), a[4].vd(), a[5].vd(), a[6].vd()); return V(); };
    OP("Elements.setMuFile") { libs[a[0]].setMassAttenuationCoefficientsFile(a[1].s); return V(); };
    OP("Elements.getMu") { return V(libs[a[0]].getMassAttenuationCoefficients(a[1].s)); };
    OP("Elements.getMuMany") { return V(libs[a[0]].getMassAttenuationCoefficients(a[1].s, a[2].vd())); };
    OP("Elements.getMuMap") { return V(libs[a[0]].getMassAttenuationCoefficients(a[1].md(), a[2].vd())); };
    OP("Elements.getFactors") { return V(libs[a[0]].getExcitationFactors(a[1].s, a[2].vd(), a[3].vd())); };
    OP("Elements.getFamilies") { return V(libs[a[0]].getPeakFamilies(a[1].s, a[2].d)); };
    OP("Elements.getFamiliesMany") { return V(libs[a[0]].getPeakFamilies(a[1].vs(), a[2].d)); };
    OP("Elements.getBinding") { return V(libs[a[0]].getBindingEnergies(a[1].s)); };
    OP("Elements.getEscape") { return V(libs[a[0]].getEscape(a[1].md(), a[2].d, a[3].d, a[4].d, a[5].I(), a[6].d, a[7].d)); };
    OP("Elements.updateEscape") { libs[a[0]].updateEscapeCache(a[1].md(), a[2].vd(), a[3].d, a[4].d, a[5].I(), a[6].d, a[7].d); return V(); };
    OP("Elements.getConst") { return V(libs[a[0]].getShellConstants(a[1].s, a[2].s)); };
    OP("Elements.getLines") { return V(libs[a[0]].getEmittedXRayLines(a[1].s, a[2].d)); };
    OP("Elements.getRad") { return V(libs[a[0]].getRadiativeTransitions(a[1].s, a[2].s)); };
    OP("Elements.getNonrad") { return V(libs[a[0]].getNonradiativeTransitions(a[1].s, a[2].s)); };
    OP("Elements.cascadeCache") { libs[a[0]].setElementCascadeCacheEnabled(a[1].s, a[2].I()); return V(); };
    OP("Elements.emptyCascade") { libs[a[0]].emptyElementCascadeCache(a[1].s); return V(); };
    OP("Elements.fillCache") { libs[a[0]].fillCache(a[1].s, a[2].vd()); return V(); };
    OP("Elements.updateCache") { libs[a[0]].updateCache(a[1].s, a[2].vd()); return V(); };
    OP("Elements.setCache") { libs[a[0]].setCacheEnabled(a[1].s, a[2].I()); return V(); };
    OP("Elements.setEscapeCache") { libs[a[0]].setEscapeCacheEnabled(a[1].I()); return V(); };
    OP("Elements.clearCache") { libs[a[0]].clearCache(a[1].s); return V(); };
    OP("Elements.isCache") { return V((int) libs[a[0]].isCacheEnabled(a[1].s)); };
    OP("Elements.isEscapeCache") { return V((int) libs[a[0]].isEscapeCacheEnabled()); };
    OP("Elements.cacheSize") { return V(libs[a[0]].getCacheSize(a[1].s)); };
    OP("Elements.getInitial") { return V(libs[a[0]].getInitialPhotoelectricVacancyDistribution(a[1].s, a[2].d)); };
    OP("Elements.getCascade") { return V(libs[a[0]].getCascadeModifiedVacancyDistribution(a[1].s, a[2].md())); };
    OP("Elements.getVacancyLines") { return V(libs[a[0]].getXRayLinesFromVacancyDistribution(a[1].s, a[2].md(), a[3].I(), a[4].I())); };
    // XRF
    OP("XRF.new") { return V(xrfs.add(new XRF())); };
    OP("XRF.newFile") { return V(xrfs.add(new XRF(a[0].s))); };
    OP("XRF.read") { xrfs[a[0]].readConfigurationFromFile(a[1].s); return V(); };
    OP("XRF.setBeam") { xrfs[a[0]].setBeam(a[1].vd(), a[2].vd(), a[3].vi(), a[4].vd()); return V(); };
    OP("XRF.setSingle") { xrfs[a[0]].setSingleEnergyBeam(a[1].d, a[2].d); return V(); };
    OP("XRF.setBeamFilters") { xrfs[a[0]].setBeamFilters(layerList(a[1])); return V(); };
    OP("XRF.setUserBeamFilters") { xrfs[a[0]].setUserBeamFilters(tabList(a[1])); return V(); };
    OP("XRF.setSample") { xrfs[a[0]].setSample(layerList(a[1]), a[2].I()); return V(); };
    OP("XRF.setAttenuators") { xrfs[a[0]].setAttenuators(layerList(a[1])); return V(); };
    OP("XRF.setUserAttenuators") { xrfs[a[0]].setUserAttenuators(tabList(a[1])); return V(); };
    OP("XRF.setDetector") { xrfs[a[0]].setDetector(dets[a[1]]); return V(); };
    OP("XRF.setGeometry") { xrfs[a[0]].setGeometry(a[1].d, a[2].d, a[3].d); return V(); };
    OP("XRF.getLayerComposition") { return V(xrfs[a[0]].getLayerComposition(layers[a[1]], libs[a[2]])); };
    OP("XRF.getLayerMu") { return V(xrfs[a[0]].getLayerMassAttenuationCoefficients(layers[a[1]], a[2].d, libs[a[3]])); };
    OP("XRF.getLayerMuMany") { return V(xrfs[a[0]].getLayerMassAttenuationCoefficients(layers[a[1]], a[2].vd(), libs[a[3]])); };
    OP("XRF.getLayerT") { return V(xrfs[a[0]].getLayerTransmission(layers[a[1]], a[2].d, libs[a[3]], a[4].d)); };
    OP("XRF.getLayerTMany") { return V(xrfs[a[0]].getLayerTransmission(layers[a[1]], a[2].vd(), libs[a[3]], a[4].d)); };
    OP("XRF.getLayerFamilies") { return V(xrfs[a[0]].getLayerPeakFamilies(layers[a[1]], a[2].d, libs[a[3]])); };
    OP("XRF.multi") { return V(xrfs[a[0]].getMultilayerFluorescence(a[1].vs(), libs[a[2]], a[3].I(), a[4].I(), a[5].I(), a[6].d, beams[a[7]])); };
    OP("XRF.fluo") { return V(xrfs[a[0]].getMultilayerFluorescence(a[1].vs(), libs[a[2]], a[3].vi(), a[4].vs(), a[5].I(), a[6].I(), a[7].I(), a[8].d, beams[a[9]])); };
    OP("XRF.efficiency") { return V(xrfs[a[0]].getGeometricEfficiency(a[1].I())); };
    return t;
}

extern "C" __attribute__((visibility("default"))) const char * fx_call(const char * request, long * length)
{
    static std::map<S, std::function<V(const A &)> > t = table();
    static S out;
    out.clear();
    const char * p = request;
    V v = parse(p);
    auto it = t.find(v.l[0].s);
    if (it == t.end())
        out = "?" + v.l[0].s;
    else
    {
        try
        {
            put(it->second(A(v.l.begin() + 1, v.l.end())), out);
        }
        catch (const std::exception & e)
        {
            out = S("!") + e.what();
        }
        catch (...)
        {
            out = "!unknown";
        }
    }
    *length = (long) out.size();
    return out.c_str();
}
