// One question in many variants: the base form and every form that differs from it
// in a single argument (a neighbouring energy, another angle, another name ...).
// An answer remembered under too coarse a key shows when two variants follow each other.
typedef std::function<void(World &, Bytes &)> Ask;
struct Group { std::string name; std::vector<Ask> asks; bool slow = false; };
static std::vector<Group> G;
static const VD NEAR = {12.3, 12.3 * (1 + 1e-12), 12.3000001, 12.3004, 12.3049, 12.31, 12.35, 12.4, 12.49, 12.0, 12.9, 13.0};
static void variants()
{
    auto g = [&](const char * n, bool slow = false) { G.push_back(Group()); G.back().name = n; G.back().slow = slow; };
    auto a = [&](Ask f) { G.back().asks.push_back(f); };
    g("attenuation by name");
    for (auto n : {"Mix", "Steel", "Fe2O3", "Fe3O2", "Fe", "FE2O3", "Pb", "SiO2"}) a([=](World & w, Bytes & o) { o << w.L->getMassAttenuationCoefficients(n, 12.3); });
    for (double e : NEAR) a([=](World & w, Bytes & o) { o << w.L->getMassAttenuationCoefficients("Mix", e); });
    for (auto v : {VD{12.3}, VD{12.3, 12.4}, VD{12.4, 12.3}, VD{12.3, 12.3}}) a([=](World & w, Bytes & o) { o << w.L->getMassAttenuationCoefficients("Mix", v); });
    g("attenuation by composition");
    for (auto m : {MD{{"Pb", 2}, {"SiO2", 1}}, MD{{"Pb", 1}, {"SiO2", 2}}, MD{{"Pb", 4}, {"SiO2", 2}}, MD{{"Pb", 2}, {"Fe", 1}}, MD{{"Pb", 2}}, MD{{"SiO2", 1}}, MD{{"Pb", 2}, {"SiO2", 1}, {"O", 1e-6}}, MD{{"Pb", 2}, {"SiO2", 1.000001}}}) { a([=](World & w, Bytes & o) { o << w.L->getMassAttenuationCoefficients(m, 12.3); }); a([=](World & w, Bytes & o) { o << w.L->getMassAttenuationCoefficients(m, VD{12.3, 30}); }); }
    for (double e : {12.3000001, 12.35, 13.0}) a([=](World & w, Bytes & o) { o << w.L->getMassAttenuationCoefficients(MD{{"Pb", 2}, {"SiO2", 1}}, e); });
    a([](World & w, Bytes & o) { o << w.L->getMassAttenuationCoefficients(MD{{"Pb", 2}, {"Fe", 1}}, 12.3, 1); });
    g("excitation factors");
    for (auto e : {"Pb", "Fe", "Cr"}) for (double x : {1.0, 0.3}) a([=](World & w, Bytes & o) { o << w.L->getExcitationFactors(e, 20.0, x); });
    for (double e : {20.0 * (1 + 1e-12), 20.000001, 20.004, 20.05, 20.4, 13.1, 100.0}) a([=](World & w, Bytes & o) { o << w.L->getExcitationFactors("Pb", e); });
    for (auto v : {VD{20, 100}, VD{100, 20}, VD{20}}) { a([=](World & w, Bytes & o) { o << w.L->getExcitationFactors("Pb", v); }); a([=](World & w, Bytes & o) { o << w.L->getExcitationFactors("Pb", v, VD(v.size(), 0.5)); }); }
    g("vacancies");
    for (auto e : {"Pb", "Fe"}) for (double x : {20.0, 20.000001, 20.004, 20.4, 13.1, 100.0}) { a([=](World & w, Bytes & o) { o << w.L->getInitialPhotoelectricVacancyDistribution(e, x); }); a([=](World & w, Bytes & o) { o << w.L->getInitialPhotoelectricVacancyDistribution(e, VD{x, 5}); }); }
    g("cascades");
    for (auto e : {"Pb", "U"}) for (auto m : {MD{{"K", 0.1}, {"L1", 0.2}, {"L3", 0.3}}, MD{{"K", 0.1}, {"L1", 0.3}, {"L3", 0.2}}, MD{{"K", 0.1}, {"L1", 0.2}}, MD{{"L1", 0.2}, {"L3", 0.3}}, MD{{"K", 1}, {"L1", 2}, {"L3", 3}}, MD{{"K", 0.1}, {"L2", 0.2}, {"L3", 0.3}}, MD{{"K", 0.1}, {"L1", 0.2}, {"L3", 0.3}, {"M1", 0.4}}})
    {
        a([=](World & w, Bytes & o) { o << w.L->getCascadeModifiedVacancyDistribution(e, m); });
        a([=](World & w, Bytes & o) { o << w.L->getXRayLinesFromVacancyDistribution(e, m); });
    }
    for (int c = 0; c < 2; c++) for (int y = 0; y < 2; y++) a([=](World & w, Bytes & o) { o << w.L->getXRayLinesFromVacancyDistribution("Pb", MD{{"K", 0.1}, {"L1", 0.2}, {"L3", 0.3}}, c, y); });
    g("emitted lines");
    for (auto e : {"Pb", "Fe"}) for (double x : {14.0, 14.01, 15.0, 15.3, 16.0, 100.0, 7.2}) a([=](World & w, Bytes & o) { o << w.L->getEmittedXRayLines(e, x); });
    for (double x : {14.0, 14.01, 15.0, 15.3, 16.0, 100.0}) { a([=](World & w, Bytes & o) { o << w.L->getElement("Pb").getExcitedShells(x); }); a([=](World & w, Bytes & o) { o << w.L->getPeakFamilies("Pb", x); }); }
    for (auto n : {"Mix", "Steel", "SiO2"}) a([=](World & w, Bytes & o) { o << w.L->getPeakFamilies(n, 14.0); });
    for (auto v : {VS{"Fe"}, VS{"Fe", "Pb"}, VS{"Pb", "Fe"}, VS{"Fe", "Cr"}}) a([=](World & w, Bytes & o) { o << w.L->getPeakFamilies(v, 14.0); });
    g("escape of the library");
    for (auto m : {MD{{"Si", 1}}, MD{{"Ge", 1}}, MD{{"Si", 0.5}, {"Ge", 0.5}}, MD{{"Si", 0.4}, {"Ge", 0.6}}, MD{{"Cd", 1}, {"Te", 1}}}) for (double e : {9.0, 30.0}) a([=](World & w, Bytes & o) { o << w.L->getEscape(m, e); });
    for (double e : {9.0000001, 9.004, 9.04, 9.4}) a([=](World & w, Bytes & o) { o << w.L->getEscape(MD{{"Si", 1}}, e); });
    for (double x : {0.001, 0.05}) for (double y : {1e-6, 1e-2}) for (int k : {1, 4}) for (double al : {90.0, 30.0}) for (double t : {0.0, 0.001}) a([=](World & w, Bytes & o) { o << w.L->getEscape(MD{{"Ge", 1}}, 30.0, x, y, k, al, t); });
    g("compositions");
    for (auto n : {"Mix", "Steel", "own", "SiO2", "Si2O", "SiO", "PbCr2", "Ca(NO3)2", "CaN2O6", "Ca(NO3)1", "CO", "Co", "PbO0.5", "PbO0.50001"}) { a([=](World & w, Bytes & o) { o << w.L->getComposition(n); }); a([=](World & w, Bytes & o) { o << w.L->parseFormula(n); }); a([=](World & w, Bytes & o) { std::vector<Material> v(1, *w.mat); o << w.L->getComposition(n, v); }); }
    for (int k = 0; k < 2; k++) a([=](World & w, Bytes & o) { Material m("own"); m.setComposition(VS{"Al", "O"}, VD{1.0 + k, 1}); std::vector<Material> v(1, m); o << w.L->getComposition("own", v) << w.L->getComposition(MD{{"own", 1}, {"Fe", 1}}, v); });
    g("layers");
    struct Geo { const char * n; double rho, t, f; };
    for (auto l : {Geo{"Mix", 3, 0.01, 1}, Geo{"Mix", 3, 0.01, 0.9}, Geo{"Mix", 3, 0.02, 1}, Geo{"Mix", 6, 0.01, 1}, Geo{"Mix", 6, 0.005, 1}, Geo{"Steel", 3, 0.01, 1}, Geo{"SiO2", 3, 0.01, 1}, Geo{"Mix", 3, 0.010001, 1}})
    {
        a([=](World & w, Bytes & o) { o << Layer(l.n, l.rho, l.t, l.f).getTransmission(12.3, *w.L); });
        a([=](World & w, Bytes & o) { o << Layer(l.n, l.rho, l.t, l.f).getTransmission(VD{12.3, 20}, *w.L, 30); });
        a([=](World & w, Bytes & o) { o << w.x->getLayerTransmission(Layer(l.n, l.rho, l.t, l.f), 12.3, *w.L, 30); });
    }
    for (double e : {12.3000001, 12.35, 13.0}) for (double al : {90.0, 30.0}) a([=](World & w, Bytes & o) { o << w.named->getTransmission(e, *w.L, al); });
    for (double al : {90.0, 30.0, 30.0001, 150.0, -30.0, 29.6, 30.4}) { a([=](World & w, Bytes & o) { o << w.named->getTransmission(12.3, *w.L, al); }); a([=](World & w, Bytes & o) { o << w.own->getTransmission(12.3, *w.L, al); }); }
    a([](World & w, Bytes & o) { Layer l("own", 5.0, 0.002); Material m("own"); m.setComposition(VS{"Fe"}, VD{1}); l.setMaterial(m); o << l.getTransmission(12.3, *w.L) << l.getComposition(*w.L) << l.getPeakFamilies(20.0, *w.L); });
    a([](World & w, Bytes & o) { o << w.own->getTransmission(12.3, *w.L) << w.own->getComposition(*w.L) << w.own->getPeakFamilies(20.0, *w.L); });
    a([](World & w, Bytes & o) { o << w.named->getMassAttenuationCoefficients(12.3, *w.L) << w.x->getLayerMassAttenuationCoefficients(*w.own, 12.3, *w.L); });
    g("detectors");
    for (int k = 0; k < 10; k++) for (double e : {9.0, 20.0}) a([=](World & w, Bytes & o) { Detector d(*w.d); if (k == 1) d.setMinimumEscapePeakIntensity(0.01); if (k == 2) d.setMinimumEscapePeakEnergy(1.9); if (k == 3) d.setMaximumNumberOfEscapePeaks(1); if (k == 4) d.setThickness(0.0001); if (k == 5) d.setDensity(5.0); if (k == 6) d.setMaterial("GaAs"); if (k == 7) d.setActiveArea(9); if (k == 8) d.setDistance(1); if (k == 9) { Material m("Si"); m.setComposition(VS{"Ge"}, VD{1}); d.setMaterial(m); } o << d.getEscape(e, *w.L) << d.getTransmission(e, *w.L) << d.getComposition(*w.L) << d.getDiameter(); });
    for (double e : {9.0000001, 9.004, 9.04, 9.4}) a([=](World & w, Bytes & o) { o << w.d->getEscape(e, *w.L) << w.d->getEscape(e, *w.L, "label"); });
    g("rates");
    for (auto e : {"Fe", "Pb", "Cr"}) for (auto f : {"K", "L", "Ka", "L3"}) for (int l : {0, 1}) a([=](World & w, Bytes & o) { o << w.x->getMultilayerFluorescence(e, *w.L, l, f); });
    for (int s : {0, 1}) for (int ge = 0; ge < 2; ge++) for (int mf = 0; mf < 2; mf++) a([=](World & w, Bytes & o) { o << w.x->getMultilayerFluorescence("Fe", *w.L, 0, "K", s, ge, mf); });
    for (double lim : {1e-12, 1e-3, 0.1}) a([=](World & w, Bytes & o) { o << w.x->getMultilayerFluorescence("Cr", *w.L, 0, "K", 1, 1, 0, lim); });
    for (auto v : {VD{12, 1, 8, 1}, VD{12, 1, 8, 2}, VD{12, 1, 9, 1}, VD{12.004, 1, 8, 1}, VD{12, 2, 8, 2}}) a([=](World & w, Bytes & o) { Beam b; b.setBeam(VD{v[0], v[2]}, VD{v[1], v[3]}); o << w.x->getMultilayerFluorescence("Fe", *w.L, 0, "K", 0, 1, 0, 0.0, b); });
    for (auto q : {VS{"Fe K"}, VS{"Fe K 0"}, VS{"Fe K 1"}, VS{"Fe Ka"}, VS{"Fe K", "Pb L"}, VS{"Pb L", "Fe K"}}) a([=](World & w, Bytes & o) { o << w.x->getMultilayerFluorescence(q, *w.L); });
    g("experiments");
    for (int k = 0; k < 22; k++) a([=](World & w, Bytes & o) {
        XRF x(*w.x);
        if (k == 1) x.setGeometry(44.9, 45, 90); if (k == 2) x.setGeometry(45, 44.9, 90); if (k == 3) x.setGeometry(45, 45, 30); if (k == 4) x.setBeam(VD{12, 8.1}, VD{2, 1}); if (k == 5) x.setBeam(VD{12, 8}, VD{2, 1.1}); if (k == 6) x.setBeamFilters(std::vector<Layer>()); if (k == 7) x.setBeamFilters(std::vector<Layer>(1, Layer("Al", 2.7, 0.003)));
        if (k == 8) x.setUserBeamFilters(std::vector<TransmissionTable>()); if (k == 9) x.setAttenuators(std::vector<Layer>()); if (k == 10) x.setAttenuators(std::vector<Layer>(1, Layer("Be", 1.85, 0.003, 0.5))); if (k == 11) { Detector d(*w.d); d.setActiveArea(0.4); x.setDetector(d); } if (k == 12) { Detector d(*w.d); d.setThickness(0.001); x.setDetector(d); } if (k == 13) { Detector d(*w.d); d.setDistance(3.1); x.setDetector(d); } if (k == 14) { Detector d("Ge", 5.3, 0.05); x.setDetector(d); }
        std::vector<Layer> s = w.x->getSample();
        if (k == 15) { s[0].setThickness(0.0009); x.setSample(s); } if (k == 16) { s[0].setDensity(7.7); x.setSample(s); } if (k == 17) { s[0].setMaterial("SiO2"); x.setSample(s); } if (k == 18) { std::swap(s[0], s[1]); x.setSample(s); } if (k == 19) { s.push_back(s[0]); x.setSample(s); } if (k == 20) x.setSample(s, 1); if (k == 21) { Material m("own"); m.setComposition(VS{"Fe", "PbO"}, VD{1, 3}); s[1].setMaterial(m); x.setSample(s); }
        o << x.getMultilayerFluorescence(VS{"Fe", "Pb"}, *w.L, std::vector<int>{-1, 1}, VS{"K", "L"}) << x.getMultilayerFluorescence("Fe", *w.L, 0, "K", 1) << x.getGeometricEfficiency(1); });
    g("thresholds");
    for (auto e : {"Pb", "Fe"}) for (auto f : {"K", "L", "L1", "L3", "M"}) a([=](World & w, Bytes & o) { o << w.x->getEnergyThreshold(e, f, *w.L); });
    for (int l : {0, 1}) a([=](World & w, Bytes & o) { o << w.x->getGeometricEfficiency(l); });
    g("EPDL97");
    for (int z : {26, 27, 82}) for (double e : {12.3, 12.3000001, 12.304, 12.35, 13.0, 20.0}) { a([=](World & w, Bytes & o) { o << w.epdl->getMassAttenuationCoefficients(z, e); }); a([=](World & w, Bytes & o) { o << w.epdl->getPhotoelectricWeights(z, e); }); }
    for (int z : {26, 27, 82}) { a([=](World & w, Bytes & o) { o << w.epdl->getBindingEnergies(z); }); a([=](World & w, Bytes & o) { o << w.epdl->getMassAttenuationCoefficients(z, VD{20, 12.3}); }); }
    g("functions");
    const VD base = {0.5, 0.7, 0.01, 0.02, 3.0, 4.0, 0.1, 0.0};
    for (int k = 0; k <= 8; k++) for (double f : {1.0000001, 1.5}) { VD v = base; if (k < 8) v[k] = v[k] * f + (k == 7 ? 0.1 * f : 0); else if (f > 1.2) continue; a([=](World & w, Bytes & o) { o << Math::deBoerX(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7]); }); a([=](World & w, Bytes & o) { o << Math::deBoerV(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7]); }); if (k < 5 || k == 8) a([=](World & w, Bytes & o) { o << Math::deBoerL0(v[0] * 4, v[1] * 4, v[4], v[5], v[2]) << Math::deBoerD(v[0]); }); }
    for (double x : {0.3, 0.3000001, 0.4, 1.0, 12.0}) for (int n : {1, 2, 3}) { a([=](World & w, Bytes & o) { o << Math::En(n, x); }); a([=](World & w, Bytes & o) { o << Math::E1(x) << Math::erf(x) << Math::erfc(x); }); }
    g("elements");
    for (auto e : {"Pb", "Fe", "U"}) for (auto k : {"K", "L1", "L3", "M5"}) { a([=](World & w, Bytes & o) { o << w.L->getRadiativeTransitions(e, k); }); a([=](World & w, Bytes & o) { o << w.L->getNonradiativeTransitions(e, k); }); a([=](World & w, Bytes & o) { o << w.L->getShellConstants(e, k); }); a([=](World & w, Bytes & o) { o << w.L->getElement(e).getXRayLines(k); }); }
    for (auto e : {"Pb", "Fe"}) for (auto k : {"KL3", "KL2", "KM3", "KP2", "L3M5", "L3P5", "L1Q1"}) a([=](World & w, Bytes & o) { o << w.L->getElement(e).getTransitionEnergy(k); });
    for (auto e : {"Pb", "Fe", "PB", "Zz"}) a([=](World & w, Bytes & o) { o << (int) w.L->isElementNameDefined(e) << w.L->getBindingEnergies(e) << w.L->getAtomicMass(e) << w.L->getDensity(e); });
    g("files");
    for (auto n : {"first", "FIRST", "Second", "second", "first.sub", "nope"}) for (int c = 0; c < 2; c++) a([=](World & w, Bytes & o) { o << w.ini->readSection(n, c); });
    for (auto n : {"first", "FIRST", "Second", "fir", ""}) for (int c = 0; c < 2; c++) a([=](World & w, Bytes & o) { VS v; w.ini->getSubsections(n, v, c); o << v; });
    for (int k = -1; k < 4; k++) { a([=](World & w, Bytes & o) { o << w.spec->getScanLabels(k); }); a([=](World & w, Bytes & o) { o << w.spec->getScanData(k); }); }
    g("tables");
    for (double e : {0.5, 1.0, 3.0, 3.0000001, 3.004, 3.4, 5.0, 7.0, 100.0}) { a([=](World & w, Bytes & o) { o << w.table->getTransmission(e); }); a([=](World & w, Bytes & o) { o << w.table->getTransmission(VD{e, 4}); }); a([=](World & w, Bytes & o) { TransmissionTable t; t.setTransmissionTable(VD{1, 8}, VD{0.5, 1.0}); o << t.getTransmission(e); }); }
}
