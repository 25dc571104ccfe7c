// F29: objects handed over are copies; a refused change leaves no trace.
// Histories of hand-overs and changes over a net of objects, each in a fresh process,
// against a model with value semantics; a catalogue of refused changes for every class,
// after every short history of accepted ones.
#include "mc.hpp"
#include "reflibs.hpp"
#include "bytes.hpp"
#include "child.hpp"
#include "fisx_epdl97.h"
#include "fisx_simplespecfile.h"
#include "fisx_simpleini.h"
using namespace mc;
using namespace fisx;
typedef std::map<std::string, double> MD;
typedef std::vector<double> VD;
typedef std::vector<std::string> VS;

// ---- values --------------------------------------------------------------------
static const std::vector<MD> COMP = {{{"Fe", 0.75}, {"Cr", 0.25}}, {{"Si", 1}}, {{"Pb", 0.5}, {"O", 0.5}}};
static const Material * DEFAULTS = nullptr;
struct MatV { int meta = 0, comp = 0; std::string key() const { return str(meta) + str(comp); } };
static Material material(const MatV & v) { Material m("M", v.meta ? 4.0 : 2.0, v.meta ? 0.02 : 0.01, v.meta ? "other" : "about"); m.setComposition(COMP[v.comp]); return m; }
struct LayV { bool own = false; MatV m; int t = 0; std::string key() const { return (own ? "own" + m.key() : std::string("named")) + str(t); } };
static Layer layer(const LayV & v) { Layer l("M", 3.0, 0.001, 0.9); if (v.own) l.setMaterial(material(v.m)); if (v.t) l.setThickness(0.004); return l; }
struct DetV { LayV l; int area = 0; std::string key() const { return l.key() + str(area); } };
static Detector detector(const DetV & v) { Detector d("M", 3.0, 0.05); if (v.l.own) d.setMaterial(material(v.l.m)); if (v.l.t) d.setThickness(0.004); d.setDistance(2.0); d.setActiveArea(v.area ? 0.7 : 0.2); return d; }
static TransmissionTable table(int v) { TransmissionTable t("T" + str(v)); if (v == 0) t.setTransmissionTable(VD{1, 10}, VD{0.2, 0.8}); if (v == 1) t.setTransmissionTable(VD{2, 5, 20}, VD{0, 1, 0.5}); return t; }
static Beam beam(int v) { Beam b; if (v == 0) b.setBeam(VD{12, 9}, VD{1, 3}); else b.setSingleEnergyBeam(15.0); return b; }
static void changeElement(Element & e, int what) { if (what == 1) e.setShellConstants("K", MD{{"omega", 0.5}}); if (what == 2) e.setDensity(1.0); }
static void changeMu(Elements & L) { L.setMassAttenuationCoefficients("Fe", VD{1.0, 7.1, 7.2, 100.0}, VD{1000, 30, 300, 0.1}, VD{2, 1, 1, 0.01}, VD{0.01, 0.1, 0.1, 0.2}, VD{0, 0, 0, 0}); }
struct LibV { bool has = false; MatV m; int fe = 0; std::string key() const { return (has ? m.key() : std::string("-")) + str(fe); } };
struct XrfV { int b = 0, t = 0, geo = 0; LayV s, f, a; DetV d; std::string key() const { return str(b) + str(t) + str(geo) + "s" + s.key() + "f" + f.key() + "a" + a.key() + "d" + d.key(); } };
static void build(XRF & x, const XrfV & v)
{
    x.setBeam(beam(v.b)); x.setUserBeamFilters(std::vector<TransmissionTable>(1, table(v.t))); x.setGeometry(v.geo ? 30 : 45, 45, 90);
    std::vector<Layer> s; s.push_back(layer(v.s)); s.push_back(Layer("Cr", 7.0, 0.001)); x.setSample(s, 1); x.setBeamFilters(std::vector<Layer>(1, layer(v.f))); x.setAttenuators(std::vector<Layer>(1, layer(v.a))); x.setDetector(detector(v.d));
}
// ---- what an object answers; LREF is a library nothing is ever done to ------------
static Elements * LREF = nullptr, * LWORK = nullptr;
static void tell(Bytes & o, const Material & m) { o << m; }
static void tell(Bytes & o, const Layer & l) { o << l << l.getComposition(*LREF) << l.getTransmission(9.0, *LREF, 40.0) << l.getMassAttenuationCoefficients(9.0, *LREF) << l.getPeakFamilies(12.0, *LREF); }
static void tell(Bytes & o, const Detector & d) { Detector k(d); tell(o, (const Layer &) d); o << d.getActiveArea() << d.getDistance() << k.getEscape(15.0, *LREF) << d.getEscapePeakIntensityThreshold() << d.getEscapePeakEnergyThreshold() << d.getEscapePeakNThreshold(); }
template <class T> static void part(Bytes & o, T f) { try { f(); } catch (std::exception &) { o << "threw"; } }
static void tell(Bytes & o, const Element & e)
{
    o << e.getName() << e.getAtomicNumber() << e.getAtomicMass() << e.getDensity() << e.getBindingEnergies() << e.getMassAttenuationCoefficients();
    for (auto s : {"K", "L1", "L2"}) { part(o, [&] { o << e.getShellConstants(s); }); part(o, [&] { o << e.getRadiativeTransitions(s); }); part(o, [&] { o << e.getNonradiativeTransitions(s); }); }
    part(o, [&] { o << e.getXRayLines(); }); part(o, [&] { o << e.getMassAttenuationCoefficients(VD{3, 7.15, 20}); }); part(o, [&] { o << e.getPhotoelectricExcitationFactors(20.0); }); part(o, [&] { o << e.getPartialPhotoelectricMassAttenuationCoefficients(20.0); });
}
static void tell(Bytes & o, const TransmissionTable & t) { o << t.getName() << t.getComment() << t.getTransmissionTable() << t.getTransmission(VD{0.5, 3, 7, 50}); }
static void tell(Bytes & o, const Beam & b) { o << b; }
static void tell(Bytes & o, Elements & L) { tell(o, L.getElement("Fe")); o << L.getMaterialNames(); if (L.getMaterialNames().size()) o << L.getMaterial("M") << L.getComposition("M"); o << L.getMassAttenuationCoefficients("Fe2O3", 20.0) << L.getExcitationFactors("Fe", 20.0) << L.getEscape(MD{{"Fe", 1}}, 15.0); tell(o, L.getElement("Cr")); }
static void tell(Bytes & o, const XRF & x)
{
    o << x.getBeam() << x.getSample() << x.getReferenceLayer() << x.getAlphaIn() << x.getAlphaOut() << x.getScatteringAngle(); for (auto & t : x.getUserBeamFilters()) tell(o, t); for (auto & t : x.getUserAttenuators()) tell(o, t); for (auto & l : x.getBeamFilters()) tell(o, l); for (auto & l : x.getAttenuators()) tell(o, l); for (auto & l : x.getSample()) tell(o, l); tell(o, x.getDetector()); o << x.getMaterials();
    o << x.getMultilayerFluorescence(VS{"Cr"}, *LREF, std::vector<int>(1, -1), VS{"K"}) << x.getGeometricEfficiency(0);
}
template <class T> static std::string told(T & t) { Bytes o; try { tell(o, t); } catch (std::exception & e) { o << "threw"; } return o.s; }

// ---- the net of objects -----------------------------------------------------------
struct Net {
    Material m; Layer lay, got; Detector det; Element e; TransmissionTable t; Beam b; XRF x, y; Elements * L = nullptr, * K = nullptr; std::vector<Layer> layers; std::vector<TransmissionTable> tables; XRFConfig conf;
};
struct NetV { MatV m; LayV lay, v0; DetV det; int e = 0, t = 0, tv = 0, b = 0; XrfV x, y; LibV L, K; bool hasK = false; };
enum { M_ = 1, LAY = 2, DET = 4, E_ = 8, T_ = 16, B_ = 32, X_ = 64, Y_ = 128, L_ = 256, K_ = 512, V_ = 1024, TV_ = 2048 };
struct Op { const char * name; int reads, writes; std::function<bool(NetV &)> model; std::function<void(Net &)> real; };
static std::vector<Op> OPS;
static Net * START = nullptr; static NetV STARTV;
static void ops()
{
#define OP(name, reads, writes, model, real) OPS.push_back({name, reads, writes, [](NetV & v) -> bool { (void) v; model; return true; }, [](Net & n) { real; }})
    OP("change the material", 0, M_, if (v.m.comp == 1) return false; v.m.comp = 1, n.m.setComposition(VS{"Si"}, VD{2}));
    OP("describe the material anew", 0, M_, if (v.m.meta == 1) return false; v.m.meta = 1; v.m.comp = 2, n.m = Material("M", 4.0, 0.02, "other"); n.m.setComposition(COMP[2]));
    OP("register the material", M_, L_, v.L.has = true; v.L.m = v.m, n.L->addMaterial(n.m, 0));
    OP("copy of the registered material", L_, M_, if (!v.L.has) return false; v.m = v.L.m, n.m = n.L->getMaterialCopy("M"));
    OP("the registered material itself, assigned", L_, M_, if (!v.L.has) return false; v.m = v.L.m, n.m = n.L->getMaterial("M"));
    OP("change the registered material", 0, L_, if (!v.L.has || v.L.m.comp == 2) return false; v.L.m.comp = 2, n.L->setMaterialComposition("M", COMP[2]));
    OP("remove the registered material", 0, L_, if (!v.L.has) return false; v.L.has = false, n.L->removeMaterial("M"));
    OP("material to the layer", M_, LAY, v.lay.own = true; v.lay.m = v.m, n.lay.setMaterial(n.m));
    OP("thickness of the layer", 0, LAY, if (v.lay.t) return false; v.lay.t = 1, n.lay.setThickness(0.004));
    OP("material of the layer", LAY, M_, if (!v.lay.own) return false; v.m = v.lay.m, n.m = n.lay.getMaterial());
    OP("layer into the list", LAY, V_, v.v0 = v.lay, n.layers[0] = n.lay);
    OP("change a layer of the list", 0, V_, if (v.v0.t) return false; v.v0.t = 1, n.layers[0].setThickness(0.004));
    OP("list as the sample", V_, X_, v.x.s = v.v0, n.layers[1] = Layer("Cr", 7.0, 0.001); n.x.setSample(n.layers, 1));
    OP("layer as a filter", LAY, X_, v.x.f = v.lay, n.x.setBeamFilters(std::vector<Layer>(1, n.lay)));
    OP("layer as an attenuator", LAY, X_, v.x.a = v.lay, n.x.setAttenuators(std::vector<Layer>(1, n.lay)));
    OP("layer of the sample", X_, LAY, v.lay = v.x.s, n.lay = n.x.getSample()[0]);
    OP("list of the sample's layers", X_, V_, v.v0 = v.x.s, n.layers = n.x.getSample());
    OP("material to the detector", M_, DET, v.det.l.own = true; v.det.l.m = v.m, n.det.setMaterial(n.m));
    OP("area of the detector", 0, DET, if (v.det.area) return false; v.det.area = 1, n.det.setActiveArea(0.7));
    OP("detector to the calculator", DET, X_, v.x.d = v.det, n.x.setDetector(n.det));
    OP("detector of the calculator", X_, DET, v.det = v.x.d, n.det = n.x.getDetector());
    OP("yield of the element", 0, E_, if (v.e & 1) return false; v.e |= 1, changeElement(n.e, 1));
    OP("density of the element", 0, E_, if (v.e & 2) return false; v.e |= 2, changeElement(n.e, 2));
    OP("element to the library", E_, L_, v.L.fe = v.e, n.L->addElement(n.e));
    OP("copy of the library's element", L_, E_, v.e = v.L.fe, n.e = n.L->getElementCopy("Fe"));
    OP("the library's element itself, assigned", L_, E_, v.e = v.L.fe, n.e = n.L->getElement("Fe"));
    OP("attenuation in the library", 0, L_, if (v.L.fe & 4) return false; v.L.fe |= 4, changeMu(*n.L));
    OP("change the table", 0, T_, if (v.t) return false; v.t = 1, n.t = TransmissionTable("T1"); n.t.setTransmissionTable(VD{2, 5, 20}, VD{0, 1, 0.5}));
    OP("table as user filter", T_, X_, v.x.t = v.t, n.tables[0] = n.t; n.x.setUserBeamFilters(n.tables); n.tables[0].setTransmissionTable(VD{1, 2}, VD{0, 0}));
    OP("table of the calculator", X_, T_, v.t = v.x.t, n.t = n.x.getUserBeamFilters()[0]);
    OP("change the beam", 0, B_, if (v.b) return false; v.b = 1, n.b.setSingleEnergyBeam(15.0));
    OP("beam to the calculator", B_, X_, v.x.b = v.b, n.x.setBeam(n.b));
    OP("beam of the calculator", X_, B_, v.b = v.x.b, n.b = n.x.getBeam());
    OP("beam of the calculator changed directly", 0, X_, if (v.x.b) return false; v.x.b = 1, n.x.setSingleEnergyBeam(15.0));
    OP("copy of the calculator", X_, Y_, v.y = v.x, n.y = n.x);
    OP("the calculator from its copy", Y_, X_, v.x = v.y, n.x = XRF(n.y));
    OP("geometry of the calculator", 0, X_, if (v.x.geo) return false; v.x.geo = 1, n.x.setGeometry(30, 45, 90));
    OP("copy of the library", L_, K_, v.K = v.L; v.hasK = true, n.K = new Elements(*n.L));
    OP("the library from its copy", K_, L_, if (!v.hasK) return false; v.L = v.K, *n.L = *n.K);
    OP("change the copy of the library", 0, K_, if (!v.hasK || (v.K.fe & 4)) return false; v.K.fe |= 4, changeMu(*n.K));
#undef OP
}
static std::string expected(const std::string & kind, const std::string & key, std::function<std::string()> make)
{
    static std::map<std::string, std::string> memo; auto i = memo.find(kind + key);
    if (i == memo.end()) { std::string s, t; fresh([&](std::string & o) { o = make(); }, s, t); i = memo.insert({kind + key, s + t}).first; }
    return i->second;
}
static std::string expectElement(int v) { return expected("e", str(v), [&] { Elements & L = *LWORK; if (v & 4) changeMu(L); Element e = L.getElement("Fe"); for (int k : {1, 2}) if (v & k) changeElement(e, k); return told(e); }); }
static std::string expectLibrary(const LibV & v) { return expected("L", v.key(), [&] { Elements & L = *LWORK; if (v.fe & 4) changeMu(L); if (v.fe & 3) { Element e = L.getElement("Fe"); for (int k : {1, 2}) if (v.fe & k) changeElement(e, k); L.addElement(e); } if (v.has) L.addMaterial(material(v.m)); return told(L); }); }
static const char * NAMES[] = {"material", "layer", "detector", "element", "table", "beam", "calculator", "its copy", "library", "its copy", "list of layers", "list of tables"};
static std::vector<std::string> model(const NetV & v)
{
    std::vector<std::string> r;
    r.push_back(expected("m", v.m.key(), [&] { Material m = material(v.m); return told(m); }));
    r.push_back(expected("l", v.lay.key(), [&] { Layer l = layer(v.lay); return told(l); }));
    r.push_back(expected("d", v.det.key(), [&] { Detector d = detector(v.det); return told(d); }));
    r.push_back(expectElement(v.e));
    r.push_back(expected("t", str(v.t), [&] { TransmissionTable t = table(v.t); return told(t); }));
    r.push_back(expected("b", str(v.b), [&] { Beam b = beam(v.b); return told(b); }));
    for (auto x : {&v.x, &v.y}) r.push_back(expected("x", x->key(), [&] { XRF k; build(k, *x); return told(k); }));
    r.push_back(expectLibrary(v.L)); r.push_back(v.hasK ? expectLibrary(v.K) : std::string());
    r.push_back(expected("l", v.v0.key(), [&] { Layer l = layer(v.v0); return told(l); }));
    return r;
}
static std::vector<std::string> answers(Net & n)
{
    std::vector<std::string> r; r.push_back(told(n.m)); r.push_back(told(n.lay)); r.push_back(told(n.det)); r.push_back(told(n.e)); r.push_back(told(n.t)); r.push_back(told(n.b)); r.push_back(told(n.x)); r.push_back(told(n.y)); r.push_back(told(*n.L)); r.push_back(n.K ? told(*n.K) : std::string()); r.push_back(told(n.layers[0])); return r;
}

// ---- refused changes ----------------------------------------------------------------
// A kind of object: how to make it, accepted changes, changes that must be refused, its answers
struct Subject { std::string name; std::function<void *()> make; std::vector<std::pair<std::string, std::function<void(void *)> > > good, bad; std::function<std::string(void *)> ask; };
static std::vector<Subject> SUBJECTS;
static std::string scratch;
static std::string file(const std::string & name, const std::string & text) { std::string f = scratch + "/" + name + std::to_string(getpid()); FILE * o = fopen(f.c_str(), "w"); fwrite(text.data(), 1, text.size(), o); fclose(o); return f; }
static std::string slurp(const std::string & f) { std::string s; FILE * i = fopen(f.c_str(), "rb"); if (!i) return s; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, i)) > 0) s.append(b, n); fclose(i); return s; }
template <class T> static Subject subject(const std::string & name, std::function<T *()> make, std::vector<std::pair<std::string, std::function<void(T &)> > > good, std::vector<std::pair<std::string, std::function<void(T &)> > > bad, std::function<std::string(T &)> ask)
{
    Subject s; s.name = name; s.make = [make] { return (void *) make(); }; s.ask = [ask](void * p) { return ask(*(T *) p); };
    for (auto & g : good) { auto f = g.second; s.good.push_back({g.first, [f](void * p) { f(*(T *) p); }}); }
    for (auto & g : bad) { auto f = g.second; s.bad.push_back({g.first, [f](void * p) { f(*(T *) p); }}); }
    return s;
}
#define F(T, code) [](T & o) { code; }
static void subjects()
{
    const MD fe{{"Fe", 1}};
    SUBJECTS.push_back(subject<Material>("material", [] { return new Material("M", 2.0, 0.01, "about"); },
        {{"composition", F(Material, o.setComposition(VS{"Fe", "Cr"}, VD{3, 1}))}, {"composition as a map", F(Material, o.setComposition(MD{{"Si", 1}}))}, {"name", F(Material, o.setName("N"))}},
        {{"more names than amounts", F(Material, o.setComposition(VS{"Fe", "Cr"}, VD{1}))}, {"more amounts than names", F(Material, o.setComposition(VS{"Fe"}, VD{1, 2}))}, {"a negative amount", F(Material, o.setComposition(VS{"Al", "Fe"}, VD{3, -1}))}, {"a negative amount in a map", F(Material, o.setComposition(MD{{"Al", 2}, {"Zn", -1}}))}, {"amounts without sum", F(Material, o.setComposition(VS{"Al", "Fe"}, VD{0, 0}))}, {"not a number", F(Material, o.setComposition(VS{"Al", "Fe"}, VD{1, NAN}))},
         {"empty name", F(Material, o.setName(""))}, {"initialised again", F(Material, o.initialize("other", 5.0, 0.1, "x"); o.initialize("other", 5.0, 0.1, "x"))}, {"density", F(Material, Material k("x", -1.0, 1.0); o = k)}, {"thickness", F(Material, o = Material("x", 1.0, 0.0))}, {"no name", F(Material, o = Material("", 1.0, 1.0))}},
        [](Material & m) { return told(m); }));
    SUBJECTS.push_back(subject<Layer>("layer", [] { return new Layer("Fe", 3.0, 0.001, 0.9); },
        {{"material", F(Layer, o.setMaterial(material(MatV())))}, {"thickness", F(Layer, o.setThickness(0.004))}, {"named material", F(Layer, o.setMaterial(std::string("M")))}},
        {{"density 0", F(Layer, o.setDensity(0))}, {"density", F(Layer, o.setDensity(-3))}, {"thickness 0", F(Layer, o.setThickness(0))}, {"thickness", F(Layer, o.setThickness(-1))}, {"density nan", F(Layer, o.setDensity(NAN))}, {"thickness nan", F(Layer, o.setThickness(NAN))}},
        [](Layer & m) { return told(m); }));
    SUBJECTS.push_back(subject<Detector>("detector", [] { auto d = new Detector("Si", 3.0, 0.001, 0.9); d->setActiveArea(0.2); d->setDistance(2); return d; },
        {{"material", F(Detector, o.setMaterial(material(MatV())))}, {"area", F(Detector, o.setActiveArea(0.7))}, {"diameter", F(Detector, o.setDiameter(0.3))}, {"threshold", F(Detector, o.setMinimumEscapePeakIntensity(1e-3))}, {"stored answer", F(Detector, o.getEscape(15.0, *LREF, "label"))}},
        {{"area", F(Detector, o.setActiveArea(-1))}, {"diameter", F(Detector, o.setDiameter(-1))}, {"distance", F(Detector, o.setDistance(-1))}, {"density", F(Detector, o.setDensity(-1))}, {"thickness", F(Detector, o.setThickness(0))}, {"escape of an unknown material", F(Detector, Detector k("Nope", 1, 1); k.getEscape(15.0, *LREF, "label"))}, {"escape at an impossible energy", F(Detector, o.getEscape(-1.0, *LREF, "label"))}},
        [](Detector & m) { Bytes o; o << told(m) << m.getDiameter() << m.getEscape(15.0, *LREF, "label", 0); return o.s; }));
    SUBJECTS.push_back(subject<TransmissionTable>("table", [] { return new TransmissionTable(table(0)); },
        {{"points", F(TransmissionTable, o.setTransmissionTable(VD{2, 5, 20}, VD{0, 1, 0.5}))}, {"map and name", F(TransmissionTable, o.setTransmissionTable(std::map<double, double>{{1, 0.5}}, "name", "text"))}, {"name", F(TransmissionTable, o.setName("n"); o.setComment("c"))}},
        {{"lengths", F(TransmissionTable, o.setTransmissionTable(VD{1, 2}, VD{0.5}, "bad", "bad"))}, {"empty", F(TransmissionTable, o.setTransmissionTable(VD{}, VD{}, "bad", "bad"))}, {"above 1 at the end", F(TransmissionTable, o.setTransmissionTable(VD{1, 2, 3}, VD{0.5, 0.1, 1.5}, "bad"))}, {"negative at the end", F(TransmissionTable, o.setTransmissionTable(VD{1, 2, 3}, VD{0.5, 0.1, -1}))}, {"order", F(TransmissionTable, o.setTransmissionTable(VD{1, 3, 2}, VD{0.5, 0.1, 0.1}, "bad"))}, {"negative energy", F(TransmissionTable, o.setTransmissionTable(VD{-1, 3}, VD{0.5, 0.1}))}, {"not a number", F(TransmissionTable, o.setTransmissionTable(VD{1, 3}, VD{0.5, NAN}, "bad"))},
         {"map above 1", F(TransmissionTable, o.setTransmissionTable(std::map<double, double>{{1, 0.1}, {2, 1.5}}, "bad", "bad"))}, {"map negative", F(TransmissionTable, o.setTransmissionTable(std::map<double, double>{{1, 0.1}, {2, -1}}, "bad"))}, {"map negative energy", F(TransmissionTable, o.setTransmissionTable(std::map<double, double>{{-1, 0.1}, {2, 0}}, "bad"))}, {"empty map", F(TransmissionTable, o.setTransmissionTable(std::map<double, double>(), "bad"))}},
        [](TransmissionTable & m) { return told(m); }));
    SUBJECTS.push_back(subject<Beam>("beam", [] { return new Beam(beam(0)); },
        {{"energies", F(Beam, o.setBeam(VD{3, 1, 2}, VD{1, 1, 2}))}, {"single", F(Beam, o.setSingleEnergyBeam(4.0))}, {"flags", F(Beam, o.setBeam(VD{3, 1}, VD{1, 1}, std::vector<int>{1, 0}, VD{0.1, 0.2}))}},
        {{"weights", F(Beam, o.setBeam(VD{5, 6, 7}, VD{1, 2}))}, {"too many weights", F(Beam, o.setBeam(VD{5}, VD{1, 2}))}, {"flags", F(Beam, o.setBeam(VD{5, 6, 7}, VD{1, 2, 3}, std::vector<int>{1, 2}))}, {"divergency", F(Beam, o.setBeam(VD{5, 6, 7}, VD{1, 2, 3}, std::vector<int>{1, 1, 1}, VD{1, 2}))}, {"no energies", F(Beam, o.setBeam(VD{}, VD{1}))}},
        [](Beam & m) { return told(m); }));
    SUBJECTS.push_back(subject<Element>("element", [] { return new Element(LREF->getElement("Fe")); },
        {{"yield", F(Element, changeElement(o, 1))}, {"density", F(Element, changeElement(o, 2))}, {"attenuation", F(Element, o.setMassAttenuationCoefficients(VD{1.0, 7.1, 7.2, 100.0}, VD{1000, 30, 300, 0.1}, VD{2, 1, 1, 0.01}, VD{0.01, 0.1, 0.1, 0.2}))}, {"binding energies", F(Element, o.setBindingEnergies(MD{{"K", 7.0}, {"L1", 0.8}, {"L2", 0.7}, {"L3", 0.7}}))}, {"caches", F(Element, o.setCacheEnabled(); o.fillCache(VD{20, 3}); o.setCascadeCacheEnabled(); o.fillCascadeCache())}, {"rates", F(Element, o.setRadiativeTransitions("K", MD{{"KL3", 1}, {"KL2", 1}}))}},
        {{"binding energies: lengths", F(Element, o.setBindingEnergies(VS{"K", "L1"}, VD{3}))}, {"attenuation: order", F(Element, o.setMassAttenuationCoefficients(VD{2, 1}, VD{1, 1}, VD{1, 1}, VD{1, 1}))}, {"attenuation: photoelectric", F(Element, o.setMassAttenuationCoefficients(VD{1, 2}, VD{1}, VD{1, 1}, VD{1, 1}))}, {"attenuation: coherent", F(Element, o.setMassAttenuationCoefficients(VD{1, 2}, VD{1, 1}, VD{1}, VD{1, 1}))}, {"attenuation: incoherent", F(Element, o.setMassAttenuationCoefficients(VD{1, 2}, VD{1, 1}, VD{1, 1}, VD{1}))}, {"attenuation: pair", F(Element, o.setMassAttenuationCoefficients(VD{1, 2}, VD{1, 1}, VD{1, 1}, VD{1, 1}, VD{1}))}, {"attenuation: empty", F(Element, o.setMassAttenuationCoefficients(VD{}, VD{}, VD{}, VD{}))}, {"attenuation: negative", F(Element, o.setMassAttenuationCoefficients(VD{1, 2}, VD{1, -1}, VD{1, 1}, VD{1, 1}))}, {"attenuation: energy 0", F(Element, o.setMassAttenuationCoefficients(VD{0, 2}, VD{1, 1}, VD{1, 1}, VD{1, 1}))}, {"total attenuation", F(Element, o.setTotalMassAttenuationCoefficient(VD{1, 2}, VD{1, 1}))},
         {"partial: shell", F(Element, o.setPartialPhotoelectricMassAttenuationCoefficients("Q", VD{1, 2}, VD{1, 1}))}, {"partial: lengths", F(Element, o.setPartialPhotoelectricMassAttenuationCoefficients("K", VD{1, 2}, VD{1}))}, {"partial: order", F(Element, o.setPartialPhotoelectricMassAttenuationCoefficients("K", VD{8, 10, 9}, VD{1, 1, 1}))},
         {"rates: shell", F(Element, o.setRadiativeTransitions("Q", MD{{"KL3", 1}}))}, {"rates: no binding energy", F(Element, o.setRadiativeTransitions("M5", MD{{"M5N3", 1}}))}, {"rates: lengths", F(Element, o.setRadiativeTransitions("K", VS{"KL3", "KL2"}, VD{1}))}, {"rates: label", F(Element, o.setRadiativeTransitions("K", MD{{"KM3", 1}, {"L3M5", 2}}))}, {"rates: label in a list", F(Element, o.setRadiativeTransitions("K", VS{"KM3", "XX"}, VD{1, 2}))}, {"rates: negative", F(Element, o.setRadiativeTransitions("K", VS{"KM3", "KM2"}, VD{1, -2}))}, {"rates: not a number", F(Element, o.setRadiativeTransitions("L3", VS{"L3M5", "L3M4"}, VD{1, NAN}))},
         {"nonradiative: shell", F(Element, o.setNonradiativeTransitions("Q", MD{{"K-L1L1", 1}}))}, {"nonradiative: lengths", F(Element, o.setNonradiativeTransitions("L1", VS{"L1-L2M1"}, VD{1, 2}))}, {"nonradiative: label", F(Element, o.setNonradiativeTransitions("L1", VS{"L1-L2M1", "K-L1L1"}, VD{1, 2}))}, {"nonradiative: negative", F(Element, o.setNonradiativeTransitions("L1", VS{"L1-L2M1", "L1-M1M1"}, VD{1, -2}))},
         {"constants: shell", F(Element, o.setShellConstants("Q", MD{{"omega", 0.1}}))}, {"constants: label", F(Element, o.setShellConstants("L1", MD{{"omega", 0.3}, {"f99", 0.2}}))}, {"constants: negative", F(Element, o.setShellConstants("L1", MD{{"omega", -0.3}}))}, {"constants: above 1", F(Element, o.setShellConstants("L1", MD{{"f12", 0.5}, {"omega", 1.3}}))}, {"constants: sum", F(Element, o.setShellConstants("L1", MD{{"f12", 0.5}, {"f13", 0.6}, {"omega", 0.3}}))},
         {"mass", F(Element, o.setAtomicMass(-1))}, {"mass 0", F(Element, o.setAtomicMass(0))}, {"number", F(Element, o.setAtomicNumber(0))}, {"factors at impossible energies", F(Element, o.getPhotoelectricExcitationFactors(VD{20, -1}, VD{1}))}, {"cache at impossible energies", F(Element, o.updateCache(VD{20, -1}))}, {"fill at impossible energies", F(Element, o.fillCache(VD{20, -1}))}},
        [](Element & e) { return told(e); }));
    SUBJECTS.push_back(subject<Shell>("subshell", [] { return new Shell(LREF->getElement("Pb").getShell("L1")); },
        {{"rates", F(Shell, o.setRadiativeTransitions(MD{{"L1M3", 1}, {"L1M2", 3}}))}, {"nonradiative", F(Shell, o.setNonradiativeTransitions(MD{{"L1-L3M1", 1}, {"L1-M1M1", 1}}))}, {"constants", F(Shell, o.setShellConstants(MD{{"omega", 0.2}, {"f12", 0.1}, {"f13", 0.3}}))}},
        {{"lengths", F(Shell, o.setRadiativeTransitions(VS{"L1M3"}, VD{1, 2}))}, {"nonradiative lengths", F(Shell, o.setNonradiativeTransitions(VS{"L1-L2M1", "L1-M1M1"}, VD{1}))}, {"label", F(Shell, o.setRadiativeTransitions(MD{{"L1M3", 1}, {"KL3", 1}}))}, {"labels", F(Shell, o.setRadiativeTransitions(VS{"L1M3", "L2M1"}, VD{1, 2}))}, {"nonradiative label", F(Shell, o.setNonradiativeTransitions(MD{{"L1-L2M1", 1}, {"L2-L3M1", 1}}))}, {"nonradiative labels", F(Shell, o.setNonradiativeTransitions(VS{"L1-L2M1", "nonsense"}, VD{1, 1}))}, {"negative", F(Shell, o.setRadiativeTransitions(VS{"L1M3", "L1M2"}, VD{1, -2}))}, {"negative nonradiative", F(Shell, o.setNonradiativeTransitions(VS{"L1-L2M1", "L1-M1M1"}, VD{1, -2}))}, {"constants", F(Shell, o.setShellConstants(MD{{"omega", 0.1}, {"f45", 0.1}}))}, {"negative constants", F(Shell, o.setShellConstants(MD{{"f12", 0.1}, {"omega", -0.1}}))}, {"constants above 1", F(Shell, o.setShellConstants(MD{{"f12", 0.9}, {"omega", 0.9}, {"f13", 0.3}}))}},
        [](Shell & s) { Bytes o; o << s.getRadiativeTransitions() << s.getNonradiativeTransitions() << s.getShellConstants() << s.getAugerRatios() << s.getCosterKronigRatios() << s.getFluorescenceRatios() << s.getFluorescenceYield(); try { o << s.getDirectVacancyTransferRatios("L3"); } catch (std::exception &) { o << "threw"; } return o.s; }));
    static std::string D0 = D, KC = slurp(D + "/EADL97_KShellConstants.dat"), LR = slurp(D + "/EADL97_LShellRadiativeRates.dat"), MN = slurp(D + "/EADL97_MShellNonradiativeRates.dat"), BE = slurp(D + "/EADL97_BindingEnergies.dat");
    static std::string missing = D + "/nowhere.dat", empty = file("empty", ""), noscan = file("noscan", "1 2 3\n4 5 6\n"), cutK = file("cutK", KC.substr(0, KC.size() * 2 / 3) + " x"), cutL = file("cutL", LR.substr(0, LR.size() * 2 / 3) + " x"), cutM = file("cutM", MN.substr(0, MN.size() * 2 / 3) + " x"),
        labels = file("labels", "#S 1 a\n#N 2\n#L Z  nonsense\n1 0.5\n2 0.5\n"), badK = file("badK", "#S 1 K\n#N 2\n#L Z  omegaK\n1 0.5\n2 0.5\n3 -7\n"), badR = file("badR", "#S 1 L1\n#N 2\n#L Z  L1M3\n1 0.5\n\n#S 2 L9\n#N 2\n#L Z  L9M3\n1 0.5\n"), badMu = file("badMu", "#S 1 H\n#N 5\n#L PhotonEnergy  Rayleigh(coherent)  Compton(incoherent)  CoherentPlusIncoherent  Photoelectric\n1 2 3 4 5\n10 1 1 1 1\n\n#S 2 He\n#N 5\n#L PhotonEnergy  Rayleigh(coherent)  Compton(incoherent)  CoherentPlusIncoherent  Photoelectric\n10 2 3 4 5\n1 1 1 1 1\n"), shortMu = file("shortMu", "#S 1 H\n#N 5\n#L PhotonEnergy  Rayleigh(coherent)  Compton(incoherent)  CoherentPlusIncoherent  Photoelectric\n1 2 3 4 5\n10 1 1 1 1\n\n#S 2 He\n#N 2\n#L PhotonEnergy  Photoelectric\n1 5\n");
    SUBJECTS.push_back(subject<Elements>("library", [] { return LWORK; },
        {{"material", F(Elements, o.addMaterial(material(MatV()), 0))}, {"element", F(Elements, Element e = o.getElement("Fe"); changeElement(e, 1); o.addElement(e))}, {"attenuation", F(Elements, changeMu(o))}, {"caches", F(Elements, o.setEscapeCacheEnabled(); o.updateEscapeCache(MD{{"Fe", 1}}, VD{15.0, 9.0}); o.setCacheEnabled("Fe"); o.fillCache("Fe", VD{20, 3}); o.fillElementCascadeCache("Fe"))}, {"rates", F(Elements, o.setShellRadiativeTransitionsFile("K", D + "/KShellRates.dat"))}},
        {{"material twice", F(Elements, MatV v; v.meta = v.comp = 1; o.addMaterial(material(v)))}, {"material without name", F(Elements, o.addMaterial(std::string(""), 1, 1))}, {"material without density", F(Elements, o.addMaterial("P", -1.0, 1.0))}, {"composition of an unknown material", F(Elements, o.setMaterialComposition("Nope", MD{{"Fe", 1}}))}, {"composition: lengths", F(Elements, o.setMaterialComposition("M", VS{"Fe", "Cr"}, VD{1}))}, {"composition: negative", F(Elements, o.setMaterialComposition("M", MD{{"Al", 1}, {"Zn", -1}}))}, {"remove an unknown material", F(Elements, o.removeMaterial("Nope"))},
         {"attenuation of an unknown element", F(Elements, o.setMassAttenuationCoefficients("Zz", VD{1, 2}, VD{1, 1}, VD{1, 1}, VD{1, 1}, VD{0, 0}))}, {"attenuation: lengths", F(Elements, o.setMassAttenuationCoefficients("Fe", VD{1, 2}, VD{1}, VD{1, 1}, VD{1, 1}, VD{0, 0}))}, {"attenuation: empty", F(Elements, o.setMassAttenuationCoefficients("Fe", VD{}, VD{}, VD{}, VD{}, VD{}))}, {"attenuation: order", F(Elements, o.setMassAttenuationCoefficients("Fe", VD{10, 2}, VD{1, 1}, VD{1, 1}, VD{1, 1}, VD{0, 0}))}, {"attenuation: pair", F(Elements, o.setMassAttenuationCoefficients("Fe", VD{1, 2}, VD{1, 1}, VD{1, 1}, VD{1, 1}, VD{0}))}, {"attenuation: negative", F(Elements, o.setMassAttenuationCoefficients("Fe", VD{1, 20}, VD{1, -5}, VD{1, 1}, VD{1, 1}, VD{0, 0}))},
         {"element without attenuation", F(Elements, o.addElement(Element("Fe", 26)))}, {"element without name", F(Elements, o.addElement(Element()))},
         {"constants: shell", F(Elements, o.setShellConstantsFile("Q", D0 + "/KShellConstants.dat"))}, {"constants: missing file", F(Elements, o.setShellConstantsFile("K", missing))}, {"constants: cut file", F(Elements, o.setShellConstantsFile("K", cutK))}, {"constants: empty file", F(Elements, o.setShellConstantsFile("L", empty))}, {"constants: labels", F(Elements, o.setShellConstantsFile("K", labels))}, {"constants: values", F(Elements, o.setShellConstantsFile("K", badK))}, {"constants: file of another shell", F(Elements, o.setShellConstantsFile("L", D0 + "/KShellConstants.dat"))}, {"constants: no scans", F(Elements, o.setShellConstantsFile("M", noscan))},
         {"rates: shell", F(Elements, o.setShellRadiativeTransitionsFile("", D0 + "/KShellRates.dat"))}, {"rates: missing", F(Elements, o.setShellRadiativeTransitionsFile("L", missing))}, {"rates: cut file", F(Elements, o.setShellRadiativeTransitionsFile("L", cutL))}, {"rates: file of another shell", F(Elements, o.setShellRadiativeTransitionsFile("K", D0 + "/LShellRates.dat"))}, {"rates: labels", F(Elements, o.setShellRadiativeTransitionsFile("L", badR))},
         {"nonradiative: shell", F(Elements, o.setShellNonradiativeTransitionsFile("N", D0 + "/EADL97_MShellNonradiativeRates.dat"))}, {"nonradiative: missing", F(Elements, o.setShellNonradiativeTransitionsFile("M", missing))}, {"nonradiative: cut file", F(Elements, o.setShellNonradiativeTransitionsFile("M", cutM))}, {"nonradiative: file of another shell", F(Elements, o.setShellNonradiativeTransitionsFile("L", D0 + "/EADL97_MShellNonradiativeRates.dat"))},
         {"attenuation file: missing", F(Elements, o.setMassAttenuationCoefficientsFile(missing))}, {"attenuation file: bad second scan", F(Elements, o.setMassAttenuationCoefficientsFile(badMu))}, {"attenuation file: incomplete second scan", F(Elements, o.setMassAttenuationCoefficientsFile(shortMu))}, {"attenuation file: no scans", F(Elements, o.setMassAttenuationCoefficientsFile(noscan))},
         {"cache of an unknown element", F(Elements, o.fillCache("Zz", VD{20}))}, {"cache at impossible energies", F(Elements, o.updateCache("Fe", VD{20, -1}))}, {"escape cache of an unknown element", F(Elements, o.updateEscapeCache(MD{{"Zz", 1}}, VD{15.0}))}, {"escape cache with an unknown element", F(Elements, o.updateEscapeCache(MD{{"Fe", 0.5}, {"Zz", 0.5}}, VD{15.0}))}, {"enable for an unknown element", F(Elements, o.setCacheEnabled("Zz"))}, {"cascade of an unknown element", F(Elements, o.fillElementCascadeCache("Zz"))}},
        [](Elements & L) { Bytes o; o << told(L) << L.getShellConstantsFile("K") << L.getShellConstantsFile("L") << L.getShellConstantsFile("M") << L.getShellRadiativeTransitionsFile("K") << L.getShellRadiativeTransitionsFile("L") << L.getShellNonradiativeTransitionsFile("M") << L.getShellNonradiativeTransitionsFile("L") << L.getElementNames() << L.isEscapeCacheEnabled() << (int) L.isCacheEnabled("Fe"); for (auto s : {"H", "He", "Li", "Pb"}) { tell(o, L.getElement(s)); } o << L.getExcitationFactors("Pb", 30.0) << L.getShellConstants("Pb", "L2") << L.getNonradiativeTransitions("Pb", "M1") << L.getRadiativeTransitions("Pb", "L2") << L.getEscape(MD{{"Fe", 1}}, 9.0); return o.s; }));
    static std::string cfgA = file("good.cfg", "[fit]\nenergy = 17.4, 9.0\nenergyweight = 1, 2\n[attenuators]\nMatrix = 1, S1, 7.0, 0.001, 40, 50, 0, 90\nBeamFilter0 = 1, Al, 2.7, 0.001, 1.0\n[Materials.S1]\nCompoundList = Fe, Cr\nCompoundFraction = 1, 2\nDensity = 7\nThickness = 0.001\n"),
        noCfg = file("no.cfg", "[other]\nx = 1\n"), badWeight = file("w.cfg", "[fit]\nenergy = 17.4, 9.0\nenergyweight = 1, -2\n[attenuators]\nMatrix = 1, Fe, 7.0, 0.001, 40, 50, 0, 90\n"), badLayer = file("l.cfg", "[fit]\nenergy = 11\nenergyweight = 1\n[attenuators]\nMatrix = 1, MULTILAYER, 0.0, 0.0, 40, 50, 0, 90\nBeamFilter0 = 1, Be, 1.0, 0.001, 1.0\n[multilayer]\nLayer0 = 1, Fe, 7.0, 0.001\nLayer1 = 1, Fe\n"), badArea = file("a.cfg", "[fit]\nenergy = 11\nenergyweight = 1\n[attenuators]\nMatrix = 1, Fe, 7.0, 0.001, 40, 50, 0, 90\n[concentrations]\nusematrix = 0\ndistance = 3\narea = -2\n"), badMat = file("m.cfg", "[fit]\nenergy = 11\nenergyweight = 1\n[attenuators]\nMatrix = 1, Fe, 7.0, 0.001, 40, 50, 0, 90\n[Materials.S2]\nCompoundList = Fe, Cr\nCompoundFraction = 1, -2\nDensity = 7\nThickness = 0.001\n");
    static std::string badFormat = file("f.cfg", "[fit\nenergy = 11\n");
    SUBJECTS.push_back(subject<XRF>("calculator", [] { auto x = new XRF(); build(*x, XrfV()); return x; },
        {{"beam", F(XRF, o.setBeam(beam(1)))}, {"sample", F(XRF, o.setSample(std::vector<Layer>(3, Layer("Fe", 7, 0.001)), 2))}, {"file", F(XRF, o.readConfigurationFromFile(cfgA))}, {"filters", F(XRF, o.setBeamFilters(std::vector<Layer>()); o.setUserAttenuators(std::vector<TransmissionTable>(2, table(1))))}, {"geometry", F(XRF, o.setGeometry(30, 45, 75))}},
        {{"weights", F(XRF, o.setBeam(VD{5, 6, 7}, VD{1, 2}))}, {"flags", F(XRF, o.setBeam(VD{5, 6, 7}, VD{1, 2, 3}, std::vector<int>{1}))}, {"reference layer", F(XRF, o.setSample(std::vector<Layer>(2, Layer("Al", 2, 0.1)), 2))}, {"negative reference layer", F(XRF, o.setSample(std::vector<Layer>(2, Layer("Al", 2, 0.1)), -1))}, {"no layers", F(XRF, o.setSample(std::vector<Layer>()))},
         {"missing file", F(XRF, o.readConfigurationFromFile(missing))}, {"another kind of file", F(XRF, o.readConfigurationFromFile(noCfg))}, {"file with a negative weight", F(XRF, o.readConfigurationFromFile(badWeight))}, {"file with an incomplete layer", F(XRF, o.readConfigurationFromFile(badLayer))}, {"file with a negative area", F(XRF, o.readConfigurationFromFile(badArea))}, {"file with a bad material", F(XRF, o.readConfigurationFromFile(badMat))}, {"badly formatted file", F(XRF, o.readConfigurationFromFile(badFormat))}, {"empty file", F(XRF, o.readConfigurationFromFile(empty))},
         {"an impossible request", F(XRF, o.getMultilayerFluorescence("Xx", *LREF, 0, "K"))}, {"an impossible layer", F(XRF, o.getGeometricEfficiency(17))}},
        [](XRF & x) { Bytes o; o << told(x); try { o << x.getMultilayerFluorescence(VS{"Fe", "Cr"}, *LREF, std::vector<int>(1, -1), VS{"K", "K"}); } catch (std::exception &) { o << "threw"; } return o.s; }));
    static std::string iniGood = file("good.ini", "[a]\nx = 1\n[b]\ny = 2\n[b.c]\nz = 3\n"), ini2 = file("good2.ini", "[q]\nx = 7\n"), bad1 = file("bad1.ini", "[q]\nx = 7\n[r\ny = 1\n"), bad2 = file("bad2.ini", "[q]\nx = 7\n[]\ny = 1\n"), bad3 = file("bad3.ini", "[a]\nx = 7\nnonsense\n"), bad4 = file("bad4.ini", "[a]\nx = 7\n= 3\n");
    SUBJECTS.push_back(subject<SimpleIni>("ini file", [] { return new SimpleIni(iniGood); },
        {{"another file", F(SimpleIni, o.readFileName(ini2))}}, {{"missing", F(SimpleIni, o.readFileName(missing))}, {"section", F(SimpleIni, o.readFileName(bad1))}, {"empty section", F(SimpleIni, o.readFileName(bad2))}, {"line", F(SimpleIni, o.readFileName(bad3))}, {"key", F(SimpleIni, o.readFileName(bad4))}},
        [](SimpleIni & i) { Bytes o; o << i.getSections(); for (auto s : {"a", "b", "b.c", "q", "r"}) o << i.readSection(s); return o.s; }));
    SUBJECTS.push_back(subject<SimpleSpecfile>("data file", [] { return new SimpleSpecfile(D0 + "/KShellConstants.dat"); },
        {{"another file", F(SimpleSpecfile, o.setFileName(D0 + "/LShellRates.dat"))}}, {{"missing", F(SimpleSpecfile, o.setFileName(missing))}, {"scan", F(SimpleSpecfile, o.getScanData(99))}, {"negative scan", F(SimpleSpecfile, o.getScanLabels(-1))}},
        [](SimpleSpecfile & s) { Bytes o; o << s.getNumberOfScans() << s.getScanLabels(0) << s.getScanData(0); return o.s; }));
    static std::string half = file("half", slurp(D + "/EPDL97_CrossSections.dat").substr(0, 200000)), twoScans = file("twoScans", "#S 1 a\n#N 2\n#L Z  K(1S1/2)\n1 0.5\n\n#S 2 b\n#N 2\n#L Z  K(1S1/2)\n1 0.5\n"), widths = file("widths", "#S 1 a\n#N 2\n#L Z  K(1S1/2)\n1 0.5 3\n2 0.5 3\n");
    static std::string dir = scratch + "/bad" + std::to_string(getpid()); { std::string c = "mkdir -p '" + dir + "'"; if (system(c.c_str())) abort(); FILE * a = fopen((dir + "/EPDL97_CrossSections.dat").c_str(), "w"); fputs("nothing\n", a); fclose(a); a = fopen((dir + "/EADL97_BindingEnergies.dat").c_str(), "w"); fputs("#S 1 a\n#N 2\n#L Z  K(1S1/2)\n1 0.5\n2 0.6\n", a); fclose(a); }
    SUBJECTS.push_back(subject<EPDL97>("cross sections", [] { return new EPDL97(D0); },
        {{"binding energies", F(EPDL97, MD b = o.getBindingEnergies(26); b["K"] = 7.0; o.setBindingEnergies(26, b))}, {"binding energies file", F(EPDL97, o.loadBindingEnergies(D0 + "/BindingEnergies.dat"))}},
        {{"missing directory", F(EPDL97, o.setDataDirectory(dir + "/nowhere"))}, {"directory with bad cross sections", F(EPDL97, o.setDataDirectory(dir))}, {"missing file", F(EPDL97, o.loadBindingEnergies(missing))}, {"two scans", F(EPDL97, o.loadBindingEnergies(twoScans))}, {"widths", F(EPDL97, o.loadBindingEnergies(widths))}, {"no element", F(EPDL97, o.setBindingEnergies(0, MD{{"K", 7.0}}))}, {"question about no element", F(EPDL97, o.getMassAttenuationCoefficients(0, 5.0))}},
        [](EPDL97 & e) { Bytes o; for (int z : {1, 2, 26, 82}) o << e.getBindingEnergies(z) << e.getMassAttenuationCoefficients(z, VD{2, 20}) << e.getPhotoelectricWeights(z, 20.0); o << e.getMassAttenuationCoefficients(26); return o.s; }));
}

static Main M;
int main(int argc, char ** argv)
{
    const char * sc = getenv("FISX_MC_SCRATCH"); scratch = sc ? sc : "/tmp"; M.hangSeconds = 300; D = getenv("FISX_MC_DATA");
    ops(); subjects();
    M.init = [] {
        initChildren(); initLibraries(1); LREF = LIB[0]; LREF->addMaterial(material(MatV())); LWORK = new Elements(D);
        Net * n = START = new Net; n->m = material(MatV()); n->lay = layer(LayV()); n->det = detector(DetV()); n->e = LWORK->getElement("Fe"); n->t = table(0); n->b = beam(0); build(n->x, XrfV()); build(n->y, XrfV()); n->L = LWORK; n->layers = {layer(LayV()), Layer("Cr", 7.0, 0.001)}; n->tables = {table(0)};
    };
    return M.main(argc, argv, [](Main & M) {
        bool T = M.thorough(); int n = (int) OPS.size(), depth = T ? 4 : 3;
        // histories up to the depth; neighbours that concern different objects in one order only
        M.suite("copies", n * n, [=](Run & r, int job) {
            std::vector<int> h; NetV v = STARTV;
            auto independent = [](int a, int b) { const Op & x = OPS[a], & y = OPS[b]; return !(x.writes & (y.reads | y.writes)) && !(y.writes & x.reads); };
            for (int i = 0; i < depth; i++)
            {
                int k = i == 0 ? job % n : i == 1 ? job / n : (int) r.choose(n + 1);
                if (k == n) break;
                if (h.size() && k < h.back() && independent(k, h.back())) return;
                // the last step must follow from what was done: something unconnected has its own, shorter history
                if (i == depth - 1) { bool linked = false; for (int q : h) linked = linked || !independent(q, k); if (!linked) return; }
                if (!OPS[k].model(v)) return;
                h.push_back(k);
            }
            std::string at; for (int k : h) at += std::string(OPS[k].name) + "; "; r.op(at); r.site("copies");
            std::vector<std::string> want = model(v); std::string s, t;
            bool ok = fresh([&](std::string & o) { for (int k : h) OPS[k].real(*START); std::vector<std::string> got = answers(*START); for (size_t i = 0; i < got.size(); i++) if (!alike(got[i], want[i])) o += std::string(" ") + NAMES[i]; }, s, t);
            r.check(ok, "a process with copies", at + t); r.check(s.empty(), "an object changed with another one, or did not take over what it was given", at + "differs:" + s); r.state(at);
        });
        int total = 0; std::vector<std::pair<int, int> > which; for (size_t i = 0; i < SUBJECTS.size(); i++) for (size_t b = 0; b < SUBJECTS[i].bad.size(); b++) { which.push_back({(int) i, (int) b}); total++; }
        M.suite("refused changes", total, [=](Run & r, int job) {
            const Subject & S = SUBJECTS[which[job].first]; int g = (int) S.good.size(); std::vector<int> h; std::string at = S.name + ": ";
            for (int i = 0; i < (T ? 3 : 2); i++) { int k = (int) r.choose(g + 1); if (k == g) break; h.push_back(k); at += S.good[k].first + "; "; }
            int again = (int) r.choose(2);
            const auto & bad = S.bad[which[job].second]; at += (again ? "twice refused: " : "refused: ") + bad.first; r.op(at); r.site("refused changes");
            std::string s, t; auto accepted = [&](void * p, int k) { try { S.good[k].second(p); } catch (std::exception &) { } }; auto go = [&](void * p) { for (size_t k = 0; k < S.good.size(); k++) accepted(p, (int) k); };
            static std::map<std::string, std::string> memo; std::string mk = S.name; for (int k : h) mk += str(k); if (!memo.count(mk)) { fresh([&](std::string & o) { void * p = S.make(); for (int k : h) accepted(p, k); go(p); o = "same" + S.ask(p); }, s, t); memo[mk] = s; }
            bool ok = fresh([&](std::string & o) {
                void * p = S.make(); for (int k : h) accepted(p, k);
                for (int i = 0; i <= again; i++)
                {
                    std::string before = S.ask(p); bool threw = false; try { bad.second(p); } catch (std::exception &) { threw = true; }
                    if (!threw) { o = "accepted"; return; }
                    if (!alike(S.ask(p), before)) { o = "changed"; return; }
                }
                // and the object goes on as if nothing had been tried
                go(p); o = "same" + S.ask(p);
            }, s, t);
            r.check(ok, "a process with refused changes", at + t); r.check(s != "changed", "a refused change left a trace", at); r.check(s == "changed" || s == "accepted" || alike(s, memo[mk]), "the object goes on differently after a refused change", at); r.state(at + s.substr(0, 4));
            if (s.substr(0, 5) == "threw") r.fail("threw", at + s); if (getenv("F29V") && s == "accepted" && h.empty() && !again) r.fail("accepted " + at, at);
        });
    });
}
