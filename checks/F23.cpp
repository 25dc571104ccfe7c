// F23: every request is answered as if it had been made alone, whatever else is
// asked with it, in which order, for which layers and through which overload.
#include "mc.hpp"
#include "refxrf.hpp"
using namespace mc;
using namespace refx;
using fisx::XRF;

static std::vector<Setup> SETUPS;
static const std::vector<Request> MENU = {{"Fe", "K", -1}, {"Fe", "Ka", 0}, {"Fe", "Kb", -1}, {"Cr", "K", 1}, {"Cr", "K", -1}, {"Pb", "L", -1}, {"Pb", "L3", 2}, {"Pb", "M", -1}, {"Fe", "KL3", 1}, {"Ca", "K", 2}, {"Ca", "K", 7}, {"Pb", "K", -1}, {"Fe", "L", 0}, {"Pb", "L1", -1}};
static void menu()
{
    RLayer steel("Cr2Fe6", {{"Cr", 2}, {"Fe", 6}}, 7.9, 0.0008), pb("PbCa2", {{"Pb", 1}, {"Ca", 2}}, 5.0, 0.0006), mix("Fe2PbCr", {{"Fe", 2}, {"Pb", 1}, {"Cr", 1}}, 8.0, 0.01);
    Setup a; a.beam = {{17.4, 1}}; a.sample = {steel, pb, mix}; a.attenuators = {RLayer("Al", {{"Al", 1}}, 2.7, 0.003)};
    Setup b; b.beam = {{6.5, 1}, {14.0, 2}, {25.0, 1}}; b.sample = {pb, mix}; b.hasDetector = true; b.detector = RLayer("Si", {{"Si", 1}}, 2.33, 0.04); b.area = 0.3; b.distance = 3; b.in = 70; b.out = 20;
    Setup c; c.beam = {{100.0, 3}, {7.05, 2}}; c.sample = {mix, steel, pb};
    SETUPS = {a, b, c};
}
// differences between what is reported for one request and what it gives alone
static void compare(const MMD & got, const MMD & want, const std::string & at, std::string & d, bool rates)
{
    int n = 0;
    auto bad = [&](const std::string & m) { if (n++ < 3 && d.size() < 400) d += " " + at + " " + m + ";"; };
    for (auto & l : want)
    {
        auto g = got.find(l.first); if (g == got.end()) { bad(l.first + " missing"); continue; }
        for (auto & k : l.second)
        {
            if (!rates && (k.first == "rate" || k.first == "tertiary")) continue;
            auto v = g->second.find(k.first);
            if (v == g->second.end()) { if (k.second != 0) bad(l.first + " lacks " + k.first); continue; }
            if (!Run::close(v->second, k.second, 1e-11, 1e-290)) bad(l.first + " " + k.first + "=" + num(v->second) + " alone " + num(k.second));
        }
        for (auto & k : g->second) if (!l.second.count(k.first) && k.second != 0) bad(l.first + " has " + k.first);
    }
    for (auto & g : got) if (!want.count(g.first)) bad(g.first + " not given alone");
}
static Result alone(int setup, const Request & q, int layer, int secondary, int solid, int mf)
{
    static std::map<std::string, Result> memo;
    std::string k = str(setup) + q.element + " " + q.family + " " + str(layer) + str(secondary) + str(solid) + str(mf);
    auto i = memo.find(k);
    if (i == memo.end())
    {
        XRF x; SETUPS[setup].apply(x);
        i = memo.insert(std::make_pair(k, x.getMultilayerFluorescence(q.element, *LIB[0], layer, q.family, secondary, solid, mf, 0.0))).first;
    }
    return i->second;
}
static void judge(Run & r, int setup, const std::vector<Request> & q, const Result & got, int secondary, int solid, int mf, const std::string & w, const std::string & at)
{
    std::string d; std::map<std::string, std::set<int> > asked;
    for (auto & k : q) for (int l = 0; l < (int) SETUPS[setup].sample.size(); l++) if (k.layer < 0 || k.layer == l) asked[k.element + " " + k.family].insert(l);
    std::set<std::string> done;
    for (auto & k : q) for (int l : asked[k.element + " " + k.family])
    {
        std::string key = k.element + " " + k.family;
        if (!done.insert(key + str(l)).second) continue;
        Result a = alone(setup, k, l, secondary, solid, mf);
        MMD want; auto i = a.find(key); if (i != a.end()) { auto j = i->second.find(l); if (j != i->second.end()) want = j->second; for (auto & x : i->second) if (x.first != l && x.second.size()) d += " alone: layer " + str(x.first) + " not asked for"; }
        for (auto & x : a) if (x.first != key && x.second.size()) d += " alone: " + x.first + " not asked for";
        MMD g; auto o = got.find(key); if (o != got.end()) { auto j = o->second.find(l); if (j != o->second.end()) g = j->second; }
        compare(g, want, key + " layer " + str(l), d, secondary < 2);
    }
    for (auto & k : got) for (auto & l : k.second) if (l.second.size() && !(asked.count(k.first) && asked[k.first].count(l.first))) d += " " + k.first + " layer " + str(l.first) + " not asked for";
    r.check(d.empty(), w, d.empty() ? d : at + ":" + d);
}
static Main M;
int main(int argc, char ** argv)
{
    M.init = [] { initLibraries(1); menu(); };
    M.main(argc, argv, [](Main & M) {
        bool T = M.thorough();
        int n = MENU.size();
        M.suite("requests with enhancement", 3 * n, [=](Run & r, int job) {
            int setup = job % 3, sec = T ? 1 + (int) r.choose(2) : 1 + (job / 3) % 2; std::vector<Request> q = {MENU[job / 3], MENU[r.choose(n)]};
            if (T) q.push_back(MENU[r.choose(n)]);
            XRF x; SETUPS[setup].apply(x);
            VS e, f; std::vector<int> l; std::string at = "set-up " + str(setup) + " secondary " + str(sec) + " ask"; for (auto & k : q) { e.push_back(k.element); f.push_back(k.family); l.push_back(k.layer); at += " [" + k.element + " " + k.family + " " + str(k.layer) + "]"; }
            r.note(at); r.step(); r.site("requests");
            judge(r, setup, q, x.getMultilayerFluorescence(e, *LIB[0], l, f, sec, 0, 0), sec, 0, 0, "requests with enhancement", at);
        });
        M.suite("requests", 3 * n, [=](Run & r, int job) {
            int setup = job % 3; std::vector<Request> q = {MENU[job / 3], MENU[r.choose(n)], MENU[r.choose(n)]};
            if (T) q.push_back(MENU[r.choose(n)]);
            int solid = job / 3 % 2, mf = T ? (int) r.choose(2) : (job / 6) % 2;
            XRF x; SETUPS[setup].apply(x);
            VS e, f, w; std::vector<int> l; std::string at = "set-up " + str(setup) + " ask"; for (auto & k : q) { e.push_back(k.element); f.push_back(k.family); l.push_back(k.layer); w.push_back(k.element + " " + k.family + (k.layer < 0 ? "" : " " + std::to_string(k.layer))); at += " [" + k.element + " " + k.family + " " + str(k.layer) + "]"; }
            r.note(at); r.step(); r.site("requests");
            Result a = x.getMultilayerFluorescence(e, *LIB[0], l, f, 0, solid, mf);
            judge(r, setup, q, a, 0, solid, mf, "requests", at);
            Result b = x.getMultilayerFluorescence(w, *LIB[0], 0, solid, mf);
            r.check(a == b, "requests as text", at);
            bool same = true; for (auto & k : q) same = same && k.layer == q[0].layer;
            if (same) r.check(a == x.getMultilayerFluorescence(e, *LIB[0], std::vector<int>(1, q[0].layer), f, 0, solid, mf), "one layer index for all requests", at);
            std::vector<std::pair<double, double> > ray = SETUPS[setup].beam; VD en, we; for (auto & p : ray) { en.push_back(p.first); we.push_back(p.second); }
            fisx::Beam beam; beam.setBeam(en, we); XRF y; Setup other = SETUPS[setup]; other.beam = {{3.0, 1.0}}; other.apply(y);
            if (q[1].element == "Fe") r.check(a == y.getMultilayerFluorescence(e, *LIB[0], l, f, 0, solid, mf, 0.0, beam), "beam handed over", at);
        });
        M.suite("all layers", 3 * 98, [=](Run & r, int job) {
            int setup = job % 3; std::string e = ref::TABLE[job / 3].symbol; auto fam = VS({"K", "Ka", "Kb", "L", "L1", "L2", "L3", "M", "M1", "M5"})[r.choose(10)];
            XRF x; SETUPS[setup].apply(x); std::string at = e + " " + fam + " set-up " + str(setup); r.note(at); r.step(); r.site("all layers");
            Result all = x.getMultilayerFluorescence(VS(1, e), *LIB[0], std::vector<int>(1, -1), VS(1, fam), 0, 1, 0), sum;
            for (int l = 0; l < (int) SETUPS[setup].sample.size(); l++)
            { Result one = x.getMultilayerFluorescence(e, *LIB[0], l, fam, 0, 1, 0); for (auto & k : one) for (auto & y : k.second) { r.check(y.first == l && k.first == e + " " + fam, "only the layer asked for", at); sum[k.first][y.first] = y.second; } }
            r.check(all == sum, "all layers at once", at);
            // several families of one element, and a family inside another
            Result two = x.getMultilayerFluorescence(VS({e, e, e}), *LIB[0], std::vector<int>(1, -1), VS({fam, "K", "L"}), 0, 1, 0);
            Result k = x.getMultilayerFluorescence(VS(1, e), *LIB[0], std::vector<int>(1, -1), VS(1, "K"), 0, 1, 0), l = x.getMultilayerFluorescence(VS(1, e), *LIB[0], std::vector<int>(1, -1), VS(1, "L"), 0, 1, 0);
            Result want = all; for (auto & p : k) want[p.first] = p.second; for (auto & p : l) want[p.first] = p.second;
            r.check(two == want, "several families", at);
            if (fam == std::string("Ka") || fam == std::string("L1")) for (auto & p : all) for (auto & y : p.second) for (auto & line : y.second)
            {
                std::string whole = e + (fam == std::string("Ka") ? " K" : " L"); auto & w = fam == std::string("Ka") ? k : l;
                bool found = w.count(whole) && w[whole].count(y.first) && w[whole][y.first].count(line.first);
                r.check(found && ref::get(w[whole][y.first][line.first], "rate") == ref::get(line.second, "rate"), "a family is a part of its shell", at + " " + line.first);
            }
        });
        M.suite("bad requests", 1, [=](Run & r, int) {
            XRF x; SETUPS[0].apply(x); r.step(); r.site("bad requests");
            auto refuse = [&](const VS & e, const std::vector<int> & l, const VS & f, const std::string & w) { r.check(throws([&] { x.getMultilayerFluorescence(e, *LIB[0], l, f); }), "refused", w); };
            refuse({"Fe"}, {0}, {}, "no family"); refuse({"Fe", "Cr"}, {0}, {"K"}, "one family for two elements"); refuse({"Fe", "Cr", "Pb"}, {0, 1}, {"K", "K", "K"}, "two layers for three elements");
            refuse({"Fe"}, {0}, {""}, "empty family"); refuse({"Xx"}, {0}, {"K"}, "unknown element");
            for (auto t : {"Fe", "Fe K one", "", "Fe K 0 1", "Xx K"}) r.check(throws([&] { x.getMultilayerFluorescence(VS(1, t), *LIB[0]); }), "refused as text", t);
            r.check(throws([&] { x.getMultilayerFluorescence("Fe", *LIB[0], -1, "K"); }) && throws([&] { x.getMultilayerFluorescence("Fe", *LIB[0], 0, ""); }), "single request without layer or family");
            r.check(x.getMultilayerFluorescence(VS(), *LIB[0], std::vector<int>(), VS()).empty(), "nothing asked, nothing answered");
        });
    });
}
