// F18: vacancy distributions and excitation factors.
#include "mc.hpp"
#include "reflibs.hpp"
using namespace mc;
using namespace fisx;
typedef std::map<std::string, double> MD;
typedef std::map<std::string, MD> MMD;
typedef std::vector<double> VD;
typedef std::vector<std::string> VS;

static void sameLines(Run & r, const MMD & got, const MMD & want, double w, double ph, const std::string & key, const std::string & at)
{
    std::string d;
    for (auto & p : want)
    {
        double f = p.second.at("rate") * w;
        auto i = got.find(p.first);
        if (i == got.end()) { if (f > 1e-18) d += " missing " + p.first; continue; }
        if (!Run::close(ref::get(i->second, "factor"), f, 1e-8, 1e-18)) d += " " + p.first + " factor " + num6(ref::get(i->second, "factor")) + " want " + num6(f);
        if (!Run::close(ref::get(i->second, "rate"), f * ph, 1e-8, 1e-18 * ph)) d += " " + p.first + " rate " + num6(ref::get(i->second, "rate")) + " want " + num6(f * ph);
        if (!Run::close(ref::get(i->second, "energy"), p.second.at("energy"), 1e-10, 1e-12)) d += " " + p.first + " energy";
    }
    for (auto & p : got) if (!want.count(p.first)) d += " extra " + p.first;
    r.check(d.empty(), key, at + d);
}
static VD energies(const ref::Element & e)
{
    std::set<double> q;
    for (auto & s : e.shells) { double b = e.binding.at(s.first); if (b > 0) { q.insert(b); q.insert(b * 1.0003); q.insert(b * 0.9997); q.insert(b * 1.1); q.insert(b * 3.0); } }
    q.insert(0.06); q.insert(0.9); q.insert(5.9); q.insert(17.44); q.insert(40.0); q.insert(120.0); q.insert(590.0);
    return VD(q.begin(), q.end());
}
// reference: shares of the photoelectric coefficient, by the model (which < 2) or by the element's own coefficients
static void expected(int which, const ref::Element & m, const Element & e, double E, MD & share, double & ph)
{
    MD mu;
    if (which < 2) mu = m.muAt(E); else mu = e.getMassAttenuationCoefficients(E);
    ph = 0; for (auto & s : ref::PHOTO()) ph += mu[s];
    for (auto & s : ref::PHOTO()) share[s] = ph > 0 ? mu[s] / ph : 0.0;
}

int main(int argc, char ** argv)
{
    static Main M;
    M.init = [] { initLibraries(3); };
    return M.main(argc, argv, [](Main & M) {
        bool T = M.thorough();
        M.suite("library", 109 * 3, [=](Run & r, int job) {
            int which = job / 109;
            const ref::Element & m = REF[which]->el[REF[which]->order[job % 109]];
            Elements & L = *LIB[which];
            const Element & e = L.getElement(m.name);
            std::string w = LIBNAME[which];
            VD q = energies(m);
            r.op(w + " " + m.name);
            std::map<double, MMD> single; std::map<double, MD> shares; std::map<double, double> photo;
            for (double E : q)
            {
                r.step();
                std::string at = m.name + " at " + num(E);
                MD share; double ph;
                expected(which, m, e, E, share, ph);
                MD d = e.getInitialPhotoelectricVacancyDistribution(E), d2 = L.getInitialPhotoelectricVacancyDistribution(m.name, E);
                double sum = 0;
                for (auto & s : ref::PHOTO())
                {
                    r.check(d.count(s), w + ":share missing", s);
                    r.eq(d[s], share[s], w + ":share of " + s, 1e-8, 1e-14);
                    r.eq(d2[s], d[s], w + ":library share", 0, 0);
                    r.check(d[s] >= 0 && d[s] <= 1.0 + 1e-12, w + ":share out of range", at);
                    sum += d[s];
                }
                r.check(sum <= 1.0 + 1e-9, w + ":shares exceed one", at);
                MMD want = m.lines(share);
                sameLines(r, L.getExcitationFactors(m.name, E), want, 1.0, ph, w + ":factors", at);
                for (double wt : {0.0, 0.25, 3.0})
                {
                    sameLines(r, L.getExcitationFactors(m.name, E, wt), want, wt, ph, w + ":weighted factors", at);
                    sameLines(r, e.getPhotoelectricExcitationFactors(E, wt), want, wt, ph, w + ":weighted element factors", at);
                }
                single[E] = want; shares[E] = share; photo[E] = ph;
            }
            // several energies, in every interface and two orders
            for (int rev = 0; rev < 2; rev++)
            {
                VD o = rev ? VD(q.rbegin(), q.rend()) : q; o.push_back(o[0]);
                std::map<std::string, VD> v = L.getInitialPhotoelectricVacancyDistribution(m.name, o), v2 = e.getInitialPhotoelectricVacancyDistribution(o);
                for (auto & s : ref::PHOTO())
                {
                    if (!r.check(v[s].size() == o.size() && v2[s] == v[s], w + ":vector of shares")) continue;
                    for (size_t i = 0; i < o.size(); i++) r.eq(v[s][i], shares[o[i]][s], w + ":vector share", 1e-8, 1e-14);
                }
                VD wt; for (size_t i = 0; i < o.size(); i++) wt.push_back((i % 4) * 0.5);
                std::vector<VD> ws = {VD(), VD(1, 0.3), wt};
                for (auto & x : ws)
                {
                    std::vector<MMD> a = L.getExcitationFactors(m.name, o, x), b = e.getPhotoelectricExcitationFactors(o, x);
                    if (!r.check(a.size() == o.size() && b.size() == o.size(), w + ":vector of factors")) continue;
                    for (size_t i = 0; i < o.size(); i++)
                    {
                        double f = x.empty() ? 1.0 / o.size() : x.size() == 1 ? x[0] : x[i];
                        sameLines(r, a[i], single[o[i]], f, photo[o[i]], w + ":vector factors", m.name + " at " + num(o[i]));
                        sameLines(r, b[i], single[o[i]], f, photo[o[i]], w + ":vector element factors", m.name + " at " + num(o[i]));
                    }
                }
                VD bad(o.size() - 1, 1.0), more(o.size() + 1, 1.0);
                if (bad.size() > 1) r.check(throws([&] { L.getExcitationFactors(m.name, o, bad); }), w + ":wrong number of weights accepted");
                r.check(throws([&] { e.getPhotoelectricExcitationFactors(o, more); }), w + ":wrong number of weights accepted");
            }
            r.check(L.getExcitationFactors(m.name, VD()).empty(), w + ":factors of no energy");
            r.state(w + m.name);
        });
        // every small element: order of edges and steps, every set of yields
        static const std::vector<VD> grids = {{0.3, 1, 4}, {0.3, 1, 1, 4, 40}, {0.3, 1, 1, 4, 20, 20, 40}};
        M.suite("elements", (int) grids.size() * 9, [=](Run & r, int job) {
            const VD & g = grids[job / 9];
            MD b; b["K"] = job % 3 == 0 ? 20 : job % 3 == 1 ? 10 : 0.0; b["L1"] = job / 3 % 3 == 0 ? 1.0 : 0.8; b["L3"] = job / 3 % 3 == 2 ? 0.0 : 0.5; b["M1"] = 0.1;
            Element e("Xx", 40); ref::Element m; m.name = "Xx";
            e.setBindingEnergies(b); m.setBinding(b);
            VD base; for (size_t i = 0; i < g.size(); i++) base.push_back(50.0 / (1 + i * i));
            e.setMassAttenuationCoefficients(g, base, base, base); m.setMu(g, base, base, base, VD());
            static const VD scale = {0.0, 1.0, 8.0};
            std::string d;
            for (auto & s : {"K", "L1", "L3", "M1", "all other"})
            {
                double f = r.pick(scale); d += num6(f) + " ";
                VD v; for (double x : base) v.push_back(x * f);
                e.setPartialPhotoelectricMassAttenuationCoefficients(s, g, v); m.setPartial(s, g, v);
            }
            MD c; c["omega"] = r.flip() ? 0.5 : 0.0;
            if (b["K"] > 0)
            {
                e.setShellConstants("K", c); m.shells["K"].setConstants(c);
                VS l = {"KL3", "KL1"}, n = {"K-L1L3", "K-L3M1"}; VD v = {1, 2};
                e.setRadiativeTransitions("K", l, v); m.shells["K"].setRad(l, v); e.setNonradiativeTransitions("K", n, v); m.shells["K"].setNon(n, v);
            }
            MD c1; c1["omega"] = 0.1; c1["f13"] = 0.6; e.setShellConstants("L1", c1); m.shells["L1"].setConstants(c1);
            VS l1 = {"L1M1"}, n1 = {"L1-L3M1", "L1-M1M1"}; VD one = {1}, two = {2, 5};
            e.setRadiativeTransitions("L1", l1, one); m.shells["L1"].setRad(l1, one); e.setNonradiativeTransitions("L1", n1, two); m.shells["L1"].setNon(n1, two);
            if (b["L3"] > 0) { MD c3; c3["omega"] = 0.3; e.setShellConstants("L3", c3); m.shells["L3"].setConstants(c3); VS l3 = {"L3M1"}; e.setRadiativeTransitions("L3", l3, one); m.shells["L3"].setRad(l3, one); }
            r.op("element " + str(job) + " scales " + d + " omegaK " + num6(c["omega"]));
            for (double E : {0.05, 0.2, 0.5, 0.7, 0.8, 1.0, 1.1, 4.0, 10.0, 15.0, 20.0, 25.0, 60.0})
            {
                MD share; double ph; expected(0, m, e, E, share, ph);
                std::string at = r.log + " at " + num(E);
                MD got = e.getInitialPhotoelectricVacancyDistribution(E);
                for (auto & s : ref::PHOTO()) r.eq(got[s], share[s], "element:share of " + s, 1e-8, 1e-14);
                sameLines(r, e.getPhotoelectricExcitationFactors(E), m.lines(share), 1.0, ph, "element:factors", at);
            }
            r.state(r.log);
        });
    });
}
