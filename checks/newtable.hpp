// Reference for a table of total cross sections that replaces the one of an element
// (shared by F09: the XCOM file, and F10: tables of the user's own)
#pragma once
#include "mc.hpp"
#include "ref.hpp"
#include "fisx_elements.h"
struct Xrow { double e, coh, com, photo, pair; };
// table after a replacement of the total cross sections
inline void muNew(mc::Run & r, const fisx::Elements & L, const ref::Element & e, const std::vector<Xrow> & X, const std::string & w)
{
    using mc::Run; using mc::str; using mc::num; typedef std::map<std::string, double> MD;
    std::map<std::string, std::vector<double> > t = L.getMassAttenuationCoefficients(e.name);
    size_t n = t["energy"].size(), m = X.size();
    if (!r.check(n >= m, w + ":XCOM table length", str(n))) return;
    size_t j = n - m;
    // the edges of the new table, from the highest one: K, L1, L2, ... as far as they agree with the binding energies
    std::vector<double> edges;
    for (size_t i = m; i-- > 1;) if (X[i].e == X[i - 1].e && X[i - 1].photo < X[i].photo) edges.push_back(X[i].e);
    for (size_t i = 0; i < m; i++)
    {
        double te = t["energy"][j + i];
        bool ok = Run::close(te, X[i].e, 3e-6, 4e-6);
        // an edge of the binding energies table beyond this point pushes it up, energies remaining ascending
        if (i && te > X[i].e && Run::close(te, t["energy"][j + i - 1], 0, 2e-6)) ok = true;
        for (auto & b : e.binding) if (te == b.second) ok = true;
        // the upper side of an edge that was recognised is not below the binding energy
        if (i && X[i].e == X[i - 1].e && X[i - 1].photo < X[i].photo) for (size_t c = 0; c < 9 && c < edges.size(); c++)
        {
            double b = ref::get(e.binding, ref::SHELLS()[c]);
            if (edges[c] == X[i].e && b > 0 && std::fabs(b - edges[c]) < 0.0999) r.check(te >= b * (1 - 1e-12), w + ":upper side of an edge below the binding energy", e.name + " " + ref::SHELLS()[c] + " " + num(te) + " binding " + num(b));
        }
        r.check(ok, w + ":XCOM energy", num(te) + " want " + num(X[i].e));
        r.eq(t["coherent"][j + i], X[i].coh, w + ":XCOM coherent", 1e-12);
        r.eq(t["compton"][j + i], X[i].com, w + ":XCOM compton", 1e-12);
        r.eq(t["pair"][j + i], X[i].pair, w + ":XCOM pair", 1e-12);
        r.eq(t["photoelectric"][j + i], X[i].photo, w + ":XCOM photoelectric", 1e-12);
        r.eq(t["total"][j + i], X[i].photo + X[i].coh + X[i].com + X[i].pair, w + ":XCOM total", 1e-12);
        // an energy tabulated once is answered as tabulated
        if ((i == 0 || X[i - 1].e < X[i].e - 1e-5) && (i + 1 == m || X[i + 1].e > X[i].e + 1e-5) && te == X[i].e)
        {
            MD v = L.getElement(e.name).getMassAttenuationCoefficients(te);
            r.eq(v["coherent"], X[i].coh, w + ":XCOM query coherent", 1e-9);
            r.eq(v["compton"], X[i].com, w + ":XCOM query compton", 1e-9);
            r.eq(v["pair"], X[i].pair, w + ":XCOM query pair", 1e-9);
            // subshells keep their EPDL shares of the new photoelectric coefficient (or, without an edge of their own in
            // the new table, their EPDL value)
            double ph = 0; MD q; for (auto & s : ref::PHOTO()) { q[s] = e.part(s, te); ph += q[s]; }
            bool edge = false, any = false;
            for (auto & b : e.binding) if (b.second > 0 && std::fabs(b.second - te) < 0.02 * te) edge = true;
            // (between an edge of the new table and the binding energy only the sign is defined)
            for (double x : edges) for (auto & b : e.binding) if (std::fabs(x - b.second) < 0.5 && te > std::min(x, b.second) * 0.98 && te < std::max(x, b.second) * 1.02) edge = true;
            // without a single recognised edge all of them are rescaled
            for (size_t c = 0; c < 9 && c < edges.size(); c++) { double b = ref::get(e.binding, ref::SHELLS()[c]); if (b > 0 && std::fabs(edges[c] - b) < 0.1001) any = true; }
            if (ph > 0 && !edge)
                for (auto & s : ref::PHOTO())
                {
                    double scaled = q[s] * X[i].photo / ph;
                    bool okp = Run::close(v[s], scaled, 1e-6, 1e-300) || Run::close(v[s], q[s], 1e-6, 1e-300);
                    for (size_t c = 0; c < 9 && c < edges.size(); c++)
                        if (ref::SHELLS()[c] == s && te > edges[c] && e.binding.at(s) > 0 && std::fabs(edges[c] - e.binding.at(s)) < 0.0999)
                            okp = Run::close(v[s], scaled, 1e-6, 1e-300);
                    if (!any) okp = Run::close(v[s], scaled, 1e-6, 1e-300);
                    r.check(okp, w + ":XCOM partial " + s, e.name + " at " + num(te) + " got " + num(v[s]) + " EPDL " + num(q[s]) + " scaled " + num(scaled));
                }
        }
    }
    size_t k = 0; while (k < e.muE.size() && e.muE[k] < X[0].e) k++;
    if (k) k--;
    r.check(j == k, w + ":points below the new table", str(j) + " want " + str(k));
    if (j == k) for (size_t i = 0; i < j; i++)
    {
        r.eq(t["energy"][i], e.muE[i], w + ":EPDL part energy", 1e-12);
        bool dup = (i && e.muE[i - 1] == e.muE[i]) || (i + 1 < e.muE.size() && e.muE[i + 1] == e.muE[i]);
        if (!dup) r.eq(t["coherent"][i], e.mu.at("coherent")[i], w + ":EPDL part coherent", 1e-9);
        if (!dup) r.eq(t["compton"][i], e.mu.at("compton")[i], w + ":EPDL part compton", 1e-9);
    }
}
