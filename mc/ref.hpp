// Reference model of the physics: independent reader of the data files and
// independent implementation of the published formulas.  Never calls the library.
#pragma once
#include <algorithm>
#include <cmath>
#include <cstdlib>
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#include "elements_table.hpp"

namespace ref {
typedef std::map<std::string, double> MD;
typedef std::map<std::string, MD> MMD;
typedef std::vector<double> VD;
typedef std::vector<std::string> VS;

inline const VS & SHELLS() { static const VS s = {"K", "L1", "L2", "L3", "M1", "M2", "M3", "M4", "M5"}; return s; }
inline const VS & PHOTO() { static const VS s = {"K", "L1", "L2", "L3", "M1", "M2", "M3", "M4", "M5", "all other"}; return s; }
inline bool starts(const std::string & s, const std::string & p) { return s.compare(0, p.size(), p) == 0; }
inline bool ends(const std::string & s, const std::string & p) { return s.size() >= p.size() && s.compare(s.size() - p.size(), p.size(), p) == 0; }
inline double get(const MD & m, const std::string & k, double d = 0.0) { auto i = m.find(k); return i == m.end() ? d : i->second; }

struct Scan { VS labels; std::vector<VD> rows; };

inline std::vector<Scan> readSpec(const std::string & path)
{
    std::vector<Scan> out;
    std::ifstream f(path.c_str());
    if (!f) throw std::runtime_error("reference: cannot open " + path);
    std::string l;
    while (std::getline(f, l))
    {
        while (l.size() && (l.back() == '\r' || l.back() == ' ')) l.pop_back();
        if (starts(l, "#S")) { out.push_back(Scan()); continue; }
        if (out.empty() || l.empty()) continue;
        if (starts(l, "#L"))
        {
            std::string t = l.substr(2); size_t p = t.find_first_not_of(' ');
            t = t.substr(p);
            VS v; size_t a = 0;
            while (a < t.size())
            {
                size_t b = t.find("  ", a);
                if (b == std::string::npos) b = t.size();
                if (b > a) v.push_back(t.substr(a, b - a));
                a = b; while (a < t.size() && t[a] == ' ') a++;
            }
            out.back().labels = v;
        }
        else if (l[0] != '#')
        {
            VD r; const char * c = l.c_str(); char * e;
            while (true) { double x = strtod(c, &e); if (e == c) break; r.push_back(x); c = e; }
            if (r.size()) out.back().rows.push_back(r);
        }
    }
    return out;
}

// ---- subshell -----------------------------------------------------------
struct Shell {
    std::string name;
    MD constants, rad, non;                 // as stored, non includes TOTAL once anything was set
    Shell() {}
    explicit Shell(const std::string & n) : name(n)
    {
        constants["omega"] = 0.0;
        if (n.size() == 2)
        {
            int max = n[0] == 'L' ? 3 : 5;
            for (int i = n[1] - '0' + 1; i <= max; i++) constants["f" + n.substr(1, 1) + std::to_string(i)] = 0.0;
        }
    }
    static std::string upper(std::string s) { for (auto & c : s) c = (char) toupper((unsigned char) c); return s; }
    // accepted?
    bool setRad(const VS & l, const VD & v)
    {
        if (l.size() != v.size()) return false;
        MD n;
        for (size_t i = 0; i < l.size(); i++)
        {
            std::string k = upper(l[i]);
            if (k == "TOTAL") { n[k] = v[i]; continue; }
            if (!starts(k, name)) return false;
            if (k.size() == 2) k += "2";
            if (k.size() == 5)
            {
                if (!isdigit((unsigned char) k[3]) || !isdigit((unsigned char) k[4])) return false;
                k = k.substr(0, 4);
            }
            n[k] = v[i];
        }
        rad = n;
        return true;
    }
    bool setNon(const VS & l, const VD & v)
    {
        if (l.size() != v.size()) return false;
        MD n; double sum = 0;
        for (size_t i = 0; i < l.size(); i++) n[upper(l[i])] = v[i];
        for (auto & p : n) if (p.first != "TOTAL") sum += p.second;
        if (!n.count("TOTAL")) n["TOTAL"] = sum;
        non = n;
        return true;
    }
    bool setConstants(const MD & c)
    {
        for (auto & p : c) if (!constants.count(p.first)) return false;
        for (auto & p : c) constants[p.first] = p.second;
        return true;
    }
    MD fluo() const
    {
        MD r; double t = 0;
        for (auto & p : rad) if (p.first != "TOTAL") t += p.second;
        for (auto & p : rad) if (p.first != "TOTAL" && p.second > 0) r[p.first] = p.second / t;
        return r;
    }
    // receiving subshell of a Coster-Kronig transition, "" for an Auger one
    std::string ckGroup(const std::string & label) const
    {
        for (auto & p : constants)
        {
            if (p.first == "omega") continue;
            if (starts(label, name + "-" + name.substr(0, 1) + p.first.substr(2, 1))) return p.first;
        }
        return "";
    }
    MMD ck() const
    {
        MMD r;
        if (non.empty()) return r;
        for (auto & p : constants) if (p.first != "omega") r[p.first]["TOTAL"] = 0.0;
        for (auto & p : non)
        {
            if (p.first == "TOTAL" || p.second <= 0) continue;
            std::string g = ckGroup(p.first);
            if (g.size()) { r[g][p.first] = p.second; r[g]["TOTAL"] += p.second; }
        }
        for (auto & g : r)
        {
            double t = g.second["TOTAL"];
            for (auto & p : g.second) if (p.first != "TOTAL") p.second /= t;
        }
        return r;
    }
    MD auger() const
    {
        MD r;
        if (non.empty()) return r;
        double t = get(non, "TOTAL");
        for (auto & p : non) if (p.first != "TOTAL" && p.second > 0 && ckGroup(p.first).size()) t -= p.second;
        for (auto & p : non) if (p.first != "TOTAL" && p.second > 0 && ckGroup(p.first).empty()) r[p.first] = p.second / t;
        r["TOTAL"] = t;
        return r;
    }
    double yields() const { double s = 0; for (auto & p : constants) s += p.second; return s; }
    // mean number of vacancies created in dest per vacancy of this subshell, by kind
    MD transfer(const std::string & dest) const
    {
        MD r;
        r["fluorescence"] = get(constants, "omega") * get(fluo(), name + dest);
        double a = 0;
        for (auto & p : auger())
        {
            if (p.first == "TOTAL") continue;
            if (starts(p.first, name + "-" + dest)) a += p.second;
            if (ends(p.first, dest)) a += p.second;
        }
        r["auger"] = a * (1.0 - yields());
        for (auto & g : ck())
        {
            double c = 0;
            for (auto & p : g.second)
            {
                if (p.first == "TOTAL") continue;
                if (starts(p.first, name + "-" + dest)) c += p.second;
                if (ends(p.first, dest)) c += p.second;
            }
            r[g.first] = c * get(constants, g.first);
        }
        return r;
    }
    double transferTotal(const std::string & dest) const { double s = 0; for (auto & p : transfer(dest)) s += p.second; return s; }
};

// ---- interpolation ------------------------------------------------------
inline double loglog(double x0, double y0, double x1, double y1, double x)
{ return std::exp(std::log(y0) + std::log(y1 / y0) * std::log(x / x0) / std::log(x1 / x0)); }

// bracketing segment: index i such that the segment is [i, i+1]; nodes are exact
struct Curve {
    VD x, y;
    // value of a process that has no edge of its own to care about
    double plain(double e) const
    {
        size_t n = x.size();
        if (n == 0) return 0.0;
        if (n == 1) return y[0];
        // exactly tabulated: the value above the step when the energy is repeated
        for (size_t i = n; i-- > 0;) if (x[i] == e) return y[i];
        size_t i = std::upper_bound(x.begin(), x.end(), e) - x.begin();     // first node above
        if (i == 0) i = 1;
        if (i == n) i = n - 1;
        double x0 = x[i - 1], x1 = x[i], y0 = y[i - 1], y1 = y[i];
        if (x1 - x0 < 5e-10) return y0;
        if (y0 > 0 && y1 > 0) return loglog(x0, y0, x1, y1, e);
        if (y1 > 0 && e > x0) return y1 * (e - x0) / (x1 - x0);
        return 0.0;
    }
};

// ---- element ------------------------------------------------------------
struct Element {
    std::string name, longName;
    int z = 0, row = -1, column = -1;
    double mass = 0, density = 1.0;
    MD binding;
    std::map<std::string, Shell> shells;
    VD muE; std::map<std::string, VD> mu;           // coherent compton pair photoelectric (tables)
    std::map<std::string, Curve> partial;           // after the edge treatment

    void setBinding(const MD & b)
    {
        binding = b; shells.clear();
        for (auto & p : b) if (p.first.size() && std::string("KLM").find(p.first[0]) != std::string::npos) shells[p.first] = Shell(p.first);
    }
    void setMu(const VD & e, const VD & photo, const VD & coh, const VD & com, const VD & pair)
    {
        muE = e; mu.clear();
        mu["photoelectric"] = photo; mu["coherent"] = coh; mu["compton"] = com;
        mu["pair"] = pair.size() ? pair : VD(e.size(), 0.0);
    }
    void setPartial(const std::string & s, const VD & e, const VD & v)
    {
        Curve c; c.x = e; c.y = v;
        if (s != "all other")
        {
            double b = get(binding, s);
            for (size_t i = 1; i < e.size(); i++)
            {
                if (c.x[i] < b) c.y[i] = 0.0;
                else if (c.x[i] == c.x[i - 1]) { c.x[i] += 1e-6; c.y[i - 1] = c.y[i]; }
            }
        }
        partial[s] = c;
    }
    double part(const std::string & s, double e) const
    {
        auto it = partial.find(s);
        if (s != "all other") { double b = get(binding, s); if (b <= 0 || e < b) return 0.0; }
        if (it == partial.end() || it->second.x.empty()) return 0.0;
        const Curve & c = it->second;
        if (s == "all other") return c.plain(e);
        size_t n = c.x.size();
        if (n == 1) return c.y[0];
        size_t i = std::lower_bound(c.x.begin(), c.x.end(), e) - c.x.begin();
        if (i < n && c.x[i] == e && c.y[i] > 0) return c.y[i];
        if (i == 0) i = 1;
        if (i == n) i = n - 1;
        if (c.y[i - 1] > 0) return c.y[i] > 0 ? loglog(c.x[i - 1], c.y[i - 1], c.x[i], c.y[i], e) : (e == c.x[i - 1] ? c.y[i - 1] : 0.0);
        // excited according to the binding energy, but the table starts above: extrapolate its start
        size_t k = i - 1;
        while (k < n && c.y[k] <= 0) k++;
        if (k >= n) return 0.0;
        if (k + 1 >= n) return c.y[k];
        return loglog(c.x[k], c.y[k], c.x[k + 1], c.y[k + 1], e);
    }
    MD muAt(double e) const
    {
        MD r; double ph = 0;
        for (auto & s : PHOTO()) { double p = part(s, e); r[s] = p; ph += p; }
        for (auto & k : {"coherent", "compton", "pair"})
        { Curve c; c.x = muE; c.y = mu.at(k); r[k] = c.plain(e); }
        r["energy"] = e; r["photoelectric"] = ph;
        r["total"] = ph + r["coherent"] + r["compton"] + r["pair"];
        return r;
    }
    double total(double e) const
    {
        return muAt(e)["total"];
    }
    double lineEnergy(const std::string & t) const
    {
        std::string to = t.size() == 4 ? t.substr(0, 2) : t.substr(0, 1), from = t.substr(t.size() - 2);
        double b = get(binding, from);
        return binding.at(to) - (b > 0 ? b : 0.003);
    }
    MD vacancies(double e) const
    {
        MD m = muAt(e), r;
        for (auto & s : PHOTO()) r[s] = m["photoelectric"] > 0 ? m[s] / m["photoelectric"] : 0.0;
        return r;
    }
    MD cascade(const MD & d) const
    {
        MD r;
        for (auto & s : SHELLS()) if (shells.count(s)) r[s] = get(d, s);
        for (size_t i = 0; i < 9; i++)
        {
            auto it = r.find(SHELLS()[i]);
            if (it == r.end() || it->second <= 0) continue;
            for (size_t j = i + 1; j < 9; j++)
                if (r.count(SHELLS()[j])) r[SHELLS()[j]] += it->second * shells.at(SHELLS()[i]).transferTotal(SHELLS()[j]);
        }
        return r;
    }
    MMD lines(const MD & d, bool casc = true, bool yield = true) const
    {
        MD v;
        if (casc) v = cascade(d);
        else for (auto & s : SHELLS()) if (shells.count(s)) v[s] = get(d, s);
        MMD r;
        for (auto & p : v)
        {
            const Shell & s = shells.at(p.first);
            for (auto & f : s.fluo())
            {
                double rate = f.second * p.second * (yield ? get(s.constants, "omega") : 1.0);
                if (rate > 0) { r[f.first]["rate"] = rate; r[f.first]["energy"] = lineEnergy(f.first); }
            }
        }
        return r;
    }
    // lines excited by one photon: "rate" per photoelectric event and "mu" including the photoelectric coefficient
    MMD factors(double e, double w = 1.0) const
    {
        MMD r = lines(vacancies(e));
        double ph = muAt(e)["photoelectric"];
        for (auto & l : r) { l.second["factor"] = l.second["rate"] * w; l.second["rate"] = l.second["factor"] * ph; }
        return r;
    }
    MD emitted(double e) const
    {
        MD r;
        for (auto & s : SHELLS())
        {
            auto it = shells.find(s);
            if (it == shells.end() || e <= binding.at(s) || get(it->second.constants, "omega") <= 0) continue;
            for (auto & f : it->second.fluo()) r[f.first] = lineEnergy(f.first);
        }
        return r;
    }
};

// ---- library read from a data directory -----------------------------------
struct Library {
    std::map<std::string, Element> el;
    VS order;

    Library()
    {
        for (auto & t : TABLE)
        {
            Element & e = el[t.symbol];
            e.name = t.symbol; e.longName = t.name; e.z = t.z; e.row = t.row; e.column = t.column; e.mass = t.mass;
            e.density = t.density > 1e-10 ? t.density / 1000.0 : 1.0;
            order.push_back(t.symbol);
        }
    }
    // the default (EADL97 / EPDL97) library
    void load(const std::string & d)
    {
        bindings(d + "/EADL97_BindingEnergies.dat");
        crossSections(d + "/EPDL97_CrossSections.dat");
        for (auto & m : {"K", "L", "M"})
        {
            constants(d + "/EADL97_" + m + "ShellConstants.dat");
            transitions(d + "/EADL97_" + m + "ShellNonradiativeRates.dat", false);
            transitions(d + "/EADL97_" + m + "ShellRadiativeRates.dat", true);
        }
    }
    static MD bindingRow(const Scan & s, size_t row)
    {
        MD b;
        for (size_t j = 1; j < s.labels.size(); j++)
        {
            std::string k = s.labels[j]; size_t p = k.find('(');
            b[k.substr(0, p)] = s.rows[row][j];
        }
        return b;
    }
    void bindings(const std::string & path)
    {
        std::vector<Scan> s = readSpec(path);
        for (auto & n : order)
        {
            // elements beyond the end of the table take its last row
            size_t z = el[n].z, N = s[0].rows.size();
            el[n].setBinding(bindingRow(s[0], z >= N ? N - 1 : z - 1));
        }
    }
    void constants(const std::string & path)
    {
        for (auto & s : readSpec(path))
        {
            std::string sub = subshell(s);
            for (auto & n : order)
            {
                Element & e = el[n];
                if ((size_t) e.z > s.rows.size() || !e.shells.count(sub)) continue;
                MD c;
                for (size_t j = 1; j < s.labels.size(); j++)
                {
                    std::string l = s.labels[j];
                    if (starts(l, "omega")) c["omega"] = s.rows[e.z - 1][j];
                    else if (l[0] == 'f') c[l] = s.rows[e.z - 1][j];
                }
                e.shells[sub].setConstants(c);
            }
        }
    }
    static std::string subshell(const Scan & s)
    {
        std::string l = s.labels.back();
        if (starts(l, "omega") || starts(l, "gamma")) { l = l.substr(5); if (l.size() && l[0] == 'A') l = l.substr(1); return l; }
        return l[0] == 'K' ? "K" : l.substr(0, 2);
    }
    void transitions(const std::string & path, bool radiative)
    {
        for (auto & s : readSpec(path))
        {
            std::string sub = subshell(s);
            for (auto & n : order)
            {
                Element & e = el[n];
                if ((size_t) e.z > s.rows.size() || !e.shells.count(sub) || e.binding[sub] <= 0) continue;
                VS l(s.labels.begin() + 1, s.labels.end());
                VD v(s.rows[e.z - 1].begin() + 1, s.rows[e.z - 1].end());
                if (radiative) e.shells[sub].setRad(l, v); else e.shells[sub].setNon(l, v);
            }
        }
    }
    void crossSections(const std::string & path)
    {
        std::vector<Scan> s = readSpec(path);
        for (auto & n : order)
        {
            Element & e = el[n];
            size_t k = std::min((size_t) e.z, s.size()) - 1;
            VD E, com, coh, ph; std::map<std::string, VD> sh;
            for (auto & r : s[k].rows)
            {
                E.push_back(r[0]); com.push_back(r[1]); coh.push_back(r[2]);
                double p = std::max(0.0, r[4] - r[1] - r[2]), sum = 0;
                for (int j = 0; j < 9; j++) { sh[SHELLS()[j]].push_back(r[5 + j]); sum += r[5 + j]; }
                double o = 0.0;
                if (p > 0) { if (r[14] > 0 && k > 17) o = std::max(0.0, p - sum); }
                else o = std::max(0.0, r[14]);
                sh["all other"].push_back(o);
                ph.push_back(sum + o);            // the photoelectric coefficient is the sum of its parts
            }
            e.setMu(E, ph, coh, com, VD());
            for (auto & q : sh) e.setPartial(q.first, E, q.second);
        }
    }
};
} // namespace ref
