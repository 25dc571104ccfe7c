// Answers as bytes, exactly.
#pragma once
#include <cmath>
#include <cstring>
#include <map>
#include <string>
#include <vector>
#include "fisx_xrf.h"
// answers as bytes
struct Bytes { std::string s; };
inline Bytes & operator<<(Bytes & o, double v) { o.s += '\x01'; o.s.append((const char *) &v, sizeof v); return o; }
inline Bytes & operator<<(Bytes & o, int v) { return o << (double) v; }
inline Bytes & operator<<(Bytes & o, const std::string & v) { o.s += v; o.s += '|'; return o; }
inline Bytes & operator<<(Bytes & o, const char * v) { return o << std::string(v); }
template <class A, class B> inline Bytes & operator<<(Bytes & o, const std::pair<A, B> & p) { return o << p.first << p.second; }
template <class T> inline Bytes & operator<<(Bytes & o, const std::vector<T> & v) { o << (double) v.size(); for (auto & x : v) o << x; return o; }
template <class A, class B> inline Bytes & operator<<(Bytes & o, const std::map<A, B> & m) { o << (double) m.size(); for (auto & p : m) o << p.first << p.second; return o; }
inline Bytes & operator<<(Bytes & o, const fisx::Material & m) { fisx::Material k(m); return o << k.getName() << k.getComment() << k.getDefaultDensity() << k.getDefaultThickness() << k.getComposition(); }
inline Bytes & operator<<(Bytes & o, const fisx::Beam & b) { return o << b.getBeamAsDoubleVectors(); }
inline Bytes & operator<<(Bytes & o, const fisx::Layer & l) { return o << l.getName() << l.getMaterialName() << l.getDensity() << l.getThickness() << l.getFunnyFactor() << (int) l.hasMaterialComposition(); }

// equal texts, and numbers equal up to rounding
inline bool alike(const std::string & a, const std::string & b, double tol = 1e-11)
{
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); )
    {
        if (a[i] != b[i]) return false;
        if (a[i] != '\x01') { i++; continue; }
        double x, y; memcpy(&x, a.data() + i + 1, 8); memcpy(&y, b.data() + i + 1, 8); i += 9;
        if (!(x == y || (x != x && y != y) || std::fabs(x - y) <= tol * std::max(std::fabs(x), std::fabs(y)))) return false;
    }
    return true;
}
