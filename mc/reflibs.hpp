// The three libraries most checks look at, next to their reference.
#pragma once
#include "ref.hpp"
#include "fisx_elements.h"
#include <cstdlib>
static std::string D;
static ref::Library * REF[3] = {nullptr, nullptr, nullptr};       // default, other binding energies, PyMca (without its cross sections)
static fisx::Elements * LIB[3] = {nullptr, nullptr, nullptr};
static const char * LIBNAME[3] = {"default", "other binding energies", "PyMca"};
inline void initLibraries(int n = 3)
{
    D = getenv("FISX_MC_DATA");
    REF[0] = new ref::Library(); REF[0]->load(D);
    LIB[0] = new fisx::Elements(D);
    if (n < 2) return;
    ref::Library * b = new ref::Library(); b->bindings(D + "/BindingEnergies.dat"); b->crossSections(D + "/EPDL97_CrossSections.dat");
    for (auto & m : {"K", "L", "M"})
    {
        b->constants(D + "/EADL97_" + m + "ShellConstants.dat");
        b->transitions(D + "/EADL97_" + m + "ShellNonradiativeRates.dat", false);
        b->transitions(D + "/EADL97_" + m + "ShellRadiativeRates.dat", true);
    }
    REF[1] = b; LIB[1] = new fisx::Elements(D, D + "/BindingEnergies.dat");
    if (n < 3) return;
    ref::Library * p = new ref::Library(*b);
    for (auto & m : {"K", "L", "M"})
    { p->constants(D + "/" + m + "ShellConstants.dat"); p->transitions(D + "/" + m + "ShellRates.dat", true); }
    REF[2] = p; LIB[2] = new fisx::Elements(D, (short) 1);
}
