"""Builds a complete data directory for the library.

The repository does not ship EPDL97_CrossSections.dat, without which the library
cannot be instantiated.  A stand-in with the same layout is generated here: smooth
hydrogen-like cross sections with every absorption edge of the shipped EADL97
binding energies repeated, the way the original tabulates them.  All the other
files are those of the repository.

  gen_data.py REPO DIRECTORY
"""
import math, os, shutil, sys

SHELLS = ["K", "L1", "L2", "L3", "M1", "M2", "M3", "M4", "M5"]
OCC = {"K": 2, "L1": 2, "L2": 2, "L3": 4, "M1": 2, "M2": 2, "M3": 4, "M4": 4, "M5": 6}
EXPO = {"K": 2.9, "L": 2.8, "M": 2.7}
GRID = [0.05, 0.09, 0.15, 0.25, 0.4, 0.65, 1.0, 1.5, 2.0, 3.0, 4.0, 5.0, 6.0, 8.0, 10.0, 12.5, 15.0, 17.5,
        20.0, 25.0, 30.0, 40.0, 50.0, 65.0, 80.0, 100.0, 130.0, 170.0, 250.0, 400.0, 600.0]

def read_bindings(path):
    labels, rows = None, []
    for line in open(path):
        if line.startswith("#L"):
            labels = [x.split("(")[0] for x in line[2:].split()]
        elif line.strip() and not line.startswith("#"):
            rows.append([float(x) for x in line.split()])
    return labels, rows

def element(z, b):
    """rows of one element: energy compton coherent photoelectric total K..M5 other"""
    a = 2.3 * z if z > 1 else 1.0
    inner = [(s, b[s]) for s in SHELLS if b.get(s, 0) > 0]
    outer = [e for s, e in sorted(b.items()) if s not in SHELLS and e > 0]
    edges = sorted({e for _, e in inner if e > GRID[0]} | {e for e in outer if e > GRID[0]})
    pts = sorted(set(GRID) | set(edges))
    rows = []
    for e in pts:
        for above in ([False, True] if e in edges else [True]):
            def on(edge):
                return e > edge or (e == edge and above)
            part = {}
            for s, eb in inner:
                x = EXPO[s[0]]
                part[s] = 48.0 * z ** 0.15 / a * OCC[s] * 16.0 * eb ** (x - 1.0) / e ** x * 66.0 if on(eb) else 0.0
            oth = 0.0
            if z > 18:
                oth = sum(48.0 / a * 3.0 * 16.0 * eb ** 1.6 / e ** 2.6 * 66.0 for eb in outer if on(eb))
            coh = 0.9 * z ** 1.5 / a / (1.0 + (e / (0.6 * z ** 0.6)) ** 1.7) + 1e-6
            com = 0.4 * z / a * (e / (e + 1.1 * z ** 0.7)) / (1.0 + e / 450.0)
            photo = sum(part.values()) + oth
            # what the library gets back from the printed digits is what counts
            v = [e, com, coh, photo, photo + coh + com] + [part.get(s, 0.0) for s in SHELLS] + [oth]
            rows.append(v)
    return rows

def make(repo, directory):
    os.makedirs(directory, exist_ok=True)
    src = os.path.join(repo, "fisx_data")
    for f in sorted(os.listdir(src)):
        if f.endswith(".dat") and f != "EPDL97_CrossSections.dat":
            shutil.copy(os.path.join(src, f), os.path.join(directory, f))
    labels, rows = read_bindings(os.path.join(src, "EADL97_BindingEnergies.dat"))
    names = ["PhotonEnergy[keV]", "Compton(incoherent)[cm2/g]", "Rayleigh(coherent)[cm2/g]", "Photoelectric[cm2/g]",
             "TotalWithCoherent[cm2/g]"] + ["%s[cm2/g]" % s for s in SHELLS] + ["AllOther[cm2/g]"]
    out = ["#F EPDL97_CrossSections.dat", "#U00 Synthetic stand-in: smooth cross sections, EADL97 edges", ""]
    for i, r in enumerate(rows):
        b = {l: v for l, v in zip(labels[1:], r[1:])}
        out += ["#S %d Z=%d" % (i + 1, i + 1), "#N %d" % len(names), "#L " + "  ".join(names)]
        for v in element(i + 1, b):
            out.append(repr(v[0]) + "  " + "  ".join("%.9g" % x for x in v[1:]))
        out.append("")
    with open(os.path.join(directory, "EPDL97_CrossSections.dat"), "w") as f:
        f.write("\n".join(out))

if __name__ == "__main__":
    make(sys.argv[1], sys.argv[2])
