#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("F01", "Spec-format files are read back exactly as written",
 "For every spec-format text file, the reader reports exactly the scans it contains, in file order, and for each scan the column labels (two-blank separated) and the numeric rows that were written. Line-ending style (LF or CRLF), a missing final newline, comments and blank lines between scans, reading another file before with the same reader, and the process locale never change what is returned. Asking for a scan that does not exist fails with an error instead of returning data, a file that does not exist contains no scans, and a scan whose rows differ in length is refused.",
 ["inputs", "histories"],
 "every file made of a bounded sequence of line tokens (scan headers, count/label/other headers, data rows, comments, blank lines) with each line ending, and every sequence of up to three file loads on one reader",
 "Four fixed files are read by the tests; nothing covers line orders, empty scans, files without trailing newline, or the reader being reused.",
 ["src/fisx_simplespecfile.cpp"],
 [("scan index and data parsing", "SimpleSpecfile::setFileName / getScanHeader / getScanLabels / getScanData")],
 ["SimpleSpecfile::getNumberOfScans/getScanHeader/getScanLabels/getScanData"])

prop("F02", "INI text is read back section by section, key by key",
 "For every INI-style text, the reader reports the sections in file order, the sub-sections of each section, and for every key of a section the value that the text assigns to it (continuation lines joined to the value, comments and surrounding blanks ignored), both for exact and for case-insensitive lookups. Typed readers split a value on its separators and return exactly the listed strings, integers or floating point numbers. Reading a second file with the same reader leaves nothing of the first one behind.",
 ["inputs", "histories"],
 "every text built from a bounded sequence of line tokens (section headers incl. dotted ones, assignments, continuation lines, comments, blanks), every lookup of present and absent names in both case modes, and every ordered pair of files",
 "No test reads an INI file at all.",
 ["src/fisx_simpleini.cpp", "src/fisx_simpleini.h"],
 [("line scanner and section index", "SimpleIni::readFileName / readSection / getSections / getSubsections"),
  ("typed value splitting", "SimpleIni::parseStringAsMultipleValues")],
 ["SimpleIni::getSections/getSubsections/readSection/getContents"])

prop("F03", "A configuration file sets up the same experiment as explicit calls",
 "Loading a PyMca-style configuration file leaves the calculator with the same beam, filters, sample layers, attenuators, detector, geometry and materials as the equivalent sequence of explicit set-up calls. Disabled entries (flag 0) are ignored and enabled ones are all taken, sample layers are taken in layer order, and each material carries exactly its own composition, density and thickness. The result depends only on the last file loaded, not on anything loaded or configured before.",
 ["inputs", "configurations", "histories"],
 "every configuration assembled from the bounded menu of attenuators, filters, user tables, sample layers, materials, detector, beam and geometry choices, and every ordered pair of loads on one calculator",
 "No test reads a configuration file.",
 ["src/fisx_xrfconfig.cpp", "src/fisx_xrf.cpp", "src/fisx_simpleini.cpp"],
 [("configuration interpretation", "XRFConfig::readConfigurationFromFile"), ("setters", "XRF::setBeam/.../setGeometry")],
 ["XRF getters after readConfigurationFromFile"])

prop("F04", "User transmission tables interpolate, clamp and reject atomically",
 "A transmission table answers every tabulated energy with its tabulated value, energies in between with the straight line between the two neighbours, and energies outside the range with the nearest end value; a repeated energy stands for a step 0.001 eV wide. An update that is refused (negative energy or transmission, mismatched lengths, energies not in ascending order, renamed table) leaves table, name and comment exactly as they were. Single and vector queries give the same numbers whatever was asked before.",
 ["inputs", "histories"],
 "every table over a small energy/transmission grid in every input order including repeated energies, every query energy on and between the grid, and every sequence of accepted and refused updates up to the depth bound",
 "One table with two points is tested; histories of updates, unsorted input and refusals are not.",
 ["src/fisx_transmissiontable.cpp"],
 [("table storage and lookup", "TransmissionTable::setTransmissionTable / getTransmission"), ("validation before assignment", "TransmissionTable::setTransmissionTable")],
 ["TransmissionTable::getTransmission/getTransmissionTable/getName/getComment"])

prop("F05", "Beams are normalised, energy-ordered and lose no ray",
 "However a beam is described (vectors in any order, scalars broadcast over the energies, a single energy), the stored beam lists exactly the given energies in ascending order, each with its own characteristic flag and divergency, and with weights that are the given weights divided by their sum. A description whose optional vectors have neither one value nor one per energy is refused, and a refused description leaves the stored beam unchanged.",
 ["inputs", "histories"],
 "every list of up to four rays over a small energy/weight grid in every order, with every legal and illegal length of the optional vectors, followed by every second description",
 "The tests only instantiate the classes; no beam is ever read back.",
 ["src/fisx_beam.cpp", "src/fisx_beam.h"],
 [("normalisation and ordering", "Beam::setBeam / Beam::normalizeBeam")],
 ["Beam::getBeamAsVectorOfVectors", "Beam::getBeam"])

prop("F06", "Chemical formulas decode to correct mass fractions",
 "Every well-formed chemical formula (element symbols with optional integer or decimal counts, parenthesised groups with optional counts, nested and adjacent) decodes to mass fractions proportional to count times atomic mass, which sum to one. Equivalent spellings (element order, expanded groups, explicit or implicit unit counts) give the same fractions. Text that is not a formula over known elements yields no composition, never a crash or a partial answer.",
 ["inputs"],
 "every formula generated by the grammar up to a token bound, every string over the formula alphabet up to a length bound, checked against an independent parser",
 "No test parses a formula; the string space is unbounded.",
 ["src/fisx_elements.cpp"],
 [("recursive formula parsing", "Elements::parseFormula / getCompositionFromFormula"), ("dispatch", "Elements::getComposition")],
 ["Elements::getComposition", "Elements::getCompositionFromFormula"])

prop("F07", "Material compositions stay normalised through every update history",
 "After any accepted update the composition of a material consists of exactly the given components with the given amounts divided by their total, so the fractions sum to one, components given twice being added up. Names, default density and thickness and comment are whatever was last set and invalid values (empty name, negative or inconsistent amounts) are refused. A refused update leaves the material exactly as it was.",
 ["inputs", "histories"],
 "every sequence of accepted and refused updates up to the depth bound, through both the map and the list interface",
 "No test looks at a material.",
 ["src/fisx_material.cpp"],
 [("normalisation", "Material::setComposition"), ("validation", "Material::setName / initialize")],
 ["Material::getComposition/getName/getDefaultDensity/getDefaultThickness/getComment"])

prop("F08", "Materials resolve to elements, and the material registry acts as a map",
 "The composition reported for any name is that of the element or formula, or else of the registered material (components that are themselves materials or formulas being expanded recursively with mass-fraction weighting), in elemental mass fractions that sum to one. Adding, replacing and removing materials behaves as a map from names to materials: the last definition wins when replacement is allowed, and is refused otherwise. A refused registration, and any lookup, leaves the registry unchanged; unknown or circularly defined names are reported as errors or as empty compositions and never hang or crash.",
 ["histories", "inputs"],
 "every sequence of registry operations up to the depth bound over a small set of element, formula and material names (including names that collide, nest and refer to each other), with all names looked up after every step",
 "No test registers a material.",
 ["src/fisx_elements.cpp", "src/fisx_material.cpp"],
 [("registry", "Elements::addMaterial / removeMaterial / removeMaterials / getMaterialIndexFromName"), ("resolution", "Elements::getComposition")],
 ["Elements::getComposition/getMaterialNames/getMaterial"],
 state=[("material list", "registered materials", "Elements::materialList")])

prop("F09", "The loaded library reproduces the physical data files",
 "For every element, the atomic data, binding energies, shell constants, radiative and non-radiative transition probabilities and mass attenuation tables reported by the library are those of the data files it was built from (transition rates normalised over each subshell). This holds for the default library, for the PyMca data set and for explicitly chosen files, and an explicitly replaced file affects exactly the quantities it describes. The PyMca library equals the default library after explicitly switching to the same files.",
 ["configurations", "inputs"],
 "every element times every subshell times every tabulated quantity, for every way of building the library, and every ordered pair of file replacements",
 "The elements tests are skipped-or-trivial because the cross-section file is absent, and no numeric datum is checked.",
 ["src/fisx_elements.cpp", "src/fisx_epdl97.cpp", "src/fisx_element.cpp", "src/fisx_shell.cpp", "src/fisx_defaultelementsinfo.h"],
 [("loaders", "Elements::initialize / setShellConstantsFile / setShellRadiativeTransitionsFile / setShellNonradiativeTransitionsFile / setMassAttenuationCoefficientsFile / loadData"), ("cross sections", "EPDL97::loadData")],
 ["Elements::getBindingEnergies/getShellConstants/getRadiativeTransitions/getNonradiativeTransitions/getMassAttenuationCoefficients(name)"])

prop("F10", "Element attenuation interpolates its table and honours absorption edges",
 "For every element and energy, the coherent, Compton and subshell photoelectric coefficients are the tabulated ones at tabulated energies and the log-log interpolation of the two bracketing entries in between (linear where an entry is zero), staying on the correct side of every absorption edge. The total equals the sum of the processes, and each subshell contributes to the photoelectric effect if and only if the energy is not below its binding energy. Scalar and vector queries in any order agree.",
 ["inputs"],
 "every element, every tabulated energy, every point between neighbouring entries, every binding energy and its immediate neighbours, plus user-supplied tables with repeated and edge energies",
 "No test evaluates a coefficient.",
 ["src/fisx_element.cpp", "src/fisx_epdl97.cpp", "src/fisx_elements.cpp"],
 [("interpolation", "Element::extractEdgeEnergiesFromMassAttenuationCoefficients / getMassAttenuationCoefficients / interpolation helpers"), ("partial cross sections", "EPDL97::getMassAttenuationCoefficients / getPartialPhotoelectricMassAttenuationCoefficients")],
 ["Elements::getMassAttenuationCoefficients", "Element::getMassAttenuationCoefficients", "EPDL97 queries"])

prop("F11", "Compound attenuation is the mass-weighted sum over its elements",
 "The attenuation coefficients of a formula, of a registered material, of an explicit composition or of a layer are, process by process and energy by energy, the sum of the elemental coefficients weighted with normalised mass fractions. The answer is the same whichever of these equivalent descriptions is used, for scalar and vector energies alike. It does not depend on the overall scale of the given amounts.",
 ["inputs", "configurations"],
 "every composition from a bounded menu of element subsets and amounts, through every equivalent description, at every energy of the menu (incl. edges)",
 "No test computes the attenuation of a compound.",
 ["src/fisx_elements.cpp", "src/fisx_layer.cpp", "src/fisx_xrf.cpp"],
 [("mixture rule", "Elements::getMassAttenuationCoefficients(map)/(name)"), ("layer dispatch", "Layer::getMassAttenuationCoefficients, XRF::getLayerMassAttenuationCoefficients")],
 ["Elements/Layer/XRF mass attenuation queries"])

prop("F12", "Answers never depend on earlier questions or on other objects",
 "Asking the library, a layer, a detector or a fluorescence calculator any question never changes the answer to any later question, whether put to the same object or to another one. Two users working with their own objects obtain the same results however their calls are interleaved. Repeating a question repeats the answer exactly.",
 ["histories", "schedules"],
 "every sequence of queries up to the depth bound from a menu covering all query kinds, and every interleaving of two independent clients' call scripts, compared with each query put to untouched objects",
 "Tests never ask two questions of the same object and compare.",
 ["src/fisx_epdl97.cpp", "src/fisx_elements.cpp", "src/fisx_element.cpp", "src/fisx_multilayer.cpp", "src/fisx_layer.cpp"],
 [("stateless look-up", "EPDL97::getInterpolationIndices"), ("transparent caches", "Element / Elements cache members")],
 ["all public query functions"])

prop("F13", "Cached element results are never stale",
 "With calculation or cascade caching in any state (enabled, disabled, filled, updated, cleared, in any order) every query returns what the same query returns without any caching. Changing the physical data of an element - attenuation tables, binding energies, shell constants, radiative or non-radiative transitions - takes effect on the next query in the same way. The reported cache size and enabled flags are those implied by the operations performed.",
 ["histories"],
 "every sequence of cache-control, data-changing and query operations up to the depth bound, each answer compared with a never-cached element given the same data",
 "No test enables a cache.",
 ["src/fisx_element.cpp", "src/fisx_elements.cpp"],
 [("calculation cache", "Element::fillCache / updateCache / clearCache / setCacheEnabled"), ("cascade cache", "Element::setCascadeCacheEnabled / fillCascadeCache / emptyCascadeCache"), ("invalidation", "Element setters")],
 ["Element::getMassAttenuationCoefficients/getXRayLinesFromVacancyDistribution/getCascadeModifiedVacancyDistribution/getCacheSize"],
 state=[("calculation cache", "coefficients per energy", "Element::muCacheMap"), ("cascade cache", "cascade vacancies per subshell", "Element::cascadeCache")])

prop("F14", "Cached detector escape results are never stale",
 "Whatever was cached before, the escape peaks returned for a detector or for a composition are those computed afresh for the current material, energy, incidence angle, thickness and thresholds. Changing any of these, or the physical data used, takes effect on the next query, unless the caller explicitly asks for the stored answer of a label. Switching the cache on or off never changes an answer.",
 ["histories"],
 "every sequence of cache control, parameter changes and queries up to the depth bound, each compared with fresh objects",
 "No test asks for an escape peak.",
 ["src/fisx_elements.cpp", "src/fisx_detector.cpp"],
 [("library escape cache", "Elements::getEscape / updateEscapeCache / setEscapeCacheEnabled / clearEscapeCache"), ("detector escape cache", "Detector::getEscape and its setters")],
 ["Elements::getEscape", "Detector::getEscape"],
 state=[("escape cache", "escape ratios per energy", "Elements::escapeCache / Detector::escapePeakCache")])

prop("F15", "Subshell de-excitation data form consistent probability tables",
 "For every subshell the radiative ratios sum to one whenever a transition exists, as do the Auger ratios and, separately for each receiving subshell, the Coster-Kronig ratios when no total is supplied, and each is proportional to the rate supplied. Fluorescence yield, Auger yield and Coster-Kronig yields reported for a subshell add up to one, each being what was supplied or derived from it. Radiative labels that do not belong to the subshell, unequal numbers of labels and values, and unknown constants are refused, and a refused update changes nothing.",
 ["inputs", "histories"],
 "every subshell, every subset of a transition menu with every rate assignment, every sequence of updates up to the depth bound, and all elements of the shipped tables",
 "No test touches subshell data.",
 ["src/fisx_shell.cpp", "src/fisx_element.cpp"],
 [("normalisation and derivation", "Shell::setRadiativeTransitions / setNonradiativeTransitions / setShellConstants / getAugerRatios / getCosterKronigRatios")],
 ["Shell and Element getters"])

prop("F16", "Vacancy cascades transfer vacancies exactly as the transition tables say",
 "The vacancy distribution after cascade equals the initial one plus, from the innermost subshell outwards, every vacancy moved by a radiative transition (fluorescence yield times ratio), by an Auger transition and by a Coster-Kronig transition to the subshells named in the transition. It is linear in the initial distribution and zero vacancies give zero. The emitted line rates are vacancies times fluorescence yield times radiative ratio, at an energy equal to the difference of the two binding energies.",
 ["inputs"],
 "every element and every initial single-subshell vacancy and every pair of subshells, with and without cascade and yield correction, plus user-defined elements over a menu of transition tables, against an independent cascade model",
 "No test computes a cascade.",
 ["src/fisx_element.cpp", "src/fisx_shell.cpp"],
 [("cascade", "Element::getCascadeModifiedVacancyDistribution / getFluorescenceLines / getXRayLinesFromVacancyDistribution / shell transfer ratios")],
 ["Elements/Element cascade and x-ray line queries"])

prop("F17", "Only energetically possible excitations and lines are reported",
 "A peak family is reported for an element and a beam energy if and only if it is a K, L or M subshell with a fluorescence yield and the energy exceeds its binding energy, with that binding energy, ordered by energy; for a mixture the families are those of its elements. Every reported emission line belongs to the element, has a positive rate, and its energy is the difference of its two subshells' binding energies. Raising the excitation energy never removes a family or a line.",
 ["inputs"],
 "every element, every binding energy and its neighbours as excitation energy, every single and pair of elements, formulas and layers",
 "No test asks for families or lines.",
 ["src/fisx_elements.cpp", "src/fisx_element.cpp", "src/fisx_layer.cpp", "src/fisx_xrf.cpp"],
 [("family selection", "Elements::getPeakFamilies, Layer/XRF::getPeakFamilies"), ("line listing", "Element::getEmittedXRayLines")],
 ["Elements::getPeakFamilies/getEmittedXRayLines", "XRF::getLayerPeakFamilies"])

prop("F18", "X-ray production factors follow from coefficients, cascade and yields",
 "The initial vacancy distribution at an energy is, for every subshell, its share of the photoelectric coefficient, and the shares never exceed one. The excitation factor of every line equals the photoelectric coefficient times the cascade-modified vacancies times yield times ratio, for each energy and weight given. Results for several energies are the results for the single energies.",
 ["inputs"],
 "every element, at every binding energy neighbourhood and a grid of energies, singly and in every ordered pair, against an independent computation from the tables",
 "No test computes an excitation factor.",
 ["src/fisx_element.cpp", "src/fisx_elements.cpp"],
 [("production", "Element::getPhotoelectricExcitedXRays / getInitialPhotoelectricVacancyDistribution, Elements::getExcitationFactors")],
 ["Elements::getExcitationFactors", "Elements::getInitialPhotoelectricVacancyDistribution"])

prop("F19", "Escape peaks are complete, positive and correctly placed",
 "For a detector material and photon energy, an escape peak is reported for exactly those fluorescence lines of the material whose production is energetically possible and whose escape ratio from a thick detector exceeds the requested threshold. Each lies at the photon energy minus the line energy, and its ratio is the analytic escape probability for the given incidence angle, per photon absorbed in the given thickness. Lowering the threshold only adds peaks and never invents peaks below zero energy.",
 ["inputs", "configurations"],
 "every detector material of the menu, energies around all its edges, angles, thicknesses and thresholds, against an independent formula",
 "No test computes an escape peak.",
 ["src/fisx_elements.cpp", "src/fisx_detector.cpp"],
 [("escape formula", "Elements::getEscape"), ("detector wrapper", "Detector::getEscape")],
 ["Elements::getEscape", "Detector::getEscape"])

prop("F20", "Layer transmission obeys Beer-Lambert with angle and fill factor",
 "The transmission of a layer is fill x exp(-mu x density x thickness / sin(angle)) plus the unfilled part, between zero and one, with the layer's own values or its material's defaults. Layer, calculator, scalar and vector forms, and every equivalent way of describing the material (element, formula, registered name, own material), agree. A layer lacking density, thickness or material is refused.",
 ["inputs", "configurations"],
 "every layer of the menu (material description, density, thickness, fill factor, explicit or default), every angle and energy of the menu",
 "No test computes a transmission of a layer.",
 ["src/fisx_layer.cpp", "src/fisx_xrf.cpp"],
 [("transmission", "Layer::getTransmission / XRF::getLayerTransmission"), ("defaults", "Layer::setMaterial / getDensity / getThickness")],
 ["Layer::getTransmission", "XRF::getLayerTransmission"])

prop("F21", "Geometric efficiency is the detector solid angle seen from each layer",
 "The geometric efficiency is half of one minus the cosine of the half-angle under which the detector of the given active area is seen, the distance being measured from the reference layer's surface and corrected by the depth of the other layers along the exit angle. It is one when no detector size is given, lies between zero and one half otherwise, does not depend on energies or materials, and is applied once per rate. Diameter and area are two views of the same detector size.",
 ["configurations", "histories"],
 "every combination of distance, area/diameter, exit angle, reference layer, layer stack and queried layer in the menu, and every sequence of detector size/distance updates up to the depth bound",
 "No test evaluates it.",
 ["src/fisx_xrf.cpp", "src/fisx_detector.cpp", "src/fisx_multilayer.cpp"],
 [("solid angle", "XRF::getGeometricEfficiency"), ("detector size", "Detector::setActiveArea / setDiameter / getActiveArea / getDiameter")],
 ["XRF::getGeometricEfficiency", "Detector getters"])

prop("F22", "Primary rates equal the fundamental-parameter sum",
 "For every set-up, the primary rate, energy, efficiency and overall rate of every requested line in every layer equal the sum over beam rays of beam-filter transmission, transmission through the layers above on the way in, production, self-absorption, transmission on the way out, attenuators, detector efficiency and optional solid angle and mass fraction. Lines that cannot be excited are absent, present lines have non-negative finite rates, and lines whose subshell is below an edge for one ray are still produced by the others.",
 ["configurations", "inputs"],
 "every set-up of a bounded menu (beams, filters, user tables, one to three sample layers, attenuators, detectors, angles incl. transmission geometry, options), compared with an independent implementation of the published formula",
 "The XRF tests only instantiate the class.",
 ["src/fisx_multilayer.cpp", "src/fisx_xrf.cpp"],
 [("multilayer sum", "XRF::getMultilayerFluorescence")],
 ["XRF::getMultilayerFluorescence"])

prop("F23", "Each requested line's result is independent of what else is requested",
 "The result for an element, family and layer is the same without and with secondary excitation when it is requested alone, together with any other requests in any order, for one layer or for all layers, and through every calling convention. Duplicate requests change nothing. Nothing is reported that was not requested, and asking for several families of an element returns each of them.",
 ["configurations", "histories"],
 "every subset and order of a bounded request menu, every layer selection and calling convention, without and with secondary excitation",
 "No test computes fluorescence.",
 ["src/fisx_multilayer.cpp", "src/fisx_xrf.cpp"],
 [("request decoding", "XRF::getMultilayerFluorescence overloads")],
 ["XRF::getMultilayerFluorescence"])

prop("F24", "Fluorescence superposes linearly over the beam and normalisations",
 "The rates for a beam of several energies are the weighted sum of the rates for each energy alone, whatever the order, duplication or scale of the rays, and an explicitly passed beam acts exactly like the configured one. With mass fractions on, every rate is the mass-fraction-free rate times the mass fraction in that layer; with solid angle on, it is multiplied by the geometric efficiency. Adding an empty or fully transparent filter or attenuator changes nothing.",
 ["configurations"],
 "every beam of up to three rays, option combination, and neutral addition over a menu of set-ups and secondary levels",
 "No test computes fluorescence.",
 ["src/fisx_multilayer.cpp", "src/fisx_beam.cpp"],
 [("beam loop and normalisation", "XRF::getMultilayerFluorescence")],
 ["XRF::getMultilayerFluorescence"])

prop("F25", "Secondary excitation equals the published enhancement integral",
 "The secondary rate of a line equals the sum, over all layers, elements and lines able to excite it, of the enhancement given by the double integral over depth and emission direction of the de Boer formalism, and each itemised contribution equals its own term. Contributions are non-negative, sources that cannot excite the line contribute nothing, and switching secondary excitation on never changes the primary rates.",
 ["configurations"],
 "every set-up of a bounded menu of one and multi-layer samples with exciting pairs, compared term by term with an independent numerical evaluation of the integral",
 "No test computes secondary excitation.",
 ["src/fisx_multilayer.cpp", "src/fisx_math.cpp"],
 [("intra and inter-layer enhancement", "XRF::getMultilayerFluorescence"), ("analytic integrals", "Math::deBoerL0 / deBoerX / deBoerV")],
 ["XRF::getMultilayerFluorescence secondary=1,2"])

prop("F26", "Splitting a layer into identical sublayers changes no total",
 "A homogeneous layer described as several adjacent layers of the same material whose thicknesses add up gives, summed over those layers, the same primary and secondary rate for every line as the single layer. The same holds for beam filters and attenuators, whose order is irrelevant. This is true wherever the layer is in the stack.",
 ["configurations"],
 "every stack of the menu, every layer, every split into two or three parts from the menu of ratios, every permutation of filters and attenuators",
 "No test computes fluorescence.",
 ["src/fisx_multilayer.cpp", "src/fisx_math.cpp", "src/fisx_layer.cpp"],
 [("depth integration", "XRF::getMultilayerFluorescence")],
 ["XRF::getMultilayerFluorescence"])

prop("F27", "Special functions match their mathematical definitions",
 "The exponential integral, its scaled combinations and the secondary-fluorescence integrals agree with their defining integrals to the documented accuracy over the whole argument domain, in particular on both sides of every internal switch of algorithm and at the switch itself. Results are finite and fail with an error outside the domain. Error function and related helpers obey their identities.",
 ["inputs"],
 "a logarithmic grid of arguments covering every branch, every branch point and its floating-point neighbours, and the product grid for multi-argument functions, against high-order quadrature and series in extended precision",
 "No test calls them.",
 ["src/fisx_math.cpp", "src/fisx_math.h"],
 [("series / continued fraction / rational approximation", "Math::E1 / En / deBoerD / deBoerX / deBoerL0 / deBoerV / erf")],
 ["Math static functions"])

prop("F28", "Tertiary excitation only adds, and is reported consistently",
 "Requesting tertiary excitation never changes primary or secondary rates of any line nor the set of reported layers and lines, and the tertiary rate is non-negative. The overall rate is always efficiency times the sum of primary, secondary and tertiary, less the part lost to detector escape peaks. Tertiary rates vanish whenever no secondary source can itself be enhanced.",
 ["configurations"],
 "every set-up and request of a bounded menu with 0, 1 and 2 steps of excitation, for every layer selection",
 "No test computes tertiary excitation.",
 ["src/fisx_multilayer.cpp"],
 [("tertiary loop", "XRF::getMultilayerFluorescence secondary=2")],
 ["XRF::getMultilayerFluorescence"])

prop("F29", "Objects handed over are copies, and failed changes leave no trace",
 "Elements, materials, layers, detectors, beams and tables handed to or obtained from another object are independent copies: later changes to one never show in the other. Any change that is refused with an error leaves the object answering every query as before.",
 ["histories", "fault_sequences"],
 "every pair of (hand-over, later mutation) from the menu, and every refused call of the menu after every accepted prefix up to the depth bound, with all observations compared",
 "No test hands objects over or provokes errors beyond one table.",
 ["src/fisx_elements.cpp", "src/fisx_xrfconfig.cpp", "src/fisx_xrf.cpp", "src/fisx_layer.cpp", "src/fisx_element.cpp", "src/fisx_detector.cpp"],
 [("value semantics", "Elements::addElement / getElementCopy / addMaterial / getMaterialCopy / XRF setters"), ("validate before assign", "all setters")],
 ["getters of every class"])

prop("F30", "The Python binding gives the C++ answers for every argument form",
 "Every method of the Python classes returns the same values as the underlying C++ call, for every accepted form of the same argument (str or bytes, scalar, list, tuple or array, keyword or positional, default or explicit). Text comes back as str at every nesting level. Invalid arguments and library errors surface as Python exceptions and never terminate the interpreter or change the object.",
 ["inputs", "programs"],
 "every public method of every bound class times every argument form of the menu, compared with the C++ program's answers",
 "Tests exercise four of the bound classes and only the import and instantiation of most.",
 ["python/cython/PyElements.pyx", "python/cython/PyXRF.pyx", "python/fisx/FisxCythonTools.py", "python/fisx/DataDir.py"],
 [("conversions", "toBytes / toString / toStringKeysAndValues"), ("exception translation", "*.pxd except + declarations")],
 ["fisx Python package"])

prop("F31", "Calculations running in parallel threads do not disturb each other",
 "Two threads that compute with their own objects at the same time, as the Python binding allows by releasing the interpreter lock, obtain exactly the results they obtain alone. This holds for every interleaving of their steps. No data is shared between independent objects in a way that lets one computation observe another.",
 ["schedules"],
 "all interleavings of two computations on separate objects up to the Mazurkiewicz equivalence induced by their shared-memory accesses, all accesses recorded from the instrumented real code",
 "All tests are single threaded.",
 ["src/fisx_epdl97.cpp", "src/fisx_multilayer.cpp", "src/fisx_elements.cpp", "python/cython/PyXRF.pyx"],
 [("no hidden shared state", "function-local statics and globals of the library")],
 ["results of concurrent XRF::getMultilayerFluorescence and library queries"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
