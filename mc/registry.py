CHECKS = {
    "F02": {"src": ["F02.cpp"], "mode": "opt",
            "bounds": {"quick": "texts of 2..5 lines over 18 line kinds in LF and CRLF, 22 lookups in 2 case modes each; 3 loads; value lists of 1..4 of 9 items",
                       "thorough": "texts of 2..6 lines; 4 loads"}},
    "F01": {"src": ["F01.cpp"], "mode": "asan",
            "bounds": {"quick": "files of 2..5 lines over 9 line kinds x 4 line-ending variants; rows of 1..3 columns over 12 number formats; 1..3 labels of 8; 3 loads",
                       "thorough": "files of 2..7 lines; 1..4 labels"}},
    "F05": {"src": ["F05.cpp"], "mode": "asan",
            "bounds": {"quick": "all ray lists of length 0..3 over 4 energies x 3 weights with every optional-vector length, histories of 3 descriptions",
                       "thorough": "all ray lists of length 0..4, histories of 4"}},
    "F07": {"src": ["F07.cpp"], "mode": "opt",
            "bounds": {"quick": "component lists of length 0..3 over 4 names x 6 amounts, histories of 4 updates",
                       "thorough": "component lists of length 0..4, histories of 5 updates"}},
    "F04": {"src": ["F04.cpp"], "mode": "opt",
            "bounds": {"quick": "tables of up to 4 points over 6 energies x 5 values, histories of 4 updates",
                       "thorough": "tables of up to 5 points, histories of 5 updates"}},
    "F09": {"src": ["F09.cpp"], "mode": "opt", "data": True,
            "bounds": {"quick": "all 109 elements x 9 subshells; 14 constructor forms; all histories of 2 file replacements out of 20 (4 refused ones) on both libraries",
                       "thorough": "histories of 3 replacements"}},
    "F15": {"src": ["F15.cpp"], "mode": "opt",
            "bounds": {"quick": "9 subshells; label lists of length 0..3 over 8 radiative / 6 nonradiative labels x 3 rates x 3 interfaces; constant maps of up to 3 of 8; histories of 4 updates out of 9",
                       "thorough": "label lists of length 0..4, histories of 6"}},
    "F10": {"src": ["F10.cpp"], "mode": "opt", "data": True,
            "bounds": {"quick": "109 elements x 3 libraries at every node, 2 points of every gap, 5 points around every edge and beyond both ends; all tables over 8 grids of 1..6 nodes x 3 values per node x 9 edge positions at 19 energies; 109 library elements given a new table: 10 edge shifts x 5 first energies x 4 choices of edges, with and without pair production; table files with 6 column orders x 4 distributions of the pair column x 4 numbers of scans",
                       "thorough": "same, with every node of the 6-node grid varied"}},
    "F16": {"src": ["F16.cpp"], "mode": "opt", "data": True,
            "bounds": {"quick": "109 elements x 3 libraries x 22 initial distributions (every single subshell, adjacent pairs, all, none); 60 transition schemes x 3 sets of defined subshells x 3 radiative sets x 9 yield sets x 6 distributions",
                       "thorough": "every pair of subshells in the initial distribution"}},
    "F17": {"src": ["F17.cpp"], "mode": "opt", "data": True,
            "bounds": {"quick": "109 elements x 3 libraries at 5 energies around each of their edges; a third of the pairs of elements at 5 energies as list and formula; 4 mixtures and 9 layers (5 forms) at 16 energies",
                       "thorough": "all pairs of elements"}},
    "F18": {"src": ["F18.cpp"], "mode": "opt", "data": True,
            "bounds": {"quick": "109 elements x 3 libraries at 5 energies around each K, L and M edge, 4 weights, 3 weight vectors in 2 orders; 27 small elements x 243 sets of subshell shares x 2 yields at 13 energies",
                       "thorough": "same"}},
    "F06": {"src": ["F06.cpp"], "mode": "opt", "data": True,
            "bounds": {"quick": "all strings of 1..4 pieces out of 12 and of 1..4 characters out of 16; all sequences of 2..5 of 6 counted symbols and groups; all ordered pairs of the 109 symbols in 6 forms; all formula trees of up to 3 leaves and 2 levels of groups in 8 spellings; 20x20 counts in 5 places",
                       "thorough": "strings of 5 pieces or 5 characters, trees of 4 leaves and 3 levels"}},
    "F08": {"src": ["F08.cpp"], "mode": "opt", "data": True,
            "bounds": {"quick": "all histories of 3 out of 74 registry operations on 4 names (one colliding with an element), 8 names looked up after every step; all 8x8x8 definitions of three materials in terms of each other x 12 sets of materials handed over with the query; chains and rings of 1..40 definitions",
                       "thorough": "histories of 4 operations"}},
    "F11": {"src": ["F11.cpp"], "mode": "opt", "data": True,
            "bounds": {"quick": "3 libraries x subsets of 1..3 of 10 elements x 5 amounts (triples thinned) in 27 equivalent descriptions at 3 energies and both sides of the K, L3, M5 edges, ascending and descending; every third element singly; 13 refusals; configured materials",
                       "thorough": "all triples with all amounts, all elements"}},
    "F20": {"src": ["F20.cpp"], "mode": "opt", "data": True,
            "bounds": {"quick": "12 kinds of material description x 5 densities x 6 thicknesses x 5 fill factors x 10 angles x 6 energies in 14 forms of the query; histories of 3 of 8 updates",
                       "thorough": "histories of 4 updates"}},
    "F13": {"src": ["F13.cpp"], "mode": "opt", "data": True,
            "bounds": {"quick": "2 elements x 4 initial cache states x all histories of 3 of 32 operations (12 cache controls, 13 data changes, 6 refused changes, 1 irrelevant change), 24 kinds of query at 3 energies after the first and the last step; library level: 8 cache states x histories of 2 of 12 operations incl. exchanged files",
                       "thorough": "3 elements, histories of 4; library histories of 3"}},
    "F14": {"src": ["F14.cpp"], "mode": "opt", "data": True,
            "bounds": {"quick": "all histories of 4 cache operations (enable, disable, clear, fill for 9 configurations with 1..3 energies) with the cache on and of 3 with it off, 24 questions after each; histories of 3 data changes and fills; detector histories of 3 out of 13 operations in both library cache states, with and without a stored answer",
                       "thorough": "histories of 5, 4 data changes, detector histories of 4"}},
    "F19": {"src": ["F19.cpp"], "mode": "opt", "data": True,
            "bounds": {"quick": "2 libraries x 12 detector materials at 7 energies and at 3 points around each of the K, L1, L3, M1, M5 edges x 2..5 angles x 4 thicknesses x 5 thresholds; all 98 elements as detectors around the same edges",
                       "thorough": "6 angles for both libraries"}},
    "F22": {"src": ["F22.cpp"], "mode": "opt", "data": True,
            "bounds": {"quick": "5 beams x 8 samples of 1..4 and 12 layers x 5 geometries x 3 filter stacks x 3 user filters x 4 detectors (3 attenuator stacks, 2 user attenuators, flags and libraries in a Latin square), 10 requests each; 98 elements at both sides of and on every K, L, M edge in 2 matrices and 2 beams, 13 families each",
                       "thorough": "6 detectors, attenuators and mass-fraction flag multiplied, 3 matrices"}},
    "F27": {"src": ["F27.cpp"], "mode": "opt", "data": True,
            "bounds": {"quick": "40 points per decade of 1e-12..2000 of either sign and 17 points around 1 and 40, orders 1..6; 13^3 attenuation triples x 17 thicknesses x 2 densities inside a layer; 7^4 attenuations x 6^2 thicknesses x 3 separations from above and from below between layers; 6400 points of the error function",
                       "thorough": "200 points per decade, orders 1..12, 21 thicknesses, 4 separations"}},
    "F25": {"src": ["F25.cpp"], "mode": "opt", "data": True,
            "bounds": {"quick": "9 samples of 1..4 layers x 3 beams x 4 geometries x every layer x 5 requests; every layer of a sample of 12; 98 elements next to an eighth of the others and to those with the same initial letter; every itemised term (all source lines of all layers and coherent scattering) compared",
                       "thorough": "9 requests, 4 modes (mass fractions, source limit, library) multiplied; all ordered pairs of elements"}},
    "F23": {"src": ["F23.cpp"], "mode": "opt", "data": True,
            "bounds": {"quick": "3 set-ups x all ordered triples of 14 requests without and pairs with enhancement, in 5 calling forms, each compared with the request made alone; 98 elements x 10 families over all layers; 14 refusals",
                       "thorough": "quadruples without and triples with enhancement"}},
    "F24": {"src": ["F24.cpp"], "mode": "opt", "data": True,
            "bounds": {"quick": "3 set-ups x all sets of up to 4 (3 with enhancement) of 8 energies straddling the edges with 4 kinds of weights, order and duplication; 48 beams x 3 normalisations; 24 x 8 transparent changes",
                       "thorough": "all subsets, all kinds of weights"}},
    "F26": {"src": ["F26.cpp"], "mode": "opt", "data": True,
            "bounds": {"quick": "all stacks of 1..3 of 3 materials x each layer split in 3 of 6 ways x 3 beams x 3 geometries, totals of the split layer and of every neighbour; filters and attenuators: 6 partitions x 3 positions x 6 orders",
                       "thorough": "all 6 partitions, always with enhancement"}},
    "F28": {"src": ["F28.cpp"], "mode": "opt", "data": True,
            "bounds": {"quick": "10 samples x 3 beams x 3 detectors and geometries x 13 sets of requested lines",
                       "thorough": "all 63 sets of requested lines, with and without mass fractions"}},
    "F21": {"src": ["F21.cpp"], "mode": "opt", "data": True,
            "bounds": {"quick": "5 distances x 5 diameters x 7 exit angles x all samples of 1..3 layers over 4 thicknesses x every reference layer x both ways to give the size; samples of 4, 5, 6, 9 and 13 layers x 4 shapes x every reference layer; histories of 4 of 11 changes; 12 samples x 2 beams x 3 detectors x 3 orders of excitation x 2 normalisations x 2 sizes x 2 distances",
                       "thorough": "4 layers, histories of 5"}},
    "F03": {"src": ["F03.cpp"], "mode": "opt", "data": True,
            "bounds": {"quick": "4 beams x 7 samples x 4 sets of materials x 4 filter stacks x 2 attenuator stacks x 5 detectors x 4 sizes x 3 x 2 user tables (8 sets of omitted keys and 3 geometries in a Latin square); 9 spellings x 4480 configurations; histories of 3 of 18 loads, refused loads and explicit calls",
                       "thorough": "all omitted keys and geometries, histories of 4"}},
    "F31": {"src": ["F31.cpp"], "mode": "thr", "cxx": "clang++", "data": True, "libflags": ["-fsanitize=thread", "-D_GLIBCXX_EXTERN_TEMPLATE=0"], "flags": ["-rdynamic"],
            "technique": "stateless model checking of two real threads under a controlled scheduler, with conflict detection on every memory access (partial-order reduction)",
            "bounds": {"quick": "all ordered pairs of 12 programs with their own library and of 6 with a common one; every memory access of the library recorded; where accesses conflict, switches at 4 accesses of every conflicting place (at most 16) x 4 ways to switch back, for at most 450 s",
                       "thorough": "8 accesses per place, at most 400, x 9 ways to switch back"}},
    "F12": {"src": ["F12.cpp"], "mode": "opt", "data": True,
            "technique": "stateless exhaustive exploration: every history of questions and every interleaving of two users' calls, each in a fresh process, against the answers given alone",
            "bounds": {"quick": "45 questions x 3 cache settings x own or common library: all histories of 1 and 2 questions (an eighth followed by all questions to both users), all histories of 3 out of 13 questions with the first repeated; 36 pairs of 8 programs of 4 calls on own objects in all 70 interleavings",
                       "thorough": "every history followed by all questions, both addressees, histories of 4"}},
    "F29": {"src": ["F29.cpp"], "mode": "opt", "data": True,
            "technique": "stateless exhaustive exploration of hand-over histories (partial-order reduced) against a value-semantics model; refused changes after every short history",
            "bounds": {"quick": "40 hand-overs and changes over 11 objects: all histories of up to 3, up to the order of unrelated steps; 12 classes, 130 refused changes each after all histories of up to 2 accepted changes, once and twice",
                       "thorough": "histories of up to 4, refused changes after up to 3 accepted ones"}},
    "F30": {"src": [], "runner": "f30", "data": True,
            "technique": "explicit-state exploration of the real Python extension: all histories of changes x all argument forms, in lockstep with the C++ classes",
            "bounds": {"quick": "14 classes: every constructor, change and question in every form of every argument (up to 64 combinations, beyond that every pair of forms; positional, keyword, omitted defaults); histories of 2 changes; every argument replaced by 23 invalid values; 147 ways to open the library",
                       "thorough": "up to 512 combinations of forms, the second change in every form, all questions in every form after each"}},
}
NA = {}
