#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (python3 tools/gen_manifest.py)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = "cosmic_profiles/common/cosmic_base_class.pyx"
PY = "cosmic_profiles/common/python_routines.py"
CF = "cosmic_profiles/common/config.py"
CT = "cosmic_profiles/common/cosmo_tools.py"
CA = "cosmic_profiles/common/caching.py"
HC = "cosmic_profiles/cython_helpers/helper_class.pyx"
DA = "cosmic_profiles/dens_profs/dens_profs_algos.pyx"
DC = "cosmic_profiles/dens_profs/dens_profs_classes.pyx"
DT = "cosmic_profiles/dens_profs/dens_profs_tools.py"
SA = "cosmic_profiles/shape_profs/shape_profs_algos.pyx"
SC = "cosmic_profiles/shape_profs/shape_profs_classes.pyx"
ST = "cosmic_profiles/shape_profs/shape_profs_tools.py"
GF = "cosmic_profiles/gadget/read_fof.py"
GC = "cosmic_profiles/gadget/gen_catalogues.pyx"
GG = "cosmic_profiles/gadget/readgadget.py"
GS = "cosmic_profiles/gadget/readsnap.py"
MH = "cosmic_profiles/mock_tools/mock_halo_gen.py"

TRUST = ("Generated-input search, no proof: the claim is about the cases generated (counts and samples in the evidence file). Trusts numpy, scipy and the float64 "
         "reference models in vlib/ref.py; cases whose answer hinges on rounding are skipped and counted.")

P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe, technique, note, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                  mech=[{"name": n, "where": w} for n, w in mech], observe=observe, technique=technique, note=note, state=state))


prop("P01", "Unit systems: results are the same physics in whatever units are set",
     "What the user hands over is taken in the In unit system, and every length, mass, density and velocity returned is in the Out unit system, so stating the same data in "
     "other In units or asking for other Out units only rescales results by the ratio of the units, also when the units are changed after an object was made. The converters "
     "between In, Out and internal units are exact inverses of one another and multiply by the ratio of the units in cm, g and cm/s. A name that is not a unit is refused "
     "with an error, and the units set before stay in force.",
     ["inputs", "configurations", "histories"],
     "all pairs of In and Out unit systems (lengths, masses, velocities, with and without h, and numeric multiples), all h, all scenes, unit changes before and after construction",
     "The tests run in two fixed unit systems and never compare results between systems.",
     [CF, B, DC, SC], [("unit converters", CF), ("conversion at construction", DC), ("conversion of results to Out units", B)],
     ["return values of every get*/est*/fit* method", "the converters of the config module"],
     "property-based testing: algebraic laws of the converters and metamorphic rescaling of whole analyses",
     "Covers densities, centres, masses, shapes, R200, concentrations and fits of the both front ends.")
prop("P02", "Inventory: objects kept, their order, and which selections are accepted",
     "Exactly the objects with at least the required number of particles are kept, in the order given, each with its own particles and R200. Positions, masses, R200 values and "
     "index lists come back from the getters as handed over. A selection that is empty or contains negative, repeated, fractional or out-of-range object numbers is refused with "
     "an error by every analysis method, while any order of valid numbers is accepted and answered in that order.",
     ["inputs"], "all catalogues (any sizes, empty, thresholds), all selections given as lists or arrays",
     "The tests use one catalogue with one threshold and valid selections only.",
     [B, DC, PY, SC], [("resolution cut", DC), ("selection check", PY)], ["getIdxCat, getR200, getXYZ, getMasses, getObjInfo output", "exceptions of the analysis methods"],
     "property-based testing against a list-based model of the inventory; error-path generation", "")
prop("P03", "Objects do not influence one another",
     "The results for an object depend on its own particles, mass, R200 and the settings only: they are bit-identical whichever other objects are in the catalogue or in the "
     "selection, in whatever order, whatever other particles exist, and however many threads compute them.",
     ["inputs", "schedules", "configurations"], "all catalogues and sub-catalogues, all selections and orders, 1 to 8 threads, all analysis settings",
     "The tests run one catalogue once; buffers shared between objects or threads go unseen.",
     [B, DA, SA], [("per-thread buffers of the shape loop", SA), ("per-object loops of the density profiles", DA)],
     ["shape catalogues, density profiles, masses and centres"],
     "metamorphic property-based testing: the same object alone and in company, bit for bit, under varied thread counts",
     "Thread schedules are sampled by varying the number of threads and the number of objects, not enumerated.")
prop("P04", "Results do not depend on the history of calls",
     "Any sequence of calls on one or several live analysis objects gives each call the result it gives when it is the first call on a fresh object, bit for bit. No call "
     "modifies the arrays, lists or dictionaries the user handed over, and modifying a returned array does not alter later results.",
     ["histories"], "all sequences of public calls (up to eight) on up to two instances, with repeated calls, tampering with results, and plotting in between",
     "The tests call each method once per object in one order.",
     [B, CA, DC, SC], [("array cache", CA), ("in-place work on member arrays", DC)], ["return values of every public method", "the user's own arrays"],
     "stateful property-based testing: call histories against a fresh instance per call", "")
prop("P05", "Masses and centres of objects",
     "The mass of an object is the sum of the masses of its particles, and its centre is the centre of mass or, if asked for, the densest point found by shrinking a sphere "
     "by 17 per cent around the centre of mass until fewer than five particles are left. Objects straddling the faces of a periodic box are put together first, and the centre lies in the box.",
     ["inputs"], "all objects less than half a box in extent, any position, any masses, periodic or not, any units, any particle order",
     "The tests look at one object away from the faces of the box.",
     [DA, PY], [("unwrapping", PY), ("centre of mass and mode", PY), ("masses and centres loop", DA)], ["getMassesCenters"],
     "differential property-based testing against a float64 reference", "")
prop("P06", "Translation invariance in the periodic box",
     "Shifting all particles by any vector, wrapping them back into the periodic box, moves the centres by that vector and leaves density profiles and shapes as they are.",
     ["inputs"], "all scenes and shift vectors, in particular those that put objects across faces, edges and corners of the box",
     "The tests have no periodic variation; only an arbitrary shift brings an object onto a face.",
     [PY, HC, DA, SA], [("unwrapping", PY), ("nearest image about the centre", HC)], ["getMassesCenters, estDensProfs, getShapeCatLocal/Global"],
     "metamorphic property-based testing", "")
prop("P07", "Spherical density profiles by direct binning",
     "The value at each radius is the mass of the object's particles within the spherical shell around that radius (edges half way between neighbouring radii, from the centre to the "
     "last radius, in units of R200) divided by the volume of the shell. The shells add up to the mass inside the outermost radius.",
     ["inputs"], "all objects, centres, periodicities, sets of radii (also a single one), units",
     "The tests compare a smooth halo with an analytic curve by eye or to a few per cent.",
     [DA, HC, B], [("shell binning", DA), ("getDensProfsSphDirectBinning", B)], ["estDensProfs(direct_binning=True, spherical=True)"],
     "differential property-based testing against a float64 reference and mass conservation", "")
prop("P08", "Ellipsoidal density profiles follow the shape of the object",
     "The value at each radius is the mass of the particles between consecutive ellipsoids, whose axes and axis ratios are interpolated from the object's own local shape profile, "
     "divided by the volume in between. Rotating an object leaves its ellipsoidal profile as it is, and too few radii are refused with an error.",
     ["inputs"], "all objects with a converged shape profile, ellipsoid- and shell-based, reduced or not, any orientation, any units",
     "The tests only check that a plot is produced for one halo.",
     [DA, B], [("ellipsoidal shells", DA), ("interpolation of the shape profile", DA)], ["estDensProfs(direct_binning=True, spherical=False)"],
     "differential property-based testing against a float64 reference fed with the package's shape profile; rotations", "The shape profile itself is decided by P12.")
prop("P09", "Kernel-based density profiles",
     "The kernel-based value at each radius is the sum over the object's particles of their masses times a normalised Gaussian kernel averaged over the sphere of that radius, "
     "with a width growing with the square root of the particle's distance from the centre (Reed et al. 2005). The profile is additive in the particles and its volume integral is the mass.",
     ["inputs"], "all objects, centres, periodicities, radii, units, particles at the centre included",
     "The tests exercise one halo and check no value.", [DA, HC, B], [("kernel estimator", DA)], ["estDensProfs(direct_binning=False)"],
     "differential property-based testing against a float64 reference; integral and additivity laws", "")
prop("P10", "Density profile models and fits",
     "The Einasto, NFW, Hernquist and (alpha, beta, gamma) profiles are the textbook ones. A fit returns the parameters that minimise the mean squared logarithmic residual, in Out "
     "units, keeps the parameters given by the user exactly, treats missing radii and empty bins as missing (a profile with nothing in it is not converged), scales with the density, and flags objects that could not be fitted. Unknown profiles, "
     "fields, minimisers and inconsistent selections are refused.",
     ["inputs", "configurations"], "all four models, all subsets of fixed parameters, all minimisers, all units, noise-free and noisy profiles with gaps",
     "The tests fit one halo with one model and check that the call returns.",
     [DT, B, PY], [("models and objective", DT), ("unit conversion of fixed parameters", B)], ["fitDensProfs", "the model functions"],
     "property-based testing: recovery of generating parameters, optimality against an independent optimiser, metamorphic relations",
     "Powell's poor minima on noise-free profiles are a known finding; other minimisers decide recovery.")
prop("P11", "Concentrations",
     "The concentration of an object is its R200 divided by the scale radius of the best fit of its profile, a pure number that does not depend on the unit systems, and for profiles "
     "made with a known concentration that number comes back, also end to end from sampled particles.",
     ["inputs", "configurations"], "all four models, units, fixed parameters, catalogues; sampled NFW and Hernquist halos",
     "The tests print one concentration.", [DT, B], [("concentrations", B)], ["estConcentrations"],
     "property-based testing: differential against the fit, recovery, unit invariance, sampled halos", "")
prop("P12", "Local shapes at each radius: the Katz-Dubinski iteration",
     "At each requested radius the axis ratios q and s, the three principal axes and the radius are those of the fixed-point iteration on the (optionally reduced) mass-weighted shape "
     "tensor of the particles inside the ellipsoid, or homoeoidal shell, of that radius about the object's centre. A radius with too few particles or too many iterations is reported as "
     "not converged (NaN in every field) without touching its neighbours.",
     ["inputs", "configurations"], "all objects, radii, tolerances, iteration limits, minimum particle numbers, reduced or not, ellipsoid or shell, periodic or not, units",
     "The tests compare one mock halo with its known shape to a loose tolerance.",
     [SA, HC, B], [("ellipsoid and shell iteration", SA), ("shape tensor", HC)], ["getShapeCatLocal"],
     "differential property-based testing against an independent float64 implementation", "")
prop("P13", "Global shapes of whole objects",
     "The global shape is the same iteration applied to the particles within R200 plus a generous fixed margin (6 Mpc/h) of the object's centre; for an object deep "
     "inside that radius it is the shape of the plain second-moment tensor of all its particles.",
     ["inputs", "configurations"], "all objects, tolerances, iteration limits, reduced or not, periodic or not, units",
     "The tests only check that the call works for one halo.", [SA, B], [("global morphology", SA)], ["getShapeCatGlobal"],
     "differential property-based testing against an independent float64 implementation", "")
prop("P14", "Every shape is a proper ellipsoid, covariant, and recovers known shapes",
     "Every converged shape has 0 < s <= q <= 1 and unit, mutually orthogonal axes. Rotating, reflecting, rescaling or mass-rescaling an object rotates the axes and leaves q and s alone. "
     "A cloud drawn from a known ellipsoid gives back its axis ratios and orientation within the sampling error.",
     ["inputs"], "all objects and rigid motions including axis-aligned ones, all settings, ellipsoids of any axis ratio",
     "The tests have one object in one orientation.", [SA, HC], [("eigen-decomposition and axes", SA)], ["getShapeCatLocal, getShapeCatGlobal"],
     "metamorphic property-based testing, invariants, statistical recovery", "")
prop("P15", "Shapes of the velocity dispersion tensor",
     "The velocity shapes of a halo are the same iteration with the tensor made of velocities relative to the halo's mean velocity, the ellipsoid staying in position space. "
     "A boost, a reflection or a rescaling of all velocities leaves the axis ratios alone, and known dispersions are recovered.",
     ["inputs", "configurations"], "all Gadget halos, local and global, reduced or not, ellipsoid or shell, boosts, scales, particle types",
     "The tests call these methods without checking values.", [SA, SC, B], [("velocity dispersion morphology", SA), ("public velocity methods", SC)],
     ["getShapeCatVelLocal, getShapeCatVelGlobal"], "differential and metamorphic property-based testing", "")
prop("P16", "Snapshots in all Gadget formats are read as they were written",
     "Positions, velocities, masses, identifiers and the header read from a snapshot equal what was written, for formats I, II and HDF5, single or multiple files, single or double "
     "precision, any set of particle types and both ways of storing masses, converted with the units of the file.",
     ["inputs", "configurations"], "all formats, precisions, file splits (files lacking a type included), particle types, mass tables",
     "The tests read one HDF5 snapshot.", [GG, GS, SC], [("block reader", GG), ("header and block finder", GS)], ["the snapshot reader", "getXYZ, getMasses, getVelXYZ, getHeader of the Gadget classes"],
     "round-trip property-based testing with an independent snapshot writer", "")
prop("P17", "Halos and galaxies from group catalogues; both front ends agree",
     "An object of a group catalogue consists of exactly the particles of its group's central subhalo, of the type asked for, with the group's R200, groups without one and too small ones left out. "
     "Analysing a snapshot gives the same numbers as handing the same particles and index lists over directly.",
     ["inputs", "configurations"], "all group/subhalo/fuzz layouts, empty groups, types with and without particles, split catalogues, units, thresholds",
     "The tests have one tiny catalogue.", [GF, GC, SC, DC], [("index catalogue", GC), ("group catalogue reader", GF)], ["getIdxCat, getR200, getObjInfo, every analysis of the Gadget classes"],
     "property-based testing with generated group catalogues against a list model; differential between front ends", "")
prop("P18", "Dumped shape catalogues",
     "Dumping writes, for exactly the objects selected and at the destination asked for, the same axis ratios, axes, radii, centres and masses the getters return, in Out units, and reading "
     "them back later gives those numbers. A dump of one selection, setting or unit system does not answer a request for another. A dump that fails half-way, whichever file it was writing, leaves nothing that later calls take for a catalogue.",
     ["inputs", "histories", "configurations", "crash_points"], "all objects, selections, settings, units, local/global/velocity dumps, existing and missing, absolute and relative destinations; failures at every file operation, full disks",
     "The tests dump once and read nothing back.", [B, SC], [("dump and reuse", B)], ["files in the catalogue destination", "getShapeCat* after a dump"],
     "round-trip property-based testing; histories with a second request; fault injection at each file operation and full-disk runs", "The second sentence is broken by the current tree (known finding, reported on every run).")
prop("P19", "Caching returns what the function returns and forgets the oldest first",
     "A cached function returns for every argument list, arrays and lists included, what the function itself returns, with the dtype and shape it had, whichever calls came before and from "
     "however many threads. At most the stated number of results (or amount of memory) is kept, the least recently used is forgotten first, and the counters add up.",
     ["histories", "inputs", "schedules"], "all call histories over small key sets, cache sizes, typed/untyped keys, arrays differing in content, shape or dtype, 1 to 8 threads",
     "The tests never look at the caches.", [CA], [("LRU cache", CA), ("array argument hashing", CA)], ["the cache decorators, cache_info, cache_clear"],
     "stateful property-based testing against a model LRU; multi-threaded stress with invariants", "Thread schedules are sampled, not enumerated.")
prop("P20", "Mock halos contain what was asked for",
     "A mock halo has the requested mass profile and number of particles in ellipsoidal shells of the requested axes, isotropic within each shell, with shell number and mass set by the model's density, "
     "and analysing it gives back the density, mass, axis ratios and orientation put in. Inconsistent arguments are refused.",
     ["inputs"], "all four models, axis-ratio profiles, resolutions, numbers of shells, single shells and ellipsoids",
     "The tests generate two mock halos and compare loosely.", [MH, PY], [("halo generator", MH), ("shell and ellipsoid sampling", PY)], ["genHalo", "the uniform samplers"],
     "property-based testing: exact counts and geometry, statistical tests at 1e-9 levels, end-to-end recovery", "")
prop("P21", "Statistics, mass bins and geometric helpers",
     "Splitting objects by mass puts each in exactly one of at most the requested number of bins, ascending, equally filled, with matching edges, centres and indices; averages per bin are means or medians with the standard or bootstrap error of the mean, "
     "missing values left out. Chi-square and Kolmogorov-Smirnov tests give the textbook statistics and p-values. Evenly distributed surface points lie on their ellipsoid, shells are nested, particles within a fraction of R200 are exactly those closer than that, and numbers in scientific notation are typeset with their value.",
     ["inputs"], "all masses, bin numbers, samples (empty ones included), ellipsoids, scenes, exponents",
     "The tests do not touch these tools.", [CT, PY, ST], [("mass bins, averages, tests", CT), ("geometry, typesetting", PY), ("profile averages", ST)], ["the functions of the helper modules"],
     "property-based testing against independent formulas", "The quartile band of medians is not claimed (see DESIGN.md).")
prop("P22", "Plots show the objects selected and land where asked",
     "Every plotting method saves its figures under their documented names in the destination, which is created if missing, for exactly the selected objects. Histograms show the projected ellipticity "
     "of second moments (all particles, or those within a fraction of R200) and the triaxiality at the converged radius nearest to the depth asked for; profile plots show medians, overall and per mass bin, in Out units, with the fitted model. "
     "Pictures of objects show their particles in one piece around the centre with the ellipsoid of their shape.",
     ["inputs", "configurations"], "all scenes, selections, bins, depths, units, destinations (existing, missing, nested, relative)",
     "The tests call the plotting methods and look at nothing.", [ST, SC, DT, B], [("histograms and shape plots", ST), ("object pictures", SC), ("density plots", DT)],
     ["files written", "contents of the figures at the moment they are saved"],
     "property-based testing: figure contents against reference values computed independently or with the checked getters", "")
prop("P23", "Several MPI processes: rank 0 gets what a single process gets",
     "However many MPI processes run a script, and however the files of a group catalogue fall to them, every analysis gives rank 0 exactly the results, dumped catalogues and figures a single process gets, "
     "and no process fails, hangs or duplicates the output.",
     ["inputs", "schedules", "configurations"], "1 to 5 ranks, 1 to 12 catalogue files (some empty, fewer or more than ranks), all calls of both front ends",
     "The tests run in a single process.", [GF, SC, DC, B, GG], [("catalogue files split over ranks, gathered and broadcast", GF), ("rank guards of the front ends", SC), ("rank guards of the base classes", B)],
     ["results on rank 0, files written, failures on any rank"],
     "property-based differential testing: worlds of MPI processes fed generated cases against a single process, bit for bit", "Up to five ranks on one machine.")

prop("P24", "How the data are stored does not matter",
     "Results depend on the numbers handed over, not on how they are stored: positions, masses, R200, velocities, radii, profiles, catalogues and selections as single, double, extended or byte-swapped floats, "
     "in C or Fortran order, strided, unaligned, read-only or subclassed arrays, as lists or arrays of any integer type, and settings as Python or NumPy scalars give bit-identical results, and none of them is changed.",
     ["inputs"], "all scenes with values exactly representable in every type used; every argument of the constructors and of each analysis, fit and halo generation",
     "The tests always pass C-ordered float64 arrays and nested lists.", [B, SC, DC, PY, MH], [("argument conversion", SC), ("argument conversion", DC), ("selections", PY)],
     ["all public calls of the direct front end, mock halo generation"], "metamorphic property-based testing: the same case in two representations, bit for bit",
     "Representations refused with an error (tuples as selections, lists for positions, masked arrays) are not claimed.")
prop("P25", "Damaged or incomplete snapshots are refused, never misread",
     "Reading a snapshot or group catalogue that was cut short at any byte, whose file is missing, empty or something else, whose block markers, particle counts or data sets are inconsistent, "
     "either raises an exception or returns exactly the data that were written; it never returns invented, repeated or uninitialised numbers and never ends the program as if it had succeeded.",
     ["inputs", "fault_sequences"], "all formats (Gadget I/II/HDF5), precisions, byte orders, numbers of files, types and blocks; truncation at every region of the file, lost, emptied and replaced files, altered markers and counts, lost and shortened data sets",
     "The tests read intact files only.", [GG, GS, GF], [("block reader", GS), ("HDF5 reader", GG), ("group catalogues", GF)], ["the snapshot readers, DensShapeProfsGadget"],
     "fault-injecting property-based testing against the data written by an independent writer",
     "Bytes flipped inside the numbers themselves cannot be told from data, and missing files in the middle of a set of group catalogues are not claimed.")
prop("P26", "Degenerate and extreme data still end with a proper answer",
     "For objects of any shape whatever (single points, duplicates, pairs, lines, planes, lattices, needles, shells, cubes, far outliers, one overwhelming mass) every analysis returns, in finite time: total masses, centres inside the object, "
     "non-negative mass-conserving densities, ordered axis ratios between 0 and 1 with orthonormal axes where converged and NaN where not, and nothing is changed or crashes.",
     ["inputs"], "families of degenerate geometries and mass distributions, both centre definitions, all settings, units and periodic boxes",
     "The tests use one well-behaved mock halo.", [B, SA, HC, DC, DT], [("shape iteration", SA), ("linear algebra", HC), ("profiles", DT)], ["all analyses of the direct front end"],
     "property-based testing of invariants on degenerate geometry generators", "Ellipsoidal densities are not judged here (ellipsoids that are not nested can give negative differences).")
prop("P27", "Senseless settings are refused without a trace, omitted ones use defaults",
     "Every public call refuses settings that make no sense - shape configurations that lack an entry, hold something that is no boolean or no list of radii; fit methods that are no dictionary, name an unknown profile or minimiser or a parameter the profile "
     "does not have; profiles whose number differs from that of the objects; particles and masses of different number; catalogues that are no lists; unknown particle types, radius definitions and paths - with an exception, writes nothing, and the object "
     "answers as before. Every documented setting is taken, and one that is left out has its documented default.",
     ["inputs"], "all public calls of both front ends with configurations, methods and constructor arguments broken in one way each; all profiles, subsets of fixed parameters and minimisers; calls with and without the documented defaults",
     "The tests hand over complete and valid settings only.", [PY, SC, DC, B, GF], [("checkKatzConfig, checkDensFitMethod", PY), ("public methods", SC), ("public methods", DC)],
     ["all public calls"], "property-based testing of refusals (generated invalid settings) and of the equivalence with documented defaults",
     "Settings the package neither documents nor refuses (other centre names, numbers out of range) are not claimed.")


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            a = {"files": p["files"], "mechanism": p["mech"], "observe_at": p["observe"], "hook_needed": None}
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["qtext"]},
                                "why_tests_cant": p["why"], "anchors": a}) + "\n")
    m = {"version": 1, "setup_cmd": "python3 vlib/build.py", "checks": [], "not_applicable": [],
         "notes": "One driver, run.py, for all checks; each check rebuilds what /repo's current tree needs (out of /repo), runs its sub-checks in eight processes, shrinks failures with Hypothesis and "
                  "writes a replay file (python3 run.py <id> --replay <file>). No hooks in /repo. known_findings.jsonl lists findings and fixes."}
    for p in P:
        m["checks"].append({"property": p["id"], "quick_cmd": "python3 run.py %s --tier quick" % p["id"], "thorough_cmd": "python3 run.py %s --tier thorough" % p["id"],
                            "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"], "level": "exploration", "level_note": (p["note"] + " " + TRUST).strip()})
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
