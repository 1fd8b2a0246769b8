#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements are
readable and diffable)."""
import json
import os

P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": ["python/lsst/skymap/" + f for f in files],
            "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
            "mechanism": [{"name": a, "where": b} for a, b in mech],
            "observe_at": list(observe),
            "hook_needed": None,
        },
    })


ALLMAPS = ["baseSkyMap.py", "cachingSkyMap.py", "dodecaSkyMap.py", "equatSkyMap.py", "discreteSkyMap.py",
           "ringsSkyMap.py", "healpixSkyMap.py"]

prop("C01", "Tract ids are positions: len, iteration, indexing and id agree",
     "Iterating over any sky map yields exactly len(skymap) tracts with ids 0, 1, ..., len-1 in that order, and "
     "skymap[i] for such an i is the tract with id i. "
     "An index at or beyond len(skymap) raises IndexError, and so does a negative index on the sky maps that "
     "build their tracts on request (discrete, rings, healpix).",
     ["inputs", "configurations", "histories"],
     "every sky map type, every configuration (any number of tracts), every integer index, every access order",
     "Tests index a few tracts of a few configurations, and cannot run without the compiled LSST libraries.",
     ALLMAPS,
     [("CachingSkyMap.__getitem__/__iter__/__len__", "cachingSkyMap.py"),
      ("BaseSkyMap.__getitem__/__iter__/__len__", "baseSkyMap.py"), ("generateTract of each map", "*SkyMap.py")],
     observe=["skymap[i].getId()", "len(skymap)", "list(skymap)"])

prop("C02", "A tract does not depend on which other tracts were built or queried",
     "The tract obtained for a given index reports the same box, WCS, number of patches, patches and patch indices "
     "whatever other tracts (of the same or of another sky map) were built or queried before, in between or "
     "afterwards. Asking twice for the same index gives the same tract.",
     ["histories", "configurations"],
     "every interleaving of tract accesses and tract queries, for every configuration",
     "A test samples one access order; interference between tracts needs tracts of different size and a particular "
     "order of construction and query.",
     ["tractInfo.py", "tractBuilder.py", "cachingSkyMap.py", "baseSkyMap.py"],
     [("TractInfo.__init__ takes its own tract builder", "tractInfo.py"),
      ("BaseTractBuilder.setupPatches stores the grid", "tractBuilder.py"),
      ("CachingSkyMap cache indexed by tract", "cachingSkyMap.py")],
     state=[("patch grid", "number of patches and tract box of the tract that the builder was set up for",
             "tractBuilder.py BaseTractBuilder.setupPatches")])

prop("C03", "Queries never change a sky map, tract, patch, cell or packer",
     "No query (any public method, operator or property of a constructed sky map, tract, patch, cell, WCS factory or "
     "dimension packer) changes what any later query on any of these objects returns. "
     "In particular repeated calls with the same arguments return equal results, in any order.",
     ["histories"],
     "every sequence of public calls after construction",
     "Conceptual immutability is a statement about all call sequences; tests call each method once.",
     ALLMAPS + ["tractInfo.py", "patchInfo.py", "cellInfo.py", "tractBuilder.py", "packers.py",
                "detail/wcsFactory.py"],
     [("memo cells written only while empty", "baseSkyMap.py getSha1, cachingSkyMap.py __getitem__, packers.py "
       "unpack")])

prop("C04", "Returned boxes, extents, lists and arrays are not internal state",
     "A caller may modify any box, point, extent, list or array that a public accessor of a sky map, tract, patch, "
     "cell or dodecahedron returned, without changing what any of these objects later reports.",
     ["histories", "inputs"],
     "every accessor, every modification of its result",
     "Tests do not modify results; whether a result aliases internal storage is a property of the code, not of a "
     "sample.",
     ["tractInfo.py", "patchInfo.py", "cellInfo.py", "tractBuilder.py", "ringsSkyMap.py", "baseSkyMap.py",
      "detail/dodecahedron.py"],
     [("accessors return copies or immutable values", "getBBox, getInnerBBox, getOuterBBox, "
       "getPatchInnerDimensions, getCellInnerDimensions, getVertexList, getFaceCtr")])

prop("C05", "The identity hash depends on every configuration parameter",
     "Two sky maps of the same type and tract-builder type whose configurations differ in any parameter (of the sky "
     "map or of its active tract builder) feed different byte strings to their identity hash, and sky maps of "
     "different type feed different type names. "
     "Every parameter enters without loss of range or precision, and no two parameter sets are encoded alike.",
     ["configurations"],
     "all pairs of configurations of every sky map type and tract builder",
     "A test compares a handful of pairs; a parameter left out of the hash makes different sky maps compare equal.",
     ALLMAPS + ["tractBuilder.py"],
     [("BaseSkyMap.getSha1", "baseSkyMap.py"), ("getPackedConfig", "tractBuilder.py"),
      ("updateSha1", "each *SkyMap.py")],
     observe=["skymap.getSha1()", "skymap == other"])

prop("C06", "The identity hash of a given configuration is stable across releases",
     "For a given sky map type and configuration the bytes that are hashed are always the same: type name, then the "
     "packed tract-builder and common parameters, then the type-specific parameters, in the fixed little-endian "
     "layout with which sky maps are already registered. "
     "They depend on nothing else (process, access history, object identity), and the default values of the "
     "configuration parameters and the registered names are unchanged.",
     ["configurations", "histories"],
     "every configuration of every sky map type, any history of the object",
     "Tests compare the digest of one configuration per type.",
     ALLMAPS + ["tractBuilder.py", "skyMapRegistry.py"],
     [("struct formats", "tractBuilder.py, *SkyMap.py"), ("BaseSkyMap.getSha1", "baseSkyMap.py")])

prop("C07", "Sky map equality and hash() are one relation, defined by the identity hash",
     "Two sky maps are equal exactly when their identity hashes are equal, != is always the negation of ==, and "
     "equal sky maps have equal hash(). "
     "Comparing with an object that is not a sky map gives unequal and never raises; likewise patches and cells "
     "compare by index and boxes, and unequal to other types.",
     ["inputs", "histories"],
     "all pairs of sky maps (whether or not their hash was computed before) and all foreign objects",
     "Contracts over all pairs and histories.",
     ["baseSkyMap.py", "patchInfo.py", "cellInfo.py"],
     [("__eq__/__ne__/__hash__", "baseSkyMap.py"), ("__eq__/__ne__", "patchInfo.py, cellInfo.py")])

prop("C08", "Pickling a sky map restores an equivalent sky map",
     "Unpickling the pickle of any sky map gives a sky map of the same type with the same configuration, software "
     "version, tracts and identity hash, whatever was queried before pickling. "
     "State written by an incompatible later version (2, 0) or above of the eager sky maps is refused with "
     "RuntimeError.",
     ["configurations", "histories"],
     "every sky map type, configuration and version; any history before pickling",
     "Tests pickle one configuration per type, at one version.",
     ["cachingSkyMap.py", "dodecaSkyMap.py", "equatSkyMap.py", "discreteSkyMap.py", "ringsSkyMap.py",
      "healpixSkyMap.py", "baseSkyMap.py"],
     [("__reduce__ and constructor signatures", "cachingSkyMap.py and subclasses"),
      ("__getstate__/__setstate__", "dodecaSkyMap.py, equatSkyMap.py")])

prop("C09", "findTract of sky maps without their own rule returns the nearest center",
     "On sky maps that do not define their own tract lookup (equatorial, discrete), findTract returns the tract "
     "whose center has the smallest angular separation from the coordinate, taken over all tracts of the map; among "
     "equally distant centers it returns the lowest id, and it never raises for a non-empty map.",
     ["inputs", "configurations"],
     "all coordinates and all configurations",
     "Tests look up tract centers and nearby points only.",
     ["baseSkyMap.py"], [("BaseSkyMap.findTract", "baseSkyMap.py")])

prop("C10", "Array tract lookup agrees with scalar lookup",
     "For all arrays (or scalars) of RA and Dec, in radians or with degrees=True in degrees, findTractIdArray "
     "returns for every element the id of the tract that findTract returns for that coordinate, in order; this "
     "includes the vectorized version of the rings sky map, for both of its software versions.",
     ["inputs", "configurations"],
     "all coordinates, both units, all configurations, both versions of the rings sky map",
     "Tests compare random points for a few ring counts; boundaries, poles, wraparound and version 0 need specific "
     "inputs.",
     ["baseSkyMap.py", "ringsSkyMap.py"],
     [("BaseSkyMap.findTractIdArray", "baseSkyMap.py"),
      ("RingsSkyMap.findTractIdArray / findTract", "ringsSkyMap.py")])

prop("C11", "Rings tract numbers run south to north and invert the lookup",
     "In a rings sky map (version 1) tract 0 is the south cap, tract len-1 the north cap, and in between the tracts "
     "are numbered ring by ring from south to north and eastward from raStart within a ring, so that the number "
     "that the lookup computes for (ring, position) is decoded to the same (ring, position). "
     "Version 0 keeps its historical numbering. Tract numbers outside the map are refused with IndexError.",
     ["inputs", "configurations"],
     "every ring count, every tract number, both versions",
     "Tests sample a few ring counts.",
     ["ringsSkyMap.py"],
     [("RingsSkyMap.getRingIndices", "ringsSkyMap.py"), ("RingsSkyMap.findTract", "ringsSkyMap.py")])

prop("C12", "Rings inner regions partition the sphere and match the lookup",
     "The inner RA/Dec ranges of the tracts of a rings sky map meet exactly: consecutive tracts of a ring share an RA "
     "boundary (with wraparound), consecutive rings and the caps share a Dec boundary, and together they span the "
     "sphere. "
     "The boundaries at which the tract lookup switches tract are these same boundaries, the tract center is the "
     "middle of its range, and the inner sky region of a tract is the box of its range.",
     ["inputs", "configurations"],
     "every ring count and raStart, every tract, every coordinate (in exact arithmetic)",
     "Tests sample points; an offset between lookup and regions shows only near boundaries.",
     ["ringsSkyMap.py", "tractInfo.py"],
     [("getRaDecRange", "ringsSkyMap.py"), ("_decToRingNum/_raToTractNum", "ringsSkyMap.py"),
      ("generateTract", "ringsSkyMap.py")])

prop("C13", "Rings division: ring size and number of tracts per ring",
     "A rings sky map with N rings has rings of height 180/(N+1) degrees, the caps being half rings; every ring is "
     "divided into the smallest number of tracts greater than its circumference, at its declination nearest the "
     "equator, divided by the ring height, so that no tract is wider than it is high. "
     "len(skymap) is the sum over the rings plus two.",
     ["configurations"], "every ring count", "Tests check one or two ring counts.",
     ["ringsSkyMap.py"], [("RingsSkyMap.__init__", "ringsSkyMap.py")])

prop("C14", "Region searches visit every candidate tract and report the right patches",
     "findTractPatchList reports every tract of the map that has patches for the coordinates (rings: every tract "
     "found to contain one of them), each once, together with exactly that tract's findPatchList for all the "
     "coordinates; findClosestTractPatchList does so for the tract nearest to each coordinate. "
     "A rings findAllTracts returns only tracts that contain the coordinate, and considers the tract that findTract "
     "returns, its neighbours in the adjacent rings and both caps, with wraparound in RA.",
     ["inputs", "configurations"],
     "all coordinate lists and configurations",
     "Tests use tract centers; wraparound and ring-edge candidates need specific coordinates.",
     ["baseSkyMap.py", "ringsSkyMap.py"],
     [("findTractPatchList, findClosestTractPatchList", "baseSkyMap.py, ringsSkyMap.py"),
      ("findAllTracts", "ringsSkyMap.py")])

prop("C15", "Patch inner boxes tile the tract exactly",
     "The tract box starts at (0, 0) and its size is the number of patches times the patch inner size in x and in y, "
     "the number of patches being the smallest that covers the minimum tract box. "
     "The inner box of patch (x, y) is the inner-size box at (x, y) times the inner size, so that the inner boxes "
     "cover the tract box without gap or overlap, for both tract builders.",
     ["inputs", "configurations"],
     "all tract sizes, inner sizes and patch indices, both tract builders",
     "Tests sample sizes; off-by-one errors depend on divisibility.",
     ["tractBuilder.py", "tractInfo.py"],
     [("setupPatches", "tractBuilder.py"), ("getPatchInfo", "tractBuilder.py")])

prop("C16", "Patch outer boxes are the inner boxes plus the border",
     "With the legacy builder the outer box of a patch is its inner box grown by the patch border on every side and "
     "clipped to the tract box; with the cell builder it is grown by (cells in border x cell size + cell border) "
     "and not clipped. "
     "The border that tract and builder report is that same border, and outer always contains inner.",
     ["inputs", "configurations"], "all configurations and patch indices", "Tests sample configurations.",
     ["tractBuilder.py", "patchInfo.py"], [("getPatchInfo", "tractBuilder.py")])

prop("C17", "Cells tile the patch and its border",
     "A patch of the cell builder has (inner cells + 2 x border cells) cells in x and in y; cell (i, j) has the cell "
     "inner size, starts at the patch inner corner plus (i, j) minus the border cells, times the cell size, and its "
     "outer box is its inner box grown by the cell border. "
     "Hence cell inner boxes tile the patch inner box grown by the border cells, and the cells' outer boxes span "
     "exactly the patch outer box. Patches of the legacy builder have no cells and refuse every cell index.",
     ["inputs", "configurations"], "all cell configurations and cell indices", "Tests sample one configuration.",
     ["patchInfo.py", "cellInfo.py", "tractBuilder.py"], [("PatchInfo.getCellInfo", "patchInfo.py")])

prop("C18", "Sequential patch and cell indices are a row-major bijection",
     "For patches within a tract and cells within a patch, the sequential index of (x, y) is nx*y + x, the conversion "
     "back is its inverse, and the object looked up by pair, by Index2D or by sequential index is the same and "
     "reports that index. "
     "Iteration visits the objects in increasing sequential index, once each, and len is nx*ny.",
     ["inputs", "configurations"], "all grid sizes, all indices, all index forms",
     "Square grids, which tests use mostly, hide exchanged axes.",
     ["tractBuilder.py", "tractInfo.py", "patchInfo.py"],
     [("getSequentialPatchIndex*, getPatchIndexPair", "tractBuilder.py"),
      ("getSequentialCellIndex*, getCellIndexPair", "patchInfo.py"), ("__iter__/__len__", "tractInfo.py, "
      "patchInfo.py")])

prop("C19", "Out-of-range patch and cell indices raise IndexError, in-range ones do not",
     "Looking up a patch of a tract or a cell of a patch by Index2D, by pair or by sequential index, or with [], "
     "raises IndexError exactly when the index lies outside the grid on either side of either axis. "
     "The sequential-index conversions of cells raise IndexError in the same cases.",
     ["inputs", "configurations"], "all integer indices in all forms, both builders",
     "Tests try a few indices just outside, on one axis.",
     ["tractBuilder.py", "tractInfo.py", "patchInfo.py"],
     [("range checks", "tractBuilder.py getPatchInfo, patchInfo.py getCellInfo")])

prop("C20", "findPatch returns the patch containing the coordinate or raises LookupError",
     "findPatch returns the patch whose inner box contains the pixel nearest the coordinate's position if that pixel "
     "lies in the tract box, and raises LookupError otherwise, also if the coordinate cannot be projected or "
     "projects to a non-finite position; no other exception escapes. "
     "contains is true exactly when findPatch returns.",
     ["inputs", "configurations", "fault_sequences"],
     "all coordinates, including those the projection refuses or maps to NaN",
     "Failure of the projection depends on projection and coordinate; tests hit few.",
     ["tractInfo.py"], [("TractInfo.findPatch/contains", "tractInfo.py")])

prop("C21", "findPatchList returns every patch that the coordinates' box can touch",
     "findPatchList returns exactly the patches whose inner boxes meet the bounding box of the projected coordinates "
     "grown by the patch border and clipped to the tract box, including those at its lower and upper edges, and "
     "nothing if that box is empty. "
     "Coordinates that cannot be projected are skipped and never raise.",
     ["inputs", "configurations", "fault_sequences"],
     "all coordinate lists, including unprojectable coordinates",
     "Tests use small boxes well inside a tract.",
     ["tractInfo.py"], [("TractInfo.findPatchList", "tractInfo.py")])

prop("C22", "The tract box covers vertices and overlap, and the WCS moves with it",
     "The tract box contains the pixel positions of all tract vertices extended by half the tract overlap in a full "
     "circle of directions (for tracts given by center and radius: of the points at radius plus overlap in the four "
     "cardinal directions), enlarged as needed but never shrunk on any side by the fit to whole patches. "
     "The WCS of the tract is the initial WCS with its pixel origin shifted by exactly the amount by which that box "
     "was moved to (0, 0).",
     ["inputs", "configurations"], "all tracts of all configurations",
     "Tests check sample maps at loose tolerance.",
     ["tractInfo.py", "tractBuilder.py"],
     [("_minimumBoundingBox", "tractInfo.py"), ("_finalOrientation", "tractInfo.py"),
      ("setupPatches", "tractBuilder.py")])

prop("C23", "Configured angles, scale, rotation and projection apply in documented units",
     "Pixel scale (arcsec), rotation (deg), overlap (deg) and projection, and the per-type coordinates, radii, "
     "declination range and starting RA (deg), are applied in these units to every tract's WCS and geometry; WCS "
     "reference coordinate is the tract center (equatorial maps: the center RA at Dec 0), unflipped. "
     "The tract reports the configured overlap and that center, and a projection code that does not have three "
     "characters is refused.",
     ["configurations"], "every configuration of every sky map type",
     "Tests check a few defaults; a unit slip is invisible for zero or default values.",
     ALLMAPS + ["detail/wcsFactory.py", "tractInfo.py"],
     [("WcsFactory", "detail/wcsFactory.py"), ("constructors and generateTract", "*SkyMap.py")])

prop("C24", "On-sky regions are built from the matching box, WCS and vertices",
     "Every inner (outer) sky polygon of a patch or cell is the polygon of the four corners of the full pixel extent "
     "of its inner (outer) box, in order, through the WCS given or else the tract WCS; the outer polygon of a tract "
     "is that of its box through its WCS. "
     "The inner sky region of a tract is the box of its inner corners where it has them, otherwise the convex hull "
     "of all its vertices.",
     ["inputs", "configurations"], "all tracts, patches and cells; WCS given or not",
     "Tests compare areas and sample points.",
     ["detail/utils.py", "tractInfo.py", "patchInfo.py", "cellInfo.py"],
     [("makeSkyPolygonFromBBox", "detail/utils.py"), ("get*Sky*", "tractInfo.py, patchInfo.py, cellInfo.py")])

prop("C25", "Butler registration is complete, consistent and atomic",
     "Registering a sky map writes, in one transaction, one sky map record (name, identity hash, number of tracts, "
     "largest patch counts in x and y), and if that was newly inserted one record for every tract and one for every "
     "patch of every tract with its tract id, sequential index, x and y and outer sky region, and then stores the "
     "sky map itself under that name. "
     "If the sky map record already existed no tract or patch record is written, and a conflicting definition is "
     "reported as such.",
     ["inputs", "configurations", "fault_sequences"],
     "every sky map, any number of tracts and patches, failure at any step",
     "Needs a repository; tests register one small map once.",
     ["baseSkyMap.py"], [("BaseSkyMap.register", "baseSkyMap.py")])

prop("C26", "Packed data ids are bounded, unique and unpack to the original",
     "For every data id within the packer's bounds (and band integers that are distinct), pack gives an integer in "
     "[0, 2**maxBits) that no other data id maps to, and unpack returns the original tract, patch and, if packed, "
     "band, also when band integers are not 0, 1, 2, ... in order. "
     "Later changes to the mapping passed in do not matter.",
     ["inputs", "configurations"], "all data ids, sizes and band mappings",
     "Tests pack one or two data ids.",
     ["packers.py"], [("_pack/unpack/maxBits", "packers.py")])

prop("C27", "Data ids that cannot be packed are refused",
     "pack raises ValueError for a tract or patch that is negative or not below the number reserved, for a band that "
     "is not in the mapping, and for a band whose integer is negative or not below the number of bands reserved; it "
     "never returns an integer for them, and it raises for nothing else.",
     ["inputs", "configurations"], "all data ids and configurations",
     "Tests try a few values.",
     ["packers.py"], [("_pack", "packers.py")])

prop("C28", "Packer configuration: dimensions, sizes and default band numbers",
     "The packed dimensions include band exactly when the number of bands is not zero, explicitly given dimensions "
     "must be consistent with that or ValueError is raised, and tract and patch counts not given come from the sky "
     "map record (patches: product of the x and y maxima). "
     "from_config passes on every configured value, and without a mapping the built-in band numbers are used, which "
     "never change for an existing band.",
     ["configurations"], "all combinations of constructor arguments and configuration values",
     "Tests cover three combinations.",
     ["packers.py"], [("SkyMapDimensionPacker.__init__/from_config/SUPPORTED_FILTERS", "packers.py")])

prop("C29", "Every sky map and tract builder is registered and complete",
     "Every concrete sky map type and tract builder of the package is registered under its own fixed name, can be "
     "built from its configuration class through the registry, and implements every operation that the shared code "
     "calls on it (tract generation, hash contribution, packed configuration, patch lookup), with compatible "
     "arguments.",
     ["configurations", "programs"], "every registered name, every operation of the common interface",
     "Tests reach each type through its own test case only.",
     ["skyMapRegistry.py", "tractBuilder.py"] + ALLMAPS,
     [("skyMapRegistry", "skyMapRegistry.py"), ("tractBuilderRegistry", "tractBuilder.py")])

prop("C30", "Invalid configurations are refused",
     "Validation refuses: lists of RA, Dec and radius of different length (discrete), cell dimensions that are not "
     "two equal integers, patch dimensions or declination ranges that do not have two values, a ring count that is "
     "not positive and a starting RA outside [0, 360); it accepts all others of these, and always also applies the "
     "checks that the configuration class inherits. "
     "The older names for patch size and border set and read the legacy tract builder's values.",
     ["configurations"], "all configuration values",
     "Tests try one invalid value for some.",
     ["baseSkyMap.py", "tractBuilder.py", "discreteSkyMap.py", "ringsSkyMap.py", "equatSkyMap.py"],
     [("validate methods and field checks", "*.py")])

prop("C31", "Properties and getters of the same quantity agree",
     "On tracts, patches and cells every read-only property (such as inner_bbox, outer_bbox, wcs, index, "
     "sequential_index, num_patches, patch_border, tract_id, ctr_coord, vertex_list, inner_sky_polygon) returns the "
     "same as the getter of the same name, each object reports exactly what it was built with, and tract "
     "quantities equal those of its builder.",
     ["inputs"], "every tract, patch and cell",
     "An exchanged pair (inner/outer, x/y) is invisible on symmetric samples.",
     ["tractInfo.py", "patchInfo.py", "cellInfo.py"], [("property aliases", "tractInfo.py, patchInfo.py, "
                                                                            "cellInfo.py")])

prop("C32", "HEALPix tracts: lookup, centers and corners use one pixelization",
     "In a HEALPix sky map the tract lookup, the tract centers and the tract corners use the same number of sides "
     "(2**log2NSide), the same ordering and the same angle convention, and the number of tracts is the number of "
     "pixels for it. The two coordinate conversions are inverse to each other.",
     ["inputs", "configurations"], "all coordinates, orders and both orderings",
     "Tests use one order and ordering.",
     ["healpixSkyMap.py"], [("findTract, generateTract, HealpixTractInfo", "healpixSkyMap.py"),
                            ("angToCoord, coordToAng", "healpixSkyMap.py")])

prop("C33", "Equatorial tracts divide the band without gap or overlap",
     "An equatorial sky map of n tracts has tract i span RA [i, i+1] x 360/n degrees and exactly the configured Dec "
     "range, with its four vertices in order around that region and its center in the middle; consecutive tracts "
     "share a boundary and the last ends where the first begins.",
     ["configurations"], "every number of tracts and Dec range",
     "Tests sample defaults.",
     ["equatSkyMap.py"], [("EquatSkyMap.__init__", "equatSkyMap.py")])

prop("C34", "Dodecahedral tracts: lookup index, center and vertices refer to the same face",
     "A dodecahedral sky map has 12 tracts; tract i is centered on face i of one dodecahedron, oriented as "
     "configured, with the vertices of that face, and the lookup returns the tract of the face whose center is "
     "nearest to the coordinate.",
     ["inputs", "configurations"], "both orientations, all coordinates",
     "Tests look up face centers.",
     ["dodecaSkyMap.py", "detail/dodecahedron.py", "detail/utils.py"],
     [("DodecaSkyMap.__init__/findTract", "dodecaSkyMap.py"), ("Dodecahedron.getFaceInd/getFaceCtr",
                                                               "detail/dodecahedron.py")])

prop("C35", "Every operation of the package is well linked",
     "Every name, attribute, imported object and call in the package refers to something that exists, with arguments "
     "that it accepts, so that no public operation fails with NameError, AttributeError, ImportError or a TypeError "
     "for its call signature; everything exported exists.",
     ["programs"], "every reference and call site of the package",
     "The modules cannot be imported here, so compiling and the runnable tests see almost none of them.",
     ["__init__.py"] + ALLMAPS + ["tractInfo.py", "patchInfo.py", "cellInfo.py", "tractBuilder.py", "packers.py",
                                  "skyMapRegistry.py", "detail/utils.py", "detail/wcsFactory.py",
                                  "detail/dodecahedron.py"],
     [("module and class structure", "python/lsst/skymap")])

# Not claimed (see MANIFEST.json not_applicable)
prop("C36", "The dodecahedron is regular and its faces and vertices are ordered",
     "The 12 face centers and 20 vertices are unit vectors of a regular dodecahedron with a face or a vertex on each "
     "pole, faces are sorted by decreasing latitude and increasing longitude, and each face has its 5 vertices in "
     "order around it.",
     ["configurations"], "both orientations", "Numerical.",
     ["detail/dodecahedron.py"], [("Dodecahedron.__init__", "detail/dodecahedron.py")])
prop("C37", "Tracts of the full-sky maps cover the sphere with the requested overlap",
     "For every full-sky map every point of the sphere lies in the box of at least one tract, with the configured "
     "overlap between neighbours.",
     ["inputs", "configurations"], "all points of the sphere", "Numerical geometry of projections.",
     ALLMAPS, [("tract geometry", "*SkyMap.py")])
prop("C38", "Region search returns every tract that the region overlaps",
     "For every set of coordinates no tract whose outer region meets their convex hull is missing from "
     "findTractPatchList.",
     ["inputs"], "all regions", "Depends on the shape of projected regions.",
     ["baseSkyMap.py", "ringsSkyMap.py"], [("findTractPatchList", "baseSkyMap.py")])
prop("C39", "Lookups agree with regions to the last bit of floating point",
     "For every double-precision coordinate, including those on a boundary after rounding, scalar lookup, array "
     "lookup and region containment agree exactly.",
     ["inputs"], "all doubles", "Rounding.", ["ringsSkyMap.py"], [("findTract", "ringsSkyMap.py")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P), max(len(p["title"]) for p in P))
