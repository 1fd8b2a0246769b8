"""All properties: what is run, and what it covers."""
import rules_tract as rt
import rules_maps as rm

SPECS = {}


def prop(pid, run, explain, min=1, assumes=()):
    SPECS[pid] = {"run": run, "explain": explain, "min": min, "assumes": list(assumes)}


prop("C15", rt.c15, "boxes of tracts and patches", 20)
prop("C16", rt.c16, "outer boxes", 20)
prop("C17", rt.c17, "cells", 20)
prop("C18", rt.c18, "indices", 20)
prop("C19", rt.c19, "index validation", 20)
prop("C20", rt.c20, "findPatch", 20)
prop("C21", rt.c21, "findPatchList", 8)
prop("C22", rt.c22, "tract box", 20)
prop("C24", rt.c24, "sky regions", 20)
prop("C31", rt.c31, "properties", 20)
prop("C11", rm.c11, "rings numbering", 20)
prop("C12", rm.c12, "rings ranges", 20)
prop("C13", rm.c13, "rings division", 2)
prop("C01", rm.c01, "ids are positions", 10)
prop("C09", rm.c09, "nearest center", 2)
prop("C10", rm.c10, "array lookup", 10)
prop("C14", rm.c14, "region search", 10)
prop("C34", rm.c34, "dodecahedral tracts", 5)
prop("C23", rm.c23, "units and WCS", 20)
prop("C32", rm.c32, "HEALPix", 5)
prop("C33", rm.c33, "equatorial tracts", 5)
import rules_hash as rh
prop("C05", rh.c05, "identity hash covers the configuration", 10)
prop("C06", rh.c06, "identity hash layout and defaults", 10)
prop("C07", rh.c07, "equality", 10)
prop("C08", rh.c08, "pickling", 10)
import rules_packer as rp
prop("C26", rp.c26, "packing", 10)
prop("C27", rp.c27, "refusals", 10)
prop("C28", rp.c28, "packer configuration", 10)
import rules_state as rs
prop("C02", rs.c02, "independent tracts", 10)
prop("C03", rs.c03, "read-only queries", 10)
prop("C04", rs.c04, "no shared mutable values", 10)
import rules_misc as ro
prop("C25", ro.c25, "registration", 10)
prop("C30", ro.c30, "configuration", 10)
import rules_link as rk
prop("C29", rk.c29, "registries and interfaces", 10)
prop("C35", rk.c35, "linkage", 10)
