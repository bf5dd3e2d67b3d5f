"""Which harnesses decide which property, and within what bounds.

A job runs one entry point of harness/src in the executor. `params` are given to
the harness (sx::param), `quick`/`thorough` add to them per tier, `*_opts` are
options of the executor, `covers` labels which some path must reach."""

F64 = {"frontier": 64}
F6 = {"frontier": 6}
BIG = {"frontier": 6, "steps": 20_000_000_000, "time": 700}


def J(entry, name=None, params=None, q=None, t=None, covers=None, thorough_only=False, opts=None, qo=None, to=None, **kw):
    d = {"entry": entry, "params": params or {}, "quick": q or {}, "thorough": t or {}, "thorough_only": thorough_only}
    if name:
        d["name"] = name
    if covers is not None:
        d["covers"] = covers
    d["opts"] = opts or {}
    d["quick_opts"] = qo or {}
    d["thorough_opts"] = to or {}
    d.update(kw)
    return d


FLOATS = "distances are arbitrary finite non-negative floats, symmetric, zero on the diagonal (all of them unless a harness fixes some of a shape)"
LEVELS = "the level of each point is chosen by the harness through the logarithm, as the generator would"

SC = "sequentially consistent memory; preemption only before acquiring compare-exchange operations (lock acquisitions), with a bounded number of switches"
TH = "symbolic execution of the compiled code (LLVM IR) under every schedule within a bound on preemptions, with an SMT solver (z3)"
SCHED = "every schedule of the lock operations with at most %d preemptions"

CHECKS = {
    "S01": {
        "bounds": "all finite distances: 3 points (thorough 4), levels 0-1, k and ef from 0 to n+1; 4-5 points of 5 shapes with an arbitrary query, k and ef 1 to 3; 60 points on a line or with distances without order on 16 levels, m = 6, with a query whose distance to 1 to 2 of them is arbitrary, k 1 to n+1, ef 1 to n+3",
        "assumptions": [FLOATS, LEVELS],
        "jobs": [
            J("h_s01", q={"n": 3}, t={"n": 3, "lmax": 2}),
            J("h_s01", "h_s01_0", q={"n": 0}, t={"n": 1}),
            J("h_s01q", q={"n": 4, "lmax": 1, "kmax": 2, "efmax": 2}, t={"n": 5}),
            J("h_s01", "h_s01_4", t={"n": 4, "lmax": 0}, thorough_only=True),
            J("h_bs", params={"n": 60}, q={"s": 1}, t={"s": 2}),
            J("h_bs", "h_bs_mixed", params={"mixed": 1, "n": 60}, q={"s": 1}, t={"s": 2}),
        ],
    },
    "S02": {
        "bounds": "3 points of 5 shapes with an arbitrary query, levels 0-1, every accepted subset, k and ef 1 to 3, closure and list filters; 60 points on a line or with distances without order on 16 levels and 4 accepted sets, 1 to 2 arbitrary distances",
        "assumptions": [FLOATS, LEVELS],
        "jobs": [
            J("h_s02", q={"n": 3, "efmax": 2, "kmax": 2}, t={"n": 3}, covers=["end", "answer"]),
            J("h_s02", "h_s02_full", params={"full": 1}, q={"n": 2}, t={"n": 3}, covers=["end", "answer"]),
            J("h_bs", params={"what": 1, "n": 60}, q={"s": 1}, t={"s": 2}, covers=["end", "answer"]),
            J("h_bs", "h_bs_mixed", params={"what": 1, "mixed": 1}, q={"n": 30, "s": 1}, t={"n": 60, "s": 2}, covers=["end", "answer"]),
        ],
    },
    "S03": {
        "bounds": "all finite distances: n = 3 (thorough 4) with m = 2, n = 3 with m = 1 (2m + 1 points), every k up to n+1, with and without filter, with extend_candidates and keep_pruned; n = 5 with m = 2 (2m + 1 points): 5 shapes and an arbitrary query; 25 points with m = 12 (2m + 1) on a line and 20 points with m = 127, 128, 129 and 255, 1 arbitrary distance (thorough 2 to 3)",
        "assumptions": [FLOATS],
        "jobs": [
            J("h_s03", q={"n": 3}, t={"n": 4}),
            J("h_s03", "h_s03_filter", params={"filter": 1}, q={"n": 3}, t={"n": 3}),
            J("h_s03", "h_s03_ext", params={"ext": 1, "keep": 1}, q={"n": 3}, t={"n": 4}),
            J("h_s03", "h_s03_shapes", params={"full": 0}, q={"n": 4}, t={"n": 5}),
            J("h_s03", "h_s03_full", params={"m": 1, "n": 3, "layers": 1}, t={"ext": 1, "keep": 1}),
            J("h_s03", "h_s03_full2", params={"m": 2, "n": 5, "full": 0, "efx": 0}, q={"kmin": 5}, t={"kmin": 2, "ext": 1, "keep": 1}),
            J("h_bs", "h_bs_wide", params={"n": 20, "efc": 20, "exact": 1, "lv": 0, "emin": 2}, q={"s": 1, "wide": 4}, t={"s": 2, "wide": 8}),
            J("h_bs", params={"n": 25, "m": 12, "efc": 25, "exact": 1, "lv": 0, "emin": 2}, q={"s": 1}, t={"s": 3}),
            J("h_bs", "h_bs_mixed", params={"mixed": 1, "n": 25, "m": 12, "efc": 25, "exact": 1, "lv": 0, "emin": 2}, q={"s": 1}, t={"s": 3}),
            J("h_bs", "h_bs_filter", params={"what": 1, "n": 25, "m": 12, "efc": 25, "exact": 1, "lv": 0, "emin": 2}, q={"s": 1}, t={"s": 2}, covers=["end", "answer"]),
        ],
    },
    "G01": {
        "bounds": "3 points, all finite distances, levels 0-2, construction width 1 to 3; 4 and 5 points with shapes, with and without extend_candidates and keep_pruned, maximum number of connections 1 and 2; 60 points on a line or with distances without order on 16 levels and 4 arbitrary distances; 265 points around a hub with m = 130 (lists of 260 links)",
        "assumptions": [FLOATS, LEVELS],
        "jobs": [
            J("h_g01", q={"n": 3, "lmax": 2}, t={"n": 3, "lmax": 2, "ext": 1, "keep": 1}),
            J("h_g01", "h_g01_m1", params={"m": 1, "layers": 1, "ext": 1, "keep": 1, "efmin": 2, "efmax": 5}, q={"n": 4}, t={"n": 5}),
            J("h_g01", "h_g01_shapes", params={"ext": 1, "keep": 1}, q={"n": 4, "nc": 3, "lmax": 1, "efmin": 2, "efmax": 2}, t={"n": 5, "nc": 4, "lmax": 1, "efmax": 4}),
            J("h_bg", params={"what": 2, "n": 60}, q={"s": 4}, t={"s": 6, "efc": 30}),
            J("h_bg", "h_bg_hub", params={"what": 2, "n": 265, "m": 130, "efc": 1, "hub": 1, "lv": 0, "s": 1}, opts=BIG),
            J("h_bg", "h_bg_ext", params={"what": 2, "n": 60, "ext": 1, "keep": 1}, q={"s": 2}, t={"s": 4, "last": 2}),
            J("h_bg", "h_bg_mixed", params={"what": 2, "n": 60, "mixed": 1}, q={"s": 2}, t={"s": 4, "efc": 30}),
            J("h_bg", "h_bg_mixed_ext", params={"what": 2, "n": 60, "mixed": 1, "ext": 1, "keep": 1}, q={"s": 1}, t={"s": 3, "last": 2}),
        ],
    },
    "G02": {
        "bounds": "4 points and 2 places (m = 1), 4 points and 4 places, all finite distances; 6 points and 4 places with shapes; keep_pruned on and off; 3 points and 2 places, 5 points and 4 places (as many candidates as places); each of 24 and of 40 points on the base layer or all on layer 1, on a line and with distances without order, one of them arbitrary for the last point",
        "assumptions": [FLOATS, "with ties among the distances to the new point only the bounds and the nearest candidate are checked"],
        "jobs": [
            J("h_g02", q={"n": 4, "m": 1}, t={"n": 5, "m": 1}, covers=["end", "rule"]),
            J("h_g02", "h_g02_few", q={"n": 4, "m": 2}, t={"n": 5, "m": 2}, covers=["end", "few"]),
            J("h_g02", "h_g02_equal", params={"n": 3, "m": 1}, covers=["end", "few"]),
            J("h_g02", "h_g02_equal2", params={"n": 5, "m": 2}, q={"nc": 4, "smin": 4, "km": 0}, t={"nc": 4}, covers=["end", "few"]),
            J("h_g02", "h_g02_shapes", q={"n": 6, "m": 2, "nc": 5, "smin": 4, "km": 0}, t={"n": 7, "m": 2, "nc": 6, "ext": 1}, covers=["end", "rule"]),
            J("h_b02", params={"layers": 1, "exts": 1}, q={"n": 24, "s": 1}, t={"n": 40, "s": 2}, covers=["end", "rule"]),
            J("h_b02", "h_b02_more", params={"layers": 1, "exts": 1, "m": 4, "s": 0}, q={"n": 40}, t={"n": 150}, covers=["end", "rule"]),
        ],
    },
    "R01": {
        "bounds": "0 to 3 points (thorough 4) with symbolic data, levels 0, 1, 2 and the highest, 16 layers and 5 layers; 300 points on 16 levels; 3000 points (thorough 12000)",
        "assumptions": [LEVELS],
        "jobs": [
            J("h_r01", q={"n": 3}, t={"n": 4}, covers=["end", "empty"]),
            J("h_r01", "h_r01_layers", params={"layers": 5}, q={"n": 3}, t={"n": 4}, covers=["end", "empty"]),
            J("h_d02", "h_r01_lengths", params={"map": 2}, q={"n": 3}, t={"n": 4, "len": 4, "lmax": 2}),
            J("h_bg", params={"what": 1, "n": 300, "m": 6}, q={"s": 1}, t={"s": 2, "n": 1000}),
            J("h_bg", "h_bg_many", params={"what": 1, "m": 2, "efc": 1, "s": 0}, q={"n": 3000}, t={"n": 12000}, opts=BIG),
        ],
    },
    "L01": {
        "bounds": "any logarithm the draw can have (quick: 18 leading bits of it, thorough 32), the index configurations listed in the harness, 7 scale factors",
        "assumptions": ["the logarithm of a draw below 1 is -inf or in [-36.75, -1e-17]"],
        "jobs": [
            J("h_l01", q={"ms": 2, "nls": 2, "lnlow": 46}, t={"ms": 3, "nls": 3, "lnlow": 32}, opts=F6),
            J("h_l01", "h_l01_scale", params={"draw": 0, "scale": 1, "ms": 5, "nls": 4}),
            J("h_l01", "h_l01_both", params={"scale": 1, "draw": 1, "ms": 1, "nls": 1, "fs": 3}, q={"lnlow": 48}, t={"lnlow": 40}, opts=F6),
        ],
    },
    "P01": {
        "bounds": "maximum number of connections 1 to 300 (thorough 1 to 1100), 6 numbers of layers, any construction width",
        "jobs": [J("h_p01", params={"lo": 1}, q={"hi": 300}, t={"hi": 1100}, covers=["end", "refused"])],
    },
    "D01": {
        "bounds": "1 to 3 points with symbolic data and query distances, 2 shapes, levels 0, 1 and 15, 3 configurations, 2 construction widths, 2 level scales; all distances symbolic for 2 points; 60 to 100 points on a line (thorough 300 to 400), beyond the 8 KB of the buffers; a hub with 261 links",
        "assumptions": [FLOATS, LEVELS],
        "jobs": [
            J("h_d01", q={"n": 3}, t={"n": 3, "shapes": 5, "fs": 3, "lmax": 3}),
            J("h_d01", "h_d01_full", params={"full": 1, "ms": 1, "efcs": 1, "fs": 1}, q={"n": 2, "lmax": 1}, t={"n": 3, "nmin": 3, "lmax": 1}),
            J("h_bd", params={"what": 1, "kmax": 1}, q={"n": 100}, t={"n": 400}),
            J("h_bd", "h_bd_mixed", params={"what": 1, "mixed": 1}, q={"n": 60}, t={"n": 300}),
            J("h_bd", "h_bd_hub", params={"what": 1, "n": 262, "m": 130, "efc": 1, "hub": 1, "lv": 0, "s": 0}, opts=BIG),
        ],
    },
    "D02": {
        "bounds": "3 vectors of length 0 to 3 with symbolic bytes, levels 0 and 1, in memory and mapped; 40 vectors (thorough 300) of lengths between 0 and 16384 elements of 4 bytes",
        "jobs": [
            J("h_d02", q={"n": 3}, t={"n": 3, "len": 5, "lmax": 2}),
            J("h_bd", params={"what": 1, "kmin": 1, "kmax": 2, "s": 0}, q={"n": 40}, t={"n": 300}),
            J("h_bd", "h_bd_mapped", params={"what": 2, "kmin": 1, "kmax": 2, "s": 0}, q={"n": 40}, t={"n": 300}),
        ],
    },
    "D03": {
        "bounds": "1 to 3 points, every split between mapped and in-memory points, levels 0, 1 and 15, elements of 1, 2, 4 and 8 bytes; 60 to 100 points on a line (thorough 300 to 400), beyond the 8 KB of the buffers; a hub with 261 links",
        "assumptions": [FLOATS, LEVELS],
        "jobs": [
            J("h_d03", q={"n": 3}, t={"n": 3, "shapes": 5, "lmax": 3}, covers=["end", "with_dist"]),
            J("h_d03", "h_d03_rel", params={"n": 1, "rel": 1}, covers=["end", "with_dist"]),
            J("h_d03h", params={"map": 0}),
            J("h_d03w", params={"map": 0}),
            J("h_d03d", params={"map": 0}),
            J("h_bd", params={"what": 2, "kmax": 0}, q={"n": 60}, t={"n": 300}),
            J("h_bd", "h_bd_hub", params={"what": 2, "n": 262, "m": 130, "efc": 1, "hub": 1, "lv": 0, "s": 0}, opts=BIG),
        ],
    },
    "D04": {
        "bounds": "1 to 3 points with symbolic data of 3 bytes, elements of 1, 2, 4 and 8 bytes; vectors of different lengths, 0 to 3; directories given absolutely and relatively; 60 points (thorough 300)",
        "jobs": [
            J("h_d04", q={"n": 3}, t={"n": 4}),
            J("h_d04t"),
            J("h_d02", "h_d04_lengths", params={"map": 1}, q={"n": 3}, t={"n": 4, "len": 4, "lmax": 2}),
            J("h_d03h", params={"map": 1}),
            J("h_d03w", params={"map": 1}),
            J("h_d03d", params={"map": 1}, covers=["map"]),
            J("h_bd", params={"what": 4, "kmax": 2, "s": 0}, q={"n": 60}, t={"n": 300}),
        ],
    },
    "D05": {
        "bounds": "1 to 3 points, 5 shapes, levels 0, 1 and 15; all distances symbolic for 2 points; 60 to 100 points on a line (thorough 300 to 400), beyond the 8 KB of the buffers; a hub with 261 links",
        "assumptions": [FLOATS, LEVELS],
        "jobs": [
            J("h_d05", q={"n": 3}, t={"n": 3, "lmax": 3}),
            J("h_d05", "h_d05_full", params={"full": 1}, q={"n": 2, "lmax": 1}, t={"n": 3, "lmax": 1}),
            J("h_bd", params={"what": 8, "kmax": 1, "s": 0}, q={"n": 60}, t={"n": 300}),
            J("h_bd", "h_bd_hub", params={"what": 8, "n": 262, "m": 130, "efc": 1, "hub": 1, "lv": 0, "s": 0}, opts=BIG),
        ],
    },
    "D06": {
        "bounds": "dump of 2 points cut at every byte of each of the two files, every reload call, mapped and not; dump of 60 points cut around the ends of each block of 8 KB",
        "jobs": [
            J("h_d06", covers=None),
            J("h_b06", q={"n": 60}, t={"n": 200}),
        ],
    },
    "D07": {
        "bounds": "symbolic bytes in every numeric field and names of length up to 3 and 256, 257 and more; cut at every byte; the C description of 24 configurations, whole and cut at 8 places",
        "jobs": [
            J("h_d07", q={"names": 2}, t={"names": 3, "mix": 1}, opts=F64, covers=["description", "error"]),
            J("h_d07b"),
        ],
    },
    "D08": {
        "bounds": "dump of 1 and 2 points, every byte of each file, any value, reload in memory (thorough: every reload call, mapped and not, data map)",
        "jobs": [
            J("h_d08", params={"n": 1, "hows": 2}, q={"thin": 1}, t={"thin": 0}, opts=F64, covers=["error", "index"]),
            J("h_d08", "h_d08_graph", params={"n": 2, "fmax": 0, "omin": 62}, q={"hows": 0}, t={"hows": 4}, opts=F64, covers=["error", "index"]),
            J("h_d08", "h_d08_data", params={"n": 2, "fmin": 1, "omin": 24}, q={"hows": 0}, t={"hows": 4}, opts=F64, covers=["error", "index"]),
        ],
    },
    "D09": {
        "bounds": "the pairs of dumped and reloaded types and distances listed in the harness, every reload call; distances that are generic over types of several modules",
        "jobs": [J("h_d09"), J("h_d09b", covers=["error", "index"]), J("h_d09g"), J("h_d04t", "h_d09t", params={"reload": 1})],
    },
    "D10": {
        "bounds": "2 points, up to 3 dumps in a row, the index growing between or not, mapped and not; draws of the generator all different or in runs of 2 (thorough: or 3)",
        "jobs": [J("h_d10", q={"dumps": 3}, t={"dumps": 4, "reps": 3}), J("h_d10", "h_d10_rel", params={"dumps": 2, "rel": 1})],
    },
    "D11": {
        "bounds": "a device that is full after any number of bytes, up to the size of the dump (all files together, or one of the two), one short write, one failing write; vectors of 160 and 16000 bytes and files beyond the 8 KB of the buffers; each of the files, or the directory, cannot be opened",
        "jobs": [
            J("h_d11", q={"max": 700}, t={"max": 2000}, opts=F64, covers=["success", "error"]),
            J("h_d11o"),
            J("h_b11", q={"n": 60, "step": 4001}, t={"n": 200}, covers=["success", "error"]),
            J("h_b11", "h_b11_long", params={"long": 4000}, q={"n": 3, "step": 4001}, t={"n": 200}, covers=["success", "error"]),
        ],
    },
    "D12": {
        "bounds": "1 to 3 points with symbolic bytes, 2 shapes, levels 0, 1 and 15, both older formats, every reload call and the data map",
        "assumptions": [LEVELS, "the older formats are those which load_description and load_point_data describe; vectors of bytes"],
        "jobs": [J("h_d12", q={"n": 3}, t={"n": 3, "ms": 3, "shapes": 5, "lmax": 3})],
    },
    "D14": {
        "bounds": "1 or 2 points with symbolic bytes, three ways to make a handle, three reloads through it, 3 options, the files replaced or not between reloads by other data, in each of the three formats",
        "jobs": [J("h_d14", q={"n": 2}, t={"n": 3})],
    },
    "D13": {
        "bounds": "1 or 2 points before, 2 or 1 after the reload, all finite distances; 2 and 2 points with shapes; 40 and 20 points with distances without order, against the original extended in the same way",
        "assumptions": [FLOATS, LEVELS],
        "jobs": [
            J("h_bd", params={"what": 16, "mixed": 1}, q={"n": 40, "s": 0}, t={"n": 100, "more": 40, "s": 1}),
            J("h_d13", "h_d13_shapes", params={"full": 0}, q={"n": 2, "more": 2}, t={"n": 3, "more": 2}),
            J("h_d13", "h_d13_12", params={"n": 1, "more": 2, "mmap": 0}),
            J("h_d13", "h_d13_21", params={"n": 2, "more": 1}, q={"lmax": 0, "mmap": 1}, t={"lmax": 1, "mmap": 2}),
        ],
    },
    "C01": {
        "technique": TH,
        "bounds": SCHED % 2 + " (3 for the crossing shape); two threads inserting one point each (three threads, or two points in one of them, in further jobs) next to 0, 1 or 2 points, 5 shapes of distances (all finite distances with 1 point present), levels 0-1, in two jobs 0-2; 14 and 3 points on a line next to 2 inserting threads",
        "assumptions": [FLOATS, LEVELS, SC],
        "jobs": [
            J("h_c01", q={"sym": 0}, t={"sym": 1}, threads=True),
            J("h_c01", "h_c01_cross", params={"pmin": 2, "pre": 2, "lv": 1202, "sym": 0, "switches": 3}, q={"smax": 0}, t={"smax": 4}, threads=True),
            J("h_c01", "h_c01_rise", params={"pmin": 1, "pre": 1, "lv": 210, "smax": 0}, q={"sym": 0}, t={"sym": 1, "switches": 3}, threads=True),
            J("h_c01", "h_c01_rise2", params={"pmin": 1, "pre": 1, "lv": 120, "smax": 0}, q={"sym": 0}, t={"sym": 1, "switches": 3}, threads=True),
            J("h_c01", "h_c01_full", params={"full": 1}, q={"pre": 1, "lmax": 0}, t={"pre": 1, "lmax": 1}, threads=True),
            J("h_c01", "h_c01_three", params={"pmin": 0, "pre": 0, "smax": 0, "c": 1, "sym": 0}, threads=True),
            J("h_c01", "h_c01_21", params={"a": 2, "b": 1, "pmin": 1, "pre": 1, "smax": 0, "sym": 0}, threads=True),
            J("h_bc", q={"n": 16}, t={"n": 16, "switches": 2}, threads=True),
            J("h_bc", "h_bc_2", params={"n": 5, "switches": 2}, threads=True),
        ],
    },
    "C02": {
        "technique": TH,
        "bounds": SCHED % 2 + "; one thread searches, searches with a filter, iterates, or flattens while another one inserts one point (thorough: two) next to 0 to 2 points, 2 shapes of distances, levels 0-1; next to 15 points",
        "assumptions": [FLOATS, LEVELS, SC],
        "jobs": [
            J("h_c02", q={"sym": 0}, t={"sym": 1}, threads=True),
            J("h_c02", "h_c02_sym", params={"opmin": 0, "ops": 1, "smax": 0, "pmin": 2, "sym": 1}, threads=True),
            J("h_c02", "h_c02_two", params={"b": 2, "smax": 0, "pmin": 1, "sym": 0}, threads=True, thorough_only=True),
            J("h_bc", params={"opmin": 1, "ops": 3}, q={"n": 16}, t={"n": 16, "switches": 2}, threads=True),
        ],
    },
    "C03": {
        "technique": TH,
        "bounds": SCHED % 2 + " (4 for one point before, levels 0-2; thorough 3 and 5); one thread inserts one point (or two) while another one dumps an index of 0 to 2 points, 2 shapes of distances",
        "assumptions": [FLOATS, LEVELS, SC],
        "jobs": [
            J("h_c03", t={"switches": 3}, covers=["end", "error", "success"], threads=True),
            J("h_c03", "h_c03_two", params={"b": 2, "pre": 1, "lmax": 2, "sym": 0}, t={"switches": 3}, covers=["end", "error", "success"], threads=True),
            J("h_c03", "h_c03_4", params={"pmin": 1, "pre": 1, "lmax": 2, "sym": 0, "smax": 0}, q={"switches": 4}, t={"switches": 5}, covers=["end", "success"], threads=True),
        ],
    },
    "C04": {
        "technique": TH,
        "bounds": "every batch of up to 2 requests over 0 to 2 points in both orders of each rayon join; two requests at once: " + SCHED % 2 + "; 2100 requests over 20 points, batches of 1 to 129 requests; 100 requests over 60 points with search widths from less than k to 40",
        "assumptions": [FLOATS, LEVELS, SC],
        "jobs": [
            J("h_c04", t={"full": 1}),
            J("h_c04", "h_c04_both", params={"full": 1, "r": 2, "rmin": 2, "nmin": 2, "n": 2, "join": 3, "smax": 0}, q={"switches": 2}, t={"switches": 3}, threads=True),
            J("h_b04", params={"r": 2100, "s": 0}, opts=BIG),
            J("h_b04", "h_b04_sym", params={"rs": 1, "r": 40, "s": 2}),
            J("h_b04", "h_b04_ef", params={"rs": 1, "n": 60, "m": 2, "es": 3, "s": 0}, q={"r": 100}, t={"r": 400}),
            J("h_b04", "h_b04_mixed", params={"rs": 1, "n": 60, "m": 2, "es": 3, "s": 0, "k": 2, "mixed": 1}, q={"r": 100}, t={"r": 400}),
        ],
    },
    "C05": {
        "technique": TH,
        "bounds": "batches of up to 2 points on an index of 0 to 2, both orders of each rayon join, 5 shapes of distances; batches of 2 and 3 run concurrently: " + SCHED % 2 + " (3 for 2 points); batches of 300 points (thorough 2100)",
        "assumptions": [FLOATS, LEVELS, SC],
        "jobs": [
            J("h_c05", params={"smax": 4}, q={"sym": 0}, t={"sym": 1}),
            J("h_c05", "h_c05_three", params={"b": 3, "bmin": 3, "pmin": 1, "smax": 0, "join": 3, "lmax": 0, "sym": 0}, threads=True),
            J("h_c05", "h_c05_two", params={"b": 2, "pmin": 0, "smax": 0, "join": 3, "lmax": 1, "sym": 0, "switches": 3}, threads=True),
            J("h_b05", params={"s": 0}, q={"r": 300}, t={"r": 2100}, opts=BIG),
            J("h_b05", "h_b05_sym", params={"rs": 1, "r": 30, "s": 1}),
        ],
    },
    "F01": {
        "bounds": "0 to 3 points, levels 0-1, before and after a reload; 60 points (thorough 300)",
        "assumptions": [FLOATS, LEVELS],
        "jobs": [
            J("h_f01", t={"n": 4}), J("h_f01", "h_f01_reload", params={"reload": 1}),
            J("h_bd", params={"what": 8, "kmax": 0, "s": 0}, q={"n": 60}, t={"n": 300}),
        ],
    },
    "O01": {
        "bounds": "any two or three 32-bit patterns of distances (NaN included where the harness says so), any identifiers; sorting and queues of 3 elements",
        "jobs": [J("h_o01"), J("h_o01n", covers=["pair", "cmp"]), J("h_o01s"), J("h_o01q")],
    },
    "I01": {
        "bounds": "filters by closure and by every sorted list of up to 3 identifiers, any 64-bit identifier",
        "jobs": [J("h_i01", covers=["accepted", "rejected"]), J("h_i01c", covers=["accepted", "rejected"])],
    },
    "M01": {
        "bounds": "up to 3 points, each subset of search, flatten, dump with reload, and mapped reload; sequential and parallel insertion; 60 points (thorough 300) on 16 levels",
        "assumptions": [FLOATS, LEVELS],
        "jobs": [
            J("h_m01", params={"omax": 3}),
            J("h_m01", "h_m01_reload", params={"omin": 4, "omax": 4}),
            J("h_m01", "h_m01_mmap", params={"omin": 12, "omax": 12}),
            J("h_m01", "h_m01_par", params={"omax": 3, "par": 1}),
            J("h_a01m"),
            J("h_bm", q={"n": 60}, t={"n": 300}),
        ],
    },
    "A01": {
        "bounds": "up to 3 points and 2 requests, u8, u16, u32, i32 and f32, arbitrary symmetric distances of 2 points and shapes; 40 points and 8 requests of each type with 3 pairs of k and search width; every named distance on 4 fixed vectors; every name one byte or a length away from a known one; dump, description and reload of each named distance",
        "assumptions": [FLOATS, LEVELS, "named distances: concrete vectors"],
        "jobs": [
            J("h_a01", q={"n": 2, "tmax": 0}, t={"n": 2}),
            J("h_a01", "h_a01_types", params={"nmin": 3, "n": 3, "qmin": 1, "q": 1, "sym": 1}, q={"kmax": 2, "efmax": 1}),
            J("h_a01n", covers=["known"]),
            J("h_a01n", "h_a01n_dump", params={"dump": 1}, covers=["known", "reloaded", "no file"]),
            J("h_a01n", "h_a01n_unknown", params={"unknown": 1}, covers=["known", "unknown"]),
            J("h_a01m"),
            J("h_a01l"),
            J("h_a01b", q={"n": 40}, t={"n": 100, "kmax": 3}),
        ],
    },
}

NOT_APPLICABLE = {}
