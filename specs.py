"""What each property's check explores.  A job runs one harness under one
configuration; `time` is its limit in seconds (x6 in the thorough tier unless
time_thorough says otherwise), `covers` names witnesses that must be reached."""
SPECS = {}
def J(h, time=60, covers=("end",), **kw):
    cfg = kw.pop("cfg", {})
    d = {"h": h, "cfg": cfg, "time": time, "covers": list(covers)}
    d.update(kw)
    return d
def T(*a, **kw):  # thorough tier only
    return J(*a, thorough_only=True, **kw)
def S(pid, jobs, bounds, outside="", assumptions=(), technique=None):
    SPECS[pid] = {"jobs": jobs, "bounds": bounds, "outside": outside, "assumptions": list(assumptions), "technique": technique}

def store(b):
    return ([J("store", cfg={"first": f, "second": s, "backend": b}) for f in (0, 2) for s in (0, 1, 2)]
        + [J("many", cfg={"backend": b}), J("many", cfg={"backend": b, "batch": 3}), J("many", cfg={"backend": b, "n": 130, "moments": 13}), J("many", steps=60000000, cfg={"backend": b, "n": 3000, "batch": 700, "moments": 4})]
        + [J("many", cfg={"backend": b, "extra": 30, "n": 20, "moments": 3}), J("many", cfg={"backend": b, "extra": 3, "wide": 400, "n": 130, "moments": 2, "batch": 7})]
        + [T("store", time=100, cfg={"first": f, "second": s, "backend": b, "ops": 4, "nops": 6, "types": 6, "sizes": 4}) for f in (0, 1, 2) for s in (0, 1, 2, 4)]
        + [T("many", cfg={"backend": b, "n": 400})])
STOREB = ("histories of 3 operations (thorough: 4) from {add attribute of 4 (6) type/count combinations, add one particle, add a batch of 4 or 13 (1, 2, 4, 13), overwrite, add fixed attribute}, all values arbitrary 32-bit patterns, re-checked after every step; "
          "and growth one by one to 24 and 130 (thorough 400) particles and in batches of 3 and 700 with an attribute added at any of those moments; also with 30 attributes and with attributes of 400 values")
S("P01", store(0), STOREB, "longer operation histories")
S("P02", store(1), STOREB, "longer operation histories")
S("P03", [J("p03", cfg={"backend": b, "k": 2, "maxlen": 2}) for b in (0, 1)] + [J("p03", cfg={"backend": b, "k": 3, "maxlen": 1, "extra": 0}) for b in (0, 1)] + [J("p03", cfg={"backend": b, "k": 2, "maxlen": 1, "prefix": 1}) for b in (0, 1)]
    + [J("p03", cfg={"backend": b, "pre": 30, "k": 1, "maxlen": 2}) for b in (0, 1)]
    + [T("p03", time=250, time_thorough=600, cfg={"backend": b, "k": 3, "maxlen": 2}) for b in (0, 1)],
    "2 additions of names of 0..2 arbitrary characters or 3 of 0..1 (thorough: 3 of 0..2) to either name space, also behind a common 20-character prefix, and one after 30 others, then lookups of all names, of another name of 0..1 characters and of every int index", "more than 3 attributes with symbolic names")
S("P04", [J("p04", cfg={"backend": b, "fixed": f, "first": o, "k": 3, "strings": 3}) for b in (0, 1) for f in (0, 1) for o in (0, 1)]
    + [J("p04", cfg={"backend": b, "fixed": f, "pre": 25, "k": 2, "strings": 2}) for b in (0, 1) for f in (0, 1)]
    + [J("p04", cfg={"backend": b, "fixed": f, "k": 5, "strings": 2, "ops": 2, "tables": 1}) for b in (0, 1) for f in (0, 1)]
    + [T("p04", time=100, time_thorough=500, cfg={"backend": b, "fixed": f, "k": 6, "strings": 3, "ops": 2, "tables": 1, "plain": 1}) for b in (0, 1) for f in (0, 1)]
    + [T("p04", time=250, time_thorough=500, cfg={"backend": b, "fixed": f, "first": o, "k": 4, "strings": 2}) for b in (0, 1) for f in (0, 1) for o in (0, 1)],
    "histories of 3 (thorough: 4) register/rename/rename-out-of-range operations on two tables with 3 (2) strings of 0..2 arbitrary characters, one of them with a long suffix, and of 5 (6) register/rename operations on one table, and of 2 on tables that hold 25 strings already; all tables and lookups re-checked after each", "longer histories")
S("P05", [J("p05", cfg={"backend": b, "mode": m}) for b in (0, 1) for m in range(10)] + [J("p05", cfg={"backend": b, "mode": m, "nmin": 300, "nmax": 300}) for b in (0, 1) for m in (0, 3, 6)],
    "0..5 particles (and 300), every start index, prefix and postfix, const and mutable, every pair of positions compared, copied and assigned, three accessors of VECTOR, INT and FLOAT[5], arbitrary values", "")
S("P06", [J("p06", cfg={"backend": b, "type": t}) for b in (0, 1) for t in range(6)] + [J("p06", cfg={"backend": b, "type": t, "long": 17, "n": 9}) for b in (0, 1) for t in range(6)] + [T("p06", cfg={"backend": b, "type": t, "n": 4, "mmax": 4}) for b in (0, 1) for t in range(6)],
    "index lists of 0..3 (thorough 4) arbitrary indices into 3 (4) particles and of 17 indices into 9 particles, sorted and unsorted, six type/count combinations, arbitrary values", "")
S("P07", [J("p07", cfg={"backend": b, "what": w}, covers=["clone" if w else "schema"]) for b in (0, 1) for w in (0, 1, 2)] + [J("p07", cfg={"backend": b, "what": 1, "order": o}, covers=["clone"]) for b in (0, 1) for o in (1, 2)] + [J("p07", cfg={"backend": b, "what": w, "dup": 1, "nmax": 1}, covers=["clone"]) for b in (0, 1) for w in (1, 2)] + [J("p07", cfg={"backend": b, "what": w, "large": 7, "freetokens": 0}, covers=["clone" if w else "schema"]) for b in (0, 1) for w in (0, 1, 2)],
    "0..2 attributes and 0..2 fixed attributes of all four types, 0..2 particles, arbitrary values, string tables with a symbolic character and with a string twice, no/renaming/swapping name map; also sets with many more attributes, strings and particles", "")
P08C = ({"str": 1}, {"str": 0, "newstr": 1, "newattr": 0, "fixed": 0}, {"str": 0, "basestr": 1, "fixed": 0, "fstr": 1}, {"str": 0, "big": 40, "wide": 1, "fixed": 0})
def p08cfg(m, b, c):
    d = dict({"mode": m, "backend": b}, **c)
    if m == 1:
        d["freetokens"] = 1
        if "basestr" in c: d["freetokens"] = 0
    return d
S("P08", [J("p08", cfg=p08cfg(m, b, c), covers=["end"] + (["override"] if m < 2 else [])) for m, b in ((1, 0), (0, 0), (2, 0), (3, 0), (0, 1)) for c in P08C]
    + [J("p08", cfg={"mode": m, "backend": b, "many": 30, "str": 1, "newattr": 0, "fixed": 0}, covers=["end"] + (["override"] if m < 2 else [])) for m in (0, 1, 2) for b in (0, 1)]
    + [J("p08", time=200, cfg={"mode": 0, "symids": 8, "nmax": 1, "str": 0, "newattr": 0, "fixed": 0}, covers=["end", "override"])]
    + [J("p08", cfg={"mode": m, "str": s, "newattr": 0, "fixed": 0, "nmax": 1}) for m, s in ((0, 2), (1, 2), (2, 3))] + [J("p08", cfg={"mode": 0, "half": h, "str": 0, "newattr": 0, "fixed": 0}) for h in (1, 2)]
    + [J("p08", cfg={"self": 1, "backend": b}) for b in (0, 1)] + [J("p08", cfg={"clash": c, "freetokens": 0, "str": 0, "newattr": 0, "fixed": 0, "nmax": 1}) for c in (1, 2)]
    + [T("p08", time_thorough=400, cfg=dict({"mode": m, "freetokens": 1, "nmax": 3}, **c), covers=["end", "override"]) for m in (0, 1) for c in P08C],
    "0..2 base and delta particles (thorough: 0..3), identifiers distinct within each set chosen from three values (and for 1x1 from 0..255), one, two or no identifier attribute (also: the second only in one of the sets), all other values arbitrary, string tables sharing and differing in entries, up to three strings per particle, 30 further particles, both backends for base", "duplicate identifiers within one set (the documentation gives no rule); non-INT identifiers; shared attributes whose type or count differs")
P9Q = [{"n": 0}, {"n": 1}, {"n": 2}, {"n": 3, "bits": 3, "baxes": 1}, {"n": 4, "bits": 3, "axes": 3, "baxes": 1}, {"n": 4, "bits": 3, "axes": 6, "baxes": 2}, {"n": 5, "bits": 4, "axes": 1, "baxes": 1}, {"n": 2, "idfirst": 1}, {"n": 3, "bits": 2, "axes": 1, "baxes": 4}, {"n": 31, "bits": 5, "axes": 0, "baxes": 1}, {"n": 100, "bits": 5, "axes": 0, "baxes": 1}]
P9T = [{"n": 3}, {"n": 4, "bits": 3, "baxes": 1}, {"n": 7, "bits": 4, "axes": 1, "baxes": 1, "half": 1}, {"n": 7, "bits": 4, "axes": 1, "baxes": 1, "half": 2}, {"n": 5, "bits": 3, "axes": 3, "baxes": 1}, {"n": 4, "bits": 3, "axes": 3, "baxes": 3}]
S("P09", [J("p09", cfg=c) for c in P9Q] + [T("p09", time_thorough=700, cfg=c) for c in P9T],
    "0..2 points with any finite coordinates and any finite box; 3..5 (thorough: 3 with any finite coordinates, up to 7 otherwise) points with symbolic small-integer coordinates on the axes named in the job (bit masks axes/baxes) and fixed coordinates on the others; 31 and 100 fixed points with a symbolic box", "larger trees with all coordinates free; boxes with bboxMin > bboxMax; NaN and infinite positions")
P10Q = [{"n": 0, "pod": 1}, {"n": 0}, {"n": 1, "pod": 1}, {"n": 1}, {"n": 2, "bits": 3}, {"n": 3, "N": 2, "bits": 3, "axes": 1, "qaxes": 1}, {"n": 4, "N": 2, "bits": 3, "axes": 1, "qaxes": 0, "anyradius": 0}, {"n": 7, "N": 3, "bits": 4, "axes": 0, "qaxes": 3}, {"n": 15, "N": 4, "bits": 4, "axes": 0, "qaxes": 1},
    {"n": 7, "N": 3, "bits": 3, "axes": 0, "qaxes": 1, "anyradius": 0}, {"n": 3, "N": 3, "bits": 2, "axes": 3, "qaxes": 0, "anyradius": 0}, {"n": 3, "N": 2, "same": 1, "bits": 3, "axes": 0, "qaxes": 7}, {"n": 4, "N": 3, "bits": 3, "axes": 1, "qaxes": 0, "anyradius": 0, "pod": 1}, {"n": 15, "N": 4, "bits": 4, "axes": 0, "qaxes": 1, "pod": 1}, {"n": 7, "N": 3, "bits": 4, "axes": 0, "qaxes": 4, "pod": 1},
    {"n": 3, "N": 2, "bits": 3, "axes": 1, "qaxes": 1, "scale": -2}, {"n": 4, "N": 2, "bits": 3, "axes": 1, "qaxes": 0, "anyradius": 0, "scale": -2, "pod": 1}, {"n": 15, "N": 4, "bits": 4, "axes": 0, "qaxes": 1, "scale": -4}, {"n": 7, "N": 2, "bits": 5, "axes": 0, "qaxes": 3, "scale": -4, "anyradius": 0}]
P10Q += [{"n": 15, "N": n, "bits": 5, "axes": 0, "qaxes": q, "scale": -4, "anyradius": 0, "pod": n & 1} for n in (1, 2, 3, 4) for q in (1, 2, 4)]
P10Q += [{"n": 63, "N": 4, "bits": 5, "axes": 0, "qaxes": 1, "scale": -4, "anyradius": 0}]
P10T = [{"n": 3, "N": 2, "bits": 3, "axes": 3, "qaxes": 1}, {"n": 4, "N": 3, "bits": 3, "axes": 1, "qaxes": 1}, {"n": 5, "N": 3, "bits": 3, "axes": 1, "qaxes": 0, "anyradius": 0}, {"n": 15, "N": 5, "bits": 4, "axes": 0, "qaxes": 3}, {"n": 31, "N": 4, "bits": 5, "axes": 0, "qaxes": 1}]
S("P10", [J("p10", cfg=c) for c in P10Q] + [T("p10", time_thorough=700, cfg=c) for c in P10T],
    "up to 4 points with symbolic coordinates of 3..4 bits, integer or in steps of 1/4..1/16, on the axes named in the job, or up to 15 and 63 fixed points with a symbolic query centre and radius; N up to 4; both result forms", "coordinates for which the squared distance rounds; a point at exactly the search radius is accepted either way; larger trees with all coordinates free")

FM = ["bgeo", "pdb", "pdb32", "pdb64", "prt", "bin", "pdc", "ptc", "geo", "pda"]
BGEO, PDB, PDB32, PDB64, PRT, BIN, PDC, PTC, GEO, PDA = range(10)
BIG = {BGEO: [(1500, {"schema": 3, "freetokens": 1}), (2100, {"schema": 7, "freetokens": 0}), (300, {"schema": 2})], PDB: [(5000, {"schema": 2}), (1100, {"schema": 6})], PDB32: [(1100, {"schema": 3})], PDB64: [(1100, {"schema": 3})],
    PRT: [(3000, {"schema": 2}), (400, {"schema": 4}), (1000, {"schema": 3})], BIN: [(1000, {"schema": 0})], PDC: [(3000, {"schema": 1}), (3000, {"schema": 2})], PTC: [(2000, {"schema": 3}), (1000, {"schema": 2})], GEO: [(200, {"schema": 1, "freetokens": 0}), (200, {"schema": 3, "freetokens": 0})], PDA: [(200, {"schema": 2})]}
# very many particles of which the last one is arbitrary
LAST = {f: [(66000, 0)] for f in (BGEO, PDB, PDB64, PRT, PDC, PTC)}
LAST.update({PDB32: [], BIN: [(66000, 3)], GEO: [(3000, 2)], PDA: [(3000, 0)]})
def rt(fmt, **kw):
    c = {"fmt": fmt, "what": 1}; c.update(kw); return c
def rtjobs(fmt, extra=()):
    js = [J("rt", cfg=rt(fmt))] + [J("rt", steps=60000000, cfg=rt(fmt, nmin=n, nmax=n, **c)) for n, c in BIG[fmt]]
    js += [J("rt", cfg=rt(fmt, symname=1, nmax=1, **({"schema": 0, "schemahi": 6} if fmt == PRT else {}))), J("rt", cfg=rt(fmt, backend=1, nmin=1)), J("rt", cfg=rt(fmt, order=2, nmin=1, nmax=3))]
    if fmt != BIN: js += [J("rt", cfg=rt(fmt, names=1, nmax=1, **({"schema": 1, "schemahi": 5} if fmt == BGEO else {}))), J("rt", cfg=rt(fmt, names=3, nmin=1, nmax=1)), T("rt", cfg=rt(fmt, names=5, nmin=1, nmax=1))]
    if fmt != BIN:
        js += [J("rt", cfg=rt(fmt, longname=31 if fmt == PRT else 300, nmax=1, schema=2, freetokens=0)), J("rt", cfg=rt(fmt, manyattrs=40, nmax=2, schema=1, freetokens=0))]
    js += [J("rt", steps=600000000, cfg=rt(fmt, lastany=1, nmin=n, nmax=n, schema=c)) for n, c in LAST[fmt]]
    js += [J("rt", cfg=rt(fmt, **c)) for c in extra]
    js += [T("rt", cfg=rt(fmt, nmin=3, nmax=6, freetokens=3))]
    return js
RTB = "all schemas listed for the format in harness/schemas.h, 0..2 particles (thorough: up to 6), either backend, arbitrary values; single schemas with 200..5000 particles, and with 3000 (text) or 66000 (binary) of which the last has arbitrary values; sets of 40 attributes and a name of 300 characters (.prt: 31; neither in .bin); any one attribute named by a word with a meaning in some format, itself or with an arbitrary character behind it, or by 1..2 (thorough: 4) arbitrary characters (not .bin); "
S("P20", rtjobs(BGEO, ({"symstr": 2, "nmax": 1}, {"strings": 7, "nmax": 1}, {"strings": 1}, {"symstr": 1, "strings": 2, "string0": 6, "nmax": 1}, {"dup": 1, "freetokens": 1}, {"dup": 1, "nmax": 1}, {"wide": 300, "nmax": 1, "schema": 1, "freetokens": 0}, {"schema": 3, "longstr": 40000, "strings": 3, "nmax": 1, "freetokens": 0}, {"schema": 7, "strings": 300, "longstr": 300, "nmax": 1, "freetokens": 0})), RTB + "attribute names with two and strings with 1..2 arbitrary characters, string tables of 1..7 and 300 entries and with a string twice, strings of 300 and 40000 characters, attributes of 300 values", "duplicate attribute names; sets without a position")
S("P21", rtjobs(PDB) + rtjobs(PDB32)[:2] + rtjobs(PDB64)[:2] + [J("rt", cfg=rt(PDB, ext=a, rext=b)) for a, b in ((PDB32, PDB), (PDB64, PDB), (PDB, PDB32))] + [J("rt", cfg=rt(PDB, ext=a, rext=b, nmin=0, nmax=1, schema=2)) for a, b in ((PDB32, PDB), (PDB64, PDB))], RTB + "every pairing of the extensions whose layouts agree; names with two arbitrary characters", "duplicate attribute names; indexed strings")
S("P22", rtjobs(PRT, ({"wide": 300, "nmax": 1, "schema": 1, "freetokens": 0},)), RTB + "names with two arbitrary characters and of 30 and 31 characters; output crossing the 4096-byte chunks; the compressor emitting early or late", "names starting with an upper-case letter (the reader folds it)")
S("P23", rtjobs(BIN), RTB, "attributes outside the RealFlow schema")
S("P24", rtjobs(PDC), RTB + "names with two arbitrary characters", "signalling NaNs (the format stores doubles); INT and string attributes; FLOAT[n>1]")
S("P25", rtjobs(PTC), RTB + "names with two arbitrary characters; finite positions; normals exactly zero", "the spherical encoding of non-zero normals; INT and string attributes; duplicate names")
S("P26", rtjobs(GEO, ({"symstr": 2, "nmax": 1}, {"strings": 7, "nmax": 1}, {"dup": 1}, {"wide": 300, "nmax": 1, "schema": 1, "freetokens": 0}, {"schema": 2, "strings": 300, "longstr": 300, "nmax": 1, "freetokens": 0}, {"schema": 2, "longstr": 5000, "strings": 3, "nmax": 1, "freetokens": 0})), RTB + "any finite value compared up to the 6 digits printed; strings with two arbitrary characters, tables of 300 strings, strings of 5000 characters", "how decimal digits are rounded (libstdc++); fixed attributes are not written by this format")
S("P27", rtjobs(PDA), RTB + "any finite value compared up to the 6 digits printed", "how decimal digits are rounded (libstdc++)")
def hd(fmt, **kw):
    return J("rt", cfg=dict({"fmt": fmt, "what": 2}, **kw))
CF = (BGEO, PDB, PDB32, PDB64, PDC, PTC, GEO, PDA)
CBIG = {BGEO: (300, {"schema": 2}), PDB: (400, {"schema": 2}), PDC: (300, {"schema": 2}), PTC: (300, {"schema": 3}), GEO: (120, {"schema": 1}), PDA: (120, {"schema": 2})}
S("P28", [J("gz", cfg={"mode": m}) for m in range(3)] + [J("gz", cfg={"mode": 1, "longtext": 1, "how": 1})] + [J("gz", cfg={"mode": 3}), J("gz", cfg={"mode": 3, "len": 1100, "lo": 500, "span": 60, "how": 0}), J("gz", cfg={"mode": 3, "len": 1100, "lo": 1010, "span": 110, "how": 1})]
    + [J("rt", cfg=rt(f, comp=c)) for f in CF for c in ((1, 2) if f not in (PDB32, PDB64) else (2,))] + [J("rt", steps=60000000, cfg=rt(f, comp=2, nmin=n, nmax=n, **c)) for f, (n, c) in CBIG.items()]
    + [T("gz", cfg={"mode": 3, "len": 1100, "how": h}) for h in (0, 1)] + [T("gz", cfg={"mode": 0, "len": n}) for n in (10000, 65535, 65536)] + [J("gz", time=100, cfg={"mode": 0, "len": 70000})],
    "gzip writer and reader with payloads of 16 lengths from 0 to 5000 bytes and of 70000 around the buffer boundaries, all bytes arbitrary, written and read in several patterns; all 32 header flag combinations with arbitrary optional fields of 0..700 bytes; every truncation of a small file and truncations around the buffer boundary of a larger one; plain files of 2..5000 bytes; every compressible format through both ways of asking for compression, byte for byte against the plain file",
    "deflate streams with compressed blocks in the symbolic run (zlib itself is trusted; replays use the real one); concatenated gzip members; the checksum is not verified by the reader")
S("P29", [J("zip", cfg={"members": 0}), J("zip", cfg={"members": 1}), J("zip", cfg={"members": 2, "vary": 0}), J("zip", cfg={"members": 2, "nlen": 3}), J("zip", cfg={"members": 1, "sig": 1, "len": 600}), J("zip", cfg={"members": 2, "sig": 2, "len": 600, "vary": 0}),
    J("zip", cfg={"members": 4, "len": 5, "vary": 0, "symnames": 1}), J("zip", cfg={"members": 2, "len": 5, "longname": 300, "vary": 0}), J("zip", cfg={"members": 30, "len": 3, "vary": 0, "symnames": 0, "absent": 1, "hold": 0}), J("zip", cfg={"members": 1, "len": 66000, "vary": 0}, steps=60000000)]
    + [T("zip", cfg={"members": 2, "nlen": 6}), T("zip", cfg={"members": 3, "len": 5, "vary": 0, "symnames": 2})],
    "archives of 0..4 and 30 members of lengths from 0 to 66000 around the buffer boundaries, all bytes arbitrary, contents holding archive signatures, names with arbitrary characters and of 300 characters, read in both orders and again, absent names of 0..2 arbitrary characters", "names used twice; compressed deflate blocks in the symbolic run (zlib itself is trusted)")
S("P30", [hd(f) for f in range(10)] + [hd(f, comp=2, nmax=1) for f in (BGEO, PDB, PDC, PTC, GEO, PDA)] + [J("rt", steps=60000000, cfg=dict({"fmt": f, "what": 2, "nmin": n, "nmax": n}, **c)) for f in range(10) for n, c in BIG[f][:1]] + [hd(BGEO, strings=7, nmax=1), hd(GEO, strings=7, nmax=1), hd(PDB, ext=PDB32, rext=PDB), hd(PDB, ext=PDB64, rext=PDB)]
    + [hd(f, names=3, nmin=1, nmax=1) for f in range(10) if f != BIN] + [hd(f, manyattrs=40, nmax=2, schema=1, freetokens=0) for f in range(10) if f != BIN] + [hd(f, longname=31 if f == PRT else 300, nmax=1, schema=2, freetokens=0) for f in range(10) if f != BIN]
    + [J("rt", steps=600000000, cfg={"fmt": f, "what": 2, "lastany": 1, "nmin": n, "nmax": n, "schema": c}) for f in range(10) for n, c in LAST[f]],
    "files written from every schema of harness/schemas.h with 0..2 particles, plain and compressed, and single schemas with 200..5000 and 3000 or 66000 particles; 40 attributes; names of 1..2 arbitrary characters and of 300 characters", "files with duplicate attribute names")
S("P36", [J("mc", cfg={"nmax": 0}), J("mc", cfg={"nmin": 2, "nmax": 3}), J("mc", cfg={"nmin": 2, "nmax": 2, "symname": 1, "arrays": 2}), J("mc", cfg={"nmin": 2, "nmax": 2, "arrays": 4}), J("mc", covers=(), cfg={"nmin": 1, "nmax": 1}), J("mc", cfg={"nmin": 70, "nmax": 70, "count": 0}), J("mc", cfg={"nmin": 1500, "nmax": 1500, "arrays": 2, "count": 0}), J("mc", cfg={"nmin": 2, "nmax": 2, "arrays": 20}), T("mc", cfg={"nmin": 4, "nmax": 8}), T("mc", cfg={"nmin": 2, "nmax": 2, "symname": 2, "arrays": 2})],
    "caches of 1..4 double or float-vector arrays in every order with an id array at every place, for 0..3, 70 and 1500 particles, and of 20 arrays (thorough: up to 8), arbitrary values, names with one (two) arbitrary characters, with and without a per-file count array and a terminator in stored names",
    "several time steps in one file; compressed .mc.gz (the reader needs tellg)")
S("P11", [J("cache", cfg={"ops": 3}), J("cache", cfg={"ops": 4}), J("cache", cfg={"ops": 5, "files": 2, "nops": 3})] + [T("cache", time_thorough=700, cfg={"ops": 5, "first": o}) for o in range(5)] + [T("cache", time_thorough=500, cfg={"ops": 7, "files": 2, "nops": 3})],
    "every history of 3 and 4 (thorough: 5) steps of request, request sorted, release, rewrite the file, plain read over three file names (one missing at first), of 5 (thorough: 7) requests and releases over two files, arbitrary values in the files; the lock's balance after every step", "histories longer than that; real concurrency of these calls is P43's")
S("P12", [J("life", cfg={"ops": 2, "kind": k}) for k in range(11)] + [J("life", cfg={"ops": 1, "kind": k, "fmt": f, "freetokens": 0}) for k in (5, 6) for f in range(1, 10)]
    + [J("robust", cfg={"mode": 0, "fmt": f, "schema": 1, "nmin": 1, "nmax": 1}) for f in range(12)] + [J("robust", cfg={"mode": 7, "fmt": f, "schema": 1, "nmin": 1}) for f in (BGEO, PDB, PDC, PTC, GEO, PDA)]
    + [T("life", time_thorough=500, cfg={"ops": 3, "kind": k}) for k in range(11)],
    "sets of all eleven origins (both backends, clones, schema clones, files of every format, headers, cached, sorted cached), every history of two (thorough: three) of fifteen kinds of use, then release; reads refused at every truncation point and in damaged compressed data", "longer histories")
NIN = {"schema": 1, "nmin": 1, "nmax": 1}
S("P31", [J("robust", cfg={"mode": 1})] + [J("robust", cfg=dict(NIN, mode=2, maxlen=3))] + [J("robust", cfg={"mode": 3, "fmt": f, "schema": 1, "nmin": 1}) for f in (0, 1, 2, 3, 4, 5, 6, 7, 10)] + [J("robust", cfg=dict(NIN, mode=4, fmt=f)) for f in range(11)]
    + [J("robust", cfg=c) for c in ({"mode": 5, "fmt": GEO, "maxlen": 4}, {"mode": 5, "fmt": GEO, "prefix": 1}, {"mode": 5, "fmt": PDA}, {"mode": 5, "pts": 1, "maxlen": 5})]
    + [J("robust", cfg=dict(NIN, mode=6, fmt=f)) for f in range(10)] + [J("robust", cfg=dict(NIN, mode=6, fmt=f, gz=1)) for f in CF] + [J("robust", cfg=dict(nmin=1, nmax=1, mode=8, fmt=f, freetokens=0, **({} if f != PTC else {"schema": x}))) for f, x in ((BGEO, 0), (PRT, 0), (GEO, 0), (PTC, 0), (PTC, 1), (PTC, 3), (PTC, 5))]
    + [T("robust", cfg={"mode": 5, "fmt": GEO, "maxlen": 5}), T("robust", cfg=dict(NIN, mode=2, maxlen=5))],
    "missing files under all 17 readable extensions with and without .gz; extensions of 0..3 (thorough: 5) arbitrary characters; every wrong magic number and later version of the nine binary formats; a file of each format under every other binary extension; text files of 0..5 arbitrary characters; a path that cannot be written under every extension; descriptions of the data not of the format: any other attribute type word in BGEO, PRT, PTC and GEO files, any other stated particle size in PTC files", "a wrong first line of a .geo file (the reader does not look at it); magic numbers equal to gzip's (the file is then taken for a compressed one)")
S("P32", [J("ext", cfg={"hold": 0, "before": 1}, covers=("end", "known", "refused")), J("ext", cfg={"hold": 0, "before": 2, "after": 2}, covers=("end", "known", "refused")), J("ext", cfg={"hold": 0, "before": 4, "after": 0, "mid": 0}, covers=("end", "known", "refused"))] + [T("ext", time_thorough=700, cfg={"hold": 0, "before": 3, "after": 3}, covers=("end", "known", "refused")), T("ext", time_thorough=700, cfg={"hold": 0, "before": 6, "after": 0, "mid": 0}, covers=("end", "known", "refused"))],
    "file names, relative or not, of up to two arbitrary characters before and after one of 27 middles, and of four arbitrary characters (thorough: three, six)", "names the file system refuses")
S("P39", [J("robust", cfg={"mode": 0, "fmt": f, "schema": 1, "nmin": 1, "nmax": 2}) for f in range(12)] + [J("robust", cfg={"mode": 0, "fmt": f, "freetokens": 0, "nmin": 1, "nmax": 1}) for f in (0, 1, 4, 6, 7, 8, 9)]
    + [J("robust", cfg=c) for c in ({"mode": 0, "fmt": BGEO, "schema": 3, "nmin": 1, "nmax": 1, "gz": 1}, {"mode": 0, "fmt": PDC, "schema": 1, "nmin": 1, "nmax": 1, "gz": 1}, {"mode": 0, "fmt": GEO, "schema": 2, "nmin": 1, "nmax": 1, "gz": 1}, {"mode": 0, "fmt": PDA, "schema": 2, "nmin": 1, "nmax": 1, "gz": 1}, {"mode": 0, "fmt": 11, "gz": 1}, {"mode": 0, "fmt": PRT, "nmin": 400, "nmax": 400, "schema": 1, "span": 300, "lo": 1500})]
    + [J("robust", cfg={"mode": 7, "fmt": f, "schema": 1, "nmin": 1}) for f in (BGEO, PDB, PDC, PTC, GEO, PDA)] + [J("robust", cfg={"mode": 9, "fmt": f, "schema": 1, "nmin": 1, "nmax": 1}) for f in range(12) if f != PRT] + [J("robust", cfg={"mode": 9, "fmt": PRT, "schema": s, "nmax": 2}) for s in (0, 1, 2)] + [T("robust", cfg={"mode": 9, "fmt": PRT, "schema": 3, "nmin": 30, "nmax": 30})]
    + [T("robust", cfg={"mode": 0, "fmt": f, "freetokens": 0, "nmin": 1, "nmax": 3}) for f in range(10)],
    "every truncation point of files of all twelve readable formats with 1..2 particles and arbitrary values, of every schema of seven formats with one particle, of compressed files, and 300 points in a longer PRT file; compressed data damaged at three places with any impossible block; every truncation point of the data inside a complete compressed stream (gzip, and zlib inside PRT), PRT headers promising 1..3 or 768 particles more than the data has, with and without arbitrary bytes behind", "bytes changed at arbitrary places in a complete file")

def ref(fmt, **kw):
    return J("ref", steps=600000000, cfg=dict({"fmt": fmt}, **kw))
ANYPTR = lambda f: {"anyptr": 0} if f == PDB else {}
S("P33", [ref(f, mode=0, hold=0) for f in range(8)] + [ref(f, mode=1, **ANYPTR(f)) for f in range(8) if f != BGEO] + [ref(BGEO, mode=1, prims=p) for p in range(3)] + [ref(BGEO, mode=1, prims=1 + i % 2, schema=x, badprim=1, nmax=1) for i, x in enumerate((1, 5, 6))]
    + [ref(BGEO, mode=1, schema=0, nmin=65536, nmax=65536, prims=2, primattrs=3, concrete=1, any=0, vertices=5000), ref(BGEO, mode=1, schema=2, nmin=3, nmax=3, prims=2, concrete=1, vertices=5000)]
    + [ref(f, mode=1, gz=1, nmin=1, nmax=1, schema=2, **({"prims": 1, "primattrs": 1} if f == BGEO else {}), **ANYPTR(f)) for f in (BGEO, PDB, PDC)] + [ref(PTC, mode=1, gz=1)]
    + [ref(PDB64, mode=1, rext=PDB, anyptr=0), ref(PDB32, mode=1, rext=PDB, anyptr=0), ref(BIN, mode=1, vlo=2, vhi=13, nmax=1)]
    + [T("ref", time_thorough=600, cfg={"fmt": f, "mode": m, "nmin": 3, "nmax": 4, **({"anyptr": 0} if f == PDB else {}), **({"prims": 1} if f == BGEO and m else {})}) for f in range(8) for m in (0, 1)],
    "the writers of .bgeo, .pdb, .pdb32, .pdb64, .prt, .bin, .pdc and .ptc against encoders written from the formats' descriptions, every schema of harness/schemas.h with 0..2 particles and arbitrary values, byte for byte (PRT: header bytes, and the inflated data); the readers on files of those encoders with every ignored field arbitrary: BGEO with primitives, vertex lists of up to 5000 and primitive attributes and 65536 points, PDB with channels of an unknown type, BIN versions 2..13, PTC versions 0..2, compressed files",
    "BGEO point and detail groups, polygon kinds other than particle systems and polygons; the spherical encoding of non-zero PTC normals")
S("P34", [J("prt", cfg={"hold": 0})] + [J("prt", cfg={"channels": 3, "type": t, "arity": (t * 2) % 5, "hold": 0}) for t in range(11)] + [J("prt", cfg={"channels": 4, "type": t, "arity": t % 5, "arstep": 2, "nmin": 2, "nmax": 2}) for t in range(11)]
    + [J("prt", cfg={"half": 1, "channels": 1, "nmin": 1, "nmax": 1, "hold": 0})] + [T("prt", cfg={"channels": 3, "type": t, "arity": a, "nmax": 4}) for t in range(11) for a in range(5)],
    "files of 2 channels of every pair of the eleven types and of 3 and 4 channels of mixed types, arities 1, 2, 3, 4 and 16, in the file's order or reversed, with and without gaps and longer headers, 0..2 (thorough: 4) particles, arbitrary values; all 65536 half floats", "half floats in channels of several particles take part of the table only (all of it in the one-channel job); doubles outside the range of float are compared with the processor's conversion")
S("P35", [J("pts", cfg={"cols": c, "lines": n, "kinds": k}) for c in range(5) for n, k in ((1, 1), (3, 4), (4, 3))] + [J("pts", cfg={"cols": c, "lines": 2, "kinds": 6, "head": 1}) for c in range(5)] + [J("pts", cfg={"cols": c, "gz": 1}) for c in (0, 4)] + [J("pts", cfg={"cols": 4, "lines": 2, "frac": 1})] + [J("pts", cfg={"cols": c, "lines": 2, "kinds": 2, "long": 1}) for c in (1, 4)] + [J("pts", cfg={"cols": c, "lines": n, "kinds": 1}) for c, n in ((0, 60), (4, 60), (4, 250), (0, 600))]
    + [T("pts", time_thorough=400, cfg={"cols": c, "lines": 5, "kinds": 4}) for c in range(5)],
    "files of 1..4 (thorough: 5), 60 and 250 or 600 data lines with 3, 4, 6, 7 or 8 columns on the first line and any of up to six numbers of columns on each later one, four spacings, with and without a final newline, three kinds of first line, plain and compressed, any finite values", "how decimal digits are parsed (libstdc++); exponents and hexadecimal spellings; data lines of other column counts first")
S("P37", [J("rib", cfg={"schema": s}) for s in range(7)] + [J("rib", cfg={"schema": 2, "nmin": 9, "nmax": 9}), J("rib", cfg={"schema": 5, "nmin": 5, "nmax": 7}), J("rib", cfg={"symname": 2, "schema": 0, "nmax": 1}), J("rib", cfg={"locale": 1, "nmax": 1})] + [T("rib", cfg={"schema": s, "nmin": 3, "nmax": 40}) for s in range(7)],
    "seven schemas with 0..2 particles and two with 5..9 (thorough: up to 40), either backend, any finite values compared up to the 6 digits printed, attribute names with two arbitrary characters", "string attributes; how decimal digits are rounded (libstdc++); names containing quotes")
S("P38", [J("loc", cfg={"fmt": f, "hold": 1}) for f in range(4)] + [J("loc", steps=100000000, cfg={"fmt": f, "hold": 1, "wide": 1, "n": n}) for f, n in ((0, 1001), (1, 1001), (2, 5), (2, 60))],
    "sets of 2, 5, 60 and 1001 particles (so that counts need grouping) written and read under the classic locale and one with ',' and '.', plain and compressed; arbitrary integers of four digits and more and arbitrary fractions", "other facets of a locale than the numeric ones")

S("P13", [J("p13", cfg={"place": p}) for p in (0, 3)] + [J("p13", cfg={"nmin": 4, "nmax": 4, "place": p, "inside": i, "radius": r, "neighbours": k}) for p, i, r, k in ((0, 0, 1, 5), (1, 2, 1, 5), (0, 5, 1, 5), (0, 4, 1, 5), (2, 1, 0, 2), (4, 3, 0, 3), (5, 3, 1, 2), (6, 1, 1, 4), (0, 3, 2, 3))]
    + [J("p13", cfg={"nmin": 4, "nmax": 4, "radius": 3, "density": 12, "place": 5, "inside": 3, "ids": 2}), J("p13", cfg={"nmin": 4, "nmax": 4, "pos": 1}), J("p13", cfg={"nmin": 4, "nmax": 4, "ids": 5}), J("p13", cfg={"refused": 1}), J("p13", cfg={"dup": 1, "nmin": 2, "nmax": 2, "freetokens": 1})]
    + [T("p13", cfg={"nmin": 4, "nmax": 4, "place": p, "inside": i, "radius": r, "neighbours": k, "freetokens": 1}) for p in range(7) for i in range(6) for r in range(3) for k in (2, 3, 5)],
    "0..4 particles at seven placements, five assignments of identifiers (negative, large, out of order; also all equal), 2..5 neighbours, four radii, six inner radii, 0..3 connections; all other attribute values (VECTOR, FLOAT[2], INT[3], FLOAT[4], two strings) arbitrary",
    "positions and identifiers are chosen among those listed, because the number of generated particles follows from them; identifiers shared by some particles only; a position that is FLOAT[3]; ties between distances")
S("P40", [J("conv", cfg={"from": f, "hold": 1, "nmax": 2}) for f in range(10)] + [J("conv", cfg={"from": f, "rich": 1, "freetokens": 0, "nmin": 2, "hold": 1}) for f in range(10)] + [J("conv", cfg={"from": f, "rich": 1, "freetokens": 0, "nmin": 0, "nmax": 0, "hold": 1}) for f in range(10) if f != PRT] + [J("conv", steps=200000000, cfg={"from": f, "rich": 1, "freetokens": 0, "nmin": 300, "nmax": 300, "hold": 1, "lastany": 1}) for f in range(10)] + [J("conv", cfg={"mode": 1})] + [T("conv", cfg={"from": f, "rich": 1, "freetokens": 1, "nmin": 0, "nmax": 4}) for f in range(10)],
    "every pair of the ten readable and writable formats (text to text and PDC to text excepted), 0..2 (thorough: 0..4) particles, and 300 of which the last is arbitrary, with seven attributes and fixed attributes, arbitrary finite values, plain and compressed, in place, over an older file; eight wrong calls", "two text formats in a row (the digits are rounded twice); options other than the two names")
S("P44", [J("any", cfg={"fmt": f, "hold": 0, "freetokens": 0}, covers=()) for f in range(11)] + [T("any", cfg={"fmt": f, "nmax": 5, "freetokens": 0}, covers=()) for f in range(11)],
    "fifteen schemas (five for .rib), 0..2 (thorough: 5) particles, arbitrary finite values, fixed attributes of three types, either backend, every writable format", "attribute names containing blanks or quotes in text formats; VECTOR attributes of other than three values")
S("P45", [J("tools", cfg={"mode": m, "freetokens": 0}) for m in range(4)] + [J("tools", cfg={"mode": 0, "nmin": 12, "nmax": 12, "freetokens": 0}), J("tools", cfg={"mode": 2, "strings": 7, "freetokens": 0, "nmax": 1})] + [J("tools", cfg={"mode": x, "freetokens": 0, "nmax": 1, **c}) for x in (1, 2) for c in ({"manyfixed": 1}, {"fixed": 0})] + [J("tools", cfg={"mode": x, "freetokens": 0, "nmax": 2, **c}) for x in (0, 1) for c in ({"badtoken": 1}, {"strings": 0})] + [J("tools", cfg={"mode": m, "nmin": 130, "nmax": 130, "freetokens": 0}) for m in range(3)] + [T("tools", cfg={"mode": m, "nmin": 4, "nmax": 6, "freetokens": 1}) for m in range(3)],
    "sets of 0..3, 12 and 130 (thorough: up to 6 with chosen tokens) particles with seven attributes and none, two or five fixed ones, arbitrary finite values compared as printed, string indices also any outside the table, every attribute, several limits, one or two indices inside and outside the range; nine wrong calls", "the width of columns; files other than .bgeo (reading is P20-P36's)")

S("P42", [J("py", cfg={"mode": m, "schema": c, "freetokens": 0}) for m, cs in ((0, (0, 2)), (1, (0, 1, 2)), (2, (0, 2)), (3, (0, 1, 2)), (4, (0, 2)), (6, (0, 2)), (7, (0, 1, 2)), (8, (0,)), (9, (0,))) for c in cs]
    + [J("py", cfg={"mode": 5, "n": n, "freetokens": 0}) for n in (1, 2)] + [J("py", cfg={"mode": 3, "n": n, "freetokens": 0}) for n in (0, 3)] + [T("py", time_thorough=800, cfg={"mode": 5, "n": 3, "freetokens": 0}), T("py", cfg={"mode": 3, "n": 5, "schema": 2, "freetokens": 1})] + [T("py", cfg={"mode": m, "schema": 1, "freetokens": 1}) for m in (0, 2, 3, 6, 7)],
    "sets of 0..3 (thorough: 5) particles with three schemas of all attribute types; any double, float, 64-bit int or bool as value, ints of any size outside C's range, sequences of 0..4 (queries: up to 40) elements as list or tuple, one wrong element of each kind, any 64-bit index; every bound function of the module; maps of names given as text, bytes or both",
    "what a handle of one set does with another set, a handle whose count or type the program changed; None as the set itself; iterators; values that are instances of subclasses or define __float__, __index__ or __len__; pickling, threads and the garbage collector; partio.py's proxy classes (they only forward to the functions checked here)",
    ["the wrapper SWIG generates from partio.i here is the one the build makes", "CPython's functions behave as documented: the executor runs them as the model pymodel.h over the real object layouts; every counterexample and sampled path is replayed inside the real interpreter"])

PJ = lambda t=J, **c: t("pj", cfg=c)
S("P41", [PJ(mode=0, n=n, na=na, nf=nf) for n, na, nf in ((0, 1, 1), (1, 2, 0), (2, 1, 1), (3, 1, 0), (1, 0, 2), (12, 1, 0), (2, 0, 0))] + [PJ(mode=0, n=1, na=1, nf=0, texts=3)] + [PJ(mode=1, kind=k, n=n) for k, n in ((0, 1), (1, 2), (2, 2), (3, 1), (4, 1), (5, 3))] + [PJ(mode=2, args=k) for k in (0, 1, 2)] + [J("pj", time=240, cfg={"mode": 2, "args": 3})]
    + [T("pj", time_thorough=1500, cfg=dict(mode=0, n=n, na=na, nf=nf, counts=k, texts=t)) for n, na, nf, k, t in ((1, 2, 1, 2, 1), (2, 1, 1, 3, 3), (40, 1, 0, 3, 2), (1, 3, 0, 1, 1), (1, 0, 3, 1, 1))] + [T("pj", time_thorough=1500, cfg={"mode": 2, "args": 4, "n": 2})] + [PJ(T, mode=1, kind=k, n=4) for k in (1, 2, 5)],
    "sets of 0, 1, 2, 3, 12 (thorough: 40) particles with up to 2 (3) attributes and fixed attributes of every type, counts 1, 2, 3 (5), any 32-bit value, any of 5 names (order, equality between the two name spaces open) and tables of 0..2 (3) of 5 texts, equal or not; directly or through JSON text, keys sorted or not; six kinds of data that does not fit; 0..3 (4) arguments, each any of 18 flags and file names",
    "other names and texts, texts that are not UTF-8 or hold NUL; JSON whose parts have other types than the converter documents; a directory or disk that refuses the output; particle file to any name that does not end in .json",
    ["the bindings are modelled by what P42, P04 and P05 decide, json and file access by their documentation (harness/pj.py); every counterexample and sampled path is replayed in CPython with the real module, json and files", "a Python int is a 128-bit term, a float an IEEE double, a text one of a finite palette"],
    "symbolic execution of the current partjson.py on Python values whose parts are Z3 terms (engine/pysym.py); truth values left open fork the path, assertions decided by Z3 for all values")

PYASSUME = ["the bindings are modelled by what P42, P04 and P05 decide, Qt by stand-ins whose widgets do nothing and whose signals call what is connected (harness/pj.py); every counterexample and sampled path is replayed in CPython with the real module and files", "a Python int is a 128-bit term, a float an IEEE double, a text one of a finite palette; the repr of equal numbers, and of no others, is equal"]
PYTECH = "symbolic execution of the current %s on Python values whose parts are Z3 terms (engine/pysym.py); truth values left open fork the path, assertions decided by Z3 for all values"
ED = lambda ops, n=2, na=1, nf=1, t=J, mode=3, **c: t("pj", **({"time_thorough": 1500} if t is T else {"time": 300}), cfg=dict(dict(mode=mode, ops=ops, n=n, na=na, nf=nf, ntexts=1), **c))
DL = lambda ops, n=2, na=1, nf=0, types=1234, t=J, **c: ED(ops, n, na, nf, t, 4, **dict(dict(types=types, counts=1), **c))
S("P46", [ED(k, na=2, counts=1) for k in (0, 1, 2, 3)] + [ED(k, ntexts=2) for k in (0, 1, 2, 3)] + [ED(4), ED(56), ED("00", 0), ED("05", 1), ED(7, 1, counts=1, read=1), ED(314, nf=0, ntexts=2), ED(145, nf=0, counts=1), ED(575, 1, counts=1), ED(22, 1, 1, 2, counts=1), ED(1, 3, 1, 0)]
    + [DL(5, 1, counts=2), DL(5, types=234), DL(5, na=2, types=34), DL(51, types=234), DL(15, types=234), DL("05", 1), DL(45, 1, types=34), DL(1, 3, 1, 1, types=34, ntexts=2), DL(3, 2, 2, 1, types=34), DL(26, 1, 1, 1, types=24), DL(575, types=234), DL(7, 1), DL(175, types=34)]
    + [ED(k, na=2, nf=2, t=T) for k in (0, 1, 2, 3)] + [ED(k, 3, 1, 1, T, ntexts=2) for k in (314, 1403, 2314, 4173, 505)] + [DL(5, t=T, types=1), DL(55, t=T, types=234), DL(5, na=2, t=T, types=24), DL(515, 3, t=T, types=34), DL(143, na=2, t=T, types=34)],
    "sets of 0..3 particles with up to 2 attributes and fixed attributes of every type, counts 1, 2, 3, one called id or none, any 32-bit value, tables of 1 or 2 of 5 texts, equal or not; one to three (thorough: four) operations, any particles or attributes chosen; the set, what the controller shows and what observers are told, a whole save, a delta, files opened",
    "the widgets; attributes of one name; an id that is not one int, or of the largest int; calls with indices or names that are not there; saving where the disk refuses", PYASSUME, PYTECH % "partedit.py")
S("P47", [J("pj", time=300, cfg=dict(mode=5, n=n, na=na, ntexts=1, **c)) for n, na, c in ((0, 1, {}), (1, 2, {}), (2, 1, {"counts": 3}), (0, 0, {}), (2, 2, {"counts": 1}), (12, 1, {"types": 14}), (1, 2, {"names": 1, "id": 0}))] + [T("pj", time_thorough=1500, cfg=dict(mode=5, n=n, na=na, ntexts=1, **c)) for n, na, c in ((1, 3, {}), (2, 2, {"counts": 3}))],
    "sets of 0, 1, 2, 12 particles with 0..2 (thorough: 3) attributes of every type, counts 1, 2, 3, 5, names partinspect treats specially or not, any 32-bit value; six filters", "how Qt draws the table; other filters; attributes of one name", PYASSUME, PYTECH % "partinspect.py")

READ, WRITE, CACHED, CACHED_SORTED, HEADERS, OWN, SORT, MISSING, CACHED_MISSING, CACHED_TWICE, MERGE, CLUSTER, CACHED_HELD, BAD = range(14)
def th(k, f=(0, 0, 0), t=J, **kw):
    c = {"threads": len(k)}
    for i, x in enumerate(k): c["k%d" % i] = x; c["f%d" % i] = f[i]
    return t("thr", **({"time_thorough": 400} if t is T else {}), cfg=dict(c, **kw))
S("P43", [th((READ, READ), (f, f)) for f in range(10)] + [th((WRITE, WRITE), (f, f)) for f in range(10)] + [th((HEADERS, HEADERS), (f, f)) for f in range(10)] + [th((READ, WRITE), (f, (f + 3) % 10)) for f in range(10)]
    + [th((READ, READ), (f, f), gz=1) for f in (GEO, PDA)] + [th((CACHED, CACHED), (f, f), shared=1) for f in (BGEO, PDB, PRT)] + [th(k, shared=1) for k in ((CACHED, CACHED_SORTED), (CACHED_SORTED, CACHED_SORTED), (CACHED, CACHED_TWICE), (CACHED_TWICE, CACHED_TWICE), (READ, CACHED), (CACHED, HEADERS))]
    + [th((CACHED_HELD, CACHED_HELD), shared=1, held=h) for h in (1, 2)] + [th((CACHED_HELD, CACHED_SORTED), shared=1, held=1), th((CACHED_SORTED, CACHED_SORTED), shared=1, held=1), th((CACHED, CACHED_SORTED), shared=1, held=1, drop=1)]
    + [th((CACHED, CACHED_SORTED), (BGEO, PDB)), th((CACHED_MISSING, CACHED_MISSING)), th((CACHED_MISSING, CACHED)), th((MISSING, READ)), th((BAD, CACHED), (PDB, BGEO)), th((BAD, BAD), (BGEO, PRT))]
    + [th(k, (BGEO, BGEO), backend=b) for b in (0, 1) for k in ((OWN, OWN), (OWN, WRITE))] + [th((SORT, SORT)), th((SORT, CACHED_SORTED)), th((MERGE, MERGE)), th((CLUSTER, CLUSTER)), th((MERGE, CLUSTER))]
    + [th((CACHED, CACHED_SORTED, CACHED), (0, 0, 0), T, shared=1), th((READ, WRITE, HEADERS), (BGEO, PDB, PRT), T), th((CACHED_TWICE, CACHED_TWICE, CACHED), (0, 0, 0), T, shared=1), th((CACHED_MISSING, CACHED, READ), (0, 0, 0), T)]
    + [th((READ, READ), (f, g), T) for f in range(10) for g in range(f)] + [th((WRITE, HEADERS), (f, g), T) for f in range(10) for g in range(10)],
    "two (thorough: three) threads, each making one of fourteen kinds of calls (read, write, headers, cached reads sorted or not and twice over shared or different files, held over or dropped by another thread, missing and damaged files, building, cloning, sorting, merging, clustering sets of their own) on every format, in every order of their lock, unlock and first-initialisation steps; every access to shared memory checked for ordering",
    "more threads; changing one set from several threads; switches between two accesses that no lock or guard orders are not run but reported as races", ["threads.h primitives behave as documented; memory accesses ordered by locks are sequentially consistent"])
