#!/usr/bin/env python3
# Writes /verif/properties.jsonl.  Run by hand after editing.
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
C="src/lib/core/"; I="src/lib/io/"
p("P01","Particle storage keeps every value across any construction history",
 "For a particle set made with create(), any interleaving of adding attributes, adding particles one by one or in batches, and writing values leaves every previously written value of every other particle and attribute unchanged, with each (particle, attribute) pair owning its own storage. numParticles() and numAttributes() always equal what was added, addParticle()/addParticles() return the index of the first new particle, and values can be read back bit for bit through the attribute handle.",
 ["histories","inputs"],"every sequence of up to the bounded number of operations, every attribute type/count, every stored bit pattern",
 "The tests build two or three fixed sets and print them; they never re-read old values after storage was regrown.",
 [C+"ParticleSimple.cpp"],[("addAttribute reallocation","ParticlesSimple::addAttribute"),("growth","ParticlesSimple::addParticle / addParticles"),("value access","ParticlesSimple::dataInternal")])
p("P02","The interleaved backend is a particle store equivalent to the default one",
 "For a particle set made with createInterleave(), any interleaving of adding attributes, adding particles one by one or in batches, adding fixed attributes and writing values leaves every previously written value unchanged, and reading back values, counts, indices and iteration order gives the same results as the same history on a set made with create().",
 ["histories","inputs"],"every bounded operation history on both backends, every stored bit pattern",
 "No existing test touches createInterleave() beyond construction of a trivial set.",
 [C+"ParticleSimpleInterleave.cpp"],[("restriding on new attribute","ParticlesSimpleInterleave::addAttribute"),("growth","ParticlesSimpleInterleave::addParticle / addParticles"),("fixed data","ParticlesSimpleInterleave::addFixedAttribute / fixedDataInternal")])
p("P03","Attribute handles are found by name and index and names are unique",
 "After any sequence of addAttribute/addFixedAttribute calls on either backend, looking an attribute up by name and by index yields the same name, type, count and handle as were added, lookups of absent names and out-of-range indices return false, and adding a name that already exists is refused without changing the existing attributes. Particle attributes and fixed attributes are separate name spaces.",
 ["histories","inputs"],"every bounded sequence of names (with collisions), types, counts and lookup indices, including negative and too large ones",
 "Tests look up a handful of literal names in order; collisions, prefixes and out-of-range indices are not sampled.",
 [C+"ParticleSimple.cpp",C+"ParticleSimpleInterleave.cpp",C+"ParticleHeaders.cpp"],[("name map","attributeInfo / nameToAttribute"),("duplicate check","addAttribute / addFixedAttribute")])
p("P04","Indexed string tables are consistent with lookup, registration and renaming",
 "For every indexed-string attribute (particle or fixed, on either backend), registering a string returns a token whose table entry is exactly that string, registering the same string again returns the same token, looking up a string returns its token if it is in the table and -1 otherwise, and setting a token's string makes lookup of the new string return a token having that string and lookup of the old string no longer return it (unless another token still has it). Tables of different attributes never affect each other.",
 ["histories","inputs"],"every bounded sequence of register/lookup/set operations with arbitrary short string contents (including equal, empty and prefix strings)",
 "teststr.cpp registers four literals once; renames, collisions and cross-attribute interference are histories it does not reach.",
 [C+"ParticleSimple.cpp",C+"ParticleSimpleInterleave.cpp"],[("string tables","registerIndexedStr / setIndexedStr / lookupIndexedStr and the Fixed variants")])
p("P05","Iterators and accessors visit every particle exactly once, at the right data",
 "Iterating from begin() to end() (const or mutable, prefix or postfix increment) over a set of either backend visits each particle exactly once in index order and terminates, also for empty sets, a started-at-index iteration covers exactly the remaining particles, and at each step an accessor added to the iterator refers to the same storage as data(attribute, index).",
 ["histories","inputs"],"every particle count and start index within bounds, every attribute set within bounds, both backends",
 "testiterator.cpp runs one prefix loop over one particle set.",
 ["src/lib/PartioIterator.h",C+"ParticleSimple.cpp",C+"ParticleSimpleInterleave.cpp"],[("increment and block end","ParticleIterator::operator++"),("setup","setupIterator / setupConstIterator / setupAccessor")])
p("P06","Bulk reads equal per-particle reads",
 "data(attribute, count, indices, sorted, values) returns, for every index list (in any order, with repeats), exactly the values data(attribute, index) gives for each listed index, and dataAsFloat returns the same values converted to float, for both values of the sorted flag, without touching memory outside the requested output.",
 ["inputs"],"every index list and attribute type/count within bounds, every stored bit pattern",
 "No test calls the bulk readers with more than one fixed list.",
 [C+"ParticleSimple.cpp"],[("bulk copies","ParticlesSimple::dataInternalMultiple / dataAsFloat")])
p("P07","clone and cloneSchema reproduce the schema, strings and data",
 "cloneSchema() yields an empty set with exactly the same particle and fixed attributes (name, type, count, order), renamed as the optional name map says; clone() additionally reproduces all fixed values, all particle values and all indexed strings, so that every value and every string seen through the clone equals the original, and later changes to either set do not affect the other. With particles=false only the fixed data is copied.",
 ["inputs","histories"],"every schema, string table, value and name map within bounds, source in either backend",
 "testclonecopy.cpp clones one file and compares a few fields; rename maps over both attribute kinds and string tables are not quantified over.",
 [C+"Particle.cpp"],[("schema copy","cloneSchema / getMappedName"),("data copy","clone")])
p("P08","merge overrides by identifier, appends the rest and keeps strings right",
 "merge(base, delta, id0, id1) leaves every base particle whose identifiers match no delta particle unchanged, overwrites the shared attributes of a matching base particle with the delta values, and appends each delta particle with no match as a new particle carrying the delta values; attributes only in delta are added to base. Indexed strings seen through the merged set equal the strings the values stood for in the set they came from, for particle and fixed attributes, and delta is not modified. An attribute of one name but of different type or count in the two sets is no shared attribute: base keeps its own. Merging a set into itself ends, with every particle there twice, or unchanged where identifiers match.",
 ["inputs"],"every base/delta population, identifier values, schemas and string tables within bounds",
 "testmerge.cpp merges three fixed files; identifier collisions, duplicated identifiers and clashing string tables are a product space it samples once.",
 [C+"Particle.cpp"],[("merge","merge")])
p("P09","findPoints returns exactly the particles inside the box",
 "After sort(), findPoints(bboxMin, bboxMax) appends exactly the indices of the particles whose position lies inside the closed box, each exactly once, for any finite positions (including coincident and collinear ones) and any box with bboxMin <= bboxMax, and leaves what the output vector already held in place.",
 ["inputs"],"all particle positions (finite floats) for up to the bounded number of particles and all boxes",
 "testkdtree.cpp checks counts on one regular grid; degenerate position orderings that steer the tree split are not reached.",
 [C+"KdTree.h",C+"ParticleSimple.cpp"],[("tree construction","KdTree::sort / sortSubtree / nth_element"),("box query","KdTree::findPoints")])
p("P10","findNPoints returns the N nearest particles within the radius",
 "After sort(), findNPoints returns min(N, number of particles nearer than the radius) distinct indices, each with its true squared distance, such that no particle that was left out is nearer than one that was returned. The vector version and the plain-array version agree, and the latter reports as final squared radius the largest returned distance when it found N points and the search radius squared otherwise.",
 ["inputs"],"all positions, query centres, N and radii within bounds",
 "testkdtree.cpp compares with brute force on one random cloud and one grid; ties and heap replacement orders are not quantified.",
 [C+"KdTree.h",C+"ParticleSimple.cpp"],[("nearest query","KdTree::findNPoints / NearestQuery / ProtectedNPoints")])
p("P11","Cached reads share one instance per file, released exactly with the last user",
 "readCached() of the same file returns the same instance while any holder remains, the instance stays usable until the last holder releases it and is freed exactly then, a later readCached() reads the file again, different files never share an instance, and a request with sort=true yields a set whose neighbour queries work. All accesses to the shared cache tables happen under the cache's lock, which is released on every path (including failed reads).",
 ["histories","schedules"],"every bounded history of readCached/release over several files and sort flags; every shared-table access point for the lock discipline",
 "testcache.cpp runs one history on one file from one thread.",
 [C+"ParticleCaching.cpp",C+"ParticleSimple.cpp",C+"Mutex.h"],[("cache maps and refcounts","readCached / freeCached"),("release hook","ParticlesInfo::release")])
p("P12","Releasing a particle set frees everything exactly once",
 "For every particle set obtained from create(), createInterleave(), clone(), cloneSchema(), read(), readHeaders() or readCached(), any legal history of use followed by release() performs no invalid memory access, no double free, and leaves no memory allocated on behalf of that set. A read that is refused leaves nothing allocated either.",
 ["histories","inputs"],"every bounded construction history on each kind of set",
 "The test suite runs without leak or address checking.",
 [C+"ParticleSimple.cpp",C+"ParticleSimpleInterleave.cpp",C+"ParticleHeaders.cpp",C+"ParticleCaching.cpp"],[("ownership","~ParticlesSimple, ~ParticlesSimpleInterleave, freeCached")])
p("P13","computeClustering keeps the particles and adds points between neighbours",
 "computeClustering() of a set with a position and a single integer id returns a set with the same attributes, string tables and values plus an integer clusterId: every input particle in order with clusterId 0 and all its values, each followed by the particles generated for it, whose clusterId counts up from 1. A generated particle lies on the segment from its particle to one of the first `connections` particles, by id, among the numNeighbors nearest ones nearer than radiusSearch (itself included, equal ids left out); its float values are interpolated at one parameter between 0 and 1, its integers and strings are the particle's. There are density times length of them, rounded down, fading out smoothly from radiusInside (a percentage of radiusSearch, limited to 0..100) to none at radiusSearch. The input set keeps its particles and values, and a set without such a position or id gives no result.",
 ["inputs","configurations"],"all attribute values, several placements, identifiers and parameters within bounds",
 "testcluster.cpp runs it once and only checks it does not crash.",
 [C+"Particle.cpp"],[("clustering","computeClustering / addClusterAttribute / hash / smoothstep")])
def rt(id,title,st,q,why,files,mech): p(id,title,st,["inputs"],q,why,files,mech)
rt("P20","BGEO files round-trip schema, values, strings and fixed attributes",
 "Writing any particle set with a position attribute to .bgeo and reading it back gives the same number of particles, the same attributes (name, type, count) with the same values bit for bit, the same indexed strings, and the same fixed attributes, fixed values and fixed indexed strings.",
 "all schemas, values, strings and counts within bounds","testio.cpp round-trips one random set and never compares the data.",
 [I+"BGEO.cpp",I+"PartioEndian.h"],[("writer","writeBGEO"),("reader","readBGEO / getAttributes")])
rt("P21","PDB files round-trip in 32-bit, 64-bit and auto-detected form",
 "Writing a set to .pdb, .pdb32 or .pdb64 and reading it back through the same extension, or through .pdb for either layout, gives the same particles, the same FLOAT, VECTOR and INT attributes and bit-identical values.",
 "all schemas of supported types, values and counts within bounds","testio.cpp never compares the data it reads back.",
 [I+"PDB.cpp",I+"pdb.h"],[("reader/writer","readPDBHelper / writePDBHelper"),("layout detection","readPDB")])
rt("P22","PRT files round-trip float and int attributes",
 "Writing a non-empty set to .prt and reading it back gives the same particle count and the same FLOAT, VECTOR and INT attributes (any count, names starting with a lower-case letter and shorter than 32 characters) with bit-identical values; attributes of other types are left out without disturbing the rest.",
 "all schemas, values and counts within bounds, any compressed chunking","testio.cpp never compares the data it reads back.",
 [I+"PRT.cpp"],[("writer","writePRT / write_buffer"),("reader","readPRT / read_buffer")])
rt("P23","BIN (RealFlow) files round-trip the fixed RealFlow schema",
 "Writing a set that carries attributes of the RealFlow schema to .bin and reading it back gives the same particle count and, for every RealFlow channel, the value the particle had, bit for bit; channels absent from the source come back as the documented defaults.",
 "all values and counts within bounds","testio.cpp never compares the data it reads back.",
 [I+"BIN.cpp"],[("writer","writeBIN"),("reader","readBIN")])
rt("P24","PDC files round-trip scalar and vector float attributes",
 "Writing a set of FLOAT[1] and VECTOR attributes to .pdc and reading it back gives the same attribute names and types, the same particle count and bit-identical values.",
 "all names, schemas, values and counts within bounds","testio.cpp never compares the data it reads back.",
 [I+"PDC.cpp"],[("writer","writePDC"),("reader","readPDC")])
rt("P25","PTC files round-trip position, radius and user float channels",
 "Writing a set to .ptc and reading it back gives the same particle count, bit-identical positions and radius, and bit-identical values for the float, color and matrix channels the format carries.",
 "all schemas of carried types, values and counts within bounds (normals that are exactly zero; the spherical normal encoding itself is outside)","testio.cpp never compares the data it reads back.",
 [I+"PTC.cpp"],[("writer","writePTC"),("reader","readPTC / ParseSpec")])
rt("P26","GEO text files round-trip schema, values, strings and fixed attributes",
 "Writing any particle set with a position to .geo and reading it back gives the same number of particles, the same attributes, values equal up to the printed precision, and the same indexed strings, whatever characters (quotes, backslashes, spaces) they contain.",
 "all schemas, finite values and strings within bounds","testio.cpp never compares the data it reads back.",
 [I+"GEO.cpp"],[("writer","writeGEO / writeString"),("reader","readGEO / scanString / readGeoAttr")])
rt("P27","PDA text files round-trip",
 "Writing a set of FLOAT[1], INT[1] and VECTOR attributes to .pda and reading it back gives the same attributes in the same order, the same particle count and values equal up to the printed precision.",
 "all schemas of supported types, finite values and counts within bounds","testio.cpp never compares the data it reads back.",
 [I+"PDA.cpp"],[("writer","writePDA"),("reader","readPDA")])
p("P28","Compression is transparent and gzip streams are decoded in full",
 "For every format that supports compression, writing with forceCompressed or to a .gz name and reading the result back gives exactly what the uncompressed path gives, for any data length relative to the internal buffers. A gzip file with any legal RFC 1952 header (extra field, name, comment, header CRC) decodes to its payload, an uncompressed file of two bytes or more opened through the same entry is passed through unchanged, and a truncated gzip file ends the stream instead of hanging.",
 ["inputs","fault_sequences"],"all payload bytes and lengths within bounds, all header flag combinations, all truncation points within bounds",
 "Tests write .gz files smaller than one buffer and do not look at the result.",
 [I+"ZIP.cpp",I+"ZIP.h"],[("decompressing buffer","ZipStreambufDecompress"),("compressing buffer","ZipStreambufCompress"),("gzip header","GZipFileHeader::Read / Write")])
p("P29","Archive members written to a zip file are read back unchanged",
 "Every file added to a zip archive through the archive writer is listed by name in the archive reader and reads back with exactly the bytes written, for any number of members and any member length; asking for an absent member gives no stream.",
 ["inputs","histories"],"all member names, contents and lengths within bounds",
 "No test opens an archive.",
 [I+"ZIP.cpp",I+"ZIP.h"],[("archive writer","ZipFileWriter::Add_File"),("central directory","ZipFileReader::Find_And_Read_Central_Header / Get_File")])
p("P30","readHeaders agrees with read",
 "For every supported format and every well-formed file, readHeaders() reports the same number of particles and the same attributes (name, type, count, order) and fixed attributes as read() of the same file.",
 ["inputs"],"all files produced by the writers (and reference encoders for read-only formats) for all schemas within bounds",
 "Tests print headers of two files without comparing.",
 [C+"ParticleHeaders.cpp",I+"ParticleIO.cpp",I+"BGEO.cpp",I+"GEO.cpp",I+"PDB.cpp",I+"PRT.cpp",I+"PTC.cpp",I+"PDC.cpp",I+"PDA.cpp",I+"BIN.cpp",I+"MC.cpp",I+"PTS.cpp"],[("headersOnly path","read* functions"),("schema-only container","ParticleHeaders")])
p("P31","Unreadable or foreign files are refused cleanly",
 "read() and readHeaders() of a missing file, of a file with an unknown extension, or of a binary file whose magic number or version is not the format's own, or of a BGEO, GEO, PRT or PTC file whose description of its data is not the format's (an attribute type the format does not have; a stated particle size which is not that of the attributes), return null, and write() to an unknown extension or to a path that cannot be opened writes nothing and leaves the set as it was; none of them crashes, touches invalid memory, keeps a lock or leaves memory allocated.",
 ["inputs","fault_sequences"],"all values of the magic/version bytes, all file lengths within bounds, all formats",
 "Tests only read well-formed files.",
 [I+"ParticleIO.cpp"],[("dispatch","read / readHeaders / write"),("magic checks","each reader's first reads")])
p("P32","Extensions select the right codec",
 "The format used is decided only by the last extension (ignoring one trailing .gz) of the file name, for any prefix of directories and dots; a name with no extension or with .gz alone is refused, and the reader and the writer agree on the format chosen.",
 ["inputs"],"all file-name strings within bounds",
 "Tests use a dozen literal names.",
 [I+"ParticleIO.cpp"],[("extension parsing","extensionIgnoringGz"),("tables","readers / writers")])
p("P33","Written binary files follow the documented on-disk layout",
 "The bytes written for .bgeo, .pdb, .prt, .pdc, .ptc and .bin are exactly those an independent encoder of the format produces from the same particles: magic numbers, byte order, counts, names, offsets and values; and the readers decode independently encoded files to the same particles.",
 ["inputs"],"all values, counts and schemas within bounds",
 "Round-trip tests cannot see a symmetric change of writer and reader that breaks existing files.",
 [I+"BGEO.cpp",I+"PDB.cpp",I+"PRT.cpp",I+"PDC.cpp",I+"PTC.cpp",I+"BIN.cpp",I+"PartioEndian.h"],[("byte order","PartioEndian.h read/write"),("writers","write*")])
p("P34","PRT channels of every numeric type decode to the right value",
 "A .prt file with any mix of channel types (int8/16/32/64, uint8/16/32/64, float16/32/64), arities, offsets and order, as other applications write them, is decoded so that every attribute value is the channel's value converted to the attribute's type; half floats decode to their IEEE value for all 65536 bit patterns.",
 ["inputs"],"all values of every channel type, all channel orders and paddings within bounds",
 "No test reads a PRT file with foreign channel types.",
 [I+"PRT.cpp",I+"half2float.h"],[("channel conversion","readPRT"),("half tables","half2float")])
p("P35","PTS point lists decode every column into its attribute",
 "For a .pts file with any supported number of columns, each point's position (in the reader's axis convention), intensity and color are taken from the right columns, and the number of particles is the number of well-formed data lines, that is, those with exactly as many columns as the first one.",
 ["inputs"],"all column layouts and finite values within bounds",
 "No test reads a PTS file.",
 [I+"PTS.cpp"],[("column mapping","readPTS")])
p("P36","Maya cache (.mc) particle files decode to their arrays",
 "For any well-formed .mc particle cache, every per-particle double or float vector array becomes an attribute with the array's name (without the object's prefix), the id array as INT, a double array as FLOAT and a vector array as VECTOR, holding for each particle the array's value converted to that type.",
 ["inputs"],"all array values, kinds and particle counts within bounds",
 "No test reads an MC file.",
 [I+"MC.cpp"],[("block parsing","readMC / ReadAttrHeader")])
p("P37","RIB export contains every particle's position and every attribute value",
 "Writing a set to .rib emits one Points primitive (two, one per motion sample, when there is an attribute position2 or P2) whose position list has the particles' positions in order; the width is emitted per particle when there is a radius, radiusPP or width attribute and as a constant width of 1 otherwise, and every other number attribute appears under its name with one value group per particle in order.",
 ["inputs"],"all schemas, values and counts within bounds",
 "No test writes a RIB file.",
 [I+"RIB.cpp"],[("writer","writeRIB")])
p("P38","Text formats do not depend on the global locale",
 "Text files (.geo, .pda, .pts, .rib) are written and parsed identically whatever the application's global C++ locale is.",
 ["configurations","inputs"],"a global locale with a different decimal point and digit grouping, all finite values within bounds",
 "Tests run in the C locale only.",
 [I+"GEO.cpp",I+"PDA.cpp",I+"PTS.cpp",I+"RIB.cpp"],[("imbue","stream imbue calls in each text reader/writer")])
p("P39","Truncated or damaged files never corrupt memory or hang",
 "Reading (fully or headers only) any prefix of a well-formed file of any format the library reads, plain or gzip-compressed, a gzip file whose compressed data is damaged, or a compressed file (also PRT's own compressed part) that is complete but holds less data than the file's header promises, terminates, performs no invalid memory access, and returns either null or a set that can be inspected and released, leaving nothing allocated.",
 ["fault_sequences","inputs"],"every truncation point of files for small schemas; damaged blocks in compressed files",
 "Tests only read complete files.",
 [I+"BGEO.cpp",I+"PDB.cpp",I+"PRT.cpp",I+"PDC.cpp",I+"PTC.cpp",I+"BIN.cpp",I+"MC.cpp",I+"GEO.cpp",I+"PDA.cpp",I+"PTS.cpp",I+"ZIP.cpp"],[("stream checks","each reader's loops")])
p("P40","partconvert preserves the particles it converts",
 "Running partconvert on an input and an output file name, in any two formats, compressed or not, also onto the input itself or over an older longer file, writes an output that reads back as the input as far as the two formats carry it, and leaves the input file alone. When the input cannot be read or the output's format is unknown it says so and writes nothing, and a wrong number of arguments is refused with a non-zero status.",
 ["inputs","configurations"],"all pairs of formats, all values and argument forms within bounds",
 "No test runs partconvert.",
 ["src/tools/partconvert.cpp"],[("tool main","main")])
p("P41","JSON conversion of particle sets is lossless",
 "toJson() followed by fromJson(), directly or through JSON text, reproduces a particle set: same number of particles, attributes, types, counts, values (every float to the bit, NaN as NaN), indexed strings under their indices (also where a table repeats a text) and fixed attributes; toJson() leaves the set as it was. fromJson() on data someone else wrote never fails because an entry does not fit: a particle's value for an attribute that is not defined, a value of another length, strings of an attribute that is not defined are skipped with a message on stderr, sections that are missing are taken as empty, others are ignored, and everything else arrives; no message when nothing is skipped. The command converts .json to a particle file and a particle file to JSON as the two names say, compressed exactly when -c asks for it, with exit status 0, writing nothing but its output; -h prints the usage; a wrong number of files, an input that is missing or cannot be read, or an extension it does not know end with a non-zero status and write nothing.",
 ["inputs"],"all particle sets, JSON data and arguments within bounds",
 "testpartjson.py converts one file.",
 ["src/tools/partjson.py"],[("conversion","toJson / fromJson / main")])
p("P46","Editing a particle set changes what was asked and nothing else, and saves what is there",
 "Every operation of partedit's data controller (ParticleData) does what it says and leaves the rest: removing particles keeps the others in order, with all attributes, values, string tables under their indices, and fixed attributes; removing attributes or fixed attributes keeps all others with types, counts, values and strings; adding an attribute, fixed or not, gives every particle the default value; adding a particle copies the last one (zeros for the first), with the largest id plus one where there is an int attribute id; setting a value changes that value alone. Observers are told of exactly the change, and the set is to be saved (dirty) until it is saved whole. A whole save writes exactly the set shown. A delta holds, in order, with all attributes and string tables, exactly the particles whose values differ from those of every particle of the set as last opened or saved whole, whatever was removed since, and changes neither the set nor its baseline nor what is to be saved. Opening a file shows what it holds; a file that does not exist changes nothing, and one that cannot be read shows an empty set, with a message.",
 ["inputs","histories"],"all particle sets, operations and values within bounds",
 "No test runs partedit.",
 ["src/tools/partedit.py"],[("controller","ParticleData"),("copies","copyParticles / copyIndexedStrs / createDelta")])
p("P47","The spreadsheet shows every value of a particle set once, under its name",
 "partinspect's model of a particle set has a row per particle and, after the index, a column for every component of every attribute, each exactly once, headed name[component], whose cells are that particle's values of that component; cells outside have no content. With attributes only, every attribute is listed with its name, type and count. The filter keeps, besides the index, exactly the columns (or attributes) whose heading contains one of the words typed, all of them when none is typed.",
 ["inputs"],"all particle sets and the filters listed within bounds",
 "No test runs partinspect.",
 ["src/tools/partinspect.py"],[("model","PartioTreeModel"),("filter","FilterModel")])
p("P42","The Python bindings expose the same data as the C++ API, and fail only by raising",
 "Every value, attribute handle, string, query result, file and set obtained through the Python bindings equals what the C++ API gives for the same call: what set or setFixed stores (floats, ints, bools converted as C converts them) get and getFixed return, handles carry name, type and count and outlive their set, indexed strings keep their tokens, clones, merges and clusters are the library's. A call raises an exception exactly when it fails: wrong kinds or numbers of arguments, None for a name, integers that do not fit, indices that name no particle or attribute (get and lookup), sequences of another length; such a call crashes nothing and changes no value other than the one being set. Nothing a call makes stays allocated once the program lets go of it.",
 ["inputs","programs"],"every value, sequence, index and wrong argument for every function of the module within bounds",
 "testpartio.py samples six calls with good arguments.",
 ["src/py/partio.i"],[("bindings","partio.i")])
p("P43","Concurrent use of different sets and files needs no locking by the caller",
 "Threads that each create, read, write, clone or release their own particle sets, or call readCached() and release() on shared files, do not race with one another: any state the library shares between calls (reader and writer tables, byte-order and conversion tables, scratch buffers, the read cache) is only touched under the library's own lock or after its one-time initialisation, and the outcome is that of the calls made one after the other.",
 ["schedules","inputs"],"every interleaving of two threads' calls within bounds at lock, unlock and first-initialisation points, every shared access",
 "The test suite is single-threaded.",
 [C+"ParticleCaching.cpp",C+"Mutex.h",I+"ParticleIO.cpp",I+"BGEO.cpp",I+"half2float.h"],[("cache lock","PartioMutex in readCached / freeCached"),("codec tables","readers() / writers()")])
p("P44","Sets of any schema are written safely and unsupported attributes do no harm",
 "write() accepts a set of any schema for every format: it never reads or writes outside the particles' memory and leaves the set as it was. Attributes the format has no form for (wrong type or number of values for the format or for the channel of that name) are left out or stored as plain numbers (strings as their token), and all the others come back unharmed. A set without a usable position (three floats) is refused by .bgeo, .geo and .ptc.",
 ["inputs"],"fifteen schemas of unusual types and counts under the names the formats know, all values within bounds, both backends",
 "Tests only write schemas that fit.",
 [I+"BIN.cpp",I+"PTC.cpp",I+"PDA.cpp",I+"PDC.cpp",I+"BGEO.cpp",I+"GEO.cpp",I+"PRT.cpp",I+"PDB.cpp",I+"RIB.cpp"],[("attribute selection","each writer's loop over the attributes")])
p("P45","partinfo and partattr report what the file holds",
 "partattr prints the named attribute of the first particles (10, or as many as asked, at most all), all components for floats and the first one for integers and strings (as the string, or <out-of-bounds> when its table has none), and partinfo prints the particle count, every attribute's type, count and name, the fixed values and string tables, or every value of each particle asked for by number (all with -a, OUT OF RANGE beyond the last). Both leave the file alone and refuse a missing file, a missing attribute or a wrong call with a message and a non-zero status.",
 ["inputs","configurations"],"all attribute values, particle counts, indices and argument forms within bounds",
 "No test runs the tools.",
 ["src/tools/partattr.cpp","src/tools/partinfo.cpp"],[("tool mains","main / printParticle")])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P), max(len(x["title"]) for x in P))
