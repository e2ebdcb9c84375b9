#include "ref.h"
// P43: threads that each work on sets of their own, or share files through the cache.  The executor runs
// every order of their lock, unlock and first-initialisation steps and watches all memory they share.
enum { READ, WRITE, CACHED, CACHED_SORTED, HEADERS, OWN, SORT, MISSING, CACHED_MISSING, CACHED_TWICE, MERGE, CLUSTER, CACHED_HELD, BAD };
struct Job { int kind, fmt; Str file; Model m, c; std::ostringstream err; ParticlesDataMutable *in; };
static void query(const ParticlesData *p) {
  float lo[3] = {0.5f, -1, -1}, hi[3] = {1.5f, 1, 1}; std::vector<ParticleIndex> r; p->findPoints(lo, hi, r); check(r.size() == 1 && r[0] == 0, "box query");
  std::vector<float> d; float q[3] = {2.25f, 0, 0}; p->findNPoints(q, 1, 1.f, r, d); check(r.size() == 1 && r[0] == 1 && d[0] == 0.0625f, "nearest query");
}
static void same(const ParticlesData *p, const Model &m, int fmt) { sameSet(p, m, SCHEMA_ORDER | STRTABLE | (textFmt(fmt) ? TEXT6 : 0)); }
static void work(void *arg) {
  Job &j = *(Job *)arg; const char *f = j.file.c_str();
  switch (j.kind) {
  case READ: { ParticlesDataMutable *p = read(f, true, j.err); check(p != 0, "read"); if (!p) return; same(p, j.c, j.fmt); p->release(); break; }
  case WRITE: write(f, *j.in, false, true, j.err); same(j.in, j.m, j.fmt == GEO ? BGEO : j.fmt); break;
  case CACHED: case CACHED_SORTED: { ParticlesData *p = readCached(f, j.kind == CACHED_SORTED, true, j.err); check(p != 0, "cached read"); if (!p) return; same(p, j.c, j.fmt); if (j.kind == CACHED_SORTED) query(p); p->release(); break; }
  case CACHED_TWICE: { ParticlesData *p = readCached(f, false, true, j.err), *q = readCached(f, true, true, j.err); check(p == q && p, "one instance while it is held"); if (!p) return; p->release(); same(q, j.c, j.fmt); query(q); q->release(); break; }
  case CACHED_HELD: { ParticlesData *p = readCached(f, false, true, j.err); check(p != 0 && p == (ParticlesData *)j.in, "one instance while it is held"); if (!p) return; same(p, j.c, j.fmt); p->release(); break; }
  case HEADERS: { ParticlesInfo *h = readHeaders(f, true, j.err); check(h != 0, "headers"); if (!h) return; check(h->numParticles() == j.c.n && h->numAttributes() == (int)j.c.a.size(), "headers"); for (auto &a : j.c.a) { ParticleAttribute x; check(h->attributeInfo(a.name.c_str(), x) && x.type == a.type && x.count == a.count, "header attribute"); } h->release(); break; }
  case OWN: { ParticlesDataMutable *p = mkset(j.m, cfgi("backend", 0)), *q = clone(*p, true); p->release(); same(q, j.m, BGEO); q->release(); break; }
  case SORT: j.in->sort(); query(j.in); j.in->sort(); query(j.in); break;
  case MISSING: { ParticlesDataMutable *p = read(f, true, j.err); check(!p, "missing file"); break; }
  case CACHED_MISSING: { ParticlesData *p = readCached(f, true, true, j.err); check(!p, "missing file"); break; }
  case MERGE: { ParticlesDataMutable *p = mkset(j.m); merge(*p, *j.in); check(p->numParticles() >= j.m.n, "merged"); p->release(); break; }
  case CLUSTER: { ParticlesDataMutable *c = computeClustering(j.in, 3, 3., 50., 2, 3.); check(c != 0, "clustered"); if (c) c->release(); break; }
  case BAD: { ParticlesDataMutable *p = read(f, true, j.err); check(!p, "refused file"); if (p) p->release(); break; }
  }
}
// the file's bytes come from the independent encoders, so that the threads are the first to use the library
static void file(Job &j) {
  if (j.fmt == GEO || j.fmt == PDA) { ParticlesDataMutable *p = mkset(j.m); write(j.file.c_str(), *p, cfgi("gz", 0) > 0, true, j.err); p->release(); return; }
  Bytes b = refFile(j.fmt, j.c, Opts()); if (j.kind == BAD) b.resize(b.size() - 9); spit(j.file, b);
}
void harness() {
  static const char *K[3] = {"k0", "k1", "k2"}, *F[3] = {"f0", "f1", "f2"};
  int n = cfgi("threads", 2), shared = cfgi("shared", 0); Job *j = new Job[n]; std::ostringstream err; ParticlesData *held = 0;
  for (int t = 0; t < n; t++) {
    int k = j[t].kind = cfgi(K[t], 0); j[t].fmt = cfgi(F[t], 0); j[t].in = 0; bool own = k == MERGE || k == CLUSTER;
    if (shared && t) { j[t].fmt = j[0].fmt; j[t].file = j[0].file; j[t].m = j[0].m; j[t].c = j[0].c; continue; }
    j[t].file = path(Str(t == 0 ? "a." : t == 1 ? "b." : "c.") + EXT[j[t].fmt]);
    j[t].m = parseSchema(own ? "v3 position i1 id f1 a s1 t" : SCH[j[t].fmt][cfgi("schema", 1)]); j[t].m.n = 2; chooseValues(j[t].m, j[t].fmt);
    for (auto &a : j[t].m.a) { if (a.name == "position") for (int i = 0; i < 2; i++) for (int c = 0; c < 3; c++) a.v[i * 3 + c] = b_of(c ? 0.f : (float)(i + 1)); if (own && a.name == "id") for (int i = 0; i < 2; i++) a.v[i] = 4 - i; }
    j[t].c = carried(j[t].m, j[t].fmt);
    if (k == WRITE || k == SORT || own) j[t].in = mkset(j[t].m, k == SORT ? 0 : cfgi("backend", 0));
    else if (k != OWN && k != MISSING && k != CACHED_MISSING) file(j[t]);
  }
  if (cfgi("held", 0)) { held = readCached(j[0].file.c_str(), cfgi("held", 0) > 1, true, err); check(held != 0, "cached read"); for (int t = 0; t < n; t++) if (j[t].kind == CACHED_HELD) j[t].in = (ParticlesDataMutable *)held; }
  if (cfgi("drop", 0) && held) held->release();
  for (int t = 0; t < n; t++) spawn(work, &j[t]);
  joinAll();
  if (held && !cfgi("drop", 0)) { check(alive(held), "a held instance stays"); same(held, j[0].c, j[0].fmt); held->release(); check(!alive(held), "freed with the last holder"); }
  for (int t = 0; t < n; t++) {
    if (j[t].kind == WRITE) { ParticlesDataMutable *p = read(j[t].file.c_str(), true, err); check(p != 0, "written file is read"); if (p) { same(p, j[t].c, j[t].fmt); p->release(); } }
    if (j[t].in && j[t].kind != CACHED_HELD) j[t].in->release();
  }
  cover("end");
}
