#include "h.h"
// Iterators and accessors.
static ParticlesDataMutable *p; static ParticleAttribute a, b, c; static int n;
template <class IT> static void walk(IT it, IT end, int start, int post) {
  ParticleAccessor x(a), y(b), z(c); it.addAccessor(x); it.addAccessor(y); it.addAccessor(z);
  int k = 0;
  while (it != end) {
    check(k < n - start, "iteration terminates"); check(it.index == (size_t)(start + k), "index order");
    for (int j = 0; j < 3; j++) check(ldu32(&x.template data<DataV>(it)[j]) == ldu32(p->data<float>(a, start + k) + j), "accessor VECTOR");
    check(y.template data<DataI>(it)[0] == p->data<int>(b, start + k)[0], "accessor INT"); for (int j = 0; j < 5; j++) check(ldu32(x.template raw<float>(it) + (j % 3)) == ldu32(p->data<float>(a, start + k) + (j % 3)) && ldu32(z.template raw<float>(it) + j) == ldu32(p->data<float>(c, start + k) + j), "raw accessor");
    check((const void *)x.template raw<float>(it) == (const void *)p->data<float>(a, start + k), "accessor storage");
    if (post) { IT o = it++; check(o.index == (size_t)(start + k), "postfix returns the old position"); } else { IT &r = ++it; check(&r == &it, "prefix returns itself"); }
    k++;
    if (k > n) break;
  }
  check(k == n - start, "every particle visited exactly once"); check(it == end, "ends at end()"); check(!it.valid(), "end is not valid");
}
// positions compare equal exactly if they are the same, whichever way they were reached; a copy is a position of its own
template <class P, class IT> static void compare(P *p, IT (*at)(P *, int), ParticlesDataMutable *other) {
  int i = choice("i", n + 1), j = choice("j", n + 1); IT x = p->begin(), y = p->begin(); for (int k = 0; k < i; k++) ++x; if (choice("jump", 2) && j < n) y = at(p, j); else for (int k = 0; k < j; k++) y++;
  check((x == y) == (i == j) && (y == x) == (i == j), "equal exactly if at the same place"); check((x != y) == (i != j) && (y != x) == (i != j), "different exactly if not at the same place");
  IT e = p->end(), u; check((x == e) == (i == n) && (e != x) == (i != n) && x.valid() == (i < n) && !u.valid(), "the end"); IT o = ((P *)other)->begin(); check(o != x && x != o && !(o == x), "places in another set");
  if (i < n) { ParticleAccessor f(b), g(b); x.addAccessor(f); IT c(x); check(c == x, "a copy"); c.addAccessor(g); ++c; check(c != x && x.index == (size_t)i && f.template data<DataI>(x)[0] == p->template data<int>(b, i)[0], "the original stays"); if (i + 1 < n) check(g.template data<DataI>(c)[0] == p->template data<int>(b, i + 1)[0], "the copy goes on"); else check(c == e, "the copy ends"); y = x; check(y == x && !(y != x), "assigned"); }
}
static ParticlesDataMutable::iterator atM(ParticlesDataMutable *p, int k) { return p->setupIterator(k); }
static ParticlesData::const_iterator atC(const ParticlesData *p, int k) { return p->setupConstIterator(k); }
void harness() {
  p = cfgi("backend", 0) ? createInterleave() : create(); a = p->addAttribute("position", VECTOR, 3); b = p->addAttribute("id", INT, 1); c = p->addAttribute("w", FLOAT, 5);
  int mode = cfgi("mode", 0); n = cfgi("nmin", 0) + choice("n", cfgi("nmax", 5) + 1 - cfgi("nmin", 0));
  if (n) { if (choice("batch", 2)) p->addParticles(n); else for (int i = 0; i < n; i++) p->addParticle(); }
  for (int i = 0; i < n; i++) { for (int j = 0; j < 3; j++) { u32 x = symbits("v"); memcpy(p->dataWrite<float>(a, i) + j, &x, 4); } *p->dataWrite<int>(b, i) = symi("id"); for (int j = 0; j < 5; j++) { u32 x = symbits("w"); memcpy(p->dataWrite<float>(c, i) + j, &x, 4); } }
  const ParticlesData *q = p;
  if (mode == 0) walk(p->begin(), p->end(), 0, 0);
  else if (mode == 1) walk(q->begin(), q->end(), 0, 0);
  else if (mode == 2) walk(p->begin(), p->end(), 0, 1);
  else if (mode == 3) walk(q->begin(), q->end(), 0, 1);
  else if (mode == 4) { if (!n) assume(false); int s = choice("start", n); walk(p->setupIterator(s), p->end(), s, choice("post", 2)); }
  else if (mode == 5) { if (!n) assume(false); int s = choice("start", n); walk(q->setupConstIterator(s), q->end(), s, choice("post", 2)); }
  else if (mode == 6) { int m = 1 + choice("more", 3); int o = n; ParticlesDataMutable::iterator it = p->addParticles(m); n += m; for (int i = o; i < n; i++) { for (int j = 0; j < 3; j++) { u32 x = symbits("v"); memcpy(p->dataWrite<float>(a, i) + j, &x, 4); } *p->dataWrite<int>(b, i) = symi("id"); for (int j = 0; j < 5; j++) { u32 x = symbits("w"); memcpy(p->dataWrite<float>(c, i) + j, &x, 4); } } walk(it, p->end(), o, 0); }
  else if (mode == 8 || mode == 9) { ParticlesDataMutable *o = createInterleave(); o->addAttribute("position", VECTOR, 3); o->addParticles(3); if (mode == 8) compare(p, atM, o); else compare(q, atC, o); o->release(); }
  else { // writing through a mutable accessor
    ParticleAccessor x(a), z(b); ParticlesDataMutable::iterator it = p->begin(); it.addAccessor(x); it.addAccessor(z); std::vector<u32> w; for (ParticlesDataMutable::iterator e = p->end(); it != e; ++it) { if (w.size() > 30) break; for (int j = 0; j < 3; j++) { u32 v = symbits("nv"); w.push_back(v); x.data<DataV>(it)[j] = f_of(v); } u32 v = symbits("nv"); w.push_back(v); z.data<DataI>(it)[0] = (int)v; }
    check((int)w.size() == 4 * n, "writes"); for (int i = 0; i < n; i++) { for (int j = 0; j < 3; j++) check(ldu32(p->data<float>(a, i) + j) == w[4 * i + j], "written through accessor"); check((u32)*p->data<int>(b, i) == w[4 * i + 3], "int written through accessor"); } }
  p->release(); cover("end"); if (n == 0) cover("empty");
}
