// P42: the bindings.  The wrapper SWIG makes of src/py/partio.i is part of this file; under the symbolic executor it runs
// over the model of the interpreter in pymodel.h, natively inside CPython.
#include "partio_wrap.cxx"
#undef T
#include "ref.h"
#include "gz.h"
#ifdef SX
#include "pymodel.h"
#endif
static PyMethodDef *method(const char *name) { for (PyMethodDef *m = SwigMethods; m->ml_name; m++) if (!strcmp(m->ml_name, name)) return m; return 0; }
enum Exc { NOEXC, TYPEERR, VALUEERR, INDEXERR, OVERERR, OTHERERR };
static Exc lastExc;
static PyObject *py_invoke(PyMethodDef *m, PyObject *args) {
#ifdef SX
  return pym_call(m, args);
#else
  if (m->ml_flags & METH_O) return m->ml_meth(0, PyTuple_GET_ITEM(args, 0));
  return m->ml_meth(0, m->ml_flags & METH_NOARGS ? 0 : args);
#endif
}
// calls a function of the module; the arguments' references are given away
static PyObject *call(const char *name, std::initializer_list<PyObject *> as) {
  PyMethodDef *m = method(name); check(m != 0, "the module has the function"); if (!m) return 0;
  PyObject *t = PyTuple_New((Py_ssize_t)as.size()); Py_ssize_t i = 0; for (auto a : as) PyTuple_SetItem(t, i++, a);
  PyObject *r = py_invoke(m, t); Py_DECREF(t); bool e = PyErr_Occurred() != 0;
  check((r == 0) == e, "a function fails exactly when it sets an exception");
  lastExc = !e ? NOEXC : PyErr_ExceptionMatches(PyExc_TypeError) ? TYPEERR : PyErr_ExceptionMatches(PyExc_ValueError) ? VALUEERR : PyErr_ExceptionMatches(PyExc_IndexError) ? INDEXERR : PyErr_ExceptionMatches(PyExc_OverflowError) ? OVERERR : OTHERERR;
  PyErr_Clear(); return r;
}
static void done(PyObject *o) { check(o != 0, "the function succeeds"); Py_XDECREF(o); }
static void none(PyObject *o) { check(o == Py_None, "the function gives None"); Py_XDECREF(o); }
static void fails(PyObject *o) { check(o == 0, "the function raises an exception"); Py_XDECREF(o); }
static PyObject *keep(PyObject *o) { Py_INCREF(o); return o; }
static PyObject *pys(const Str &s) { return PyUnicode_FromStringAndSize(s.c_str(), (Py_ssize_t)s.size()); }
static PyObject *pyi(long v) { return PyLong_FromLong(v); }
static bool isStr(PyObject *o, const Str &s) { if (!o || !PyUnicode_Check(o)) return false; Py_ssize_t n = 0; const char *c = PyUnicode_AsUTF8AndSize(o, &n); return c && Str(c, (size_t)n) == s; }
static long asInt(PyObject *o) { check(o && PyLong_Check(o), "an int"); return o && PyLong_Check(o) ? PyLong_AsLong(o) : 0; }
static long takeInt(PyObject *o) { long v = asInt(o); Py_XDECREF(o); return v; }
static PyObject *bigInt(int k) { // 1: 2^63.., 2: 2^70, 3: 2^2000, 4: -2^70
#ifdef SX
  return pym_bigint(k);
#else
  PyObject *one = PyLong_FromLong(k == 4 ? -1 : 1), *sh = PyLong_FromLong(k == 3 ? 2000 : 70), *r = PyNumber_Lshift(one, sh); Py_DECREF(one); Py_DECREF(sh); return r;
#endif
}
template <class C> static C *cppOf(PyObject *o, swig_type_info *t) { void *p = 0; bool ok = SWIG_IsOK(SWIG_ConvertPtr(o, &p, t, 0)); check(ok, "an object of the class"); PyErr_Clear(); return ok ? (C *)p : 0; }
static ParticlesDataMutable *setOf(PyObject *o) { return cppOf<ParticlesDataMutable>(o, SWIGTYPE_p_ParticlesDataMutable); }
static PyObject *wrapSet(ParticlesDataMutable *p) { return SWIG_NewPointerObj(SWIG_as_voidptr(p), SWIGTYPE_p_ParticlesDataMutable, SWIG_POINTER_OWN); }
static void start() {
#ifdef SX
  pym_start(); PyInit__partio();
  static PymClass K[10]; static const char *N[] = {"SwigPyIterator", "ParticleAttribute", "FixedAttribute", "ParticlesInfo", "ParticlesData", "ParticleIteratorTrue", "ParticleIteratorFalse", "ParticlesDataMutable", 0};
  for (int i = 0; N[i]; i++) {
    pym_type(&K[i].t, N[i], 0, pym_free_inst); K[i].t.tp_new = pym_new_inst; K[i].t.tp_base = i == 4 ? &K[3].t : i == 7 ? &K[4].t : 0; Str d = Str("delete_") + N[i], r = Str(N[i]) + "_swigregister";
    PyMethodDef *m = method(d.c_str()); if (m) K[i].destroy = pym_func(m); done(call(r.c_str(), {(PyObject *)&K[i].t}));
  }
#else
  setenv("PYTHONMALLOC", "malloc", 1); setenv("PYTHONDONTWRITEBYTECODE", "1", 1); PyImport_AppendInittab("_partio", PyInit__partio); Py_InitializeEx(0);
  PyRun_SimpleString("import sys; sys.path.insert(0, '" PYOUT "')"); PyObject *m = PyImport_ImportModule("partio"); if (!m) { PyErr_Print(); abort(); }
#endif
}
// handles as Python objects
static PyObject *handle(PyObject *set, const MAttr &a, bool fixed) { PyObject *h = call(fixed ? "ParticlesInfo_fixedAttributeInfo" : "ParticlesInfo_attributeInfo", {keep(set), pys(a.name)}); check(h && h != Py_None, "the attribute is found"); return h; }
static const char *CL(bool fixed) { return fixed ? "FixedAttribute" : "ParticleAttribute"; }
static void handleIs(PyObject *h, const MAttr &a, bool fixed) {
  Str c = CL(fixed); check(takeInt(call((c + "_type_get").c_str(), {keep(h)})) == (long)a.type, "type of the handle"); check(takeInt(call((c + "_count_get").c_str(), {keep(h)})) == a.count, "count of the handle");
  PyObject *n = call((c + "_name_get").c_str(), {keep(h)}); check(isStr(n, a.name), "name of the handle"); Py_XDECREF(n);
}
// everything the bindings tell of a set, against the model
static void sameThroughPython(PyObject *set, const Model &m, bool values = true) {
  check(takeInt(call("ParticlesInfo_numParticles", {keep(set)})) == m.n, "numParticles"); check(takeInt(call("ParticlesInfo_numAttributes", {keep(set)})) == (long)m.a.size(), "numAttributes"); check(takeInt(call("ParticlesInfo_numFixedAttributes", {keep(set)})) == (long)m.f.size(), "numFixedAttributes");
  for (int fx = 0; fx < 2; fx++) { const std::vector<MAttr> &v = fx ? m.f : m.a;
    for (size_t i = 0; i < v.size(); i++) {
      const MAttr &a = v[i]; PyObject *h = handle(set, a, fx); if (!h) return; handleIs(h, a, fx);
      PyObject *h2 = call(fx ? "ParticlesInfo_fixedAttributeInfo" : "ParticlesInfo_attributeInfo", {keep(set), pyi((long)i)}); check(h2 && h2 != Py_None, "attribute by index"); if (h2) handleIs(h2, a, fx); Py_XDECREF(h2);
      if (values) for (int j = 0; j < (fx ? 1 : m.n); j++) {
        PyObject *t = fx ? call("ParticlesData_getFixed", {keep(set), keep(h)}) : call("ParticlesData_get", {keep(set), keep(h), pyi(j)}); bool ok = t && PyTuple_Check(t) && PyTuple_Size(t) == a.count; check(ok, "a tuple of the attribute's count");
        if (ok) for (int k = 0; k < a.count; k++) { PyObject *o = PyTuple_GetItem(t, k); u32 w = a.v[(size_t)(j * a.count + k)];
          if (a.type == INT || a.type == INDEXEDSTR) { long g = asInt(o); check(g == (long)(int)w, "integer value"); }
          else { check(o && PyFloat_Check(o), "a float"); if (o && PyFloat_Check(o)) { double g = PyFloat_AS_DOUBLE(o), e = (double)f_of(w); check(b_of(g) == b_of(e) || (g != g && e != e), "real value"); } } }
        Py_XDECREF(t);
      }
      if (a.type == INDEXEDSTR && values) {
        PyObject *l = call(fx ? "ParticlesData_fixedIndexedStrs" : "ParticlesData_indexedStrs", {keep(set), keep(h)}); bool ok = l && PyList_Check(l) && PySequence_Size(l) == (Py_ssize_t)a.strs.size(); check(ok, "list of strings");
        if (ok) for (size_t k = 0; k < a.strs.size(); k++) { PyObject *o = PySequence_GetItem(l, (Py_ssize_t)k); check(isStr(o, a.strs[k]), "string of the list"); Py_XDECREF(o); }
        Py_XDECREF(l);
        for (size_t k = 0; k < a.strs.size(); k++) { size_t first = 0; while (a.strs[first] != a.strs[k]) first++; if (first == k) check(takeInt(call(fx ? "ParticlesData_lookupFixedIndexedStr" : "ParticlesData_lookupIndexedStr", {keep(set), keep(h), pys(a.strs[k])})) == (long)k, "lookup of a string"); }
        check(takeInt(call(fx ? "ParticlesData_lookupFixedIndexedStr" : "ParticlesData_lookupIndexedStr", {keep(set), keep(h), pys("no such string")})) == -1, "lookup of an unknown string");
      }
      Py_DECREF(h);
    }
  }
}
static const char *SC[] = {"v3 position i2 ij f1 a s1 tag +f2 g +i1 h +s1 n", "v3 position f1 a", "i1 id v3 position s2 tags +v3 w"};
static Model someModel(int n) { Model m = parseSchema(SC[cfgi("schema", 0)]); m.n = n; fillModel(m); return m; }
static bool ints(const MAttr &a) { return a.type == INT || a.type == INDEXEDSTR; }
// one attribute of the set and one particle
struct Pick { bool fixed; size_t at; int j; };
static Pick pickAttr(const Model &m) { Pick p; int k = choice("attr", (int)(m.a.size() + m.f.size())); p.fixed = k >= (int)m.a.size(); p.at = (size_t)(p.fixed ? k - (int)m.a.size() : k); p.j = p.fixed ? 0 : choice("particle", m.n); return p; }
static PyObject *seqOf(const std::vector<PyObject *> &v) { bool l = choice("list", 2); PyObject *s = l ? PyList_New((Py_ssize_t)v.size()) : PyTuple_New((Py_ssize_t)v.size()); for (size_t i = 0; i < v.size(); i++) if (l) PyList_SetItem(s, (Py_ssize_t)i, v[i]); else PyTuple_SetItem(s, (Py_ssize_t)i, v[i]); return s; }
static PyObject *doSet(PyObject *set, PyObject *h, const Pick &p, PyObject *seq) { return p.fixed ? call("ParticlesDataMutable_setFixed", {keep(set), keep(h), seq}) : call("ParticlesDataMutable_set", {keep(set), keep(h), pyi(p.j), seq}); }

static void body(int mode) {
  if (mode == 0) { // set, then get
    Model m = someModel(2); PyObject *set = wrapSet(mkset(m)); Pick p = pickAttr(m); MAttr &a = (p.fixed ? m.f : m.a)[p.at]; PyObject *h = handle(set, a, p.fixed); std::vector<PyObject *> es;
    for (int k = 0; k < a.count; k++) { u32 &w = a.v[(size_t)(p.j * a.count + k)]; int kind = choice("kind", ints(a) ? 2 : 4);
      if (ints(a)) { if (kind) { bool b = choice("bool", 2); es.push_back(PyBool_FromLong(b)); w = b; } else { w = a.type == INT ? symbits("int") : (u32)choice("token", (int)a.strs.size()); es.push_back(pyi((int)w)); } }
      else if (kind == 0) { w = symbits("float"); assume((w & 0x7f800000u) != 0x7f800000u || !(w & 0x7fffffu)); es.push_back(PyFloat_FromDouble((double)f_of(w))); }
      else if (kind == 1) { double d = d_of((u64)inp("double", 64)); assume(d == d); es.push_back(PyFloat_FromDouble(d)); w = b_of((float)d); }
      else if (kind == 2) { long v = (long)inp("long", 64); es.push_back(pyi(v)); w = b_of((float)v); }
      else { es.push_back(PyBool_FromLong(1)); w = b_of(1.f); } }
    none(doSet(set, h, p, seqOf(es))); sameSet(setOf(set), m, SCHEMA_ORDER | STRTABLE); sameThroughPython(set, m); Py_DECREF(h); Py_DECREF(set); return;
  }
  if (mode == 1) { // what cannot be set raises an exception and touches nothing else
    Model m = someModel(2); PyObject *set = wrapSet(mkset(m)); Pick p = pickAttr(m); MAttr &a = (p.fixed ? m.f : m.a)[p.at]; PyObject *h = handle(set, a, p.fixed); int how = choice("how", 5); int bad = -1; PyObject *r = 0;
    auto good = [&](int k) { return ints(a) ? pyi((int)a.v[(size_t)(p.j * a.count + k)]) : PyFloat_FromDouble((double)f_of(a.v[(size_t)(p.j * a.count + k)])); };
    for (auto &w : a.v) if (!ints(a)) assume((w & 0x7f800000u) != 0x7f800000u || !(w & 0x7fffffu));
    if (how == 0) { int n = choice("length", 5); assume(n != a.count); std::vector<PyObject *> es; for (int k = 0; k < n; k++) es.push_back(good(k < a.count ? k : 0)); r = doSet(set, h, p, seqOf(es)); }
    else if (how == 1) r = doSet(set, h, p, choice("what", 2) ? keep(Py_None) : PyFloat_FromDouble(1.5));
    else if (how == 2 || how == 3) { // one element of a wrong kind, or out of range
      bad = choice("which", a.count); std::vector<PyObject *> es; for (int k = 0; k < a.count; k++) { if (k != bad) { es.push_back(good(k)); continue; }
        if (how == 2) { int w = choice("what", ints(a) ? 4 : 3); es.push_back(w == 0 ? pys("1") : w == 1 ? keep(Py_None) : w == 2 ? PyTuple_New(0) : PyFloat_FromDouble(1)); }
        else if (ints(a)) { int w = choice("big", 5); if (w == 0) { long v = (long)inp("long", 64); assume(v > INT_MAX || v < INT_MIN); es.push_back(pyi(v)); } else if (w == 1) { u64 v = (u64)inp("ulong", 64); assume(v >> 63); es.push_back(PyLong_FromUnsignedLongLong(v)); } else es.push_back(bigInt(w)); }
        else es.push_back(bigInt(3)); }
      r = doSet(set, h, p, seqOf(es));
    } else { std::vector<PyObject *> es; for (int k = 0; k < a.count; k++) es.push_back(good(k)); assume(!p.fixed); int w = choice("index", 5); PyObject *ix = w == 0 ? pys("0") : w == 1 ? PyFloat_FromDouble(0) : w == 2 ? bigInt(2) : w == 3 ? keep(Py_None) : bigInt(4); if (choice("get", 2)) { for (auto e : es) Py_DECREF(e); r = call("ParticlesData_get", {keep(set), keep(h), ix}); } else r = call("ParticlesDataMutable_set", {keep(set), keep(h), ix, seqOf(es)}); }
    fails(r); Model c = m; if (bad >= 0) { MAttr &x = (p.fixed ? c.f : c.a)[p.at]; u32 g; memcpy(&g, p.fixed ? setOf(set)->fixedData<int>([&] { FixedAttribute q; setOf(set)->fixedAttributeInfo(x.name.c_str(), q); return q; }()) + bad : setOf(set)->data<int>([&] { ParticleAttribute q; setOf(set)->attributeInfo(x.name.c_str(), q); return q; }(), p.j) + bad, 4); x.v[(size_t)(p.j * x.count + bad)] = g; if (x.type == INDEXEDSTR) x.v[(size_t)(p.j * x.count + bad)] = m.a.size() && (int)g >= 0 && g < x.strs.size() ? g : 0; }
    sameSet(setOf(set), c, SCHEMA_ORDER | STRTABLE); Py_DECREF(h); Py_DECREF(set); return;
  }
  if (mode == 2) { // indices that name no particle
    Model m = someModel(2); PyObject *set = wrapSet(mkset(m)); assume(1); int k = choice("attr", (int)m.a.size()); MAttr &a = m.a[(size_t)k]; PyObject *h = handle(set, a, false); long j = (long)inp("index", 64); assume(j < 0 || j >= m.n);
    if (choice("get", 2)) fails(call("ParticlesData_get", {keep(set), keep(h), pyi(j)}));
    else { std::vector<PyObject *> es; for (int q = 0; q < a.count; q++) es.push_back(pyi(1)); PyObject *r = call("ParticlesDataMutable_set", {keep(set), keep(h), pyi(j), seqOf(es)}); Py_XDECREF(r); }
    sameSet(setOf(set), m, SCHEMA_ORDER | STRTABLE); Py_DECREF(h); Py_DECREF(set); return;
  }
  if (mode == 3) { // building a set through the bindings alone; attribute handles
    Model m = someModel(cfgi("n", 2)); PyObject *set = call("create", {}); check(set && set != Py_None, "create"); if (!set) return; bool before = choice("particles first", 2), one = choice("one by one", 2);
    auto add = [&] { if (one) for (int i = 0; i < m.n; i++) check(takeInt(call("ParticlesDataMutable_addParticle", {keep(set)})) == i, "index of the new particle"); else done(call("ParticlesDataMutable_addParticles", {keep(set), pyi(m.n)})); };
    if (before) add();
    std::vector<PyObject *> hs; for (int fx = 0; fx < 2; fx++) for (auto &a : fx ? m.f : m.a) {
      PyObject *h = call(fx ? "ParticlesDataMutable_addFixedAttribute" : "ParticlesDataMutable_addAttribute", {keep(set), pys(a.name), pyi(a.type), pyi(a.count)}); check(h && h != Py_None, "addAttribute"); if (!h) return; handleIs(h, a, fx); hs.push_back(h);
      for (size_t k = 0; k < a.strs.size(); k++) for (int twice = 0; twice < 2; twice++) check(takeInt(call(fx ? "ParticlesDataMutable_registerFixedIndexedStr" : "ParticlesDataMutable_registerIndexedStr", {keep(set), keep(h), pys(a.strs[k])})) == (long)k, "token of a registered string"); }
    if (!before) add();
    size_t x = 0; for (int fx = 0; fx < 2; fx++) for (auto &a : fx ? m.f : m.a) { for (int j = 0; j < (fx ? 1 : m.n); j++) { std::vector<PyObject *> es; PyObject *t = PyTuple_New(a.count); for (int k = 0; k < a.count; k++) { u32 w = a.v[(size_t)(j * a.count + k)]; if (!ints(a)) assume((w & 0x7f800000u) != 0x7f800000u || !(w & 0x7fffffu)); PyTuple_SetItem(t, k, ints(a) ? pyi((int)w) : PyFloat_FromDouble((double)f_of(w))); } Pick p; p.fixed = fx; p.at = 0; p.j = j; none(doSet(set, hs[x], p, t)); } x++; }
    // renaming strings
    int ren = choice("rename", 3); x = 0; if (ren) for (int fx = 0; fx < 2; fx++) for (auto &a : fx ? m.f : m.a) { if (a.type == INDEXEDSTR) { size_t k = (size_t)choice("token", (int)a.strs.size()); a.strs[k] = ren == 1 ? "renamed" : a.strs[k]; none(call(fx ? "ParticlesDataMutable_setFixedIndexedStr" : "ParticlesDataMutable_setIndexedStr", {keep(set), keep(hs[x]), pyi((long)k), pys(a.strs[k])})); } x++; }
    sameSet(setOf(set), m, SCHEMA_ORDER | STRTABLE); sameThroughPython(set, m);
    PyObject *pt = call("ParticlesDataMutable_ptr", {keep(set)}); check(pt && PyLong_Check(pt) && PyLong_AsUnsignedLongLong(pt) == (u64)(void *)setOf(set), "ptr"); Py_XDECREF(pt);
    // handles outlive their set; fields of a handle can be changed without any effect on the set
    if (choice("set first", 2)) { Py_DECREF(set); set = 0; } x = 0; for (int fx = 0; fx < 2; fx++) for (auto &a : fx ? m.f : m.a) { handleIs(hs[x], a, fx); Str c = CL(fx); MAttr b = a; b.count = 7; b.name = "other"; b.type = NONE; none(call((c + "_count_set").c_str(), {keep(hs[x]), pyi(7)})); none(call((c + "_name_set").c_str(), {keep(hs[x]), pys("other")})); none(call((c + "_type_set").c_str(), {keep(hs[x]), pyi(0)})); handleIs(hs[x], b, fx); Py_DECREF(hs[x]); x++; }
    if (set) { sameSet(setOf(set), m, SCHEMA_ORDER | STRTABLE); Py_DECREF(set); } return;
  }
  if (mode == 4) { // attributes that are not there
    Model m = someModel(1); PyObject *set = wrapSet(mkset(m)); bool fx = choice("fixed", 2); const char *f = fx ? "ParticlesInfo_fixedAttributeInfo" : "ParticlesInfo_attributeInfo"; int na = (int)(fx ? m.f : m.a).size(); int how = choice("how", 4);
    if (how == 0) { int i = symi("index"); assume(i < 0 || i >= na); fails(call(f, {keep(set), pyi(i)})); check(lastExc == INDEXERR, "IndexError"); }
    else if (how == 1) none(call(f, {keep(set), pys(choice("name", 2) ? "" : "nothing")}));
    else if (how == 2) fails(call(f, {keep(set), choice("what", 2) ? PyFloat_FromDouble(0) : bigInt(2)}));
    else { Str cl = Str(CL(fx)); fails(call(f, {pyi(1), pyi(0)})); fails(call(f, {keep(set)})); PyObject *h = handle(set, (fx ? m.f : m.a)[0], fx); fails(call(fx ? "ParticlesData_get" : "ParticlesData_getFixed", {keep(set), keep(h)})); fails(call("ParticlesData_getFixed", {keep(h), keep(h)})); Py_DECREF(h); }
    sameSet(setOf(set), m, SCHEMA_ORDER | STRTABLE); Py_DECREF(set); return;
  }
  if (mode == 5) { // queries
    Model m; m.n = cfgi("n", 3); m.a.push_back(mattr("position", VECTOR, 3)); for (int i = 0; i < m.n * 3; i++) m.a[0].v.push_back(b_of(latf("x", 4)));
    PyObject *set = wrapSet(mkset(m)); none(call("ParticlesDataMutable_sort", {keep(set)})); ParticlesDataMutable *p = setOf(set); bool box = choice("box", 2); int bad = choice("bad", 4); // 1 wrong length, 2 wrong element, 3 no sequence
    float c[2][3]; PyObject *s[2]; for (int i = 0; i < 1 + box; i++) { std::vector<PyObject *> es; int len = 3; static const int L[] = {0, 2, 4, 16, 17, 40}; if (bad == 1) len = L[choice("length", 6)]; for (int k = 0; k < len; k++) { float v = k < 3 ? latf("c", 4) : 0.f; if (k < 3) c[i][k] = v; es.push_back(bad == 2 && k == 1 ? pys("0") : PyFloat_FromDouble(v)); } if (bad == 3) { s[i] = PyFloat_FromDouble(0); } else s[i] = seqOf(es); if (bad == 3) for (auto e : es) Py_DECREF(e); }
    if (box) {
      PyObject *r = call("ParticlesData_findPoints", {keep(set), s[0], s[1]}); if (bad) { fails(r); Py_DECREF(set); return; } std::vector<ParticleIndex> pts; p->findPoints(c[0], c[1], pts); bool ok = r && PyList_Check(r) && PySequence_Size(r) == (Py_ssize_t)pts.size(); check(ok, "as many points"); if (ok) for (size_t i = 0; i < pts.size(); i++) { PyObject *o = PySequence_GetItem(r, (Py_ssize_t)i); check(takeInt(o) == (long)pts[i], "point in the box"); } Py_XDECREF(r);
    } else {
      int np = choice("nPoints", 3) + 1; float rad = (float)(choice("radius", 3) * 2 + 1); PyObject *r = call("ParticlesData_findNPoints", {keep(set), s[0], pyi(np), choice("int", 2) ? pyi((long)rad) : PyFloat_FromDouble(rad)}); if (bad) { fails(r); Py_DECREF(set); return; } std::vector<ParticleIndex> pts; std::vector<float> d2; p->findNPoints(c[0], np, rad, pts, d2);
      bool ok = r && PyList_Check(r) && PySequence_Size(r) == (Py_ssize_t)pts.size(); check(ok, "as many points"); if (ok) for (size_t i = 0; i < pts.size(); i++) { PyObject *o = PySequence_GetItem(r, (Py_ssize_t)i); bool t = o && PyTuple_Check(o) && PyTuple_Size(o) == 2; check(t, "a pair"); if (t) { check(asInt(PyTuple_GetItem(o, 0)) == (long)pts[i], "nearest point"); PyObject *q = PyTuple_GetItem(o, 1); check(q && PyFloat_Check(q) && PyFloat_AS_DOUBLE(q) == (double)d2[i], "its squared distance"); } Py_XDECREF(o); } Py_XDECREF(r);
    }
    Py_DECREF(set); return;
  }
  if (mode == 6) { // files
    Model m = someModel(2); PyObject *set = wrapSet(mkset(m)); std::ostringstream err; Str f = path("a.bgeo"), g = path("b.bgeo"), no = path("none.bgeo"); int nargs = 2 + choice("args", 3), comp = nargs > 2 ? choice("compressed", 2) : 0;
    if (nargs == 2) none(call("write", {pys(f), keep(set)})); else if (nargs == 3) none(call("write", {pys(f), keep(set), PyBool_FromLong(comp)})); else none(call("write", {pys(f), keep(set), PyBool_FromLong(comp), PyBool_FromLong(0)}));
    write(g.c_str(), *setOf(set), comp != 0); check(slurp(f) == slurp(g), "the file the library writes"); Py_DECREF(set);
    Model c = carried(m, BGEO); int how = choice("reader", 6); PyObject *r = 0; Str what = choice("missing", 3) == 0 ? no : f; bool ok = what == f, info = how == 2 || how == 4; bool sorted = false;
    if (how == 0) r = call("read", {pys(what)}); else if (how == 1) r = call("read", {pys(what), PyBool_FromLong(0)}); else if (how == 2) r = call("readHeaders", {pys(what)});
    else { if (how == 3) r = call("readVerbose", {pys(what)}); else if (how == 4) r = call("readHeadersVerbose", {pys(what)}); else { sorted = choice("sort", 2); r = call("readCachedVerbose", {pys(what), PyBool_FromLong(sorted)}); }
      bool t = r && PyTuple_Check(r) && PyTuple_Size(r) == 2; check(t, "a pair of set and messages"); if (!t) return; PyObject *s = keep(PyTuple_GetItem(r, 0)), *e = PyTuple_GetItem(r, 1); check(e && PyUnicode_Check(e) && (PySequence_Size(e) > 0) == !ok, "the messages"); Py_DECREF(r); r = s; }
    if (!ok) { none(r); return; } check(r && r != Py_None, "the file is read"); if (!r || r == Py_None) return; if (!sorted) sameThroughPython(r, c, !info); Py_DECREF(r); return;
  }
  if (mode == 7) { // whole-set functions
    Model m = someModel(2); for (auto &a : m.a) if (a.name == "id") for (int j = 0; j < m.n; j++) a.v[(size_t)j] = (u32)j * 5; ParticlesDataMutable *p = mkset(m); PyObject *set = wrapSet(p); int how = choice("how", 3), map = choice("map", 6); std::map<Str, Str> nm; PyObject *d = 0; PyObject *r = 0; ParticlesDataMutable *w = 0;
    if (how < 2) { // clones, with new names given as text or bytes
      if (map == 1) d = keep(Py_None); else if (map > 1) { d = PyDict_New(); static const char *O[] = {"position", "a", "nothing"}, *N[] = {"P", "b", "c"}; for (int i = 0; i < (map == 5 ? 0 : 3); i++) { bool kb = map == 3 ? i != 1 : map == 4, vb = map == 4 ? i != 2 : map == 3 ? i == 1 : false; PyObject *k = kb ? PyBytes_FromString(O[i]) : pys(O[i]), *v = vb ? PyBytes_FromString(N[i]) : pys(N[i]); PyDict_SetItem(d, k, v); Py_DECREF(k); Py_DECREF(v); nm[O[i]] = N[i]; } }
      bool parts = choice("particles", 2); if (how == 1) parts = false; if (how == 0) { r = d ? call("clone", {keep(set), PyBool_FromLong(parts), d}) : call("clone", {keep(set), PyBool_FromLong(parts)}); w = clone(*p, parts, map > 1 ? &nm : 0); } else { r = d ? call("cloneSchema", {keep(set), d}) : call("cloneSchema", {keep(set)}); w = cloneSchema(*p, map > 1 ? &nm : 0); }
    } else { // merge
      Model q = someModel(1); for (auto &a : q.a) if (a.name == "id") a.v[0] = (u32)choice("id", 2) * 5; ParticlesDataMutable *o = mkset(q); w = mkset(m); PyObject *po = wrapSet(o); int ids = choice("ids", 3); if (ids == 0) { none(call("merge", {keep(set), keep(po)})); merge(*w, *o); } else if (ids == 1) { none(call("merge", {keep(set), keep(po), pys("id")})); merge(*w, *o, "id"); } else { none(call("merge", {keep(set), keep(po), pys("id"), pys("tag")})); merge(*w, *o, "id", "tag"); } sameSet(o, q, SCHEMA_ORDER | STRTABLE); Py_DECREF(po); r = keep(set); }
    check(r && r != Py_None, "a set"); if (!r) return; ParticlesDataMutable *g = setOf(r); check(g->numParticles() == w->numParticles() && g->numAttributes() == w->numAttributes() && g->numFixedAttributes() == w->numFixedAttributes(), "the set the library makes");
    Model c; c.n = w->numParticles(); for (int i = 0; i < w->numAttributes(); i++) { ParticleAttribute h; w->attributeInfo(i, h); MAttr a = mattr(h.name, h.type, h.count); if (h.type == INDEXEDSTR) a.strs = w->indexedStrs(h); for (int j = 0; j < c.n; j++) for (int k = 0; k < h.count; k++) { u32 x; memcpy(&x, w->data<int>(h, j) + k, 4); a.v.push_back(x); } c.a.push_back(a); }
    for (int i = 0; i < w->numFixedAttributes(); i++) { FixedAttribute h; w->fixedAttributeInfo(i, h); MAttr a = mattr(h.name, h.type, h.count); if (h.type == INDEXEDSTR) a.strs = w->fixedIndexedStrs(h); for (int k = 0; k < h.count; k++) { u32 x; memcpy(&x, w->fixedData<int>(h) + k, 4); a.v.push_back(x); } c.f.push_back(a); }
    bool uninit = how == 1; // a schema has no values if (how == 2) { sameSet(g, c, SCHEMA_ORDER | STRTABLE); } else sameSet(g, c, SCHEMA_ORDER | STRTABLE | (uninit ? NOVALUES : 0)); sameThroughPython(r, c, !uninit);
    if (how < 2) sameSet(p, m, SCHEMA_ORDER | STRTABLE); w->release(); Py_DECREF(r); Py_DECREF(set); return;
  }
  if (mode == 8) { // clustering and names of types
    for (int t = 0; t < 5; t++) { PyObject *o = call("TypeName", {pyi(t)}); check(isStr(o, TypeName((ParticleAttributeType)t)), "TypeName"); Py_XDECREF(o); }
    Model m; m.n = 2; m.a.push_back(mattr("position", VECTOR, 3)); m.a.push_back(mattr("id", INT, 1)); for (int i = 0; i < 6; i++) m.a[0].v.push_back(b_of((float)i)); m.a[1].v.push_back(0); m.a[1].v.push_back(1);
    PyObject *set = wrapSet(mkset(m)); none(call("ParticlesDataMutable_sort", {keep(set)}));
    PyObject *r = call("computeClustering", {keep(set), pyi(2), PyFloat_FromDouble(10), PyFloat_FromDouble(.5), pyi(2), PyFloat_FromDouble(.1)}); check(r && r != Py_None, "a set"); if (r) { ParticlesDataMutable *w = computeClustering(setOf(set), 2, 10, .5, 2, .1); check(w->numParticles() == setOf(r)->numParticles(), "as many particles"); w->release(); Py_DECREF(r); } Py_DECREF(set); return;
  }
  if (mode == 9) { // arguments of wrong kinds, None included, for every function that takes text
    Model m = someModel(1); PyObject *set = wrapSet(mkset(m)); int w = choice("what", 3); auto bad = [&] { return w == 0 ? keep(Py_None) : w == 1 ? pyi(3) : PyTuple_New(0); }; PyObject *h = handle(set, m.a[0], false), *fh = handle(set, m.f[0], true); int f = choice("function", 12);
    switch (f) {
      case 0: fails(call("ParticlesDataMutable_registerIndexedStr", {keep(set), keep(h), bad()})); break; case 1: fails(call("ParticlesDataMutable_registerFixedIndexedStr", {keep(set), keep(fh), bad()})); break;
      case 2: fails(call("ParticlesData_lookupIndexedStr", {keep(set), keep(h), bad()})); break; case 3: fails(call("ParticlesData_lookupFixedIndexedStr", {keep(set), keep(fh), bad()})); break;
      case 4: fails(call("ParticlesDataMutable_setIndexedStr", {keep(set), keep(h), pyi(0), bad()})); break; case 5: fails(call("read", {bad()})); break; case 6: fails(call("readHeaders", {bad()})); break; case 7: fails(call("write", {bad(), keep(set)})); break;
      case 8: fails(call("readVerbose", {bad()})); break; case 9: fails(call("ParticlesDataMutable_addAttribute", {keep(set), bad(), pyi(1), pyi(3)})); break; case 10: fails(call("ParticlesDataMutable_addParticles", {keep(set), w == 1 ? pys("1") : bad()})); break; case 11: if (w != 1) fails(call("ParticlesInfo_attributeInfo", {keep(set), bad()})); break;
    }
    sameSet(setOf(set), m, SCHEMA_ORDER | STRTABLE); Py_DECREF(h); Py_DECREF(fh); Py_DECREF(set); return;
  }
}
// everything that is allocated once and kept: the types' queries, the readers' and writers' tables, streams' locales
static void warm() {
  Model m = someModel(1); ParticlesDataMutable *p = mkset(m); PyObject *set = wrapSet(p); fails(call("ParticlesInfo_attributeInfo", {keep(set), PyFloat_FromDouble(0)})); SWIG_pchar_descriptor();
  Str f = path("warm.bgeo"); write(f.c_str(), *p); std::ostringstream e; ParticlesDataMutable *q = read(f.c_str(), false, e); if (q) q->release(); ParticlesInfo *r = readHeaders(f.c_str(), false, e); if (r) r->release(); ParticlesData *c = readCached(f.c_str(), false, false, e); if (c) c->release();
  { PyObject *o = wrapSet(mkset(m)); done(call("merge", {keep(set), keep(o)})); Py_DECREF(o); } Py_XDECREF(call("clone", {keep(set), PyBool_FromLong(1)})); Py_XDECREF(call("TypeName", {pyi(0)})); Py_DECREF(set); fdel(f);
}
void harness() {
  start(); if (sxmode()) warm(); int mode = cfgi("mode", 0);
  { std::ostringstream e; ParticlesDataMutable *p = read(path("none.bgeo").c_str(), false, e); check(!p, "missing file"); }
  // what a run of the body leaves allocated: nothing; inside CPython, which keeps memory of its own, not something every time
#ifdef SX
  long a = live(); body(mode); check(live() == a, "nothing stays allocated");
#else
  PyGC_Disable(); long grown = LONG_MAX; for (int r = 0; r < 6; r++) { long a = live(); body(mode); rewindInputs(); long g = live() - a; if (r > 2 && g < grown) grown = g; } check(grown <= 0, "nothing stays allocated");
#endif
  cover("end");
}
