// A model of the part of CPython the bindings call, over the interpreter's own object layouts (Python.h):
// reference counts, type flags, the error indicator and the conversions' failures are the real ones' documented behaviour.
// Only for the symbolic executor; the replays run inside the real interpreter.
#ifndef PYMODEL_H
#define PYMODEL_H
#include <cstdarg>
extern "C" {
static const Py_ssize_t IMM = 0xffffffffll; // never freed
#define TYPES(X) X(PyType_Type) X(PyBaseObject_Type) X(PyLong_Type) X(PyBool_Type) X(PyFloat_Type) X(PyUnicode_Type) X(PyBytes_Type) X(PyTuple_Type) X(PyList_Type) X(PyDict_Type) X(PyCFunction_Type) X(PyCapsule_Type) X(PyModule_Type)
#define T(x) PyTypeObject x;
TYPES(T)
#undef T
static PyTypeObject pym_none_type, pym_exc_type;
PyObject _Py_NoneStruct, _Py_NotImplementedStruct; struct _longobject _Py_TrueStruct, _Py_FalseStruct;
#define EXCS(X) X(AttributeError) X(IOError) X(IndexError) X(MemoryError) X(OverflowError) X(RuntimeError) X(StopIteration) X(SyntaxError) X(SystemError) X(TypeError) X(ValueError) X(ZeroDivisionError) X(KeyError)
#define E(x) static PyObject pym_exc_##x; PyObject *PyExc_##x = &pym_exc_##x;
EXCS(E)
#undef E
// ---- memory
void PyObject_Free(void *p) { free(p); }
void *PyObject_Malloc(size_t n) { return malloc(n); }
PyObject *_PyObject_New(PyTypeObject *t) { PyObject *o = (PyObject *)malloc((size_t)t->tp_basicsize); o->ob_refcnt = 1; o->ob_type = t; return o; }
void _Py_Dealloc(PyObject *o) { __sx_check(o->ob_refcnt == 0, "an object is freed when nothing refers to it"); Py_TYPE(o)->tp_dealloc(o); }
void Py_IncRef(PyObject *o) { Py_XINCREF(o); }
void Py_DecRef(PyObject *o) { Py_XDECREF(o); }
void _Py_NegativeRefcount(const char *, int, PyObject *) { __sx_check(0, "negative reference count"); }
int PyType_IsSubtype(PyTypeObject *a, PyTypeObject *b) { for (; a; a = a->tp_base) if (a == b) return 1; return b == &PyBaseObject_Type; }
int PyType_Ready(PyTypeObject *t) { t->ob_base.ob_base.ob_type = &PyType_Type; t->ob_base.ob_base.ob_refcnt = IMM; return 0; }
void PyType_Modified(PyTypeObject *) {}
PyObject *PyObject_GenericGetAttr(PyObject *, PyObject *) { __sx_unsupported("PyObject_GenericGetAttr"); return 0; }
// ---- errors
static PyObject *pym_err, *pym_errv;
void PyErr_Clear(void) { pym_err = 0; PyObject *v = pym_errv; pym_errv = 0; Py_XDECREF(v); }
void PyErr_SetObject(PyObject *t, PyObject *v) { PyErr_Clear(); pym_err = t; Py_XINCREF(v); pym_errv = v; }
void PyErr_SetString(PyObject *t, const char *m) { PyObject *s = PyUnicode_FromString(m); PyErr_SetObject(t, s); Py_DECREF(s); }
PyObject *PyErr_Format(PyObject *t, const char *m, ...) { PyErr_SetString(t, m); return 0; }
PyObject *PyErr_Occurred(void) { return pym_err; }
int PyErr_GivenExceptionMatches(PyObject *e, PyObject *t) { return e == t; }
int PyErr_ExceptionMatches(PyObject *t) { return pym_err == t; }
void PyErr_Fetch(PyObject **t, PyObject **v, PyObject **b) { *t = pym_err; *v = pym_errv; *b = 0; pym_err = pym_errv = 0; }
void PyErr_Restore(PyObject *t, PyObject *v, PyObject *b) { PyErr_Clear(); pym_err = t; pym_errv = v; Py_XDECREF(b); }
void PyErr_WriteUnraisable(PyObject *) { __sx_check(0, "a destructor failed"); PyErr_Clear(); }
// ---- numbers; an int holds its value in lv_tag, the digit says which: 0 signed, 1 unsigned above 2^63, 2 = 2^70, 3 = 2^2000, 4 = -2^70
struct PymLong { PyObject h; u64 v; u32 kind; };
static PyObject *pym_long(u64 v, u32 kind) { PymLong *l = (PymLong *)malloc(sizeof(PymLong)); l->h.ob_refcnt = 1; l->h.ob_type = &PyLong_Type; l->v = v; l->kind = kind; return &l->h; }
PyObject *PyLong_FromLong(long v) { return pym_long((u64)v, 0); }
PyObject *PyLong_FromLongLong(long long v) { return pym_long((u64)v, 0); }
PyObject *PyLong_FromUnsignedLongLong(unsigned long long v) { return pym_long(v, v >> 63 ? 1 : 0); }
PyObject *PyLong_FromUnsignedLong(unsigned long v) { return pym_long(v, v >> 63 ? 1 : 0); }
PyObject *PyLong_FromSize_t(size_t v) { return pym_long(v, v >> 63 ? 1 : 0); }
PyObject *PyLong_FromSsize_t(Py_ssize_t v) { return pym_long((u64)v, 0); }
PyObject *PyLong_FromVoidPtr(void *p) { return PyLong_FromUnsignedLongLong((u64)p); }
static PymLong *pym_aslong(PyObject *o) { if (!o) { PyErr_SetString(PyExc_SystemError, "null argument"); return 0; } if (!PyLong_Check(o)) { PyErr_SetString(PyExc_TypeError, "cannot be interpreted as an integer"); return 0; } return (PymLong *)o; }
static u64 pym_over(const char *m) { PyErr_SetString(PyExc_OverflowError, m); return (u64)-1; }
long PyLong_AsLong(PyObject *o) { PymLong *l = pym_aslong(o); if (!l) return -1; return l->kind ? (long)pym_over("too large for a C long") : (long)l->v; }
long PyLong_AsLongAndOverflow(PyObject *o, int *f) { *f = 0; PymLong *l = pym_aslong(o); if (!l) return -1; if (l->kind) { *f = l->kind == 4 ? -1 : 1; return -1; } return (long)l->v; }
long long PyLong_AsLongLong(PyObject *o) { return PyLong_AsLong(o); }
int _PyLong_AsInt(PyObject *o) { long v = PyLong_AsLong(o); if (v == -1 && pym_err) return -1; if (v > INT_MAX || v < INT_MIN) return (int)pym_over("too large for a C int"); return (int)v; }
unsigned long PyLong_AsUnsignedLong(PyObject *o) { PymLong *l = pym_aslong(o); if (!l) return (unsigned long)-1; if (l->kind == 1) return l->v; return l->kind || (long)l->v < 0 ? pym_over("not in a C unsigned long") : l->v; }
unsigned long long PyLong_AsUnsignedLongLong(PyObject *o) { return PyLong_AsUnsignedLong(o); }
Py_ssize_t PyLong_AsSsize_t(PyObject *o) { return PyLong_AsLong(o); }
size_t PyLong_AsSize_t(PyObject *o) { return PyLong_AsUnsignedLong(o); }
double PyLong_AsDouble(PyObject *o) { PymLong *l = pym_aslong(o); if (!l) return -1; switch (l->kind) { case 0: return (double)(long)l->v; case 1: return (double)l->v; case 2: return 1180591620717411303424.0; case 4: return -1180591620717411303424.0; } pym_over("int too large to convert to float"); return -1; }
PyObject *PyBool_FromLong(long v) { PyObject *o = v ? (PyObject *)&_Py_TrueStruct : (PyObject *)&_Py_FalseStruct; Py_INCREF(o); return o; }
PyObject *PyFloat_FromDouble(double v) { PyFloatObject *f = (PyFloatObject *)malloc(sizeof(PyFloatObject)); f->ob_base.ob_refcnt = 1; f->ob_base.ob_type = &PyFloat_Type; f->ob_fval = v; return (PyObject *)f; }
double PyFloat_AsDouble(PyObject *o) { if (!o) { PyErr_SetString(PyExc_TypeError, "bad argument type for built-in operation"); return -1; } if (PyFloat_Check(o)) return ((PyFloatObject *)o)->ob_fval; if (PyLong_Check(o)) return PyLong_AsDouble(o); PyErr_SetString(PyExc_TypeError, "must be real number"); return -1; }
// ---- strings: text of one byte characters
struct PymStr { PyObject_VAR_HEAD char *s; };
static PyObject *pym_str(PyTypeObject *t, const char *s, size_t n) { PymStr *o = (PymStr *)malloc(sizeof(PymStr) + n + 1); o->ob_base.ob_base.ob_refcnt = 1; o->ob_base.ob_base.ob_type = t; o->ob_base.ob_size = (Py_ssize_t)n; o->s = (char *)(o + 1); /* where PyBytes_AS_STRING looks */ memcpy(o->s, s, n); o->s[n] = 0; return (PyObject *)o; }
PyObject *PyUnicode_FromString(const char *s) { return pym_str(&PyUnicode_Type, s, strlen(s)); }
PyObject *PyUnicode_FromStringAndSize(const char *s, Py_ssize_t n) { return pym_str(&PyUnicode_Type, s, (size_t)n); }
PyObject *PyUnicode_InternFromString(const char *s) { return PyUnicode_FromString(s); }
PyObject *PyUnicode_DecodeUTF8(const char *s, Py_ssize_t n, const char *) { return pym_str(&PyUnicode_Type, s, (size_t)n); }
PyObject *PyUnicode_FromFormat(const char *f, ...) { return PyUnicode_FromString(f); }
PyObject *PyUnicode_Format(PyObject *a, PyObject *) { Py_INCREF(a); return a; }
PyObject *PyUnicode_Concat(PyObject *a, PyObject *b) { PymStr *x = (PymStr *)a, *y = (PymStr *)b; Str s(x->s, x->ob_base.ob_size); s.append(y->s, y->ob_base.ob_size); return pym_str(&PyUnicode_Type, s.c_str(), s.size()); }
const char *PyUnicode_AsUTF8AndSize(PyObject *o, Py_ssize_t *n) { if (!PyUnicode_Check(o)) { PyErr_SetString(PyExc_TypeError, "bad argument type for built-in operation"); return 0; } if (n) *n = ((PymStr *)o)->ob_base.ob_size; return ((PymStr *)o)->s; }
const char *PyUnicode_AsUTF8(PyObject *o) { return PyUnicode_AsUTF8AndSize(o, 0); }
PyObject *PyUnicode_AsUTF8String(PyObject *o) { Py_ssize_t n; const char *s = PyUnicode_AsUTF8AndSize(o, &n); return s ? pym_str(&PyBytes_Type, s, (size_t)n) : 0; }
PyObject *PyBytes_FromString(const char *s) { return pym_str(&PyBytes_Type, s, strlen(s)); }
PyObject *PyBytes_FromStringAndSize(const char *s, Py_ssize_t n) { return pym_str(&PyBytes_Type, s, (size_t)n); }
char *PyBytes_AsString(PyObject *o) { if (!PyBytes_Check(o)) { PyErr_SetString(PyExc_TypeError, "expected bytes"); return 0; } return ((PymStr *)o)->s; }
Py_ssize_t PyBytes_Size(PyObject *o) { return ((PymStr *)o)->ob_base.ob_size; }
int PyBytes_AsStringAndSize(PyObject *o, char **s, Py_ssize_t *n) { *s = PyBytes_AsString(o); if (!*s) return -1; if (n) *n = PyBytes_Size(o); return 0; }
static void pym_free_str(PyObject *o) { free(o); }
static bool pym_streq(PyObject *a, const char *s, size_t n) { PymStr *x = (PymStr *)a; return (size_t)x->ob_base.ob_size == n && !memcmp(x->s, s, n); }
PyObject *PyObject_Str(PyObject *o) { if (PyUnicode_Check(o)) { Py_INCREF(o); return o; } return PyUnicode_FromString("object"); }
int PyOS_snprintf(char *b, size_t n, const char *f, ...) { size_t k = strlen(f); if (k >= n) k = n - 1; memcpy(b, f, k); b[k] = 0; return (int)k; }
// ---- tuples, lists
PyObject *PyTuple_New(Py_ssize_t n) { if (n < 0) { PyErr_SetString(PyExc_SystemError, "bad internal call"); return 0; } PyTupleObject *t = (PyTupleObject *)malloc(sizeof(PyTupleObject) + (size_t)n * sizeof(PyObject *)); t->ob_base.ob_base.ob_refcnt = 1; t->ob_base.ob_base.ob_type = &PyTuple_Type; t->ob_base.ob_size = n; for (Py_ssize_t i = 0; i < n; i++) t->ob_item[i] = 0; return (PyObject *)t; }
int PyTuple_SetItem(PyObject *o, Py_ssize_t i, PyObject *v) { PyTupleObject *t = (PyTupleObject *)o; if (!PyTuple_Check(o) || o->ob_refcnt != 1) { Py_XDECREF(v); PyErr_SetString(PyExc_SystemError, "bad internal call"); return -1; } if (i < 0 || i >= t->ob_base.ob_size) { Py_XDECREF(v); PyErr_SetString(PyExc_IndexError, "tuple assignment index out of range"); return -1; } PyObject *old = t->ob_item[i]; t->ob_item[i] = v; Py_XDECREF(old); return 0; }
PyObject *PyTuple_GetItem(PyObject *o, Py_ssize_t i) { PyTupleObject *t = (PyTupleObject *)o; if (i < 0 || i >= t->ob_base.ob_size) { PyErr_SetString(PyExc_IndexError, "tuple index out of range"); return 0; } return t->ob_item[i]; }
Py_ssize_t PyTuple_Size(PyObject *o) { return ((PyTupleObject *)o)->ob_base.ob_size; }
static void pym_free_tuple(PyObject *o) { PyTupleObject *t = (PyTupleObject *)o; for (Py_ssize_t i = 0; i < t->ob_base.ob_size; i++) Py_XDECREF(t->ob_item[i]); free(o); }
PyObject *PyList_New(Py_ssize_t n) { if (n < 0) { PyErr_SetString(PyExc_SystemError, "bad internal call"); return 0; } PyListObject *t = (PyListObject *)malloc(sizeof(PyListObject)); t->ob_base.ob_base.ob_refcnt = 1; t->ob_base.ob_base.ob_type = &PyList_Type; t->ob_base.ob_size = n; t->allocated = n; t->ob_item = n ? (PyObject **)calloc((size_t)n, sizeof(PyObject *)) : 0; return (PyObject *)t; }
int PyList_SetItem(PyObject *o, Py_ssize_t i, PyObject *v) { PyListObject *t = (PyListObject *)o; if (!PyList_Check(o)) { Py_XDECREF(v); PyErr_SetString(PyExc_SystemError, "bad internal call"); return -1; } if (i < 0 || i >= t->ob_base.ob_size) { Py_XDECREF(v); PyErr_SetString(PyExc_IndexError, "list assignment index out of range"); return -1; } PyObject *old = t->ob_item[i]; t->ob_item[i] = v; Py_XDECREF(old); return 0; }
int PyList_Append(PyObject *o, PyObject *v) { PyListObject *t = (PyListObject *)o; Py_ssize_t n = t->ob_base.ob_size; PyObject **a = (PyObject **)malloc((size_t)(n + 1) * sizeof(PyObject *)); for (Py_ssize_t i = 0; i < n; i++) a[i] = t->ob_item[i]; free(t->ob_item); t->ob_item = a; Py_INCREF(v); a[n] = v; t->ob_base.ob_size = t->allocated = n + 1; return 0; }
static void pym_free_list(PyObject *o) { PyListObject *t = (PyListObject *)o; for (Py_ssize_t i = 0; i < t->ob_base.ob_size; i++) Py_XDECREF(t->ob_item[i]); free(t->ob_item); free(o); }
int PySequence_Check(PyObject *o) { return PyTuple_Check(o) || PyList_Check(o) || PyUnicode_Check(o) || PyBytes_Check(o); }
Py_ssize_t PyObject_Size(PyObject *o) { if (PySequence_Check(o)) return ((PyVarObject *)o)->ob_size; if (PyDict_Check(o)) return PyDict_Size(o); PyErr_SetString(PyExc_TypeError, "object has no len()"); return -1; }
#undef PyObject_Length
Py_ssize_t PyObject_Length(PyObject *o) { return PyObject_Size(o); }
Py_ssize_t PySequence_Size(PyObject *o) { return PyObject_Size(o); }
PyObject *PySequence_GetItem(PyObject *o, Py_ssize_t i) {
  if (!PySequence_Check(o)) { PyErr_SetString(PyExc_TypeError, "object does not support indexing"); return 0; }
  if (i < 0) i += ((PyVarObject *)o)->ob_size; if (i < 0 || i >= ((PyVarObject *)o)->ob_size) { PyErr_SetString(PyExc_IndexError, "index out of range"); return 0; }
  if (PyUnicode_Check(o)) return pym_str(&PyUnicode_Type, ((PymStr *)o)->s + i, 1); if (PyBytes_Check(o)) return PyLong_FromLong((u8)((PymStr *)o)->s[i]);
  PyObject *r = PyTuple_Check(o) ? ((PyTupleObject *)o)->ob_item[i] : ((PyListObject *)o)->ob_item[i]; Py_XINCREF(r); return r;
}
PyObject *PySequence_Fast(PyObject *o, const char *m) { if (PyTuple_Check(o) || PyList_Check(o)) { Py_INCREF(o); return o; } __sx_unsupported("PySequence_Fast"); return 0; }
Py_ssize_t PyList_Size(PyObject *o) { if (!PyList_Check(o)) { PyErr_SetString(PyExc_SystemError, "bad internal call"); return -1; } return ((PyVarObject *)o)->ob_size; }
PyObject *PyList_GetItem(PyObject *o, Py_ssize_t i) { if (!PyList_Check(o)) { PyErr_SetString(PyExc_SystemError, "bad internal call"); return 0; } if (i < 0 || i >= ((PyVarObject *)o)->ob_size) { PyErr_SetString(PyExc_IndexError, "list index out of range"); return 0; } return ((PyListObject *)o)->ob_item[i]; }
#undef PySequence_Length
Py_ssize_t PySequence_Length(PyObject *o) { return PyObject_Size(o); }
PyObject *PySequence_Tuple(PyObject *o) { if (PyTuple_Check(o)) { Py_INCREF(o); return o; } Py_ssize_t n = PyObject_Size(o); if (n < 0) return 0; PyObject *t = PyTuple_New(n); for (Py_ssize_t i = 0; i < n; i++) ((PyTupleObject *)t)->ob_item[i] = PySequence_GetItem(o, i); return t; }
PyObject *PySequence_List(PyObject *o) { Py_ssize_t n = PyObject_Size(o); if (n < 0) return 0; PyObject *t = PyList_New(n); for (Py_ssize_t i = 0; i < n; i++) ((PyListObject *)t)->ob_item[i] = PySequence_GetItem(o, i); return t; }
PyObject *PyTuple_Pack(Py_ssize_t n, ...) { va_list a; va_start(a, n); PyObject *t = PyTuple_New(n); for (Py_ssize_t i = 0; i < n; i++) { PyObject *o = va_arg(a, PyObject *); Py_INCREF(o); ((PyTupleObject *)t)->ob_item[i] = o; } va_end(a); return t; }
PyObject *PyErr_NoMemory(void) { PyErr_SetString(PyExc_MemoryError, ""); return 0; }
void PyErr_SetNone(PyObject *t) { PyErr_SetObject(t, 0); }
void PyErr_Print(void) { PyErr_Clear(); }
PyObject *PyNumber_Float(PyObject *o) { if (PyFloat_Check(o)) { Py_INCREF(o); return o; } double d = PyFloat_AsDouble(o); return d == -1 && pym_err ? 0 : PyFloat_FromDouble(d); }
PyObject *PyNumber_Long(PyObject *o) { if (PyLong_Check(o)) { Py_INCREF(o); return o; } if (!PyFloat_Check(o)) { PyErr_SetString(PyExc_TypeError, "int() argument must be a number"); return 0; } return PyLong_FromLong((long)((PyFloatObject *)o)->ob_fval); }
PyObject *PyNumber_Index(PyObject *o) { if (PyLong_Check(o)) { Py_INCREF(o); return o; } PyErr_SetString(PyExc_TypeError, "cannot be interpreted as an integer"); return 0; }
int PyIndex_Check(PyObject *o) { return PyLong_Check(o); }
int PyNumber_Check(PyObject *o) { return PyLong_Check(o) || PyFloat_Check(o); }
Py_ssize_t PyNumber_AsSsize_t(PyObject *o, PyObject *e) { PyObject *v = PyNumber_Index(o); if (!v) return -1; int f; long r = PyLong_AsLongAndOverflow(v, &f); Py_DECREF(v); if (f && e) PyErr_SetString(e, "cannot fit into an index-sized integer"); return f ? -1 : r; }
Py_ssize_t PyUnicode_GetLength(PyObject *o) { return ((PyVarObject *)o)->ob_size; }
PyObject *PyObject_GetIter(PyObject *) { __sx_unsupported("PyObject_GetIter"); return 0; }
PyObject *PyIter_Next(PyObject *) { __sx_unsupported("PyIter_Next"); return 0; }
// ---- dictionaries with string keys
struct PymDict { PyObject_VAR_HEAD PyObject **kv; };
PyObject *PyDict_New(void) { PymDict *d = (PymDict *)malloc(sizeof(PymDict)); d->ob_base.ob_base.ob_refcnt = 1; d->ob_base.ob_base.ob_type = &PyDict_Type; d->ob_base.ob_size = 0; d->kv = 0; return (PyObject *)d; }
static bool pym_keyeq(PyObject *a, PyObject *b) { if (a == b) return true; return Py_TYPE(a) == Py_TYPE(b) && (PyUnicode_Check(a) || PyBytes_Check(a)) && pym_streq(a, ((PymStr *)b)->s, (size_t)((PymStr *)b)->ob_base.ob_size); }
PyObject *PyDict_GetItem(PyObject *o, PyObject *k) { PymDict *d = (PymDict *)o; for (Py_ssize_t i = 0; i < d->ob_base.ob_size; i++) if (pym_keyeq(d->kv[2 * i], k)) return d->kv[2 * i + 1]; return 0; }
int PyDict_SetItem(PyObject *o, PyObject *k, PyObject *v) {
  PymDict *d = (PymDict *)o; Py_INCREF(v); for (Py_ssize_t i = 0; i < d->ob_base.ob_size; i++) if (pym_keyeq(d->kv[2 * i], k)) { PyObject *old = d->kv[2 * i + 1]; d->kv[2 * i + 1] = v; Py_DECREF(old); return 0; }
  Py_ssize_t n = d->ob_base.ob_size; PyObject **a = (PyObject **)malloc((size_t)(2 * n + 2) * sizeof(PyObject *)); for (Py_ssize_t i = 0; i < 2 * n; i++) a[i] = d->kv[i]; free(d->kv); d->kv = a; Py_INCREF(k); a[2 * n] = k; a[2 * n + 1] = v; d->ob_base.ob_size = n + 1; return 0; }
int PyDict_SetItemString(PyObject *o, const char *k, PyObject *v) { PyObject *s = PyUnicode_FromString(k); int r = PyDict_SetItem(o, s, v); Py_DECREF(s); return r; }
int PyDict_Next(PyObject *o, Py_ssize_t *pos, PyObject **k, PyObject **v) { PymDict *d = (PymDict *)o; if (*pos >= d->ob_base.ob_size) return 0; if (k) *k = d->kv[2 * *pos]; if (v) *v = d->kv[2 * *pos + 1]; ++*pos; return 1; }
Py_ssize_t PyDict_Size(PyObject *o) { return ((PymDict *)o)->ob_base.ob_size; }
static void pym_free_dict(PyObject *o) { PymDict *d = (PymDict *)o; for (Py_ssize_t i = 0; i < 2 * d->ob_base.ob_size; i++) Py_DECREF(d->kv[i]); free(d->kv); free(o); }
// ---- functions, modules, capsules
static PyObject *pym_func(PyMethodDef *m) { PyCFunctionObject *f = (PyCFunctionObject *)calloc(1, sizeof(PyCFunctionObject)); f->ob_base.ob_refcnt = 1; f->ob_base.ob_type = &PyCFunction_Type; f->m_ml = m; return (PyObject *)f; }
static PyObject *pym_call(PyMethodDef *m, PyObject *args) { if (m->ml_flags & METH_O) { if (PyTuple_GET_SIZE(args) != 1) { PyErr_SetString(PyExc_TypeError, "takes exactly one argument"); return 0; } return m->ml_meth(0, PyTuple_GET_ITEM(args, 0)); } if (m->ml_flags & METH_NOARGS) { if (PyTuple_GET_SIZE(args)) { PyErr_SetString(PyExc_TypeError, "takes no arguments"); return 0; } return m->ml_meth(0, 0); } return m->ml_meth(0, args); }
static PyObject *pym_module_dict; static PyObject pym_module;
PyObject *PyModule_Create2(PyModuleDef *, int) { pym_module.ob_refcnt = IMM; pym_module.ob_type = &PyModule_Type; if (!pym_module_dict) pym_module_dict = PyDict_New(); return &pym_module; }
PyObject *PyModule_GetDict(PyObject *) { return pym_module_dict; }
PyObject *PyImport_AddModule(const char *) { return &pym_module; }
struct PymCapsule { PyObject_HEAD void *p; };
static PyObject *pym_runtime; // the capsule the bindings publish
int PyModule_AddObject(PyObject *, const char *, PyObject *o) { pym_runtime = o; return 0; } // takes the reference, kept for ever
PyObject *PyCapsule_New(void *p, const char *, PyCapsule_Destructor) { PymCapsule *c = (PymCapsule *)malloc(sizeof(PymCapsule)); c->ob_base.ob_refcnt = 1; c->ob_base.ob_type = &PyCapsule_Type; c->p = p; return (PyObject *)c; }
void *PyCapsule_GetPointer(PyObject *c, const char *) { return ((PymCapsule *)c)->p; }
void *PyCapsule_Import(const char *, int) { if (pym_runtime) return ((PymCapsule *)pym_runtime)->p; PyErr_SetString(PyExc_AttributeError, "no such capsule"); return 0; }
PyObject *PyObject_CallFunctionObjArgs(PyObject *f, ...) { __sx_unsupported("PyObject_CallFunctionObjArgs"); return 0; }
PyObject *PyObject_Call(PyObject *f, PyObject *, PyObject *) { __sx_unsupported("PyObject_Call"); return 0; }
PyObject *_PyObject_CallMethod_SizeT(PyObject *o, const char *n, const char *, ...) {
  if (PyDict_Check(o) && !strcmp(n, "items")) { PyObject *l = PyList_New(PyDict_Size(o)), *k, *v; Py_ssize_t p = 0, i = 0; while (PyDict_Next(o, &p, &k, &v)) { PyObject *t = PyTuple_New(2); Py_INCREF(k); Py_INCREF(v); PyTuple_SetItem(t, 0, k); PyTuple_SetItem(t, 1, v); PyList_SetItem(l, i++, t); } return l; }
  __sx_unsupported("PyObject_CallMethod"); return 0; }
int PyObject_IsTrue(PyObject *o) { if (o == Py_None) return 0; if (PyLong_Check(o)) return ((PymLong *)o)->kind || ((PymLong *)o)->v != 0; if (PyFloat_Check(o)) return ((PyFloatObject *)o)->ob_fval != 0; return 1; }
int PyObject_IsInstance(PyObject *o, PyObject *c) { return PyType_IsSubtype(Py_TYPE(o), (PyTypeObject *)c); }
int PyArg_UnpackTuple(PyObject *args, const char *, Py_ssize_t lo, Py_ssize_t hi, ...) { va_list a; va_start(a, hi); Py_ssize_t n = PyTuple_GET_SIZE(args); if (n < lo || n > hi) { va_end(a); PyErr_SetString(PyExc_TypeError, "wrong number of arguments"); return 0; } for (Py_ssize_t i = 0; i < n; i++) { PyObject **p = va_arg(a, PyObject **); *p = PyTuple_GET_ITEM(args, i); } va_end(a); return 1; }
static PyObject *pym_build(const char *f, va_list a) { // a tuple of i, f, d, s, O, N items
  if (f[0] && !f[1] && *f != '(') switch (*f) { case 'i': return PyLong_FromLong(va_arg(a, int)); case 'l': case 'L': case 'n': return PyLong_FromLong(va_arg(a, long)); case 'f': case 'd': return PyFloat_FromDouble(va_arg(a, double)); case 's': return PyUnicode_FromString(va_arg(a, const char *)); default:; }
  if (*f != '(') { __sx_unsupported("Py_BuildValue"); return 0; } size_t n = strlen(f) - 2; PyObject *t = PyTuple_New((Py_ssize_t)n);
  for (size_t i = 0; i < n; i++) { PyObject *v = 0; switch (f[1 + i]) { case 'i': v = PyLong_FromLong(va_arg(a, int)); break; case 'l': case 'L': case 'n': v = PyLong_FromLong(va_arg(a, long)); break; case 'k': case 'K': v = PyLong_FromUnsignedLong(va_arg(a, unsigned long)); break; case 'I': v = PyLong_FromUnsignedLong(va_arg(a, unsigned)); break; case 'f': case 'd': v = PyFloat_FromDouble(va_arg(a, double)); break; case 's': v = PyUnicode_FromString(va_arg(a, const char *)); break; case 'O': v = va_arg(a, PyObject *); Py_XINCREF(v); break; case 'N': v = va_arg(a, PyObject *); break; default: __sx_unsupported("Py_BuildValue"); } PyTuple_SetItem(t, (Py_ssize_t)i, v); }
  return t; }
PyObject *_Py_BuildValue_SizeT(const char *f, ...) { va_list a; va_start(a, f); PyObject *r = pym_build(f, a); va_end(a); return r; }
#undef Py_BuildValue
PyObject *Py_BuildValue(const char *f, ...) { va_list a; va_start(a, f); PyObject *r = pym_build(f, a); va_end(a); return r; }
#define Py_BuildValue _Py_BuildValue_SizeT
// ---- the proxy classes of partio.py: instances with a `this`, made by object.__new__
struct PymClass { PyTypeObject t; PyObject *destroy; };
struct PymInst { PyObject_HEAD PyObject *self; };
static void pym_free_inst(PyObject *o) { Py_XDECREF(((PymInst *)o)->self); free(o); }
static PyObject *pym_new_inst(PyTypeObject *t, PyObject *, PyObject *) { PymInst *i = (PymInst *)malloc(sizeof(PymInst)); i->ob_base.ob_refcnt = 1; i->ob_base.ob_type = t; i->self = 0; return (PyObject *)i; }
int PyObject_SetAttr(PyObject *o, PyObject *k, PyObject *v) { if (Py_TYPE(o)->tp_dealloc != pym_free_inst || !pym_streq(k, "this", 4)) { PyErr_SetString(PyExc_AttributeError, "no such attribute"); return -1; } PymInst *i = (PymInst *)o; PyObject *old = i->self; Py_XINCREF(v); i->self = v; Py_XDECREF(old); return 0; }
PyObject *PyObject_GetAttr(PyObject *o, PyObject *k) { if (Py_TYPE(o)->tp_dealloc == pym_free_inst && pym_streq(k, "this", 4) && ((PymInst *)o)->self) { Py_INCREF(((PymInst *)o)->self); return ((PymInst *)o)->self; } PyErr_SetString(PyExc_AttributeError, "no such attribute"); return 0; }
PyObject *PyObject_GetAttrString(PyObject *o, const char *n) { if (Py_TYPE(o) == &PyType_Type && ((PyTypeObject *)o)->tp_new == pym_new_inst && !strcmp(n, "__swig_destroy__")) { PyObject *d = ((PymClass *)o)->destroy; Py_XINCREF(d); if (d) return d; } PyErr_SetString(PyExc_AttributeError, "no such attribute"); return 0; }
static void pym_free(PyObject *o) { free(o); }
static void pym_type(PyTypeObject *t, const char *n, unsigned long f, destructor d) { t->ob_base.ob_base.ob_refcnt = IMM; t->ob_base.ob_base.ob_type = &PyType_Type; t->tp_name = n; t->tp_flags = f; t->tp_dealloc = d; }
static void pym_immortal(PyObject *o, PyTypeObject *t) { o->ob_refcnt = IMM; o->ob_type = t; }
} // extern "C"
static PyObject *pym_bigint(int k) { return pym_long(0, (u32)k); }
static void pym_start() {
  pym_type(&PyType_Type, "type", Py_TPFLAGS_TYPE_SUBCLASS, 0); pym_type(&PyBaseObject_Type, "object", 0, 0); pym_type(&PyLong_Type, "int", Py_TPFLAGS_LONG_SUBCLASS, pym_free); pym_type(&PyBool_Type, "bool", Py_TPFLAGS_LONG_SUBCLASS, 0); PyBool_Type.tp_base = &PyLong_Type;
  pym_type(&PyFloat_Type, "float", 0, pym_free); pym_type(&PyUnicode_Type, "str", Py_TPFLAGS_UNICODE_SUBCLASS, pym_free_str); pym_type(&PyBytes_Type, "bytes", Py_TPFLAGS_BYTES_SUBCLASS, pym_free_str); pym_type(&PyTuple_Type, "tuple", Py_TPFLAGS_TUPLE_SUBCLASS, pym_free_tuple);
  pym_type(&PyList_Type, "list", Py_TPFLAGS_LIST_SUBCLASS, pym_free_list); pym_type(&PyDict_Type, "dict", Py_TPFLAGS_DICT_SUBCLASS, pym_free_dict); pym_type(&PyCFunction_Type, "builtin_function_or_method", 0, pym_free); pym_type(&PyCapsule_Type, "PyCapsule", 0, pym_free); pym_type(&PyModule_Type, "module", 0, 0); pym_type(&pym_none_type, "NoneType", 0, 0); pym_type(&pym_exc_type, "exception", Py_TPFLAGS_BASE_EXC_SUBCLASS, 0);
  pym_immortal(&_Py_NoneStruct, &pym_none_type); pym_immortal(&_Py_NotImplementedStruct, &pym_none_type); pym_immortal((PyObject *)&_Py_TrueStruct, &PyBool_Type); pym_immortal((PyObject *)&_Py_FalseStruct, &PyBool_Type); ((PymLong *)&_Py_TrueStruct)->v = 1;
#define E(x) pym_immortal(&pym_exc_##x, &pym_exc_type);
  EXCS(E)
#undef E
}
#endif
