// The stand-in for Python 2 used by C34.
#include "py2/Python.h"
namespace pystub {
State S;
PyTypeObject Type, Base, Int, Long, Float, Str, List, Tuple, NoneT, Exc;
PyObject none, excs[12];
static void freeNum(PyObject *o) { PyObject_Free(o); }
static void freeStr(PyObject *o) { free(((PyStringObject *)o)->ob_sval); PyObject_Free(o); }
static void freeSeq(PyObject *o) {
  auto l = (PyListObject *)o;
  for (Py_ssize_t i = 0; i < l->ob_size; i++)
    if (l->ob_item[i]) decref(l->ob_item[i]);
  free(l->ob_item);
  PyObject_Free(o);
}
static void freeNever(PyObject *) { bad("a permanent object lost its last reference"); }
static struct Init {
  Init() {
    struct { PyTypeObject *t; const char *n; destructor d; } ts[] = {{&Type, "type", freeNever}, {&Base, "object", freeNum}, {&Int, "int", freeNum}, {&Long, "long", freeNum}, {&Float, "float", freeNum}, {&Str, "str", freeStr}, {&List, "list", freeSeq}, {&Tuple, "tuple", freeSeq}, {&NoneT, "NoneType", freeNever}, {&Exc, "exception", freeNever}};
    for (auto &t : ts) t.t->ob_refcnt = 1, t.t->ob_type = &Type, t.t->tp_name = t.n, t.t->tp_dealloc = t.d, t.t->tp_flags = Py_TPFLAGS_DEFAULT | Py_TPFLAGS_READY;
    none.ob_refcnt = 1000000, none.ob_type = &NoneT;
    for (auto &e : excs) e.ob_refcnt = 1000000, e.ob_type = &Exc;
  }
} init;
static bool typeObject(PyObject *o) { return !S.live.count(o) && o != &none && !(o >= excs && o < excs + 12) && o->ob_type == &Type; }
void incref(PyObject *o) {
  if (!known(o) && !typeObject(o)) return bad("a reference taken to an object that is gone");
  o->ob_refcnt++;
}
void decref(PyObject *o) {
  if (!known(o) && !typeObject(o)) return bad("a reference to an object that is gone dropped");
  if (--o->ob_refcnt > 0) return;
  if (typeObject(o)) return bad("a type lost its last reference");
  auto d = o->ob_type->tp_dealloc;
  std::string name = o->ob_type->tp_name;
  if (!d) return bad("no tp_dealloc: " + name);
  d(o);
  if (S.live.count(o)) {
    bad("memory of an object without references is not given back: " + name);
    S.live.erase(o);
    free(o);
  }
}
static PyObject *num(PyTypeObject *t, __int128 v) {
  auto r = make<PyIntObject>(t);
  r->v = v;
  return (PyObject *)r;
}
static PyObject *seq(PyTypeObject *t, Py_ssize_t n) {
  if (n < 0) { PyErr_SetString(PyExc_SystemError, "bad size"); return nullptr; }
  auto r = make<PyListObject>(t);
  r->ob_size = n;
  r->ob_item = (PyObject **)calloc(n ? n : 1, sizeof(PyObject *));
  return (PyObject *)r;
}
static bool integer(PyObject *o, __int128 &v, bool floats) {
  if (!o) { PyErr_SetString(PyExc_SystemError, "null argument to internal routine"); return false; }
  if (!known(o) && !typeObject(o)) { bad("use of an object that is gone"); return false; }
  if (PyInt_Check(o) || PyLong_Check(o)) { v = ((PyIntObject *)o)->v; return true; }
  if (floats && PyFloat_Check(o)) { v = (__int128)PyFloat_AS_DOUBLE(o); return true; }
  PyErr_SetString(PyExc_TypeError, "an integer is required");
  return false;
}
static PyObject *build(const char *&f, va_list *ap) {
  switch (*f++) {
  case '(': {
    std::vector<PyObject *> items;
    while (*f && *f != ')') {
      if (*f == ' ' || *f == ',') { f++; continue; }
      items.push_back(build(f, ap));
    }
    if (*f == ')') f++;
    else bad("bad format for Py_BuildValue");
    auto r = seq(&Tuple, items.size());
    for (size_t i = 0; i < items.size(); i++) ((PyListObject *)r)->ob_item[i] = items[i];
    return r;
  }
  case 'f': case 'd': return PyFloat_FromDouble(va_arg(*ap, double));
  case 'i': case 'h': case 'b': return PyInt_FromLong(va_arg(*ap, int));
  case 'I': return PyInt_FromSize_t(va_arg(*ap, unsigned));
  case 'l': case 'n': return PyInt_FromLong(va_arg(*ap, long));
  case 'k': return PyInt_FromSize_t(va_arg(*ap, unsigned long));
  case 's': { auto p = va_arg(*ap, const char *); if (*f == '#') { f++; return PyString_FromStringAndSize(p, va_arg(*ap, int)); } return PyString_FromString(p); }
  case 'O': { auto o = va_arg(*ap, PyObject *); incref(o); return o; }
  case 'N': return va_arg(*ap, PyObject *);
  default: bad("unknown format for Py_BuildValue"); return PyInt_FromLong(0);
  }
}
} // namespace pystub
using namespace pystub;
extern "C" {
void PyErr_SetString(PyObject *e, const char *m) { S.err = e, S.errText = m ? m : ""; }
void PyErr_SetNone(PyObject *e) { S.err = e, S.errText.clear(); }
PyObject *PyErr_Format(PyObject *e, const char *f, ...) { PyErr_SetString(e, f); return nullptr; }
PyObject *PyErr_Occurred() { return S.err; }
int PyErr_ExceptionMatches(PyObject *e) { return S.err == e; }
void PyErr_Clear() { S.err = nullptr; }
PyObject *PyErr_NoMemory() { PyErr_SetNone(PyExc_MemoryError); return nullptr; }
PyObject *PyInt_FromLong(long v) { return num(&Int, v); }
PyObject *PyInt_FromSize_t(size_t v) { return num(v > (size_t)LONG_MAX ? &Long : &Int, v); }
PyObject *PyInt_FromSsize_t(Py_ssize_t v) { return num(&Int, v); }
PyObject *PyLong_FromLong(long v) { return num(&Long, v); }
PyObject *PyLong_FromUnsignedLong(unsigned long v) { return num(&Long, v); }
PyObject *PyLong_FromSize_t(size_t v) { return num(&Long, v); }
PyObject *PyLong_FromSsize_t(Py_ssize_t v) { return num(&Long, v); }
PyObject *PyLong_FromLongLong(long long v) { return num(&Long, v); }
PyObject *PyLong_FromUnsignedLongLong(unsigned long long v) { return num(&Long, v); }
static Py_ssize_t asLong(PyObject *o, bool floats) {
  __int128 v;
  if (!integer(o, v, floats)) return -1;
  if (v > LONG_MAX || v < LONG_MIN) { PyErr_SetString(PyExc_OverflowError, "too large to convert to C long"); return -1; }
  return (Py_ssize_t)v;
}
Py_ssize_t PyInt_AsSsize_t(PyObject *o) { return asLong(o, true); }
long PyInt_AsLong(PyObject *o) { return asLong(o, true); }
long PyLong_AsLong(PyObject *o) { return asLong(o, true); }
Py_ssize_t PyLong_AsSsize_t(PyObject *o) { return asLong(o, false); }
unsigned long PyLong_AsUnsignedLong(PyObject *o) {
  __int128 v;
  if (!integer(o, v, false)) return (unsigned long)-1;
  if (v < 0 || v > (__int128)ULONG_MAX) { PyErr_SetString(PyExc_OverflowError, "out of range"); return (unsigned long)-1; }
  return (unsigned long)v;
}
Py_ssize_t PyNumber_AsSsize_t(PyObject *o, PyObject *exc) {
  __int128 v;
  if (!integer(o, v, false)) return -1;
  if (v > LONG_MAX || v < LONG_MIN) {
    if (exc) { PyErr_SetString(exc, "cannot fit into an index"); return -1; }
    return v < 0 ? LONG_MIN : LONG_MAX;
  }
  return (Py_ssize_t)v;
}
PyObject *PyFloat_FromDouble(double v) { auto r = make<PyFloatObject>(&Float); r->ob_fval = v; return (PyObject *)r; }
double PyFloat_AsDouble(PyObject *o) {
  if (o && !known(o)) { bad("use of an object that is gone"); return -1; }
  if (o && PyFloat_Check(o)) return PyFloat_AS_DOUBLE(o);
  if (o && (PyInt_Check(o) || PyLong_Check(o))) return (double)((PyIntObject *)o)->v;
  PyErr_SetString(PyExc_TypeError, "a float is required");
  return -1;
}
PyObject *PyString_FromStringAndSize(const char *p, Py_ssize_t n) {
  if (n < 0) { PyErr_SetString(PyExc_SystemError, "negative size"); return nullptr; }
  auto r = make<PyStringObject>(&Str);
  r->ob_size = n;
  r->ob_sval = (char *)calloc(n + 1, 1);
  if (p && n) memcpy(r->ob_sval, p, n);
  return (PyObject *)r;
}
PyObject *PyString_FromString(const char *p) { return PyString_FromStringAndSize(p, strlen(p)); }
char *PyString_AsString(PyObject *o) {
  if (!PyString_Check(o)) { PyErr_SetString(PyExc_TypeError, "expected string"); return nullptr; }
  return PyString_AS_STRING(o);
}
Py_ssize_t PyString_Size(PyObject *o) {
  if (!PyString_Check(o)) { PyErr_SetString(PyExc_TypeError, "expected string"); return -1; }
  return Py_SIZE(o);
}
PyObject *PyList_New(Py_ssize_t n) { return seq(&List, n); }
PyObject *PyTuple_New(Py_ssize_t n) { return seq(&Tuple, n); }
static bool is(PyObject *o, PyTypeObject *t) {
  if (o && known(o) && Py_TYPE(o) == t) return true;
  PyErr_SetString(PyExc_SystemError, "bad internal call");
  return false;
}
static PyObject *item(PyObject *o, Py_ssize_t i, PyTypeObject *t) {
  if (!is(o, t)) return nullptr;
  if (i < 0 || i >= Py_SIZE(o)) { PyErr_SetString(PyExc_IndexError, "index out of range"); return nullptr; }
  return PyList_GET_ITEM(o, i);
}
static int setItem(PyObject *o, Py_ssize_t i, PyObject *v, PyTypeObject *t) {
  if (!is(o, t) || i < 0 || i >= Py_SIZE(o)) {
    Py_XDECREF(v);
    PyErr_SetString(PyExc_IndexError, "assignment index out of range");
    return -1;
  }
  auto old = PyList_GET_ITEM(o, i);
  PyList_GET_ITEM(o, i) = v;
  Py_XDECREF(old);
  return 0;
}
Py_ssize_t PyList_Size(PyObject *o) { return is(o, &List) ? Py_SIZE(o) : -1; }
Py_ssize_t PyTuple_Size(PyObject *o) { return is(o, &Tuple) ? Py_SIZE(o) : -1; }
PyObject *PyList_GetItem(PyObject *o, Py_ssize_t i) { return item(o, i, &List); }
PyObject *PyTuple_GetItem(PyObject *o, Py_ssize_t i) { return item(o, i, &Tuple); }
int PyList_SetItem(PyObject *o, Py_ssize_t i, PyObject *v) { return setItem(o, i, v, &List); }
int PyTuple_SetItem(PyObject *o, Py_ssize_t i, PyObject *v) { return setItem(o, i, v, &Tuple); }
int PyList_Append(PyObject *o, PyObject *v) {
  if (!is(o, &List)) return -1;
  auto l = (PyListObject *)o;
  l->ob_item = (PyObject **)realloc(l->ob_item, (l->ob_size + 1) * sizeof(PyObject *));
  incref(v);
  l->ob_item[l->ob_size++] = v;
  return 0;
}
PyObject *Py_BuildValue(const char *f, ...) {
  va_list ap;
  va_start(ap, f);
  std::vector<PyObject *> r;
  while (*f) r.push_back(build(f, &ap));
  va_end(ap);
  if (r.size() == 1) return r[0];
  if (r.empty()) { incref(&none); return &none; }
  auto t = seq(&Tuple, r.size());
  for (size_t i = 0; i < r.size(); i++) PyList_GET_ITEM(t, i) = r[i];
  return t;
}
int PyArg_ParseTuple(PyObject *args, const char *f, ...) {
  va_list ap;
  va_start(ap, f);
  bool ok = is(args, &Tuple);
  Py_ssize_t n = 0;
  for (; ok && *f && *f != ':' && *f != ';'; f++) {
    if (*f == '|') continue;
    PyObject *a = n < Py_SIZE(args) ? PyList_GET_ITEM(args, n) : nullptr;
    n++;
    if (!a) { PyErr_SetString(PyExc_TypeError, "function takes more arguments"); ok = false; break; }
    if (*f == 'O' && f[1] == '!') {
      f++;
      auto t = va_arg(ap, PyTypeObject *);
      auto o = va_arg(ap, PyObject **);
      if (Py_TYPE(a) != t) { PyErr_SetString(PyExc_TypeError, "argument of another type"); ok = false; break; }
      *o = a;
    } else if (*f == 'O') *va_arg(ap, PyObject **) = a;
    else if (*f == 'f') { *va_arg(ap, float *) = (float)PyFloat_AsDouble(a); ok = !S.err; }
    else if (*f == 'd') { *va_arg(ap, double *) = PyFloat_AsDouble(a); ok = !S.err; }
    else bad("unknown format for PyArg_ParseTuple");
  }
  if (ok && n < Py_SIZE(args)) { PyErr_SetString(PyExc_TypeError, "function takes fewer arguments"); ok = false; }
  va_end(ap);
  return ok;
}
int PyType_Ready(PyTypeObject *t) {
  if (t->tp_flags & Py_TPFLAGS_READY) return 0;
  if (!t->tp_name || t->tp_basicsize < (Py_ssize_t)sizeof(PyObject)) { bad("bad type"); return -1; }
  if (!t->ob_type) t->ob_type = &Type;
  t->tp_base = &Base;
  if (!t->tp_alloc) t->tp_alloc = PyType_GenericAlloc;
  if (!t->tp_free) t->tp_free = PyObject_Free;
  if (!t->tp_dealloc) t->tp_dealloc = freeNum;
  t->tp_flags |= Py_TPFLAGS_READY;
  return 0;
}
PyObject *PyType_GenericAlloc(PyTypeObject *t, Py_ssize_t) {
  if (!(t->tp_flags & Py_TPFLAGS_READY)) bad(std::string("an object of a type that is not ready: ") + t->tp_name);
  auto r = (PyObject *)calloc(1, t->tp_basicsize);
  r->ob_refcnt = 1, r->ob_type = t;
  S.live[r] = 1;
  return r;
}
PyObject *PyType_GenericNew(PyTypeObject *t, PyObject *, PyObject *) { return PyType_GenericAlloc(t, 0); }
void PyObject_Free(void *p) {
  if (!S.live.erase(p)) return bad("memory given back twice");
  memset(p, 0xdd, sizeof(PyObject));
  free(p);
}
void PyObject_FREE(void *p) { PyObject_Free(p); }
void PyObject_Del(void *p) { PyObject_Free(p); }
PyObject *PyObject_GenericGetAttr(PyObject *, PyObject *) { PyErr_SetNone(PyExc_AttributeError); return nullptr; }
int PyModule_AddObject(PyObject *, const char *name, PyObject *v) { S.module[name] = v; return 0; }
int PyModule_AddIntConstant(PyObject *, const char *name, long v) { S.module[name] = PyInt_FromLong(v); return 0; }
}
