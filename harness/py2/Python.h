// A stand-in for the Python 2 C interface: only objects, reference counts and errors.
// Every object is tracked; misuse is recorded in pystub::S.problem.
#pragma once
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <limits.h>
#include <map>
#include <string>
#include <vector>

#define PY_MAJOR_VERSION 2
#define PY_MINOR_VERSION 7
#define PY_VERSION_HEX 0x020712f0
#define PyAPI_DATA(x) extern x
#define PyAPI_FUNC(x) x
#define PyMODINIT_FUNC extern "C" void
typedef ptrdiff_t Py_ssize_t;
struct _typeobject;
#define PyObject_HEAD Py_ssize_t ob_refcnt; _typeobject *ob_type
#define PyObject_VAR_HEAD PyObject_HEAD; Py_ssize_t ob_size
#define PyObject_HEAD_INIT(type) 1, type,
#define PyVarObject_HEAD_INIT(type, size) 1, type, size,
typedef struct _object { PyObject_HEAD; } PyObject;
typedef struct { PyObject_VAR_HEAD; } PyVarObject;
typedef PyObject *(*unaryfunc)(PyObject *);
typedef PyObject *(*binaryfunc)(PyObject *, PyObject *);
typedef PyObject *(*ternaryfunc)(PyObject *, PyObject *, PyObject *);
typedef int (*inquiry)(PyObject *);
typedef Py_ssize_t (*lenfunc)(PyObject *);
typedef PyObject *(*ssizeargfunc)(PyObject *, Py_ssize_t);
typedef int (*objobjargproc)(PyObject *, PyObject *, PyObject *);
typedef int (*ssizeobjargproc)(PyObject *, Py_ssize_t, PyObject *);
typedef int (*objobjproc)(PyObject *, PyObject *);
typedef int (*visitproc)(PyObject *, void *);
typedef int (*traverseproc)(PyObject *, visitproc, void *);
typedef void (*freefunc)(void *);
typedef void (*destructor)(PyObject *);
typedef int (*printfunc)(PyObject *, FILE *, int);
typedef PyObject *(*getattrfunc)(PyObject *, char *);
typedef PyObject *(*getattrofunc)(PyObject *, PyObject *);
typedef int (*setattrfunc)(PyObject *, char *, PyObject *);
typedef int (*setattrofunc)(PyObject *, PyObject *, PyObject *);
typedef int (*cmpfunc)(PyObject *, PyObject *);
typedef PyObject *(*reprfunc)(PyObject *);
typedef long (*hashfunc)(PyObject *);
typedef PyObject *(*richcmpfunc)(PyObject *, PyObject *, int);
typedef PyObject *(*getiterfunc)(PyObject *);
typedef PyObject *(*iternextfunc)(PyObject *);
typedef PyObject *(*descrgetfunc)(PyObject *, PyObject *, PyObject *);
typedef int (*descrsetfunc)(PyObject *, PyObject *, PyObject *);
typedef int (*initproc)(PyObject *, PyObject *, PyObject *);
typedef PyObject *(*newfunc)(_typeobject *, PyObject *, PyObject *);
typedef PyObject *(*allocfunc)(_typeobject *, Py_ssize_t);
typedef PyObject *(*getter)(PyObject *, void *);
typedef int (*setter)(PyObject *, PyObject *, void *);
typedef PyObject *(*PyCFunction)(PyObject *, PyObject *);
struct PyNumberMethods;
struct PyBufferProcs;
struct PySequenceMethods { lenfunc sq_length; binaryfunc sq_concat; ssizeargfunc sq_repeat, sq_item; void *was_sq_slice; ssizeobjargproc sq_ass_item; void *was_sq_ass_slice; objobjproc sq_contains; };
struct PyMappingMethods { lenfunc mp_length; binaryfunc mp_subscript; objobjargproc mp_ass_subscript; };
struct PyMethodDef { const char *ml_name; PyCFunction ml_meth; int ml_flags; const char *ml_doc; };
struct PyGetSetDef { char *name; getter get; setter set; char *doc; void *closure; };
struct PyMemberDef { char *name; int type; Py_ssize_t offset; int flags; char *doc; };
#define METH_VARARGS 1
#define METH_KEYWORDS 2
#define METH_NOARGS 4
#define METH_O 8
typedef struct _typeobject {
  PyObject_VAR_HEAD;
  const char *tp_name;
  Py_ssize_t tp_basicsize, tp_itemsize;
  destructor tp_dealloc;
  printfunc tp_print;
  getattrfunc tp_getattr;
  setattrfunc tp_setattr;
  cmpfunc tp_compare;
  reprfunc tp_repr;
  PyNumberMethods *tp_as_number;
  PySequenceMethods *tp_as_sequence;
  PyMappingMethods *tp_as_mapping;
  hashfunc tp_hash;
  ternaryfunc tp_call;
  reprfunc tp_str;
  getattrofunc tp_getattro;
  setattrofunc tp_setattro;
  PyBufferProcs *tp_as_buffer;
  long tp_flags;
  const char *tp_doc;
  traverseproc tp_traverse;
  inquiry tp_clear;
  richcmpfunc tp_richcompare;
  Py_ssize_t tp_weaklistoffset;
  getiterfunc tp_iter;
  iternextfunc tp_iternext;
  PyMethodDef *tp_methods;
  PyMemberDef *tp_members;
  PyGetSetDef *tp_getset;
  _typeobject *tp_base;
  PyObject *tp_dict;
  descrgetfunc tp_descr_get;
  descrsetfunc tp_descr_set;
  Py_ssize_t tp_dictoffset;
  initproc tp_init;
  allocfunc tp_alloc;
  newfunc tp_new;
  freefunc tp_free;
  inquiry tp_is_gc;
  PyObject *tp_bases, *tp_mro, *tp_cache, *tp_subclasses, *tp_weaklist;
  destructor tp_del;
  unsigned int tp_version_tag;
} PyTypeObject;
#define Py_TPFLAGS_DEFAULT ((1L << 0) | (1L << 1) | (1L << 3) | (1L << 5) | (1L << 6) | (1L << 7) | (1L << 8) | (1L << 17))
#define Py_TPFLAGS_BASETYPE (1L << 10)
#define Py_TPFLAGS_READY (1L << 12)
#define Py_TPFLAGS_IS_ABSTRACT (1L << 20)
#define Py_TPFLAGS_HEAPTYPE (1L << 9)
#define Py_GCC_ATTRIBUTE(x) __attribute__(x)

typedef struct { PyObject_HEAD; __int128 v; } PyIntObject;
typedef PyIntObject PyLongObject;
typedef struct { PyObject_HEAD; double ob_fval; } PyFloatObject;
typedef struct { PyObject_VAR_HEAD; char *ob_sval; } PyStringObject;
typedef struct { PyObject_VAR_HEAD; PyObject **ob_item; } PyListObject;
typedef PyListObject PyTupleObject;

namespace pystub {
struct State {
  std::map<const void *, int> live; // every object made and not freed yet
  std::string problem;
  PyObject *err = nullptr;
  std::string errText;
  std::map<std::string, PyObject *> module;
};
extern State S;
inline void bad(const std::string &m) { if (S.problem.empty()) S.problem = m; }
extern PyTypeObject Type, Base, Int, Long, Float, Str, List, Tuple, NoneT, Exc;
extern PyObject none, excs[12];
inline bool isStatic(const void *o) {
  auto t = ((const PyObject *)o)->ob_type;
  return o == &none || t == &Type || t == &Exc;
}
inline bool known(const void *o) { return S.live.count(o) || (o && (o == &none || (o >= &excs[0] && o < &excs[12]))); }
void incref(PyObject *o);
void decref(PyObject *o);
template <class T> T *make(PyTypeObject *t) {
  T *r = (T *)calloc(1, sizeof(T));
  r->ob_refcnt = 1, r->ob_type = t;
  S.live[r] = 1;
  return r;
}
} // namespace pystub

#define PyType_Type pystub::Type
#define PyBaseObject_Type pystub::Base
#define PyInt_Type pystub::Int
#define PyLong_Type pystub::Long
#define PyFloat_Type pystub::Float
#define PyString_Type pystub::Str
#define PyList_Type pystub::List
#define PyTuple_Type pystub::Tuple
#define Py_None (&pystub::none)
#define PyExc_IndexError (&pystub::excs[0])
#define PyExc_StopIteration (&pystub::excs[1])
#define PyExc_TypeError (&pystub::excs[2])
#define PyExc_AttributeError (&pystub::excs[3])
#define PyExc_ValueError (&pystub::excs[4])
#define PyExc_RuntimeError (&pystub::excs[5])
#define PyExc_SystemError (&pystub::excs[6])
#define PyExc_OverflowError (&pystub::excs[7])
#define PyExc_MemoryError (&pystub::excs[8])
#define PyExc_KeyError (&pystub::excs[9])
#define PyExc_Exception (&pystub::excs[10])
#define PyExc_NotImplementedError (&pystub::excs[11])

#define Py_TYPE(o) (((PyObject *)(o))->ob_type)
#define Py_REFCNT(o) (((PyObject *)(o))->ob_refcnt)
#define Py_SIZE(o) (((PyVarObject *)(o))->ob_size)
#define Py_INCREF(o) pystub::incref((PyObject *)(o))
#define Py_DECREF(o) pystub::decref((PyObject *)(o))
#define Py_XINCREF(o) do { if (o) Py_INCREF(o); } while (0)
#define Py_XDECREF(o) do { if (o) Py_DECREF(o); } while (0)
#define Py_CLEAR(o) do { if (o) { auto t__ = (PyObject *)(o); (o) = nullptr; Py_DECREF(t__); } } while (0)
#define Py_RETURN_NONE return Py_INCREF(Py_None), Py_None
#define PyInt_Check(o) (Py_TYPE(o) == &PyInt_Type)
#define PyLong_Check(o) (Py_TYPE(o) == &PyLong_Type)
#define PyFloat_Check(o) (Py_TYPE(o) == &PyFloat_Type)
#define PyString_Check(o) (Py_TYPE(o) == &PyString_Type)
#define PyList_Check(o) (Py_TYPE(o) == &PyList_Type)
#define PyTuple_Check(o) (Py_TYPE(o) == &PyTuple_Type)
#define PyNumber_Check(o) (PyInt_Check(o) || PyLong_Check(o) || PyFloat_Check(o))
#define PyObject_TypeCheck(o, t) (Py_TYPE(o) == (t))
#define PyList_GET_ITEM(o, i) (((PyListObject *)(o))->ob_item[i])
#define PyList_GET_SIZE(o) Py_SIZE(o)
#define PyTuple_GET_ITEM PyList_GET_ITEM
#define PyTuple_GET_SIZE PyList_GET_SIZE
#define PyList_SET_ITEM(o, i, v) (PyList_GET_ITEM(o, i) = (v))
#define PyTuple_SET_ITEM PyList_SET_ITEM
#define PyFloat_AS_DOUBLE(o) (((PyFloatObject *)(o))->ob_fval)
#define PyString_AS_STRING(o) (((PyStringObject *)(o))->ob_sval)

extern "C" {
void PyErr_SetString(PyObject *e, const char *m);
void PyErr_SetNone(PyObject *e);
PyObject *PyErr_Format(PyObject *e, const char *f, ...);
PyObject *PyErr_Occurred();
int PyErr_ExceptionMatches(PyObject *e);
void PyErr_Clear();
PyObject *PyErr_NoMemory();
PyObject *PyInt_FromLong(long v);
PyObject *PyInt_FromSize_t(size_t v);
PyObject *PyInt_FromSsize_t(Py_ssize_t v);
PyObject *PyLong_FromLong(long v);
PyObject *PyLong_FromUnsignedLong(unsigned long v);
PyObject *PyLong_FromSize_t(size_t v);
PyObject *PyLong_FromSsize_t(Py_ssize_t v);
PyObject *PyLong_FromLongLong(long long v);
PyObject *PyLong_FromUnsignedLongLong(unsigned long long v);
Py_ssize_t PyInt_AsSsize_t(PyObject *o);
long PyInt_AsLong(PyObject *o);
long PyLong_AsLong(PyObject *o);
Py_ssize_t PyLong_AsSsize_t(PyObject *o);
unsigned long PyLong_AsUnsignedLong(PyObject *o);
Py_ssize_t PyNumber_AsSsize_t(PyObject *o, PyObject *exc);
PyObject *PyFloat_FromDouble(double v);
double PyFloat_AsDouble(PyObject *o);
PyObject *PyString_FromStringAndSize(const char *p, Py_ssize_t n);
PyObject *PyString_FromString(const char *p);
char *PyString_AsString(PyObject *o);
Py_ssize_t PyString_Size(PyObject *o);
PyObject *PyList_New(Py_ssize_t n);
Py_ssize_t PyList_Size(PyObject *o);
PyObject *PyList_GetItem(PyObject *o, Py_ssize_t i);
int PyList_SetItem(PyObject *o, Py_ssize_t i, PyObject *v);
int PyList_Append(PyObject *o, PyObject *v);
PyObject *PyTuple_New(Py_ssize_t n);
Py_ssize_t PyTuple_Size(PyObject *o);
PyObject *PyTuple_GetItem(PyObject *o, Py_ssize_t i);
int PyTuple_SetItem(PyObject *o, Py_ssize_t i, PyObject *v);
PyObject *Py_BuildValue(const char *f, ...);
int PyArg_ParseTuple(PyObject *args, const char *f, ...);
int PyType_Ready(PyTypeObject *t);
PyObject *PyType_GenericAlloc(PyTypeObject *t, Py_ssize_t n);
PyObject *PyType_GenericNew(PyTypeObject *t, PyObject *, PyObject *);
void PyObject_Free(void *p);
void PyObject_FREE(void *p);
void PyObject_Del(void *p);
PyObject *PyObject_GenericGetAttr(PyObject *o, PyObject *name);
int PyModule_AddObject(PyObject *m, const char *name, PyObject *v);
int PyModule_AddIntConstant(PyObject *m, const char *name, long v);
}
