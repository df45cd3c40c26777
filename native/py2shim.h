// Forced-include shim: the project's C++/Python glue is written against the
// Python 2 C API.  These inline functions give the few Python 2 names it uses
// their meaning on top of Python 3, so the *real* glue code runs unchanged.
#ifndef KFSIM_PY2SHIM_H
#define KFSIM_PY2SHIM_H
#ifdef __cplusplus
#include <Python.h>
#include <time.h>
static inline int kfsim_PyInt_Check(PyObject* o)
{
    // numpy integers were int subclasses under Python 2
    return o && !PyBool_Check(o) ? (PyLong_Check(o) || (PyIndex_Check(o) && !PyFloat_Check(o) && !PySequence_Check(o))) : (o != 0);
}
static inline const char* kfsim_PyString_AsString(PyObject* o)
{
    return PyBytes_Check(o) ? PyBytes_AsString(o) : PyUnicode_AsUTF8(o);
}
static inline int kfsim_PyString_Check(PyObject* o) { return PyUnicode_Check(o) || PyBytes_Check(o); }
#define PyString_Check(o) kfsim_PyString_Check(o)
#define PyString_AsString(o) kfsim_PyString_AsString(o)
#define PyString_FromString(s) PyUnicode_FromString(s)
#define PyInt_Check(o) kfsim_PyInt_Check(o)
#define PyInt_FromLong(n) PyLong_FromLong(n)
#define PyInt_AsLong(n) PyLong_AsLong(n)
#endif
#endif
