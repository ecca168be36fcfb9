// Stand-in for the Python header: objects are those of objholder_stub.cc.
#pragma once
#include <climits>
#include <cstddef>
struct PyObject;
#define Py_INCREF(x) ((void)(x))
#define Py_DECREF(x) ((void)(x))
#define Py_None (static_cast<PyObject *>(nullptr))
