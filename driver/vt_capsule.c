/* A C function h_nn(s,t,u,v) behind a capsule, as tdvp_calc_C.calc_C takes it: the elements of a table. */
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#include <complex.h>
#include <string.h>
#define MAXT 4096
static double complex table[MAXT];
static int q1, q2;

static double complex h_nn(int s, int t, int u, int v)
{
    int i = ((s * q2 + t) * q1 + u) * q2 + v;
    return i >= 0 && i < MAXT ? table[i] : 1e6;
}

static PyObject *make(PyObject *self, PyObject *args)
{
    const char *buf;
    Py_ssize_t n;
    if (!PyArg_ParseTuple(args, "iiy#", &q1, &q2, &buf, &n))
        return NULL;
    if (n > (Py_ssize_t)sizeof(table)) {
        PyErr_SetString(PyExc_ValueError, "table too large");
        return NULL;
    }
    memcpy(table, buf, n);
    return PyCapsule_New((void *)h_nn, "h_nn", NULL);
}

static PyMethodDef methods[] = {{"make", make, METH_VARARGS, ""}, {NULL, NULL, 0, NULL}};
static struct PyModuleDef mod = {PyModuleDef_HEAD_INIT, "vt_capsule", "", -1, methods};
PyMODINIT_FUNC PyInit_vt_capsule(void) { return PyModule_Create(&mod); }
