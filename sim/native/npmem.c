/* Memory of numpy arrays that runs out: allocation number `at` (from 1) and the `count` - 1 following ones fail,
   counting only those of at least `size` bytes. */
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#define NPY_NO_DEPRECATED_API NPY_1_22_API_VERSION
#define NPY_TARGET_VERSION NPY_1_22_API_VERSION
#include <numpy/arrayobject.h>

static long long n, from, to, hit, least;

static int fails(size_t s)
{
    if ((long long)s < least)
        return 0;
    n++;
    if (n < from || n >= to)
        return 0;
    hit++;
    return 1;
}
static void *m_alloc(void *c, size_t s) { return fails(s) ? NULL : malloc(s ? s : 1); }
static void *m_calloc(void *c, size_t k, size_t s) { return fails(k * s) ? NULL : calloc(k ? k : 1, s ? s : 1); }
static void *m_realloc(void *c, void *p, size_t s) { return fails(s) ? NULL : realloc(p, s ? s : 1); }
static void m_free(void *c, void *p, size_t s) { free(p); }

static PyDataMem_Handler handler = {"simulated", 1, {NULL, m_alloc, m_calloc, m_realloc, m_free}};

static PyObject *arm(PyObject *self, PyObject *args)
{
    long long a, c, s = 0;
    PyObject *cap, *old;
    if (!PyArg_ParseTuple(args, "LL|L", &a, &c, &s))
        return NULL;
    n = hit = 0;
    least = s;
    from = a;
    to = a + c;
    cap = PyCapsule_New(&handler, "mem_handler", NULL);
    if (!cap)
        return NULL;
    old = PyDataMem_SetHandler(cap);
    Py_DECREF(cap);
    return old;
}

static PyObject *disarm(PyObject *self, PyObject *args)
{
    from = to = 0;
    return Py_BuildValue("LL", n, hit);
}

static PyMethodDef methods[] = {{"arm", arm, METH_VARARGS, ""}, {"disarm", disarm, METH_NOARGS, ""}, {NULL}};
static struct PyModuleDef def = {PyModuleDef_HEAD_INIT, "npmem", NULL, -1, methods};

PyMODINIT_FUNC PyInit_npmem(void)
{
    import_array();
    return PyModule_Create(&def);
}
