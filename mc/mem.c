/* Gives new memory known contents: every block allocated by the interpreter or by numpy is filled
 * with a byte, and is followed by 64 bytes of it.  A result that depends on memory that was not
 * initialised, or that lies behind a buffer, then depends on this byte. */
#include <Python.h>
#include <numpy/arrayobject.h>
#include <string.h>

#define TAIL 64
#define MAX_FILL (1 << 24)

static int byte_ = 0x5a;
static PyMemAllocatorEx orig[3];
static PyObject *handler;

static void fill(char *p, size_t from, size_t to)
{
    if (to - from <= MAX_FILL)
        memset(p + from, byte_, to - from);
    else
        memset(p + to - TAIL, byte_, TAIL);
}

static void *h_malloc(void *ctx, size_t n)
{
    PyMemAllocatorEx *o = ctx;
    char *p = n > PY_SSIZE_T_MAX - TAIL ? NULL : o->malloc(o->ctx, n + TAIL);
    if (p) fill(p, 0, n + TAIL);
    return p;
}

static void *h_calloc(void *ctx, size_t k, size_t s)
{
    PyMemAllocatorEx *o = ctx;
    if (s && k > (PY_SSIZE_T_MAX - TAIL) / s) return NULL;
    char *p = o->calloc(o->ctx, 1, k * s + TAIL);
    if (p) memset(p + k * s, byte_, TAIL);
    return p;
}

static void *h_realloc(void *ctx, void *q, size_t n)
{
    PyMemAllocatorEx *o = ctx;
    char *p = n > PY_SSIZE_T_MAX - TAIL ? NULL : o->realloc(o->ctx, q, n + TAIL);
    if (p) memset(p + n, byte_, TAIL);
    return p;
}

static void h_free(void *ctx, void *p)
{
    PyMemAllocatorEx *o = ctx;
    o->free(o->ctx, p);
}

static void *n_malloc(void *ctx, size_t n)
{
    char *p = malloc(n + TAIL);
    if (p) fill(p, 0, n + TAIL);
    return p;
}

static void *n_calloc(void *ctx, size_t k, size_t s)
{
    if (s && k > (PY_SSIZE_T_MAX - TAIL) / s) return NULL;
    char *p = calloc(1, k * s + TAIL);
    if (p) memset(p + k * s, byte_, TAIL);
    return p;
}

static void *n_realloc(void *ctx, void *q, size_t n)
{
    char *p = realloc(q, n + TAIL);
    if (p) memset(p + n, byte_, TAIL);
    return p;
}

static void n_free(void *ctx, void *p, size_t n) { free(p); }

static PyDataMem_Handler numpy_handler = {"filled", 1, {NULL, n_malloc, n_calloc, n_realloc, n_free}};

static PyObject *install(PyObject *self, PyObject *args)
{
    static int done;
    if (!done) {
        PyMemAllocatorDomain d[] = {PYMEM_DOMAIN_MEM, PYMEM_DOMAIN_OBJ};
        for (int i = 0; i < 2; i++) {
            PyMem_GetAllocator(d[i], &orig[i]);
            PyMemAllocatorEx a = {&orig[i], h_malloc, h_calloc, h_realloc, h_free};
            PyMem_SetAllocator(d[i], &a);
        }
        handler = PyCapsule_New(&numpy_handler, "mem_handler", NULL);
        if (!handler) return NULL;
        done = 1;
    }
    PyObject *old = PyDataMem_SetHandler(handler);
    if (!old) return NULL;
    Py_DECREF(old);
    Py_RETURN_NONE;
}

static PyObject *set_byte(PyObject *self, PyObject *args)
{
    if (!PyArg_ParseTuple(args, "i", &byte_)) return NULL;
    Py_RETURN_NONE;
}

static PyMethodDef methods[] = {
    {"install", install, METH_NOARGS, ""},
    {"fill", set_byte, METH_VARARGS, ""},
    {NULL},
};

static struct PyModuleDef def = {PyModuleDef_HEAD_INIT, "mcmem", NULL, -1, methods};

PyMODINIT_FUNC PyInit_mcmem(void)
{
    import_array();
    return PyModule_Create(&def);
}
