// Worlds that drive DLite through its Python bindings, in an embedded interpreter.
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#include "../core.h"
#include <unistd.h>
extern "C" { int dlite_errval(void); }
extern "C" size_t __sanitizer_get_current_allocated_bytes();
namespace dsim {
static PyObject *py_violation(PyObject *, PyObject *a) {
  const char *k, *m; if (!PyArg_ParseTuple(a, "ss", &k, &m)) return nullptr;
  violation(k, "%s", m);
}
static PyObject *py_say(PyObject *, PyObject *a) { const char *m; if (!PyArg_ParseTuple(a, "s", &m)) return nullptr; say("%s", m); Py_RETURN_NONE; }
static PyObject *py_arm(PyObject *, PyObject *a) {
  unsigned k, n, g; if (!PyArg_ParseTuple(a, "III", &k, &n, &g)) return nullptr;
  Fault f; f.kind = k; f.nth = n; f.arg = g; seam_arm(f); Py_RETURN_NONE;
}
static PyObject *py_disarm(PyObject *, PyObject *) { return PyBool_FromLong(seam_disarm()); }
static PyObject *py_fired(PyObject *, PyObject *) { return PyBool_FromLong(seam_fired()); }
static PyObject *py_pause(PyObject *, PyObject *a) { int b; if (!PyArg_ParseTuple(a, "p", &b)) return nullptr; seam_pause(b); Py_RETURN_NONE; }
static PyObject *py_fault(PyObject *, PyObject *a) { unsigned k; if (!PyArg_ParseTuple(a, "I", &k)) return nullptr; seam_register_fault(k); Py_RETURN_NONE; }
static PyObject *py_eval(PyObject *, PyObject *) { eval(); Py_RETURN_NONE; }
static PyObject *py_note(PyObject *, PyObject *a) { const char *m; Py_ssize_t n; if (!PyArg_ParseTuple(a, "s#", &m, &n)) return nullptr; note_state(hash_bytes(m, n)); Py_RETURN_NONE; }
static PyObject *py_log(PyObject *, PyObject *a) { const char *m; Py_ssize_t n; if (!PyArg_ParseTuple(a, "s#", &m, &n)) return nullptr; log_hash(hash_bytes(m, n)); Py_RETURN_NONE; }
static PyObject *py_op(PyObject *, PyObject *a) { unsigned i; if (!PyArg_ParseTuple(a, "I", &i)) return nullptr; shm->opidx = i; shm->nops++; Py_RETURN_NONE; }
static PyObject *py_opno(PyObject *, PyObject *) { return PyLong_FromLong(shm->opidx); }
static PyObject *py_probe(PyObject *, PyObject *a) { unsigned i; if (!PyArg_ParseTuple(a, "I", &i)) return nullptr; shm->probe[i % 64]++; Py_RETURN_NONE; }
static PyObject *py_bytes(PyObject *, PyObject *) { return PyLong_FromSize_t(__sanitizer_get_current_allocated_bytes()); }
static PyObject *py_errval(PyObject *, PyObject *) { return PyLong_FromLong(dlite_errval()); }
static PyMethodDef methods[] = {
  {"violation", py_violation, METH_VARARGS, ""}, {"say", py_say, METH_VARARGS, ""}, {"arm", py_arm, METH_VARARGS, ""},
  {"disarm", py_disarm, METH_NOARGS, ""}, {"fired", py_fired, METH_NOARGS, ""}, {"pause", py_pause, METH_VARARGS, ""},
  {"fault", py_fault, METH_VARARGS, ""}, {"eval", py_eval, METH_NOARGS, ""}, {"note", py_note, METH_VARARGS, ""},
  {"log", py_log, METH_VARARGS, ""}, {"op", py_op, METH_VARARGS, ""}, {"opno", py_opno, METH_NOARGS, ""}, {"probe", py_probe, METH_VARARGS, ""},
  {"allocated", py_bytes, METH_NOARGS, ""}, {"errval", py_errval, METH_NOARGS, ""}, {nullptr, nullptr, 0, nullptr}};
static PyModuleDef moddef = {PyModuleDef_HEAD_INIT, "_dsim", nullptr, -1, methods, nullptr, nullptr, nullptr, nullptr};
static PyObject *init_dsim() { return PyModule_Create(&moddef); }
static PyObject *g_run;

static void die(const char *what) { PyErr_Print(); fprintf(stderr, "dsimpy: %s\n", what); _exit(98); }
void py_process_init() {
  const char *here = getenv("DSIM_PYDIR"), *exe = getenv("DSIM_PYTHON");
  setenv("PYTHONHASHSEED", "0", 1); setenv("PYTHONMALLOC", "malloc", 1); setenv("PYTHONDONTWRITEBYTECODE", "1", 1);
  setenv("PYTHONNOUSERSITE", "1", 1); setenv("OPENBLAS_NUM_THREADS", "1", 1); setenv("OMP_NUM_THREADS", "1", 1);
  PyImport_AppendInittab("_dsim", init_dsim);
  PyConfig c; PyConfig_InitPythonConfig(&c);
  c.install_signal_handlers = 0;
  if (exe) PyConfig_SetBytesString(&c, &c.executable, exe);
  PyStatus st = Py_InitializeFromConfig(&c);
  PyConfig_Clear(&c);
  if (PyStatus_Exception(st)) die("cannot initialise Python");
  std::string s = std::string("import sys\nsys.path.insert(0, '") + repo_build_dir() + "/bindings/python')\nsys.path.insert(0, '" +
    (here ? here : ".") + "')\nsys.dont_write_bytecode = True\n";
  if (PyRun_SimpleString(s.c_str())) die("sys.path");
  PyObject *m = PyImport_ImportModule("pysim");
  if (!m || !(g_run = PyObject_GetAttrString(m, "run"))) die("cannot import pysim");
}
static void run_world(const char *id, const Trace &t, u32 start, u32 inc) {
  seam_random_mode(0, ctx.seed);
  PyObject *l = PyList_New(0);
  for (auto &o : t) {
    PyObject *x = Py_BuildValue("(II(IIIIII)(III))", o.client, o.kind, o.a[0], o.a[1], o.a[2], o.a[3], o.a[4], o.a[5], o.f.kind, o.f.nth, o.f.arg);
    PyList_Append(l, x); Py_DECREF(x);
  }
  PyObject *r = PyObject_CallFunction(g_run, "sOIIs", id, l, start, inc, (ctx.dir + "/d").c_str());
  if (!r) die("the script of the world failed");
  Py_DECREF(r); Py_DECREF(l);
}
static Op mk(Rng &r, u32 kind, u32 nf) {
  Op o; o.client = 0; o.kind = kind;
  for (auto &a : o.a) a = r.below(1u << 20);
  if (nf && r.chance(1, nf)) { o.f.kind = F_MALLOC_FAIL; o.f.nth = 1 + r.below(r.chance(1, 3) ? 60 : 12); o.f.arg = r.below(3) == 0; }
  return o;
}
#define WORLD(N, NK, NAMES, QR, TR, RULE, REAL, STUB) \
  static Trace gen##N(Rng &r, u64) { \
    Trace t; int n = r.range(12, 60); bool faults = r.chance(1, 2); \
    std::vector<u32> w; for (int i = 0; i < NK; i++) w.push_back(r.chance(1, 4) ? 0 : r.chance(1, 3) ? 6 : 2); \
    u32 sum = 0; for (u32 x : w) sum += x; if (!sum) { w[0] = sum = 1; } \
    for (int i = 0; i < n; i++) { u32 v = r.below(sum), k = 0; while (v >= w[k]) v -= w[k++]; \
      if (r.chance(1, 5)) k = 0; t.push_back(mk(r, k, faults ? 4 : 0)); } \
    return t; } \
  static void run##N(const Trace &t, u32 s, u32 i) { run_world(#N, t, s, i); } \
  static const char *name##N(u32 k) { static const char *n[] = NAMES; return k < NK ? n[k] : "?"; } \
  static Register reg##N({#N, QR, TR, 0, gen##N, run##N, name##N, RULE, REAL, STUB});
#define L(...) {__VA_ARGS__}
WORLD(S13, 27, L("new", "set", "get", "hold_array", "use_array", "drop", "alias", "getinst", "coll_new", "coll_add", "coll_remove",
  "coll_get", "coll_iter", "iter_next", "dict", "json", "self", "copy", "gc", "wrong", "meta", "relations", "junk", "frozen", "leak", "coll_file", "storage"),
  2500, 30000, "hash of the models of all Python variables after an operation",
  "the Python bindings (SWIG wrapper, entity, collection, error classes), libdlite, the embedded CPython and numpy", "allocator results, randomness")
}  // namespace dsim
