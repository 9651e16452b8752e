// The Python binding (C26) inside a real interpreter with real NumPy. The interpreter's own memory is taken from the checked heap
// for the length of a case, so that its allocations can fail with the others and touching freed Python objects is noticed.
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#define NPY_NO_DEPRECATED_API NPY_1_7_API_VERSION
#define NPY_TARGET_VERSION NPY_1_22_API_VERSION
#include <numpy/arrayobject.h>
#include "common.hpp"
#include <deque>
using namespace sim;
extern "C" __attribute__((weak)) PyObject* PyInit_PyHdbscan(void);
namespace {
enum Probe { PB_OOM, PB_REFUSED, PB_MANY, PB_RERUN, PB_RECOVER, PB_UNRUN, PB_HELD, PB_LAYOUT, PB_BADARG, PB_REINIT, PB_SUB, PB_SETATTR, PB_ROUNDS, PB_HIER, PB_MAP };
bool hooked;
PyMemAllocatorEx raw_mem, raw_obj;
void* h_malloc(void* c, size_t n) { if (!hooked) { auto* a = (PyMemAllocatorEx*)c; return a->malloc(a->ctx, n); } return host_alloc(n, false); }
void* h_calloc(void* c, size_t n, size_t z) { if (!hooked) { auto* a = (PyMemAllocatorEx*)c; return a->calloc(a->ctx, n, z); } return host_alloc(n * z, true); }
void h_free(void* c, void* p) { if (p && in_heap(p)) { host_free(p); return; } auto* a = (PyMemAllocatorEx*)c; a->free(a->ctx, p); }
void* h_realloc(void* c, void* p, size_t n) { auto* a = (PyMemAllocatorEx*)c; if (!p) return h_malloc(c, n); if (!in_heap(p)) return a->realloc(a->ctx, p, n); size_t o = host_size(p); void* q = host_alloc(n, false); if (!q) return nullptr; memcpy(q, p, std::min(o, n)); host_free(p); return q; }
// NumPy's array data
void* d_malloc(void*, size_t n) { return hooked ? host_alloc(n, false) : malloc(n); }
void* d_calloc(void*, size_t n, size_t z) { return hooked ? host_alloc(n * z, true) : calloc(n, z); }
void d_free(void*, void* p, size_t) { if (p && in_heap(p)) host_free(p); else free(p); }
void* d_realloc(void*, void* p, size_t n) { if (!p) return d_malloc(nullptr, n); if (!in_heap(p)) return realloc(p, n); size_t o = host_size(p); void* q = host_alloc(n, false); if (!q) return nullptr; memcpy(q, p, std::min(o, n)); host_free(p); return q; }
PyDataMem_Handler handler = {"sim", 1, {nullptr, d_malloc, d_calloc, d_realloc, d_free}};
PyObject *globals, *mk_fn, *vals_fn, *ds_shape_fn;
const char* helper = R"PY(
import numpy as np, gc
gc.disable()
class Arr(np.ndarray): pass
def mk(a, how, s):
    if how == 'c': return a
    if how == 'f': return np.asfortranarray(a)
    if how == 'stride':
        b = np.zeros((a.shape[0] * 2, a.shape[1] + 1), a.dtype); v = b[::2, :a.shape[1]]; v[...] = a; return v
    if how == 'neg': return a[::-1].copy()[::-1]
    if how == 'ro': b = a.copy(); b.flags.writeable = False; return b
    if how == 'swap': return a.astype(a.dtype.newbyteorder())
    if how == 'unal':
        raw = np.zeros(a.nbytes + 1, np.uint8); v = raw[1:].view(a.dtype).reshape(a.shape); v[...] = a; return v
    if how == 'sub': return a.copy().view(Arr)
    if how == 'flat': return a.reshape(-1).copy()
    if how == 'flatstride': b = np.zeros(a.size * 3, a.dtype); v = b[::3]; v[...] = a.reshape(-1); return v
    if how == 'list': return a.tolist()
    if how == 'tuple': return tuple(tuple(x) for x in a.tolist())
    if how == '3d': return a.reshape(a.shape + (1,)).copy()
    if how == '3db': b = np.zeros(a.shape + (2,), a.dtype); b[..., 0] = a; b[..., 1] = 3; return b
    if how == '0d': return np.array(1.5)
    if how == 'norows': return np.zeros((0, max(1, a.shape[1])))
    if how == 'nocols': return np.zeros((a.shape[0], 0))
    if how == 'empty': return np.zeros(0)
    if how == 'none': return None
    if how == 'str': return 'data'
    if how == 'num': return 7
    if how == 'dict': return {1: 2}
    return a.astype({'complex': complex, 'obj': object, 'bool': bool, 'u1': np.uint8, 'i1': np.int8, 'f2': np.float16, 'ld': np.longdouble, 'll': np.longlong, 'u2': np.uint16, 'u4': np.uint32, 'u8': np.uint64, 'text': 'U8', 'time': 'M8[s]'}[how]) if how != 'time' else a.astype(np.int64).astype('M8[s]')
def vals(x):
    try: b = np.asarray(x)
    except Exception: return None
    if b.ndim == 1: b = b.reshape(-1, 1)
    if b.ndim == 3 and b.shape[2] == 1: b = b.reshape(b.shape[:2])
    if b.ndim != 2 or b.size == 0 or b.dtype.kind not in 'fiubO': return None
    try: b = b.astype(np.float64)
    except Exception: return None
    return b.shape[0], b.shape[1], b.reshape(-1).tolist()
)PY";
[[noreturn]] void die(const char* w) { if (PyErr_Occurred()) PyErr_Print(); fprintf(stderr, "cannot host Python: %s\n", w); _exit(3); }
int np_import() { import_array1(-1); return 0; }
}
void py_boot() {
  PyPreConfig pre; PyPreConfig_InitIsolatedConfig(&pre); pre.utf8_mode = 1; PyConfig c; if (PyStatus_Exception(Py_PreInitialize(&pre))) die("pre-initialisation");
  PyConfig_InitIsolatedConfig(&c); c.use_hash_seed = 1; c.hash_seed = 0; c.write_bytecode = 0; c.install_signal_handlers = 0; c.site_import = 1; PyConfig_SetString(&c, &c.program_name, L"/usr/bin/python3");
  setenv("OPENBLAS_NUM_THREADS", "1", 1); setenv("OMP_NUM_THREADS", "1", 1);
  if (PyStatus_Exception(Py_InitializeFromConfig(&c))) die("initialisation"); PyConfig_Clear(&c);
  PyMem_GetAllocator(PYMEM_DOMAIN_MEM, &raw_mem); PyMem_GetAllocator(PYMEM_DOMAIN_OBJ, &raw_obj);
  PyMemAllocatorEx a = {&raw_mem, h_malloc, h_calloc, h_realloc, h_free}, b = {&raw_obj, h_malloc, h_calloc, h_realloc, h_free}; PyMem_SetAllocator(PYMEM_DOMAIN_MEM, &a); PyMem_SetAllocator(PYMEM_DOMAIN_OBJ, &b);
  if (np_import() < 0) die("numpy"); globals = PyDict_New(); PyDict_SetItemString(globals, "__builtins__", PyEval_GetBuiltins()); PyObject* r = PyRun_String(helper, Py_file_input, globals, globals); if (!r) die("helper"); mk_fn = PyDict_GetItemString(globals, "mk"); vals_fn = PyDict_GetItemString(globals, "vals"); if (!mk_fn || !vals_fn) die("helper functions"); r = PyRun_String("gc.collect(); gc.freeze()", Py_file_input, globals, globals); if (!r) die("freezing"); Py_DECREF(r);
}
namespace {
void collect() { PyGC_Enable(); PyGC_Collect(); PyGC_Disable(); }
struct DS { int type; long rows, cols; vector<double> v; };
struct Fresh { bool ok = false; vector<long> labels; vector<std::pair<long, vector<long>>> levels; };
struct PO { PyObject* o = nullptr; bool inited = false, lost = false, shaky = false, ran = false, set = false, setrc = false; std::set<const DS*> data; std::set<long> mp; };
struct Held { PyObject* o; string text; string from; };
struct W { const Case* c; std::map<std::tuple<int, long, int>, PyObject*> bufs; std::map<string, PO> slots; vector<Held> held; std::deque<DS> ds; std::map<std::pair<const DS*, long>, Fresh> fresh; PyObject *mod = nullptr, *cls = nullptr, *sub = nullptr; string arm; uint64_t arm_at = 0; bool armed_any = false; };
struct Outcome { bool thrown = false; string ex, msg; PyObject* res = nullptr; bool fault = false; };
string where(const Op& o) { string s = "python:"; for (auto& x : o.a) s += " " + x; return s; }
void alive(PyObject* o, const string& w) { if (!o) return; if (in_heap(o) && !addressable(o, sizeof(PyObject))) fail("py:freed-object", w + ": an object that is still referred to was freed"); }
bool ints(PyObject* o, vector<long>& v) { // a list or one-dimensional array of integers
  v.clear(); if (PyArray_Check(o)) { PyArrayObject* a = (PyArrayObject*)o; if (PyArray_NDIM(a) != 1) return false; size_t nb = (size_t)PyArray_NBYTES(a); if (nb && in_heap(PyArray_DATA(a)) && !addressable(PyArray_DATA(a), nb)) fail("py:freed-array", strf("an array of %ld elements handed to Python has its elements in freed memory", (long)PyArray_SIZE(a))); }
  PyObject* f = PySequence_List(o); if (!f) { PyErr_Clear(); return false; } bool ok = true; for (Py_ssize_t i = 0; i < PyList_GET_SIZE(f); i++) { PyObject* x = PyNumber_Index(PyList_GET_ITEM(f, i)); if (!x) { PyErr_Clear(); ok = false; break; } v.push_back(PyLong_AsLongLong(x)); if (PyErr_Occurred()) { PyErr_Clear(); ok = false; } Py_DECREF(x); } Py_DECREF(f); return ok; }
bool table(PyObject* o, std::map<long, vector<long>>& t) { t.clear(); if (!PyDict_Check(o)) return false; Py_ssize_t p = 0; PyObject *k, *v; while (PyDict_Next(o, &p, &k, &v)) { long x = PyLong_AsLong(k); if (PyErr_Occurred()) { PyErr_Clear(); return false; } if (!ints(v, t[x])) return false; } return true; }
string ser(PyObject* o, const string& w) { alive(o, w); vector<long> v; std::map<long, vector<long>> t; string s; if (PyDict_Check(o)) { if (!table(o, t)) return "?"; for (auto& x : t) { s += strf("%ld:", x.first); for (long y : x.second) s += " " + std::to_string(y); s += ";"; } return s; } if (!ints(o, v)) return "?"; for (long y : v) s += " " + std::to_string(y); return s; }
void verify_held(W& w, const string& at) { for (auto& h : w.held) { checked(); string t = ser(h.o, at); if (t != h.text) fail("py:changed-later", at + ": what " + h.from + " handed out has changed: " + first_diff(h.text + "\n", t + "\n")); } }
void hold(W& w, PyObject* o, const string& from) { Py_INCREF(o); w.held.push_back({o, ser(o, from), from}); }
Fresh& fresh(W& w, const DS* d, long mp) {
  Fresh& f = w.fresh[{d, mp}]; if (f.ok || !f.labels.empty()) return f; static const size_t sz[] = {4, 8, 4, 8, 2, 1}; size_t n = (size_t)(d->rows * d->cols); char* b = (char*)user_alloc(n * sz[d->type]); for (size_t i = 0; i < n; i++) { double v = d->v[i]; switch (d->type) { case 0: ((int*)b)[i] = (int)v; break; case 1: ((double*)b)[i] = v; break; case 2: ((float*)b)[i] = (float)v; break; case 3: ((long*)b)[i] = (long)v; break; case 4: ((short*)b)[i] = (short)v; break; default: ((signed char*)b)[i] = (signed char)v; } }
  void* o = nullptr; int r = 0; SUT("hdbscan_init", 0, o = drv_init(mp)); SUT("hdbscan_run", 0, r = drv_run(o, b, d->rows, d->cols, 1, d->type)); user_free(b); f.ok = r == 0; if (f.ok) { for (long i = 0; i < d->rows; i++) f.labels.push_back((long)drv_label(o, i)); for (i64 i = 0; i < drv_levels(o); i++) { i64 k; double wt; drv_level(o, i, &k, &wt); vector<long> l; for (long j = 0; j < d->rows; j++) l.push_back((long)drv_level_label(o, k, j)); f.levels.push_back({(long)k, l}); } } else f.labels = {-1}; SUT("hdbscan_destroy", 0, drv_destroy(o)); return f;
}
uint64_t native_limit = 60000000;
template <class Fn> Outcome py(W& w, const Op& o, const char* name, Fn fn) {
  Outcome r; bool armed = !w.arm.empty(); if (armed) { if (w.arm == "arm") arm_alloc_failures({w.arm_at}, -1); else arm_alloc_failures({}, (int64_t)w.arm_at); w.arm.clear(); }
  SUTQ(name, native_limit, r.res = fn()); if (armed) { r.fault = alloc_failures_fired() > 0; if (r.fault) probe(PB_OOM); disarm_alloc_failures(); } checked(); shared->nontrivial = 1;
  if (!r.res) { if (!PyErr_Occurred()) fail("py:no-exception", where(o) + ": the call failed without an exception"); PyObject *t, *v, *tb; PyErr_Fetch(&t, &v, &tb); r.thrown = true; r.ex = ((PyTypeObject*)t)->tp_name; PyObject* s = v ? PyObject_Str(v) : nullptr; if (s) { const char* u = PyUnicode_AsUTF8(s); r.msg = u ? u : ""; Py_DECREF(s); } PyErr_Clear(); Py_XDECREF(t); Py_XDECREF(v); Py_XDECREF(tb);
    if (r.ex == "SystemError") fail("py:no-exception", where(o) + ": " + r.msg.substr(0, 160)); }
  else { alive(r.res, where(o)); if (PyErr_Occurred()) fail("py:stale-exception", where(o) + ": the call returned a value and left an exception behind"); }
  verify_held(w, where(o)); return r;
}
bool failed_code(const Outcome& r) { if (r.thrown) return true; if (!PyLong_Check(r.res)) return false; long v = PyLong_AsLong(r.res); PyErr_Clear(); return v != 0; }
PyObject* attr(PO& j, const char* n) { PyObject* a = PyObject_GetAttrString(j.o, n); if (!a) PyErr_Clear(); return a; }
vector<const Fresh*> cands(W& w, PO& j) { vector<const Fresh*> v; for (auto d : j.data) for (long m : j.mp) { Fresh& f = fresh(w, d, m); if (f.ok) v.push_back(&f); } return v; }
string show(const vector<long>& v) { string s; for (size_t i = 0; i < v.size() && i < 24; i++) s += " " + std::to_string(v[i]); return s; }
void judge_labels(W& w, PO& j, const Op& o) {
  PyObject* l = attr(j, "labels"); if (!l) fail("py:no-labels", where(o) + ": success was reported and the object has no labels"); alive(l, where(o)); vector<long> v; if (!ints(l, v)) fail("py:wrong-labels", where(o) + ": labels is not a sequence of integers"); for (long x : v) note((uint64_t)x); checked(); bool ok = false; auto cs = cands(w, j); string d = "the native library fails"; for (auto f : cs) { if (f->labels == v) ok = true; else d = "natively" + show(f->labels); } if (!ok) fail("py:wrong-labels", where(o) + ": labels are" + show(v) + ", " + d); Py_DECREF(l); }
void judge_attrs(W& w, PO& j, const Op& o, const DS* d, long mp) { struct { const char* n; long v; } q[] = {{"rows", d->rows}, {"cols", d->cols}, {"minPoints", mp}}; for (auto& x : q) { PyObject* a = attr(j, x.n); long v = a ? PyLong_AsLong(a) : -99; PyErr_Clear(); Py_XDECREF(a); if (x.v >= 0 && v != x.v) fail("py:wrong-attribute", where(o) + strf(": %s is %ld, expected %ld", x.n, v, x.v)); } }
void judge_hier(W& w, PO& j, const Op& o) {
  PyObject* h = attr(j, "hierarchy"); if (!h) fail("py:no-hierarchy", where(o) + ": the object has no hierarchy"); alive(h, where(o)); std::map<long, vector<long>> t; if (!table(h, t)) fail("py:wrong-hierarchy", where(o) + ": the hierarchy is not a dictionary of label arrays"); checked(); bool ok = false; string d = "no native result"; for (auto f : cands(w, j)) { std::map<long, vector<long>> e(f->levels.begin(), f->levels.end()); if (e == t) { ok = true; break; } if (e.size() != t.size()) d = strf("%zu levels, natively %zu", t.size(), e.size()); else for (auto& x : e) if (!t.count(x.first)) d = strf("level %ld is missing", x.first); else if (t[x.first] != x.second) { d = strf("level %ld has labels", x.first) + show(t[x.first]) + ", natively" + show(x.second); break; } } if (!ok) fail("py:wrong-hierarchy", where(o) + ": " + d); for (auto& x : t) for (long y : x.second) note((uint64_t)y); probe(PB_HIER); Py_DECREF(h); }
string show_map(const std::map<long, vector<long>>& t) { string s; for (auto& x : t) { s += std::to_string(x.first) + ":"; for (long y : x.second) s += " " + std::to_string(y); s += "; "; } return s.substr(0, 200); }
void judge_map(W& w, PO& j, const Op& o, PyObject* m, long b, long e) {
  std::map<long, vector<long>> t; if (!table(m, t)) fail("py:wrong-map", where(o) + ": the cluster map is not a dictionary of arrays"); checked(); bool ok = false; string d = "no native result"; for (auto f : cands(w, j)) { std::map<long, vector<long>> x; for (long i = b; i < e && i < (long)f->labels.size(); i++) x[f->labels[(size_t)i]].push_back(i); if (x == t) { ok = true; break; } if (x.size() != t.size()) d = strf("%zu clusters, expected %zu", t.size(), x.size()) + " " + show_map(t) + "against " + show_map(x); else for (auto& y : x) if (!t.count(y.first)) d = strf("label %ld is missing", y.first); else if (t[y.first] != y.second) { d = strf("label %ld has points", y.first) + show(t[y.first]) + ", expected" + show(y.second); break; } } if (!ok) fail("py:wrong-map", where(o) + ": " + d); for (auto& x : t) for (long y : x.second) note((uint64_t)y); probe(PB_MAP);
  PyObject* a = attr(j, "clusterMap"); if (!a) fail("py:wrong-map", where(o) + ": the object has no cluster map"); alive(a, where(o)); std::map<long, vector<long>> t2; if (!table(a, t2) || t2 != t) fail("py:wrong-map", where(o) + ": the attribute clusterMap differs from what was returned"); Py_DECREF(a); }
PyObject* number(const string& s) { if (s == "none") Py_RETURN_NONE; if (s == "str") return PyUnicode_FromString("5"); if (s == "float") return PyFloat_FromDouble(4.0); if (s == "big") return PyLong_FromString("99999999999999999999999", nullptr, 10); return PyLong_FromString(s.c_str(), nullptr, 10); }
// 0 must be refused, 1 must be accepted, 2 either
int mp_ok(const string& s, long* v) { *v = 0; if (s == "none" || s == "str" || s == "big") return 0; if (s == "float") { *v = 4; return 2; } *v = atol(s.c_str()); if (*v < 2) return 0; double top = drv_index_size() == 2 ? 65535.0 : drv_index_size() == 4 ? 4294967295.0 : 9e18; if ((double)*v > top) return 0; return (double)*v > (drv_index_size() == 2 ? 32767 : 2147483647.0) ? 2 : 1; }
PyObject* dataset(W& w, int di, const string& how, long seed) { const Data& d = w.c->data[(size_t)di]; static const int tn[] = {NPY_INT32, NPY_DOUBLE, NPY_FLOAT32, NPY_LONG, NPY_SHORT, NPY_INT8}; npy_intp dims[2] = {(npy_intp)d.pts.size(), d.cols}; PyObject* a = PyArray_SimpleNew(2, dims, tn[d.type]); if (!a) die("array"); char* p = (char*)PyArray_DATA((PyArrayObject*)a); void* b = data_buffer(d); static const size_t sz[] = {4, 8, 4, 8, 2, 1}; memcpy(p, b, d.pts.size() * (size_t)d.cols * sz[d.type]); user_free(b);
  PyObject* r = PyObject_CallFunction(mk_fn, "Osl", a, how.c_str(), seed); Py_DECREF(a); if (!r) die("dataset"); return r; }
PyObject* keep(W& w, const Data& d, PyObject* a, long turn) { // the caller's own buffer, filled again for each run with the rows turned around
  PyObject*& b = w.bufs[{d.type, (long)d.pts.size(), d.cols}]; if (!b) b = PyArray_NewCopy((PyArrayObject*)a, NPY_CORDER); if (!b) die("buffer"); size_t nb = (size_t)PyArray_NBYTES((PyArrayObject*)a), row = nb / d.pts.size(), cut = row * (size_t)turn; char *to = (char*)PyArray_DATA((PyArrayObject*)b), *from = (char*)PyArray_DATA((PyArrayObject*)a); memcpy(to, from + cut, nb - cut); memcpy(to + nb - cut, from, cut); Py_DECREF(a); Py_INCREF(b); return b; }
void step(W& w, const Op& o) {
  const string& op = o.name(); if (op == "arm" || op == "armp") { w.arm = op; w.arm_at = (uint64_t)o.i(1); return; }
  auto it = w.slots.find(o.s(1)); bool have = it != w.slots.end(); auto refused = [&](const Outcome& r, const char* what) { if (!failed_code(r)) fail("py:no-exception", where(o) + ": " + what + " and no error was reported"); Py_XDECREF(r.res); probe(PB_REFUSED); };
  if (op == "gc") { collect(); verify_held(w, where(o)); return; }
  if (op == "drop") { if (!w.held.empty()) { size_t k = (size_t)o.i(2) % w.held.size(); Py_DECREF(w.held[k].o); w.held.erase(w.held.begin() + (long)k); } return; }
  if (op == "new") { if (have) return; string mp = o.s(2, "3"), how = o.s(3, "pos"); long v; int okv = how == "noargs" || how == "two" ? 0 : mp_ok(mp, &v); PO j; if (how == "raw") { // allocated, never initialised
      Outcome r = py(w, o, "new", [&]() { PyObject* t = PyTuple_New(0); if (!t) return t; PyObject* x = ((PyTypeObject*)w.cls)->tp_new((PyTypeObject*)w.cls, t, nullptr); Py_DECREF(t); return x; }); if (r.thrown) { if (!r.fault) fail("py:exception", where(o) + ": " + r.ex + ": " + r.msg); return; } j.o = r.res; j.shaky = true; w.slots[o.s(1)] = j; return; }
    PyObject* n = number(mp); if (!n) die("number"); Outcome r = py(w, o, "new", [&]() -> PyObject* { PyObject* c = how == "sub" ? w.sub : w.cls; if (how == "kw") { PyObject *t = PyTuple_New(0), *k = PyDict_New(), *x = nullptr; if (t && k && PyDict_SetItemString(k, "minPoints", n) == 0) x = PyObject_Call(c, t, k); Py_XDECREF(t); Py_XDECREF(k); return x; } if (how == "noargs") return PyObject_CallNoArgs(c); if (how == "two") return PyObject_CallFunctionObjArgs(c, n, n, nullptr); return PyObject_CallOneArg(c, n); }); Py_DECREF(n);
    if (how == "sub") probe(PB_SUB); if (okv == 0) { probe(PB_BADARG); refused(r, "minPoints is not usable"); return; } if (r.thrown) { if (!r.fault && okv == 1) fail("py:exception", where(o) + ": " + r.ex + ": " + r.msg); return; }
    j.o = r.res; j.inited = true; j.mp = {v}; w.slots[o.s(1)] = j; if (w.slots.size() > 1) probe(PB_MANY); return; }
  if (!have) { w.arm.clear(); return; } PO& j = it->second;
  if (op == "del") { SUTQ("dealloc", native_limit, Py_DECREF(j.o)); w.slots.erase(it); verify_held(w, where(o)); return; }
  if (op == "init") { string mp = o.s(2, "3"); long v; int okv = mp_ok(mp, &v); PyObject* n = number(mp); Outcome r = py(w, o, "__init__", [&]() { return PyObject_CallMethod(j.o, "__init__", "O", n); }); Py_DECREF(n); probe(PB_REINIT); j.lost = j.shaky = true; if (okv == 0) { refused(r, "minPoints is not usable"); return; } if (r.thrown) { if (!r.fault && okv == 1) fail("py:exception", where(o) + ": " + r.ex + ": " + r.msg); return; } Py_DECREF(r.res); j.mp.insert(v); if (okv == 1) { j.shaky = false; j.mp = j.ran ? j.mp : std::set<long>{v}; } j.inited = true; return; }
  if (op == "run") {
    int di = (int)o.i(2); if (di < 0 || di >= (int)w.c->data.size()) return; const Data& d = w.c->data[(size_t)di]; if (d.pts.empty()) return; string how = o.s(3, "c"); if ((how == "flat" || how == "flatstride") && d.cols != 1) how = "c"; static const std::set<string> good = {"c", "f", "stride", "neg", "ro", "swap", "unal", "sub", "flat", "flatstride", "kept"}, never = {"3db", "0d", "norows", "nocols", "empty", "none", "str", "num", "dict", "text", "time"}; bool must = d.type != 5 && good.count(how), cant = never.count(how) || how == "noargs" || how == "two"; if (must && how != "c") probe(PB_LAYOUT);
    string save = w.arm; w.arm.clear(); bool kept = how == "kept"; long turn = kept ? o.i(4) % (long)d.pts.size() : 0; PyObject* a = dataset(w, di, how == "noargs" || how == "two" || kept ? "c" : how, o.i(4)); if (kept) a = keep(w, d, a, turn); DS q; bool known = false; if (must) { q.type = d.type; q.rows = (long)d.pts.size(); q.cols = d.cols; for (size_t i = 0; i < d.pts.size(); i++) for (double x : d.pts[(i + (size_t)turn) % d.pts.size()]) q.v.push_back(x); known = true; } else if (!cant) { PyObject* t = PyObject_CallOneArg(vals_fn, a); if (t && PyTuple_Check(t)) { q.type = 1; q.rows = PyLong_AsLong(PyTuple_GET_ITEM(t, 0)); q.cols = PyLong_AsLong(PyTuple_GET_ITEM(t, 1)); PyObject* l = PyTuple_GET_ITEM(t, 2); for (Py_ssize_t i = 0; i < PyList_GET_SIZE(l); i++) q.v.push_back(PyFloat_AsDouble(PyList_GET_ITEM(l, i))); known = true; } PyErr_Clear(); Py_XDECREF(t); }
    w.arm = save; const DS* dp = nullptr; for (auto& x : w.ds) if (known && x.type == q.type && x.rows == q.rows && x.cols == q.cols && x.v == q.v) dp = &x; if (known && !dp) { w.ds.push_back(q); dp = &w.ds.back(); }
    Outcome r = py(w, o, "run", [&]() { if (how == "noargs") return PyObject_CallMethod(j.o, "run", nullptr); if (how == "two") return PyObject_CallMethod(j.o, "run", "OO", a, a); return PyObject_CallMethod(j.o, "run", "O", a); });
    if (o.s(5) == "scribble" && PyArray_Check(a) && PyArray_ISWRITEABLE((PyArrayObject*)a)) { PyArrayObject* p = (PyArrayObject*)a; if (PyArray_ISCONTIGUOUS(p) && PyArray_TYPE(p) != NPY_OBJECT) memset(PyArray_DATA(p), 0, (size_t)PyArray_NBYTES(p)); } Py_DECREF(a); verify_held(w, where(o));
    if (cant) { probe(PB_BADARG); refused(r, "this is no dataset"); j.lost = true; if (!j.inited) j.shaky = true; return; } if (!j.inited) { refused(r, "the object was never initialised"); return; }
    if (failed_code(r)) { if (must && !r.fault && !j.shaky) { bool nat = false; for (long m : j.mp) nat |= fresh(w, dp, m).ok; if (nat) fail("py:exception", where(o) + ": " + (r.thrown ? r.ex + ": " + r.msg : string("a code other than zero was returned"))); } probe(PB_REFUSED); if (dp) j.data.insert(dp); j.lost = true; Py_XDECREF(r.res); return; }
    if (!dp) fail("py:no-exception", where(o) + ": this is no dataset and no error was reported"); Py_DECREF(r.res); if (j.lost) probe(PB_RECOVER); j.lost = j.shaky = false; j.ran = true; j.setrc = false; j.data = {dp}; judge_labels(w, j, o); judge_attrs(w, j, o, dp, j.mp.size() == 1 && !j.set ? *j.mp.begin() : -1); return; }
  if (op == "rerun") { string mp = o.s(2, "3"); long v; int okv = mp_ok(mp, &v); PyObject* n = number(mp); Outcome r = py(w, o, "rerun", [&]() { return PyObject_CallMethod(j.o, "rerun", "O", n); }); Py_DECREF(n);
    if (okv == 0) { probe(PB_BADARG); refused(r, "minPoints is not usable"); j.lost = true; return; } if (j.data.empty() || !j.inited) { probe(PB_UNRUN); refused(r, "there is nothing to cluster"); j.mp.insert(v); j.lost = true; return; }
    if (failed_code(r)) { if (okv == 1 && !r.fault && !j.lost) fail("py:exception", where(o) + ": " + (r.thrown ? r.ex + ": " + r.msg : string("a code other than zero was returned"))); j.mp.insert(v); j.lost = true; Py_XDECREF(r.res); return; } Py_DECREF(r.res); probe(PB_RERUN); j.mp = {v}; j.set = false; j.ran = true; judge_labels(w, j, o); if (j.data.size() == 1 && !j.setrc) judge_attrs(w, j, o, *j.data.begin(), v); if (j.data.size() == 1) j.lost = j.shaky = false; return; }
  if (op == "hier") { Outcome r = py(w, o, "getHierarchies", [&]() { return PyObject_CallMethod(j.o, "getHierarchies", nullptr); }); if (!j.inited || j.data.empty()) { if (!r.thrown) fail("py:no-exception", where(o) + ": there is no hierarchy and no exception was raised"); probe(PB_UNRUN); return; } if (r.thrown) { if (!r.fault && !j.lost) fail("py:exception", where(o) + ": " + r.ex + ": " + r.msg); return; } Py_DECREF(r.res); judge_hier(w, j, o); return; }
  if (op == "map") { long n = 0; for (auto d : j.data) n = std::max(n, d->rows); long b = o.i(2), e = o.s(3) == "n" ? n : o.i(3); PyObject *pb = number(o.s(2)), *pe = o.s(3) == "n" ? PyLong_FromLong(n) : number(o.s(3)); if (!pb || !pe) die("number"); bool nums = pb != Py_None && pe != Py_None && PyLong_Check(pb) && PyLong_Check(pe) && o.s(2) != "big" && o.s(3) != "big";
    Outcome r = py(w, o, "getClusterMap", [&]() { return PyObject_CallMethod(j.o, "getClusterMap", "OO", pb, pe); }); Py_DECREF(pb); Py_DECREF(pe); if (!j.inited || j.data.empty()) { if (!r.thrown) fail("py:no-exception", where(o) + ": there are no labels and no exception was raised"); probe(PB_UNRUN); return; }
    if (!nums) { if (!r.thrown && o.s(2) != "float" && o.s(3) != "float") fail("py:no-exception", where(o) + ": the range is not made of numbers and no exception was raised"); probe(PB_BADARG); Py_XDECREF(r.res); return; }
    bool fits = false; for (auto f : cands(w, j)) if (b >= 0 && e >= b && e <= (long)f->labels.size()) fits = true; if (!fits) { probe(PB_BADARG); if (!r.thrown) fail("py:no-exception", where(o) + ": the range is not inside the points and no exception was raised"); return; }
    if (r.thrown) { if (!r.fault && !j.lost) fail("py:exception", where(o) + ": " + r.ex + ": " + r.msg); return; } judge_map(w, j, o, r.res, b, e); if (o.i(4)) { hold(w, r.res, where(o)); probe(PB_HELD); } Py_DECREF(r.res); return; }
  if (op == "hold") { PyObject* a = attr(j, o.s(2).c_str()); if (a) { alive(a, where(o)); if (PyList_Check(a) || PyDict_Check(a) || PyArray_Check(a)) { if (o.i(3) && PyDict_Check(a) && PyDict_Size(a)) { Py_ssize_t p = 0; PyObject *k, *v; while (PyDict_Next(a, &p, &k, &v)) hold(w, v, where(o)); } else hold(w, a, where(o)); probe(PB_HELD); } Py_DECREF(a); } return; }
  if (op == "write") { // the caller owns what it was given, and may write to it
    PyObject* a = attr(j, o.s(2).c_str()); if (a && PyDict_Check(a)) { Py_ssize_t p = 0; PyObject *k, *v; while (PyDict_Next(a, &p, &k, &v)) if (PyArray_Check(v) && PyArray_ISWRITEABLE((PyArrayObject*)v)) { PyArrayObject* x = (PyArrayObject*)v; size_t nb = (size_t)PyArray_NBYTES(x); if (nb && in_heap(PyArray_DATA(x)) && !addressable(PyArray_DATA(x), nb)) fail("py:freed-array", where(o) + ": an array handed to Python has its elements in freed memory"); bool h = false; for (auto& y : w.held) h |= y.o == v || y.o == a; if (!h) memset(PyArray_DATA(x), 0x5a, nb); } } Py_XDECREF(a); return; }
  if (op == "set") { probe(PB_SETATTR); PyObject* n = o.s(3) == "list" ? PyList_New(0) : number(o.s(3)); PyObject_SetAttrString(j.o, o.s(2).c_str(), n); PyErr_Clear(); Py_XDECREF(n); if (o.s(2) == "rows" || o.s(2) == "cols") j.setrc = true; if (o.s(2) == "minPoints") { long v; if (mp_ok(o.s(3), &v)) j.mp.insert(v); j.lost = j.shaky = true; j.set = true; } return; }
  if (op == "unset") { probe(PB_SETATTR); PyObject_DelAttrString(j.o, o.s(2).c_str()); PyErr_Clear(); return; }
}
void round(W& w, const Case& c) {
  for (auto& o : c.ops) step(w, o); w.arm.clear(); for (auto& s : w.slots) SUTQ("dealloc", native_limit, Py_DECREF(s.second.o)); w.slots.clear(); verify_held(w, "after the last object"); for (auto& h : w.held) Py_DECREF(h.o); w.held.clear(); for (auto& b : w.bufs) Py_DECREF(b.second); w.bufs.clear(); collect(); (void)take_out(); }
}
string gen_py(const string& prop, Rng& r, const string& variant, long index) {
  Config c = random_config(r, true, true, false); c.races = false; c.memcheck = true; c.reuse = 0; if (c.fill_mode == 1) c.fill_mode = 0; string s = "case py prop=" + prop; bool nd_one = false, rounds = r.chance(1, 4), arms = rounds && r.chance(1, 2); bool many = rounds && r.chance(1, 24), med = !rounds && r.chance(1, 24); if (many) { nd_one = true; arms = false; } if (med || many) c.step_budget = 2000000000; if (rounds) s += arms ? " rounds=6" : " rounds=4"; s += "\n" + cfg_text(c); int nd = med || nd_one ? 1 : r.range(1, 3);
  for (int i = 0; i < nd; i++) { DataProfile p; p.maxn = rounds ? 14 : 26; p.rowwise_false = false; p.wide = !rounds; p.small = rounds && r.chance(1, 2); if (many) { p.small = false; p.minn = 262; p.maxn = 330; } if (med) { int z = (int)r.below(20); p.minn = z < 14 ? 37 : z < 18 ? 131 : 301; p.maxn = z < 14 ? 130 : z < 18 ? 300 : 600; } s += data_text(i, gen_data(r, p)); }
  if (many) { // levels and labels beyond the numbers the interpreter keeps for ever
    s += "op 0 new S0 2 pos\nop 0 run S0 0 c 0\nop 0 hier S0\n"; if (r.chance(1, 2)) s += "op 0 hold S0 hierarchy 0\n"; if (r.chance(1, 2)) s += "op 0 map S0 0 n 0\n"; if (r.chance(1, 3)) s += "op 0 rerun S0 3\nop 0 hier S0\n"; return s; }
  int nslots = r.range(1, 3), n = med ? r.range(2, 6) : r.range(3, rounds ? 9 : 14); auto sl = [&]() { return "S" + std::to_string(r.below((uint64_t)nslots)); }; auto mp = [&](unsigned bad) -> string { if (r.chance(1, bad)) { static const char* b[] = {"1", "0", "-1", "-7", "none", "str", "float", "big", "70000", "65538", "4294967298", "4294967299", "2147483650", "-4294967290", "40"}; return b[r.below(15)]; } return std::to_string(r.range(2, 7)); };
  static const char* good[] = {"kept", "kept", "c", "f", "stride", "neg", "ro", "swap", "unal", "sub", "flat", "flatstride"}; static const char* odd[] = {"list", "tuple", "3d", "3db", "0d", "norows", "nocols", "empty", "none", "str", "num", "dict", "complex", "obj", "bool", "u1", "i1", "f2", "ld", "ll", "u4", "u8", "text", "time", "noargs", "two", "u2", "u2"};
  auto mk = [&](const string& t) { static const char* how[] = {"pos", "pos", "pos", "kw", "sub", "raw", "noargs", "two"}; s += "op 0 new " + t + " " + mp(9) + " " + how[r.chance(1, 3) ? r.below(8) : 0] + "\n"; };
  for (int i = 0; i < nslots; i++) mk("S" + std::to_string(i)); static const char* at[] = {"labels", "clusterMap", "hierarchy"};
  for (int i = 0; i < n; i++) {
    if (r.chance(1, rounds ? 6 : 5) && (!rounds || arms)) s += string("op 0 ") + (r.chance(1, 2) ? "arm " : "armp ") + std::to_string(r.below(r.chance(1, 2) ? 12 : 400)) + "\n";
    else if (r.chance(1, rounds ? 5 : 9) && (!rounds || arms)) { s += string("op 0 ") + (r.chance(2, 3) ? "arm " : "armp ") + std::to_string(r.below(r.chance(2, 3) ? 14 : 60)) + "\n"; string t = sl(); switch (r.below(4)) { case 0: s += "op 0 hier " + t + "\n"; break; case 1: s += "op 0 map " + t + " 0 n 1\n"; break; case 2: s += "op 0 map " + t + " 0 3 0\n"; break; default: s += "op 0 run " + t + " " + std::to_string(r.below((uint64_t)nd)) + " c 0\n"; } } // the binding's own allocations
    switch (r.below(20)) { case 0: s += "op 0 del " + sl() + "\n"; break; case 1: mk(sl()); break; case 2: s += "op 0 init " + sl() + " " + mp(5) + "\n"; break; case 3: case 4: case 5: s += "op 0 rerun " + sl() + " " + mp(8) + "\n"; break;
      case 6: case 7: s += "op 0 hier " + sl() + "\n"; if (r.chance(1, 3)) s += "op 0 hold " + sl() + " hierarchy " + std::to_string(r.below(2)) + "\n"; break;
      case 8: case 9: { string b = std::to_string(r.chance(2, 3) ? 0 : r.range(0, 5)), e = r.chance(2, 3) ? "n" : std::to_string(r.range(0, 30)); if (r.chance(1, 10)) b = r.chance(1, 2) ? "-1" : r.chance(1, 2) ? "float" : "none"; if (r.chance(1, 10)) e = r.chance(1, 3) ? "big" : r.chance(1, 2) ? "-3" : "100000"; s += "op 0 map " + sl() + " " + b + " " + e + " " + std::to_string(r.below(2)) + "\n"; break; }
      case 10: case 11: s += "op 0 hold " + sl() + " " + at[r.below(3)] + " " + std::to_string(r.below(2)) + "\n"; break; case 12: s += "op 0 write " + sl() + " " + at[1 + r.below(2)] + "\n"; break;
      case 13: { static const char* an[] = {"labels", "clusterMap", "hierarchy", "rows", "cols", "minPoints"}; string a = an[r.below(6)]; if (r.chance(1, 3)) s += "op 0 unset " + sl() + " " + a + "\n"; else s += "op 0 set " + sl() + " " + a + " " + (a[0] == 'r' || (a[0] == 'c' && a[1] == 'o') || a[0] == 'm' ? (r.chance(1, 4) ? string("1000000") : std::to_string(r.range(-2, 60))) : string(r.chance(1, 2) ? "list" : "3")) + "\n"; break; }
      case 14: s += r.chance(1, 2) ? "op 0 gc\n" : "op 0 drop x " + std::to_string(r.below(8)) + "\n"; break;
      default: s += "op 0 run " + sl() + " " + std::to_string(r.below((uint64_t)nd)) + " " + (r.chance(1, 6) ? odd[r.below(28)] : good[r.below(12)]) + " " + std::to_string(r.below(1000)) + (r.chance(1, 3) ? " scribble" : "") + "\n"; } }
  return s;
}
void run_py(const Case& c) {
  for (auto& d : c.data) if (d.n() > 36) native_limit = 600000000;
  W w; w.c = &c; string sm; for (size_t i = 0; i < c.ops.size() && i < 20; i++) { for (auto& x : c.ops[i].a) sm += x + " "; sm += "; "; } snprintf(shared->sample, sizeof shared->sample, "%s: %.1800s", policy_names[c.cfg.policy], sm.c_str());
  int rounds = std::max(1, atoi(c.o("rounds", "1").c_str())); if (!PyInit_PyHdbscan) fail("py:unlinked", "the module has no initialisation function");
  begin(c.cfg);
  spawn([&]() {
    hooked = true; PyObject* hc = PyCapsule_New(&handler, "mem_handler", nullptr); PyObject* oldh = PyDataMem_SetHandler(hc); if (!oldh) die("data handler");
    SUTQ("PyInit_PyHdbscan", 0, w.mod = PyInit_PyHdbscan()); if (!w.mod || PyErr_Occurred()) fail("py:import", "the module cannot be imported"); w.cls = PyObject_GetAttrString(w.mod, "PyHdbscan"); if (!w.cls || !PyType_Check(w.cls)) fail("py:import", "the module has no class PyHdbscan");
    PyObject* b = PyTuple_Pack(1, w.cls); PyObject* d = PyDict_New(); w.sub = PyObject_CallFunction((PyObject*)&PyType_Type, "sOO", "Sub", b, d); Py_DECREF(b); Py_DECREF(d); if (!w.sub) { PyErr_Clear(); w.sub = w.cls; Py_INCREF(w.sub); }
    vector<size_t> live; for (int k = 0; k < rounds; k++) { round(w, c); PyType_ClearCache(); live.push_back(host_live()); if (live_count()) fail("py:native-leak", strf("%zu blocks of the native library are still allocated after every Python object is gone", live_count())); }
    if (rounds >= 4) { probe(PB_ROUNDS); checked(); bool grows = true; for (size_t i = 2; i < live.size(); i++) grows &= live[i] > live[i - 1]; if (grows) fail("py:leak", strf("repeating the history leaves more and more Python memory behind: %s blocks", [&]{ string q; for (auto x : live) q += std::to_string(x) + " "; return q; }().c_str())); }
  });
  run_all();
}
