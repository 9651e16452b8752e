// The Java binding (C23) under a simulated Java virtual machine: every JNI call goes to a fake function table with handle
// checking, pending-exception rules, element copies in the checked heap, virtual-machine failures, and Java threads as fibers.
#include "common.hpp"
#include <jni.h>
#include <fstream>
#include <regex>
#include <deque>
#include <unistd.h>
#include <poll.h>
#include <signal.h>
#include <spawn.h>
#include <fcntl.h>
#include <sys/wait.h>
#include <sys/prctl.h>
using namespace sim;
extern "C" {
__attribute__((weak)) void Java_bw_co_roguesystems_Hdbscan_initHdbscan(JNIEnv*, jobject, jint);
__attribute__((weak)) jintArray Java_bw_co_roguesystems_Hdbscan_runImpl(JNIEnv*, jobject, jobjectArray);
__attribute__((weak)) jintArray Java_bw_co_roguesystems_Hdbscan_reRunImpl(JNIEnv*, jobject, jint);
__attribute__((weak)) void Java_bw_co_roguesystems_Hdbscan_cleanHdbscan(JNIEnv*, jobject);
__attribute__((weak)) jint JNI_OnLoad(JavaVM*, void*);
__attribute__((weak)) void JNI_OnUnload(JavaVM*, void*);
}
namespace {
enum Probe { PB_JVMFAIL, PB_OOM, PB_REFUSED, PB_MANY, PB_AFTERCLEAN, PB_THREADS, PB_RERUN, PB_RECOVER, PB_UNRUN };
enum Kind { INSTANCE, CLASS, INTS, DOUBLES, OBJECTS, THROWN, STRING };
struct Obj { Kind kind; string cls; vector<double> d; vector<jint> n; vector<Obj*> e; std::map<string, int64_t> f; std::map<string, Obj*> rf; int monitor = 0, owner = -1; };
struct Elems { Obj* a; int crit; };
struct Env { JNIEnv_ env; int fiber = -1; std::map<uintptr_t, Obj*> locals; vector<vector<uintptr_t>> frames; Obj* pending = nullptr; string msg; std::map<uintptr_t, Elems> elems; int critical = 0; long calls = 0; int64_t fail1 = -1, failp = -1; bool fired = false; };
struct Field { string name, sig; bool stat; };
struct Machine { std::deque<Obj> heap; std::map<uintptr_t, Obj*> globals; std::map<string, Obj*> classes; vector<Field> decl; std::map<string, string> natives; uintptr_t next = 0x600000000000ull; std::map<string, int64_t> statics; } *vm;
JNINativeInterface_ table; JNIInvokeInterface_ itable; JavaVM_ jvm;
const char* HD = "bw/co/roguesystems/Hdbscan";
Env* cur_env[64]; vector<Env*> envs;

Obj* mk(Kind k, const string& cls = "") { vm->heap.emplace_back(); Obj* o = &vm->heap.back(); o->kind = k; o->cls = cls; return o; }
uintptr_t newref(std::map<uintptr_t, Obj*>& t, Obj* o) { uintptr_t r = vm->next; vm->next += 16; t[r] = o; return r; }
template <class T> T local(Env* e, Obj* o) { if (!o) return nullptr; uintptr_t r = newref(e->locals, o); if (!e->frames.empty()) e->frames.back().push_back(r); return (T)r; }
[[noreturn]] void bad(const char* fn, const string& w) { violation(string("jni:misuse"), strf("%s in op %s: %s", fn, current_op(), w.c_str())); }
Env* E(JNIEnv* env, const char* fn, bool ok_pending = false, bool ok_critical = false) {
  Env* e = (Env*)env; bool known = false; for (Env* x : envs) if (x == e) known = true; if (!known) bad(fn, "not a JNI environment"); if (e->fiber != self()) bad(fn, strf("the environment of thread %d was used by worker %d", e->fiber, self()));
  if (e->pending && !ok_pending) bad(fn, "called while the exception " + e->pending->cls + " is pending"); if (e->critical && !ok_critical) bad(fn, "called between GetPrimitiveArrayCritical and its release"); e->calls++; return e; }
Obj* get(Env* e, const void* ref, const char* fn, bool null_ok = false) { if (!ref) { if (null_ok) return nullptr; bad(fn, "a null reference"); } auto it = e->locals.find((uintptr_t)ref); if (it != e->locals.end()) return it->second; auto g = vm->globals.find((uintptr_t)ref); if (g != vm->globals.end()) return g->second; bad(fn, strf("0x%lx is not a valid reference here", (unsigned long)(uintptr_t)ref)); }
Obj* cls_of(const string& n) { auto& c = vm->classes[n]; if (!c) c = mk(CLASS, n); return c; }
void raise(Env* e, const string& cls, const string& msg) { e->pending = mk(THROWN, cls); e->msg = msg; }
bool refuse(Env* e, const char* what) { long k = e->fail1 >= 0 ? e->fail1-- : -1; bool f = k == 0; if (e->failp >= 0) { if (e->failp == 0) f = true; else e->failp--; } if (f) { e->fired = true; probe(PB_JVMFAIL); shared->faults[F_ALLOC_FAIL]++; raise(e, "java/lang/OutOfMemoryError", what); } return f; }
template <class T> T kind(Env* e, const void* ref, Kind k, const char* fn) { Obj* o = get(e, ref, fn); if (o->kind != k) bad(fn, "a reference to something else"); return (T)o; }
Obj* K(Env* e, const void* ref, Kind k, const char* fn) { return kind<Obj*>(e, ref, k, fn); }
void from_sut(void* d, const void* s, size_t n) { sut_copy(d, s, n); }

// ---- the function table
jint JNICALL f_GetVersion(JNIEnv* v) { E(v, "GetVersion"); return JNI_VERSION_10; }
jclass JNICALL f_FindClass(JNIEnv* v, const char* n) { Env* e = E(v, "FindClass"); if (!n || !addressable(n, 1)) bad("FindClass", "a bad name"); if (refuse(e, n)) return nullptr; static const std::regex ok("(java/(lang|util|io)/\\w+)|(bw/co/roguesystems/Hdbscan)|(\\[[DIJFSBZC])|(\\[\\[[DIJFSBZC])"); if (!std::regex_match(n, ok)) { raise(e, "java/lang/NoClassDefFoundError", n); return nullptr; } return local<jclass>(e, cls_of(n)); }
jclass JNICALL f_GetObjectClass(JNIEnv* v, jobject o) { Env* e = E(v, "GetObjectClass"); Obj* x = get(e, o, "GetObjectClass"); return local<jclass>(e, cls_of(x->cls)); }
jclass JNICALL f_GetSuperclass(JNIEnv* v, jclass c) { Env* e = E(v, "GetSuperclass"); K(e, c, CLASS, "GetSuperclass"); return local<jclass>(e, cls_of("java/lang/Object")); }
jboolean JNICALL f_IsInstanceOf(JNIEnv* v, jobject o, jclass c) { Env* e = E(v, "IsInstanceOf"); Obj* k = K(e, c, CLASS, "IsInstanceOf"); Obj* x = get(e, o, "IsInstanceOf", true); return !x || x->cls == k->cls || k->cls == "java/lang/Object"; }
jfieldID field_id(Env* e, jclass c, const char* n, const char* s, bool st, const char* fn) { Obj* k = K(e, c, CLASS, fn); if (!n || !s) bad(fn, "a null name"); if (refuse(e, fn)) return nullptr; if (k->cls == HD) for (auto& f : vm->decl) if (f.name == n && f.sig == s && f.stat == st) return (jfieldID)&f; raise(e, "java/lang/NoSuchFieldError", n); return nullptr; }
jfieldID JNICALL f_GetFieldID(JNIEnv* v, jclass c, const char* n, const char* s) { Env* e = E(v, "GetFieldID"); return field_id(e, c, n, s, false, "GetFieldID"); }
jfieldID JNICALL f_GetStaticFieldID(JNIEnv* v, jclass c, const char* n, const char* s) { Env* e = E(v, "GetStaticFieldID"); return field_id(e, c, n, s, true, "GetStaticFieldID"); }
Field* fld(jfieldID id, const string& sig, bool st, const char* fn) { for (auto& f : vm->decl) if ((jfieldID)&f == id) { if (f.stat != st || (sig == "L" ? f.sig[0] != 'L' && f.sig[0] != '[' : f.sig != sig)) bad(fn, "the field " + f.name + " is of another type"); return &f; } bad(fn, "not a field id"); }
#define PRIM(N, T, S) \
  T JNICALL f_Get##N##Field(JNIEnv* v, jobject o, jfieldID id) { Env* e = E(v, "Get" #N "Field"); Obj* x = K(e, o, INSTANCE, "Get" #N "Field"); return (T)x->f[fld(id, S, false, "Get" #N "Field")->name]; } \
  void JNICALL f_Set##N##Field(JNIEnv* v, jobject o, jfieldID id, T y) { Env* e = E(v, "Set" #N "Field"); Obj* x = K(e, o, INSTANCE, "Set" #N "Field"); x->f[fld(id, S, false, "Set" #N "Field")->name] = (int64_t)y; } \
  T JNICALL f_GetStatic##N##Field(JNIEnv* v, jclass o, jfieldID id) { Env* e = E(v, "GetStatic" #N "Field"); K(e, o, CLASS, "GetStatic" #N "Field"); return (T)vm->statics[fld(id, S, true, "GetStatic" #N "Field")->name]; } \
  void JNICALL f_SetStatic##N##Field(JNIEnv* v, jclass o, jfieldID id, T y) { Env* e = E(v, "SetStatic" #N "Field"); K(e, o, CLASS, "SetStatic" #N "Field"); vm->statics[fld(id, S, true, "SetStatic" #N "Field")->name] = (int64_t)y; }
PRIM(Int, jint, "I") PRIM(Long, jlong, "J") PRIM(Boolean, jboolean, "Z")
jobject JNICALL f_GetObjectField(JNIEnv* v, jobject o, jfieldID id) { Env* e = E(v, "GetObjectField"); Obj* x = K(e, o, INSTANCE, "GetObjectField"); return local<jobject>(e, x->rf[fld(id, "L", false, "GetObjectField")->name]); }
void JNICALL f_SetObjectField(JNIEnv* v, jobject o, jfieldID id, jobject y) { Env* e = E(v, "SetObjectField"); Obj* x = K(e, o, INSTANCE, "SetObjectField"); x->rf[fld(id, "L", false, "SetObjectField")->name] = get(e, y, "SetObjectField", true); }
jint JNICALL f_Throw(JNIEnv* v, jthrowable t) { Env* e = E(v, "Throw"); e->pending = K(e, t, THROWN, "Throw"); return 0; }
jint JNICALL f_ThrowNew(JNIEnv* v, jclass c, const char* m) { Env* e = E(v, "ThrowNew"); Obj* k = K(e, c, CLASS, "ThrowNew"); raise(e, k->cls, m ? m : ""); return 0; }
jthrowable JNICALL f_ExceptionOccurred(JNIEnv* v) { Env* e = E(v, "ExceptionOccurred", true); return e->pending ? local<jthrowable>(e, e->pending) : nullptr; }
void JNICALL f_ExceptionDescribe(JNIEnv* v) { Env* e = E(v, "ExceptionDescribe", true); e->pending = nullptr; }
void JNICALL f_ExceptionClear(JNIEnv* v) { Env* e = E(v, "ExceptionClear", true); e->pending = nullptr; }
jboolean JNICALL f_ExceptionCheck(JNIEnv* v) { Env* e = E(v, "ExceptionCheck", true); return e->pending != nullptr; }
void JNICALL f_FatalError(JNIEnv* v, const char* m) { violation("jni:fatal-error", m ? m : ""); }
jint JNICALL f_EnsureLocalCapacity(JNIEnv* v, jint n) { Env* e = E(v, "EnsureLocalCapacity"); return n < 0 ? -1 : refuse(e, "local references") ? -1 : 0; }
jint JNICALL f_PushLocalFrame(JNIEnv* v, jint) { Env* e = E(v, "PushLocalFrame"); if (refuse(e, "local frame")) return -1; e->frames.emplace_back(); return 0; }
jobject JNICALL f_PopLocalFrame(JNIEnv* v, jobject r) { Env* e = E(v, "PopLocalFrame", true); if (e->frames.empty()) bad("PopLocalFrame", "there is no frame"); Obj* x = get(e, r, "PopLocalFrame", true); for (auto k : e->frames.back()) e->locals.erase(k); e->frames.pop_back(); return local<jobject>(e, x); }
jobject JNICALL f_NewGlobalRef(JNIEnv* v, jobject o) { Env* e = E(v, "NewGlobalRef"); Obj* x = get(e, o, "NewGlobalRef", true); if (!x || refuse(e, "global reference")) { e->pending = nullptr; return nullptr; } return (jobject)newref(vm->globals, x); }
void JNICALL f_DeleteGlobalRef(JNIEnv* v, jobject o) { E(v, "DeleteGlobalRef", true); if (o && !vm->globals.erase((uintptr_t)o)) bad("DeleteGlobalRef", "not a global reference"); }
void JNICALL f_DeleteLocalRef(JNIEnv* v, jobject o) { Env* e = E(v, "DeleteLocalRef", true); if (o && !e->locals.erase((uintptr_t)o)) bad("DeleteLocalRef", "not a local reference"); }
jboolean JNICALL f_IsSameObject(JNIEnv* v, jobject a, jobject b) { Env* e = E(v, "IsSameObject"); return get(e, a, "IsSameObject", true) == get(e, b, "IsSameObject", true); }
jobject JNICALL f_NewLocalRef(JNIEnv* v, jobject o) { Env* e = E(v, "NewLocalRef"); return local<jobject>(e, get(e, o, "NewLocalRef", true)); }
jobjectRefType JNICALL f_GetObjectRefType(JNIEnv* v, jobject o) { Env* e = E(v, "GetObjectRefType"); return e->locals.count((uintptr_t)o) ? JNILocalRefType : vm->globals.count((uintptr_t)o) ? JNIGlobalRefType : JNIInvalidRefType; }
jsize JNICALL f_GetArrayLength(JNIEnv* v, jarray a) { Env* e = E(v, "GetArrayLength"); Obj* x = get(e, a, "GetArrayLength"); switch (x->kind) { case INTS: return (jsize)x->n.size(); case DOUBLES: return (jsize)x->d.size(); case OBJECTS: return (jsize)x->e.size(); default: bad("GetArrayLength", "not an array"); } }
jobject JNICALL f_GetObjectArrayElement(JNIEnv* v, jobjectArray a, jsize i) { Env* e = E(v, "GetObjectArrayElement"); Obj* x = K(e, a, OBJECTS, "GetObjectArrayElement"); if (i < 0 || i >= (jsize)x->e.size()) { raise(e, "java/lang/ArrayIndexOutOfBoundsException", std::to_string(i)); return nullptr; } return local<jobject>(e, x->e[(size_t)i]); }
jintArray JNICALL f_NewIntArray(JNIEnv* v, jsize n) { Env* e = E(v, "NewIntArray"); if (n < 0) { raise(e, "java/lang/NegativeArraySizeException", std::to_string(n)); return nullptr; } if (n > (1 << 24)) { raise(e, "java/lang/OutOfMemoryError", "int array"); return nullptr; } if (refuse(e, "int array")) return nullptr; Obj* o = mk(INTS, "[I"); o->n.assign((size_t)n, 0); return local<jintArray>(e, o); }
template <class T, class V> T* pin(Env* e, Obj* o, V& src, jboolean* copy, int crit, const char* fn) { if (refuse(e, fn)) return nullptr; T* p = (T*)user_alloc(src.size() * sizeof(T)); if (!src.empty()) memcpy(p, src.data(), src.size() * sizeof(T)); e->elems[(uintptr_t)p] = {o, crit}; e->critical += crit; if (copy) { if (!addressable(copy, 1)) bad(fn, "a bad isCopy"); *copy = JNI_TRUE; } return p; }
template <class T, class V> void unpin(Env* e, Obj* o, V& dst, void* p, jint mode, int crit, const char* fn) { auto it = e->elems.find((uintptr_t)p); if (it == e->elems.end()) bad(fn, strf("0x%lx was not obtained, or was released before", (unsigned long)(uintptr_t)p)); if (it->second.a != o) bad(fn, "the elements belong to another array"); if (it->second.crit != crit) bad(fn, "obtained another way"); if (mode != 0 && mode != JNI_ABORT && mode != JNI_COMMIT) bad(fn, "a bad mode"); if (mode != JNI_ABORT && !dst.empty()) memcpy(dst.data(), p, dst.size() * sizeof(T)); if (mode != JNI_COMMIT) { e->elems.erase(it); e->critical -= crit; user_free(p); } }
jdouble* JNICALL f_GetDoubleArrayElements(JNIEnv* v, jdoubleArray a, jboolean* c) { Env* e = E(v, "GetDoubleArrayElements"); Obj* x = K(e, a, DOUBLES, "GetDoubleArrayElements"); return pin<jdouble>(e, x, x->d, c, 0, "GetDoubleArrayElements"); }
void JNICALL f_ReleaseDoubleArrayElements(JNIEnv* v, jdoubleArray a, jdouble* p, jint m) { Env* e = E(v, "ReleaseDoubleArrayElements", true); Obj* x = K(e, a, DOUBLES, "ReleaseDoubleArrayElements"); unpin<jdouble>(e, x, x->d, p, m, 0, "ReleaseDoubleArrayElements"); }
jint* JNICALL f_GetIntArrayElements(JNIEnv* v, jintArray a, jboolean* c) { Env* e = E(v, "GetIntArrayElements"); Obj* x = K(e, a, INTS, "GetIntArrayElements"); return pin<jint>(e, x, x->n, c, 0, "GetIntArrayElements"); }
void JNICALL f_ReleaseIntArrayElements(JNIEnv* v, jintArray a, jint* p, jint m) { Env* e = E(v, "ReleaseIntArrayElements", true); Obj* x = K(e, a, INTS, "ReleaseIntArrayElements"); unpin<jint>(e, x, x->n, p, m, 0, "ReleaseIntArrayElements"); }
void* JNICALL f_GetPrimitiveArrayCritical(JNIEnv* v, jarray a, jboolean* c) { Env* e = E(v, "GetPrimitiveArrayCritical", false, true); Obj* x = get(e, a, "GetPrimitiveArrayCritical"); if (x->kind == DOUBLES) return pin<jdouble>(e, x, x->d, c, 1, "GetPrimitiveArrayCritical"); if (x->kind == INTS) return pin<jint>(e, x, x->n, c, 1, "GetPrimitiveArrayCritical"); bad("GetPrimitiveArrayCritical", "not a primitive array"); }
void JNICALL f_ReleasePrimitiveArrayCritical(JNIEnv* v, jarray a, void* p, jint m) { Env* e = E(v, "ReleasePrimitiveArrayCritical", true, true); Obj* x = get(e, a, "ReleasePrimitiveArrayCritical"); if (x->kind == DOUBLES) unpin<jdouble>(e, x, x->d, p, m, 1, "ReleasePrimitiveArrayCritical"); else if (x->kind == INTS) unpin<jint>(e, x, x->n, p, m, 1, "ReleasePrimitiveArrayCritical"); else bad("ReleasePrimitiveArrayCritical", "not a primitive array"); }
template <class T, class V> void region(Env* e, V& a, jsize b, jsize n, void* buf, bool set) { if (b < 0 || n < 0 || (int64_t)b + n > (int64_t)a.size()) { raise(e, "java/lang/ArrayIndexOutOfBoundsException", "region"); return; } if (!n) return; if (set) from_sut(a.data() + b, buf, (size_t)n * sizeof(T)); else from_sut(buf, a.data() + b, (size_t)n * sizeof(T)); }
void JNICALL f_GetDoubleArrayRegion(JNIEnv* v, jdoubleArray a, jsize b, jsize n, jdouble* p) { Env* e = E(v, "GetDoubleArrayRegion"); region<jdouble>(e, K(e, a, DOUBLES, "GetDoubleArrayRegion")->d, b, n, p, false); }
void JNICALL f_SetDoubleArrayRegion(JNIEnv* v, jdoubleArray a, jsize b, jsize n, const jdouble* p) { Env* e = E(v, "SetDoubleArrayRegion"); region<jdouble>(e, K(e, a, DOUBLES, "SetDoubleArrayRegion")->d, b, n, (void*)p, true); }
void JNICALL f_GetIntArrayRegion(JNIEnv* v, jintArray a, jsize b, jsize n, jint* p) { Env* e = E(v, "GetIntArrayRegion"); region<jint>(e, K(e, a, INTS, "GetIntArrayRegion")->n, b, n, p, false); }
void JNICALL f_SetIntArrayRegion(JNIEnv* v, jintArray a, jsize b, jsize n, const jint* p) { Env* e = E(v, "SetIntArrayRegion"); region<jint>(e, K(e, a, INTS, "SetIntArrayRegion")->n, b, n, (void*)p, true); }
jint JNICALL f_MonitorEnter(JNIEnv* v, jobject o) { Env* e = E(v, "MonitorEnter"); Obj* x = get(e, o, "MonitorEnter"); int me = self(); wait_until([x, me]() { return x->monitor == 0 || x->owner == me; }); x->monitor++; x->owner = me; sync_acquire((uintptr_t)x); return 0; }
jint JNICALL f_MonitorExit(JNIEnv* v, jobject o) { Env* e = E(v, "MonitorExit", true); Obj* x = get(e, o, "MonitorExit"); if (!x->monitor || x->owner != self()) bad("MonitorExit", "the monitor is not held"); sync_release((uintptr_t)x); x->monitor--; return 0; }
jint JNICALL f_GetJavaVM(JNIEnv* v, JavaVM** p) { E(v, "GetJavaVM"); *p = &jvm; return 0; }
jint JNICALL v_GetEnv(JavaVM*, void** p, jint) { for (Env* e : envs) if (e->fiber == self()) { *p = e; return JNI_OK; } *p = nullptr; return JNI_EDETACHED; }
jint JNICALL v_Attach(JavaVM* j, void** p, void*) { if (v_GetEnv(j, p, JNI_VERSION_1_6) == JNI_OK) return 0; Env* e = new Env; e->env.functions = &table; e->fiber = self(); envs.push_back(e); *p = e; return 0; }
jint JNICALL v_Detach(JavaVM*) { return 0; }
jstring JNICALL f_NewStringUTF(JNIEnv* v, const char* s) { Env* e = E(v, "NewStringUTF"); if (!s || refuse(e, "string")) return nullptr; Obj* o = mk(STRING, "java/lang/String"); return local<jstring>(e, o); }
struct Method { string cls, name, sig; }; std::deque<Method> methods;
jmethodID JNICALL f_GetMethodID(JNIEnv* v, jclass c, const char* n, const char* s) { Env* e = E(v, "GetMethodID"); Obj* k = K(e, c, CLASS, "GetMethodID"); if (!n || !s) bad("GetMethodID", "a null name"); if (refuse(e, "method")) return nullptr; static const std::regex thr("java/(lang|util|io)/\\w+(Exception|Error)"); if (string(n) != "<init>" || !std::regex_match(k->cls, thr) || (string(s) != "()V" && string(s) != "(Ljava/lang/String;)V")) { raise(e, "java/lang/NoSuchMethodError", n); return nullptr; } methods.push_back({k->cls, n, s}); return (jmethodID)&methods.back(); }
jobject new_object(Env* e, jclass c, jmethodID m) { Obj* k = K(e, c, CLASS, "NewObject"); for (auto& x : methods) if ((jmethodID)&x == m && x.cls == k->cls) return refuse(e, "object") ? nullptr : local<jobject>(e, mk(THROWN, k->cls)); bad("NewObject", "not a constructor of " + k->cls); }
jobject JNICALL f_NewObject(JNIEnv* v, jclass c, jmethodID m, ...) { return new_object(E(v, "NewObject"), c, m); }
jobject JNICALL f_NewObjectV(JNIEnv* v, jclass c, jmethodID m, va_list) { return new_object(E(v, "NewObject"), c, m); }
jobject JNICALL f_NewObjectA(JNIEnv* v, jclass c, jmethodID m, const jvalue*) { return new_object(E(v, "NewObject"), c, m); }
void unexpected() { violation("jni:unknown-function", strf("op %s calls a function the simulated virtual machine does not have", current_op())); }
void setup_vm() {
  static bool done; if (done) return; done = true; void** t = (void**)&table; for (size_t i = 0; i < sizeof table / sizeof(void*); i++) t[i] = (void*)unexpected; void** u = (void**)&itable; for (size_t i = 0; i < sizeof itable / sizeof(void*); i++) u[i] = (void*)unexpected;
#define F(n) table.n = f_##n;
  F(GetVersion) F(FindClass) F(GetObjectClass) F(GetSuperclass) F(IsInstanceOf) F(GetFieldID) F(GetStaticFieldID) F(GetIntField) F(SetIntField) F(GetLongField) F(SetLongField) F(GetBooleanField) F(SetBooleanField) F(GetStaticIntField) F(SetStaticIntField) F(GetStaticLongField) F(SetStaticLongField) F(GetStaticBooleanField) F(SetStaticBooleanField) F(GetObjectField) F(SetObjectField)
  F(NewStringUTF) F(GetMethodID) F(NewObject) F(NewObjectV) F(NewObjectA) F(Throw) F(ThrowNew) F(ExceptionOccurred) F(ExceptionDescribe) F(ExceptionClear) F(ExceptionCheck) F(FatalError) F(EnsureLocalCapacity) F(PushLocalFrame) F(PopLocalFrame) F(NewGlobalRef) F(DeleteGlobalRef) F(DeleteLocalRef) F(IsSameObject) F(NewLocalRef) F(GetObjectRefType) F(GetArrayLength) F(GetObjectArrayElement) F(NewIntArray)
  F(GetDoubleArrayElements) F(ReleaseDoubleArrayElements) F(GetIntArrayElements) F(ReleaseIntArrayElements) F(GetPrimitiveArrayCritical) F(ReleasePrimitiveArrayCritical) F(GetDoubleArrayRegion) F(SetDoubleArrayRegion) F(GetIntArrayRegion) F(SetIntArrayRegion) F(MonitorEnter) F(MonitorExit) F(GetJavaVM)
#undef F
  itable.GetEnv = v_GetEnv; itable.AttachCurrentThread = v_Attach; itable.AttachCurrentThreadAsDaemon = v_Attach; itable.DetachCurrentThread = v_Detach; jvm.functions = &itable; vm = new Machine;
  std::ifstream in(JAVA_SRC); std::stringstream ss; ss << in.rdbuf(); string s = ss.str(); s = std::regex_replace(s, std::regex("/\\*([^*]|\\*+[^*/])*\\*+/|//[^\n]*"), " ");
  std::regex fr("(?:^|[;{}])\\s*((?:(?:private|public|protected|static|final|volatile|transient)\\s+)*)([A-Za-z_][\\w.<>, ]*?(?:\\[\\])*)\\s+(\\w+)\\s*(?=;|=)"); std::map<string, string> prim = {{"int", "I"}, {"long", "J"}, {"boolean", "Z"}, {"double", "D"}, {"int[]", "[I"}, {"double[]", "[D"}, {"String", "Ljava/lang/String;"}, {"Object", "Ljava/lang/Object;"}};
  for (std::sregex_iterator i(s.begin(), s.end(), fr), z; i != z; ++i) { string m = (*i)[1], ty = (*i)[2]; if (!prim.count(ty)) continue; vm->decl.push_back({(*i)[3], prim[ty], m.find("static") != string::npos}); }
  std::regex nr("\\bnative\\s+([\\w\\[\\]]+)\\s+(\\w+)\\s*\\(([^)]*)\\)"); for (std::sregex_iterator i(s.begin(), s.end(), nr), z; i != z; ++i) vm->natives[(*i)[2]] = (*i)[1];
}

// ---- Java programs
struct JO { vector<jint> lab; bool has_lab = false; Obj* o = nullptr; bool cleaned = false, failed_new = false; std::set<long> minpts; std::set<int> data; bool lost = false; };
struct Seen { string where; std::set<int> data; std::set<long> minpts; vector<jint> labels; };
struct World { const Case* c; std::map<string, JO> slots; vector<Seen> seen; };
struct Th { World* w; int thread; vector<Op> ops; Env* env = nullptr; string arm; uint64_t arm_at = 0; int64_t f1 = -1, fp = -1; bool single = true; };
string where(const Th& t, const Op& o) { string s = strf("Java thread %d:", t.thread); for (auto& x : o.a) s += " " + x; return s; }
struct Outcome { bool thrown = false; string ex; Obj* res = nullptr; bool fault = false; };
uint64_t native_limit = 60000000;
template <class Fn> Outcome native(Th& t, const Op& o, const char* name, bool linked, Obj* self_, Obj* arg, Fn fn) {
  Outcome r; if (!vm->natives.count(name)) fail("jni:unlinked", where(t, o) + ": the class does not declare the native method " + name); if (!linked) fail("jni:unlinked", where(t, o) + ": the library has no implementation of " + name);
  Env* e = t.env; e->fiber = self(); e->pending = nullptr; e->fired = false; e->locals.clear(); e->frames.clear(); e->fail1 = t.f1; e->failp = t.fp; t.f1 = t.fp = -1; jobject me = local<jobject>(e, self_), ar = local<jobject>(e, arg); void* ret = nullptr; uint64_t f0 = 0;
  vector<vector<double>> keep; if (arg) for (Obj* x : arg->e) keep.push_back(x ? x->d : vector<double>()); bool armed = !t.arm.empty() && t.single; if (armed) { if (t.arm == "arm") arm_alloc_failures({t.arm_at}, -1); else arm_alloc_failures({}, (int64_t)t.arm_at); } t.arm.clear(); (void)f0;
  SUTQ(name, t.single ? native_limit : 0, ret = fn((JNIEnv*)e, me, ar));
  if (armed) { r.fault = alloc_failures_fired() > 0; if (r.fault) probe(PB_OOM); disarm_alloc_failures(); } if (e->fired) r.fault = true;
  checked(); shared->nontrivial = 1; if (!e->elems.empty()) fail("jni:elements-not-released", where(t, o) + strf(": the elements of %zu arrays were not released", e->elems.size())); if (!e->frames.empty()) fail("jni:misuse", where(t, o) + ": a local frame was not popped"); for (auto& x : vm->heap) if (x.monitor && x.owner == self()) fail("jni:misuse", where(t, o) + ": a monitor is still held");
  if (arg) for (size_t i = 0; i < arg->e.size(); i++) if (arg->e[i] && memcmp(arg->e[i]->d.data(), keep[i].data(), keep[i].size() * 8)) fail("jni:dataset-changed", where(t, o) + strf(": row %zu of the Java dataset was changed", i));
  if (e->pending) { r.thrown = true; r.ex = e->pending->cls; e->pending = nullptr; } else if (ret) r.res = get(e, ret, "return"); e->locals.clear(); return r; }
Obj* dataset(const Data& d, const string& how, Rng& r) { Obj* a = mk(OBJECTS, "[[D"); for (auto& p : d.pts) { Obj* x = mk(DOUBLES, "[D"); x->d = p; a->e.push_back(x); } if (how == "null") a->e[r.below(a->e.size())] = nullptr; else if (how == "empty") a->e.clear(); else if (how == "nocols") for (Obj* x : a->e) x->d.clear(); else if (how == "short") { Obj* x = a->e[r.below(a->e.size())]; if (x->d.size() > 1 && a->e.size() > 1) x->d.pop_back(); else a->e.clear(); } else if (how == "longrow") { Obj* x = a->e[r.below(a->e.size())]; if (a->e.size() > 1) x->d.push_back(1.5); else a->e.clear(); } else if (how == "first0") { a->e[0]->d.clear(); } return a; }
void labels(Th& t, const Op& o, JO& j, const Outcome& r, const std::set<long>& mp) {
  if (r.res->kind != INTS) fail("jni:wrong-labels", where(t, o) + ": the result is not an int array"); 
  Seen s; s.where = where(t, o); s.data = j.data; s.minpts = mp; s.labels = r.res->n; t.w->seen.push_back(s); }
Outcome n_init(Th& t, const Op& o, Obj* s, long mp) { return native(t, o, "initHdbscan", Java_bw_co_roguesystems_Hdbscan_initHdbscan, s, nullptr, [&](JNIEnv* e, jobject me, jobject) { Java_bw_co_roguesystems_Hdbscan_initHdbscan(e, me, (jint)mp); return (void*)nullptr; }); }
Outcome n_run(Th& t, const Op& o, Obj* s, Obj* a) { return native(t, o, "runImpl", Java_bw_co_roguesystems_Hdbscan_runImpl, s, a, [&](JNIEnv* e, jobject me, jobject ar) { return (void*)Java_bw_co_roguesystems_Hdbscan_runImpl(e, me, (jobjectArray)ar); }); }
Outcome n_rerun(Th& t, const Op& o, Obj* s, long mp) { return native(t, o, "reRunImpl", Java_bw_co_roguesystems_Hdbscan_reRunImpl, s, nullptr, [&](JNIEnv* e, jobject me, jobject) { return (void*)Java_bw_co_roguesystems_Hdbscan_reRunImpl(e, me, (jint)mp); }); }
Outcome n_clean(Th& t, const Op& o, Obj* s) { return native(t, o, "cleanHdbscan", Java_bw_co_roguesystems_Hdbscan_cleanHdbscan, s, nullptr, [&](JNIEnv* e, jobject me, jobject) { Java_bw_co_roguesystems_Hdbscan_cleanHdbscan(e, me); return (void*)nullptr; }); }

// ---- the real Java class in a Java virtual machine of its own: it is sent one command at a time, its native methods come
// back as requests that the library answers here, so the library stays under the simulator and nothing runs by itself
struct Jvm { pid_t pid = 0; int in = -1, out = -1; string buf; } jv;
bool on_jvm;
std::map<long, Obj*> jobjs;
string jvm_classes() { char b[4096]; ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1); if (n < 0) return ""; b[n] = 0; string s = b; return s.substr(0, s.rfind('/')) + "/classes"; }
bool jvm_there() { static int k = -1; if (k < 0) k = access((jvm_classes() + "/verif/Host.class").c_str(), R_OK) == 0; return k; }
void jvm_send(const string& s) { string l = s + "\n"; const char* p = l.data(); size_t n = l.size(); while (n) { ssize_t k = write(jv.in, p, n); if (k <= 0) { if (k < 0 && errno == EINTR) continue; fail("jni:machine-ended", "the Java virtual machine has ended"); } p += k; n -= (size_t)k; } }
string jvm_read() { for (;;) { size_t e = jv.buf.find('\n'); if (e != string::npos) { string l = jv.buf.substr(0, e); jv.buf.erase(0, e + 1); return l; } pollfd f{jv.out, POLLIN, 0}; if (poll(&f, 1, 30000) == 0) fail("jni:no-termination", "the Java class does not return"); char b[65536]; ssize_t k = read(jv.out, b, sizeof b); if (k <= 0) { if (k < 0 && errno == EINTR) continue; fail("jni:machine-ended", "the Java virtual machine has ended"); } jv.buf.append(b, (size_t)k); } }
string put(Obj* o) { if (!o) return " n"; string s; switch (o->kind) { case INTS: s = " a " + std::to_string(o->n.size()); for (jint x : o->n) s += " " + std::to_string(x); return s; case DOUBLES: s = " b " + std::to_string(o->d.size()); for (double x : o->d) { int64_t b; memcpy(&b, &x, 8); s += " " + std::to_string(b); } return s; case OBJECTS: s = " d " + std::to_string(o->e.size()); for (Obj* x : o->e) s += put(x); return s; default: return " n"; } }
struct Val { char k = 'n'; int64_t v = 0; Obj* o = nullptr; };
Val take(std::istream& in) { Val r; string k; in >> k; r.k = k.empty() ? 'n' : k[0]; size_t n = 0; switch (r.k) { case 'i': case 'j': case 'z': in >> r.v; break; case 'a': r.o = mk(INTS, "[I"); in >> n; r.o->n.resize(n); for (auto& x : r.o->n) in >> x; break; case 'b': r.o = mk(DOUBLES, "[D"); in >> n; r.o->d.resize(n); for (auto& x : r.o->d) { int64_t b; in >> b; memcpy(&x, &b, 8); } break; case 'd': r.o = mk(OBJECTS, "[[D"); in >> n; for (size_t i = 0; i < n; i++) r.o->e.push_back(take(in).o); break; default: break; } return r; }
bool is_static(const string& f) { for (auto& d : vm->decl) if (d.name == f) return d.stat; return false; }
Outcome java(Th& t, const Op& o, const string& cmd) {
  Outcome r; jvm_send(cmd);
  for (;;) { string l = jvm_read(); std::istringstream in(l); string k; in >> k;
    if (k == "changed") { fail("jni:dataset-changed", where(t, o) + ": the Java dataset was changed"); }
    if (k == "ok") { r.res = take(in).o; break; }
    if (k == "ex") { r.thrown = true; in >> r.ex; break; }
    if (k != "call") fail("jni:machine-ended", where(t, o) + ": the Java side answers " + l.substr(0, 200));
    string name, fn; long id; int n, st; in >> name >> id >> n; Obj*& me = jobjs[id]; if (!me) me = mk(INSTANCE, HD); Obj* self_ = me; vector<string> fields;
    for (int i = 0; i < n; i++) { in >> fn >> st; Val v = take(in); fields.push_back(fn); if (v.k == 'a' || v.k == 'n') self_->rf[fn] = v.o; else if (st) vm->statics[fn] = v.v; else self_->f[fn] = v.v; }
    in >> n; vector<Val> a; for (int i = 0; i < n; i++) a.push_back(take(in));
    if (a.size() < (name == "cleanHdbscan" ? 0u : 1u)) fail("jni:unlinked", where(t, o) + ": the native method " + name + " has other parameters");
    Outcome c; Obj* before = name == "runImpl" ? a[0].o : nullptr;
    if (name == "initHdbscan") c = n_init(t, o, self_, a[0].v); else if (name == "runImpl") c = n_run(t, o, self_, before); else if (name == "reRunImpl") c = n_rerun(t, o, self_, a[0].v); else if (name == "cleanHdbscan") c = n_clean(t, o, self_); else fail("jni:unlinked", where(t, o) + ": the library has no implementation of " + name);
    r.fault |= c.fault; string s = c.thrown ? "exc " + c.ex : "ret" + put(c.res); s += " " + std::to_string(fields.size());
    for (auto& f : fields) { s += " " + f; string sig; for (auto& d : vm->decl) if (d.name == f) sig = d.sig; if (sig == "I" || sig == "J" || sig == "Z") s += string(sig == "I" ? " i " : sig == "J" ? " j " : " z ") + std::to_string(is_static(f) ? vm->statics[f] : self_->f[f]); else s += put(self_->rf[f]); }
    jvm_send(s); }
  if (!r.thrown && (o.name() == "run" || o.name() == "rerun")) { jvm_send("labels " + o.a[1]); std::istringstream in(jvm_read()); string k; in >> k; if (k == "ok") r.res = take(in).o; }
  return r; }
bool grouped(const string& l, const vector<jint>& lab, string& d) { std::istringstream in(l); string k; in >> k >> k; std::map<jint, std::multiset<long>> want, got; for (size_t i = 0; i < lab.size(); i++) want[lab[i]].insert((long)i); size_t n = 0; if (k == "m") in >> n; for (size_t i = 0; i < n; i++) { jint key; size_t m; in >> key >> m; auto& g = got[key]; while (m--) { long x; in >> x; g.insert(x); } } if (k != "m" && !lab.empty()) { d = "there is none"; return false; } for (auto& w : want) if (got[w.first] != w.second) { d = strf("cluster %d has %zu points, expected %zu", w.first, got[w.first].size(), w.second.size()); return false; } for (auto& g : got) if (!want.count(g.first)) { d = strf("there is no cluster %d", g.first); return false; } return true; }
void step1(Th& t, const Op& o) {
  World& w = *t.w; const string& op = o.name();
  if (op == "arm" || op == "armp") { t.arm = op; t.arm_at = (uint64_t)o.i(1); return; } if (op == "jfail") { t.f1 = o.i(1); return; } if (op == "jfailp") { t.fp = o.i(1); return; }
  auto it = w.slots.find(o.s(1));
  auto expect_fail = [&](const Outcome& r, const char* what) { if (!r.thrown) fail("jni:no-exception", where(t, o) + ": " + what + " and no exception was thrown"); probe(PB_REFUSED); };
  if (op == "new") { if (it != w.slots.end()) return; JO j; j.o = mk(INSTANCE, HD); long mp = (jint)o.i(2, 2); Outcome r = on_jvm ? java(t, o, "new " + o.s(1) + " " + std::to_string(mp)) : n_init(t, o, j.o, mp); if (mp < 2) expect_fail(r, "fewer than two points to a neighbourhood"); else if (r.thrown && !r.fault) fail("jni:exception", where(t, o) + ": threw " + r.ex); if (r.thrown) { note(77); if (t.single && live_count() && w.slots.empty()) fail("jni:leak", where(t, o) + ": a constructor that threw left memory allocated"); return; } j.failed_new = r.fault; j.minpts = {mp}; w.slots[o.s(1)] = j; if (w.slots.size() > 1) probe(PB_MANY); return; }
  if (it == w.slots.end()) { t.arm.clear(); t.f1 = t.fp = -1; return; } JO& j = it->second;
  if (op == "run") { int di = (int)o.i(2); if (di < 0 || di >= (int)w.c->data.size() || w.c->data[(size_t)di].n() < 1 || w.c->data[(size_t)di].type != 1 || !w.c->data[(size_t)di].rowwise) return; Rng rr((uint64_t)o.i(4, 1)); string how = o.s(3, "ok"); Obj* a = dataset(w.c->data[(size_t)di], how, rr); bool square = true; if (a->e.empty()) square = false; for (Obj* x : a->e) if (!x || !a->e[0] || x->d.empty() || x->d.size() != a->e[0]->d.size()) square = false;
    Outcome r = on_jvm ? java(t, o, "run " + o.s(1) + put(a)) : n_run(t, o, j.o, a); note(r.thrown);
    if (!square) { if (j.cleaned && r.thrown) return; expect_fail(r, "the dataset is not rectangular"); j.lost = true; return; } // what the object held before is not determined any more
    if (j.cleaned) { probe(PB_AFTERCLEAN); if (r.thrown) return; }
    if (r.thrown) { if (!r.fault && !j.failed_new) fail("jni:exception", where(t, o) + ": threw " + r.ex); probe(PB_REFUSED); j.data.insert(di); j.lost = true; return; } if (!r.res) fail("jni:no-labels", where(t, o) + ": neither labels nor an exception"); if (j.lost) probe(PB_RECOVER); j.failed_new = j.lost = false; j.data = {di}; labels(t, o, j, r, j.minpts); return; }
  if (op == "rerun") { long mp = (jint)o.i(2, 2); Outcome r = on_jvm ? java(t, o, "rerun " + o.s(1) + " " + std::to_string(mp)) : n_rerun(t, o, j.o, mp); note(r.thrown);
    if (j.cleaned) { probe(PB_AFTERCLEAN); expect_fail(r, "there is nothing to cluster"); return; }
    if (mp < 2) { expect_fail(r, "fewer than two points to a neighbourhood"); return; }
    if (j.data.empty()) { probe(PB_UNRUN); expect_fail(r, "there is nothing to cluster"); j.minpts.insert(mp); return; }
    if (r.thrown) { if (!r.fault && !j.lost) fail("jni:exception", where(t, o) + ": threw " + r.ex); j.minpts.insert(mp); return; } if (!r.res) fail("jni:no-labels", where(t, o) + ": neither labels nor an exception"); probe(PB_RERUN); j.minpts = {mp}; labels(t, o, j, r, j.minpts); return; }
  if (op == "clean") { Outcome r = on_jvm ? java(t, o, "clean " + o.s(1)) : n_clean(t, o, j.o); if (r.thrown && !r.fault) fail("jni:exception", where(t, o) + ": threw " + r.ex); if (!r.thrown) { j.cleaned = true; j.data.clear(); } return; }
}
void step(Th& t, const Op& o) {
  World& w = *t.w; size_t seen = w.seen.size(); step1(t, o); if (!on_jvm || w.slots.empty()) return;
  // what the objects answer afterwards: the one of the operation its new labels, all others what they answered before
  for (auto& s : w.slots) { JO& j = s.second; checked(); jvm_send("labels " + s.first); string l = jvm_read(); std::istringstream in(l); string k; in >> k; if (k != "ok") fail("jni:exception", where(t, o) + ": getLabels of " + s.first + " threw " + l.substr(3)); Val v = take(in); bool own = o.a.size() > 1 && o.a[1] == s.first && o.name() != "jfail" && o.name() != "arm";
    if (own && w.seen.size() > seen) { j.lab = w.seen.back().labels; j.has_lab = true; }
    bool same = j.has_lab && v.o && v.o->n == j.lab; bool none = !v.o || v.o->n.empty(); if (own && w.seen.size() == seen && none) { j.has_lab = false; j.lab.clear(); } if (j.has_lab ? !same : !none) fail("jni:wrong-labels", where(t, o) + ": afterwards getLabels of " + s.first + (none ? " has none" : " gives other labels"));
    jvm_send("map " + s.first); l = jvm_read(); if (l.compare(0, 2, "ok")) fail("jni:exception", where(t, o) + ": getClusterMap of " + s.first + " threw " + l.substr(3)); string d; if (!grouped(l, j.lab, d)) fail("jni:wrong-map", where(t, o) + ": getClusterMap of " + s.first + ": " + d); }
}
}
// called in the worker before a case is forked: the virtual machine is there and waits; one that has just seen a violation is replaced
void jni_prepare(const string& text, bool again) {
  if (again && jv.pid) { kill(jv.pid, SIGKILL); while (waitpid(jv.pid, nullptr, 0) < 0 && errno == EINTR) {} close(jv.in); close(jv.out); jv = Jvm(); }
  if (again || text.find(" jvm=1") == string::npos || !jvm_there()) return; if (jv.pid && waitpid(jv.pid, nullptr, WNOHANG) == 0) return;
  if (jv.pid) { close(jv.in); close(jv.out); jv = Jvm(); } signal(SIGPIPE, SIG_IGN);
  int a[2], b[2]; if (pipe2(a, O_CLOEXEC) || pipe2(b, O_CLOEXEC)) { perror("pipe"); _exit(3); } pid_t p = fork(); if (p < 0) { perror("fork"); _exit(3); }
  if (p == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); dup2(a[0], 0); dup2(b[1], 1); int n = open("/dev/null", O_WRONLY); dup2(n, 2); signal(SIGPIPE, SIG_DFL); string cp = jvm_classes(); execlp("/usr/lib/jvm/java-17-openjdk-amd64/bin/java", "java", "-Xshare:auto", "-XX:TieredStopAtLevel=1", "-XX:+UseSerialGC", "-XX:-UsePerfData", "-Xmx128m", "-cp", cp.c_str(), "verif.Host", cp.c_str(), (char*)nullptr); _exit(127); }
  close(a[0]); close(b[1]); jv.pid = p; jv.in = a[1]; jv.out = b[0];
}
string gen_jni(const string& prop, Rng& r, const string& variant, long index) {
  bool jvm = r.chance(1, 4) && jvm_there(); int T = !jvm && r.chance(1, 3) ? r.range(2, 3) : 1; Config c = random_config(r, true, true, false); c.races = T > 1; c.memcheck = true; bool med = T == 1 && r.chance(1, jvm ? 12 : 30); if (med) c.step_budget = 2000000000; string s = "case jni prop=" + prop + (jvm ? " jvm=1" : "") + "\n" + cfg_text(c); int nd = med ? 1 : r.range(1, 3);
  for (int i = 0; i < nd; i++) { DataProfile p; p.maxn = T > 1 ? 14 : 30; p.rowwise_false = false; p.all_types = false; p.wide = false; p.small = T > 1 && r.chance(1, 2); if (med) { int z = (int)r.below(20); p.minn = z < 14 ? 37 : z < 18 ? 131 : 301; p.maxn = z < 14 ? 130 : z < 18 ? 300 : 600; } Data d = gen_data(r, p); d.type = 1; s += data_text(i, d); }
  auto mpts = [&](int m) { static const long low[] = {1, 0, -1, -2147483647l - 1}, high[] = {40, 65536, 2147483647}; return std::to_string(r.chance(1, 16) ? low[r.below(4)] : r.chance(1, 24) ? high[r.below(3)] : r.range(2, m)); };
  for (int t = 0; t < T; t++) { string th = std::to_string(t); int nslots = r.range(1, 3), n = med ? r.range(1, 4) : r.range(2, T > 1 ? 5 : 10); auto sl = [&]() { return th + "S" + std::to_string(r.below((uint64_t)nslots)); };
    for (int i = 0; i < nslots; i++) s += "op " + th + " new " + th + "S" + std::to_string(i) + " " + mpts(6) + "\n";
    for (int i = 0; i < n; i++) { if (r.chance(1, 5)) s += "op " + th + (r.chance(1, 2) ? " jfail " : " jfailp ") + std::to_string(r.below(r.chance(1, 2) ? 6 : 40)) + "\n"; if (T == 1 && r.chance(1, 6)) s += "op " + th + (r.chance(1, 2) ? " arm " : " armp ") + std::to_string(r.below(r.chance(1, 3) ? 4 : 300)) + "\n";
      switch (r.below(10)) { case 0: s += "op " + th + " clean " + sl() + "\n"; break; case 1: s += "op " + th + " new " + sl() + " " + mpts(6) + "\n"; break; case 2: case 3: case 4: s += "op " + th + " rerun " + sl() + " " + mpts(9) + "\n"; break;
        case 5: { static const char* hows[] = {"null", "empty", "nocols", "short", "longrow", "first0"}; s += "op " + th + " run " + sl() + " " + std::to_string(r.below((uint64_t)nd)) + " " + hows[r.below(6)] + " " + std::to_string(r.below(1000)) + "\n"; break; }
        default: s += "op " + th + " run " + sl() + " " + std::to_string(r.below((uint64_t)nd)) + "\n"; } } }
  return s;
}
void run_jni(const Case& c) {
  for (auto& d : c.data) if (d.n() > 36) native_limit = 600000000;
  on_jvm = c.o("jvm") == "1"; if (on_jvm) { if (!jvm_there()) fail("jni:machine-ended", "the Java class could not be compiled for the simulator"); string nonce = "reset " + std::to_string(getpid()); jvm_send(nonce); while (jvm_read() != nonce) {} }
  World w; w.c = &c; std::map<int, Th> th; string sm; setup_vm(); for (auto& o : c.ops) { Th& t = th[std::max(0, o.thread)]; t.w = &w; t.thread = std::max(0, o.thread); t.ops.push_back(o); for (auto& x : o.a) sm += x + " "; sm += "; "; } snprintf(shared->sample, sizeof shared->sample, "%s: %.1800s", policy_names[c.cfg.policy], sm.c_str());
  begin(c.cfg); bool multi = th.size() > 1; if (multi) probe(PB_THREADS); Env* me = new Env; me->env.functions = &table; envs.push_back(me);
  if (JNI_OnLoad) { spawn([me]() { me->fiber = self(); jint r = 0; SUT("JNI_OnLoad", 0, r = JNI_OnLoad(&jvm, nullptr)); me->locals.clear(); if (r < JNI_VERSION_1_2) fail("jni:unlinked", "JNI_OnLoad reports an unknown version"); }); run_all(); }
  for (auto& t : th) { t.second.env = new Env; t.second.env->env.functions = &table; envs.push_back(t.second.env); t.second.single = !multi; }
  multi_callers = multi; for (auto& t : th) { Th* x = &t.second; spawn([x]() { x->env->fiber = self(); for (auto& o : x->ops) step(*x, o); }); } run_all(); multi_callers = false; (void)take_out();
  // the labels the native library gives, on one object of its own per result
  spawn([&]() { for (auto& s : w.seen) { checked(); string d; bool ok = false; for (int di : s.data) for (long mp : s.minpts) { const Data& x = c.data[(size_t)di]; if (x.n() != (int)s.labels.size()) { d = strf("%zu labels for %d points", s.labels.size(), x.n()); continue; } void* b = data_buffer(x); void* o = nullptr; int r = 0; SUT("hdbscan_init", 0, o = drv_init(mp)); SUT("hdbscan_run", 0, r = drv_run(o, b, (i64)x.pts.size(), x.cols, 1, 1)); if (r) { d = "the native library fails"; } else { bool eq = true; for (size_t i = 0; i < s.labels.size(); i++) { note((uint64_t)s.labels[i]); if ((jint)drv_label(o, (i64)i) != s.labels[i]) { eq = false; d = strf("point %zu has label %d, natively %lld", i, s.labels[i], drv_label(o, (i64)i)); break; } } ok |= eq; } SUT("hdbscan_destroy", 0, drv_destroy(o)); user_free(b); } if (!ok) fail("jni:wrong-labels", s.where + ": " + d); }
    Th end; end.w = &w; end.thread = -1; end.env = me; me->fiber = self(); for (auto& s : w.slots) if (!s.second.cleaned) { Op d; d.thread = -1; d.a = {"clean", s.first}; step(end, d); } if (JNI_OnUnload) { me->locals.clear(); SUT("JNI_OnUnload", 0, JNI_OnUnload(&jvm, nullptr)); } }); run_all();
  if (live_count()) fail("jni:leak", strf("%zu blocks are still allocated after every Java object was cleaned", live_count()));
}
