// A client of the C++ interface; compiled into the simulated object so that its containers are the simulated ones.
#include "hdbscan/hdbscan.hpp"
#include "hdbscan/logger.h"
#include "sut_api.h"
using namespace clustering;
#define S ((clustering::hdbscan*)s)
typedef map<label_t, distance_values> mm_t;
#include <new>
#define OOM(x, y) try { x; } catch (std::bad_alloc&) { y; }
extern "C" {
void* cpp_new(i64 m) { OOM(return m < 0 ? new clustering::hdbscan() : new clustering::hdbscan((index_t)m), return 0) }
void cpp_delete(void* s) { delete S; }
void cpp_run(void* s, void* d, i64 r, i64 c, int rw, int t) { S->run(d, (index_t)r, (index_t)c, rw, (index_t)t); }
void cpp_steps(void* s, void* d, i64 r, i64 c, int rw, int t, int flags) { if (drv_steps_begin(s, d, r, c, rw, t, flags)) { S->clean(); return; } vector<distance_t> noise(S->numPoints); vector<label_t> last(S->numPoints); S->constructMST(); if (!S->mst) { S->clean(); return; } graph_quicksort_by_edge_weight(S->mst); S->computeHierarchyAndClusterTree(flags & 1, &noise[0], &last[0]); boolean inf = S->propagateTree(); S->findProminentClusters(inf); S->calculateOutlierScores(&noise[0], &last[0], inf); }
void cpp_rerun(void* s, i64 m) { S->reRun((index_t)m); }
void cpp_clean(void* s) { S->clean(); }
void* cpp_map(void* l, i64 b, i64 e) { OOM(return new map_t(createClusterMap((label_t*)l, (index_t)b, (index_t)e)), return 0) }
void cpp_map_free(void* m) { delete (map_t*)m; }
i64 cpp_map_size(void* m) { return (i64)((map_t*)m)->size(); }
i64 cpp_map_key(void* m, i64 i) { map_t::iterator it = ((map_t*)m)->begin(); while (i-- > 0) ++it; return (i64)it->first; }
i64 cpp_map_list(void* m, i64 k, i64* out, i64 cap) { map_t::iterator it = ((map_t*)m)->find((label_t)k); if (it == ((map_t*)m)->end()) return -1; for (size_t i = 0; i < it->second.size() && (i64)i < cap; i++) out[i] = (i64)it->second[i]; return (i64)it->second.size(); }
void* cpp_minmax(void* s, void* m) { OOM(return new mm_t(getMinMaxDistances(*S, *(map_t*)m)), return 0) }
void cpp_minmax_free(void* d) { delete (mm_t*)d; }
i64 cpp_mm_size(void* d) { return (i64)((mm_t*)d)->size(); }
i64 cpp_mm_key(void* d, i64 i) { mm_t::iterator it = ((mm_t*)d)->begin(); while (i-- > 0) ++it; return (i64)it->first; }
int cpp_mm_get(void* d, i64 k, double v[6]) { mm_t::iterator it = ((mm_t*)d)->find((label_t)k); if (it == ((mm_t*)d)->end()) return 0; distance_values& x = it->second; v[0] = x.min_cr; v[1] = x.max_cr; v[2] = x.cr_confidence; v[3] = x.min_dr; v[4] = x.max_dr; v[5] = x.dr_confidence; return 1; }
void* cpp_mm_make(i64 n, const i64* keys, const double* v) { mm_t* m = new mm_t(); for (i64 i = 0; i < n; i++) { distance_values& x = (*m)[(label_t)keys[i]]; x.min_cr = v[6 * i]; x.max_cr = v[6 * i + 1]; x.cr_confidence = v[6 * i + 2]; x.min_dr = v[6 * i + 3]; x.max_dr = v[6 * i + 4]; x.dr_confidence = v[6 * i + 5]; } return m; }
int cpp_stats(void* d, void* st) { OOM(calculateStats(*(mm_t*)d, *(clustering_stats*)st), return 0) return 1; }
int cpp_analyse(void* st) { return analyseStats(*(clustering_stats*)st); }
void* cpp_list_new(i64 n, const i64* k) { vector<label_t>* v = new vector<label_t>(); for (i64 i = 0; i < n; i++) v->push_back((label_t)k[i]); return v; }
void cpp_list_free(void* l) { delete (vector<label_t>*)l; }
i64 cpp_list_size(void* l) { return (i64)((vector<label_t>*)l)->size(); }
i64 cpp_list_at(void* l, i64 i) { return (i64)(*(vector<label_t>*)l)[(size_t)i]; }
int cpp_sort_sim(void* d, void* l, int t) { OOM(sortBySimilarity(*(mm_t*)d, *(vector<label_t>*)l, t), return 0) return 1; }
int cpp_sort_len(void* m, void* l) { OOM(sortByLength(*(map_t*)m, *(vector<label_t>*)l), return 0) return 1; }
void cpp_print(int what, void* m, void* d, void* st) { switch (what) { case 0: printClusterMap(*(map_t*)m); break; case 1: printClusterSizes(*(map_t*)m); break; case 2: printDistanceMap(*(mm_t*)d); break; case 3: printStats(*(clustering_stats*)st); break; } }

// what an object holds, seen through the C++ declarations
i64 cpp_edges(void* s) { return (i64)S->mst->edgeWeights->size; }
void cpp_edge(void* s, i64 e, i64* a, i64* b, double* w) { *a = (i64)((index_t*)S->mst->verticesA->data)[e]; *b = (i64)((index_t*)S->mst->verticesB->data)[e]; *w = ((distance_t*)S->mst->edgeWeights->data)[e]; }
void cpp_outlier(void* s, i64 i, i64* id, double* sc, double* co) { *id = (i64)S->outlierScores[i].id; *sc = S->outlierScores[i].score; *co = S->outlierScores[i].coreDistance; }
i64 cpp_clusters(void* s) { return (i64)S->clusters->size; }
void cpp_cluster(void* s, i64 ix, drv_cl* o) { Cluster* c = ((Cluster**)S->clusters->data)[ix]; memset(o, 0, sizeof *o); if (!c) { o->null = 1; return; } o->label = (i64)c->label; o->parent = c->parent ? (i64)c->parent->label : 0; o->npoints = (i64)c->numPoints; o->offset = c->offset; o->birth = c->birthLevel; o->death = c->deathLevel; o->stability = c->stability; o->pstab = c->propagatedStability; o->plow = c->propagatedLowestChildDeathLevel; o->kids = c->hasChildren; }
void* cpp_dist_new(int ctor, int type) { OOM(return ctor == 0 ? new Distance() : ctor == 1 ? new Distance(_EUCLIDEAN) : new Distance(_EUCLIDEAN, (enum HTYPES)type), return 0) }
void cpp_dist_delete(void* d) { delete (Distance*)d; } void cpp_dist_core(void* d, i64 k) { ((Distance*)d)->getCoreDistances((index_t)k); }
void* cpp_graph_new(void) { OOM(return new UndirectedGraph(), return 0) } void cpp_graph_delete(void* g) { delete (UndirectedGraph*)g; } size_t cpp_graph_sizeof(void) { return sizeof(UndirectedGraph); }
#define G ((UndirectedGraph*)g)
i64 cpp_graph_nv(void* g) { return (i64)G->numVertices; } i64 cpp_graph_m(void* g) { return (i64)G->edgeWeights->size; }
void cpp_graph_edge(void* g, i64 e, i64* a, i64* b, double* w) { *a = (i64)((index_t*)G->verticesA->data)[e]; *b = (i64)((index_t*)G->verticesB->data)[e]; *w = ((distance_t*)G->edgeWeights->data)[e]; }
}
