/* Harness driver in C: the only place that knows the repository's structures. */
#include "hdbscan/hdbscan.h"
#include "hdbscan/logger.h"
#include "collections/set.h"
#include "collections/linkedlist.h"
#include "collections/primes.h"
typedef long long i64;
#include "sut_api.h"
void* sim_malloc(size_t); void sim_free(void*); void* sim_user(size_t);
#define S ((hdbscan*)s)
int drv_label_size(void) { return sizeof(label_t); } int drv_index_size(void) { return sizeof(index_t); } int drv_distance_size(void) { return sizeof(distance_t); }
int drv_debug(void) {
#ifdef DEBUG
  return 1;
#else
  return 0;
#endif
}
double drv_dmax(void) { return D_MAX; } double drv_dmin(void) { return D_MIN; }
void* drv_init(i64 m) { return hdbscan_init(NULL, (index_t)m); }
void* drv_init_at(void* p, i64 m) { return hdbscan_init(p, (index_t)m); }
size_t drv_sizeof(void) { return sizeof(hdbscan); }
int drv_run(void* s, void* d, i64 r, i64 c, int rw, int t) { return hdbscan_run(S, d, (index_t)r, (index_t)c, rw, (index_t)t); }
int drv_rerun(void* s, i64 m) { return hdbscan_rerun(S, (index_t)m); }
/* the steps of hdbscan_run one at a time; flags: 1 compact hierarchy, 2 no self edges, 4.. initial sizes */
static int steps_begin(hdbscan* h, void* d, i64 r, i64 c, int rw, int t, int flags) {
  hdbscan_clean(h); h->selfEdges = flags & 2 ? FALSE : TRUE; distance_init(&h->distanceFunction, _EUCLIDEAN, t); h->numPoints = (index_t)(rw ? r : r * c);
  distance_compute(&h->distanceFunction, d, h->numPoints, (index_t)(rw ? c : 1), (index_t)(h->minPoints - 1)); if (!h->distanceFunction.distances) return 1;
  h->clusters = ptr_array_list_init((size_t)(1 + (flags >> 2) % 7), cluster_compare); h->clusterStabilities = hashtable_init((size_t)(1 + (flags >> 2) % 5), H_INT, H_PTR, int_compare); h->hierarchy = hashtable_init((size_t)(1 + (flags >> 2) % 11), H_LONG, H_PTR, long_compare);
  return !h->clusters || !h->clusterStabilities || !h->hierarchy; }
int drv_steps_begin(void* s, void* d, i64 r, i64 c, int rw, int t, int flags) { return steps_begin(S, d, r, c, rw, t, flags); }
int drv_steps(void* s, void* d, i64 r, i64 c, int rw, int t, int flags) {
  int bad = 1, inf; distance_t* noise = NULL; label_t* last = NULL;
  if (steps_begin(S, d, r, c, rw, t, flags)) goto end;
  noise = sim_malloc((size_t)S->numPoints * sizeof *noise); last = sim_malloc((size_t)S->numPoints * sizeof *last); if (!noise || !last) goto end;
  if (hdbscan_construct_mst(S) == HDBSCAN_ERROR) goto end;
  graph_quicksort_by_edge_weight(S->mst);
  if (hdbscan_compute_hierarchy_and_cluster_tree(S, flags & 1, noise, last) == HDBSCAN_ERROR) goto end;
  inf = hdbscan_propagate_tree(S); if (inf < 0) goto end;
  if (hdbscan_find_prominent_clusters(S, inf) == HDBSCAN_ERROR) goto end;
  if (hdbscsan_calculate_outlier_scores(S, noise, last, inf) == HDBSCAN_ERROR) goto end;
  bad = 0;
end:
  sim_free(noise); sim_free(last); if (bad) hdbscan_clean(S); return bad; }
int drv_self_edges(void* s, int on) { if (on >= 0) S->selfEdges = on ? TRUE : FALSE; return S->selfEdges; }
void drv_clean(void* s) { hdbscan_clean(S); } void drv_destroy(void* s) { hdbscan_destroy(S); }
i64 drv_n(void* s) { return (i64)S->numPoints; } i64 drv_minpts(void* s) { return (i64)S->minPoints; }
int drv_has_result(void* s) { return S->clusterLabels && S->outlierScores && S->hierarchy && S->clusters && S->distanceFunction.coreDistances && S->distanceFunction.distances; }
int drv_is_empty(void* s) { return !S->clusterLabels && !S->outlierScores && !S->hierarchy && !S->distanceFunction.coreDistances && !S->distanceFunction.distances && !S->mst; }
double drv_core(void* s, i64 i) { return S->distanceFunction.coreDistances[i]; }
double drv_dist(void* s, i64 i, i64 j) { return distance_get(&S->distanceFunction, (index_t)i, (index_t)j); }
i64 drv_label(void* s, i64 i) { return (i64)S->clusterLabels[i]; }
void drv_outlier(void* s, i64 i, i64* id, double* sc, double* co) { *id = (i64)S->outlierScores[i].id; *sc = S->outlierScores[i].score; *co = S->outlierScores[i].coreDistance; }
i64 drv_levels(void* s) { return (i64)S->hierarchy->keys->size; }
int drv_level(void* s, i64 ix, i64* key, double* w) { long k; if (!set_value_at(S->hierarchy->keys, (size_t)ix, &k)) return 0; hierarchy_entry* e = NULL; if (!hashtable_lookup(S->hierarchy, &k, &e) || !e) return 0; *key = k; *w = e->edgeWeight; return 1; }
i64 drv_level_label(void* s, i64 key, i64 i) { long k = (long)key; hierarchy_entry* e = NULL; if (!hashtable_lookup(S->hierarchy, &k, &e) || !e || !e->labels) return -1; return (i64)e->labels[i]; }
i64 drv_clusters(void* s) { return (i64)S->clusters->size; }
void drv_cluster(void* s, i64 ix, drv_cl* o) { cluster* c = ((cluster**)S->clusters->data)[ix]; memset(o, 0, sizeof *o); if (!c) { o->null = 1; return; } o->label = (i64)c->label; o->parent = c->parent ? (i64)c->parent->label : 0; o->npoints = (i64)c->numPoints; o->offset = c->offset; o->birth = c->birthLevel; o->death = c->deathLevel; o->stability = c->stability; o->pstab = c->propagatedStability; o->plow = c->propagatedLowestChildDeathLevel; o->kids = c->hasChildren; }
int drv_has_mst(void* s) { return S->mst != NULL; }
i64 drv_edges(void* s) { return (i64)S->mst->edgeWeights->size; }
void drv_edge(void* s, i64 e, i64* a, i64* b, double* w) { *a = (i64)((index_t*)S->mst->verticesA->data)[e]; *b = (i64)((index_t*)S->mst->verticesB->data)[e]; *w = ((distance_t*)S->mst->edgeWeights->data)[e]; }
i64 drv_adj(void* s, i64 v, i64* out, i64 cap) { ArrayList* l = S->mst->edges[v]; i64 n = (i64)l->size; for (i64 i = 0; i < n && i < cap; i++) out[i] = (i64)((index_t*)l->data)[i]; return n; }
int drv_mst_only(void* s, void* d, i64 r, i64 c, int t) { distance_init(&S->distanceFunction, _EUCLIDEAN, t); S->numPoints = (index_t)r; distance_compute(&S->distanceFunction, d, (index_t)r, (index_t)c, (index_t)(S->minPoints - 1)); return hdbscan_construct_mst(S); }
void drv_mst_sort(void* s) { graph_quicksort_by_edge_weight(S->mst); }
void* drv_labels_ptr(void* s) { return S->clusterLabels; }
void* drv_map(void* l, i64 b, i64 e) { return hdbscan_create_cluster_map(l, (index_t)b, (index_t)e); }
void drv_map_free(void* m) { hdbscan_destroy_cluster_map(m); }
#define H ((hashtable*)m)
i64 drv_map_size(void* m) { return (i64)H->keys->size; }
i64 drv_map_key(void* m, i64 i) { return (i64)((label_t*)H->keys->data)[i]; }
int drv_map_ordered(void* m) { for (i64 i = 1; i < (i64)H->keys->size; i++) if (((label_t*)H->keys->data)[i - 1] >= ((label_t*)H->keys->data)[i]) return 0; return 1; }
i64 drv_map_list(void* m, i64 key, i64* out, i64 cap) { label_t k = (label_t)key; ArrayList* l = NULL; if (!hashtable_lookup(H, &k, &l) || !l) return -1; for (i64 i = 0; i < (i64)l->size && i < cap; i++) out[i] = (i64)((index_t*)l->data)[i]; return (i64)l->size; }
void* drv_minmax(void* s, void* m) { return hdbscan_get_min_max_distances(S, m); }
void drv_minmax_free(void* m) { hdbscan_destroy_distance_map(m); }
i64 drv_mm_size(void* m) { return (i64)H->keys->size; }
i64 drv_mm_key(void* m, i64 i) { return (i64)((label_t*)H->keys->data)[i]; }
int drv_mm_get(void* m, i64 key, double v[6]) { label_t k = (label_t)key; distance_values* d = NULL; if (!hashtable_lookup(H, &k, &d) || !d) return 0; v[0] = d->min_cr; v[1] = d->max_cr; v[2] = d->cr_confidence; v[3] = d->min_dr; v[4] = d->max_dr; v[5] = d->dr_confidence; return 1; }
int drv_mm_set(void* m, i64 key, const double v[6]) { label_t k = (label_t)key; distance_values* d = NULL; if (!hashtable_lookup(H, &k, &d) || !d) return 0; d->min_cr = v[0]; d->max_cr = v[1]; d->cr_confidence = v[2]; d->min_dr = v[3]; d->max_dr = v[4]; d->dr_confidence = v[5]; return 1; }
static hashtable* label_table(size_t n) { return sizeof(label_t) == 4 ? hashtable_init_size(n, H_INT, H_PTR, int_compare) : sizeof(label_t) == 8 ? hashtable_init_size(n, H_LONG, H_PTR, long_compare) : hashtable_init_size(n, H_SHORT, H_PTR, short_compare); }
void* drv_mm_make(i64 n, const i64* keys, const double* v) { hashtable* m = label_table((size_t)n); for (i64 i = 0; i < n; i++) { label_t k = (label_t)keys[i]; distance_values* d = sim_malloc(sizeof *d); memset(d, 0, sizeof *d); d->min_cr = v[6 * i]; d->max_cr = v[6 * i + 1]; d->cr_confidence = v[6 * i + 2]; d->min_dr = v[6 * i + 3]; d->max_dr = v[6 * i + 4]; d->dr_confidence = v[6 * i + 5]; hashtable_insert(m, &k, &d); } return m; }
void* drv_stats_new(void) { return sim_malloc(sizeof(clustering_stats)); } void drv_stats_free(void* p) { sim_free(p); }
void drv_stats(void* d, void* st) { hdbscan_calculate_stats(d, st); }
static void sv_get(stats_values* x, double* v) { v[0] = x->max; v[1] = x->mean; v[2] = x->variance; v[3] = x->standardDev; v[4] = x->skewness; v[5] = x->kurtosis; }
static void sv_set(stats_values* x, const double* v) { x->max = v[0]; x->mean = v[1]; x->variance = v[2]; x->standardDev = v[3]; x->skewness = v[4]; x->kurtosis = v[5]; }
void drv_stats_get(void* p, i64* c, double v[12]) { clustering_stats* st = p; *c = (i64)st->count; sv_get(&st->coreDistanceValues, v); sv_get(&st->intraDistanceValues, v + 6); }
void drv_stats_set(void* p, i64 c, const double v[12]) { clustering_stats* st = p; st->count = (index_t)c; sv_set(&st->coreDistanceValues, v); sv_set(&st->intraDistanceValues, v + 6); }
int drv_analyse(void* st) { return hdbscan_analyse_stats(st); }
void* drv_list_new(i64 n, const i64* k) { ArrayList* l = array_list_init(n > 0 ? (size_t)n : 1, sizeof(label_t), sizeof(label_t) == 4 ? int_compare : sizeof(label_t) == 8 ? long_compare : short_compare); for (i64 i = 0; i < n; i++) { label_t x = (label_t)k[i]; array_list_append(l, &x); } return l; }
static int find_copy(ArrayList* L, size_t i, int sorted) { char k[32]; memset(k, 0x5a, sizeof k); memcpy(k + 8, (char*)L->data + i * L->step, L->step); return array_list_find(L, k + 8, sorted) == (int64_t)i; }
int drv_list_usable(void* l, int sorted) { ArrayList* L = l; size_t n = L->size, d = n / 4 + 1; for (size_t i = 0; i < n; i += d) if (!find_copy(L, i, sorted)) return 0; return n == 0 || find_copy(L, n - 1, sorted); }
int drv_map_usable(void* m) { for (i64 i = 0; i < (i64)H->keys->size; i++) { label_t k = ((label_t*)H->keys->data)[i]; ArrayList* l = NULL; if (!hashtable_lookup(H, &k, &l) || !l || !drv_list_usable(l, 1)) return 0; } return 1; }
void drv_list_free(void* l) { array_list_delete(l); } i64 drv_list_size(void* l) { return (i64)((ArrayList*)l)->size; } i64 drv_list_at(void* l, i64 i) { return (i64)((label_t*)((ArrayList*)l)->data)[i]; }
void* drv_sort_sim(void* d, void* l, int t) { return hdbscan_sort_by_similarity(d, l, t); } void* drv_sort_len(void* m, void* l) { return hdbscan_sort_by_length(m, l); }
void drv_print(void* s, int what, void* m, void* d, void* st) { switch (what) { case 0: hdbscan_print_cluster_map(m); break; case 1: hdbscan_print_cluster_sizes(m); break; case 2: hdbscan_print_distance_map(d); break; case 3: hdbscan_print_stats(st); break; case 4: hdbscan_print_hierarchies(S->hierarchy, S->numPoints, NULL); break; case 5: hdbscan_print_outlier_scores(S->outlierScores, S->numPoints); break; case 6: graph_print(S->mst); break; case 7: distances_print(&S->distanceFunction); break; } }
void drv_export(void* s, char* name) { hdbscan_print_hierarchies(S->hierarchy, S->numPoints, name); }
void* drv_hier_make(i64 L, i64 n, const i64* keys, const double* w, const i64* lab) { hashtable* h = hashtable_init((size_t)(L < 4 ? 4 : L), H_LONG, H_PTR, long_compare); for (i64 i = 0; i < L; i++) { long k = (long)keys[i]; hierarchy_entry* e = hdbscan_create_hierarchy_entry(); e->edgeWeight = (distance_t)w[i]; e->labels = sim_malloc(sizeof(label_t) * (size_t)(n ? n : 1)); for (i64 j = 0; j < n; j++) e->labels[j] = (label_t)lab[i * n + j]; hashtable_insert(h, &k, &e); } return h; }
void drv_hier_free(void* h) { hashtable_destroy(h, NULL, (void (*)(void*))hdbscan_destroy_hierarchical_entry); }
void drv_hier_export(void* h, i64 n, char* name) { hdbscan_print_hierarchies(h, (index_t)n, name); }
i64 drv_hier_levels(void* h) { return (i64)((hashtable*)h)->keys->size; }
int drv_hier_level(void* h, i64 ix, i64* key, double* w, i64* lab, i64 n) { long k; if (!set_value_at(((hashtable*)h)->keys, (size_t)ix, &k)) return 0; hierarchy_entry* e = NULL; if (!hashtable_lookup(h, &k, &e) || !e) return 0; *key = k; *w = e->edgeWeight; for (i64 i = 0; i < n; i++) lab[i] = (i64)e->labels[i]; return 1; }
/* containers */
typedef int32_t (*cmpf)(const void*, const void*);
/* a comparison function says which comes first by its sign: these also return large numbers whose low bytes say nothing */
static int32_t text_cmp(const void* a, const void* b) { const unsigned char *x = *(const unsigned char* const*)a, *y = *(const unsigned char* const*)b; while (*x && *x == *y) { x++; y++; } return ((int32_t)*x - (int32_t)*y) * 256; }
static int32_t rec_cmp(const void* a, const void* b) { return long_compare(a, b) * 65536; }
static int32_t int3_cmp(const void* a, const void* b) { const unsigned char *x = a, *y = b; long p = (long)x[0] | (long)x[1] << 8 | (long)(signed char)x[2] << 16, q = (long)y[0] | (long)y[1] << 8 | (long)(signed char)y[2] << 16; return (int32_t)((p - q) * 128); }
static cmpf cmp_of(int t) { switch (t) { case 6: return text_cmp; case 8: return rec_cmp; case 9: return int3_cmp; case H_INT: return int_compare; case H_DOUBLE: return double_compare; case H_FLOAT: return float_compare; case H_LONG: return long_compare; case H_SHORT: return short_compare; case H_CHAR: return char_compare; } return ptr_compare; }
size_t ct_size(int t) { switch (t) { case H_INT: return 4; case H_DOUBLE: return 8; case H_FLOAT: return 4; case H_LONG: return 8; case H_SHORT: return 2; case H_CHAR: return 1; case 8: return 24; case 9: return 3; } return 8; }
void* ct_al_new(size_t cap, int t) { return t == H_PTR ? ptr_array_list_init(cap, ptr_compare) : array_list_init(cap, ct_size(t), cmp_of(t)); } void ct_al_del(void* l) { array_list_delete(l); } size_t ct_al_size(void* l) { return array_list_size(l); }
int ct_al_value_at(void* l, size_t p, void* d) { return array_list_value_at(l, p, d); } int ct_al_replace(void* l, void* d, size_t p) { return array_list_replace_at(l, d, p); } int ct_al_append(void* l, void* d) { return array_list_append(l, d); } int ct_al_insert(void* l, void* d, size_t p) { return array_list_insert_at(l, d, p); }
i64 ct_al_find(void* l, void* d, int sorted) { return array_list_find(l, d, sorted); } void ct_al_clear(void* l, int r) { array_list_clear(l, r); } int ct_al_remove_at(void* l, size_t p, void* d) { return array_list_remove_at(l, p, d); } int ct_al_remove(void* l, void* d) { return array_list_remove(l, d); } void ct_al_sort(void* l) { array_list_sort(l); } int ct_al_pop(void* l, void* d) { return array_list_pop(l, d); } int ct_al_empty(void* l) { return array_list_empty(l); } int ct_al_grow(void* l) { return array_list_grow(l); } size_t ct_al_max(void* l) { return ((ArrayList*)l)->max_size; }
void* ct_set_new(int t) { return set_init(ct_size(t), cmp_of(t)); } void ct_set_del(void* l) { set_delete(l); } size_t ct_set_size(void* l) { return set_size(l); } int ct_set_insert(void* l, void* d) { return set_insert(l, d); } int ct_set_remove(void* l, void* d) { return set_remove(l, d); } i64 ct_set_find(void* l, void* d) { return set_find(l, d); } int ct_set_value_at(void* l, size_t p, void* d) { return set_value_at(l, p, d); } int ct_set_remove_at(void* l, size_t p, void* d) { return set_remove_at(l, p, d); } void ct_set_clear(void* l) { set_clear(l); } int ct_set_empty(void* l) { return set_empty(l); }
void* ct_ht_new(i64 b, int kt, int dt, int exact) { return exact ? hashtable_init_size((size_t)b, kt, dt, cmp_of(kt)) : hashtable_init((size_t)b, kt, dt, cmp_of(kt)); }
void* ct_val_new(void) { return sim_malloc(24); } void* ct_str_new(const char* t, i64 n) { char* p = sim_malloc((size_t)n + 1); memcpy(p, t, (size_t)n + 1); return p; } void ct_val_free(void* p) { sim_free(p); }
int ct_ht_destroy(void* h, int dv) { return hashtable_destroy(h, dv & 2 ? ct_val_free : NULL, dv & 1 ? ct_val_free : NULL); } int ct_ht_clear(void* h, int dv) { return hashtable_clear(h, dv & 2 ? ct_val_free : NULL, dv & 1 ? ct_val_free : NULL); }
int ct_ht_insert(void* h, void* k, void* v) { return hashtable_insert(h, k, v); } int ct_ht_lookup(void* h, void* k, void* v) { return hashtable_lookup(h, k, v); } int ct_ht_remove(void* h, void* k, void* v) { return hashtable_remove(h, k, v); } size_t ct_ht_size(void* h) { return hashtable_size(h); } size_t ct_ht_entries(void* h) { return ((hashtable*)h)->size; } int ct_ht_empty(void* h) { return hashtable_empty(h); } i64 ct_ht_nkeys(void* h) { return (i64)((hashtable*)h)->keys->size; } int ct_ht_key_at(void* h, i64 i, void* k) { return set_value_at(((hashtable*)h)->keys, (size_t)i, k); }
void* ct_ll_new(int t) { return linkedlist_init(ct_size(t)); } void ct_ll_del(void* l) { linkedlist_delete(l); } void ct_ll_clear(void* l) { linkedlist_clear(l); } int ct_ll_size(void* l) { return ((linkedlist*)l)->size; } int ct_ll_front(void* l, void* d) { return linkedlist_front_add(l, d); } int ct_ll_tail(void* l, void* d) { return linkedlist_tail_add(l, d); } void* ct_ll_lookup(void* l, void* d, int rm, int t) { return linkedlist_lookup(l, d, rm, cmp_of(t)); } int ct_ll_remove(void* l, void* d, int t) { return linkedlist_remove(l, d, cmp_of(t)); } void* ct_ll_head(void* l) { return linkedlist_head(l, 0); } void* ct_ll_tailp(void* l) { return linkedlist_tail(l, 0); } int ct_ll_value_at(void* l, int p, void* d) { return linkedlist_value_at(l, p, d); } int ct_ll_empty(void* l) { return linkedlist_empty(l); }
void ct_ll_free_detached(void* d) { sim_free(d); }
i64 ct_ll_walk(void* l, int back, void* out, i64 cap, int t) { linkedlist* x = l; i64 n = 0; size_t z = ct_size(t); for (node* p = back ? x->tail : x->head; p && n < cap; p = back ? p->prev : p->next) { memcpy((char*)out + n * (i64)z, p->data, z); n++; } return n; }
void lg_init(void) { logger_init(); } void lg_write(int t, const char* s) { logger_write(t, s); } void lg_close(void) { logger_close(); }
i64 h_hash(int t, void* k, i64 b) { size_t n = (size_t)b; switch (t) { case H_INT: return (i64)int_hash(k, n); case H_LONG: return (i64)long_hash(k, n); case H_SHORT: return (i64)short_hash(k, n); case H_CHAR: return (i64)char_hash(k, n); case H_DOUBLE: return (i64)double_hash(k, n); case H_FLOAT: return (i64)float_hash(k, n); } return -1; }
int h_prime(int n) { return find_prime_less_than(n); }

/* ---- distance tables, graphs and clusters on their own ---- */
#include "hdbscan/cluster.h"
#define DT ((distance*)d)
#define G ((UndirectedGraph*)g)
#define CC ((cluster*)c)
void* pd_new(int type) { return distance_init(NULL, _EUCLIDEAN, type); }
void* pd_new_at(void* mem, int type) { return distance_init(mem, _EUCLIDEAN, type); }
size_t pd_sizeof(void) { return sizeof(distance); }
void pd_compute(void* d, void* data, i64 rows, i64 cols, i64 k) { distance_compute(DT, data, (index_t)rows, (index_t)cols, (index_t)k); }
void pd_core(void* d, i64 k) { DT->numNeighbors = (index_t)k; distance_get_core_distances(DT); }
double pd_get(void* d, i64 i, i64 j) { return distance_get(DT, (index_t)i, (index_t)j); }
double pd_corev(void* d, i64 i) { return DT->coreDistances[i]; }
int pd_has(void* d) { return (DT->distances != NULL) + 2 * (DT->coreDistances != NULL); }
void pd_clean(void* d) { distance_clean(DT); } void pd_destroy(void* d) { distance_destroy(DT); } void pd_print(void* d) { distances_print(DT); }
void pg_lists_free(void** l3) { for (int i = 0; i < 3; i++) if (l3[i]) { array_list_delete(l3[i]); l3[i] = NULL; } }
int pg_lists(i64 m, const i64* a, const i64* b, const double* w, void** l3) {
  l3[0] = array_list_init((size_t)(m ? m : 1), sizeof(index_t), NULL); l3[1] = array_list_init((size_t)(m ? m : 1), sizeof(index_t), NULL); l3[2] = array_list_init((size_t)(m ? m : 1), sizeof(distance_t), NULL); if (!l3[0] || !l3[1] || !l3[2]) { pg_lists_free(l3); return 0; }
  for (i64 i = 0; i < m; i++) { index_t x = (index_t)a[i], y = (index_t)b[i]; distance_t v = (distance_t)w[i]; if (array_list_append(l3[0], &x) != 1 || array_list_append(l3[1], &y) != 1 || array_list_append(l3[2], &v) != 1) { pg_lists_free(l3); return 0; } } return 1; }
void* pg_init(void* mem, i64 nv, void** l3) { return graph_init(mem, (index_t)nv, l3[0], l3[1], l3[2]); }
size_t pg_sizeof(void) { return sizeof(UndirectedGraph); }
i64 pg_nv(void* g) { return (i64)G->numVertices; } i64 pg_m(void* g) { size_t n = G->edgeWeights->size; return G->verticesA->size == n && G->verticesB->size == n ? (i64)n : -1; }
void pg_edge(void* g, i64 e, i64* a, i64* b, double* w) { *a = (i64)((index_t*)G->verticesA->data)[e]; *b = (i64)((index_t*)G->verticesB->data)[e]; *w = ((distance_t*)G->edgeWeights->data)[e]; }
i64 pg_adj(void* g, i64 v, i64* out, i64 cap) { ArrayList* l = G->edges[v]; i64 n = (i64)l->size; for (i64 i = 0; i < n && i < cap; i++) out[i] = (i64)((index_t*)l->data)[i]; return n; }
void pg_sort(void* g) { graph_quicksort_by_edge_weight(G); } void pg_sort2(void* g, i64 s, i64 e) { graph_quicksort(G, s, e); } void pg_remove(void* g, i64 a, i64 b) { graph_remove_edge(G, (index_t)a, (index_t)b); }
void pg_print(void* g) { graph_print(G); } void pg_clean(void* g) { graph_clean(G); } void pg_destroy(void* g) { graph_destroy(G); }
void px_null(void) { hdbscan_destroy(NULL); distance_destroy(NULL); graph_destroy(NULL); graph_clean(NULL); cluster_destroy(NULL); constraint_destroy(NULL); array_list_delete(NULL); set_delete(NULL); hdbscan_destroy_hierarchical_entry(NULL); }
extern constraint* constraint_create(constraint* c, int pointA, int pointB, CONSTRAINT_TYPE type);
int px_cons(i64 n) { /* a clustering object that holds constraints; 1 done, 0 something refused, -1 a constraint is wrong */
  hdbscan* sc = hdbscan_init(NULL, 4); int r = 1; if (!sc) return 0; sc->constraints = ptr_array_list_init((size_t)(n ? n : 1), ptr_compare); if (!sc->constraints) r = 0;
  for (i64 i = 0; r == 1 && i < n; i++) { constraint* c = constraint_create(NULL, (int)i, (int)(i * 7 + 1), (CONSTRAINT_TYPE)(i % 3)); if (c && i % 2) { constraint* d = constraint_create(c, (int)i, (int)(i * 7 + 1), (CONSTRAINT_TYPE)((i + 1) % 3)); if (d != c || c->type != (CONSTRAINT_TYPE)((i + 1) % 3)) r = -1; d = constraint_create(c, (int)i, (int)(i * 7 + 1), (CONSTRAINT_TYPE)(i % 3)); if (d != c) r = -1; } if (!c) r = 0; else if (c->pointA != (int)i || c->pointB != (int)(i * 7 + 1) || c->type != (CONSTRAINT_TYPE)(i % 3)) r = -1; if (c && array_list_append(sc->constraints, &c) != 1) { constraint_destroy(c); r = 0; } }
  hdbscan_destroy(sc); return r; }
extern outlier_score* create_outlier_score(outlier_score*, distance_t, distance_t, index_t); extern void destroy_outlier_score(outlier_score*);
int px_cmp(int t, i64 a, i64 b, double x, double y, int by_ptr) { /* comparing values of a type, or two pointers to such values */
#define CMPT(T, f, A, B) { T u[2]; u[0] = (T)(A); u[1] = (T)(B); T *pu = u, *pv = u + 1; return by_ptr ? f##_ptr_compare(&pu, &pv) : f##_compare(pu, pv); }
  switch (t) { case 0: CMPT(int32_t, int, a, b) case 1: CMPT(double, double, x, y) case 2: CMPT(short, short, a, b) case 3: CMPT(long, long, a, b) case 4: CMPT(float, float, x, y) case 5: CMPT(signed char, char, a, b) }
  { char m[4]; void* u = m + (a & 3); void* v = m + (b & 3); return ptr_compare(&u, &v); } }
int px_ocmp(const double* v, int* out) { /* score core id, twice; 0 refused, -1 wrong members */
  outlier_score* a = create_outlier_score(NULL, (distance_t)v[0], (distance_t)v[1], (index_t)v[2]); outlier_score b; if (!a) return 0; create_outlier_score(&b, (distance_t)v[3], (distance_t)v[4], (index_t)v[5]);
  int r = a->score == (distance_t)v[0] && a->coreDistance == (distance_t)v[1] && a->id == (index_t)v[2] && b.score == (distance_t)v[3] && b.coreDistance == (distance_t)v[4] && b.id == (index_t)v[5] ? 1 : -1;
  out[0] = outlier_score_compare(a, &b); out[1] = outlier_score_compare(&b, a); out[2] = outlier_score_compare(a, a); destroy_outlier_score(a); return r; }
void* pc_init(void* mem, i64 label, void* parent, double birth, i64 n) { return cluster_init(mem, (label_t)label, parent, (distance_t)birth, (index_t)n); }
size_t pc_sizeof(void) { return sizeof(cluster); } void pc_destroy(void* c) { cluster_destroy(CC); }
void pc_free_parts(void* c) { if (CC->virtualChildCluster) set_delete(CC->virtualChildCluster); if (CC->propagatedDescendants) array_list_delete(CC->propagatedDescendants); }
int pc_detach(void* c, i64 n, double level) { return cluster_detach_points(CC, (index_t)n, (distance_t)level); } int pc_propagate(void* c) { return cluster_propagate(CC); }
void pc_get(void* c, drv_cl* o, i64* ncons, i64* pcons, void** parent) { memset(o, 0, sizeof *o); o->label = (i64)CC->label; o->npoints = (i64)CC->numPoints; o->offset = CC->offset; o->birth = CC->birthLevel; o->death = CC->deathLevel; o->stability = CC->stability; o->pstab = CC->propagatedStability; o->plow = CC->propagatedLowestChildDeathLevel; o->kids = CC->hasChildren; *ncons = (i64)CC->numConstraintsSatisfied; *pcons = (i64)CC->propagatedNumConstraintsSatisfied; *parent = CC->parent; }
i64 pc_desc(void* c, void** out, i64 cap) { ArrayList* l = CC->propagatedDescendants; for (i64 i = 0; i < (i64)l->size && i < cap; i++) out[i] = ((cluster**)l->data)[i]; return (i64)l->size; }
int pc_vadd(void* c, void* set) { return cluster_add_points_to_virtual_child_cluster(CC, set); } int pc_vhas(void* c, i64 p) { return cluster_virtual_child_contains_point(CC, (index_t)p); } i64 pc_vsize(void* c) { return CC->virtualChildCluster ? (i64)CC->virtualChildCluster->size : -1; }
void pc_vcon(void* c, i64 n) { cluster_add_virtual_child_constraints_satisfied(CC, (index_t)n); } void pc_con(void* c, i64 n) { cluster_add_constraints_satisfied(CC, (index_t)n); } void pc_release(void* c) { cluster_release_virtual_child(CC); } int pc_compare(void* a, void* b) { return cluster_compare(a, b); }
void* pi_set(i64 n, const i64* v) { set_t* s = set_init(sizeof(index_t), sizeof(index_t) == 4 ? int_compare : sizeof(index_t) == 8 ? long_compare : short_compare); for (i64 i = 0; s && i < n; i++) { index_t x = (index_t)v[i]; set_insert(s, &x); } return s; }
