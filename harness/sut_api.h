/* Flat view of the system under test used by the harness. drv.c (plain C, public headers of the
 * repository) and client.cpp (C++ interface, inside the simulated object) implement it. */
#pragma once
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef long long i64;
/* types */
int drv_label_size(void); int drv_index_size(void); int drv_distance_size(void); int drv_debug(void); int drv_label_signed_ok(void);
double drv_dmax(void); double drv_dmin(void);
/* objects */
void* drv_init(i64 minpts); void* drv_init_at(void* mem, i64 minpts); size_t drv_sizeof(void);
int drv_run(void* s, void* data, i64 rows, i64 cols, int rowwise, int type);
int drv_steps_begin(void* s, void* data, i64 rows, i64 cols, int rowwise, int type, int flags); int drv_steps(void* s, void* data, i64 rows, i64 cols, int rowwise, int type, int flags); int drv_self_edges(void* s, int on); void cpp_steps(void* s, void* data, i64 rows, i64 cols, int rowwise, int type, int flags);
int drv_rerun(void* s, i64 minpts); void drv_clean(void* s); void drv_destroy(void* s);
i64 drv_n(void* s); i64 drv_minpts(void* s); int drv_has_result(void* s); int drv_is_empty(void* s);
double drv_core(void* s, i64 i); double drv_dist(void* s, i64 i, i64 j); i64 drv_label(void* s, i64 i);
void drv_outlier(void* s, i64 i, i64* id, double* score, double* core);
i64 drv_levels(void* s); int drv_level(void* s, i64 ix, i64* key, double* w); i64 drv_level_label(void* s, i64 key, i64 i);
i64 drv_clusters(void* s);
typedef struct { int null; i64 label, parent, npoints, offset; double birth, death, stability, pstab, plow; int kids; } drv_cl;
void drv_cluster(void* s, i64 ix, drv_cl* c);
int drv_has_mst(void* s); i64 drv_edges(void* s); void drv_edge(void* s, i64 e, i64* a, i64* b, double* w); i64 drv_adj(void* s, i64 v, i64* out, i64 cap);
/* building the tree alone */
int drv_mst_only(void* s, void* data, i64 rows, i64 cols, int type);
void drv_mst_sort(void* s);
/* post-processing, C */
void* drv_labels_ptr(void* s);
void* drv_map(void* labels, i64 b, i64 e); void drv_map_free(void* m); i64 drv_map_size(void* m); i64 drv_map_key(void* m, i64 i); i64 drv_map_list(void* m, i64 key, i64* out, i64 cap); int drv_map_ordered(void* m);
void* drv_minmax(void* s, void* m); void drv_minmax_free(void* d); i64 drv_mm_size(void* d); i64 drv_mm_key(void* d, i64 i); int drv_mm_get(void* d, i64 key, double v[6]); int drv_mm_set(void* d, i64 key, const double v[6]);
void* drv_mm_make(i64 n, const i64* keys, const double* v6);
void* drv_stats_new(void); void drv_stats_free(void* st); void drv_stats(void* d, void* st); void drv_stats_get(void* st, i64* count, double v[12]); void drv_stats_set(void* st, i64 count, const double v[12]); int drv_analyse(void* st);
void* drv_list_new(i64 n, const i64* keys); void drv_list_free(void* l); int drv_list_usable(void* l, int sorted); int drv_map_usable(void* m); i64 drv_list_size(void* l); i64 drv_list_at(void* l, i64 i);
void* drv_sort_sim(void* d, void* l, int type); void* drv_sort_len(void* m, void* l);
void drv_print(void* s, int what, void* m, void* d, void* st); /* 0 map,1 sizes,2 distance map,3 stats,4 hierarchy stdout,5 outliers,6 graph,7 distances */
void drv_export(void* s, char* name); void* drv_hier_make(i64 levels, i64 n, const i64* keys, const double* w, const i64* labels); void drv_hier_free(void* h); void drv_hier_export(void* h, i64 n, char* name); i64 drv_hier_levels(void* h); int drv_hier_level(void* h, i64 ix, i64* key, double* w, i64* labels, i64 n);
/* C++ */
void* cpp_new(i64 minpts); void cpp_delete(void* s); void cpp_run(void* s, void* data, i64 rows, i64 cols, int rowwise, int type); void cpp_rerun(void* s, i64 minpts); void cpp_clean(void* s);
void* cpp_map(void* labels, i64 b, i64 e); void cpp_map_free(void* m); i64 cpp_map_size(void* m); i64 cpp_map_key(void* m, i64 i); i64 cpp_map_list(void* m, i64 key, i64* out, i64 cap);
void* cpp_minmax(void* s, void* m); void cpp_minmax_free(void* d); i64 cpp_mm_size(void* d); i64 cpp_mm_key(void* d, i64 i); int cpp_mm_get(void* d, i64 key, double v[6]); void* cpp_mm_make(i64 n, const i64* keys, const double* v6);
int cpp_stats(void* d, void* st); /* 0: memory ran out */ int cpp_analyse(void* st);
void* cpp_list_new(i64 n, const i64* keys); void cpp_list_free(void* l); i64 cpp_list_size(void* l); i64 cpp_list_at(void* l, i64 i);
int cpp_sort_sim(void* d, void* l, int type); int cpp_sort_len(void* m, void* l);
void cpp_print(int what, void* m, void* d, void* st);
/* the C++ view of what an object holds */
i64 cpp_edges(void* s); void cpp_edge(void* s, i64 e, i64* a, i64* b, double* w); void cpp_outlier(void* s, i64 i, i64* id, double* score, double* core); i64 cpp_clusters(void* s); void cpp_cluster(void* s, i64 ix, drv_cl* c);
/* distance tables on their own */
void* pd_new(int type); void* pd_new_at(void* mem, int type); size_t pd_sizeof(void); void pd_compute(void* d, void* data, i64 rows, i64 cols, i64 k); void pd_core(void* d, i64 k); double pd_get(void* d, i64 i, i64 j); double pd_corev(void* d, i64 i); int pd_has(void* d); void pd_clean(void* d); void pd_destroy(void* d); void pd_print(void* d);
void* cpp_dist_new(int ctor, int type); void cpp_dist_delete(void* d); void cpp_dist_core(void* d, i64 k);
/* graphs on their own; l3 = lists of first vertices, second vertices, weights */
void px_null(void); int px_cons(i64 n); int px_ocmp(const double* v, int* out); int px_cmp(int t, i64 a, i64 b, double x, double y, int by_ptr); int pg_lists(i64 m, const i64* a, const i64* b, const double* w, void** l3); void pg_lists_free(void** l3); void* pg_init(void* mem, i64 nv, void** l3); size_t pg_sizeof(void); i64 pg_nv(void* g); i64 pg_m(void* g); void pg_edge(void* g, i64 e, i64* a, i64* b, double* w); i64 pg_adj(void* g, i64 v, i64* out, i64 cap); void pg_sort(void* g); void pg_sort2(void* g, i64 s, i64 e); void pg_remove(void* g, i64 a, i64 b); void pg_print(void* g); void pg_clean(void* g); void pg_destroy(void* g);
void* cpp_graph_new(void); void cpp_graph_delete(void* g); size_t cpp_graph_sizeof(void); i64 cpp_graph_nv(void* g); i64 cpp_graph_m(void* g); void cpp_graph_edge(void* g, i64 e, i64* a, i64* b, double* w);
/* clusters on their own */
void* pc_init(void* mem, i64 label, void* parent, double birth, i64 n); size_t pc_sizeof(void); void pc_destroy(void* c); void pc_free_parts(void* c); int pc_detach(void* c, i64 n, double level); int pc_propagate(void* c); void pc_get(void* c, drv_cl* o, i64* ncons, i64* pcons, void** parent); i64 pc_desc(void* c, void** out, i64 cap); int pc_vadd(void* c, void* set); int pc_vhas(void* c, i64 p); i64 pc_vsize(void* c); void pc_vcon(void* c, i64 n); void pc_con(void* c, i64 n); void pc_release(void* c); int pc_compare(void* a, void* b);
void* pi_set(i64 n, const i64* v); 
/* containers; element types are HTYPES values 0 int 1 double 2 float 3 long 4 short 5 char */
size_t ct_size(int type);
void* ct_al_new(size_t cap, int type); void ct_al_del(void* l); size_t ct_al_size(void* l);
int ct_al_value_at(void* l, size_t p, void* d); int ct_al_replace(void* l, void* d, size_t p); int ct_al_append(void* l, void* d); int ct_al_insert(void* l, void* d, size_t p);
i64 ct_al_find(void* l, void* d, int sorted); void ct_al_clear(void* l, int r); int ct_al_remove_at(void* l, size_t p, void* d); int ct_al_remove(void* l, void* d); void ct_al_sort(void* l); int ct_al_pop(void* l, void* d); int ct_al_empty(void* l); int ct_al_grow(void* l); size_t ct_al_max(void* l);
void* ct_set_new(int type); void ct_set_del(void* l); size_t ct_set_size(void* l); int ct_set_insert(void* l, void* d); int ct_set_remove(void* l, void* d); i64 ct_set_find(void* l, void* d); int ct_set_value_at(void* l, size_t p, void* d); int ct_set_remove_at(void* l, size_t p, void* d); void ct_set_clear(void* l); int ct_set_empty(void* l);
void* ct_ht_new(i64 buckets, int kt, int dt, int exact); int ct_ht_destroy(void* h, int destroy_values); int ct_ht_clear(void* h, int destroy_values); int ct_ht_insert(void* h, void* k, void* v); int ct_ht_lookup(void* h, void* k, void* v); int ct_ht_remove(void* h, void* k, void* v); size_t ct_ht_size(void* h); size_t ct_ht_entries(void* h); int ct_ht_empty(void* h); i64 ct_ht_nkeys(void* h); int ct_ht_key_at(void* h, i64 i, void* k);
void* ct_str_new(const char* text, i64 n); void* ct_val_new(void);           /* a heap value owned by a table of pointers */
void ct_val_free(void*);
void* ct_ll_new(int type); void ct_ll_del(void* l); void ct_ll_clear(void* l); int ct_ll_size(void* l); int ct_ll_front(void* l, void* d); int ct_ll_tail(void* l, void* d); void* ct_ll_lookup(void* l, void* d, int rm, int type); int ct_ll_remove(void* l, void* d, int type); void* ct_ll_head(void* l); void* ct_ll_tailp(void* l); int ct_ll_value_at(void* l, int p, void* d); int ct_ll_empty(void* l); i64 ct_ll_walk(void* l, int back, void* out, i64 cap, int type); void ct_ll_free_detached(void* data);
/* logger */
void lg_init(void); void lg_write(int type, const char* s); void lg_close(void);
i64 h_hash(int type, void* k, i64 buckets); int h_prime(int n);
#ifdef __cplusplus
}
#endif
