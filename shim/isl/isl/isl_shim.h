// Declarations of the part of the isl C interface that daisytuner/docc uses (the library itself is installed, its headers
// are not).
#pragma once
#include <stdio.h>
#include <stdlib.h>
#ifdef __cplusplus
extern "C" {
#endif
#define __isl_give
#define __isl_take
#define __isl_keep
#define __isl_null
typedef int isl_size;
typedef enum { isl_stat_error = -1, isl_stat_ok = 0 } isl_stat;
typedef enum { isl_bool_error = -1, isl_bool_false = 0, isl_bool_true = 1 } isl_bool;
enum isl_dim_type { isl_dim_cst, isl_dim_param, isl_dim_in, isl_dim_out, isl_dim_set = isl_dim_out, isl_dim_div, isl_dim_all };
enum isl_ast_expr_op_type { isl_ast_expr_op_error = -1, isl_ast_expr_op_and, isl_ast_expr_op_and_then, isl_ast_expr_op_or, isl_ast_expr_op_or_else,
    isl_ast_expr_op_max, isl_ast_expr_op_min, isl_ast_expr_op_minus, isl_ast_expr_op_add, isl_ast_expr_op_sub, isl_ast_expr_op_mul, isl_ast_expr_op_div,
    isl_ast_expr_op_fdiv_q, isl_ast_expr_op_pdiv_q, isl_ast_expr_op_pdiv_r, isl_ast_expr_op_zdiv_r, isl_ast_expr_op_cond, isl_ast_expr_op_select,
    isl_ast_expr_op_eq, isl_ast_expr_op_le, isl_ast_expr_op_lt, isl_ast_expr_op_ge, isl_ast_expr_op_gt, isl_ast_expr_op_call, isl_ast_expr_op_access,
    isl_ast_expr_op_member, isl_ast_expr_op_address_of };
#define isl_ast_op_type isl_ast_expr_op_type
#define isl_ast_op_error isl_ast_expr_op_error
#define isl_ast_op_and isl_ast_expr_op_and
#define isl_ast_op_and_then isl_ast_expr_op_and_then
#define isl_ast_op_or isl_ast_expr_op_or
#define isl_ast_op_or_else isl_ast_expr_op_or_else
#define isl_ast_op_max isl_ast_expr_op_max
#define isl_ast_op_min isl_ast_expr_op_min
#define isl_ast_op_minus isl_ast_expr_op_minus
#define isl_ast_op_add isl_ast_expr_op_add
#define isl_ast_op_sub isl_ast_expr_op_sub
#define isl_ast_op_mul isl_ast_expr_op_mul
#define isl_ast_op_div isl_ast_expr_op_div
#define isl_ast_op_fdiv_q isl_ast_expr_op_fdiv_q
#define isl_ast_op_pdiv_q isl_ast_expr_op_pdiv_q
#define isl_ast_op_pdiv_r isl_ast_expr_op_pdiv_r
#define isl_ast_op_zdiv_r isl_ast_expr_op_zdiv_r
#define isl_ast_op_cond isl_ast_expr_op_cond
#define isl_ast_op_select isl_ast_expr_op_select
#define isl_ast_op_eq isl_ast_expr_op_eq
#define isl_ast_op_le isl_ast_expr_op_le
#define isl_ast_op_lt isl_ast_expr_op_lt
#define isl_ast_op_ge isl_ast_expr_op_ge
#define isl_ast_op_gt isl_ast_expr_op_gt
#define isl_ast_op_call isl_ast_expr_op_call
#define isl_ast_op_access isl_ast_expr_op_access
#define isl_ast_op_member isl_ast_expr_op_member
#define isl_ast_op_address_of isl_ast_expr_op_address_of
enum isl_ast_expr_type { isl_ast_expr_error = -1, isl_ast_expr_op, isl_ast_expr_id, isl_ast_expr_int };
enum isl_ast_node_type { isl_ast_node_error = -1, isl_ast_node_for = 1, isl_ast_node_if, isl_ast_node_block, isl_ast_node_mark, isl_ast_node_user };
enum isl_schedule_node_type { isl_schedule_node_error = -1, isl_schedule_node_band, isl_schedule_node_context, isl_schedule_node_domain,
    isl_schedule_node_expansion, isl_schedule_node_extension, isl_schedule_node_filter, isl_schedule_node_leaf, isl_schedule_node_guard,
    isl_schedule_node_mark, isl_schedule_node_sequence, isl_schedule_node_set };
#define ISL_ON_ERROR_WARN 0
#define ISL_ON_ERROR_CONTINUE 1
#define ISL_ON_ERROR_ABORT 2
typedef struct isl_ast_build isl_ast_build;
typedef struct isl_ast_expr isl_ast_expr;
typedef struct isl_ast_node isl_ast_node;
typedef struct isl_ast_node_list isl_ast_node_list;
typedef struct isl_basic_map isl_basic_map;
typedef struct isl_basic_set isl_basic_set;
typedef struct isl_constraint isl_constraint;
typedef struct isl_ctx isl_ctx;
typedef struct isl_id isl_id;
typedef struct isl_local_space isl_local_space;
typedef struct isl_map isl_map;
typedef struct isl_map_list isl_map_list;
typedef struct isl_multi_aff isl_multi_aff;
typedef struct isl_multi_pw_aff isl_multi_pw_aff;
typedef struct isl_multi_union_pw_aff isl_multi_union_pw_aff;
typedef struct isl_multi_val isl_multi_val;
typedef struct isl_point isl_point;
typedef struct isl_printer isl_printer;
typedef struct isl_pw_aff isl_pw_aff;
typedef struct isl_aff isl_aff;
typedef struct isl_pw_multi_aff isl_pw_multi_aff;
typedef struct isl_schedule isl_schedule;
typedef struct isl_schedule_constraints isl_schedule_constraints;
typedef struct isl_schedule_node isl_schedule_node;
typedef struct isl_set isl_set;
typedef struct isl_space isl_space;
typedef struct isl_union_access_info isl_union_access_info;
typedef struct isl_union_flow isl_union_flow;
typedef struct isl_union_map isl_union_map;
typedef struct isl_union_pw_multi_aff isl_union_pw_multi_aff;
typedef struct isl_union_set isl_union_set;
typedef struct isl_val isl_val;
typedef struct isl_options isl_options;

isl_ctx *isl_ctx_alloc(void); void isl_ctx_free(isl_ctx*);
isl_ast_build *isl_ast_build_alloc(isl_ctx*); isl_ast_build *isl_ast_build_free(isl_ast_build*);
isl_union_map *isl_ast_build_get_schedule(isl_ast_build*);
isl_ast_node *isl_ast_build_node_from_schedule(isl_ast_build*, isl_schedule*);
isl_ast_build *isl_ast_build_set_after_each_for(isl_ast_build*, isl_ast_node *(*fn)(isl_ast_node*, isl_ast_build*, void*), void*);
isl_ast_expr *isl_ast_expr_free(isl_ast_expr*); isl_id *isl_ast_expr_get_id(isl_ast_expr*);
isl_ast_expr *isl_ast_expr_get_op_arg(isl_ast_expr*, int); isl_size isl_ast_expr_get_op_n_arg(isl_ast_expr*);
enum isl_ast_expr_op_type isl_ast_expr_get_op_type(isl_ast_expr*); enum isl_ast_expr_type isl_ast_expr_get_type(isl_ast_expr*);
isl_val *isl_ast_expr_get_val(isl_ast_expr*);
isl_ast_node_list *isl_ast_node_block_get_children(isl_ast_node*); isl_ast_node *isl_ast_node_for_get_body(isl_ast_node*);
isl_ast_expr *isl_ast_node_for_get_cond(isl_ast_node*); isl_ast_expr *isl_ast_node_for_get_inc(isl_ast_node*);
isl_ast_expr *isl_ast_node_for_get_init(isl_ast_node*); isl_ast_expr *isl_ast_node_for_get_iterator(isl_ast_node*);
char *isl_ast_node_to_C_str(isl_ast_node*); isl_ast_node *isl_ast_node_free(isl_ast_node*); isl_id *isl_ast_node_get_annotation(isl_ast_node*); isl_ctx *isl_ast_node_get_ctx(isl_ast_node*);
enum isl_ast_node_type isl_ast_node_get_type(isl_ast_node*); isl_ast_expr *isl_ast_node_if_get_cond(isl_ast_node*);
isl_ast_node *isl_ast_node_if_get_else(isl_ast_node*); isl_ast_node *isl_ast_node_if_get_then(isl_ast_node*);
isl_bool isl_ast_node_if_has_else(isl_ast_node*);
isl_ast_node_list *isl_ast_node_list_free(isl_ast_node_list*); isl_ast_node *isl_ast_node_list_get_ast_node(isl_ast_node_list*, int);
isl_size isl_ast_node_list_n_ast_node(isl_ast_node_list*); isl_ast_node *isl_ast_node_mark_get_node(isl_ast_node*);
isl_ast_node *isl_ast_node_set_annotation(isl_ast_node*, isl_id*); isl_ast_expr *isl_ast_node_user_get_expr(isl_ast_node*);
isl_basic_map *isl_basic_map_from_constraint(isl_constraint*);
isl_constraint *isl_constraint_alloc_equality(isl_local_space*); isl_constraint *isl_equality_alloc(isl_local_space*);
isl_constraint *isl_constraint_set_coefficient_si(isl_constraint*, enum isl_dim_type, int, int);
isl_constraint *isl_constraint_set_constant_si(isl_constraint*, int);
isl_id *isl_id_alloc(isl_ctx*, const char*, void*); isl_id *isl_id_copy(isl_id*); isl_id *isl_id_free(isl_id*); const char *isl_id_get_name(isl_id*);
void *isl_id_get_user(isl_id*);
isl_local_space *isl_local_space_copy(isl_local_space*); isl_local_space *isl_local_space_free(isl_local_space*); isl_local_space *isl_local_space_from_space(isl_space*);
isl_map *isl_map_add_constraint(isl_map*, isl_constraint*); isl_map *isl_map_add_dims(isl_map*, enum isl_dim_type, unsigned);
isl_map *isl_map_align_params(isl_map*, isl_space*); isl_map *isl_map_apply_domain(isl_map*, isl_map*); isl_map *isl_map_apply_range(isl_map*, isl_map*);
isl_map *isl_map_copy(isl_map*); isl_set *isl_map_deltas(isl_map*); isl_size isl_map_dim(isl_map*, enum isl_dim_type);
isl_set *isl_map_domain(isl_map*); isl_map *isl_map_domain_factor_domain(isl_map*);
isl_map *isl_map_equate(isl_map*, enum isl_dim_type, int, enum isl_dim_type, int); int isl_map_find_dim_by_name(isl_map*, enum isl_dim_type, const char*);
isl_map *isl_map_fix_si(isl_map*, enum isl_dim_type, unsigned, int); isl_map *isl_map_free(isl_map*); isl_map *isl_map_from_basic_map(isl_basic_map*);
isl_map *isl_map_from_domain_and_range(isl_set*, isl_set*); isl_map *isl_map_from_union_map(isl_union_map*);
const char *isl_map_get_dim_name(isl_map*, enum isl_dim_type, unsigned); isl_space *isl_map_get_space(isl_map*); isl_map *isl_map_identity(isl_space*);
isl_map *isl_map_insert_dims(isl_map*, enum isl_dim_type, unsigned, unsigned); isl_map *isl_map_intersect(isl_map*, isl_map*);
isl_map *isl_map_intersect_domain(isl_map*, isl_set*); isl_map *isl_map_intersect_range(isl_map*, isl_set*); isl_bool isl_map_is_empty(isl_map*);
isl_bool isl_map_is_subset(isl_map*, isl_map*); isl_map *isl_map_lex_le_at_multi_pw_aff(isl_map*, isl_multi_pw_aff*);
isl_map_list *isl_map_list_free(isl_map_list*); isl_map *isl_map_list_get_map(isl_map_list*, int); isl_size isl_map_list_n_map(isl_map_list*);
isl_map *isl_map_preimage_domain_multi_aff(isl_map*, isl_multi_aff*); isl_map *isl_map_project_out(isl_map*, enum isl_dim_type, unsigned, unsigned);
isl_set *isl_map_range(isl_map*); isl_map *isl_map_range_factor_domain(isl_map*); isl_map *isl_map_range_map(isl_map*);
isl_map *isl_map_read_from_str(isl_ctx*, const char*); isl_map *isl_map_reverse(isl_map*);
isl_map *isl_map_set_dim_name(isl_map*, enum isl_dim_type, unsigned, const char*); isl_map *isl_map_set_tuple_name(isl_map*, enum isl_dim_type, const char*);
char *isl_map_to_str(isl_map*); isl_map *isl_map_universe(isl_space*); isl_set *isl_map_wrap(isl_map*); isl_map *isl_map_zip(isl_map*);
isl_multi_aff *isl_multi_aff_domain_map(isl_space*); isl_multi_pw_aff *isl_multi_pw_aff_identity_on_domain_space(isl_space*);
isl_multi_union_pw_aff *isl_multi_union_pw_aff_from_union_pw_multi_aff(isl_union_pw_multi_aff*);
isl_multi_val *isl_multi_val_set_val(isl_multi_val*, int, isl_val*); isl_multi_val *isl_multi_val_zero(isl_space*);
isl_stat isl_options_set_on_error(isl_ctx*, int); isl_stat isl_options_set_schedule_max_coefficient(isl_ctx*, int);
isl_stat isl_options_set_schedule_max_constant_term(isl_ctx*, int); isl_stat isl_options_set_schedule_maximize_band_depth(isl_ctx*, int);
isl_stat isl_options_set_schedule_outer_coincidence(isl_ctx*, int); isl_stat isl_options_set_tile_scale_tile_loops(isl_ctx*, int);
isl_point *isl_point_set_coordinate_val(isl_point*, enum isl_dim_type, int, isl_val*); isl_point *isl_point_zero(isl_space*);
isl_pw_aff *isl_pw_aff_coalesce(isl_pw_aff*);
isl_schedule *isl_schedule_constraints_compute_schedule(isl_schedule_constraints*); isl_schedule_constraints *isl_schedule_constraints_on_domain(isl_union_set*);
isl_schedule_constraints *isl_schedule_constraints_set_coincidence(isl_schedule_constraints*, isl_union_map*);
isl_schedule_constraints *isl_schedule_constraints_set_proximity(isl_schedule_constraints*, isl_union_map*);
isl_schedule_constraints *isl_schedule_constraints_set_validity(isl_schedule_constraints*, isl_union_map*);
isl_schedule *isl_schedule_copy(isl_schedule*); isl_schedule *isl_schedule_free(isl_schedule*); isl_schedule *isl_schedule_from_domain(isl_union_set*);
isl_union_map *isl_schedule_get_map(isl_schedule*); isl_schedule_node *isl_schedule_get_root(isl_schedule*);
isl_schedule *isl_schedule_insert_partial_schedule(isl_schedule*, isl_multi_union_pw_aff*);
isl_bool isl_schedule_node_band_get_permutable(isl_schedule_node*); isl_space *isl_schedule_node_band_get_space(isl_schedule_node*);
isl_schedule_node *isl_schedule_node_band_tile(isl_schedule_node*, isl_multi_val*); isl_schedule_node *isl_schedule_node_child(isl_schedule_node*, int);
isl_schedule_node *isl_schedule_node_free(isl_schedule_node*); isl_schedule_node *isl_schedule_node_get_child(isl_schedule_node*, int);
isl_ctx *isl_schedule_node_get_ctx(isl_schedule_node*); isl_schedule *isl_schedule_node_get_schedule(isl_schedule_node*);
enum isl_schedule_node_type isl_schedule_node_get_type(isl_schedule_node*); isl_schedule_node *isl_schedule_node_insert_mark(isl_schedule_node*, isl_id*);
isl_schedule_node *isl_schedule_node_map_descendant_bottom_up(isl_schedule_node*, isl_schedule_node *(*fn)(isl_schedule_node*, void*), void*);
isl_size isl_schedule_node_n_children(isl_schedule_node*); isl_schedule *isl_schedule_pullback_union_pw_multi_aff(isl_schedule*, isl_union_pw_multi_aff*);
isl_set *isl_set_add_constraint(isl_set*, isl_constraint*); isl_set *isl_set_add_dims(isl_set*, enum isl_dim_type, unsigned); isl_set *isl_set_coalesce(isl_set*);
isl_set *isl_set_copy(isl_set*); isl_size isl_set_dim(isl_set*, enum isl_dim_type); isl_pw_aff *isl_set_dim_min(isl_set*, int);
int isl_set_find_dim_by_name(isl_set*, enum isl_dim_type, const char*); isl_set *isl_set_fix_si(isl_set*, enum isl_dim_type, unsigned, int);
isl_set *isl_set_free(isl_set*); isl_set *isl_set_from_point(isl_point*); const char *isl_set_get_dim_name(isl_set*, enum isl_dim_type, unsigned);
isl_space *isl_set_get_space(isl_set*); const char *isl_set_get_tuple_name(isl_set*); isl_set *isl_set_insert_dims(isl_set*, enum isl_dim_type, unsigned, unsigned);
isl_set *isl_set_intersect(isl_set*, isl_set*); isl_bool isl_set_is_disjoint(isl_set*, isl_set*); isl_bool isl_set_is_empty(isl_set*);
isl_bool isl_set_is_subset(isl_set*, isl_set*); isl_set *isl_set_lower_bound_si(isl_set*, enum isl_dim_type, unsigned, int);
isl_set *isl_set_project_out(isl_set*, enum isl_dim_type, unsigned, unsigned); isl_set *isl_set_read_from_str(isl_ctx*, const char*);
isl_set *isl_set_set_dim_name(isl_set*, enum isl_dim_type, unsigned, const char*); isl_set *isl_set_set_tuple_name(isl_set*, const char*);
char *isl_set_to_str(isl_set*); isl_set *isl_set_universe(isl_space*); isl_map *isl_set_unwrap(isl_set*);
isl_space *isl_space_align_params(isl_space*, isl_space*); isl_space *isl_space_copy(isl_space*); isl_size isl_space_dim(isl_space*, enum isl_dim_type);
isl_space *isl_space_domain(isl_space*); isl_space *isl_space_drop_dims(isl_space*, enum isl_dim_type, unsigned, unsigned); isl_space *isl_space_free(isl_space*);
const char *isl_space_get_tuple_name(isl_space*, enum isl_dim_type); isl_bool isl_space_has_tuple_name(isl_space*, enum isl_dim_type);
isl_bool isl_space_is_equal(isl_space*, isl_space*); isl_bool isl_space_is_wrapping(isl_space*); isl_space *isl_space_map_from_set(isl_space*);
isl_space *isl_space_params(isl_space*); isl_space *isl_space_params_alloc(isl_ctx*, unsigned); isl_space *isl_space_range(isl_space*);
isl_space *isl_space_set_alloc(isl_ctx*, unsigned, unsigned); isl_space *isl_space_set_tuple_id(isl_space*, enum isl_dim_type, isl_id*); isl_space *isl_space_unwrap(isl_space*);
isl_union_flow *isl_union_access_info_compute_flow(isl_union_access_info*); isl_union_access_info *isl_union_access_info_from_sink(isl_union_map*);
isl_union_access_info *isl_union_access_info_set_kill(isl_union_access_info*, isl_union_map*);
isl_union_access_info *isl_union_access_info_set_may_source(isl_union_access_info*, isl_union_map*);
isl_union_access_info *isl_union_access_info_set_must_source(isl_union_access_info*, isl_union_map*);
isl_union_access_info *isl_union_access_info_set_schedule(isl_union_access_info*, isl_schedule*);
isl_union_flow *isl_union_flow_free(isl_union_flow*); isl_union_map *isl_union_flow_get_may_dependence(isl_union_flow*); isl_union_map *isl_union_flow_get_must_dependence(isl_union_flow*);
isl_union_map *isl_union_map_add_map(isl_union_map*, isl_map*); isl_union_map *isl_union_map_apply_domain(isl_union_map*, isl_union_map*);
isl_union_map *isl_union_map_apply_range(isl_union_map*, isl_union_map*); isl_union_map *isl_union_map_coalesce(isl_union_map*);
isl_union_map *isl_union_map_copy(isl_union_map*); isl_union_set *isl_union_map_deltas(isl_union_map*); isl_union_map *isl_union_map_detect_equalities(isl_union_map*);
isl_union_set *isl_union_map_domain(isl_union_map*); isl_union_pw_multi_aff *isl_union_map_domain_map_union_pw_multi_aff(isl_union_map*);
isl_union_map *isl_union_map_empty(isl_space*); isl_stat isl_union_map_foreach_map(isl_union_map*, isl_stat (*fn)(isl_map*, void*), void*);
isl_union_map *isl_union_map_free(isl_union_map*); isl_union_map *isl_union_map_from_map(isl_map*); isl_map_list *isl_union_map_get_map_list(isl_union_map*);
isl_space *isl_union_map_get_space(isl_union_map*); isl_union_map *isl_union_map_gist_domain(isl_union_map*, isl_union_set*);
isl_union_map *isl_union_map_gist_range(isl_union_map*, isl_union_set*); isl_union_map *isl_union_map_intersect(isl_union_map*, isl_union_map*);
isl_union_map *isl_union_map_intersect_domain(isl_union_map*, isl_union_set*); isl_union_map *isl_union_map_intersect_params(isl_union_map*, isl_set*);
isl_bool isl_union_map_is_empty(isl_union_map*); isl_bool isl_union_map_is_equal(isl_union_map*, isl_union_map*); isl_bool isl_union_map_is_subset(isl_union_map*, isl_union_map*);
isl_union_map *isl_union_map_read_from_str(isl_ctx*, const char*); isl_union_map *isl_union_map_reverse(isl_union_map*);
isl_union_map *isl_union_map_subtract(isl_union_map*, isl_union_map*); char *isl_union_map_to_str(isl_union_map*);
isl_union_map *isl_union_map_transitive_closure(isl_union_map*, isl_bool*); isl_union_map *isl_union_map_union(isl_union_map*, isl_union_map*);
isl_union_map *isl_union_map_zip(isl_union_map*); isl_union_pw_multi_aff *isl_union_pw_multi_aff_from_union_map(isl_union_map*);
isl_union_pw_multi_aff *isl_union_pw_multi_aff_union_add(isl_union_pw_multi_aff*, isl_union_pw_multi_aff*);
isl_union_set *isl_union_set_add_set(isl_union_set*, isl_set*); isl_union_set *isl_union_set_copy(isl_union_set*); isl_union_set *isl_union_set_empty(isl_space*);
isl_set *isl_union_set_extract_set(isl_union_set*, isl_space*); isl_stat isl_union_set_foreach_set(isl_union_set*, isl_stat (*fn)(isl_set*, void*), void*);
isl_union_set *isl_union_set_free(isl_union_set*); isl_union_set *isl_union_set_from_set(isl_set*); isl_space *isl_union_set_get_space(isl_union_set*);
isl_union_map *isl_union_set_identity(isl_union_set*); isl_union_map *isl_union_set_lex_le_union_set(isl_union_set*, isl_union_set*);
isl_union_set *isl_union_set_union(isl_union_set*, isl_union_set*); isl_union_set *isl_union_set_universe(isl_union_set*); isl_union_map *isl_union_set_unwrap(isl_union_set*);
isl_val *isl_val_free(isl_val*); long isl_val_get_num_si(isl_val*); isl_val *isl_val_int_from_si(isl_ctx*, long);
#ifdef __cplusplus
}
#endif
