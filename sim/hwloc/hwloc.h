/* Stand-in for hwloc: the simulator's machine (sim/hwstub.c) behind the part of the hwloc interface that Lace uses. */
#ifndef HWLOC_H
#define HWLOC_H
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef struct hwloc_topology *hwloc_topology_t;
typedef struct hwloc_bitmap_s *hwloc_bitmap_t, *hwloc_cpuset_t, *hwloc_nodeset_t;
typedef const struct hwloc_bitmap_s *hwloc_const_bitmap_t;
typedef enum { HWLOC_OBJ_MACHINE, HWLOC_OBJ_PACKAGE, HWLOC_OBJ_CORE, HWLOC_OBJ_PU, HWLOC_OBJ_NUMANODE } hwloc_obj_type_t;
#define HWLOC_OBJ_SOCKET HWLOC_OBJ_PACKAGE
enum { HWLOC_TYPE_DEPTH_UNKNOWN = -1, HWLOC_TYPE_DEPTH_MULTIPLE = -2, HWLOC_TYPE_DEPTH_NUMANODE = -3 };
#define HWLOC_OBJ_NODE HWLOC_OBJ_NUMANODE
typedef struct hwloc_obj { hwloc_obj_type_t type; unsigned os_index, logical_index, arity; struct hwloc_obj **children, *parent, *next_cousin, *first_child, *next_sibling, *memory_first_child; int depth; unsigned memory_arity; hwloc_cpuset_t cpuset, complete_cpuset; hwloc_nodeset_t nodeset, complete_nodeset; } *hwloc_obj_t;
enum { HWLOC_CPUBIND_PROCESS=1, HWLOC_CPUBIND_THREAD=2, HWLOC_CPUBIND_STRICT=4, HWLOC_CPUBIND_NOMEMBIND=8 };
typedef enum { HWLOC_MEMBIND_DEFAULT, HWLOC_MEMBIND_FIRSTTOUCH, HWLOC_MEMBIND_BIND, HWLOC_MEMBIND_INTERLEAVE } hwloc_membind_policy_t;
typedef enum { HWLOC_MEMBIND_PROCESS=1, HWLOC_MEMBIND_THREAD=2, HWLOC_MEMBIND_STRICT=4, HWLOC_MEMBIND_MIGRATE=8, HWLOC_MEMBIND_NOCPUBIND=16, HWLOC_MEMBIND_BYNODESET=32 } hwloc_membind_flags_t;
int hwloc_topology_init(hwloc_topology_t *); int hwloc_topology_load(hwloc_topology_t); void hwloc_topology_destroy(hwloc_topology_t);
int hwloc_get_nbobjs_by_type(hwloc_topology_t, hwloc_obj_type_t); hwloc_obj_t hwloc_get_obj_by_type(hwloc_topology_t, hwloc_obj_type_t, unsigned);
hwloc_bitmap_t hwloc_bitmap_alloc(void); hwloc_bitmap_t hwloc_bitmap_dup(hwloc_const_bitmap_t); void hwloc_bitmap_free(hwloc_bitmap_t);
int hwloc_bitmap_next(hwloc_const_bitmap_t, int); int hwloc_bitmap_first(hwloc_const_bitmap_t); int hwloc_bitmap_weight(hwloc_const_bitmap_t);
void hwloc_bitmap_only(hwloc_bitmap_t, unsigned); void hwloc_bitmap_singlify(hwloc_bitmap_t); int hwloc_bitmap_isset(hwloc_const_bitmap_t, unsigned); void hwloc_bitmap_set(hwloc_bitmap_t, unsigned); void hwloc_bitmap_zero(hwloc_bitmap_t);
int hwloc_bitmap_isincluded(hwloc_const_bitmap_t, hwloc_const_bitmap_t); int hwloc_bitmap_iszero(hwloc_const_bitmap_t); int hwloc_bitmap_list_asprintf(char **, hwloc_const_bitmap_t);
int hwloc_set_cpubind(hwloc_topology_t, hwloc_const_bitmap_t, int); int hwloc_get_cpubind(hwloc_topology_t, hwloc_bitmap_t, int);
void hwloc_cpuset_to_nodeset(hwloc_topology_t, hwloc_const_bitmap_t, hwloc_nodeset_t);
int hwloc_set_area_membind(hwloc_topology_t, const void *, size_t, hwloc_const_bitmap_t, hwloc_membind_policy_t, int);
int hwloc_set_area_membind_nodeset(hwloc_topology_t, const void *, size_t, hwloc_const_bitmap_t, hwloc_membind_policy_t, int);
int hwloc_get_area_membind_nodeset(hwloc_topology_t, const void *, size_t, hwloc_bitmap_t, hwloc_membind_policy_t *, int);
int hwloc_get_area_memlocation(hwloc_topology_t, const void *, size_t, hwloc_bitmap_t, int);
unsigned hwloc_get_api_version(void);
int hwloc_topology_get_depth(hwloc_topology_t); int hwloc_get_type_depth(hwloc_topology_t, hwloc_obj_type_t); hwloc_obj_type_t hwloc_get_depth_type(hwloc_topology_t, int);
unsigned hwloc_get_nbobjs_by_depth(hwloc_topology_t, int); hwloc_obj_t hwloc_get_obj_by_depth(hwloc_topology_t, int, unsigned);
hwloc_obj_t hwloc_get_root_obj(hwloc_topology_t); hwloc_obj_t hwloc_get_next_obj_by_type(hwloc_topology_t, hwloc_obj_type_t, hwloc_obj_t);
hwloc_obj_t hwloc_get_pu_obj_by_os_index(hwloc_topology_t, unsigned); hwloc_obj_t hwloc_get_numanode_obj_by_os_index(hwloc_topology_t, unsigned);
hwloc_obj_t hwloc_get_ancestor_obj_by_type(hwloc_topology_t, hwloc_obj_type_t, hwloc_obj_t);
int hwloc_get_nbobjs_inside_cpuset_by_type(hwloc_topology_t, hwloc_const_bitmap_t, hwloc_obj_type_t); hwloc_obj_t hwloc_get_obj_inside_cpuset_by_type(hwloc_topology_t, hwloc_const_bitmap_t, hwloc_obj_type_t, unsigned);
hwloc_const_bitmap_t hwloc_topology_get_topology_cpuset(hwloc_topology_t); hwloc_const_bitmap_t hwloc_topology_get_allowed_cpuset(hwloc_topology_t); hwloc_const_bitmap_t hwloc_topology_get_complete_cpuset(hwloc_topology_t); hwloc_const_bitmap_t hwloc_topology_get_topology_nodeset(hwloc_topology_t);
int hwloc_topology_set_flags(hwloc_topology_t, unsigned long);
hwloc_bitmap_t hwloc_bitmap_alloc_full(void); int hwloc_bitmap_copy(hwloc_bitmap_t, hwloc_const_bitmap_t); int hwloc_bitmap_last(hwloc_const_bitmap_t); void hwloc_bitmap_fill(hwloc_bitmap_t); int hwloc_bitmap_set_range(hwloc_bitmap_t, unsigned, int);
void hwloc_bitmap_clr(hwloc_bitmap_t, unsigned); void hwloc_bitmap_and(hwloc_bitmap_t, hwloc_const_bitmap_t, hwloc_const_bitmap_t); void hwloc_bitmap_or(hwloc_bitmap_t, hwloc_const_bitmap_t, hwloc_const_bitmap_t); void hwloc_bitmap_andnot(hwloc_bitmap_t, hwloc_const_bitmap_t, hwloc_const_bitmap_t); void hwloc_bitmap_xor(hwloc_bitmap_t, hwloc_const_bitmap_t, hwloc_const_bitmap_t);
int hwloc_bitmap_isequal(hwloc_const_bitmap_t, hwloc_const_bitmap_t); int hwloc_bitmap_intersects(hwloc_const_bitmap_t, hwloc_const_bitmap_t); int hwloc_bitmap_isfull(hwloc_const_bitmap_t); unsigned long hwloc_bitmap_to_ulong(hwloc_const_bitmap_t);
int hwloc_bitmap_asprintf(char **, hwloc_const_bitmap_t); int hwloc_bitmap_snprintf(char *, size_t, hwloc_const_bitmap_t); int hwloc_bitmap_list_snprintf(char *, size_t, hwloc_const_bitmap_t);
void hwloc_cpuset_from_nodeset(hwloc_topology_t, hwloc_cpuset_t, hwloc_const_bitmap_t);
int hwloc_set_thread_cpubind(hwloc_topology_t, unsigned long, hwloc_const_bitmap_t, int); int hwloc_get_last_cpu_location(hwloc_topology_t, hwloc_bitmap_t, int);
int hwloc_get_area_membind(hwloc_topology_t, const void *, size_t, hwloc_bitmap_t, hwloc_membind_policy_t *, int);
#define hwloc_bitmap_foreach_begin(id, b) do { for (id = hwloc_bitmap_first(b); (unsigned)id != (unsigned)-1; id = hwloc_bitmap_next(b, id)) {
#define hwloc_bitmap_foreach_end() } } while (0)
#ifdef __cplusplus
}
#endif
#endif
