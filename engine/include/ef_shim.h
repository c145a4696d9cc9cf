/* Declarations the analysed code needs and the installed libraries do not have. Only parsed, never run. */
#ifndef EF_SHIM_H
#define EF_SHIM_H
#ifdef __cplusplus
#include <cassert>
#include <functional>
#include <p4est.h>
#include <p4est_extended.h>
#include <p4est_search.h>
#ifndef EF_NO_P4EST_SHIM
extern "C" void p4est_search_reorder(p4est_t *p4est, int skip_levels, sc_array_t *points_in_order,
    p4est_search_local_t pre_quadrant_fn, p4est_search_local_t post_quadrant_fn,
    p4est_search_local_t point_fn, sc_array_t *points);
#endif
#endif
#endif
