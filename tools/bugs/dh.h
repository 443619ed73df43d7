#pragma once
#include <cconfigspace.h>
#include <errno.h>
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#define CHECK(c) do { if (!(c)) { fprintf(stderr, "FAILED line %d: %s\n", __LINE__, #c); exit(1); } } while (0)
#define OK(c) do { ccs_result_t r_ = (c); if (r_ < 0) { fprintf(stderr, "FAILED line %d: %s returned %d\n", __LINE__, #c, (int)r_); exit(1); } } while (0)
static inline ccs_parameter_t dh_num(const char *n, double lo, double hi) { ccs_parameter_t p; OK(ccs_create_numerical_parameter(n, CCS_NUMERIC_TYPE_FLOAT, CCSF(lo), CCSF(hi), CCSF(0.0), CCSF(lo), &p)); return p; }
static inline ccs_parameter_t dh_int(const char *n, int lo, int hi) { ccs_parameter_t p; OK(ccs_create_numerical_parameter(n, CCS_NUMERIC_TYPE_INT, CCSI(lo), CCSI(hi), CCSI(0), CCSI(lo), &p)); return p; }
#ifdef DH_OOM
extern void *__libc_malloc(size_t), *__libc_calloc(size_t, size_t), *__libc_realloc(void *, size_t), __libc_free(void *);
static long dh_fail_at = 0, dh_count = 0, dh_live = 0; static int dh_track = 0;
static int dh_fails(void) { dh_count++; return dh_fail_at > 0 && dh_count == dh_fail_at; }
void *malloc(size_t n) { if (dh_fails()) { errno = ENOMEM; return NULL; } dh_live++; return __libc_malloc(n); }
void *calloc(size_t a, size_t b) { if (dh_fails()) { errno = ENOMEM; return NULL; } dh_live++; return __libc_calloc(a, b); }
void *realloc(void *p, size_t n) { if (dh_fails()) { errno = ENOMEM; return NULL; } if (!p) dh_live++; return __libc_realloc(p, n); }
void free(void *p) { if (p) dh_live--; __libc_free(p); }
#define DH_ARM(k) (dh_count = 0, dh_fail_at = (k))
#define DH_OFF() (dh_fail_at = 0)
#endif
