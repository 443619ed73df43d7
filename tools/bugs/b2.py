import sys; sys.path.insert(0,"/tmp/mk"); from mk import bug
only=set(sys.argv[1:])
_b=bug
def bug(i,*a,**k):
    if not only or i in only: _b(i,*a,**k)
ev="src/evaluation.c"; cc="src/cconfigspace.c"; ci="src/cconfigspace_internal.h"; cs="src/configuration_space.c"; ex="src/expression.c"; bi="src/binding_internal.h"; ko="connectors/kokkos/ccs-kokkos-connector.cpp"; tr="src/tree.c"
bug("c02-optima-order","C02","a checkpoint of a tuner with several optima",
 "the optima of a restored tuner come back in another order, so suggestions differ from those of the tuner that was not interrupted",
 [("src/tuner_deserialize.h","		utarray_push_back(odata->optima, data.optima + i);\n	goto end;","		utarray_push_back(\n			odata->optima,\n			data.optima + data.size_optima - 1 - i);\n	goto end;")],
r"""#include "dh.h"
int main(void) {
  OK(ccs_init()); ccs_parameter_t p = dh_num("x", 0, 10), o1 = dh_num("o1", -100, 100), o2 = dh_num("o2", -100, 100); ccs_configuration_space_t cs; ccs_objective_space_t os; ccs_expression_t e1, e2; ccs_tuner_t t, u;
  OK(ccs_create_configuration_space("cs", &cs)); OK(ccs_configuration_space_add_parameter(cs, p, NULL)); OK(ccs_create_objective_space("os", &os)); OK(ccs_objective_space_add_parameter(os, o1)); OK(ccs_objective_space_add_parameter(os, o2));
  OK(ccs_create_variable(o1, &e1)); OK(ccs_create_variable(o2, &e2)); OK(ccs_objective_space_add_objective(os, e1, CCS_OBJECTIVE_TYPE_MINIMIZE)); OK(ccs_objective_space_add_objective(os, e2, CCS_OBJECTIVE_TYPE_MINIMIZE));
  OK(ccs_create_random_tuner("t", cs, os, &t)); double v[][2] = {{0, 9}, {1, 8}, {2, 7}, {3, 6}, {4, 5}};
  for (int i = 0; i < 5; i++) { ccs_configuration_t c; OK(ccs_tuner_ask(t, 1, &c, NULL)); ccs_datum_t d[2] = {ccs_float(v[i][0]), ccs_float(v[i][1])}; ccs_evaluation_t e; OK(ccs_create_evaluation(os, c, CCS_RESULT_SUCCESS, 2, d, &e)); OK(ccs_tuner_tell(t, 1, &e)); }
  size_t sz; OK(ccs_object_serialize(t, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_SIZE, &sz, CCS_SERIALIZE_OPTION_END)); char *m = malloc(sz); OK(ccs_object_serialize(t, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_MEMORY, sz, m, CCS_SERIALIZE_OPTION_END));
  OK(ccs_object_deserialize((ccs_object_t *)&u, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_MEMORY, sz, m, CCS_DESERIALIZE_OPTION_END));
  ccs_evaluation_t a[5], b[5]; OK(ccs_tuner_get_optima(t, 5, a, NULL)); OK(ccs_tuner_get_optima(u, 5, b, NULL)); for (int i = 0; i < 5; i++) { ccs_datum_t x, y; OK(ccs_evaluation_get_objective_value(a[i], 0, &x)); OK(ccs_evaluation_get_objective_value(b[i], 0, &y)); CHECK(x.value.f == y.value.f); }
  return 0; }
""")
bug("c02-tree-stream","C02","a static tree space or a tuner on it restored in the middle of a run",
 "the restored static tree space draws from a new stream instead of continuing its own",
 [("src/tree_space_deserialize.h","""		res, ccs_tree_space_set_rng(*tree_space_ret, data.rng),
		tree_space);
	goto end;""","""		res,
		data.rng ? CCS_RESULT_SUCCESS :
			   CCS_RESULT_ERROR_INVALID_VALUE,
		tree_space);
	goto end;""")],
r"""#include "dh.h"
int main(void) {
  OK(ccs_init()); ccs_tree_t t; OK(ccs_create_tree(4, ccs_int(0), &t)); for (int i = 0; i < 4; i++) { ccs_tree_t c; OK(ccs_create_tree(3, ccs_int(i), &c)); OK(ccs_tree_set_child(t, i, c)); for (int j = 0; j < 3; j++) { ccs_tree_t d; OK(ccs_create_tree(0, ccs_int(10 * i + j), &d)); OK(ccs_tree_set_child(c, j, d)); } }
  ccs_tree_space_t ts, us; OK(ccs_create_static_tree_space("ts", t, &ts)); ccs_rng_t r; OK(ccs_tree_space_get_rng(ts, &r)); OK(ccs_rng_set_seed(r, 5)); ccs_parameter_t o = dh_num("o", -100, 100); ccs_expression_t e; ccs_objective_space_t os; OK(ccs_create_objective_space("os", &os)); OK(ccs_objective_space_add_parameter(os, o)); OK(ccs_create_variable(o, &e)); OK(ccs_objective_space_add_objective(os, e, CCS_OBJECTIVE_TYPE_MINIMIZE));
  ccs_tree_tuner_t a, b; OK(ccs_create_random_tree_tuner("tt", ts, os, &a)); ccs_tree_configuration_t x[30], y[30]; OK(ccs_tree_tuner_ask(a, 7, x, NULL));
  size_t sz; OK(ccs_object_serialize(a, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_SIZE, &sz, CCS_SERIALIZE_OPTION_END)); char *m = malloc(sz); OK(ccs_object_serialize(a, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_MEMORY, sz, m, CCS_SERIALIZE_OPTION_END));
  OK(ccs_object_deserialize((ccs_object_t *)&b, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_MEMORY, sz, m, CCS_DESERIALIZE_OPTION_END));
  OK(ccs_tree_tuner_ask(a, 30, x, NULL)); OK(ccs_tree_tuner_ask(b, 30, y, NULL)); for (int i = 0; i < 30; i++) { size_t p[8], q[8], n, k; OK(ccs_tree_configuration_get_position(x[i], 8, p, &n)); OK(ccs_tree_configuration_get_position(y[i], 8, q, &k)); CHECK(n == k && !memcmp(p, q, n * sizeof *p)); }
  return 0; }
""")
bug("c03-fstat-leak","C03","fstat failing on the file being read back",
 "the descriptor stays open when the size of the file cannot be obtained",
 [(cc,"""	CCS_REFUTE_ERR_GOTO(
		res, fstat(fd, &stat_buffer) == -1, CCS_RESULT_ERROR_SYSTEM,
		err_file_fd);""","""	CCS_REFUTE(fstat(fd, &stat_buffer) == -1, CCS_RESULT_ERROR_SYSTEM);""")],
r'''#define _GNU_SOURCE
#include "dh.h"
#include <sys/stat.h>
static int fail;
int fstat(int fd, struct stat *s) { if (fail) { errno = EIO; return -1; } return fstatat(fd, "", s, AT_EMPTY_PATH); }
static int nfd(void) { int n = 0; for (int i = 0; i < 256; i++) n += fcntl(i, F_GETFD) != -1; return n; }
int main(void) {
  OK(ccs_init()); ccs_parameter_t p = dh_num("p", 0, 1); OK(ccs_object_serialize(p, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_FILE, "img", CCS_SERIALIZE_OPTION_END));
  int n = nfd(); ccs_object_t q = NULL; fail = 1; ccs_result_t r = ccs_object_deserialize(&q, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_FILE, "img", CCS_DESERIALIZE_OPTION_END); fail = 0;
  CHECK(r < 0 && !q); CHECK(nfd() == n); return 0; }
''')
bug("c04-user-data-bound","C04","an image cut inside the user data of an object, read with a user data callback",
 "the length of the user data is not checked against what is left of the image",
 [(ci,"""			CCS_REFUTE_ERR_GOTO(
				res, *buffer_size < serialize_data_size,
				CCS_RESULT_ERROR_NOT_ENOUGH_DATA, err_object);
			if (opts->des""","""			if (opts->des""")],
r'''#include "dh.h"
static ccs_result_t ser(ccs_object_t o, size_t n, void *b, size_t *szr, void *u) { if (b) memset(b, 7, 40); if (szr) *szr = 40; return CCS_RESULT_SUCCESS; }
static ccs_result_t des(ccs_object_t o, size_t n, const void *b, void *u) { volatile unsigned s = 0; for (size_t i = 0; i < n; i++) s += ((const unsigned char *)b)[i]; return CCS_RESULT_SUCCESS; }
int main(void) {
  OK(ccs_init()); ccs_parameter_t p = dh_num("p", 0, 1); size_t sz; OK(ccs_object_set_user_data(p, &sz));
  OK(ccs_object_serialize(p, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_SIZE, &sz, CCS_SERIALIZE_OPTION_CALLBACK, ser, NULL, CCS_SERIALIZE_OPTION_END)); char *m = malloc(sz);
  OK(ccs_object_serialize(p, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_MEMORY, sz, m, CCS_SERIALIZE_OPTION_CALLBACK, ser, NULL, CCS_SERIALIZE_OPTION_END));
  for (size_t k = sz - 40; k < sz; k++) { char *c = malloc(k); memcpy(c, m, k); ccs_object_t q = NULL; ccs_result_t r = ccs_object_deserialize(&q, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_MEMORY, k, c, CCS_DESERIALIZE_OPTION_CALLBACK, des, NULL, CCS_DESERIALIZE_OPTION_END); CHECK(r < 0); free(c); }
  return 0; }
''',asan="0")
bug("c05-rng-oom","C05","the allocation of the object failing after its generator was allocated",
 "the generator is not freed when creating the stream fails for want of memory",
 [("src/rng.c","""err_rng:
	gsl_rng_free(grng);
	return res;""","""err_rng:
	return res;""")],
r'''#define DH_OOM
#include "dh.h"
#include <gsl/gsl_errno.h>
int main(void) {
  gsl_set_error_handler_off(); OK(ccs_init()); ccs_rng_t r; OK(ccs_create_rng(&r)); OK(ccs_release_object(r)); ccs_clear_thread_error();
  for (int k = 1; k < 20; k++) { long l = dh_live; DH_ARM(k); r = NULL; ccs_result_t e = ccs_create_rng(&r); DH_OFF(); if (e >= 0) OK(ccs_release_object(r)); ccs_clear_thread_error(); if (e < 0) CHECK(dh_live == l); }
  return 0; }
''')
bug("c06-int-difference","C06","two integer objective values further apart than the range of the integer type",
 "integer objective values are compared by their difference, which wraps around",
 [(ev,"""		return a->value.i < b->value.i ? -1 :
		       a->value.i > b->value.i ? 1 :
						 0;""","""		ccs_int_t d =
			(ccs_int_t)((uint64_t)a->value.i - (uint64_t)b->value.i);
		return d < 0 ? -1 : d > 0 ? 1 : 0;""")],
r'''#include "dh.h"
int main(void) {
  OK(ccs_init()); ccs_parameter_t p = dh_num("x", 0, 10), o; OK(ccs_create_numerical_parameter("o", CCS_NUMERIC_TYPE_INT, CCSI(CCS_INT_MIN), CCSI(CCS_INT_MAX), CCSI(0), CCSI(0), &o)); ccs_configuration_space_t cs; ccs_objective_space_t os; ccs_expression_t e1;
  OK(ccs_create_configuration_space("cs", &cs)); OK(ccs_configuration_space_add_parameter(cs, p, NULL)); OK(ccs_create_objective_space("os", &os)); OK(ccs_objective_space_add_parameter(os, o)); OK(ccs_create_variable(o, &e1)); OK(ccs_objective_space_add_objective(os, e1, CCS_OBJECTIVE_TYPE_MINIMIZE));
  ccs_configuration_t c; OK(ccs_configuration_space_get_default_configuration(cs, &c)); ccs_datum_t a = ccs_int(-8000000000000000000LL), b = ccs_int(8000000000000000000LL); ccs_evaluation_t ea, eb; OK(ccs_create_evaluation(os, c, CCS_RESULT_SUCCESS, 1, &a, &ea)); OK(ccs_create_evaluation(os, c, CCS_RESULT_SUCCESS, 1, &b, &eb));
  ccs_comparison_t r; OK(ccs_evaluation_compare(ea, eb, &r)); CHECK(r == CCS_COMPARISON_BETTER); OK(ccs_evaluation_compare(eb, ea, &r)); CHECK(r == CCS_COMPARISON_WORSE); return 0; }
''')
bug("c07-set-same-rng","C07","setting as the stream of a space the stream it already has, when nothing else holds it",
 "the stream is released before it is retained again, so it is freed while the space uses it",
 [(cs,"""	CCS_VALIDATE(ccs_retain_object(rng));
	ccs_rng_t tmp                  = configuration_space->data->rng;
	configuration_space->data->rng = rng;
	CCS_VALIDATE(ccs_release_object(tmp));""","""	CCS_VALIDATE(ccs_release_object(configuration_space->data->rng));
	configuration_space->data->rng = rng;
	CCS_VALIDATE(ccs_retain_object(rng));""")],
r'''#include "dh.h"
int main(void) {
  OK(ccs_init()); ccs_configuration_space_t cs; OK(ccs_create_configuration_space("cs", &cs)); ccs_rng_t r; OK(ccs_configuration_space_get_rng(cs, &r)); OK(ccs_configuration_space_set_rng(cs, r));
  unsigned long v; OK(ccs_rng_get(r, &v)); OK(ccs_release_object(cs)); return 0; }
''',asan="0")
bug("c08-static-error","C08","two threads in which calls fail",
 "the error of one thread is seen, replaced and cleared by another",
 [("src/error_stack.c","static __thread ccs","static ccs")],
r'''#include "dh.h"
#include <pthread.h>
static void *other(void *x) { ccs_parameter_t p = NULL; ccs_create_numerical_parameter("bad", CCS_NUMERIC_TYPE_FLOAT, CCSF(2.0), CCSF(1.0), CCSF(0.0), CCSF(2.0), &p); return NULL; }
int main(void) { OK(ccs_init()); ccs_clear_thread_error(); pthread_t t; pthread_create(&t, NULL, other, NULL); pthread_join(t, NULL); ccs_error_stack_t e = ccs_get_thread_error(); CHECK(!e); return 0; }
''')
bug("c14-hash-padding","C14","two values without payload built in different ways",
 "the hash of an inactive value covers bytes that are not part of the value",
 [("src/datum_hash.h","	case CCS_DATA_TYPE_INACTIVE:\n		HASH_JEN(&(d->type), sizeof(d->type), h);","	case CCS_DATA_TYPE_INACTIVE:\n		HASH_JEN(d, sizeof(*d), h);")],
r'''#include "dh.h"
int main(void) {
  OK(ccs_init()); ccs_parameter_t a = dh_num("a", 0, 10), c = dh_num("c", 0, 10); ccs_configuration_space_t cs; ccs_expression_t v, f;
  OK(ccs_create_variable(c, &v)); OK(ccs_create_binary_expression(CCS_EXPRESSION_TYPE_GREATER, ccs_object(v), ccs_float(5.0), &f)); OK(ccs_create_configuration_space("cs", &cs)); OK(ccs_configuration_space_add_parameter(cs, a, NULL)); OK(ccs_configuration_space_add_parameter(cs, c, NULL)); OK(ccs_configuration_space_set_condition(cs, 0, f));
  ccs_datum_t x[2], y[2]; memset(x, 0, sizeof x); memset(y, 0x5a, sizeof y); x[0].type = y[0].type = CCS_DATA_TYPE_INACTIVE; x[0].flags = y[0].flags = 0; x[1] = y[1] = ccs_float(1.0);
  ccs_configuration_t p, q; OK(ccs_create_configuration(cs, 2, x, &p)); OK(ccs_create_configuration(cs, 2, y, &q)); int r; OK(ccs_configuration_cmp(p, q, &r)); CHECK(r == 0); ccs_hash_t h, g; OK(ccs_configuration_hash(p, &h)); OK(ccs_configuration_hash(q, &g)); CHECK(h == g); return 0; }
''')
bug("c17-roulette-tail","C17","asking a roulette distribution for its areas with room for more",
 "the entries past the last area are left as the caller had them",
 [("src/distribution_roulette.c","		for (size_t i = data->num_areas; i < num_areas; i++)\n			areas[i] = 0.0;\n","")],
r'''#include "dh.h"
int main(void) { OK(ccs_init()); ccs_float_t a[3] = {1, 2, 3}, g[6] = {9, 9, 9, 9, 9, 9}; ccs_distribution_t d; OK(ccs_create_roulette_distribution(3, a, &d)); size_t n; OK(ccs_roulette_distribution_get_areas(d, 6, g, &n)); CHECK(n == 3); for (int i = 3; i < 6; i++) CHECK(g[i] == 0.0); return 0; }
''')
bug("c18-expression-dedup","C18","an expression in which one parameter occurs again after others",
 "the list of the parameters of an expression repeats some",
 [(ex,"""			if (*p_h != previous) {
				parameters[index++] = *p_h;
				previous            = *p_h;
			}""","""			if (*p_h != previous) {
				parameters[index++] = *p_h;
				if (!previous)
					previous = *p_h;
			}""")],
r'''#include "dh.h"
int main(void) {
  OK(ccs_init()); ccs_parameter_t p[3] = {dh_num("a", 0, 1), dh_num("b", 0, 1), dh_num("c", 0, 1)}; ccs_expression_t acc = NULL; 
  for (int i = 0; i < 9; i++) { ccs_expression_t v; OK(ccs_create_variable(p[i % 3], &v)); if (!acc) acc = v; else { ccs_expression_t n; OK(ccs_create_binary_expression(CCS_EXPRESSION_TYPE_ADD, ccs_object(acc), ccs_object(v), &n)); acc = n; } }
  size_t n; ccs_parameter_t q[16]; memset(q, 0, sizeof q); OK(ccs_expression_get_parameters(acc, 0, NULL, &n)); CHECK(n == 3); OK(ccs_expression_get_parameters(acc, 3, q, NULL)); for (int i = 0; i < 3; i++) { int s = 0; for (int j = 0; j < 3; j++) s += q[j] == p[i]; CHECK(s == 1); } return 0; }
''')
