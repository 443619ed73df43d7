import sys; sys.path.insert(0,"/tmp/mk"); import mk; from mk import bug
only=set(sys.argv[1:])
_b=bug
def bug(i,*a,**k):
    if not only or i in only: _b(i,*a,**k)
bug("c02-rng-prefix","C02","a state restored that draws from a generator whose name starts with another generator's name (knuthran2, ranlxs...)",
 "the generator's type is looked up by prefix, so another algorithm is restored and the saved state is dropped",
 [("src/rng_deserialize.h","if (!strcmp(name, (*t)->name))","if (!strncmp(name, (*t)->name, strlen((*t)->name)))")],
r'''#include "dh.h"
int main(void) {
  OK(ccs_init()); ccs_parameter_t p = dh_num("p", 0, 1), o = dh_num("o", -9, 9); ccs_rng_t r; OK(ccs_create_rng_with_type(gsl_rng_knuthran2, &r)); OK(ccs_rng_set_seed(r, 3)); ccs_configuration_space_t cs; OK(ccs_create_configuration_space("cs", &cs)); OK(ccs_configuration_space_add_parameter(cs, p, NULL)); OK(ccs_configuration_space_set_rng(cs, r));
  ccs_objective_space_t os; OK(ccs_create_objective_space("os", &os)); OK(ccs_objective_space_add_parameter(os, o)); ccs_expression_t e; OK(ccs_create_variable(o, &e)); OK(ccs_objective_space_add_objective(os, e, CCS_OBJECTIVE_TYPE_MINIMIZE)); ccs_tuner_t a, b; OK(ccs_create_random_tuner("t", cs, os, &a)); ccs_configuration_t x[20], y[20]; OK(ccs_tuner_ask(a, 3, x, NULL));
  size_t sz; OK(ccs_object_serialize(a, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_SIZE, &sz, CCS_SERIALIZE_OPTION_END)); char *m = malloc(sz); OK(ccs_object_serialize(a, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_MEMORY, sz, m, CCS_SERIALIZE_OPTION_END)); OK(ccs_object_deserialize((ccs_object_t *)&b, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_MEMORY, sz, m, CCS_DESERIALIZE_OPTION_END));
  OK(ccs_tuner_ask(a, 20, x, NULL)); OK(ccs_tuner_ask(b, 20, y, NULL)); for (int i = 0; i < 20; i++) { ccs_datum_t u, v; OK(ccs_binding_get_value((ccs_binding_t)x[i], 0, &u)); OK(ccs_binding_get_value((ccs_binding_t)y[i], 0, &v)); CHECK(u.value.f == v.value.f); } return 0; }
''')
bug("c04-blob-bound","C04","a stream cut in the middle of a generator's saved state",
 "the size of a blob is not compared with the bytes that are left, so bytes after the end of the stream are read",
 [("src/cconfigspace_internal.h","""	CCS_REFUTE(*buffer_size < b->sz, CCS_RESULT_ERROR_NOT_ENOUGH_DATA);
	b->blob""","""	b->blob""")],
r'''#include "dh.h"
int main(void) {
  OK(ccs_init()); ccs_rng_t r; OK(ccs_create_rng(&r)); size_t sz; OK(ccs_object_serialize(r, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_SIZE, &sz, CCS_SERIALIZE_OPTION_END)); char *m = malloc(sz); OK(ccs_object_serialize(r, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_MEMORY, sz, m, CCS_SERIALIZE_OPTION_END));
  for (size_t k = sz - 40; k < sz; k++) { char *c = malloc(k); memcpy(c, m, k); ccs_object_t q = NULL; ccs_result_t x = ccs_object_deserialize(&q, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_MEMORY, k, c, CCS_DESERIALIZE_OPTION_END); CHECK(x < 0); free(c); }
  return 0; }
''',asan=0)
bug("c17-features-optima-tail","C17","asking a features tuner for the optima of one vector of features with a larger array, while it holds optima for others",
 "the entries past the optima of these features are left as they were instead of being cleared",
 [("src/features_tuner_random.c","""					evaluations[index++] = *eval;
			}
			for (size_t i = num_optima; i < num_evaluations; i++)
				evaluations[i] = NULL;
		}
	}
	if (num_evaluations_ret)
		*num_evaluations_ret = num_optima;""","""					evaluations[index++] = *eval;
			}
			for (size_t i = utarray_len(d->optima);
			     i < num_evaluations; i++)
				evaluations[i] = NULL;
		}
	}
	if (num_evaluations_ret)
		*num_evaluations_ret = num_optima;""")],
r'''#include "dh.h"
int main(void) {
  OK(ccs_init()); ccs_parameter_t p = dh_num("p", 0, 1), o = dh_num("o", -9, 9), f = dh_num("f", 0, 1); ccs_configuration_space_t cs; OK(ccs_create_configuration_space("cs", &cs)); OK(ccs_configuration_space_add_parameter(cs, p, NULL)); ccs_features_space_t fs; OK(ccs_create_features_space("fs", &fs)); OK(ccs_features_space_add_parameter(fs, f));
  ccs_objective_space_t os; OK(ccs_create_objective_space("os", &os)); OK(ccs_objective_space_add_parameter(os, o)); ccs_expression_t e; OK(ccs_create_variable(o, &e)); OK(ccs_objective_space_add_objective(os, e, CCS_OBJECTIVE_TYPE_MINIMIZE)); ccs_features_tuner_t t; OK(ccs_create_random_features_tuner("t", cs, fs, os, &t));
  ccs_features_t ft[3]; for (int i = 0; i < 3; i++) { ccs_datum_t d = ccs_float(i / 4.0), v = ccs_float(1.0); OK(ccs_create_features(fs, 1, &d, ft + i)); ccs_configuration_t c; OK(ccs_features_tuner_ask(t, ft[i], 1, &c, NULL)); ccs_features_evaluation_t ev; OK(ccs_create_features_evaluation(os, c, ft[i], CCS_RESULT_SUCCESS, 1, &v, &ev)); OK(ccs_features_tuner_tell(t, 1, &ev)); }
  ccs_features_evaluation_t r[8]; for (int i = 0; i < 8; i++) r[i] = (ccs_features_evaluation_t)p; size_t n; OK(ccs_features_tuner_get_optima(t, ft[1], 8, r, &n)); CHECK(n == 1); for (int i = 1; i < 8; i++) CHECK(!r[i]); return 0; }
''')
bug("c14-evaluation-result","C14","two evaluations that differ only by their result code",
 "comparison ignores the result code although the hash takes it in, so evaluations that compare equal hash differently",
 [("src/evaluation.c","""	*cmp_ret = data->result < other_data->result ? -1 :
		   data->result > other_data->result ? 1 :
						       0;
	if (*cmp_ret)
		return CCS_RESULT_SUCCESS;
	CCS_VALIDATE(ccs_configuration_cmp(""","""	CCS_VALIDATE(ccs_configuration_cmp(""")],
r'''#include "dh.h"
int main(void) {
  OK(ccs_init()); ccs_parameter_t p = dh_num("p", 0, 1), o = dh_num("o", -9, 9); ccs_configuration_space_t cs; OK(ccs_create_configuration_space("cs", &cs)); OK(ccs_configuration_space_add_parameter(cs, p, NULL)); ccs_objective_space_t os; OK(ccs_create_objective_space("os", &os)); OK(ccs_objective_space_add_parameter(os, o));
  ccs_configuration_t c; OK(ccs_configuration_space_get_default_configuration(cs, &c)); ccs_datum_t v = ccs_float(1.0); ccs_evaluation_t a, b; OK(ccs_create_evaluation(os, c, CCS_RESULT_SUCCESS, 1, &v, &a)); OK(ccs_create_evaluation(os, c, CCS_RESULT_ERROR_SYSTEM, 1, &v, &b));
  ccs_hash_t x, y; OK(ccs_binding_hash((ccs_binding_t)a, &x)); OK(ccs_binding_hash((ccs_binding_t)b, &y)); int k; OK(ccs_binding_cmp((ccs_binding_t)a, (ccs_binding_t)b, &k)); CHECK(k || x == y); return 0; }
''')
bug("c01-tree-sixth-child","C01","a tree with a child at index five or above",
 "children past the fifth are read back but not attached, so a restored tree lacks them",
 [("src/tree_deserialize.h","	for (size_t i = 0; i < data.arity; i++)\n		if (data.children[i])\n			CCS_VALIDATE_ERR_GOTO(","	for (size_t i = 0; i < data.arity && i < 5; i++)\n		if (data.children[i])\n			CCS_VALIDATE_ERR_GOTO(")],
r'''#include "dh.h"
int main(void) {
  OK(ccs_init()); ccs_tree_t t, u, c; OK(ccs_create_tree(7, ccs_int(0), &t)); for (int i = 0; i < 7; i++) { OK(ccs_create_tree(0, ccs_int(i), &c)); OK(ccs_tree_set_child(t, i, c)); }
  size_t sz; OK(ccs_object_serialize(t, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_SIZE, &sz, CCS_SERIALIZE_OPTION_END)); char *m = malloc(sz); OK(ccs_object_serialize(t, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_MEMORY, sz, m, CCS_SERIALIZE_OPTION_END)); OK(ccs_object_deserialize((ccs_object_t *)&u, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_MEMORY, sz, m, CCS_DESERIALIZE_OPTION_END));
  for (size_t i = 0; i < 7; i++) { ccs_bool_t ok; OK(ccs_tree_position_is_valid(u, 1, &i, &ok)); OK(ccs_tree_get_child(u, i, &c)); CHECK(c); } return 0; }
''')
