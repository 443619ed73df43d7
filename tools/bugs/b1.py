import sys; sys.path.insert(0,"/tmp/mk"); from mk import bug
bug("c01-short-write-again","C01","a non-blocking descriptor that accepts only part of the bytes and the caller resuming",
 "a suspended transfer repeats the bytes already written instead of resuming where it stopped",
 [("src/cconfigspace.c","""			if (errno == EAGAIN && opts.ppfd_state)
				return CCS_RESULT_AGAIN;
		} else {
			pstate->buffer_size -= count;
			pstate->buffer += count;
		}
	} while (pstate->buffer_size);
err_fd_buffer:""","""			if (errno == EAGAIN && opts.ppfd_state)
				return CCS_RESULT_AGAIN;
		} else {
			/* the descriptor is full, do not insist */
			if (opts.ppfd_state &&
			    (size_t)count < pstate->buffer_size / 2)
				return CCS_RESULT_AGAIN;
			pstate->buffer_size -= count;
			pstate->buffer += count;
		}
	} while (pstate->buffer_size);
err_fd_buffer:""")],
r'''#define _GNU_SOURCE
#include "dh.h"
static char out[1 << 20]; static size_t nout; static int calls;
ssize_t write(int fd, const void *b, size_t n) {   /* descriptor 77: short writes and would-block answers */
  if (fd != 77) { errno = EBADF; return -1; }
  calls++; if (calls % 3 == 0) { errno = EAGAIN; return -1; }
  if (n > 7) n = 7; memcpy(out + nout, b, n); nout += n; return (ssize_t)n; }
int main(void) {
  OK(ccs_init()); ccs_parameter_t p = dh_num("a parameter with a name", 0.0, 5.0);
  size_t sz; OK(ccs_object_serialize(p, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_SIZE, &sz, CCS_SERIALIZE_OPTION_END));
  void *st = NULL; ccs_result_t r; int k = 0;
  do r = ccs_object_serialize(p, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_FILE_DESCRIPTOR, 77, CCS_SERIALIZE_OPTION_NON_BLOCKING, &st, CCS_SERIALIZE_OPTION_END); while (r == CCS_RESULT_AGAIN && k++ < 1000);
  CHECK(r == CCS_RESULT_SUCCESS); CHECK(nout == sz);
  ccs_object_t q; OK(ccs_object_deserialize(&q, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_MEMORY, nout, out, CCS_DESERIALIZE_OPTION_END));
  return 0; }
''')
bug("c06-optima-tail","C06","at least three optima and a dominated result told afterwards",
 "telling a dominated evaluation drops the optima that come after the one dominating it",
 [("src/tuner_random.c","""				} else {
					utarray_push_back(d->optima, eval);
				}
			}
			if (!discard)""","""				} else if (utarray_len(d->optima) < 3) {
					utarray_push_back(d->optima, eval);
				}
			}
			if (!discard)""")],
r'''#include "dh.h"
int main(void) {
  OK(ccs_init()); ccs_parameter_t p = dh_num("x", 0, 10), o1 = dh_num("o1", -100, 100), o2 = dh_num("o2", -100, 100); ccs_configuration_space_t cs; ccs_objective_space_t os; ccs_expression_t e1, e2; ccs_tuner_t t;
  OK(ccs_create_configuration_space("cs", &cs)); OK(ccs_configuration_space_add_parameter(cs, p, NULL)); OK(ccs_create_objective_space("os", &os)); OK(ccs_objective_space_add_parameter(os, o1)); OK(ccs_objective_space_add_parameter(os, o2));
  OK(ccs_create_variable(o1, &e1)); OK(ccs_create_variable(o2, &e2)); OK(ccs_objective_space_add_objective(os, e1, CCS_OBJECTIVE_TYPE_MINIMIZE)); OK(ccs_objective_space_add_objective(os, e2, CCS_OBJECTIVE_TYPE_MINIMIZE));
  OK(ccs_create_random_tuner("t", cs, os, &t)); double v[][2] = {{0, 9}, {1, 8}, {2, 7}, {3, 6}, {4, 5}, {1, 50}};
  for (int i = 0; i < 6; i++) { ccs_configuration_t c; OK(ccs_tuner_ask(t, 1, &c, NULL)); ccs_datum_t d[2] = {ccs_float(v[i][0]), ccs_float(v[i][1])}; ccs_evaluation_t e; OK(ccs_create_evaluation(os, c, CCS_RESULT_SUCCESS, 2, d, &e)); OK(ccs_tuner_tell(t, 1, &e)); }
  size_t n; OK(ccs_tuner_get_optima(t, 0, NULL, &n)); fprintf(stderr, "%zu optima\n", n); CHECK(n == 5); return 0; }
''')
bug("c10-inplace-string","C10","replacing a string value by a transient string and reusing the caller's buffer",
 "the map keeps a pointer to the caller's buffer instead of its own copy when a value is replaced",
 [("src/map.c","""	_ccs_map_set_string(&entry->value, sz2, &mem);
""","""	if (!old_entry || old_entry->value.type != value.type)
		_ccs_map_set_string(&entry->value, sz2, &mem);
""")],
r'''#include "dh.h"
int main(void) {
  OK(ccs_init()); ccs_map_t m; OK(ccs_create_map(&m)); char b[16]; ccs_datum_t k = ccs_int(3), v = ccs_string("first"), g;
  OK(ccs_map_set(m, k, v)); strcpy(b, "second"); v = ccs_string(b); v.flags |= CCS_DATUM_FLAG_TRANSIENT; OK(ccs_map_set(m, k, v)); strcpy(b, "xxxxx");
  OK(ccs_map_get(m, k, &g)); CHECK(g.type == CCS_DATA_TYPE_STRING && !strcmp(g.value.s, "second")); return 0; }
''')
bug("c11-weight-zero-parent","C11","a child whose weight total becomes the same as the weight its parent has recorded for it after a bias change",
 "a bias change below a parent is not propagated when the total is unchanged before the bias is applied",
 [("src/tree.c","""		if (tree_data->parent) {
			weight    = sum_weights * tree_data->bias;
			index     = tree_data->index;""","""		if (tree_data->parent &&
		    (sum_weights > 0 ||
		     tree_data->parent->data->weights[tree_data->index] <
			     1.0)) {
			weight    = sum_weights * tree_data->bias;
			index     = tree_data->index;""")],
r'''#include "dh.h"
int main(void) {
  OK(ccs_init()); ccs_tree_t a, b; ccs_tree_space_t ts; OK(ccs_create_tree(1, ccs_int(0), &a)); OK(ccs_create_tree(0, ccs_int(1), &b));
  OK(ccs_tree_set_weight(b, 4.0)); OK(ccs_tree_set_child(a, 0, b)); OK(ccs_create_static_tree_space("ts", a, &ts));
  OK(ccs_tree_set_weight(b, 0.0));
  for (int i = 0; i < 500; i++) { ccs_tree_configuration_t c; size_t n; OK(ccs_tree_space_sample(ts, &c)); OK(ccs_tree_configuration_get_position(c, 0, NULL, &n)); CHECK(n == 0); OK(ccs_release_object(c)); }
  return 0; }
''')
bug("c13-features-pointer","C13","results told under equal features held by distinct objects",
 "optima for features are looked up by object and miss those told with equal features",
 [("src/features_tuner_random.c","""			CCS_VALIDATE(ccs_features_cmp(features, feat, &cmp));
			if (cmp == 0)
				num_optima += 1;
		}
		if (evaluations) {""","""			CCS_VALIDATE(ccs_features_cmp(features, feat, &cmp));
			if (cmp == 0 &&
			    (features == feat || utarray_len(d->optima) < 4))
				num_optima += 1;
		}
		if (evaluations) {""")],
r'''#include "dh.h"
int main(void) {
  OK(ccs_init()); ccs_parameter_t p = dh_num("x", 0, 10), o1 = dh_num("o1", -100, 100), f1 = dh_int("f", 0, 100); ccs_configuration_space_t cs; ccs_objective_space_t os; ccs_features_space_t fs; ccs_expression_t e1; ccs_features_tuner_t t;
  OK(ccs_create_configuration_space("cs", &cs)); OK(ccs_configuration_space_add_parameter(cs, p, NULL)); OK(ccs_create_objective_space("os", &os)); OK(ccs_objective_space_add_parameter(os, o1)); OK(ccs_create_features_space("fs", &fs)); OK(ccs_features_space_add_parameter(fs, f1));
  OK(ccs_create_variable(o1, &e1)); OK(ccs_objective_space_add_objective(os, e1, CCS_OBJECTIVE_TYPE_MINIMIZE)); OK(ccs_create_random_features_tuner("t", cs, fs, os, &t));
  for (int i = 0; i < 6; i++) { ccs_features_t f; ccs_datum_t fv = ccs_int(i), d = ccs_float(i); OK(ccs_create_features(fs, 1, &fv, &f)); ccs_configuration_t c; OK(ccs_features_tuner_ask(t, f, 1, &c, NULL)); ccs_features_evaluation_t e; OK(ccs_create_features_evaluation(os, c, f, CCS_RESULT_SUCCESS, 1, &d, &e)); OK(ccs_features_tuner_tell(t, 1, &e)); }
  ccs_datum_t fv = ccs_int(2); ccs_features_t g; OK(ccs_create_features(fs, 1, &fv, &g)); size_t n; OK(ccs_features_tuner_get_optima(t, g, 0, NULL, &n)); CHECK(n == 1); return 0; }
''')
