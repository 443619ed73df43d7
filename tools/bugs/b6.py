import sys; sys.path.insert(0,"/tmp/mk"); import mk; from mk import bug
only=set(sys.argv[1:])
_b=bug
def bug(i,*a,**k):
    if not only or i in only: _b(i,*a,**k)
bug("c09-lognormal-tail","C09","an integer normal distribution on a logarithmic scale with a step so large that most of its weight lies below the first multiple",
 "the start of the tail is taken on the wrong side of the mean, so values below the announced lower bound (0 among them) are sampled",
 [("src/distribution_normal.c","""		else
			for (i = 0; i < num_values; i++)
				do {
					values[i].f =
						gsl_ran_gaussian_tail(
							grng, lq - mu, sigma) +
						mu;
					values[i].f = exp(values[i].f);""","""		else
			for (i = 0; i < num_values; i++)
				do {
					values[i].f =
						gsl_ran_gaussian_tail(
							grng, mu - lq, sigma) +
						mu;
					values[i].f = exp(values[i].f);""")],
r'''#include "dh.h"
int main(void) {
  OK(ccs_init()); ccs_rng_t r; OK(ccs_create_rng(&r)); ccs_distribution_t d; OK(ccs_create_normal_distribution(CCS_NUMERIC_TYPE_INT, 0.5, 1.25, CCS_SCALE_TYPE_LOGARITHMIC, CCSI(8), &d));
  ccs_interval_t b; OK(ccs_distribution_get_bounds(d, &b)); CHECK(b.lower.i == 8 && b.lower_included); ccs_numeric_t v[1000]; OK(ccs_distribution_samples(d, r, 1000, v));
  for (int i = 0; i < 1000; i++) CHECK(v[i].i >= b.lower.i && v[i].i % 8 == 0);
  OK(ccs_release_object(d)); OK(ccs_release_object(r)); return 0; }
''')
bug("c05-resample-oom","C05","sampling a categorical parameter with a distribution that reaches past its values, with the second growth of the buffer failing",
 "the buffer of the previous round is lost when it cannot be enlarged",
 [("src/parameter_categorical.c","""			if (CCS_UNLIKELY(!vs)) {
				if (oldvs)
					free(oldvs);
				CCS_RAISE(""","""			if (CCS_UNLIKELY(!vs)) {
				CCS_RAISE(""")],
r'''#define DH_OOM
#include "dh.h"
int main(void) {
  OK(ccs_init()); ccs_rng_t r; OK(ccs_create_rng(&r)); ccs_datum_t pv[2] = {ccs_int(10), ccs_int(20)}, out[40]; ccs_parameter_t p; OK(ccs_create_categorical_parameter("p", 2, pv, 0, &p));
  ccs_distribution_t d; OK(ccs_create_uniform_int_distribution(0, 16, CCS_SCALE_TYPE_LINEAR, 0, &d));
  for (int seed = 0; seed < 50; seed++) for (int k = 1; k < 12; k++) {
    OK(ccs_rng_set_seed(r, seed)); long before = dh_live; DH_ARM(k); ccs_result_t e = ccs_parameter_samples(p, d, r, 20, out); DH_OFF();
    if (e < 0) { CHECK(e == CCS_RESULT_ERROR_OUT_OF_MEMORY || e == CCS_RESULT_ERROR_SAMPLING_UNSUCCESSFUL); ccs_clear_thread_error(); }
    CHECK(dh_live == before); }
  return 0; }
''')
bug("c01-state-size","C01","a dynamic tree space whose user state takes 128 bytes or more",
 "the announced size is one byte short, so serialization of such a space fails or does not come back",
 [("src/tree_space_dynamic.c","""			tree_space, 0, NULL, &state_size));
	*cum_size += _ccs_serialize_bin_size_size(state_size);""","""			tree_space, 0, NULL, &state_size));
	*cum_size += _ccs_serialize_bin_size_size(state_size ? 1 : 0);""")],
r'''#include "dh.h"
static ccs_result_t del(ccs_tree_space_t t) { return CCS_RESULT_SUCCESS; }
static ccs_result_t child(ccs_tree_space_t t, ccs_tree_t p, size_t i, ccs_tree_t *c) { return ccs_create_tree(1, ccs_int((ccs_int_t)i), c); }
static size_t want; static ccs_result_t ser(ccs_tree_space_t t, size_t n, void *s, size_t *r) { if (s) { if (n < want) return CCS_RESULT_ERROR_INVALID_VALUE; memset(s, 5, want); } if (r) *r = want; return CCS_RESULT_SUCCESS; }
int main(void) {
  OK(ccs_init()); static const size_t sizes[] = {0, 1, 100, 127, 128, 200, 16384}; ccs_dynamic_tree_space_vector_t v = {del, child, ser, NULL};
  for (int i = 0; i < 7; i++) {
    want = sizes[i]; ccs_tree_t t; OK(ccs_create_tree(2, ccs_int(1), &t)); ccs_tree_space_t s; OK(ccs_create_dynamic_tree_space("s", t, &v, NULL, &s)); size_t sz;
    OK(ccs_object_serialize(s, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_SIZE, &sz, CCS_SERIALIZE_OPTION_END)); char *m = malloc(sz);
    OK(ccs_object_serialize(s, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_MEMORY, sz, m, CCS_SERIALIZE_OPTION_END)); free(m); OK(ccs_release_object(s)); OK(ccs_release_object(t)); }
  return 0; }
''')
