import sys; sys.path.insert(0,"/tmp/mk"); import mk; from mk import bug
only=set(sys.argv[1:])
_b=bug
def bug(i,*a,**k):
    if not only or i in only: _b(i,*a,**k)
cs="src/configuration_space.c"; ex="src/expression.c"
bug("c09-check-inactive","C09","checking a configuration that holds a value for a parameter whose condition is false",
 "only a missing value of an active parameter is noticed, so a value where none may be is accepted",
 [(cs,"""		if (active != (values[*p_index].type == CCS_DATA_TYPE_INACTIVE ?
				       CCS_FALSE :
				       CCS_TRUE)) {""","""		if (active && values[*p_index].type == CCS_DATA_TYPE_INACTIVE) {""")],
r'''#include "dh.h"
int main(void) { OK(ccs_init()); ccs_parameter_t p[2] = {dh_num("a", 0, 1), dh_num("b", 0, 1)}; ccs_expression_t e; OK(ccs_create_binary_expression(CCS_EXPRESSION_TYPE_LESS, ccs_object(p[0]), ccs_float(0.5), &e));
  ccs_configuration_space_t cs; OK(ccs_create_configuration_space("cs", &cs)); OK(ccs_configuration_space_add_parameters(cs, 2, p, NULL)); OK(ccs_configuration_space_set_condition(cs, 1, e));
  ccs_datum_t v[2] = {ccs_float(0.75), ccs_float(0.5)}, w[2] = {ccs_float(0.75), ccs_inactive}; ccs_configuration_t c; ccs_bool_t b; OK(ccs_create_configuration(cs, 2, w, &c)); OK(ccs_configuration_check(c, &b)); CHECK(b);
  OK(ccs_create_configuration(cs, 2, v, &c)); OK(ccs_configuration_check(c, &b)); CHECK(!b); return 0; }
''')
bug("c09-in-inactive","C09","a membership condition whose list holds a parameter that is inactive",
 "an inactive element of the list is taken as absent, so the condition is false rather than inactive",
 [(ex,"""			inactive = CCS_TRUE;
			continue;""","""			inactive = CCS_FALSE;
			continue;""")],
r'''#include "dh.h"
int main(void) { OK(ccs_init()); ccs_parameter_t p[3] = {dh_num("a", 0, 1), dh_num("b", 0, 1), dh_num("c", 0, 1)}; ccs_expression_t off, l, in, no; OK(ccs_create_binary_expression(CCS_EXPRESSION_TYPE_LESS, ccs_object(p[0]), ccs_float(0.0), &off));
  ccs_datum_t n[2] = {ccs_float(2.0), ccs_object(p[1])}; OK(ccs_create_expression(CCS_EXPRESSION_TYPE_LIST, 2, n, &l)); OK(ccs_create_binary_expression(CCS_EXPRESSION_TYPE_IN, ccs_object(p[0]), ccs_object(l), &in)); OK(ccs_create_unary_expression(CCS_EXPRESSION_TYPE_NOT, ccs_object(in), &no));
  ccs_configuration_space_t cs; OK(ccs_create_configuration_space("cs", &cs)); OK(ccs_configuration_space_add_parameters(cs, 3, p, NULL)); OK(ccs_configuration_space_set_condition(cs, 1, off)); OK(ccs_configuration_space_set_condition(cs, 2, no));
  for (int i = 0; i < 50; i++) { ccs_configuration_t c; ccs_datum_t v[3]; OK(ccs_configuration_space_sample(cs, &c)); for (int j = 0; j < 3; j++) OK(ccs_binding_get_value((ccs_binding_t)c, j, v + j)); CHECK(v[1].type == CCS_DATA_TYPE_INACTIVE); CHECK(v[2].type == CCS_DATA_TYPE_INACTIVE); OK(ccs_release_object(c)); } return 0; }
''')
