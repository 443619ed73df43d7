import sys; sys.path.insert(0,"/tmp/mk"); import mk; from mk import bug
only=set(sys.argv[1:])
_b=bug
def bug(i,*a,**k):
    if not only or i in only: _b(i,*a,**k)
ev="src/evaluation.c"; cc="src/cconfigspace.c"; ci="src/cconfigspace_internal.h"; cs="src/configuration_space.c"; ex="src/expression.c"; bi="src/binding_internal.h"; ko="connectors/kokkos/ccs-kokkos-connector.cpp"; tr="src/tree.c"
bug("c18-transient-setvalues","C18","setting all the values of features at once from strings in a buffer that is reused",
 "the values kept are those the caller passed rather than the ones the parameters own",
 [(bi,"			binding->data->values[i] = value;","			binding->data->values[i] = values[i];")],
r'''#include "dh.h"
int main(void) { OK(ccs_init()); ccs_parameter_t s; OK(ccs_create_string_parameter("s", &s)); ccs_features_space_t fs; OK(ccs_create_features_space("fs", &fs)); OK(ccs_features_space_add_parameter(fs, s)); ccs_datum_t v = ccs_string("one"); ccs_features_t c; OK(ccs_create_features(fs, 1, &v, &c));
  char b[16] = "two"; v = ccs_string(b); v.flags = CCS_DATUM_FLAG_TRANSIENT; OK(ccs_binding_set_values((ccs_binding_t)c, 1, &v)); strcpy(b, "xxx"); OK(ccs_features_get_value(c, 0, &v)); CHECK(v.type == CCS_DATA_TYPE_STRING && !strcmp(v.value.s, "two")); return 0; }
''')
bug("c01-string-size","C01","a string whose length with its terminator is just past one byte of length prefix",
 "the announced size of a string is one byte short",
 [(ci,"return sz + _ccs_serialize_bin_size_size(sz);","return sz + _ccs_serialize_bin_size_size(sz - 1);")],
r'''#include "dh.h"
int main(void) { OK(ccs_init());
  for (int n = 1; n < 400; n++) { char b[512]; memset(b, 'n', n); b[n] = 0; ccs_parameter_t p = dh_num(b, 0, 1); ccs_object_t q = NULL; size_t sz; OK(ccs_object_serialize(p, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_SIZE, &sz, CCS_SERIALIZE_OPTION_END)); char *m = malloc(sz);
    OK(ccs_object_serialize(p, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_MEMORY, sz, m, CCS_SERIALIZE_OPTION_END)); OK(ccs_object_deserialize(&q, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_MEMORY, sz, m, CCS_DESERIALIZE_OPTION_END)); free(m); OK(ccs_release_object(q)); OK(ccs_release_object(p)); }
  return 0; }
''')
bug("c12-serialize-callback","C12","the user's serialize callback failing when asked for the bytes after announcing their size",
 "an error of the serialize callback is not reported and the image holds garbage",
 [(ci,"""			else if (opts->serialize_callback)
				CCS_VALIDATE(opts->serialize_callback(
					object, serialize_data_size, *buffer,
					NULL, opts->serialize_user_data));""","""			else if (opts->serialize_callback)
				opts->serialize_callback(
					object, serialize_data_size, *buffer,
					NULL, opts->serialize_user_data);""")],
r'''#include "dh.h"
static ccs_result_t ser(ccs_object_t o, size_t n, void *b, size_t *szr, void *u) { if (szr) *szr = 16; return b ? CCS_RESULT_ERROR_EXTERNAL : CCS_RESULT_SUCCESS; }
int main(void) { OK(ccs_init()); ccs_parameter_t p = dh_num("p", 0, 1); size_t sz; OK(ccs_object_set_user_data(p, &sz)); char m[4096];
  OK(ccs_object_serialize(p, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_SIZE, &sz, CCS_SERIALIZE_OPTION_CALLBACK, ser, NULL, CCS_SERIALIZE_OPTION_END));
  ccs_result_t r = ccs_object_serialize(p, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_MEMORY, sz, m, CCS_SERIALIZE_OPTION_CALLBACK, ser, NULL, CCS_SERIALIZE_OPTION_END); CHECK(r == CCS_RESULT_ERROR_EXTERNAL); return 0; }
''')
bug("c15-duplicate-index","C15","setting a distribution of three dimensions with the same index at its first and last position",
 "only neighbouring positions are compared, so an index can be given twice",
 [(cs,"		for (size_t j = i + 1; j < dim; j++)","		for (size_t j = i + 1; j < dim && j < i + 2; j++)")],
r'''#include "dh.h"
int main(void) { OK(ccs_init()); ccs_parameter_t p[3] = {dh_num("a", 0, 1), dh_num("b", 0, 1), dh_num("c", 0, 1)}; ccs_distribution_t d[3], m; for (int i = 0; i < 3; i++) OK(ccs_create_uniform_float_distribution(0.0, 1.0, CCS_SCALE_TYPE_LINEAR, 0.0, d + i)); OK(ccs_create_multivariate_distribution(3, d, &m));
  ccs_configuration_space_t cs; OK(ccs_create_configuration_space("cs", &cs)); OK(ccs_configuration_space_add_parameters(cs, 3, p, NULL)); size_t ix[3] = {0, 1, 0}; ccs_result_t r = ccs_configuration_space_set_distribution(cs, m, ix); CHECK(r < 0); return 0; }
''')
KD='''#!/bin/bash
# cwd: the built repository. Exit 0: the property holds on this scenario. The connector is compiled with a clock the demo drives.
D=$(cd "$(dirname "$0")" && pwd); R=$PWD; T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
g++ -std=gnu++17 -g -O1 -w -I"$R/include" -I"$R/connectors/kokkos/include" -I"$R/connectors/kokkos" "$D/demo.cpp" "$R/connectors/kokkos/ccs-kokkos-connector.cpp" -o "$T/demo" -L"$R/_build/src/.libs" -lcconfigspace -lm -Wl,-rpath,"$R/_build/src/.libs" || exit 90
cd "$T" && timeout 60 ./demo
'''
KH=r'''#include <impl/Kokkos_Profiling_Interface.hpp>
#include <cconfigspace.h>
#include <time.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <map>
using namespace Kokkos::Tools::Experimental;
#define CHECK(c) do { if (!(c)) { fprintf(stderr, "FAILED line %d: %s\n", __LINE__, #c); exit(1); } } while (0)
extern "C" { void kokkosp_provide_tool_programming_interface(uint32_t, ToolProgrammingInterface); void kokkosp_begin_parallel_for(const char *, const uint32_t, uint64_t *); void kokkosp_end_parallel_for(const uint64_t); void kokkosp_init_library(const int, const uint64_t, const uint32_t, void *); void kokkosp_finalize_library();
void kokkosp_declare_input_type(const char *, const size_t, VariableInfo *); void kokkosp_declare_output_type(const char *, const size_t, VariableInfo *); void kokkosp_request_values(size_t, size_t, VariableValue *, size_t, VariableValue *); void kokkosp_begin_context(size_t); void kokkosp_end_context(size_t); }
static long long now = 1000000000LL; static int fences;
extern "C" int clock_gettime(clockid_t, struct timespec *t) { t->tv_sec = now / 1000000000LL; t->tv_nsec = now % 1000000000LL; return 0; }
static void fence(const uint32_t) { fences++; }
static int64_t set_in[2] = {1, 2}, set_out[4] = {10, 20, 30, 40};
static void declare(bool out, size_t id, const char *n, int64_t *v, size_t k) { VariableInfo *i = new VariableInfo; memset(i, 0, sizeof *i); i->type = ValueType::kokkos_value_int64; i->category = StatisticalCategory::kokkos_value_categorical; i->valueQuantity = CandidateValueType::kokkos_value_set; i->candidates.set.size = k; i->candidates.set.values.int_value = v; (out ? kokkosp_declare_output_type : kokkosp_declare_input_type)(n, id, i); VariableInfo *j = i; (void)j; infos()[id] = i; }
'''
KH=KH.replace("static void declare","static std::map<size_t, VariableInfo *> &infos() { static std::map<size_t, VariableInfo *> m; return m; }\nstatic void declare")
KH+=r'''static VariableValue val(size_t id, int64_t v) { VariableValue x; memset(&x, 0, sizeof x); x.type_id = id; x.value.int_value = v; x.metadata = infos()[id]; return x; }
static void init() { kokkosp_init_library(0, KOKKOSP_INTERFACE_VERSION, 0, nullptr); ToolProgrammingInterface p; memset(&p, 0, sizeof p); p.fence = fence; kokkosp_provide_tool_programming_interface(1, p); declare(false, 1, "in", set_in, 2); declare(true, 2, "out", set_out, 4); declare(false, 3, "in2", set_in, 2); declare(true, 4, "out2", set_out, 4); }
'''
import os
def kbug(i,prop,needs,breaks,edits,demo):
    if only and i not in only: return
    _b(i,prop,needs,breaks,edits,demo); d=mk.V+"/"+i; 
    for f in ("demo.c","dh.h"): os.remove(d+"/"+f)
    open(d+"/demo.cpp","w").write(KH+demo); open(d+"/demo.sh","w").write(KD)
kbug("c16-elapsed-wraps","C16","a region that runs for more than two seconds",
 "the elapsed time is computed in 32 bits, so long regions look faster than short ones",
 [(ko,"""                  ((ccs_int_t)(stop.tv_sec) - (ccs_int_t)(start.tv_sec)) *
                          1000000000 +""","""                  (int32_t)((uint32_t)((stop.tv_sec) - (start.tv_sec)) *
                          1000000000u) +""")],
r'''int main() { init(); size_t c = 1; VariableValue in = val(1, 1), out = val(2, 10);
  for (int k = 0; k < 500; k++) { out = val(2, 10); kokkosp_request_values(c, 1, &in, 1, &out); kokkosp_begin_context(c); now += out.value.int_value == 20 ? 1000000000LL : out.value.int_value == 10 ? 5000000000LL : 2000000000LL; kokkosp_end_context(c); c++; }
  out = val(2, 10); kokkosp_request_values(c, 1, &in, 1, &out); kokkosp_end_context(c); fprintf(stderr, "suggested %ld\n", (long)out.value.int_value); CHECK(out.value.int_value == 20); kokkosp_finalize_library(); return 0; }
''')
kbug("c16-converged-inner","C16","a converged region entered inside one that is still being measured",
 "an inner converged region hides the measurement of the enclosing one, so kernels are not fenced",
 [(ko,"  if (convergence_stack.top()) // if","  if (convergence_stack.top() || converged) // if")],
r'''int main() { init(); size_t c = 1; VariableValue in = val(1, 1), out = val(2, 10), in2 = val(3, 1), out2 = val(4, 10);
  for (int k = 0; k < 501; k++) { out = val(2, 10); kokkosp_request_values(c, 1, &in, 1, &out); now += 1000; kokkosp_end_context(c); c++; }
  size_t o = c++; kokkosp_request_values(o, 1, &in2, 1, &out2); size_t i = c++; out = val(2, 10); kokkosp_request_values(i, 1, &in, 1, &out); fences = 0; uint64_t k; kokkosp_begin_parallel_for("k", 0, &k); kokkosp_end_parallel_for(k); CHECK(fences == 2); kokkosp_end_context(i); kokkosp_end_context(o); kokkosp_finalize_library(); return 0; }
''')
