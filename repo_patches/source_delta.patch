From fe1e4b6c89defc24cb23d710d321b784b1ef329c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:37 +0000
Subject: [PATCH 01/47] fix: keep the buffer of a suspended non-blocking
 serialization

The base pointer of the transfer state was never set, so a resumed
transfer serialized again into a fresh state (or used an uninitialised
pointer), the state was leaked, and the result was uninitialised.
---
 src/cconfigspace.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cconfigspace.c b/src/cconfigspace.c
index 948cd55..f278efa 100644
--- a/src/cconfigspace.c
+++ b/src/cconfigspace.c
@@ -392,7 +392,7 @@ _ccs_object_serialize_file_descriptor(
 	va_list                args)
 {
 	int                             fd;
-	ccs_result_t                    res;
+	ccs_result_t                    res    = CCS_RESULT_SUCCESS;
 	_ccs_object_serialize_options_t opts   = {NULL, NULL, NULL};
 	_ccs_file_descriptor_state_t    state  = {NULL, 0, NULL, 0, -1, 0};
 	_ccs_file_descriptor_state_t   *pstate = NULL;
@@ -424,6 +424,7 @@ _ccs_object_serialize_file_descriptor(
 			CCS_REFUTE(!mem, CCS_RESULT_ERROR_OUT_OF_MEMORY);
 			*(opts.ppfd_state) = pstate =
 				(_ccs_file_descriptor_state_t *)mem;
+			pstate->base = mem;
 			pstate->base_size =
 				sizeof(_ccs_file_descriptor_state_t) +
 				object_size;
-- 
2.43.0


From ac5962b41a677ddc91539e8d61071bd0f36ccedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:38 +0000
Subject: [PATCH 02/47] fix: report the end of data when deserializing from a
 descriptor

read() returning 0 before the whole object was received looped forever.
---
 src/cconfigspace.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cconfigspace.c b/src/cconfigspace.c
index f278efa..cd9a356 100644
--- a/src/cconfigspace.c
+++ b/src/cconfigspace.c
@@ -819,6 +819,8 @@ _ccs_object_deserialize_file_descriptor_read_loop(
 			if (errno == EAGAIN && non_blocking)
 				return CCS_RESULT_AGAIN;
 		} else {
+			CCS_REFUTE(
+				count == 0, CCS_RESULT_ERROR_NOT_ENOUGH_DATA);
 			pstate->buffer_size -= count;
 			pstate->buffer += count;
 		}
-- 
2.43.0


From d9bf4bc160009303bfd3cd543a8aca39df97bd3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:38 +0000
Subject: [PATCH 03/47] fix: follow the state of a non-blocking deserialization
 when its buffer moves

realloc may move the buffer that also holds the transfer state; the old
address was written to, returned to the caller and freed.
---
 src/cconfigspace.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cconfigspace.c b/src/cconfigspace.c
index cd9a356..f23ae6e 100644
--- a/src/cconfigspace.c
+++ b/src/cconfigspace.c
@@ -918,6 +918,10 @@ _ccs_object_deserialize_file_descriptor(
 		CCS_REFUTE_ERR_GOTO(
 			res, !new_buffer, CCS_RESULT_ERROR_OUT_OF_MEMORY,
 			err_fd_buffer);
+		/* the state lives at the start of the reallocated buffer */
+		if (non_blocking)
+			*(opts.ppfd_state) = pstate =
+				(_ccs_file_descriptor_state_t *)new_buffer;
 		pstate->base = new_buffer;
 		/* seek to after the header */
 		offset       = header_size;
-- 
2.43.0


From de599977a2721c439ca5e9c4e8e15028dd14376f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:38 +0000
Subject: [PATCH 04/47] fix: check the size found in the header of a descriptor
 image

A size smaller than the header itself underflowed the amount to read.
---
 src/cconfigspace.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/cconfigspace.c b/src/cconfigspace.c
index f23ae6e..defbf3a 100644
--- a/src/cconfigspace.c
+++ b/src/cconfigspace.c
@@ -907,6 +907,13 @@ _ccs_object_deserialize_file_descriptor(
 				(const char **)&pstate->buffer, &object_size,
 				&pstate->version),
 			err_fd_buffer);
+		CCS_REFUTE_ERR_GOTO(
+			res,
+			object_size <= header_size ||
+				object_size >
+					SIZE_MAX -
+						sizeof(_ccs_file_descriptor_state_t),
+			CCS_RESULT_ERROR_INVALID_VALUE, err_fd_buffer);
 		/* reallocate buffer to account for whole size */
 		if (non_blocking)
 			pstate->base_size =
-- 
2.43.0


From 194dbfa6035ec19112e842bd2726aad57903211f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:00 +0000
Subject: [PATCH 05/47] fix: restore the generator and the user state of tree
 spaces

A static tree space came back with a fresh generator, and the state of a
dynamic tree space was never read: its deserialize_state callback always got
an empty state, and what follows the tree space in the image was misread.
---
 src/tree_space_deserialize.h | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/tree_space_deserialize.h b/src/tree_space_deserialize.h
index 69e02d3..2f3fc05 100644
--- a/src/tree_space_deserialize.h
+++ b/src/tree_space_deserialize.h
@@ -49,6 +49,13 @@ _ccs_deserialize_bin_tree_space_static(
 		ccs_create_static_tree_space(
 			data.name, data.tree, tree_space_ret),
 		end);
+	CCS_VALIDATE_ERR_GOTO(
+		res, ccs_tree_space_set_rng(*tree_space_ret, data.rng),
+		tree_space);
+	goto end;
+tree_space:
+	ccs_release_object(*tree_space_ret);
+	*tree_space_ret = NULL;
 end:
 	if (data.rng)
 		ccs_release_object(data.rng);
@@ -82,6 +89,10 @@ _ccs_deserialize_bin_tree_space_dynamic(
 		_ccs_deserialize_bin_ccs_tree_space_common_data(
 			&data.common_data, version, buffer_size, buffer, opts),
 		end);
+	CCS_VALIDATE_ERR_GOTO(
+		res,
+		_ccs_deserialize_bin_ccs_blob(&data.blob, buffer_size, buffer),
+		end);
 	CCS_VALIDATE_ERR_GOTO(
 		res,
 		ccs_create_dynamic_tree_space(
-- 
2.43.0


From 872c357629c85e581048188261b8f06c854a33b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:33 +0000
Subject: [PATCH 06/47] fix: leave nothing behind when deserialization fails
 and bound what an image announces

A failed deserialization could hand out a released object, leak the objects
already restored or release them twice, and counts and sizes found in the
image were trusted: they overflowed allocations, indexed past arrays and read
past the end of the data.
---
 src/binding_internal.h                |  2 +-
 src/cconfigspace.c                    | 26 +++++++++++++++++++-
 src/cconfigspace_internal.h           | 14 +++++++++++
 src/configuration_space_deserialize.h | 18 ++++++++++----
 src/context_deserialize.h             |  2 +-
 src/distribution_deserialize.h        |  7 +++---
 src/expression_deserialize.h          | 35 ++++++++++++++++++++-------
 src/features_tuner_deserialize.h      | 32 +++++++++++++++---------
 src/map_deserialize.h                 |  2 +-
 src/objective_space_deserialize.h     |  4 +--
 src/parameter_deserialize.h           |  3 ++-
 src/tree_configuration_deserialize.h  |  2 +-
 src/tree_deserialize.h                |  2 +-
 src/tree_space_deserialize.h          |  1 +
 src/tree_tuner_deserialize.h          | 15 ++++++++----
 src/tuner_deserialize.h               | 15 ++++++++----
 16 files changed, 132 insertions(+), 48 deletions(-)

diff --git a/src/binding_internal.h b/src/binding_internal.h
index f1ebd26..a258914 100644
--- a/src/binding_internal.h
+++ b/src/binding_internal.h
@@ -266,7 +266,7 @@ _ccs_deserialize_bin_ccs_binding_data(
 	(void)version;
 	CCS_VALIDATE(_ccs_deserialize_bin_ccs_object(
 		(ccs_object_t *)&data->context, buffer_size, buffer));
-	CCS_VALIDATE(_ccs_deserialize_bin_size(
+	CCS_VALIDATE(_ccs_deserialize_bin_count(
 		&data->num_values, buffer_size, buffer));
 	if (data->num_values) {
 		data->values = (ccs_datum_t *)calloc(
diff --git a/src/cconfigspace.c b/src/cconfigspace.c
index defbf3a..d3c1ecd 100644
--- a/src/cconfigspace.c
+++ b/src/cconfigspace.c
@@ -585,7 +585,7 @@ _ccs_object_deserialize_options(
 }
 
 static inline ccs_result_t
-_ccs_object_deserialize_with_opts(
+_ccs_object_deserialize_any(
 	ccs_object_t                      *object_ret,
 	ccs_serialize_format_t             format,
 	uint32_t                           version,
@@ -709,6 +709,30 @@ _ccs_object_deserialize_with_opts(
 	return CCS_RESULT_SUCCESS;
 }
 
+static inline ccs_result_t
+_ccs_object_deserialize_with_opts(
+	ccs_object_t                      *object_ret,
+	ccs_serialize_format_t             format,
+	uint32_t                           version,
+	size_t                            *buffer_size,
+	const char                       **buffer,
+	_ccs_object_deserialize_options_t *opts)
+{
+	ccs_result_t res    = CCS_RESULT_SUCCESS;
+	ccs_object_t object = NULL;
+	CCS_VALIDATE_ERR_GOTO(
+		res,
+		_ccs_object_deserialize_any(
+			&object, format, version, buffer_size, buffer, opts),
+		err_object);
+	*object_ret = object;
+	return CCS_RESULT_SUCCESS;
+err_object:
+	if (object)
+		ccs_release_object(object);
+	return res;
+}
+
 static inline ccs_result_t
 _ccs_object_deserialize(
 	ccs_object_t             *object_ret,
diff --git a/src/cconfigspace_internal.h b/src/cconfigspace_internal.h
index eb20271..5f7094d 100644
--- a/src/cconfigspace_internal.h
+++ b/src/cconfigspace_internal.h
@@ -750,6 +750,15 @@ _ccs_deserialize_bin_size(size_t *sz, size_t *buffer_size, const char **buffer)
 	return CCS_RESULT_SUCCESS;
 }
 
+/* number of elements that follow, each of them at least one byte long */
+static inline ccs_result_t
+_ccs_deserialize_bin_count(size_t *count, size_t *buffer_size, const char **buffer)
+{
+	CCS_VALIDATE(_ccs_deserialize_bin_size(count, buffer_size, buffer));
+	CCS_REFUTE(*buffer_size < *count, CCS_RESULT_ERROR_NOT_ENOUGH_DATA);
+	return CCS_RESULT_SUCCESS;
+}
+
 static inline size_t
 _ccs_serialize_bin_size_string(const char *str)
 {
@@ -778,6 +787,8 @@ _ccs_deserialize_bin_string(
 	size_t sz;
 	CCS_VALIDATE(_ccs_deserialize_bin_size(&sz, buffer_size, buffer));
 	CCS_REFUTE(*buffer_size < sz, CCS_RESULT_ERROR_NOT_ENOUGH_DATA);
+	CCS_REFUTE(
+		!sz || (*buffer)[sz - 1] != '\0', CCS_RESULT_ERROR_INVALID_VALUE);
 	*str = *buffer;
 	*buffer_size -= sz;
 	*buffer += sz;
@@ -1179,6 +1190,9 @@ _ccs_object_deserialize_user_data(
 		CCS_VALIDATE(_ccs_deserialize_bin_size(
 			&serialize_data_size, buffer_size, buffer));
 		if (serialize_data_size) {
+			CCS_REFUTE(
+				*buffer_size < serialize_data_size,
+				CCS_RESULT_ERROR_NOT_ENOUGH_DATA);
 			if (opts->deserialize_callback)
 				CCS_VALIDATE(opts->deserialize_callback(
 					object, serialize_data_size, *buffer,
diff --git a/src/configuration_space_deserialize.h b/src/configuration_space_deserialize.h
index 96b5faf..e1b1c7b 100644
--- a/src/configuration_space_deserialize.h
+++ b/src/configuration_space_deserialize.h
@@ -35,13 +35,13 @@ _ccs_deserialize_bin_ccs_configuration_space_data(
 
 	CCS_VALIDATE(
 		_ccs_deserialize_bin_string(&data->name, buffer_size, buffer));
-	CCS_VALIDATE(_ccs_deserialize_bin_size(
+	CCS_VALIDATE(_ccs_deserialize_bin_count(
 		&data->num_parameters, buffer_size, buffer));
-	CCS_VALIDATE(_ccs_deserialize_bin_size(
+	CCS_VALIDATE(_ccs_deserialize_bin_count(
 		&data->num_conditions, buffer_size, buffer));
-	CCS_VALIDATE(_ccs_deserialize_bin_size(
+	CCS_VALIDATE(_ccs_deserialize_bin_count(
 		&data->num_distributions, buffer_size, buffer));
-	CCS_VALIDATE(_ccs_deserialize_bin_size(
+	CCS_VALIDATE(_ccs_deserialize_bin_count(
 		&data->num_forbidden_clauses, buffer_size, buffer));
 	CCS_VALIDATE(_ccs_rng_deserialize(
 		&data->rng, CCS_SERIALIZE_FORMAT_BINARY, version, buffer_size,
@@ -88,6 +88,7 @@ _ccs_deserialize_bin_ccs_configuration_space_data(
 			version, buffer_size, buffer, opts));
 	}
 
+	size_t  dimension, num_indices = 0;
 	size_t *indices;
 	indices = data->distrib_parameter_indices;
 	for (size_t i = 0; i < data->num_distributions; i++) {
@@ -96,6 +97,13 @@ _ccs_deserialize_bin_ccs_configuration_space_data(
 			version, buffer_size, buffer, opts));
 		CCS_VALIDATE(_ccs_deserialize_bin_size(
 			data->dimensions + i, buffer_size, buffer));
+		CCS_VALIDATE(ccs_distribution_get_dimension(
+			data->distributions[i], &dimension));
+		CCS_REFUTE(
+			data->dimensions[i] != dimension ||
+				dimension > data->num_parameters - num_indices,
+			CCS_RESULT_ERROR_INVALID_VALUE);
+		num_indices += data->dimensions[i];
 		for (size_t j = 0; j < data->dimensions[i]; j++) {
 			CCS_VALIDATE(_ccs_deserialize_bin_size(
 				indices, buffer_size, buffer));
@@ -152,7 +160,7 @@ _ccs_deserialize_bin_configuration_space(
 		res,
 		ccs_configuration_space_set_rng(
 			*configuration_space_ret, data.rng),
-		end);
+		err_configuration_space);
 	CCS_VALIDATE_ERR_GOTO(
 		res,
 		ccs_configuration_space_add_parameters(
diff --git a/src/context_deserialize.h b/src/context_deserialize.h
index e8fa1c8..39e001b 100644
--- a/src/context_deserialize.h
+++ b/src/context_deserialize.h
@@ -22,7 +22,7 @@ _ccs_deserialize_bin_ccs_context_data(
 	data->parameters     = NULL;
 	CCS_VALIDATE(
 		_ccs_deserialize_bin_string(&data->name, buffer_size, buffer));
-	CCS_VALIDATE(_ccs_deserialize_bin_size(
+	CCS_VALIDATE(_ccs_deserialize_bin_count(
 		&data->num_parameters, buffer_size, buffer));
 	if (data->num_parameters) {
 		data->parameters = (ccs_parameter_t *)calloc(
diff --git a/src/distribution_deserialize.h b/src/distribution_deserialize.h
index d476cf4..a8d5493 100644
--- a/src/distribution_deserialize.h
+++ b/src/distribution_deserialize.h
@@ -130,7 +130,7 @@ _ccs_deserialize_bin_ccs_distribution_roulette_data(
 {
 	CCS_VALIDATE(_ccs_deserialize_bin_ccs_distribution_common_data(
 		&data->common_data, buffer_size, buffer));
-	CCS_VALIDATE(_ccs_deserialize_bin_size(
+	CCS_VALIDATE(_ccs_deserialize_bin_count(
 		&data->num_areas, buffer_size, buffer));
 	data->areas =
 		(ccs_float_t *)malloc(data->num_areas * sizeof(ccs_float_t));
@@ -198,7 +198,7 @@ _ccs_deserialize_bin_ccs_distribution_mixture_data(
 	new_opts.handle_map                        = NULL;
 	CCS_VALIDATE(_ccs_deserialize_bin_ccs_distribution_common_data(
 		&data->common_data, buffer_size, buffer));
-	CCS_VALIDATE(_ccs_deserialize_bin_size(
+	CCS_VALIDATE(_ccs_deserialize_bin_count(
 		&data->num_distributions, buffer_size, buffer));
 	data->distributions = (ccs_distribution_t *)calloc(
 		data->num_distributions, sizeof(ccs_distribution_t));
@@ -271,7 +271,7 @@ _ccs_deserialize_bin_ccs_distribution_multivariate_data(
 	new_opts.handle_map                        = NULL;
 	CCS_VALIDATE(_ccs_deserialize_bin_ccs_distribution_common_data(
 		&data->common_data, buffer_size, buffer));
-	CCS_VALIDATE(_ccs_deserialize_bin_size(
+	CCS_VALIDATE(_ccs_deserialize_bin_count(
 		&data->num_distributions, buffer_size, buffer));
 	data->distributions = (ccs_distribution_t *)calloc(
 		data->num_distributions, sizeof(ccs_distribution_t));
@@ -372,6 +372,7 @@ _ccs_deserialize_bin_distribution(
 	return CCS_RESULT_SUCCESS;
 err_dis:
 	ccs_release_object(*distribution_ret);
+	*distribution_ret = NULL;
 	return res;
 }
 
diff --git a/src/expression_deserialize.h b/src/expression_deserialize.h
index 15ec662..804214c 100644
--- a/src/expression_deserialize.h
+++ b/src/expression_deserialize.h
@@ -38,24 +38,40 @@ _ccs_deserialize_bin_ccs_expression_data(
 	data->nodes = NULL;
 	CCS_VALIDATE(_ccs_deserialize_bin_ccs_expression_type(
 		&data->type, buffer_size, buffer));
-	CCS_VALIDATE(_ccs_deserialize_bin_size(
+	CCS_VALIDATE(_ccs_deserialize_bin_count(
 		&data->num_nodes, buffer_size, buffer));
 	if (data->num_nodes) {
 		data->nodes = (ccs_datum_t *)calloc(
 			data->num_nodes, sizeof(ccs_datum_t));
 		CCS_REFUTE(!data->nodes, CCS_RESULT_ERROR_OUT_OF_MEMORY);
 		for (size_t i = 0; i < data->num_nodes; i++) {
-			ccs_expression_t expr;
 			CCS_VALIDATE(_ccs_expression_deserialize(
-				&expr, CCS_SERIALIZE_FORMAT_BINARY, version,
+				(ccs_expression_t *)&data->nodes[i].value.o,
+				CCS_SERIALIZE_FORMAT_BINARY, version,
 				buffer_size, buffer, opts));
-			data->nodes[i].type    = CCS_DATA_TYPE_OBJECT;
-			data->nodes[i].value.o = expr;
+			data->nodes[i].type = CCS_DATA_TYPE_OBJECT;
 		}
 	}
 	return CCS_RESULT_SUCCESS;
 }
 
+static inline ccs_result_t
+_ccs_deserialize_bin_ccs_expression_leaf_data(
+	_ccs_expression_data_mock_t *data,
+	uint32_t                     version,
+	size_t                      *buffer_size,
+	const char                 **buffer)
+{
+	(void)version;
+	data->nodes = NULL;
+	CCS_VALIDATE(_ccs_deserialize_bin_ccs_expression_type(
+		&data->type, buffer_size, buffer));
+	CCS_VALIDATE(_ccs_deserialize_bin_size(
+		&data->num_nodes, buffer_size, buffer));
+	CCS_REFUTE(data->num_nodes, CCS_RESULT_ERROR_INVALID_VALUE);
+	return CCS_RESULT_SUCCESS;
+}
+
 struct _ccs_expression_literal_data_mock_s {
 	_ccs_expression_data_mock_t expr;
 	ccs_datum_t                 value;
@@ -70,8 +86,8 @@ _ccs_deserialize_bin_ccs_expression_literal_data(
 	size_t                              *buffer_size,
 	const char                         **buffer)
 {
-	CCS_VALIDATE(_ccs_deserialize_bin_ccs_expression_data(
-		&data->expr, version, buffer_size, buffer, NULL));
+	CCS_VALIDATE(_ccs_deserialize_bin_ccs_expression_leaf_data(
+		&data->expr, version, buffer_size, buffer));
 	CCS_VALIDATE(_ccs_deserialize_bin_ccs_datum(
 		&data->value, buffer_size, buffer));
 	return CCS_RESULT_SUCCESS;
@@ -105,8 +121,8 @@ _ccs_deserialize_bin_ccs_expression_variable_data(
 	size_t                               *buffer_size,
 	const char                          **buffer)
 {
-	CCS_VALIDATE(_ccs_deserialize_bin_ccs_expression_data(
-		&data->expr, version, buffer_size, buffer, NULL));
+	CCS_VALIDATE(_ccs_deserialize_bin_ccs_expression_leaf_data(
+		&data->expr, version, buffer_size, buffer));
 	CCS_VALIDATE(_ccs_deserialize_bin_ccs_object(
 		(ccs_object_t *)&data->parameter, buffer_size, buffer));
 	return CCS_RESULT_SUCCESS;
@@ -218,6 +234,7 @@ _ccs_deserialize_bin_expression(
 	return CCS_RESULT_SUCCESS;
 err_exp:
 	ccs_release_object(*expression_ret);
+	*expression_ret = NULL;
 	return res;
 }
 
diff --git a/src/features_tuner_deserialize.h b/src/features_tuner_deserialize.h
index 73a35e7..9517ba6 100644
--- a/src/features_tuner_deserialize.h
+++ b/src/features_tuner_deserialize.h
@@ -52,9 +52,9 @@ _ccs_deserialize_bin_ccs_random_features_tuner_data(
 
 	CCS_VALIDATE(_ccs_deserialize_bin_ccs_features_tuner_common_data(
 		&data->common_data, version, buffer_size, buffer, opts));
-	CCS_VALIDATE(_ccs_deserialize_bin_size(
+	CCS_VALIDATE(_ccs_deserialize_bin_count(
 		&data->size_history, buffer_size, buffer));
-	CCS_VALIDATE(_ccs_deserialize_bin_size(
+	CCS_VALIDATE(_ccs_deserialize_bin_count(
 		&data->size_optima, buffer_size, buffer));
 
 	if (!(data->size_history + data->size_optima))
@@ -83,6 +83,7 @@ _ccs_deserialize_bin_ccs_random_features_tuner_data(
 		CCS_REFUTE(
 			d.type != CCS_DATA_TYPE_OBJECT,
 			CCS_RESULT_ERROR_INVALID_HANDLE);
+		CCS_CHECK_OBJ(d.value.o, CCS_OBJECT_TYPE_FEATURES_EVALUATION);
 		data->optima[i] = (ccs_features_evaluation_t)(d.value.o);
 	}
 	return CCS_RESULT_SUCCESS;
@@ -125,7 +126,7 @@ _ccs_deserialize_bin_random_features_tuner(
 		res,
 		_ccs_deserialize_bin_ccs_random_features_tuner_data(
 			&data, version, buffer_size, buffer, opts),
-		end);
+		features_evaluations);
 	CCS_VALIDATE_ERR_GOTO(
 		res,
 		ccs_create_random_features_tuner(
@@ -136,8 +137,11 @@ _ccs_deserialize_bin_random_features_tuner(
 		features_evaluations);
 	odata = (_ccs_random_features_tuner_data_clone_t
 			 *)((*features_tuner_ret)->data);
-	for (size_t i = 0; i < data.size_history; i++)
+	for (size_t i = 0; i < data.size_history; i++) {
 		utarray_push_back(odata->history, data.history + i);
+		/* the tuner owns this reference from now on */
+		data.history[i] = NULL;
+	}
 	for (size_t i = 0; i < data.size_optima; i++)
 		utarray_push_back(odata->optima, data.optima + i);
 	goto end;
@@ -145,8 +149,10 @@ features_tuner:
 	ccs_release_object(*features_tuner_ret);
 	*features_tuner_ret = NULL;
 features_evaluations:
-	for (size_t i = 0; i < data.size_history; i++)
-		ccs_release_object(data.history[i]);
+	if (data.history)
+		for (size_t i = 0; i < data.size_history; i++)
+			if (data.history[i])
+				ccs_release_object(data.history[i]);
 end:
 	if (data.common_data.configuration_space)
 		ccs_release_object(data.common_data.configuration_space);
@@ -205,7 +211,7 @@ _ccs_deserialize_bin_user_defined_features_tuner(
 		res,
 		_ccs_deserialize_bin_ccs_user_defined_features_tuner_data(
 			&data, version, buffer_size, buffer, opts),
-		end);
+		evaluations);
 	CCS_VALIDATE_ERR_GOTO(
 		res,
 		ccs_create_user_defined_features_tuner(
@@ -239,9 +245,10 @@ features_tuner:
 	ccs_release_object(*features_tuner_ret);
 	*features_tuner_ret = NULL;
 evaluations:
-	for (size_t i = 0; i < data.base_data.size_history; i++)
-		ccs_release_object(data.base_data.history[i]);
-end:
+	if (data.base_data.history)
+		for (size_t i = 0; i < data.base_data.size_history; i++)
+			if (data.base_data.history[i])
+				ccs_release_object(data.base_data.history[i]);
 	if (data.base_data.common_data.configuration_space)
 		ccs_release_object(
 			data.base_data.common_data.configuration_space);
@@ -299,8 +306,8 @@ _ccs_deserialize_bin_features_tuner(
 			end);
 		break;
 	default:
-		CCS_RAISE(
-			CCS_RESULT_ERROR_UNSUPPORTED_OPERATION,
+		CCS_RAISE_ERR_GOTO(
+			res, CCS_RESULT_ERROR_UNSUPPORTED_OPERATION, end,
 			"Unsuported features tuner type: %d", ttype);
 	}
 	if (opts->handle_map)
@@ -315,6 +322,7 @@ _ccs_deserialize_bin_features_tuner(
 	goto end;
 err_features_tuner:
 	ccs_release_object(*features_tuner_ret);
+	*features_tuner_ret = NULL;
 end:
 	ccs_release_object(new_opts.handle_map);
 	return res;
diff --git a/src/map_deserialize.h b/src/map_deserialize.h
index 4f44632..908e404 100644
--- a/src/map_deserialize.h
+++ b/src/map_deserialize.h
@@ -21,7 +21,7 @@ _ccs_deserialize_bin_ccs_map_data(
 	size_t               *buffer_size,
 	const char          **buffer)
 {
-	CCS_VALIDATE(_ccs_deserialize_bin_size(
+	CCS_VALIDATE(_ccs_deserialize_bin_count(
 		&data->num_pairs, buffer_size, buffer));
 	data->pairs = (_ccs_map_pair_t *)malloc(
 		data->num_pairs * sizeof(_ccs_map_pair_t));
diff --git a/src/objective_space_deserialize.h b/src/objective_space_deserialize.h
index 3baec98..f324e9c 100644
--- a/src/objective_space_deserialize.h
+++ b/src/objective_space_deserialize.h
@@ -25,9 +25,9 @@ _ccs_deserialize_bin_ccs_objective_space_data(
 
 	CCS_VALIDATE(
 		_ccs_deserialize_bin_string(&data->name, buffer_size, buffer));
-	CCS_VALIDATE(_ccs_deserialize_bin_size(
+	CCS_VALIDATE(_ccs_deserialize_bin_count(
 		&data->num_parameters, buffer_size, buffer));
-	CCS_VALIDATE(_ccs_deserialize_bin_size(
+	CCS_VALIDATE(_ccs_deserialize_bin_count(
 		&data->num_objectives, buffer_size, buffer));
 
 	if (!(data->num_parameters + data->num_objectives))
diff --git a/src/parameter_deserialize.h b/src/parameter_deserialize.h
index c702021..a22dea4 100644
--- a/src/parameter_deserialize.h
+++ b/src/parameter_deserialize.h
@@ -48,7 +48,7 @@ _ccs_deserialize_bin_ccs_parameter_categorical_data(
 {
 	CCS_VALIDATE(_ccs_deserialize_bin_ccs_parameter_common_data(
 		&data->common_data, buffer_size, buffer));
-	CCS_VALIDATE(_ccs_deserialize_bin_size(
+	CCS_VALIDATE(_ccs_deserialize_bin_count(
 		&data->num_possible_values, buffer_size, buffer));
 	data->possible_values = (ccs_datum_t *)malloc(
 		data->num_possible_values * sizeof(ccs_datum_t));
@@ -204,6 +204,7 @@ _ccs_deserialize_bin_parameter(
 	return CCS_RESULT_SUCCESS;
 err_parameter:
 	ccs_release_object(*parameter_ret);
+	*parameter_ret = NULL;
 	return res;
 }
 
diff --git a/src/tree_configuration_deserialize.h b/src/tree_configuration_deserialize.h
index a46e280..38a4508 100644
--- a/src/tree_configuration_deserialize.h
+++ b/src/tree_configuration_deserialize.h
@@ -13,7 +13,7 @@ _ccs_deserialize_bin_tree_configuration_data(
 	(void)version;
 	CCS_VALIDATE(_ccs_deserialize_bin_ccs_object(
 		(ccs_object_t *)&data->tree_space, buffer_size, buffer));
-	CCS_VALIDATE(_ccs_deserialize_bin_size(
+	CCS_VALIDATE(_ccs_deserialize_bin_count(
 		&data->position_size, buffer_size, buffer));
 	if (data->position_size) {
 		data->position =
diff --git a/src/tree_deserialize.h b/src/tree_deserialize.h
index fbed9f0..542f1a9 100644
--- a/src/tree_deserialize.h
+++ b/src/tree_deserialize.h
@@ -32,7 +32,7 @@ _ccs_deserialize_bin_ccs_tree_data(
 	_ccs_object_deserialize_options_t new_opts = *opts;
 	new_opts.handle_map                        = NULL;
 	CCS_VALIDATE(
-		_ccs_deserialize_bin_size(&data->arity, buffer_size, buffer));
+		_ccs_deserialize_bin_count(&data->arity, buffer_size, buffer));
 	CCS_VALIDATE(_ccs_deserialize_bin_ccs_float(
 		&data->weight, buffer_size, buffer));
 	if (data->arity) {
diff --git a/src/tree_space_deserialize.h b/src/tree_space_deserialize.h
index 2f3fc05..5b637fc 100644
--- a/src/tree_space_deserialize.h
+++ b/src/tree_space_deserialize.h
@@ -165,6 +165,7 @@ _ccs_deserialize_bin_tree_space(
 	return CCS_RESULT_SUCCESS;
 err_tree_space:
 	ccs_release_object(*tree_space_ret);
+	*tree_space_ret = NULL;
 	return res;
 }
 
diff --git a/src/tree_tuner_deserialize.h b/src/tree_tuner_deserialize.h
index 5126d68..213251d 100644
--- a/src/tree_tuner_deserialize.h
+++ b/src/tree_tuner_deserialize.h
@@ -48,9 +48,9 @@ _ccs_deserialize_bin_ccs_random_tree_tuner_data(
 
 	CCS_VALIDATE(_ccs_deserialize_bin_size_ccs_tree_tuner_common_data(
 		&data->common_data, version, buffer_size, buffer, opts));
-	CCS_VALIDATE(_ccs_deserialize_bin_size(
+	CCS_VALIDATE(_ccs_deserialize_bin_count(
 		&data->size_history, buffer_size, buffer));
-	CCS_VALIDATE(_ccs_deserialize_bin_size(
+	CCS_VALIDATE(_ccs_deserialize_bin_count(
 		&data->size_optima, buffer_size, buffer));
 
 	if (!(data->size_history + data->size_optima))
@@ -79,6 +79,7 @@ _ccs_deserialize_bin_ccs_random_tree_tuner_data(
 		CCS_REFUTE(
 			d.type != CCS_DATA_TYPE_OBJECT,
 			CCS_RESULT_ERROR_INVALID_HANDLE);
+		CCS_CHECK_OBJ(d.value.o, CCS_OBJECT_TYPE_TREE_EVALUATION);
 		data->optima[i] = (ccs_tree_evaluation_t)(d.value.o);
 	}
 	return CCS_RESULT_SUCCESS;
@@ -125,8 +126,11 @@ _ccs_deserialize_bin_random_tree_tuner(
 			data.common_data.objective_space, tuner_ret),
 		evaluations);
 	odata = (_ccs_random_tree_tuner_data_clone_t *)((*tuner_ret)->data);
-	for (size_t i = 0; i < data.size_history; i++)
+	for (size_t i = 0; i < data.size_history; i++) {
 		utarray_push_back(odata->history, data.history + i);
+		/* the tuner owns this reference from now on */
+		data.history[i] = NULL;
+	}
 	for (size_t i = 0; i < data.size_optima; i++)
 		utarray_push_back(odata->optima, data.optima + i);
 	goto end;
@@ -279,8 +283,8 @@ _ccs_deserialize_bin_tree_tuner(
 			end);
 		break;
 	default:
-		CCS_RAISE(
-			CCS_RESULT_ERROR_INVALID_TYPE,
+		CCS_RAISE_ERR_GOTO(
+			res, CCS_RESULT_ERROR_INVALID_TYPE, end,
 			"Unsupported tuner type: %d", ttype);
 	}
 	if (opts->handle_map)
@@ -295,6 +299,7 @@ _ccs_deserialize_bin_tree_tuner(
 	goto end;
 err_tuner:
 	ccs_release_object(*tuner_ret);
+	*tuner_ret = NULL;
 end:
 	ccs_release_object(new_opts.handle_map);
 	return res;
diff --git a/src/tuner_deserialize.h b/src/tuner_deserialize.h
index 468a24b..9f84b92 100644
--- a/src/tuner_deserialize.h
+++ b/src/tuner_deserialize.h
@@ -47,9 +47,9 @@ _ccs_deserialize_bin_ccs_random_tuner_data(
 
 	CCS_VALIDATE(_ccs_deserialize_bin_size_ccs_tuner_common_data(
 		&data->common_data, version, buffer_size, buffer, opts));
-	CCS_VALIDATE(_ccs_deserialize_bin_size(
+	CCS_VALIDATE(_ccs_deserialize_bin_count(
 		&data->size_history, buffer_size, buffer));
-	CCS_VALIDATE(_ccs_deserialize_bin_size(
+	CCS_VALIDATE(_ccs_deserialize_bin_count(
 		&data->size_optima, buffer_size, buffer));
 
 	if (!(data->size_history + data->size_optima))
@@ -78,6 +78,7 @@ _ccs_deserialize_bin_ccs_random_tuner_data(
 		CCS_REFUTE(
 			d.type != CCS_DATA_TYPE_OBJECT,
 			CCS_RESULT_ERROR_INVALID_HANDLE);
+		CCS_CHECK_OBJ(d.value.o, CCS_OBJECT_TYPE_EVALUATION);
 		data->optima[i] = (ccs_evaluation_t)(d.value.o);
 	}
 	return CCS_RESULT_SUCCESS;
@@ -124,8 +125,11 @@ _ccs_deserialize_bin_random_tuner(
 			data.common_data.objective_space, tuner_ret),
 		evaluations);
 	odata = (_ccs_random_tuner_data_clone_t *)((*tuner_ret)->data);
-	for (size_t i = 0; i < data.size_history; i++)
+	for (size_t i = 0; i < data.size_history; i++) {
 		utarray_push_back(odata->history, data.history + i);
+		/* the tuner owns this reference from now on */
+		data.history[i] = NULL;
+	}
 	for (size_t i = 0; i < data.size_optima; i++)
 		utarray_push_back(odata->optima, data.optima + i);
 	goto end;
@@ -278,8 +282,8 @@ _ccs_deserialize_bin_tuner(
 			end);
 		break;
 	default:
-		CCS_RAISE(
-			CCS_RESULT_ERROR_INVALID_TYPE,
+		CCS_RAISE_ERR_GOTO(
+			res, CCS_RESULT_ERROR_INVALID_TYPE, end,
 			"Unsupported tuner type: %d", ttype);
 	}
 	if (opts->handle_map)
@@ -294,6 +298,7 @@ _ccs_deserialize_bin_tuner(
 	goto end;
 err_tuner:
 	ccs_release_object(*tuner_ret);
+	*tuner_ret = NULL;
 end:
 	ccs_release_object(new_opts.handle_map);
 	return res;
-- 
2.43.0


From 10a9e810b7180c0c9f9b12f741fe7311c2e7e92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:08 +0000
Subject: [PATCH 07/47] fix: refuse to make a tree its own descendant

ccs_tree_set_child accepted the tree itself or one of its ancestors as child
and then never returned, updating weights around the cycle.
---
 src/tree.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tree.c b/src/tree.c
index 7c37190..009985f 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -271,6 +271,9 @@ ccs_tree_set_child(ccs_tree_t tree, size_t index, ccs_tree_t child)
 	CCS_REFUTE(
 		child_data->parent || child_data->index,
 		CCS_RESULT_ERROR_INVALID_TREE);
+	/* a tree cannot become its own descendant */
+	for (ccs_tree_t t = tree; t; t = t->data->parent)
+		CCS_REFUTE(t == child, CCS_RESULT_ERROR_INVALID_TREE);
 	CCS_VALIDATE(ccs_retain_object(child));
 
 	child_data->parent         = tree;
-- 
2.43.0


From 18d2bc55cb4f91af1a89558598934d2ed738029c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:23 +0000
Subject: [PATCH 08/47] fix: ccs_map_get_keys returns the keys

---
 src/map.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/map.c b/src/map.c
index b10d5d0..91f21ae 100644
--- a/src/map.c
+++ b/src/map.c
@@ -294,7 +294,7 @@ ccs_map_get_keys(
 		_ccs_map_datum_t *current = NULL, *tmp;
 		size_t            i       = 0;
 		HASH_ITER(hh, map->data->map, current, tmp)
-		keys[i++] = current->value;
+		keys[i++] = current->key;
 		for (i = num_entries; i < num_keys; i++)
 			keys[i] = ccs_none;
 	}
-- 
2.43.0


From c16a2e8b0bdd19ecfba0639201e696331ebdbf8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:23 +0000
Subject: [PATCH 09/47] fix: keep the old value when replacing it in a map runs
 out of memory

---
 src/map.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/map.c b/src/map.c
index 91f21ae..8f4a30d 100644
--- a/src/map.c
+++ b/src/map.c
@@ -223,9 +223,9 @@ ccs_map_set(ccs_map_t map, ccs_datum_t key, ccs_datum_t value)
 	_ccs_map_set_string(&entry->key, sz1, &mem);
 	_ccs_map_set_string(&entry->value, sz2, &mem);
 
+	HASH_ADD(hh, d->map, key, sizeof(ccs_datum_t), entry);
 	if (old_entry)
 		_ccs_map_remove(d, old_entry);
-	HASH_ADD(hh, d->map, key, sizeof(ccs_datum_t), entry);
 	return CCS_RESULT_SUCCESS;
 err_mem:
 	free(entry);
-- 
2.43.0


From 9089acac80949d6082f324aec4adfeac03235842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:32 +0000
Subject: [PATCH 10/47] fix: a dynamic array that cannot grow keeps its
 capacity

---
 src/utarray.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/utarray.h b/src/utarray.h
index 1fe8bc1..5286144 100644
--- a/src/utarray.h
+++ b/src/utarray.h
@@ -92,11 +92,15 @@ typedef struct {
 #define utarray_reserve(a,by) do {                                            \
   if (((a)->i+(by)) > (a)->n) {                                               \
     char *utarray_tmp;                                                        \
-    while (((a)->i+(by)) > (a)->n) { (a)->n = ((a)->n ? (2*(a)->n) : 8); }    \
-    utarray_tmp=(char*)realloc((a)->d, (a)->n*(a)->icd.sz);                   \
+    unsigned utarray_n = (a)->n;                                              \
+    while (((a)->i+(by)) > utarray_n) {                                       \
+      utarray_n = (utarray_n ? (2*utarray_n) : 8);                            \
+    }                                                                         \
+    utarray_tmp=(char*)realloc((a)->d, utarray_n*(a)->icd.sz);                \
     if (utarray_tmp == NULL) {                                                \
       utarray_oom();                                                          \
     }                                                                         \
+    (a)->n=utarray_n;                                                         \
     (a)->d=utarray_tmp;                                                       \
   }                                                                           \
 } while(0)
-- 
2.43.0


From 35cc0373f9f445257a19221a1c3d8a94492b17d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:32 +0000
Subject: [PATCH 11/47] fix: compute the activation order before building the
 default configuration

---
 src/configuration_space.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/configuration_space.c b/src/configuration_space.c
index 6392af3..191f82a 100644
--- a/src/configuration_space.c
+++ b/src/configuration_space.c
@@ -866,6 +866,8 @@ ccs_configuration_space_get_default_configuration(
 	CCS_CHECK_PTR(configuration_ret);
 	ccs_result_t        err;
 	ccs_configuration_t config;
+	if (!configuration_space->data->graph_ok)
+		CCS_VALIDATE(_generate_constraints(configuration_space));
 	CCS_VALIDATE(ccs_create_configuration(
 		configuration_space, 0, NULL, &config));
 	UT_array *array = configuration_space->data->parameters;
-- 
2.43.0


From 476b2a3e5fcacaf191edf2a0ec7c89179f1b8e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:11 +0000
Subject: [PATCH 12/47] fix: release the unfinished configuration when sampling
 several fails

---
 src/configuration_space.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/configuration_space.c b/src/configuration_space.c
index 191f82a..aed8bbf 100644
--- a/src/configuration_space.c
+++ b/src/configuration_space.c
@@ -1103,8 +1103,11 @@ ccs_configuration_space_samples(
 	while (count < num_configurations &&
 	       counter < 100 * num_configurations) {
 		if (!config)
-			CCS_VALIDATE(ccs_create_configuration(
-				configuration_space, 0, NULL, &config));
+			CCS_VALIDATE_ERR_GOTO(
+				err,
+				ccs_create_configuration(
+					configuration_space, 0, NULL, &config),
+				errc);
 		CCS_VALIDATE_ERR_GOTO(
 			err, _sample(configuration_space, config, &found),
 			errc);
@@ -1114,12 +1117,13 @@ ccs_configuration_space_samples(
 			config                  = NULL;
 		}
 	}
-	CCS_REFUTE(
-		count < num_configurations,
-		CCS_RESULT_ERROR_SAMPLING_UNSUCCESSFUL);
+	CCS_REFUTE_ERR_GOTO(
+		err, count < num_configurations,
+		CCS_RESULT_ERROR_SAMPLING_UNSUCCESSFUL, errc);
 	return CCS_RESULT_SUCCESS;
 errc:
-	ccs_release_object(config);
+	if (config)
+		ccs_release_object(config);
 	return err;
 }
 
-- 
2.43.0


From abb75c864b59dbbbf3ddef699b2fa1f74e4796c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:11 +0000
Subject: [PATCH 13/47] fix: release the new distributions when setting a
 distribution runs out of memory

---
 src/configuration_space.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/configuration_space.c b/src/configuration_space.c
index aed8bbf..b5404b8 100644
--- a/src/configuration_space.c
+++ b/src/configuration_space.c
@@ -640,7 +640,7 @@ ccs_configuration_space_set_distribution(
 		dmem = (uintptr_t)malloc(
 			sizeof(_ccs_distribution_wrapper_t) + sizeof(size_t));
 		CCS_REFUTE_ERR_GOTO(
-			err, !dmem, CCS_RESULT_ERROR_OUT_OF_MEMORY, memory);
+			err, !dmem, CCS_RESULT_ERROR_OUT_OF_MEMORY, dwrappers);
 		dwrapper = (_ccs_distribution_wrapper_t *)dmem;
 		dwrapper->parameter_indexes =
 			(size_t *)(dmem + sizeof(_ccs_distribution_wrapper_t));
-- 
2.43.0


From e0a565d9782bc3f448ad683096f25848709a0fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:38 +0000
Subject: [PATCH 14/47] fix: leave a configuration space unchanged when adding
 to it runs out of memory

---
 src/configuration_space.c | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/configuration_space.c b/src/configuration_space.c
index b5404b8..b13524b 100644
--- a/src/configuration_space.c
+++ b/src/configuration_space.c
@@ -423,7 +423,8 @@ ccs_configuration_space_get_rng(
 #define uthash_nonfatal_oom(elt)                                               \
 	{                                                                      \
 		CCS_RAISE_ERR_GOTO(                                            \
-			err, CCS_RESULT_ERROR_OUT_OF_MEMORY, errorutarray,     \
+			err, CCS_RESULT_ERROR_OUT_OF_MEMORY,                   \
+			errordistrib_wrapper,                                  \
 			"Out of memory to allocate hash");                     \
 	}
 ccs_result_t
@@ -461,6 +462,8 @@ ccs_configuration_space_add_parameter(
 	_ccs_distribution_wrapper_t *distrib_wrapper;
 	uintptr_t                    pmem;
 	parameter_wrapper.parameter = parameter;
+	parameter_wrapper.parents   = NULL;
+	parameter_wrapper.children  = NULL;
 	CCS_VALIDATE(ccs_retain_object(parameter));
 
 	if (distribution) {
@@ -507,26 +510,34 @@ ccs_configuration_space_add_parameter(
 	parameter_wrapper.distribution_index  = 0;
 	parameter_wrapper.distribution        = distrib_wrapper;
 	parameter_wrapper.condition           = NULL;
-	parameter_wrapper.parents             = NULL;
-	parameter_wrapper.children            = NULL;
 	utarray_new(parameter_wrapper.parents, &_size_t_icd);
 	utarray_new(parameter_wrapper.children, &_size_t_icd);
 
-	utarray_push_back(parameters, &parameter_wrapper);
-	utarray_push_back(configuration_space->data->sorted_indexes, &index);
+	utarray_reserve(parameters, 1);
+	utarray_reserve(configuration_space->data->sorted_indexes, 1);
 
 	HASH_ADD_KEYPTR(
 		hh_name, configuration_space->data->name_hash,
 		parameter_hash->name, sz_name, parameter_hash);
+#undef uthash_nonfatal_oom
+#define uthash_nonfatal_oom(elt)                                               \
+	{                                                                      \
+		CCS_RAISE_ERR_GOTO(                                            \
+			err, CCS_RESULT_ERROR_OUT_OF_MEMORY, errorname,        \
+			"Out of memory to allocate hash");                     \
+	}
 	HASH_ADD(
 		hh_handle, configuration_space->data->handle_hash, parameter,
 		sizeof(ccs_parameter_t), parameter_hash);
+	utarray_push_back(parameters, &parameter_wrapper);
+	utarray_push_back(configuration_space->data->sorted_indexes, &index);
 	DL_APPEND(
 		configuration_space->data->distribution_list, distrib_wrapper);
 
 	return CCS_RESULT_SUCCESS;
-errorutarray:
-	utarray_pop_back(parameters);
+errorname:
+	HASH_DELETE(
+		hh_name, configuration_space->data->name_hash, parameter_hash);
 errordistrib_wrapper:
 	if (parameter_hash)
 		free(parameter_hash);
@@ -1420,6 +1431,7 @@ ccs_configuration_space_add_forbidden_clause(
 		CCS_RAISE_ERR_GOTO(
 			err, CCS_RESULT_ERROR_INVALID_CONFIGURATION, end,
 			"Default configuration is invalid");
+	utarray_reserve(configuration_space->data->forbidden_clauses, 1);
 	CCS_VALIDATE_ERR_GOTO(err, ccs_retain_object(expression), end);
 	utarray_push_back(
 		configuration_space->data->forbidden_clauses, &expression);
-- 
2.43.0


From 22d5169e5ebaa713b053a624d807477815fdbcf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:38 +0000
Subject: [PATCH 15/47] fix: leave features and objective spaces unchanged when
 adding to them runs out of memory

---
 src/features_space.c  | 16 ++++++++++++----
 src/objective_space.c | 18 ++++++++++++++----
 2 files changed, 26 insertions(+), 8 deletions(-)

diff --git a/src/features_space.c b/src/features_space.c
index 7bec62d..248a1b3 100644
--- a/src/features_space.c
+++ b/src/features_space.c
@@ -144,7 +144,7 @@ ccs_features_space_get_name(
 #define uthash_nonfatal_oom(elt)                                               \
 	{                                                                      \
 		CCS_RAISE_ERR_GOTO(                                            \
-			err, CCS_RESULT_ERROR_OUT_OF_MEMORY, errorutarray,     \
+			err, CCS_RESULT_ERROR_OUT_OF_MEMORY, errormem,         \
 			"Not enough memory to allocate hash");                 \
 	}
 ccs_result_t
@@ -182,18 +182,26 @@ ccs_features_space_add_parameter(
 	parameter_hash->name      = name;
 	parameter_hash->index     = utarray_len(parameters);
 
-	utarray_push_back(parameters, &parameter_wrapper);
+	utarray_reserve(parameters, 1);
 
 	HASH_ADD_KEYPTR(
 		hh_name, features_space->data->name_hash, parameter_hash->name,
 		sz_name, parameter_hash);
+#undef uthash_nonfatal_oom
+#define uthash_nonfatal_oom(elt)                                               \
+	{                                                                      \
+		CCS_RAISE_ERR_GOTO(                                            \
+			err, CCS_RESULT_ERROR_OUT_OF_MEMORY, errorname,        \
+			"Not enough memory to allocate hash");                 \
+	}
 	HASH_ADD(
 		hh_handle, features_space->data->handle_hash, parameter,
 		sizeof(ccs_parameter_t), parameter_hash);
+	utarray_push_back(parameters, &parameter_wrapper);
 
 	return CCS_RESULT_SUCCESS;
-errorutarray:
-	utarray_pop_back(parameters);
+errorname:
+	HASH_DELETE(hh_name, features_space->data->name_hash, parameter_hash);
 errormem:
 	free(parameter_hash);
 errorparameter:
diff --git a/src/objective_space.c b/src/objective_space.c
index 0355ea6..ddc1e76 100644
--- a/src/objective_space.c
+++ b/src/objective_space.c
@@ -271,7 +271,7 @@ ccs_objective_space_get_name(
 #define uthash_nonfatal_oom(elt)                                               \
 	{                                                                      \
 		CCS_RAISE_ERR_GOTO(                                            \
-			err, CCS_RESULT_ERROR_OUT_OF_MEMORY, errorutarray,     \
+			err, CCS_RESULT_ERROR_OUT_OF_MEMORY, errormem,         \
 			"Not enough memory to allocate hash");                 \
 	}
 ccs_result_t
@@ -310,18 +310,26 @@ ccs_objective_space_add_parameter(
 	parameter_hash->name      = name;
 	parameter_hash->index     = utarray_len(parameters);
 
-	utarray_push_back(parameters, &parameter_wrapper);
+	utarray_reserve(parameters, 1);
 
 	HASH_ADD_KEYPTR(
 		hh_name, objective_space->data->name_hash, parameter_hash->name,
 		sz_name, parameter_hash);
+#undef uthash_nonfatal_oom
+#define uthash_nonfatal_oom(elt)                                               \
+	{                                                                      \
+		CCS_RAISE_ERR_GOTO(                                            \
+			err, CCS_RESULT_ERROR_OUT_OF_MEMORY, errorname,        \
+			"Not enough memory to allocate hash");                 \
+	}
 	HASH_ADD(
 		hh_handle, objective_space->data->handle_hash, parameter,
 		sizeof(ccs_parameter_t), parameter_hash);
+	utarray_push_back(parameters, &parameter_wrapper);
 
 	return CCS_RESULT_SUCCESS;
-errorutarray:
-	utarray_pop_back(parameters);
+errorname:
+	HASH_DELETE(hh_name, objective_space->data->name_hash, parameter_hash);
 errormem:
 	free(parameter_hash);
 errorparameter:
@@ -500,6 +508,7 @@ ccs_objective_space_add_objective(
 	CCS_CHECK_OBJ(objective_space, CCS_OBJECT_TYPE_OBJECTIVE_SPACE);
 	CCS_VALIDATE(ccs_expression_check_context(
 		expression, (ccs_context_t)objective_space));
+	utarray_reserve(objective_space->data->objectives, 1);
 	CCS_VALIDATE(ccs_retain_object(expression));
 	_ccs_objective_t objective;
 	objective.expression = expression;
@@ -521,6 +530,7 @@ ccs_objective_space_add_objectives(
 	for (size_t i = 0; i < num_objectives; i++) {
 		CCS_VALIDATE(ccs_expression_check_context(
 			expressions[i], (ccs_context_t)objective_space));
+		utarray_reserve(objective_space->data->objectives, 1);
 		CCS_VALIDATE(ccs_retain_object(expressions[i]));
 		_ccs_objective_t objective;
 		objective.expression = expressions[i];
-- 
2.43.0


From 06823ef0f9bc4b4157ab801722978d4a316bbe12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:37 +0000
Subject: [PATCH 16/47] fix: telling a random tuner leaves it consistent when
 memory runs out

---
 src/features_tuner_random.c | 16 +++++-----------
 src/tree_tuner_random.c     | 16 +++++-----------
 src/tuner_random.c          | 16 +++++-----------
 3 files changed, 15 insertions(+), 33 deletions(-)

diff --git a/src/features_tuner_random.c b/src/features_tuner_random.c
index ef3d602..96e8c9d 100644
--- a/src/features_tuner_random.c
+++ b/src/features_tuner_random.c
@@ -179,7 +179,6 @@ _ccs_features_tuner_random_ask(
 #undef utarray_oom
 #define utarray_oom()                                                          \
 	{                                                                      \
-		ccs_release_object(evaluations[i]);                            \
 		CCS_RAISE(                                                     \
 			CCS_RESULT_ERROR_OUT_OF_MEMORY,                        \
 			"Not enough memory to allocate new array");            \
@@ -201,21 +200,16 @@ _ccs_features_tuner_random_tell(
 		if (result == CCS_RESULT_SUCCESS) {
 			int       discard = 0;
 			UT_array *tmp;
-			ccs_retain_object(evaluations[i]);
+			utarray_clear(d->old_optima);
+			utarray_reserve(history, 1);
+			utarray_reserve(
+				d->old_optima, utarray_len(d->optima) + 1);
+			CCS_VALIDATE(ccs_retain_object(evaluations[i]));
 			utarray_push_back(history, evaluations + i);
 			tmp           = d->old_optima;
 			d->old_optima = d->optima;
 			d->optima     = tmp;
-			utarray_clear(d->optima);
 			ccs_features_evaluation_t *eval = NULL;
-#undef utarray_oom
-#define utarray_oom()                                                          \
-	{                                                                      \
-		d->optima = d->old_optima;                                     \
-		CCS_RAISE(                                                     \
-			CCS_RESULT_ERROR_OUT_OF_MEMORY,                        \
-			"Not enough memory to allocate new array");            \
-	}
 			while ((eval = (ccs_features_evaluation_t *)
 					utarray_next(d->old_optima, eval))) {
 				if (!discard) {
diff --git a/src/tree_tuner_random.c b/src/tree_tuner_random.c
index ed39c99..97e3e7c 100644
--- a/src/tree_tuner_random.c
+++ b/src/tree_tuner_random.c
@@ -171,7 +171,6 @@ _ccs_tree_tuner_random_ask(
 #undef utarray_oom
 #define utarray_oom()                                                          \
 	{                                                                      \
-		ccs_release_object(evaluations[i]);                            \
 		CCS_RAISE(                                                     \
 			CCS_RESULT_ERROR_OUT_OF_MEMORY,                        \
 			"Out of memory to allocate array");                    \
@@ -193,21 +192,16 @@ _ccs_tree_tuner_random_tell(
 		if (!result) {
 			int       discard = 0;
 			UT_array *tmp;
-			ccs_retain_object(evaluations[i]);
+			utarray_clear(d->old_optima);
+			utarray_reserve(history, 1);
+			utarray_reserve(
+				d->old_optima, utarray_len(d->optima) + 1);
+			CCS_VALIDATE(ccs_retain_object(evaluations[i]));
 			utarray_push_back(history, evaluations + i);
 			tmp           = d->old_optima;
 			d->old_optima = d->optima;
 			d->optima     = tmp;
-			utarray_clear(d->optima);
 			ccs_tree_evaluation_t *eval = NULL;
-#undef utarray_oom
-#define utarray_oom()                                                          \
-	{                                                                      \
-		d->optima = d->old_optima;                                     \
-		CCS_RAISE(                                                     \
-			CCS_RESULT_ERROR_OUT_OF_MEMORY,                        \
-			"Out of memory to allocate array");                    \
-	}
 			while ((eval = (ccs_tree_evaluation_t *)utarray_next(
 					d->old_optima, eval))) {
 				if (!discard) {
diff --git a/src/tuner_random.c b/src/tuner_random.c
index e9c072f..68a33e7 100644
--- a/src/tuner_random.c
+++ b/src/tuner_random.c
@@ -171,7 +171,6 @@ _ccs_tuner_random_ask(
 #undef utarray_oom
 #define utarray_oom()                                                          \
 	{                                                                      \
-		ccs_release_object(evaluations[i]);                            \
 		CCS_RAISE(                                                     \
 			CCS_RESULT_ERROR_OUT_OF_MEMORY,                        \
 			"Out of memory to allocate array");                    \
@@ -192,21 +191,16 @@ _ccs_tuner_random_tell(
 		if (!result) {
 			int       discard = 0;
 			UT_array *tmp;
-			ccs_retain_object(evaluations[i]);
+			utarray_clear(d->old_optima);
+			utarray_reserve(history, 1);
+			utarray_reserve(
+				d->old_optima, utarray_len(d->optima) + 1);
+			CCS_VALIDATE(ccs_retain_object(evaluations[i]));
 			utarray_push_back(history, evaluations + i);
 			tmp           = d->old_optima;
 			d->old_optima = d->optima;
 			d->optima     = tmp;
-			utarray_clear(d->optima);
 			ccs_evaluation_t *eval = NULL;
-#undef utarray_oom
-#define utarray_oom()                                                          \
-	{                                                                      \
-		d->optima = d->old_optima;                                     \
-		CCS_RAISE(                                                     \
-			CCS_RESULT_ERROR_OUT_OF_MEMORY,                        \
-			"Out of memory to allocate array");                    \
-	}
 			while ((eval = (ccs_evaluation_t *)utarray_next(
 					d->old_optima, eval))) {
 				if (!discard) {
-- 
2.43.0


From 77443ac64180afbf57dc1354bd56d13cf4d73e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:37 +0000
Subject: [PATCH 17/47] fix: an evaluation that cannot be compared does not
 evict an optimum

---
 src/features_tuner_random.c | 9 +++++++--
 src/tree_tuner_random.c     | 9 +++++++--
 src/tuner_random.c          | 9 +++++++--
 3 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/features_tuner_random.c b/src/features_tuner_random.c
index 96e8c9d..d0fccfc 100644
--- a/src/features_tuner_random.c
+++ b/src/features_tuner_random.c
@@ -216,9 +216,14 @@ _ccs_features_tuner_random_tell(
 					ccs_comparison_t cmp;
 					err = ccs_features_evaluation_compare(
 						evaluations[i], *eval, &cmp);
-					if (err)
+					if (err) {
+						// the evaluation cannot be an
+						// optimum, *eval still is
+						ccs_clear_thread_error();
 						discard = 1;
-					else
+						utarray_push_back(
+							d->optima, eval);
+					} else
 						switch (cmp) {
 						case CCS_COMPARISON_EQUIVALENT:
 						case CCS_COMPARISON_WORSE:
diff --git a/src/tree_tuner_random.c b/src/tree_tuner_random.c
index 97e3e7c..a892ba0 100644
--- a/src/tree_tuner_random.c
+++ b/src/tree_tuner_random.c
@@ -208,9 +208,14 @@ _ccs_tree_tuner_random_tell(
 					ccs_comparison_t cmp;
 					err = ccs_tree_evaluation_compare(
 						evaluations[i], *eval, &cmp);
-					if (err)
+					if (err) {
+						// the evaluation cannot be an
+						// optimum, *eval still is
+						ccs_clear_thread_error();
 						discard = 1;
-					else
+						utarray_push_back(
+							d->optima, eval);
+					} else
 						switch (cmp) {
 						case CCS_COMPARISON_EQUIVALENT:
 						case CCS_COMPARISON_WORSE:
diff --git a/src/tuner_random.c b/src/tuner_random.c
index 68a33e7..8fecb1b 100644
--- a/src/tuner_random.c
+++ b/src/tuner_random.c
@@ -207,9 +207,14 @@ _ccs_tuner_random_tell(
 					ccs_comparison_t cmp;
 					err = ccs_evaluation_compare(
 						evaluations[i], *eval, &cmp);
-					if (err)
+					if (err) {
+						// the evaluation cannot be an
+						// optimum, *eval still is
+						ccs_clear_thread_error();
 						discard = 1;
-					else
+						utarray_push_back(
+							d->optima, eval);
+					} else
 						switch (cmp) {
 						case CCS_COMPARISON_EQUIVALENT:
 						case CCS_COMPARISON_WORSE:
-- 
2.43.0


From 2366244e7daef06dcc22e10d246746c7da65b1d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:47 +0000
Subject: [PATCH 18/47] fix: refuse a buffer too small for the objective
 values, not one large enough

---
 src/evaluation.c          | 2 +-
 src/features_evaluation.c | 2 +-
 src/tree_evaluation.c     | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/evaluation.c b/src/evaluation.c
index acabf57..4201894 100644
--- a/src/evaluation.c
+++ b/src/evaluation.c
@@ -359,7 +359,7 @@ ccs_evaluation_get_objective_values(
 	CCS_VALIDATE(ccs_objective_space_get_objectives(
 		evaluation->data->objective_space, 0, NULL, NULL, &count));
 	if (values) {
-		CCS_REFUTE(count < num_values, CCS_RESULT_ERROR_INVALID_VALUE);
+		CCS_REFUTE(num_values < count, CCS_RESULT_ERROR_INVALID_VALUE);
 		for (size_t i = 0; i < count; i++) {
 			ccs_expression_t     expression;
 			ccs_objective_type_t type;
diff --git a/src/features_evaluation.c b/src/features_evaluation.c
index 7d2c103..e64b786 100644
--- a/src/features_evaluation.c
+++ b/src/features_evaluation.c
@@ -402,7 +402,7 @@ ccs_features_evaluation_get_objective_values(
 	CCS_VALIDATE(ccs_objective_space_get_objectives(
 		evaluation->data->objective_space, 0, NULL, NULL, &count));
 	if (values) {
-		CCS_REFUTE(count < num_values, CCS_RESULT_ERROR_INVALID_VALUE);
+		CCS_REFUTE(num_values < count, CCS_RESULT_ERROR_INVALID_VALUE);
 		for (size_t i = 0; i < count; i++) {
 			ccs_expression_t     expression;
 			ccs_objective_type_t type;
diff --git a/src/tree_evaluation.c b/src/tree_evaluation.c
index c78232f..614e32b 100644
--- a/src/tree_evaluation.c
+++ b/src/tree_evaluation.c
@@ -364,7 +364,7 @@ ccs_tree_evaluation_get_objective_values(
 	CCS_VALIDATE(ccs_objective_space_get_objectives(
 		evaluation->data->objective_space, 0, NULL, NULL, &count));
 	if (values) {
-		CCS_REFUTE(count < num_values, CCS_RESULT_ERROR_INVALID_VALUE);
+		CCS_REFUTE(num_values < count, CCS_RESULT_ERROR_INVALID_VALUE);
 		for (size_t i = 0; i < count; i++) {
 			ccs_expression_t     expression;
 			ccs_objective_type_t type;
-- 
2.43.0


From 2320ca50b9355964b647d857ea2b20621cffde2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:47 +0000
Subject: [PATCH 19/47] fix: report the lack of memory when attaching a destroy
 callback

---
 src/cconfigspace.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/cconfigspace.c b/src/cconfigspace.c
index d3c1ecd..8ba69eb 100644
--- a/src/cconfigspace.c
+++ b/src/cconfigspace.c
@@ -94,6 +94,13 @@ ccs_object_get_refcount(ccs_object_t object, int32_t *refcount_ret)
 static const UT_icd _object_callback_icd = {
 	sizeof(_ccs_object_callback_t), NULL, NULL, NULL};
 
+#undef utarray_oom
+#define utarray_oom()                                                          \
+	{                                                                      \
+		CCS_RAISE(                                                     \
+			CCS_RESULT_ERROR_OUT_OF_MEMORY,                        \
+			"Out of memory to allocate array");                    \
+	}
 ccs_result_t
 ccs_object_set_destroy_callback(
 	ccs_object_t                  object,
-- 
2.43.0


From 3ea6d526a6401425ee43edaa00bea2697325b5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:59 +0000
Subject: [PATCH 20/47] fix: release the space when creating a configuration is
 refused

---
 src/configuration.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/configuration.c b/src/configuration.c
index d558a05..82663c0 100644
--- a/src/configuration.c
+++ b/src/configuration.c
@@ -130,10 +130,12 @@ ccs_create_configuration(
 						configuration_space, i,
 						values[i],
 						config->data->values + i),
-					errmem);
+					errcs);
 	}
 	*configuration_ret = config;
 	return CCS_RESULT_SUCCESS;
+errcs:
+	ccs_release_object(configuration_space);
 errmem:
 	free((void *)mem);
 	return err;
-- 
2.43.0


From ffae4997be54b0e8194dd4dad51112a7ee7ba71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:52 +0000
Subject: [PATCH 21/47] fix: restore a tuner that was told the same evaluation
 several times

---
 src/cconfigspace_internal.h      | 33 ++++++++++++++++++++++++++++++++
 src/features_tuner_deserialize.h | 20 +++++++++++++++++--
 src/tree_tuner_deserialize.h     | 20 +++++++++++++++++--
 src/tuner_deserialize.h          | 20 +++++++++++++++++--
 4 files changed, 87 insertions(+), 6 deletions(-)

diff --git a/src/cconfigspace_internal.h b/src/cconfigspace_internal.h
index 5f7094d..6a83928 100644
--- a/src/cconfigspace_internal.h
+++ b/src/cconfigspace_internal.h
@@ -1088,6 +1088,39 @@ struct _ccs_object_deserialize_options_s {
 typedef struct _ccs_object_deserialize_options_s
 	_ccs_object_deserialize_options_t;
 
+/* Looks for the object that comes next in the buffer among those already
+ * deserialized in the given list, object_ret is set to NULL if there is none */
+static inline ccs_result_t
+_ccs_deserialize_bin_find_object(
+	ccs_object_t                      *object_ret,
+	size_t                             num_objects,
+	ccs_object_t                      *objects,
+	size_t                             buffer_size,
+	const char                        *buffer,
+	_ccs_object_deserialize_options_t *opts)
+{
+	_ccs_object_internal_t obj;
+	ccs_object_t           handle;
+	ccs_bool_t             found;
+	ccs_datum_t            d;
+	*object_ret = NULL;
+	CCS_VALIDATE(_ccs_deserialize_bin_ccs_object_internal(
+		&obj, &buffer_size, &buffer, &handle));
+	CCS_VALIDATE(ccs_map_exist(
+		opts->handle_map, ccs_object(handle), &found));
+	if (!found)
+		return CCS_RESULT_SUCCESS;
+	CCS_VALIDATE(ccs_map_get(opts->handle_map, ccs_object(handle), &d));
+	if (d.type != CCS_DATA_TYPE_OBJECT)
+		return CCS_RESULT_SUCCESS;
+	for (size_t i = 0; i < num_objects; i++)
+		if (objects[i] == d.value.o) {
+			*object_ret = d.value.o;
+			break;
+		}
+	return CCS_RESULT_SUCCESS;
+}
+
 static inline ccs_result_t
 _ccs_object_serialize_user_data_size(
 	ccs_object_t                     object,
diff --git a/src/features_tuner_deserialize.h b/src/features_tuner_deserialize.h
index 9517ba6..70ca62a 100644
--- a/src/features_tuner_deserialize.h
+++ b/src/features_tuner_deserialize.h
@@ -68,10 +68,26 @@ _ccs_deserialize_bin_ccs_random_features_tuner_data(
 	mem += data->size_history * sizeof(ccs_features_evaluation_t);
 	data->optima = (ccs_features_evaluation_t *)mem;
 
-	for (size_t i = 0; i < data->size_history; i++)
+	for (size_t i = 0; i < data->size_history; i++) {
+		_ccs_object_deserialize_options_t new_opts = *opts;
+		ccs_object_t                      known    = NULL;
+		/* the same evaluation can appear several times */
+		CCS_VALIDATE(_ccs_deserialize_bin_find_object(
+			&known, i, (ccs_object_t *)data->history, *buffer_size,
+			*buffer, opts));
+		if (known) {
+			new_opts.map_values           = CCS_FALSE;
+			new_opts.deserialize_callback = NULL;
+		}
 		CCS_VALIDATE(_ccs_features_evaluation_deserialize(
 			data->history + i, CCS_SERIALIZE_FORMAT_BINARY, version,
-			buffer_size, buffer, opts));
+			buffer_size, buffer, &new_opts));
+		if (known) {
+			CCS_VALIDATE(ccs_retain_object(known));
+			ccs_release_object(data->history[i]);
+			data->history[i] = (ccs_features_evaluation_t)known;
+		}
+	}
 
 	for (size_t i = 0; i < data->size_optima; i++)
 		CCS_VALIDATE(_ccs_deserialize_bin_ccs_object(
diff --git a/src/tree_tuner_deserialize.h b/src/tree_tuner_deserialize.h
index 213251d..2a72d11 100644
--- a/src/tree_tuner_deserialize.h
+++ b/src/tree_tuner_deserialize.h
@@ -64,10 +64,26 @@ _ccs_deserialize_bin_ccs_random_tree_tuner_data(
 	mem += data->size_history * sizeof(ccs_tree_evaluation_t);
 	data->optima = (ccs_tree_evaluation_t *)mem;
 
-	for (size_t i = 0; i < data->size_history; i++)
+	for (size_t i = 0; i < data->size_history; i++) {
+		_ccs_object_deserialize_options_t new_opts = *opts;
+		ccs_object_t                      known    = NULL;
+		/* the same evaluation can appear several times */
+		CCS_VALIDATE(_ccs_deserialize_bin_find_object(
+			&known, i, (ccs_object_t *)data->history, *buffer_size,
+			*buffer, opts));
+		if (known) {
+			new_opts.map_values           = CCS_FALSE;
+			new_opts.deserialize_callback = NULL;
+		}
 		CCS_VALIDATE(_ccs_tree_evaluation_deserialize(
 			data->history + i, CCS_SERIALIZE_FORMAT_BINARY, version,
-			buffer_size, buffer, opts));
+			buffer_size, buffer, &new_opts));
+		if (known) {
+			CCS_VALIDATE(ccs_retain_object(known));
+			ccs_release_object(data->history[i]);
+			data->history[i] = (ccs_tree_evaluation_t)known;
+		}
+	}
 
 	for (size_t i = 0; i < data->size_optima; i++)
 		CCS_VALIDATE(_ccs_deserialize_bin_ccs_object(
diff --git a/src/tuner_deserialize.h b/src/tuner_deserialize.h
index 9f84b92..c53e6ac 100644
--- a/src/tuner_deserialize.h
+++ b/src/tuner_deserialize.h
@@ -63,10 +63,26 @@ _ccs_deserialize_bin_ccs_random_tuner_data(
 	mem += data->size_history * sizeof(ccs_evaluation_t);
 	data->optima = (ccs_evaluation_t *)mem;
 
-	for (size_t i = 0; i < data->size_history; i++)
+	for (size_t i = 0; i < data->size_history; i++) {
+		_ccs_object_deserialize_options_t new_opts = *opts;
+		ccs_object_t                      known    = NULL;
+		/* the same evaluation can appear several times */
+		CCS_VALIDATE(_ccs_deserialize_bin_find_object(
+			&known, i, (ccs_object_t *)data->history, *buffer_size,
+			*buffer, opts));
+		if (known) {
+			new_opts.map_values           = CCS_FALSE;
+			new_opts.deserialize_callback = NULL;
+		}
 		CCS_VALIDATE(_ccs_evaluation_deserialize(
 			data->history + i, CCS_SERIALIZE_FORMAT_BINARY, version,
-			buffer_size, buffer, opts));
+			buffer_size, buffer, &new_opts));
+		if (known) {
+			CCS_VALIDATE(ccs_retain_object(known));
+			ccs_release_object(data->history[i]);
+			data->history[i] = (ccs_evaluation_t)known;
+		}
+	}
 
 	for (size_t i = 0; i < data->size_optima; i++)
 		CCS_VALIDATE(_ccs_deserialize_bin_ccs_object(
-- 
2.43.0


From 564c5f5280cdb5dd7908120b8b23492be7ae5527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:18 +0000
Subject: [PATCH 22/47] fix: free the oversampling buffer when sampling a
 parameter is unsuccessful

---
 src/parameter_categorical.c | 7 ++++---
 src/parameter_numerical.c   | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/parameter_categorical.c b/src/parameter_categorical.c
index beefe62..58a09dd 100644
--- a/src/parameter_categorical.c
+++ b/src/parameter_categorical.c
@@ -178,9 +178,10 @@ _ccs_parameter_categorical_samples(
 		vs           = NULL;
 		size_t coeff = 2;
 		while (found < num_values) {
-			CCS_REFUTE(
-				coeff > 32,
-				CCS_RESULT_ERROR_SAMPLING_UNSUCCESSFUL);
+			CCS_REFUTE_ERR_GOTO(
+				err, coeff > 32,
+				CCS_RESULT_ERROR_SAMPLING_UNSUCCESSFUL,
+				errmem);
 			size_t     buff_sz = (num_values - found) * coeff;
 			ccs_int_t *oldvs   = vs;
 			vs                 = (ccs_int_t *)realloc(
diff --git a/src/parameter_numerical.c b/src/parameter_numerical.c
index 645b518..f103c42 100644
--- a/src/parameter_numerical.c
+++ b/src/parameter_numerical.c
@@ -160,9 +160,10 @@ _ccs_parameter_numerical_samples(
 		vs           = NULL;
 		size_t coeff = 2;
 		while (found < num_values) {
-			CCS_REFUTE(
-				coeff > 32,
-				CCS_RESULT_ERROR_SAMPLING_UNSUCCESSFUL);
+			CCS_REFUTE_ERR_GOTO(
+				err, coeff > 32,
+				CCS_RESULT_ERROR_SAMPLING_UNSUCCESSFUL,
+				errmem);
 			size_t         buff_sz = (num_values - found) * coeff;
 			ccs_numeric_t *oldvs   = vs;
 			vs                     = (ccs_numeric_t *)realloc(
-- 
2.43.0


From 26623c6a631ab7318ed51997be4fbe095183e2ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:27 +0000
Subject: [PATCH 23/47] fix: keep uniform samples inside their bounds when
 scaling rounds them out

---
 src/distribution_uniform.c | 54 ++++++++++++++++++++++++++++++--------
 1 file changed, 43 insertions(+), 11 deletions(-)

diff --git a/src/distribution_uniform.c b/src/distribution_uniform.c
index 2b1f06c..d703267 100644
--- a/src/distribution_uniform.c
+++ b/src/distribution_uniform.c
@@ -205,6 +205,26 @@ _ccs_distribution_uniform_get_bounds(
 	return CCS_RESULT_SUCCESS;
 }
 
+/* Scaling can round a value out of the interval it was drawn from. */
+static inline ccs_float_t
+_ccs_uniform_bound_float(
+	ccs_float_t value,
+	ccs_float_t lower,
+	ccs_float_t upper)
+{
+	if (value < lower)
+		return lower;
+	return value < upper ? value : nextafter(upper, lower);
+}
+
+static inline ccs_int_t
+_ccs_uniform_bound_int(ccs_float_t value, ccs_int_t lower, ccs_int_t upper)
+{
+	if (value < (ccs_float_t)lower)
+		return lower;
+	return value < (ccs_float_t)upper ? (ccs_int_t)value : upper - 1;
+}
+
 static ccs_result_t
 _ccs_distribution_uniform_strided_samples(
 	_ccs_distribution_data_t *data,
@@ -220,6 +240,7 @@ _ccs_distribution_uniform_strided_samples(
 	const ccs_scale_type_t   scale_type     = d->scale_type;
 	const ccs_numeric_t      quantization   = d->quantization;
 	const ccs_numeric_t      lower          = d->lower;
+	const ccs_numeric_t      upper          = d->upper;
 	const ccs_numeric_t      internal_lower = d->internal_lower;
 	const ccs_numeric_t      internal_upper = d->internal_upper;
 	const int                quantize       = d->quantize;
@@ -233,8 +254,9 @@ _ccs_distribution_uniform_strided_samples(
 		}
 		if (scale_type == CCS_SCALE_TYPE_LOGARITHMIC) {
 			for (i = 0; i < num_values; i++)
-				values[i * stride].f =
-					exp(values[i * stride].f);
+				values[i * stride].f = _ccs_uniform_bound_float(
+					exp(values[i * stride].f), lower.f,
+					upper.f);
 			if (quantize)
 				for (i = 0; i < num_values; i++)
 					values[i * stride].f =
@@ -251,13 +273,17 @@ _ccs_distribution_uniform_strided_samples(
 					lower.f;
 		else
 			for (i = 0; i < num_values; i++)
-				values[i * stride].f += lower.f;
+				values[i * stride].f = _ccs_uniform_bound_float(
+					values[i * stride].f + lower.f, lower.f,
+					upper.f);
 	} else {
 		if (scale_type == CCS_SCALE_TYPE_LOGARITHMIC) {
 			for (i = 0; i < num_values; i++) {
-				values[i * stride].i = floor(exp(gsl_ran_flat(
-					grng, internal_lower.f,
-					internal_upper.f)));
+				values[i * stride].i = _ccs_uniform_bound_int(
+					floor(exp(gsl_ran_flat(
+						grng, internal_lower.f,
+						internal_upper.f))),
+					lower.i, upper.i);
 			}
 			if (quantize)
 				for (i = 0; i < num_values; i++)
@@ -300,6 +326,7 @@ _ccs_distribution_uniform_samples(
 	const ccs_scale_type_t   scale_type     = d->scale_type;
 	const ccs_numeric_t      quantization   = d->quantization;
 	const ccs_numeric_t      lower          = d->lower;
+	const ccs_numeric_t      upper          = d->upper;
 	const ccs_numeric_t      internal_lower = d->internal_lower;
 	const ccs_numeric_t      internal_upper = d->internal_upper;
 	const int                quantize       = d->quantize;
@@ -313,7 +340,8 @@ _ccs_distribution_uniform_samples(
 		}
 		if (scale_type == CCS_SCALE_TYPE_LOGARITHMIC) {
 			for (i = 0; i < num_values; i++)
-				values[i].f = exp(values[i].f);
+				values[i].f = _ccs_uniform_bound_float(
+					exp(values[i].f), lower.f, upper.f);
 			if (quantize)
 				for (i = 0; i < num_values; i++)
 					values[i].f =
@@ -328,13 +356,17 @@ _ccs_distribution_uniform_samples(
 					lower.f;
 		else
 			for (i = 0; i < num_values; i++)
-				values[i].f += lower.f;
+				values[i].f = _ccs_uniform_bound_float(
+					values[i].f + lower.f, lower.f,
+					upper.f);
 	} else {
 		if (scale_type == CCS_SCALE_TYPE_LOGARITHMIC) {
 			for (i = 0; i < num_values; i++) {
-				values[i].i = floor(exp(gsl_ran_flat(
-					grng, internal_lower.f,
-					internal_upper.f)));
+				values[i].i = _ccs_uniform_bound_int(
+					floor(exp(gsl_ran_flat(
+						grng, internal_lower.f,
+						internal_upper.f))),
+					lower.i, upper.i);
 			}
 			if (quantize)
 				for (i = 0; i < num_values; i++)
-- 
2.43.0


From ad3f993f7ca9773e1411e938f766bcd01714fc8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:36 +0000
Subject: [PATCH 24/47] fix: equality expressions compare floating point
 numbers by value

---
 src/expression.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/expression.c b/src/expression.c
index 028c660..1cb7b72 100644
--- a/src/expression.c
+++ b/src/expression.c
@@ -363,6 +363,10 @@ _ccs_datum_test_equal_generic(ccs_datum_t *a, ccs_datum_t *b, ccs_bool_t *equal)
 		case CCS_DATA_TYPE_NONE:
 			*equal = CCS_TRUE;
 			break;
+		case CCS_DATA_TYPE_FLOAT:
+			*equal = a->value.f == b->value.f ? CCS_TRUE :
+							    CCS_FALSE;
+			break;
 		default:
 			*equal = memcmp(&(a->value), &(b->value),
 					sizeof(ccs_value_t)) == 0 ?
-- 
2.43.0


From 4353499114dd50a5c095a5e6e4e229ceea6a08cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:44 +0000
Subject: [PATCH 25/47] fix: an inactive list element makes an in expression
 inactive, not invalid

---
 src/expression.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/expression.c b/src/expression.c
index 1cb7b72..51f0ee2 100644
--- a/src/expression.c
+++ b/src/expression.c
@@ -729,8 +729,10 @@ _ccs_expr_in_eval(
 		ccs_datum_t right;
 		CCS_VALIDATE(ccs_expression_list_eval_node(
 			data->nodes[1], context, values, i, &right));
-		if (right.type == CCS_DATA_TYPE_INACTIVE)
+		if (right.type == CCS_DATA_TYPE_INACTIVE) {
 			inactive = CCS_TRUE;
+			continue;
+		}
 		CHECK_PARAMETERS(data->nodes[0], right, htl);
 		ccs_bool_t equal;
 		_ccs_datum_test_equal_generic(&left, &right, &equal);
-- 
2.43.0


From 6794082894a8b1acb44f7899190f7022182f7644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:52 +0000
Subject: [PATCH 26/47] fix: take back restored objects and their handles when
 deserialization fails

A user data callback that fails left the objects already restored without an
owner, and the handle map given by the user kept the handles added before the
failure, so that trying again was refused as a duplicate.
---
 src/cconfigspace.c                    |  4 +++
 src/cconfigspace_internal.h           | 35 ++++++++++++++++++---------
 src/configuration_deserialize.h       |  2 +-
 src/configuration_space_deserialize.h |  2 +-
 src/distribution_deserialize.h        |  2 +-
 src/evaluation_deserialize.h          |  2 +-
 src/expression_deserialize.h          |  2 +-
 src/features_deserialize.h            |  2 +-
 src/features_evaluation_deserialize.h |  2 +-
 src/features_space_deserialize.h      |  2 +-
 src/features_tuner_deserialize.h      |  2 +-
 src/map.c                             | 18 ++++++++++++++
 src/map_deserialize.h                 |  2 +-
 src/map_internal.h                    |  7 ++++++
 src/objective_space_deserialize.h     |  2 +-
 src/parameter_deserialize.h           |  2 +-
 src/rng_deserialize.h                 |  2 +-
 src/tree_configuration_deserialize.h  |  2 +-
 src/tree_deserialize.h                |  2 +-
 src/tree_evaluation_deserialize.h     |  2 +-
 src/tree_space_deserialize.h          |  2 +-
 src/tree_tuner_deserialize.h          |  2 +-
 src/tuner_deserialize.h               |  2 +-
 23 files changed, 72 insertions(+), 30 deletions(-)

diff --git a/src/cconfigspace.c b/src/cconfigspace.c
index 8ba69eb..23ff295 100644
--- a/src/cconfigspace.c
+++ b/src/cconfigspace.c
@@ -727,6 +727,8 @@ _ccs_object_deserialize_with_opts(
 {
 	ccs_result_t res    = CCS_RESULT_SUCCESS;
 	ccs_object_t object = NULL;
+	size_t       num_handles =
+		opts->handle_map ? _ccs_map_count(opts->handle_map) : 0;
 	CCS_VALIDATE_ERR_GOTO(
 		res,
 		_ccs_object_deserialize_any(
@@ -735,6 +737,8 @@ _ccs_object_deserialize_with_opts(
 	*object_ret = object;
 	return CCS_RESULT_SUCCESS;
 err_object:
+	if (opts->handle_map)
+		_ccs_map_truncate(opts->handle_map, num_handles);
 	if (object)
 		ccs_release_object(object);
 	return res;
diff --git a/src/cconfigspace_internal.h b/src/cconfigspace_internal.h
index 6a83928..f450739 100644
--- a/src/cconfigspace_internal.h
+++ b/src/cconfigspace_internal.h
@@ -1207,9 +1207,10 @@ _ccs_object_serialize_user_data(
 	return CCS_RESULT_SUCCESS;
 }
 
+/* On failure the object is released and the handle is set to NULL */
 static inline ccs_result_t
 _ccs_object_deserialize_user_data(
-	ccs_object_t                       object,
+	ccs_object_t                      *object_ret,
 	ccs_serialize_format_t             format,
 	uint32_t                           version,
 	size_t                            *buffer_size,
@@ -1217,30 +1218,42 @@ _ccs_object_deserialize_user_data(
 	_ccs_object_deserialize_options_t *opts)
 {
 	(void)version;
+	ccs_result_t res = CCS_RESULT_SUCCESS;
 	switch (format) {
 	case CCS_SERIALIZE_FORMAT_BINARY: {
 		size_t serialize_data_size;
-		CCS_VALIDATE(_ccs_deserialize_bin_size(
-			&serialize_data_size, buffer_size, buffer));
+		CCS_VALIDATE_ERR_GOTO(
+			res,
+			_ccs_deserialize_bin_size(
+				&serialize_data_size, buffer_size, buffer),
+			err_object);
 		if (serialize_data_size) {
-			CCS_REFUTE(
-				*buffer_size < serialize_data_size,
-				CCS_RESULT_ERROR_NOT_ENOUGH_DATA);
+			CCS_REFUTE_ERR_GOTO(
+				res, *buffer_size < serialize_data_size,
+				CCS_RESULT_ERROR_NOT_ENOUGH_DATA, err_object);
 			if (opts->deserialize_callback)
-				CCS_VALIDATE(opts->deserialize_callback(
-					object, serialize_data_size, *buffer,
-					opts->deserialize_user_data));
+				CCS_VALIDATE_ERR_GOTO(
+					res,
+					opts->deserialize_callback(
+						*object_ret,
+						serialize_data_size, *buffer,
+						opts->deserialize_user_data),
+					err_object);
 			*buffer_size -= serialize_data_size;
 			*buffer += serialize_data_size;
 		}
 		break;
 	}
 	default:
-		CCS_RAISE(
-			CCS_RESULT_ERROR_INVALID_VALUE,
+		CCS_RAISE_ERR_GOTO(
+			res, CCS_RESULT_ERROR_INVALID_VALUE, err_object,
 			"Unsupported serialization format: %d", format);
 	}
 	return CCS_RESULT_SUCCESS;
+err_object:
+	ccs_release_object(*object_ret);
+	*object_ret = NULL;
+	return res;
 }
 
 #endif //_CONFIGSPACE_INTERNAL_H
diff --git a/src/configuration_deserialize.h b/src/configuration_deserialize.h
index 719535f..b8f17d9 100644
--- a/src/configuration_deserialize.h
+++ b/src/configuration_deserialize.h
@@ -84,7 +84,7 @@ _ccs_configuration_deserialize(
 			"Unsupported serialization format: %d", format);
 	}
 	CCS_VALIDATE(_ccs_object_deserialize_user_data(
-		(ccs_object_t)*configuration_ret, format, version, buffer_size,
+		(ccs_object_t *)configuration_ret, format, version, buffer_size,
 		buffer, opts));
 	return CCS_RESULT_SUCCESS;
 }
diff --git a/src/configuration_space_deserialize.h b/src/configuration_space_deserialize.h
index e1b1c7b..6e1b259 100644
--- a/src/configuration_space_deserialize.h
+++ b/src/configuration_space_deserialize.h
@@ -250,7 +250,7 @@ _ccs_configuration_space_deserialize(
 			"Unsupported serialization format: %d", format);
 	}
 	CCS_VALIDATE(_ccs_object_deserialize_user_data(
-		(ccs_object_t)*configuration_space_ret, format, version,
+		(ccs_object_t *)configuration_space_ret, format, version,
 		buffer_size, buffer, opts));
 	return CCS_RESULT_SUCCESS;
 }
diff --git a/src/distribution_deserialize.h b/src/distribution_deserialize.h
index a8d5493..8375da0 100644
--- a/src/distribution_deserialize.h
+++ b/src/distribution_deserialize.h
@@ -396,7 +396,7 @@ _ccs_distribution_deserialize(
 			"Unsupported serialization format: %d", format);
 	}
 	CCS_VALIDATE(_ccs_object_deserialize_user_data(
-		(ccs_object_t)*distribution_ret, format, version, buffer_size,
+		(ccs_object_t *)distribution_ret, format, version, buffer_size,
 		buffer, opts));
 	return CCS_RESULT_SUCCESS;
 }
diff --git a/src/evaluation_deserialize.h b/src/evaluation_deserialize.h
index 6f07e79..12fef11 100644
--- a/src/evaluation_deserialize.h
+++ b/src/evaluation_deserialize.h
@@ -115,7 +115,7 @@ _ccs_evaluation_deserialize(
 			"Unsupported serialization format: %d", format);
 	}
 	CCS_VALIDATE(_ccs_object_deserialize_user_data(
-		(ccs_object_t)*evaluation_ret, format, version, buffer_size,
+		(ccs_object_t *)evaluation_ret, format, version, buffer_size,
 		buffer, opts));
 	return CCS_RESULT_SUCCESS;
 }
diff --git a/src/expression_deserialize.h b/src/expression_deserialize.h
index 804214c..92b739c 100644
--- a/src/expression_deserialize.h
+++ b/src/expression_deserialize.h
@@ -258,7 +258,7 @@ _ccs_expression_deserialize(
 			"Unsupported serialization format: %d", format);
 	}
 	CCS_VALIDATE(_ccs_object_deserialize_user_data(
-		(ccs_object_t)*expression_ret, format, version, buffer_size,
+		(ccs_object_t *)expression_ret, format, version, buffer_size,
 		buffer, opts));
 	return CCS_RESULT_SUCCESS;
 }
diff --git a/src/features_deserialize.h b/src/features_deserialize.h
index 5066f06..719fb93 100644
--- a/src/features_deserialize.h
+++ b/src/features_deserialize.h
@@ -83,7 +83,7 @@ _ccs_features_deserialize(
 			"Unsupported serialization format: %d", format);
 	}
 	CCS_VALIDATE(_ccs_object_deserialize_user_data(
-		(ccs_object_t)*features_ret, format, version, buffer_size,
+		(ccs_object_t *)features_ret, format, version, buffer_size,
 		buffer, opts));
 	return CCS_RESULT_SUCCESS;
 }
diff --git a/src/features_evaluation_deserialize.h b/src/features_evaluation_deserialize.h
index be5f097..6fbc51d 100644
--- a/src/features_evaluation_deserialize.h
+++ b/src/features_evaluation_deserialize.h
@@ -125,7 +125,7 @@ _ccs_features_evaluation_deserialize(
 			"Unsupported serialization format: %d", format);
 	}
 	CCS_VALIDATE(_ccs_object_deserialize_user_data(
-		(ccs_object_t)*features_evaluation_ret, format, version,
+		(ccs_object_t *)features_evaluation_ret, format, version,
 		buffer_size, buffer, opts));
 	return CCS_RESULT_SUCCESS;
 }
diff --git a/src/features_space_deserialize.h b/src/features_space_deserialize.h
index 4cdcd1f..12dea4c 100644
--- a/src/features_space_deserialize.h
+++ b/src/features_space_deserialize.h
@@ -79,7 +79,7 @@ _ccs_features_space_deserialize(
 			"Unsupported serialization format: %d", format);
 	}
 	CCS_VALIDATE(_ccs_object_deserialize_user_data(
-		(ccs_object_t)*features_space_ret, format, version, buffer_size,
+		(ccs_object_t *)features_space_ret, format, version, buffer_size,
 		buffer, opts));
 	return CCS_RESULT_SUCCESS;
 }
diff --git a/src/features_tuner_deserialize.h b/src/features_tuner_deserialize.h
index 70ca62a..dc61f5c 100644
--- a/src/features_tuner_deserialize.h
+++ b/src/features_tuner_deserialize.h
@@ -365,7 +365,7 @@ _ccs_features_tuner_deserialize(
 			"Unsupported serialization format: %d", format);
 	}
 	CCS_VALIDATE(_ccs_object_deserialize_user_data(
-		(ccs_object_t)*features_tuner_ret, format, version, buffer_size,
+		(ccs_object_t *)features_tuner_ret, format, version, buffer_size,
 		buffer, opts));
 	return CCS_RESULT_SUCCESS;
 }
diff --git a/src/map.c b/src/map.c
index 8f4a30d..d1df971 100644
--- a/src/map.c
+++ b/src/map.c
@@ -373,3 +373,21 @@ ccs_map_clear(ccs_map_t map)
 	_ccs_map_remove(map->data, current);
 	return CCS_RESULT_SUCCESS;
 }
+
+size_t
+_ccs_map_count(ccs_map_t map)
+{
+	return HASH_COUNT(map->data->map);
+}
+
+void
+_ccs_map_truncate(ccs_map_t map, size_t num_entries)
+{
+	size_t            index   = 0;
+	_ccs_map_datum_t *current = NULL, *tmp;
+	HASH_ITER(hh, map->data->map, current, tmp)
+	{
+		if (index++ >= num_entries)
+			_ccs_map_remove(map->data, current);
+	}
+}
diff --git a/src/map_deserialize.h b/src/map_deserialize.h
index 908e404..a11c19b 100644
--- a/src/map_deserialize.h
+++ b/src/map_deserialize.h
@@ -102,7 +102,7 @@ _ccs_map_deserialize(
 			"Unsupported serialization format: %d", format);
 	}
 	CCS_VALIDATE(_ccs_object_deserialize_user_data(
-		(ccs_object_t)*map_ret, format, version, buffer_size, buffer,
+		(ccs_object_t *)map_ret, format, version, buffer_size, buffer,
 		opts));
 	return CCS_RESULT_SUCCESS;
 }
diff --git a/src/map_internal.h b/src/map_internal.h
index a67ff7b..cd613db 100644
--- a/src/map_internal.h
+++ b/src/map_internal.h
@@ -14,4 +14,11 @@ struct _ccs_map_s {
 	_ccs_map_data_t       *data;
 };
 
+size_t
+_ccs_map_count(ccs_map_t map);
+
+/* Removes the entries added since the map counted num_entries */
+void
+_ccs_map_truncate(ccs_map_t map, size_t num_entries);
+
 #endif //_MAP_INTERNAL_H
diff --git a/src/objective_space_deserialize.h b/src/objective_space_deserialize.h
index f324e9c..8405d8a 100644
--- a/src/objective_space_deserialize.h
+++ b/src/objective_space_deserialize.h
@@ -150,7 +150,7 @@ _ccs_objective_space_deserialize(
 			"Unsupported serialization format: %d", format);
 	}
 	CCS_VALIDATE(_ccs_object_deserialize_user_data(
-		(ccs_object_t)*objective_space_ret, format, version,
+		(ccs_object_t *)objective_space_ret, format, version,
 		buffer_size, buffer, opts));
 	return CCS_RESULT_SUCCESS;
 }
diff --git a/src/parameter_deserialize.h b/src/parameter_deserialize.h
index a22dea4..a812cbb 100644
--- a/src/parameter_deserialize.h
+++ b/src/parameter_deserialize.h
@@ -228,7 +228,7 @@ _ccs_parameter_deserialize(
 			"Unsupported serialization format: %d", format);
 	}
 	CCS_VALIDATE(_ccs_object_deserialize_user_data(
-		(ccs_object_t)*parameter_ret, format, version, buffer_size,
+		(ccs_object_t *)parameter_ret, format, version, buffer_size,
 		buffer, opts));
 	return CCS_RESULT_SUCCESS;
 }
diff --git a/src/rng_deserialize.h b/src/rng_deserialize.h
index dc73355..8ecd41d 100644
--- a/src/rng_deserialize.h
+++ b/src/rng_deserialize.h
@@ -81,7 +81,7 @@ _ccs_rng_deserialize(
 			"Unsupported serialization format: %d", format);
 	}
 	CCS_VALIDATE(_ccs_object_deserialize_user_data(
-		(ccs_object_t)*rng_ret, format, version, buffer_size, buffer,
+		(ccs_object_t *)rng_ret, format, version, buffer_size, buffer,
 		opts));
 	return CCS_RESULT_SUCCESS;
 }
diff --git a/src/tree_configuration_deserialize.h b/src/tree_configuration_deserialize.h
index 38a4508..a48c7f2 100644
--- a/src/tree_configuration_deserialize.h
+++ b/src/tree_configuration_deserialize.h
@@ -107,7 +107,7 @@ _ccs_tree_configuration_deserialize(
 			"Unsupported serialization format: %d", format);
 	}
 	CCS_VALIDATE(_ccs_object_deserialize_user_data(
-		(ccs_object_t)*configuration_ret, format, version, buffer_size,
+		(ccs_object_t *)configuration_ret, format, version, buffer_size,
 		buffer, opts));
 	return CCS_RESULT_SUCCESS;
 }
diff --git a/src/tree_deserialize.h b/src/tree_deserialize.h
index 542f1a9..c74858d 100644
--- a/src/tree_deserialize.h
+++ b/src/tree_deserialize.h
@@ -135,7 +135,7 @@ _ccs_tree_deserialize(
 			"Unsupported serialization format: %d", format);
 	}
 	CCS_VALIDATE(_ccs_object_deserialize_user_data(
-		(ccs_object_t)*tree_ret, format, version, buffer_size, buffer,
+		(ccs_object_t *)tree_ret, format, version, buffer_size, buffer,
 		opts));
 	return CCS_RESULT_SUCCESS;
 }
diff --git a/src/tree_evaluation_deserialize.h b/src/tree_evaluation_deserialize.h
index e8a4da8..b391abb 100644
--- a/src/tree_evaluation_deserialize.h
+++ b/src/tree_evaluation_deserialize.h
@@ -115,7 +115,7 @@ _ccs_tree_evaluation_deserialize(
 			"Unsupported serialization format: %d", format);
 	}
 	CCS_VALIDATE(_ccs_object_deserialize_user_data(
-		(ccs_object_t)*evaluation_ret, format, version, buffer_size,
+		(ccs_object_t *)evaluation_ret, format, version, buffer_size,
 		buffer, opts));
 	return CCS_RESULT_SUCCESS;
 }
diff --git a/src/tree_space_deserialize.h b/src/tree_space_deserialize.h
index 5b637fc..9048aa1 100644
--- a/src/tree_space_deserialize.h
+++ b/src/tree_space_deserialize.h
@@ -189,7 +189,7 @@ _ccs_tree_space_deserialize(
 			"Unsupported serialization format: %d", format);
 	}
 	CCS_VALIDATE(_ccs_object_deserialize_user_data(
-		(ccs_object_t)*tree_space_ret, format, version, buffer_size,
+		(ccs_object_t *)tree_space_ret, format, version, buffer_size,
 		buffer, opts));
 	return CCS_RESULT_SUCCESS;
 }
diff --git a/src/tree_tuner_deserialize.h b/src/tree_tuner_deserialize.h
index 2a72d11..19bd02c 100644
--- a/src/tree_tuner_deserialize.h
+++ b/src/tree_tuner_deserialize.h
@@ -341,7 +341,7 @@ _ccs_tree_tuner_deserialize(
 			"Unsupported serialization format: %d", format);
 	}
 	CCS_VALIDATE(_ccs_object_deserialize_user_data(
-		(ccs_object_t)*tuner_ret, format, version, buffer_size, buffer,
+		(ccs_object_t *)tuner_ret, format, version, buffer_size, buffer,
 		opts));
 	return CCS_RESULT_SUCCESS;
 }
diff --git a/src/tuner_deserialize.h b/src/tuner_deserialize.h
index c53e6ac..abf195a 100644
--- a/src/tuner_deserialize.h
+++ b/src/tuner_deserialize.h
@@ -340,7 +340,7 @@ _ccs_tuner_deserialize(
 			"Unsupported serialization format: %d", format);
 	}
 	CCS_VALIDATE(_ccs_object_deserialize_user_data(
-		(ccs_object_t)*tuner_ret, format, version, buffer_size, buffer,
+		(ccs_object_t *)tuner_ret, format, version, buffer_size, buffer,
 		opts));
 	return CCS_RESULT_SUCCESS;
 }
-- 
2.43.0


From 71f87e162ff4962e813de6567a3d1f8a21c2cb19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:46 +0000
Subject: [PATCH 27/47] fix: size the temporary bounds of a mixture by its
 dimension

The bounds of each distribution were read into a buffer sized by the number of
distributions, which mixtures of larger multivariate distributions overran; the
buffer was also leaked when rounded weights exceeded one.
---
 src/distribution_mixture.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/distribution_mixture.c b/src/distribution_mixture.c
index dc11674..8d6c89d 100644
--- a/src/distribution_mixture.c
+++ b/src/distribution_mixture.c
@@ -236,14 +236,14 @@ ccs_create_mixture_distribution(
 	cur_mem = mem;
 
 	tmp_mem = (uintptr_t)calloc(
-		1, sizeof(ccs_interval_t) * num_distributions +
+		1, sizeof(ccs_interval_t) * dimension +
 			   sizeof(ccs_numeric_type_t) * dimension);
 	CCS_REFUTE_ERR_GOTO(
 		err, !tmp_mem, CCS_RESULT_ERROR_OUT_OF_MEMORY, memory);
 	bounds_tmp = (ccs_interval_t *)tmp_mem;
 	data_types_tmp =
 		(ccs_numeric_type_t
-			 *)(tmp_mem + sizeof(ccs_interval_t) * num_distributions);
+			 *)(tmp_mem + sizeof(ccs_interval_t) * dimension);
 
 	distrib = (ccs_distribution_t)cur_mem;
 	cur_mem += sizeof(struct _ccs_distribution_s);
@@ -313,7 +313,7 @@ ccs_create_mixture_distribution(
 	distrib_data->weights[num_distributions] = 1.0;
 	CCS_REFUTE_ERR_GOTO(
 		err, 1.0 < distrib_data->weights[num_distributions - 1],
-		CCS_RESULT_ERROR_INVALID_VALUE, memory);
+		CCS_RESULT_ERROR_INVALID_VALUE, tmpmemory);
 	for (i = 0; i < num_distributions; i++) {
 		CCS_VALIDATE_ERR_GOTO(
 			err, ccs_retain_object(distributions[i]), distrib);
-- 
2.43.0


From 5f1da79f28235b48645d46c6b43426fd3d2fbd74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:28 +0000
Subject: [PATCH 28/47] fix: leave out the components a structure of arrays
 sample does not ask for

Sampling a mixture passed uninitialized pointers on for the components whose
array is NULL.
---
 src/distribution_mixture.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/distribution_mixture.c b/src/distribution_mixture.c
index 8d6c89d..ed6e7fe 100644
--- a/src/distribution_mixture.c
+++ b/src/distribution_mixture.c
@@ -435,8 +435,7 @@ _ccs_distribution_mixture_soa_samples(
 		ccs_int_t   index = _ccs_dichotomic_search(
                         d->num_distributions, d->weights, rnd);
 		for (size_t j = 0; j < dim; j++)
-			if (values[j])
-				p_values[j] = values[j] + i;
+			p_values[j] = values[j] ? values[j] + i : NULL;
 		CCS_VALIDATE(ccs_distribution_get_ops(d->distributions[index])
 				     ->soa_samples(
 					     d->distributions[index]->data, rng,
-- 
2.43.0


From b22a455f663b880a2435e0ae4f9b3d15e18967fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:35 +0000
Subject: [PATCH 29/47] fix: a shared bound belongs to the union of two
 intervals when one includes it

The bounds of a mixture excluded values it produces.
---
 src/interval.c | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/interval.c b/src/interval.c
index cabc912..ccacfc1 100644
--- a/src/interval.c
+++ b/src/interval.c
@@ -98,6 +98,23 @@ ccs_interval_intersect(
 	return CCS_RESULT_SUCCESS;
 }
 
+/* a bound both intervals share belongs to their union if one includes it */
+#define UNION_MAX(u1, ui1, u2, ui2, u, ui)                                     \
+	{                                                                      \
+		ccs_bool_t either = u1 == u2 && (ui1 || ui2);                  \
+		MERGE_MAX(u1, ui1, u2, ui2, u, ui);                            \
+		if (either)                                                    \
+			ui = CCS_TRUE;                                         \
+	}
+
+#define UNION_MIN(l1, li1, l2, li2, l, li)                                     \
+	{                                                                      \
+		ccs_bool_t either = l1 == l2 && (li1 || li2);                  \
+		MERGE_MIN(l1, li1, l2, li2, l, li);                            \
+		if (either)                                                    \
+			li = CCS_TRUE;                                         \
+	}
+
 ccs_result_t
 ccs_interval_union(
 	ccs_interval_t *interval1,
@@ -112,21 +129,21 @@ ccs_interval_union(
 		CCS_RESULT_ERROR_INVALID_TYPE);
 	if (interval1->type == CCS_NUMERIC_TYPE_FLOAT) {
 		interval_res->type = CCS_NUMERIC_TYPE_FLOAT;
-		MERGE_MIN(
+		UNION_MIN(
 			interval1->lower.f, interval1->lower_included,
 			interval2->lower.f, interval2->lower_included,
 			interval_res->lower.f, interval_res->lower_included);
-		MERGE_MAX(
+		UNION_MAX(
 			interval1->upper.f, interval1->upper_included,
 			interval2->upper.f, interval2->upper_included,
 			interval_res->upper.f, interval_res->upper_included);
 	} else {
 		interval_res->type = CCS_NUMERIC_TYPE_INT;
-		MERGE_MIN(
+		UNION_MIN(
 			interval1->lower.i, interval1->lower_included,
 			interval2->lower.i, interval2->lower_included,
 			interval_res->lower.i, interval_res->lower_included);
-		MERGE_MAX(
+		UNION_MAX(
 			interval1->upper.i, interval1->upper_included,
 			interval2->upper.i, interval2->upper_included,
 			interval_res->upper.i, interval_res->upper_included);
-- 
2.43.0


From ec046d2acf5ee9afcc48815f766ce90d40324b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:50 +0000
Subject: [PATCH 30/47] fix: fill the table of generator types in ccs_init
 instead of racing for it in threads

Two threads restoring generators at the same time both read and wrote the
lazily filled static table without any ordering.
---
 src/cconfigspace.c    | 4 ++++
 src/rng_deserialize.h | 2 --
 src/rng_internal.h    | 3 +++
 3 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/cconfigspace.c b/src/cconfigspace.c
index 23ff295..d934620 100644
--- a/src/cconfigspace.c
+++ b/src/cconfigspace.c
@@ -7,6 +7,9 @@
 #include <errno.h>
 #include <unistd.h>
 #include "version.h"
+#include "rng_internal.h"
+
+const gsl_rng_type **_ccs_gsl_rng_types = NULL;
 
 const ccs_datum_t   ccs_none     = CCS_NONE_VAL;
 const ccs_datum_t   ccs_inactive = CCS_INACTIVE_VAL;
@@ -20,6 +23,7 @@ ccs_result_t
 ccs_init()
 {
 	gsl_rng_env_setup();
+	_ccs_gsl_rng_types = gsl_rng_types_setup();
 	return CCS_RESULT_SUCCESS;
 }
 
diff --git a/src/rng_deserialize.h b/src/rng_deserialize.h
index 8ecd41d..553de80 100644
--- a/src/rng_deserialize.h
+++ b/src/rng_deserialize.h
@@ -3,8 +3,6 @@
 #include "cconfigspace_internal.h"
 #include "rng_internal.h"
 
-static const gsl_rng_type **_ccs_gsl_rng_types = NULL;
-
 static inline ccs_result_t
 _ccs_deserialize_bin_rng(
 	ccs_rng_t                         *rng_ret,
diff --git a/src/rng_internal.h b/src/rng_internal.h
index 8ad7904..66dec7b 100644
--- a/src/rng_internal.h
+++ b/src/rng_internal.h
@@ -20,4 +20,7 @@ struct _ccs_rng_s {
 	_ccs_rng_data_t       *data;
 };
 
+/* Filled by ccs_init, threads must not race to do it later */
+extern const gsl_rng_type **_ccs_gsl_rng_types;
+
 #endif //_RNG_INTERNAL_H
-- 
2.43.0


From 8ab431d9415f29b4f51b7263c40fe06ce3ee4b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:05 +0000
Subject: [PATCH 31/47] fix: the upper bound of a closed Kokkos range is a
 candidate and nothing above it is

---
 connectors/kokkos/ccs-kokkos-connector.cpp | 26 +++++++++++++---------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/connectors/kokkos/ccs-kokkos-connector.cpp b/connectors/kokkos/ccs-kokkos-connector.cpp
index e0135a2..b09b731 100644
--- a/connectors/kokkos/ccs-kokkos-connector.cpp
+++ b/connectors/kokkos/ccs-kokkos-connector.cpp
@@ -3,6 +3,7 @@
 #include <string>
 #include <iostream>
 #include <cassert>
+#include <cmath>
 #include <map>
 #include <set>
 #include <stack>
@@ -40,8 +41,6 @@
 static int64_t ccs_time = 0;
 #endif
 
-static constexpr const double epsilon = 1E-24;
-
 using namespace Kokkos::Tools::Experimental;
 
 // initialize the stack to true, so it should never be empty.
@@ -273,16 +272,20 @@ variable_info_to_parameter(const char *name, VariableInfo *info)
 			  assert(0.0 <= step);
 			  if (info->candidates.range.openLower) {
 				  if (step == 0.0)
-					  lower = lower + epsilon;
+					  lower = std::nextafter(
+						  lower, CCS_INFINITY);
 				  else
 					  lower = lower + step;
 			  }
 			  if (!info->candidates.range.openUpper) {
 				  if (step == 0.0)
-					  upper = upper + epsilon;
-				  else // this is dubious/would require
-				       // verification
-					  upper = upper + step;
+					  upper = std::nextafter(
+						  upper, CCS_INFINITY);
+				  else // the first step past upper
+					  upper = lower +
+						  (std::floor((upper - lower) /
+							      step) +
+						   1.0) * step;
 			  }
 			  CCS_CHECK(ccs_create_numerical_parameter(
 				  name, CCS_NUMERIC_TYPE_FLOAT, lower, upper,
@@ -314,10 +317,11 @@ variable_info_to_parameter(const char *name, VariableInfo *info)
 			  }
 			  if (!info->candidates.range.openUpper) {
 				  if (step == 0)
-					  upper = upper + epsilon;
-				  else // this is dubious/would require
-				       // verification
-					  upper = upper + step;
+					  upper = upper + 1;
+				  else // the first step past upper
+					  upper = lower +
+						  ((upper - lower) / step + 1) *
+							  step;
 			  }
 			  CCS_CHECK(ccs_create_numerical_parameter(
 				  name, CCS_NUMERIC_TYPE_INT, lower, upper,
-- 
2.43.0


From 7da192ada8480a96fa2e13643ae132b90f5eb7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:05 +0000
Subject: [PATCH 32/47] fix: release the contexts still open when the Kokkos
 connector is finalised

---
 connectors/kokkos/ccs-kokkos-connector.cpp | 28 +++++++++++++---------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/connectors/kokkos/ccs-kokkos-connector.cpp b/connectors/kokkos/ccs-kokkos-connector.cpp
index b09b731..b78a484 100644
--- a/connectors/kokkos/ccs-kokkos-connector.cpp
+++ b/connectors/kokkos/ccs-kokkos-connector.cpp
@@ -130,6 +130,17 @@ static std::map<size_t, ccs_parameter_t> parameters;
 static std::map<std::set<size_t>, std::tuple<ccs_features_tuner_t, bool> >
 	tuners;
 
+static std::map<
+	size_t,
+	std::tuple<
+		struct timespec,
+		ccs_features_tuner_t,
+		ccs_features_t,
+		ccs_configuration_t,
+		bool> >
+	   contexts;
+static int regionCounter = 0;
+
 extern "C" void
 kokkosp_parse_args(int argc, char **argv)
 {
@@ -186,6 +197,12 @@ kokkosp_finalize_library()
   for (auto const &x : tuners)
 	  CCS_CHECK(ccs_release_object(std::get<0>(x.second)));
   tuners.clear();
+  for (auto const &x : contexts) {
+	  CCS_CHECK(ccs_release_object(std::get<2>(x.second)));
+	  CCS_CHECK(ccs_release_object(std::get<3>(x.second)));
+  }
+  contexts.clear();
+  convergence_stack = {};
   CCS_CHECK(ccs_fini());
 #if CCS_PROFILE
   clock_gettime(CLOCK_MONOTONIC, &prof_stop);
@@ -460,17 +477,6 @@ extract_value(
   }
 }
 
-static std::map<
-	size_t,
-	std::tuple<
-		struct timespec,
-		ccs_features_tuner_t,
-		ccs_features_t,
-		ccs_configuration_t,
-		bool> >
-	   contexts;
-static int regionCounter = 0;
-
 extern "C" void
 kokkosp_request_values(
 	size_t                                      contextId,
-- 
2.43.0


From 74d2c152cc1e16dd87dfee79bc7875b2517b665e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:05 +0000
Subject: [PATCH 33/47] fix: accept integer parameters whose range exceeds the
 largest integer

---
 src/parameter_numerical.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parameter_numerical.c b/src/parameter_numerical.c
index f103c42..985e109 100644
--- a/src/parameter_numerical.c
+++ b/src/parameter_numerical.c
@@ -291,7 +291,8 @@ ccs_create_numerical_parameter(
 	CCS_REFUTE(
 		data_type == CCS_NUMERIC_TYPE_INT &&
 			(lower.i >= upper.i || quantization.i < 0 ||
-			 quantization.i > upper.i - lower.i ||
+			 (uint64_t)quantization.i >
+				 (uint64_t)upper.i - (uint64_t)lower.i ||
 			 default_value.i < lower.i ||
 			 default_value.i >= upper.i),
 		CCS_RESULT_ERROR_INVALID_VALUE);
-- 
2.43.0


From 7d7f8f757c4bf40a2a462b1defeee9005c1c667c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:52 +0000
Subject: [PATCH 34/47] fix: refuse indexes that only match an element modulo
 2^32

---
 src/configuration_space.c | 8 ++++----
 src/context_internal.h    | 4 ++--
 src/objective_space.c     | 2 +-
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/configuration_space.c b/src/configuration_space.c
index b13524b..157c305 100644
--- a/src/configuration_space.c
+++ b/src/configuration_space.c
@@ -716,7 +716,7 @@ ccs_configuration_space_get_parameter_distribution(
 	_ccs_parameter_wrapper_cs_t *wrapper =
 		(_ccs_parameter_wrapper_cs_t *)utarray_eltptr(
 			configuration_space->data->parameters,
-			(unsigned int)index);
+			index);
 	CCS_REFUTE(!wrapper, CCS_RESULT_ERROR_OUT_OF_BOUNDS);
 	*distribution_ret = wrapper->distribution->distribution;
 	*index_ret        = wrapper->distribution_index;
@@ -1334,7 +1334,7 @@ ccs_configuration_space_set_condition(
 	_ccs_parameter_wrapper_cs_t *wrapper =
 		(_ccs_parameter_wrapper_cs_t *)utarray_eltptr(
 			configuration_space->data->parameters,
-			(unsigned int)parameter_index);
+			parameter_index);
 	CCS_REFUTE(!wrapper, CCS_RESULT_ERROR_OUT_OF_BOUNDS);
 	CCS_REFUTE(wrapper->condition, CCS_RESULT_ERROR_INVALID_PARAMETER);
 	ccs_result_t err;
@@ -1362,7 +1362,7 @@ ccs_configuration_space_get_condition(
 	_ccs_parameter_wrapper_cs_t *wrapper =
 		(_ccs_parameter_wrapper_cs_t *)utarray_eltptr(
 			configuration_space->data->parameters,
-			(unsigned int)parameter_index);
+			parameter_index);
 	CCS_REFUTE(!wrapper, CCS_RESULT_ERROR_OUT_OF_BOUNDS);
 	*expression_ret = wrapper->condition;
 	return CCS_RESULT_SUCCESS;
@@ -1466,7 +1466,7 @@ ccs_configuration_space_get_forbidden_clause(
 	CCS_CHECK_PTR(expression_ret);
 	ccs_expression_t *p_expr = (ccs_expression_t *)utarray_eltptr(
 		configuration_space->data->forbidden_clauses,
-		(unsigned int)index);
+		index);
 	CCS_REFUTE(!p_expr, CCS_RESULT_ERROR_OUT_OF_BOUNDS);
 	*expression_ret = *p_expr;
 	return CCS_RESULT_SUCCESS;
diff --git a/src/context_internal.h b/src/context_internal.h
index 3fa6a0b..86940e9 100644
--- a/src/context_internal.h
+++ b/src/context_internal.h
@@ -77,7 +77,7 @@ _ccs_context_get_parameter(
 	CCS_CHECK_PTR(parameter_ret);
 	_ccs_parameter_wrapper_t *wrapper =
 		(_ccs_parameter_wrapper_t *)utarray_eltptr(
-			context->data->parameters, (unsigned int)index);
+			context->data->parameters, index);
 	CCS_REFUTE(!wrapper, CCS_RESULT_ERROR_OUT_OF_BOUNDS);
 	*parameter_ret = wrapper->parameter;
 	return CCS_RESULT_SUCCESS;
@@ -184,7 +184,7 @@ _ccs_context_validate_value(
 	CCS_CHECK_PTR(value_ret);
 	_ccs_parameter_wrapper_t *wrapper =
 		(_ccs_parameter_wrapper_t *)utarray_eltptr(
-			context->data->parameters, (unsigned int)index);
+			context->data->parameters, index);
 	CCS_REFUTE(!wrapper, CCS_RESULT_ERROR_OUT_OF_BOUNDS);
 	ccs_bool_t valid;
 	CCS_VALIDATE(ccs_parameter_validate_value(
diff --git a/src/objective_space.c b/src/objective_space.c
index ddc1e76..91618ea 100644
--- a/src/objective_space.c
+++ b/src/objective_space.c
@@ -554,7 +554,7 @@ ccs_objective_space_get_objective(
 	CCS_CHECK_PTR(expression_ret);
 	CCS_CHECK_PTR(type_ret);
 	_ccs_objective_t *p_obj = (_ccs_objective_t *)utarray_eltptr(
-		objective_space->data->objectives, (unsigned int)index);
+		objective_space->data->objectives, index);
 	CCS_REFUTE(!p_obj, CCS_RESULT_ERROR_OUT_OF_BOUNDS);
 	*expression_ret = p_obj->expression;
 	*type_ret       = p_obj->type;
-- 
2.43.0


From 779f4b19e41739738ce706232c9e224eb29686bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:09 +0000
Subject: [PATCH 35/47] fix: check features values against features spaces, not
 configuration spaces

---
 src/features_space.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/features_space.c b/src/features_space.c
index 248a1b3..6269083 100644
--- a/src/features_space.c
+++ b/src/features_space.c
@@ -374,7 +374,7 @@ ccs_features_space_check_features_values(
 	ccs_datum_t         *values,
 	ccs_bool_t          *is_valid_ret)
 {
-	CCS_CHECK_OBJ(features_space, CCS_OBJECT_TYPE_CONFIGURATION_SPACE);
+	CCS_CHECK_OBJ(features_space, CCS_OBJECT_TYPE_FEATURES_SPACE);
 	CCS_CHECK_ARY(num_values, values);
 	CCS_VALIDATE(_check_features(
 		features_space, num_values, values, is_valid_ret));
-- 
2.43.0


From 02462ce5e50caa890d87915b4ac72bfc84220bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:09 +0000
Subject: [PATCH 36/47] fix: clear the room left behind the possible values of
 a parameter

---
 src/parameter_categorical.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parameter_categorical.c b/src/parameter_categorical.c
index 58a09dd..958d056 100644
--- a/src/parameter_categorical.c
+++ b/src/parameter_categorical.c
@@ -406,7 +406,7 @@ _ccs_categorical_parameter_get_values(
 			CCS_RESULT_ERROR_INVALID_VALUE);
 		for (size_t i = 0; i < d->num_possible_values; i++)
 			possible_values[i] = d->possible_values[i].d;
-		for (size_t i = num_possible_values; i < d->num_possible_values;
+		for (size_t i = d->num_possible_values; i < num_possible_values;
 		     i++)
 			possible_values[i] = ccs_none;
 	}
-- 
2.43.0


From 3b026be4520bcee17abe4af65881286bd9f1dd93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:09 +0000
Subject: [PATCH 37/47] fix: refuse numerical parameters whose bounds or
 default value are not numbers

---
 src/parameter_numerical.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parameter_numerical.c b/src/parameter_numerical.c
index 985e109..8757bc4 100644
--- a/src/parameter_numerical.c
+++ b/src/parameter_numerical.c
@@ -298,10 +298,10 @@ ccs_create_numerical_parameter(
 		CCS_RESULT_ERROR_INVALID_VALUE);
 	CCS_REFUTE(
 		data_type == CCS_NUMERIC_TYPE_FLOAT &&
-			(lower.f >= upper.f || quantization.f < 0.0 ||
+			(!(lower.f < upper.f) || !(quantization.f >= 0.0) ||
 			 quantization.f > upper.f - lower.f ||
-			 default_value.f < lower.f ||
-			 default_value.f >= upper.f),
+			 !(default_value.f >= lower.f) ||
+			 !(default_value.f < upper.f)),
 		CCS_RESULT_ERROR_INVALID_VALUE);
 	uintptr_t mem = (uintptr_t)calloc(
 		1, sizeof(struct _ccs_parameter_s) +
-- 
2.43.0


From 5199f96f4aa7ccfe33227153ace1e34f08d8338a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:09 +0000
Subject: [PATCH 38/47] fix: refuse missing result pointers that are documented
 as refused

---
 src/cconfigspace.c        | 1 +
 src/error_stack.c         | 1 +
 src/evaluation.c          | 1 +
 src/features_evaluation.c | 1 +
 src/rng.c                 | 1 +
 src/tree_evaluation.c     | 1 +
 6 files changed, 6 insertions(+)

diff --git a/src/cconfigspace.c b/src/cconfigspace.c
index d934620..fb8ebce 100644
--- a/src/cconfigspace.c
+++ b/src/cconfigspace.c
@@ -1050,6 +1050,7 @@ end:
 ccs_result_t
 ccs_get_result_name(ccs_result_t result, const char **name)
 {
+	CCS_CHECK_PTR(name);
 	switch (result) {
 		ETOCASE(CCS_RESULT_AGAIN);
 		ETOCASE(CCS_RESULT_SUCCESS);
diff --git a/src/error_stack.c b/src/error_stack.c
index baded2d..46ecbc6 100644
--- a/src/error_stack.c
+++ b/src/error_stack.c
@@ -123,6 +123,7 @@ ccs_create_error_stack(
 {
 	ccs_result_t err;
 	va_list      args;
+	CCS_CHECK_PTR(error_stack_ret);
 	va_start(args, msg);
 	err = _ccs_create_error_stack(error_stack_ret, error_code, msg, args);
 	va_end(args);
diff --git a/src/evaluation.c b/src/evaluation.c
index 4201894..5872f58 100644
--- a/src/evaluation.c
+++ b/src/evaluation.c
@@ -126,6 +126,7 @@ _ccs_evaluation_serialize(
 static ccs_result_t
 _ccs_evaluation_hash(_ccs_evaluation_data_t *data, ccs_hash_t *hash_ret)
 {
+	CCS_CHECK_PTR(hash_ret);
 	ccs_hash_t h, ht;
 	CCS_VALIDATE(_ccs_binding_hash((_ccs_binding_data_t *)data, &h));
 	CCS_VALIDATE(ccs_configuration_hash(data->configuration, &ht));
diff --git a/src/features_evaluation.c b/src/features_evaluation.c
index e64b786..e297cde 100644
--- a/src/features_evaluation.c
+++ b/src/features_evaluation.c
@@ -138,6 +138,7 @@ _ccs_features_evaluation_hash(
 	_ccs_features_evaluation_data_t *data,
 	ccs_hash_t                      *hash_ret)
 {
+	CCS_CHECK_PTR(hash_ret);
 	ccs_hash_t h, ht;
 	CCS_VALIDATE(_ccs_binding_hash((_ccs_binding_data_t *)data, &h));
 	CCS_VALIDATE(ccs_configuration_hash(data->configuration, &ht));
diff --git a/src/rng.c b/src/rng.c
index c710ee0..25e8f12 100644
--- a/src/rng.c
+++ b/src/rng.c
@@ -138,6 +138,7 @@ ccs_result_t
 ccs_rng_get_type(ccs_rng_t rng, const gsl_rng_type **rng_type_ret)
 {
 	CCS_CHECK_OBJ(rng, CCS_OBJECT_TYPE_RNG);
+	CCS_CHECK_PTR(rng_type_ret);
 	*rng_type_ret = rng->data->rng_type;
 	return CCS_RESULT_SUCCESS;
 }
diff --git a/src/tree_evaluation.c b/src/tree_evaluation.c
index 614e32b..991c670 100644
--- a/src/tree_evaluation.c
+++ b/src/tree_evaluation.c
@@ -129,6 +129,7 @@ _ccs_tree_evaluation_hash(
 	_ccs_tree_evaluation_data_t *data,
 	ccs_hash_t                  *hash_ret)
 {
+	CCS_CHECK_PTR(hash_ret);
 	ccs_hash_t h, ht;
 	CCS_VALIDATE(_ccs_binding_hash((_ccs_binding_data_t *)data, &h));
 	CCS_VALIDATE(ccs_tree_configuration_hash(data->configuration, &ht));
-- 
2.43.0


From 54794da846e575153f018d2205e1928d293ec891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:53 +0000
Subject: [PATCH 39/47] fix: refuse a missing array when room for tree
 configuration values is announced

---
 src/tree_configuration.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tree_configuration.c b/src/tree_configuration.c
index 4b76e1a..25e8314 100644
--- a/src/tree_configuration.c
+++ b/src/tree_configuration.c
@@ -194,6 +194,7 @@ ccs_tree_configuration_get_values(
 	size_t                  *num_values_ret)
 {
 	CCS_CHECK_OBJ(configuration, CCS_OBJECT_TYPE_TREE_CONFIGURATION);
+	CCS_CHECK_ARY(num_values, values);
 	CCS_REFUTE(!values && !num_values_ret, CCS_RESULT_ERROR_INVALID_VALUE);
 	size_t num = configuration->data->position_size + 1;
 	if (values)
-- 
2.43.0


From 67377b9e3ccb2e1905eb860427a99e110adaee67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:01 +0000
Subject: [PATCH 40/47] fix: an evaluation whose objectives cannot be computed
 never becomes an optimum

---
 src/features_tuner_random.c | 14 ++++++++++++++
 src/tree_tuner_random.c     | 14 ++++++++++++++
 src/tuner_random.c          | 14 ++++++++++++++
 3 files changed, 42 insertions(+)

diff --git a/src/features_tuner_random.c b/src/features_tuner_random.c
index d0fccfc..9ab0444 100644
--- a/src/features_tuner_random.c
+++ b/src/features_tuner_random.c
@@ -193,6 +193,10 @@ _ccs_features_tuner_random_tell(
 		(_ccs_random_features_tuner_data_t *)tuner->data;
 	UT_array    *history = d->history;
 	ccs_result_t err;
+	size_t       num_objectives;
+	CCS_VALIDATE(ccs_objective_space_get_objectives(
+		d->common_data.objective_space, 0, NULL, NULL,
+		&num_objectives));
 	for (size_t i = 0; i < num_evaluations; i++) {
 		ccs_evaluation_result_t result;
 		CCS_VALIDATE(ccs_features_evaluation_get_result(
@@ -200,6 +204,16 @@ _ccs_features_tuner_random_tell(
 		if (result == CCS_RESULT_SUCCESS) {
 			int       discard = 0;
 			UT_array *tmp;
+			// without all its objectives it cannot be an optimum
+			for (size_t j = 0; !discard && j < num_objectives;
+			     j++) {
+				ccs_datum_t value;
+				if (ccs_features_evaluation_get_objective_value(
+					    evaluations[i], j, &value)) {
+					ccs_clear_thread_error();
+					discard = 1;
+				}
+			}
 			utarray_clear(d->old_optima);
 			utarray_reserve(history, 1);
 			utarray_reserve(
diff --git a/src/tree_tuner_random.c b/src/tree_tuner_random.c
index a892ba0..41ebbca 100644
--- a/src/tree_tuner_random.c
+++ b/src/tree_tuner_random.c
@@ -185,6 +185,10 @@ _ccs_tree_tuner_random_tell(
 		(_ccs_random_tree_tuner_data_t *)tuner->data;
 	UT_array    *history = d->history;
 	ccs_result_t err;
+	size_t       num_objectives;
+	CCS_VALIDATE(ccs_objective_space_get_objectives(
+		d->common_data.objective_space, 0, NULL, NULL,
+		&num_objectives));
 	for (size_t i = 0; i < num_evaluations; i++) {
 		ccs_evaluation_result_t result;
 		CCS_VALIDATE(ccs_tree_evaluation_get_result(
@@ -192,6 +196,16 @@ _ccs_tree_tuner_random_tell(
 		if (!result) {
 			int       discard = 0;
 			UT_array *tmp;
+			// without all its objectives it cannot be an optimum
+			for (size_t j = 0; !discard && j < num_objectives;
+			     j++) {
+				ccs_datum_t value;
+				if (ccs_tree_evaluation_get_objective_value(
+					    evaluations[i], j, &value)) {
+					ccs_clear_thread_error();
+					discard = 1;
+				}
+			}
 			utarray_clear(d->old_optima);
 			utarray_reserve(history, 1);
 			utarray_reserve(
diff --git a/src/tuner_random.c b/src/tuner_random.c
index 8fecb1b..21ee6b4 100644
--- a/src/tuner_random.c
+++ b/src/tuner_random.c
@@ -184,6 +184,10 @@ _ccs_tuner_random_tell(
 	_ccs_random_tuner_data_t *d = (_ccs_random_tuner_data_t *)tuner->data;
 	UT_array                 *history = d->history;
 	ccs_result_t              err;
+	size_t                    num_objectives;
+	CCS_VALIDATE(ccs_objective_space_get_objectives(
+		d->common_data.objective_space, 0, NULL, NULL,
+		&num_objectives));
 	for (size_t i = 0; i < num_evaluations; i++) {
 		ccs_evaluation_result_t result;
 		CCS_VALIDATE(
@@ -191,6 +195,16 @@ _ccs_tuner_random_tell(
 		if (!result) {
 			int       discard = 0;
 			UT_array *tmp;
+			// without all its objectives it cannot be an optimum
+			for (size_t j = 0; !discard && j < num_objectives;
+			     j++) {
+				ccs_datum_t value;
+				if (ccs_evaluation_get_objective_value(
+					    evaluations[i], j, &value)) {
+					ccs_clear_thread_error();
+					discard = 1;
+				}
+			}
 			utarray_clear(d->old_optima);
 			utarray_reserve(history, 1);
 			utarray_reserve(
-- 
2.43.0


From 7e5d3466ec73d19f05809f2540d4905e8d4841d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:59 +0000
Subject: [PATCH 41/47] fix: dividing the smallest integer by minus one in an
 expression does not end the process

---
 src/expression.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/expression.c b/src/expression.c
index 51f0ee2..647ecfe 100644
--- a/src/expression.c
+++ b/src/expression.c
@@ -887,6 +887,11 @@ _ccs_expr_divide_eval(
 			CCS_REFUTE(
 				right.value.i == 0,
 				CCS_RESULT_ERROR_INVALID_VALUE);
+			/* the quotient is not an integer of this size */
+			CCS_REFUTE(
+				left.value.i == CCS_INT_MIN &&
+					right.value.i == -1,
+				CCS_RESULT_ERROR_INVALID_VALUE);
 			*result = ccs_int(left.value.i / right.value.i);
 			return CCS_RESULT_SUCCESS;
 		} else if (right.type == CCS_DATA_TYPE_FLOAT) {
@@ -938,7 +943,10 @@ _ccs_expr_modulo_eval(
 			CCS_REFUTE(
 				right.value.i == 0,
 				CCS_RESULT_ERROR_INVALID_VALUE);
-			*result = ccs_int(left.value.i % right.value.i);
+			*result = ccs_int(
+				right.value.i == -1 ?
+					0 :
+					left.value.i % right.value.i);
 			return CCS_RESULT_SUCCESS;
 		} else if (right.type == CCS_DATA_TYPE_FLOAT) {
 			CCS_REFUTE(
-- 
2.43.0


From b18062351d7c51c80d9072fb43b5a3a630e723f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:12:42 +0000
Subject: [PATCH 42/47] fix: a map entry set again by reference instead of by
 identifier (or the reverse) is updated

ccs_map_set returned early when the same object was already stored under
the key, even if one of the two was stored by identifier only: an object
set by reference was then not retained, and one set by identifier stayed
retained.
---
 src/map.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/map.c b/src/map.c
index d1df971..2a37577 100644
--- a/src/map.c
+++ b/src/map.c
@@ -207,7 +207,10 @@ ccs_map_set(ccs_map_t map, ccs_datum_t key, ccs_datum_t value)
 	_ccs_map_datum_t *entry     = NULL;
 	HASH_FIND(hh, d->map, &key, sizeof(ccs_datum_t), old_entry);
 	if (old_entry)
-		if (!_datum_cmp(&value, &old_entry->value))
+		if (!_datum_cmp(&value, &old_entry->value) &&
+		    !((value.flags ^ old_entry->value.flags) &
+		      CCS_DATUM_FLAG_ID) &&
+		    !((key.flags ^ old_entry->key.flags) & CCS_DATUM_FLAG_ID))
 			return CCS_RESULT_SUCCESS;
 
 	CCS_VALIDATE_ERR_GOTO(res, _ccs_map_check_datum(key, &sz, &sz1), err);
-- 
2.43.0


From 2aca28d1463940fc21b9a1c679923c8528e16331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:15 +0000
Subject: [PATCH 43/47] fix: restore spaces that use the same expression or
 distribution several times

---
 src/configuration_space_deserialize.h | 11 ++++++++---
 src/objective_space_deserialize.h     |  5 ++++-
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/configuration_space_deserialize.h b/src/configuration_space_deserialize.h
index 6e1b259..79a46e4 100644
--- a/src/configuration_space_deserialize.h
+++ b/src/configuration_space_deserialize.h
@@ -31,6 +31,11 @@ _ccs_deserialize_bin_ccs_configuration_space_data(
 	const char                          **buffer,
 	_ccs_object_deserialize_options_t    *opts)
 {
+	/* expressions and distributions can be used several times in a space */
+	_ccs_object_deserialize_options_t expr_opts = *opts;
+	_ccs_object_deserialize_options_t dist_opts = *opts;
+	expr_opts.map_values                        = CCS_FALSE;
+	dist_opts.handle_map                        = NULL;
 	uintptr_t mem;
 
 	CCS_VALIDATE(
@@ -85,7 +90,7 @@ _ccs_deserialize_bin_ccs_configuration_space_data(
 			data->cond_parameter_indices + i, buffer_size, buffer));
 		CCS_VALIDATE(_ccs_expression_deserialize(
 			data->conditions + i, CCS_SERIALIZE_FORMAT_BINARY,
-			version, buffer_size, buffer, opts));
+			version, buffer_size, buffer, &expr_opts));
 	}
 
 	size_t  dimension, num_indices = 0;
@@ -94,7 +99,7 @@ _ccs_deserialize_bin_ccs_configuration_space_data(
 	for (size_t i = 0; i < data->num_distributions; i++) {
 		CCS_VALIDATE(_ccs_distribution_deserialize(
 			data->distributions + i, CCS_SERIALIZE_FORMAT_BINARY,
-			version, buffer_size, buffer, opts));
+			version, buffer_size, buffer, &dist_opts));
 		CCS_VALIDATE(_ccs_deserialize_bin_size(
 			data->dimensions + i, buffer_size, buffer));
 		CCS_VALIDATE(ccs_distribution_get_dimension(
@@ -115,7 +120,7 @@ _ccs_deserialize_bin_ccs_configuration_space_data(
 		CCS_VALIDATE(_ccs_expression_deserialize(
 			data->forbidden_clauses + i,
 			CCS_SERIALIZE_FORMAT_BINARY, version, buffer_size,
-			buffer, opts));
+			buffer, &expr_opts));
 	}
 
 	return CCS_RESULT_SUCCESS;
diff --git a/src/objective_space_deserialize.h b/src/objective_space_deserialize.h
index 8405d8a..8d217b5 100644
--- a/src/objective_space_deserialize.h
+++ b/src/objective_space_deserialize.h
@@ -21,6 +21,9 @@ _ccs_deserialize_bin_ccs_objective_space_data(
 	const char                       **buffer,
 	_ccs_object_deserialize_options_t *opts)
 {
+	/* expressions can be used several times in a space */
+	_ccs_object_deserialize_options_t expr_opts = *opts;
+	expr_opts.map_values                        = CCS_FALSE;
 	uintptr_t mem;
 
 	CCS_VALIDATE(
@@ -52,7 +55,7 @@ _ccs_deserialize_bin_ccs_objective_space_data(
 	for (size_t i = 0; i < data->num_objectives; i++) {
 		CCS_VALIDATE(_ccs_expression_deserialize(
 			data->objectives + i, CCS_SERIALIZE_FORMAT_BINARY,
-			version, buffer_size, buffer, opts));
+			version, buffer_size, buffer, &expr_opts));
 		CCS_VALIDATE(_ccs_deserialize_bin_ccs_objective_type(
 			data->objective_types + i, buffer_size, buffer));
 	}
-- 
2.43.0


From 109ea7b14d81c3eca18f28a539424f38c57af3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:36:24 +0000
Subject: [PATCH 44/47] fix: out of memory in the random generator aborted the
 process

GSL's default error handler aborts; turn it off in ccs_init so that the
allocation failure is reported, unless the application has a handler.
---
 src/cconfigspace.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/cconfigspace.c b/src/cconfigspace.c
index fb8ebce..ff6f817 100644
--- a/src/cconfigspace.c
+++ b/src/cconfigspace.c
@@ -1,6 +1,7 @@
 #include "cconfigspace_internal.h"
 #include <stdlib.h>
 #include <gsl/gsl_rng.h>
+#include <gsl/gsl_errno.h>
 #include <sys/mman.h>
 #include <sys/stat.h>
 #include <fcntl.h>
@@ -22,6 +23,11 @@ const ccs_version_t ccs_version  = {
 ccs_result_t
 ccs_init()
 {
+	/* by default GSL aborts where it could return an error, a handler
+	 * installed by the application is kept */
+	gsl_error_handler_t *handler = gsl_set_error_handler_off();
+	if (handler)
+		gsl_set_error_handler(handler);
 	gsl_rng_env_setup();
 	_ccs_gsl_rng_types = gsl_rng_types_setup();
 	return CCS_RESULT_SUCCESS;
-- 
2.43.0


From 4bfe2aab0566ddab1760850c19c12c1de11ea409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:36:24 +0000
Subject: [PATCH 45/47] fix: uniform integer ranges wider than the generator's
 aborted the process

gsl_rng_uniform_int cannot draw more values than its generator has: it
calls the GSL error handler (abort), or returns 0 for every draw.
---
 src/distribution_uniform.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/distribution_uniform.c b/src/distribution_uniform.c
index d703267..1b3f1dd 100644
--- a/src/distribution_uniform.c
+++ b/src/distribution_uniform.c
@@ -225,6 +225,17 @@ _ccs_uniform_bound_int(ccs_float_t value, ccs_int_t lower, ccs_int_t upper)
 	return value < (ccs_float_t)upper ? (ccs_int_t)value : upper - 1;
 }
 
+/* GSL cannot draw more values than its generator has. */
+static inline ccs_int_t
+_ccs_uniform_draw_int(gsl_rng *grng, ccs_int_t num)
+{
+	ccs_float_t value;
+	if ((unsigned long)num <= gsl_rng_max(grng) - gsl_rng_min(grng))
+		return gsl_rng_uniform_int(grng, num);
+	value = gsl_rng_uniform(grng) * num;
+	return value < (ccs_float_t)num ? (ccs_int_t)value : num - 1;
+}
+
 static ccs_result_t
 _ccs_distribution_uniform_strided_samples(
 	_ccs_distribution_data_t *data,
@@ -295,7 +306,7 @@ _ccs_distribution_uniform_strided_samples(
 						lower.i;
 		} else {
 			for (i = 0; i < num_values; i++) {
-				values[i * stride].i = gsl_rng_uniform_int(
+				values[i * stride].i = _ccs_uniform_draw_int(
 					grng, internal_upper.i);
 			}
 			if (quantize)
@@ -376,7 +387,7 @@ _ccs_distribution_uniform_samples(
 						      lower.i;
 		} else {
 			for (i = 0; i < num_values; i++) {
-				values[i].i = gsl_rng_uniform_int(
+				values[i].i = _ccs_uniform_draw_int(
 					grng, internal_upper.i);
 			}
 			if (quantize)
-- 
2.43.0


From 057fa685e69e9c4d0f6335ab771023a674904bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:48:18 +0000
Subject: [PATCH 46/47] fix: serializing a string value without a string
 crashed

String parameters, literals and maps accept a NULL string; it is now
written as a string of size 0 and read back as such.
---
 src/cconfigspace_internal.h | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/cconfigspace_internal.h b/src/cconfigspace_internal.h
index f450739..3f7ca84 100644
--- a/src/cconfigspace_internal.h
+++ b/src/cconfigspace_internal.h
@@ -918,7 +918,10 @@ _ccs_serialize_bin_size_ccs_datum(ccs_datum_t datum)
 		sz += _ccs_serialize_bin_size_ccs_bool(datum.value.i);
 		break;
 	case CCS_DATA_TYPE_STRING:
-		sz += _ccs_serialize_bin_size_string(datum.value.s);
+		if (datum.value.s)
+			sz += _ccs_serialize_bin_size_string(datum.value.s);
+		else
+			sz += _ccs_serialize_bin_size_size(0);
 		break;
 	case CCS_DATA_TYPE_OBJECT:
 		sz += _ccs_serialize_bin_size_ccs_object(datum.value.o);
@@ -954,8 +957,12 @@ _ccs_serialize_bin_ccs_datum(
 			datum.value.i, buffer_size, buffer));
 		break;
 	case CCS_DATA_TYPE_STRING:
-		CCS_VALIDATE(_ccs_serialize_bin_string(
-			datum.value.s, buffer_size, buffer));
+		if (datum.value.s)
+			CCS_VALIDATE(_ccs_serialize_bin_string(
+				datum.value.s, buffer_size, buffer));
+		else
+			CCS_VALIDATE(_ccs_serialize_bin_size(
+				0, buffer_size, buffer));
 		break;
 	case CCS_DATA_TYPE_OBJECT:
 		CCS_VALIDATE(_ccs_serialize_bin_ccs_object(
@@ -1005,9 +1012,19 @@ _ccs_deserialize_bin_ccs_datum(
 		*datum = ccs_bool(b);
 	} break;
 	case CCS_DATA_TYPE_STRING: {
-		const char *s;
-		CCS_VALIDATE(
-			_ccs_deserialize_bin_string(&s, buffer_size, buffer));
+		/* a NULL string has size 0, strings end with a 0 */
+		size_t      size = *buffer_size;
+		const char *buff = *buffer;
+		const char *s    = NULL;
+		size_t      sz;
+		CCS_VALIDATE(_ccs_deserialize_bin_size(&sz, &size, &buff));
+		if (sz)
+			CCS_VALIDATE(_ccs_deserialize_bin_string(
+				&s, buffer_size, buffer));
+		else {
+			*buffer_size = size;
+			*buffer      = buff;
+		}
 		*datum = ccs_string(s);
 		datum->flags |= CCS_DATUM_FLAG_TRANSIENT;
 	} break;
-- 
2.43.0


From 639ffe8582ef79949ea9828fb866b6be5e7b6d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:05:21 +0000
Subject: [PATCH 47/47] fix: string parameter leaked a value when out of memory

The element that could not be added to the table of stored values was
not freed.
---
 src/parameter_string.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parameter_string.c b/src/parameter_string.c
index e45990b..2363ea5 100644
--- a/src/parameter_string.c
+++ b/src/parameter_string.c
@@ -117,6 +117,7 @@ _ccs_parameter_string_serialize(
 #undef uthash_nonfatal_oom
 #define uthash_nonfatal_oom(elt)                                               \
 	{                                                                      \
+		free(elt);                                                     \
 		CCS_RAISE(                                                     \
 			CCS_RESULT_ERROR_OUT_OF_MEMORY,                        \
 			"Not enough memory to allocate array");                \
-- 
2.43.0

