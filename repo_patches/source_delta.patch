From f186f291739332b5183fb9cd54ec79726e634ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:47 +0000
Subject: [PATCH 01/72] fix: ccs_map_get_keys returns the keys instead of the
 values

---
 src/map.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/map.c b/src/map.c
index b10d5d0..91f21ae 100644
--- a/src/map.c
+++ b/src/map.c
@@ -294,7 +294,7 @@ ccs_map_get_keys(
 		_ccs_map_datum_t *current = NULL, *tmp;
 		size_t            i       = 0;
 		HASH_ITER(hh, map->data->map, current, tmp)
-		keys[i++] = current->value;
+		keys[i++] = current->key;
 		for (i = num_entries; i < num_keys; i++)
 			keys[i] = ccs_none;
 	}
-- 
2.43.0


From 185821aab6a32e65364b6735792fe49e1440485c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:57 +0000
Subject: [PATCH 02/72] fix: integer overflow in expression evaluation
 (undefined behaviour, SIGFPE on INT64_MIN / -1)

---
 src/expression.c | 48 ++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 42 insertions(+), 6 deletions(-)

diff --git a/src/expression.c b/src/expression.c
index 028c660..bbf77b3 100644
--- a/src/expression.c
+++ b/src/expression.c
@@ -747,6 +747,37 @@ static _ccs_expression_ops_t _ccs_expr_in_ops = {
 	 &_ccs_expression_serialize},
 	&_ccs_expr_in_eval};
 
+/* Integer arithmetic wraps around (two's complement) on overflow. */
+static inline ccs_int_t
+_ccs_int_add(ccs_int_t a, ccs_int_t b)
+{
+	return (ccs_int_t)((uint64_t)a + (uint64_t)b);
+}
+
+static inline ccs_int_t
+_ccs_int_sub(ccs_int_t a, ccs_int_t b)
+{
+	return (ccs_int_t)((uint64_t)a - (uint64_t)b);
+}
+
+static inline ccs_int_t
+_ccs_int_mul(ccs_int_t a, ccs_int_t b)
+{
+	return (ccs_int_t)((uint64_t)a * (uint64_t)b);
+}
+
+static inline ccs_int_t
+_ccs_int_div(ccs_int_t a, ccs_int_t b)
+{
+	return b == -1 ? _ccs_int_sub(0, a) : a / b;
+}
+
+static inline ccs_int_t
+_ccs_int_mod(ccs_int_t a, ccs_int_t b)
+{
+	return b == -1 ? 0 : a % b;
+}
+
 static ccs_result_t
 _ccs_expr_add_eval(
 	_ccs_expression_data_t *data,
@@ -761,7 +792,8 @@ _ccs_expr_add_eval(
 	RETURN_IF_INACTIVE(right, result);
 	if (left.type == CCS_DATA_TYPE_INT) {
 		if (right.type == CCS_DATA_TYPE_INT) {
-			*result = ccs_int(left.value.i + right.value.i);
+			*result = ccs_int(
+				_ccs_int_add(left.value.i, right.value.i));
 			return CCS_RESULT_SUCCESS;
 		} else if (right.type == CCS_DATA_TYPE_FLOAT) {
 			*result = ccs_float(left.value.i + right.value.f);
@@ -800,7 +832,8 @@ _ccs_expr_substract_eval(
 	RETURN_IF_INACTIVE(right, result);
 	if (left.type == CCS_DATA_TYPE_INT) {
 		if (right.type == CCS_DATA_TYPE_INT) {
-			*result = ccs_int(left.value.i - right.value.i);
+			*result = ccs_int(
+				_ccs_int_sub(left.value.i, right.value.i));
 			return CCS_RESULT_SUCCESS;
 		} else if (right.type == CCS_DATA_TYPE_FLOAT) {
 			*result = ccs_float(left.value.i - right.value.f);
@@ -839,7 +872,8 @@ _ccs_expr_multiply_eval(
 	RETURN_IF_INACTIVE(right, result);
 	if (left.type == CCS_DATA_TYPE_INT) {
 		if (right.type == CCS_DATA_TYPE_INT) {
-			*result = ccs_int(left.value.i * right.value.i);
+			*result = ccs_int(
+				_ccs_int_mul(left.value.i, right.value.i));
 			return CCS_RESULT_SUCCESS;
 		} else if (right.type == CCS_DATA_TYPE_FLOAT) {
 			*result = ccs_float(left.value.i * right.value.f);
@@ -881,7 +915,8 @@ _ccs_expr_divide_eval(
 			CCS_REFUTE(
 				right.value.i == 0,
 				CCS_RESULT_ERROR_INVALID_VALUE);
-			*result = ccs_int(left.value.i / right.value.i);
+			*result = ccs_int(
+				_ccs_int_div(left.value.i, right.value.i));
 			return CCS_RESULT_SUCCESS;
 		} else if (right.type == CCS_DATA_TYPE_FLOAT) {
 			CCS_REFUTE(
@@ -932,7 +967,8 @@ _ccs_expr_modulo_eval(
 			CCS_REFUTE(
 				right.value.i == 0,
 				CCS_RESULT_ERROR_INVALID_VALUE);
-			*result = ccs_int(left.value.i % right.value.i);
+			*result = ccs_int(
+				_ccs_int_mod(left.value.i, right.value.i));
 			return CCS_RESULT_SUCCESS;
 		} else if (right.type == CCS_DATA_TYPE_FLOAT) {
 			CCS_REFUTE(
@@ -1004,7 +1040,7 @@ _ccs_expr_negative_eval(
 			node.type != CCS_DATA_TYPE_FLOAT,
 		CCS_RESULT_ERROR_INVALID_VALUE);
 	if (node.type == CCS_DATA_TYPE_INT) {
-		*result = ccs_int(-node.value.i);
+		*result = ccs_int(_ccs_int_sub(0, node.value.i));
 	} else if (node.type == CCS_DATA_TYPE_FLOAT) {
 		*result = ccs_float(-node.value.f);
 	}
-- 
2.43.0


From d319787fc6f04c0aa24ec4a9fbda6b2bfe8bf42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:57 +0000
Subject: [PATCH 03/72] fix: expression equality of floats compares values, not
 representations

---
 src/expression.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/expression.c b/src/expression.c
index bbf77b3..191a978 100644
--- a/src/expression.c
+++ b/src/expression.c
@@ -363,6 +363,10 @@ _ccs_datum_test_equal_generic(ccs_datum_t *a, ccs_datum_t *b, ccs_bool_t *equal)
 		case CCS_DATA_TYPE_NONE:
 			*equal = CCS_TRUE;
 			break;
+		case CCS_DATA_TYPE_FLOAT:
+			*equal = (a->value.f == b->value.f) ? CCS_TRUE :
+							      CCS_FALSE;
+			break;
 		default:
 			*equal = memcmp(&(a->value), &(b->value),
 					sizeof(ccs_value_t)) == 0 ?
-- 
2.43.0


From 3a1214d14be307d2f442644e91a40b807f9e73c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:57 +0000
Subject: [PATCH 04/72] fix: inactive list element makes 'in' on a variable
 fail instead of yielding inactive

---
 src/expression.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/expression.c b/src/expression.c
index 191a978..b9b29d0 100644
--- a/src/expression.c
+++ b/src/expression.c
@@ -729,8 +729,10 @@ _ccs_expr_in_eval(
 		ccs_datum_t right;
 		CCS_VALIDATE(ccs_expression_list_eval_node(
 			data->nodes[1], context, values, i, &right));
-		if (right.type == CCS_DATA_TYPE_INACTIVE)
+		if (right.type == CCS_DATA_TYPE_INACTIVE) {
 			inactive = CCS_TRUE;
+			continue;
+		}
 		CHECK_PARAMETERS(data->nodes[0], right, htl);
 		ccs_bool_t equal;
 		_ccs_datum_test_equal_generic(&left, &right, &equal);
-- 
2.43.0


From 80f76db3be85ce14dc0cf29ba60e321650fd685c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:57 +0000
Subject: [PATCH 05/72] fix: a rejected condition left the configuration space
 with a broken parameter order

---
 src/configuration_space.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/configuration_space.c b/src/configuration_space.c
index 6392af3..efea97b 100644
--- a/src/configuration_space.c
+++ b/src/configuration_space.c
@@ -866,6 +866,8 @@ ccs_configuration_space_get_default_configuration(
 	CCS_CHECK_PTR(configuration_ret);
 	ccs_result_t        err;
 	ccs_configuration_t config;
+	if (!configuration_space->data->graph_ok)
+		CCS_VALIDATE(_generate_constraints(configuration_space));
 	CCS_VALIDATE(ccs_create_configuration(
 		configuration_space, 0, NULL, &config));
 	UT_array *array = configuration_space->data->parameters;
@@ -1331,6 +1333,8 @@ ccs_configuration_space_set_condition(
 erre:
 	ccs_release_object(expression);
 	wrapper->condition = NULL;
+	// Restore the graph as it was before the rejected condition
+	_generate_constraints(configuration_space);
 	return err;
 }
 
-- 
2.43.0


From 6877675603eac910f63eb3ed978f4de086347b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:57 +0000
Subject: [PATCH 06/72] fix: configuration leaked when batch sampling is
 unsuccessful

---
 src/configuration_space.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/configuration_space.c b/src/configuration_space.c
index efea97b..16c9fa3 100644
--- a/src/configuration_space.c
+++ b/src/configuration_space.c
@@ -1114,12 +1114,13 @@ ccs_configuration_space_samples(
 			config                  = NULL;
 		}
 	}
-	CCS_REFUTE(
-		count < num_configurations,
-		CCS_RESULT_ERROR_SAMPLING_UNSUCCESSFUL);
+	CCS_REFUTE_ERR_GOTO(
+		err, count < num_configurations,
+		CCS_RESULT_ERROR_SAMPLING_UNSUCCESSFUL, errc);
 	return CCS_RESULT_SUCCESS;
 errc:
-	ccs_release_object(config);
+	if (config)
+		ccs_release_object(config);
 	return err;
 }
 
-- 
2.43.0


From 1c9985702c1367f65dc55b7cc71eea40174380fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:57 +0000
Subject: [PATCH 07/72] fix: distribution references leaked when
 set_distribution runs out of memory

---
 src/configuration_space.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/configuration_space.c b/src/configuration_space.c
index 16c9fa3..c02a730 100644
--- a/src/configuration_space.c
+++ b/src/configuration_space.c
@@ -640,7 +640,7 @@ ccs_configuration_space_set_distribution(
 		dmem = (uintptr_t)malloc(
 			sizeof(_ccs_distribution_wrapper_t) + sizeof(size_t));
 		CCS_REFUTE_ERR_GOTO(
-			err, !dmem, CCS_RESULT_ERROR_OUT_OF_MEMORY, memory);
+			err, !dmem, CCS_RESULT_ERROR_OUT_OF_MEMORY, dwrappers);
 		dwrapper = (_ccs_distribution_wrapper_t *)dmem;
 		dwrapper->parameter_indexes =
 			(size_t *)(dmem + sizeof(_ccs_distribution_wrapper_t));
-- 
2.43.0


From 50927ab8d697aa3d24e88efe454d6c4d78874d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:22 +0000
Subject: [PATCH 08/72] fix: buffer leaked when parameter sampling is
 unsuccessful

---
 src/parameter_categorical.c | 6 +++---
 src/parameter_numerical.c   | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/parameter_categorical.c b/src/parameter_categorical.c
index beefe62..e79f1de 100644
--- a/src/parameter_categorical.c
+++ b/src/parameter_categorical.c
@@ -178,9 +178,9 @@ _ccs_parameter_categorical_samples(
 		vs           = NULL;
 		size_t coeff = 2;
 		while (found < num_values) {
-			CCS_REFUTE(
-				coeff > 32,
-				CCS_RESULT_ERROR_SAMPLING_UNSUCCESSFUL);
+			CCS_REFUTE_ERR_GOTO(
+				err, coeff > 32,
+				CCS_RESULT_ERROR_SAMPLING_UNSUCCESSFUL, errmem);
 			size_t     buff_sz = (num_values - found) * coeff;
 			ccs_int_t *oldvs   = vs;
 			vs                 = (ccs_int_t *)realloc(
diff --git a/src/parameter_numerical.c b/src/parameter_numerical.c
index 645b518..bb0ba07 100644
--- a/src/parameter_numerical.c
+++ b/src/parameter_numerical.c
@@ -160,9 +160,9 @@ _ccs_parameter_numerical_samples(
 		vs           = NULL;
 		size_t coeff = 2;
 		while (found < num_values) {
-			CCS_REFUTE(
-				coeff > 32,
-				CCS_RESULT_ERROR_SAMPLING_UNSUCCESSFUL);
+			CCS_REFUTE_ERR_GOTO(
+				err, coeff > 32,
+				CCS_RESULT_ERROR_SAMPLING_UNSUCCESSFUL, errmem);
 			size_t         buff_sz = (num_values - found) * coeff;
 			ccs_numeric_t *oldvs   = vs;
 			vs                     = (ccs_numeric_t *)realloc(
-- 
2.43.0


From 352a978091341160c26d09fa81ff5ceaad0811cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:22 +0000
Subject: [PATCH 09/72] fix: surplus entries not reset when listing
 categorical, ordinal and discrete values

---
 src/parameter_categorical.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parameter_categorical.c b/src/parameter_categorical.c
index e79f1de..94552e4 100644
--- a/src/parameter_categorical.c
+++ b/src/parameter_categorical.c
@@ -405,7 +405,7 @@ _ccs_categorical_parameter_get_values(
 			CCS_RESULT_ERROR_INVALID_VALUE);
 		for (size_t i = 0; i < d->num_possible_values; i++)
 			possible_values[i] = d->possible_values[i].d;
-		for (size_t i = num_possible_values; i < d->num_possible_values;
+		for (size_t i = d->num_possible_values; i < num_possible_values;
 		     i++)
 			possible_values[i] = ccs_none;
 	}
-- 
2.43.0


From f390e222be09c1e457d2c58923178bb94aed6907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:19 +0000
Subject: [PATCH 10/72] fix: numerical parameter creation overflowed on wide
 integer ranges and accepted NaN

---
 src/parameter_numerical.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/parameter_numerical.c b/src/parameter_numerical.c
index bb0ba07..4dbc500 100644
--- a/src/parameter_numerical.c
+++ b/src/parameter_numerical.c
@@ -290,16 +290,17 @@ ccs_create_numerical_parameter(
 	CCS_REFUTE(
 		data_type == CCS_NUMERIC_TYPE_INT &&
 			(lower.i >= upper.i || quantization.i < 0 ||
-			 quantization.i > upper.i - lower.i ||
+			 (uint64_t)quantization.i >
+				 (uint64_t)upper.i - (uint64_t)lower.i ||
 			 default_value.i < lower.i ||
 			 default_value.i >= upper.i),
 		CCS_RESULT_ERROR_INVALID_VALUE);
 	CCS_REFUTE(
 		data_type == CCS_NUMERIC_TYPE_FLOAT &&
-			(lower.f >= upper.f || quantization.f < 0.0 ||
+			(!(lower.f < upper.f) || !(quantization.f >= 0.0) ||
 			 quantization.f > upper.f - lower.f ||
-			 default_value.f < lower.f ||
-			 default_value.f >= upper.f),
+			 !(default_value.f >= lower.f) ||
+			 !(default_value.f < upper.f)),
 		CCS_RESULT_ERROR_INVALID_VALUE);
 	uintptr_t mem = (uintptr_t)calloc(
 		1, sizeof(struct _ccs_parameter_s) +
-- 
2.43.0


From 16979651c0b7b93c56dcafc7f861c04c1dce82b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:19 +0000
Subject: [PATCH 11/72] fix: uniform integer distributions wider than the
 generator aborted, wide ranges overflowed

---
 src/distribution_uniform.c | 59 ++++++++++++++++++++++++++++----------
 1 file changed, 44 insertions(+), 15 deletions(-)

diff --git a/src/distribution_uniform.c b/src/distribution_uniform.c
index 2b1f06c..bf645d6 100644
--- a/src/distribution_uniform.c
+++ b/src/distribution_uniform.c
@@ -205,6 +205,23 @@ _ccs_distribution_uniform_get_bounds(
 	return CCS_RESULT_SUCCESS;
 }
 
+/* gsl_rng_uniform_int is limited to the range of the generator, wider ranges
+ * combine several draws. */
+static inline uint64_t
+_ccs_uniform_int(gsl_rng *grng, uint64_t n)
+{
+	if (n <= gsl_rng_max(grng) - gsl_rng_min(grng))
+		return gsl_rng_uniform_int(grng, n);
+	const uint64_t limit = UINT64_MAX - UINT64_MAX % n;
+	uint64_t       v;
+	do {
+		v = 0;
+		for (int i = 0; i < 4; i++)
+			v = (v << 16) | gsl_rng_uniform_int(grng, 1UL << 16);
+	} while (v >= limit);
+	return v % n;
+}
+
 static ccs_result_t
 _ccs_distribution_uniform_strided_samples(
 	_ccs_distribution_data_t *data,
@@ -269,18 +286,24 @@ _ccs_distribution_uniform_strided_samples(
 						lower.i;
 		} else {
 			for (i = 0; i < num_values; i++) {
-				values[i * stride].i = gsl_rng_uniform_int(
-					grng, internal_upper.i);
+				values[i * stride].i = (ccs_int_t)_ccs_uniform_int(
+					grng, (uint64_t)internal_upper.i);
 			}
 			if (quantize)
 				for (i = 0; i < num_values; i++)
 					values[i * stride].i =
-						values[i * stride].i *
-							quantization.i +
-						lower.i;
+						(ccs_int_t)((uint64_t)values[i * stride]
+								    .i *
+							    (uint64_t)
+								    quantization
+									    .i +
+							    (uint64_t)lower.i);
 			else
 				for (i = 0; i < num_values; i++)
-					values[i * stride].i += lower.i;
+					values[i * stride].i =
+						(ccs_int_t)((uint64_t)values[i * stride]
+								    .i +
+							    (uint64_t)lower.i);
 		}
 	}
 	return CCS_RESULT_SUCCESS;
@@ -344,17 +367,22 @@ _ccs_distribution_uniform_samples(
 						      lower.i;
 		} else {
 			for (i = 0; i < num_values; i++) {
-				values[i].i = gsl_rng_uniform_int(
-					grng, internal_upper.i);
+				values[i].i = (ccs_int_t)_ccs_uniform_int(
+					grng, (uint64_t)internal_upper.i);
 			}
 			if (quantize)
 				for (i = 0; i < num_values; i++)
 					values[i].i =
-						values[i].i * quantization.i +
-						lower.i;
+						(ccs_int_t)((uint64_t)values[i].i *
+							    (uint64_t)
+								    quantization
+									    .i +
+							    (uint64_t)lower.i);
 			else
 				for (i = 0; i < num_values; i++)
-					values[i].i += lower.i;
+					values[i].i =
+						(ccs_int_t)((uint64_t)values[i].i +
+							    (uint64_t)lower.i);
 		}
 	}
 	return CCS_RESULT_SUCCESS;
@@ -397,7 +425,8 @@ ccs_create_uniform_distribution(
 			 (scale_type == CCS_SCALE_TYPE_LOGARITHMIC &&
 			  lower.i <= 0) ||
 			 quantization.i < 0 ||
-			 quantization.i > upper.i - lower.i),
+			 (uint64_t)quantization.i >
+				 (uint64_t)upper.i - (uint64_t)lower.i),
 		CCS_RESULT_ERROR_INVALID_VALUE);
 	CCS_REFUTE(
 		data_type == CCS_NUMERIC_TYPE_FLOAT &&
@@ -451,10 +480,10 @@ ccs_create_uniform_distribution(
 			distrib_data->internal_upper.f = log(upper.i);
 		} else {
 			distrib_data->internal_lower.i = 0;
-			distrib_data->internal_upper.i = upper.i - lower.i;
+			uint64_t range = (uint64_t)upper.i - (uint64_t)lower.i;
 			if (quantization.i != 0)
-				distrib_data->internal_upper.i /=
-					quantization.i;
+				range /= (uint64_t)quantization.i;
+			distrib_data->internal_upper.i = (ccs_int_t)range;
 		}
 	}
 	distrib->data     = (_ccs_distribution_data_t *)distrib_data;
-- 
2.43.0


From 30bb6b4cb9b3b8d4e30b2abb60dd6466bbcc840f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:21 +0000
Subject: [PATCH 12/72] fix: uniform samples could round out of their bounds,
 unbounded ranges produced NaN

---
 src/distribution_uniform.c | 89 +++++++++++++++++++++++++++-----------
 1 file changed, 64 insertions(+), 25 deletions(-)

diff --git a/src/distribution_uniform.c b/src/distribution_uniform.c
index bf645d6..ca72294 100644
--- a/src/distribution_uniform.c
+++ b/src/distribution_uniform.c
@@ -222,6 +222,27 @@ _ccs_uniform_int(gsl_rng *grng, uint64_t n)
 	return v % n;
 }
 
+/* Rounding must not push a sample out of [lower, upper). */
+static inline ccs_float_t
+_ccs_uniform_bound_float(ccs_float_t v, ccs_numeric_t lower, ccs_numeric_t upper)
+{
+	if (v < lower.f)
+		return lower.f;
+	if (v >= upper.f)
+		return nextafter(upper.f, lower.f);
+	return v;
+}
+
+static inline ccs_int_t
+_ccs_uniform_bound_int(ccs_float_t v, ccs_numeric_t lower, ccs_numeric_t upper)
+{
+	if (v >= (ccs_float_t)upper.i)
+		return upper.i - 1;
+	if (v < (ccs_float_t)lower.i || (ccs_int_t)v < lower.i)
+		return lower.i;
+	return (ccs_int_t)v;
+}
+
 static ccs_result_t
 _ccs_distribution_uniform_strided_samples(
 	_ccs_distribution_data_t *data,
@@ -237,6 +258,7 @@ _ccs_distribution_uniform_strided_samples(
 	const ccs_scale_type_t   scale_type     = d->scale_type;
 	const ccs_numeric_t      quantization   = d->quantization;
 	const ccs_numeric_t      lower          = d->lower;
+	const ccs_numeric_t      upper          = d->upper;
 	const ccs_numeric_t      internal_lower = d->internal_lower;
 	const ccs_numeric_t      internal_upper = d->internal_upper;
 	const int                quantize       = d->quantize;
@@ -250,31 +272,38 @@ _ccs_distribution_uniform_strided_samples(
 		}
 		if (scale_type == CCS_SCALE_TYPE_LOGARITHMIC) {
 			for (i = 0; i < num_values; i++)
-				values[i * stride].f =
-					exp(values[i * stride].f);
+				values[i * stride].f = _ccs_uniform_bound_float(
+					exp(values[i * stride].f), lower,
+					upper);
 			if (quantize)
 				for (i = 0; i < num_values; i++)
-					values[i * stride].f =
+					values[i * stride].f = _ccs_uniform_bound_float(
 						floor((values[i * stride].f -
 						       lower.f) /
 						      quantization.f) *
-							quantization.f +
-						lower.f;
+								quantization.f +
+							lower.f,
+						lower, upper);
 		} else if (quantize)
 			for (i = 0; i < num_values; i++)
-				values[i * stride].f =
+				values[i * stride].f = _ccs_uniform_bound_float(
 					floor(values[i * stride].f) *
-						quantization.f +
-					lower.f;
+							quantization.f +
+						lower.f,
+					lower, upper);
 		else
 			for (i = 0; i < num_values; i++)
-				values[i * stride].f += lower.f;
+				values[i * stride].f = _ccs_uniform_bound_float(
+					values[i * stride].f + lower.f, lower,
+					upper);
 	} else {
 		if (scale_type == CCS_SCALE_TYPE_LOGARITHMIC) {
 			for (i = 0; i < num_values; i++) {
-				values[i * stride].i = floor(exp(gsl_ran_flat(
-					grng, internal_lower.f,
-					internal_upper.f)));
+				values[i * stride].i = _ccs_uniform_bound_int(
+					floor(exp(gsl_ran_flat(
+						grng, internal_lower.f,
+						internal_upper.f))),
+					lower, upper);
 			}
 			if (quantize)
 				for (i = 0; i < num_values; i++)
@@ -323,6 +352,7 @@ _ccs_distribution_uniform_samples(
 	const ccs_scale_type_t   scale_type     = d->scale_type;
 	const ccs_numeric_t      quantization   = d->quantization;
 	const ccs_numeric_t      lower          = d->lower;
+	const ccs_numeric_t      upper          = d->upper;
 	const ccs_numeric_t      internal_lower = d->internal_lower;
 	const ccs_numeric_t      internal_upper = d->internal_upper;
 	const int                quantize       = d->quantize;
@@ -336,28 +366,34 @@ _ccs_distribution_uniform_samples(
 		}
 		if (scale_type == CCS_SCALE_TYPE_LOGARITHMIC) {
 			for (i = 0; i < num_values; i++)
-				values[i].f = exp(values[i].f);
+				values[i].f = _ccs_uniform_bound_float(
+					exp(values[i].f), lower, upper);
 			if (quantize)
 				for (i = 0; i < num_values; i++)
-					values[i].f =
+					values[i].f = _ccs_uniform_bound_float(
 						floor((values[i].f - lower.f) /
 						      quantization.f) *
-							quantization.f +
-						lower.f;
+								quantization.f +
+							lower.f,
+						lower, upper);
 		} else if (quantize)
 			for (i = 0; i < num_values; i++)
-				values[i].f =
+				values[i].f = _ccs_uniform_bound_float(
 					floor(values[i].f) * quantization.f +
-					lower.f;
+						lower.f,
+					lower, upper);
 		else
 			for (i = 0; i < num_values; i++)
-				values[i].f += lower.f;
+				values[i].f = _ccs_uniform_bound_float(
+					values[i].f + lower.f, lower, upper);
 	} else {
 		if (scale_type == CCS_SCALE_TYPE_LOGARITHMIC) {
 			for (i = 0; i < num_values; i++) {
-				values[i].i = floor(exp(gsl_ran_flat(
-					grng, internal_lower.f,
-					internal_upper.f)));
+				values[i].i = _ccs_uniform_bound_int(
+					floor(exp(gsl_ran_flat(
+						grng, internal_lower.f,
+						internal_upper.f))),
+					lower, upper);
 			}
 			if (quantize)
 				for (i = 0; i < num_values; i++)
@@ -430,11 +466,14 @@ ccs_create_uniform_distribution(
 		CCS_RESULT_ERROR_INVALID_VALUE);
 	CCS_REFUTE(
 		data_type == CCS_NUMERIC_TYPE_FLOAT &&
-			(lower.f >= upper.f ||
+			(!(lower.f < upper.f) ||
 			 (scale_type == CCS_SCALE_TYPE_LOGARITHMIC &&
 			  lower.f <= 0.0) ||
-			 quantization.f < 0.0 ||
-			 quantization.f > upper.f - lower.f),
+			 !(quantization.f >= 0.0) ||
+			 !isfinite(upper.f - lower.f) ||
+			 quantization.f > upper.f - lower.f ||
+			 (quantization.f != 0.0 &&
+			  !isfinite((upper.f - lower.f) / quantization.f))),
 		CCS_RESULT_ERROR_INVALID_VALUE);
 	uintptr_t mem = (uintptr_t)calloc(
 		1, sizeof(struct _ccs_distribution_s) +
-- 
2.43.0


From cf09d9e1d55673330ee9c4be8deb6fa8267503e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:40 +0000
Subject: [PATCH 13/72] fix: interval emptiness, union and equality of open,
 empty and extreme intervals

---
 src/interval.c | 107 +++++++++++++++++++++++++++++++------------------
 1 file changed, 69 insertions(+), 38 deletions(-)

diff --git a/src/interval.c b/src/interval.c
index cabc912..0568f2f 100644
--- a/src/interval.c
+++ b/src/interval.c
@@ -1,30 +1,45 @@
 #include "cconfigspace_internal.h"
 
+/* Closed integer bounds of an interval, returns non zero if it is empty. */
+static inline int
+_ccs_interval_int_bounds(ccs_interval_t *interval, ccs_int_t *l, ccs_int_t *u)
+{
+	*l = interval->lower.i;
+	*u = interval->upper.i;
+	if ((!interval->lower_included && *l == CCS_INT_MAX) ||
+	    (!interval->upper_included && *u == CCS_INT_MIN))
+		return 1;
+	if (!interval->lower_included)
+		*l += 1;
+	if (!interval->upper_included)
+		*u -= 1;
+	return *l > *u;
+}
+
+static inline int
+_ccs_interval_empty(ccs_interval_t *interval)
+{
+	ccs_int_t l, u;
+	// Empty ranges
+	// [l,u] when l> u; ]l,u] when l>=u
+	// [l,u[ when l>=u; ]l,u[ when l>=u (l+1>=u for integers)
+	if (interval->type == CCS_NUMERIC_TYPE_INT)
+		return _ccs_interval_int_bounds(interval, &l, &u);
+	return interval->upper_included && interval->lower_included ?
+		       interval->lower.f > interval->upper.f :
+		       interval->lower.f >= interval->upper.f;
+}
+
 ccs_result_t
 ccs_interval_empty(ccs_interval_t *interval, ccs_bool_t *empty_ret)
 {
 	CCS_REFUTE(!interval || !empty_ret, CCS_RESULT_ERROR_INVALID_VALUE);
-	// Empty ranges
-	// [l,u] when l> u; ]l,u] when l>=u
-	// [l,u[ when l>=u; ]l,u[ when l>=u
-	if (interval->type == CCS_NUMERIC_TYPE_INT) {
-		if (interval->upper_included && interval->lower_included ?
-			    interval->lower.i > interval->upper.i :
-			    interval->lower.i >= interval->upper.i) {
-			*empty_ret = CCS_TRUE;
-		} else
-			*empty_ret = CCS_FALSE;
-	} else {
-		if (interval->upper_included && interval->lower_included ?
-			    interval->lower.f > interval->upper.f :
-			    interval->lower.f >= interval->upper.f) {
-			*empty_ret = CCS_TRUE;
-		} else
-			*empty_ret = CCS_FALSE;
-	}
+	*empty_ret = _ccs_interval_empty(interval) ? CCS_TRUE : CCS_FALSE;
 	return CCS_RESULT_SUCCESS;
 }
-#define MERGE_MAX(l1, li1, l2, li2, l, li)                                     \
+/* drop: inclusion that gives way to the other one when bounds are equal,
+ * CCS_TRUE for an intersection, CCS_FALSE for a union */
+#define MERGE_MAX(l1, li1, l2, li2, l, li, drop)                               \
 	{                                                                      \
 		if (l1 > l2) {                                                 \
 			l  = l1;                                               \
@@ -33,7 +48,7 @@ ccs_interval_empty(ccs_interval_t *interval, ccs_bool_t *empty_ret)
 			l  = l2;                                               \
 			li = li2;                                              \
 		} else {                                                       \
-			if (li1) {                                             \
+			if (!li1 == !drop) {                                   \
 				l  = l2;                                       \
 				li = li2;                                      \
 			} else {                                               \
@@ -43,7 +58,7 @@ ccs_interval_empty(ccs_interval_t *interval, ccs_bool_t *empty_ret)
 		}                                                              \
 	}
 
-#define MERGE_MIN(l1, li1, l2, li2, l, li)                                     \
+#define MERGE_MIN(l1, li1, l2, li2, l, li, drop)                               \
 	{                                                                      \
 		if (l1 < l2) {                                                 \
 			l  = l1;                                               \
@@ -52,7 +67,7 @@ ccs_interval_empty(ccs_interval_t *interval, ccs_bool_t *empty_ret)
 			l  = l2;                                               \
 			li = li2;                                              \
 		} else {                                                       \
-			if (li1) {                                             \
+			if (!li1 == !drop) {                                   \
 				l  = l2;                                       \
 				li = li2;                                      \
 			} else {                                               \
@@ -79,21 +94,25 @@ ccs_interval_intersect(
 		MERGE_MAX(
 			interval1->lower.f, interval1->lower_included,
 			interval2->lower.f, interval2->lower_included,
-			interval_res->lower.f, interval_res->lower_included);
+			interval_res->lower.f, interval_res->lower_included,
+			CCS_TRUE);
 		MERGE_MIN(
 			interval1->upper.f, interval1->upper_included,
 			interval2->upper.f, interval2->upper_included,
-			interval_res->upper.f, interval_res->upper_included);
+			interval_res->upper.f, interval_res->upper_included,
+			CCS_TRUE);
 	} else {
 		interval_res->type = CCS_NUMERIC_TYPE_INT;
 		MERGE_MAX(
 			interval1->lower.i, interval1->lower_included,
 			interval2->lower.i, interval2->lower_included,
-			interval_res->lower.i, interval_res->lower_included);
+			interval_res->lower.i, interval_res->lower_included,
+			CCS_TRUE);
 		MERGE_MIN(
 			interval1->upper.i, interval1->upper_included,
 			interval2->upper.i, interval2->upper_included,
-			interval_res->upper.i, interval_res->upper_included);
+			interval_res->upper.i, interval_res->upper_included,
+			CCS_TRUE);
 	}
 	return CCS_RESULT_SUCCESS;
 }
@@ -110,26 +129,38 @@ ccs_interval_union(
 	CCS_REFUTE(
 		interval1->type != interval2->type,
 		CCS_RESULT_ERROR_INVALID_TYPE);
+	if (_ccs_interval_empty(interval1)) {
+		*interval_res = *interval2;
+		return CCS_RESULT_SUCCESS;
+	}
+	if (_ccs_interval_empty(interval2)) {
+		*interval_res = *interval1;
+		return CCS_RESULT_SUCCESS;
+	}
 	if (interval1->type == CCS_NUMERIC_TYPE_FLOAT) {
 		interval_res->type = CCS_NUMERIC_TYPE_FLOAT;
 		MERGE_MIN(
 			interval1->lower.f, interval1->lower_included,
 			interval2->lower.f, interval2->lower_included,
-			interval_res->lower.f, interval_res->lower_included);
+			interval_res->lower.f, interval_res->lower_included,
+			CCS_FALSE);
 		MERGE_MAX(
 			interval1->upper.f, interval1->upper_included,
 			interval2->upper.f, interval2->upper_included,
-			interval_res->upper.f, interval_res->upper_included);
+			interval_res->upper.f, interval_res->upper_included,
+			CCS_FALSE);
 	} else {
 		interval_res->type = CCS_NUMERIC_TYPE_INT;
 		MERGE_MIN(
 			interval1->lower.i, interval1->lower_included,
 			interval2->lower.i, interval2->lower_included,
-			interval_res->lower.i, interval_res->lower_included);
+			interval_res->lower.i, interval_res->lower_included,
+			CCS_FALSE);
 		MERGE_MAX(
 			interval1->upper.i, interval1->upper_included,
 			interval2->upper.i, interval2->upper_included,
-			interval_res->upper.i, interval_res->upper_included);
+			interval_res->upper.i, interval_res->upper_included,
+			CCS_FALSE);
 	}
 	return CCS_RESULT_SUCCESS;
 }
@@ -146,6 +177,12 @@ ccs_interval_equal(
 	CCS_REFUTE(
 		interval1->type != interval2->type,
 		CCS_RESULT_ERROR_INVALID_TYPE);
+	const int empty1 = _ccs_interval_empty(interval1);
+	const int empty2 = _ccs_interval_empty(interval2);
+	if (empty1 || empty2) {
+		*equal_res = empty1 && empty2 ? CCS_TRUE : CCS_FALSE;
+		return CCS_RESULT_SUCCESS;
+	}
 	if (interval1->type == CCS_NUMERIC_TYPE_FLOAT) {
 		*equal_res =
 			(interval1->lower.f == interval2->lower.f &&
@@ -156,14 +193,8 @@ ccs_interval_equal(
 				 interval2->upper_included);
 	} else {
 		ccs_int_t l1, u1, l2, u2;
-		l1         = interval1->lower_included ? interval1->lower.i :
-							 interval1->lower.i + 1;
-		u1         = interval1->upper_included ? interval1->upper.i :
-							 interval1->upper.i - 1;
-		l2         = interval2->lower_included ? interval2->lower.i :
-							 interval2->lower.i + 1;
-		u2         = interval2->upper_included ? interval2->upper.i :
-							 interval2->upper.i - 1;
+		(void)_ccs_interval_int_bounds(interval1, &l1, &u1);
+		(void)_ccs_interval_int_bounds(interval2, &l2, &u2);
 		*equal_res = (l1 == l2 && u1 == u2);
 	}
 	return CCS_RESULT_SUCCESS;
-- 
2.43.0


From 329ea30e553b820093361441dd6fcfd85e4c881d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:40 +0000
Subject: [PATCH 14/72] fix: integer normal sampling overflowed near the
 integer limits, degenerate definitions accepted

---
 src/distribution_normal.c | 63 +++++++++++++++++++++++++++++----------
 1 file changed, 48 insertions(+), 15 deletions(-)

diff --git a/src/distribution_normal.c b/src/distribution_normal.c
index 9f6be69..bc2c3de 100644
--- a/src/distribution_normal.c
+++ b/src/distribution_normal.c
@@ -280,6 +280,25 @@ _ccs_distribution_normal_samples_float(
 	return CCS_RESULT_SUCCESS;
 }
 
+/* Whether the quantized sample can be represented and is in the bounds. */
+static inline int
+_ccs_normal_int_representable(
+	ccs_float_t            value,
+	const ccs_scale_type_t scale_type,
+	const ccs_int_t        quantization,
+	const int              quantize)
+{
+	const ccs_int_t   q = quantize ? quantization : 1;
+	const ccs_float_t k =
+		round(quantize ? value * (1.0 / quantization) : value);
+	if (!(k >= -0x1p63 && k < 0x1p63))
+		return 0;
+	return (ccs_int_t)k <= CCS_INT_MAX / q &&
+	       (ccs_int_t)k >= (scale_type == CCS_SCALE_TYPE_LOGARITHMIC ?
+					1 :
+					CCS_INT_MIN / q);
+}
+
 static inline ccs_result_t
 _ccs_distribution_normal_samples_int(
 	gsl_rng               *grng,
@@ -310,8 +329,9 @@ _ccs_distribution_normal_samples_int(
 					} while (values[i].f < lq);
 					values[i].f = exp(values[i].f);
 				} while (CCS_UNLIKELY(
-					values[i].f - q >
-					(ccs_float_t)CCS_INT_MAX));
+					!_ccs_normal_int_representable(
+						values[i].f, scale_type,
+						quantization, quantize)));
 		else
 			for (i = 0; i < num_values; i++)
 				do {
@@ -321,16 +341,18 @@ _ccs_distribution_normal_samples_int(
 						mu;
 					values[i].f = exp(values[i].f);
 				} while (CCS_UNLIKELY(
-					values[i].f - q >
-					(ccs_float_t)CCS_INT_MAX));
+					!_ccs_normal_int_representable(
+						values[i].f, scale_type,
+						quantization, quantize)));
 	} else
 		for (i = 0; i < num_values; i++)
 			do {
 				values[i].f =
 					gsl_ran_gaussian(grng, sigma) + mu;
 			} while (CCS_UNLIKELY(
-				values[i].f - q > (ccs_float_t)CCS_INT_MAX ||
-				values[i].f + q < (ccs_float_t)CCS_INT_MIN));
+					!_ccs_normal_int_representable(
+						values[i].f, scale_type,
+						quantization, quantize)));
 	if (quantize) {
 		ccs_float_t rquantization = 1.0 / quantization;
 		for (i = 0; i < num_values; i++)
@@ -449,8 +471,9 @@ _ccs_distribution_normal_strided_samples_int(
 					values[i * stride].f =
 						exp(values[i * stride].f);
 				} while (CCS_UNLIKELY(
-					values[i * stride].f - q >
-					(ccs_float_t)CCS_INT_MAX));
+					!_ccs_normal_int_representable(
+						values[i * stride].f, scale_type,
+						quantization, quantize)));
 		else
 			for (i = 0; i < num_values; i++)
 				do {
@@ -461,18 +484,18 @@ _ccs_distribution_normal_strided_samples_int(
 					values[i * stride].f =
 						exp(values[i * stride].f);
 				} while (CCS_UNLIKELY(
-					values[i * stride].f - q >
-					(ccs_float_t)CCS_INT_MAX));
+					!_ccs_normal_int_representable(
+						values[i * stride].f, scale_type,
+						quantization, quantize)));
 	} else
 		for (i = 0; i < num_values; i++)
 			do {
 				values[i * stride].f =
 					gsl_ran_gaussian(grng, sigma) + mu;
 			} while (CCS_UNLIKELY(
-				values[i * stride].f - q >
-					(ccs_float_t)CCS_INT_MAX ||
-				values[i * stride].f + q <
-					(ccs_float_t)CCS_INT_MIN));
+					!_ccs_normal_int_representable(
+						values[i * stride].f, scale_type,
+						quantization, quantize)));
 	if (quantize) {
 		ccs_float_t rquantization = 1.0 / quantization;
 		for (i = 0; i < num_values; i++)
@@ -550,7 +573,17 @@ ccs_create_normal_distribution(
 		data_type == CCS_NUMERIC_TYPE_INT && quantization.i < 0,
 		CCS_RESULT_ERROR_INVALID_VALUE);
 	CCS_REFUTE(
-		data_type == CCS_NUMERIC_TYPE_FLOAT && quantization.f < 0.0,
+		data_type == CCS_NUMERIC_TYPE_FLOAT && !(quantization.f >= 0.0),
+		CCS_RESULT_ERROR_INVALID_VALUE);
+	CCS_REFUTE(
+		!isfinite(mu) || !isfinite(sigma),
+		CCS_RESULT_ERROR_INVALID_VALUE);
+	/* a mean out of the integer range leaves (almost) nothing to sample */
+	CCS_REFUTE(
+		data_type == CCS_NUMERIC_TYPE_INT &&
+			(scale_type == CCS_SCALE_TYPE_LOGARITHMIC ?
+				 mu > log(0x1p63) :
+				 fabs(mu) > 0x1p63),
 		CCS_RESULT_ERROR_INVALID_VALUE);
 	uintptr_t mem = (uintptr_t)calloc(
 		1, sizeof(struct _ccs_distribution_s) +
-- 
2.43.0


From 348e88c0aecf726722e43018836a18cd68736eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:40 +0000
Subject: [PATCH 15/72] fix: mixture creation overflowed its scratch buffer,
 infinite areas accepted, trailing zero weights

---
 src/distribution_internal.h | 10 ++++++++--
 src/distribution_mixture.c  | 31 +++++++++----------------------
 2 files changed, 17 insertions(+), 24 deletions(-)

diff --git a/src/distribution_internal.h b/src/distribution_internal.h
index a4a4c52..0887ff9 100644
--- a/src/distribution_internal.h
+++ b/src/distribution_internal.h
@@ -116,7 +116,7 @@ _ccs_distribution_roulette_validate_areas(
 	CCS_REFUTE(sum_areas == 0.0, CCS_RESULT_ERROR_INVALID_VALUE);
 	ccs_float_t sum_areas_inverse = 1.0 / sum_areas;
 	CCS_REFUTE(
-		isnan(sum_areas_inverse) || !isfinite(sum_areas_inverse),
+		!isfinite(sum_areas) || !isfinite(sum_areas_inverse),
 		CCS_RESULT_ERROR_INVALID_VALUE);
 	*sum_areas_inverse_ret = sum_areas_inverse;
 	return CCS_RESULT_SUCCESS;
@@ -134,7 +134,13 @@ _ccs_distribution_roulette_normalize_areas(
 		roulette_areas[i] = roulette_areas[i - 1] + areas[i - 1];
 	for (size_t i = 1; i <= num_areas; i++)
 		roulette_areas[i] *= sum_areas_inverse;
-	roulette_areas[num_areas] = 1.0;
+	/* rounding must neither exceed 1 nor give weight to trailing zeros */
+	size_t last = num_areas;
+	while (last > 1 && areas[last - 1] == 0.0)
+		last--;
+	for (size_t i = 1; i <= num_areas; i++)
+		if (i >= last || roulette_areas[i] > 1.0)
+			roulette_areas[i] = 1.0;
 }
 
 #endif //_DISTRIBUTION_INTERNAL_H
diff --git a/src/distribution_mixture.c b/src/distribution_mixture.c
index dc11674..eb3133e 100644
--- a/src/distribution_mixture.c
+++ b/src/distribution_mixture.c
@@ -192,7 +192,7 @@ ccs_create_mixture_distribution(
 	CCS_REFUTE(
 		!num_distributions || num_distributions > INT64_MAX,
 		CCS_RESULT_ERROR_INVALID_VALUE);
-	ccs_float_t  weights_sum = 0.0;
+	ccs_float_t  weights_sum_inverse;
 
 	size_t       dimension, i, j;
 	ccs_result_t err;
@@ -207,15 +207,8 @@ ccs_create_mixture_distribution(
 			CCS_RESULT_ERROR_INVALID_DISTRIBUTION);
 	}
 
-	for (i = 0; i < num_distributions; i++) {
-		CCS_REFUTE(weights[i] < 0.0, CCS_RESULT_ERROR_INVALID_VALUE);
-		weights_sum += weights[i];
-	}
-	CCS_REFUTE(weights_sum == 0.0, CCS_RESULT_ERROR_INVALID_VALUE);
-	ccs_float_t weights_sum_inverse = 1.0 / weights_sum;
-	CCS_REFUTE(
-		isnan(weights_sum_inverse) || !isfinite(weights_sum_inverse),
-		CCS_RESULT_ERROR_INVALID_VALUE);
+	CCS_VALIDATE(_ccs_distribution_roulette_validate_areas(
+		num_distributions, weights, &weights_sum_inverse));
 
 	uintptr_t                         mem;
 	uintptr_t                         cur_mem;
@@ -236,14 +229,14 @@ ccs_create_mixture_distribution(
 	cur_mem = mem;
 
 	tmp_mem = (uintptr_t)calloc(
-		1, sizeof(ccs_interval_t) * num_distributions +
+		1, sizeof(ccs_interval_t) * dimension +
 			   sizeof(ccs_numeric_type_t) * dimension);
 	CCS_REFUTE_ERR_GOTO(
 		err, !tmp_mem, CCS_RESULT_ERROR_OUT_OF_MEMORY, memory);
 	bounds_tmp = (ccs_interval_t *)tmp_mem;
 	data_types_tmp =
 		(ccs_numeric_type_t
-			 *)(tmp_mem + sizeof(ccs_interval_t) * num_distributions);
+			 *)(tmp_mem + sizeof(ccs_interval_t) * dimension);
 
 	distrib = (ccs_distribution_t)cur_mem;
 	cur_mem += sizeof(struct _ccs_distribution_s);
@@ -306,14 +299,9 @@ ccs_create_mixture_distribution(
 		}
 	}
 
-	distrib_data->weights[0] = 0.0;
-	for (i = 1; i <= num_distributions; i++)
-		distrib_data->weights[i] = distrib_data->weights[i - 1] +
-					   weights[i - 1] * weights_sum_inverse;
-	distrib_data->weights[num_distributions] = 1.0;
-	CCS_REFUTE_ERR_GOTO(
-		err, 1.0 < distrib_data->weights[num_distributions - 1],
-		CCS_RESULT_ERROR_INVALID_VALUE, memory);
+	_ccs_distribution_roulette_normalize_areas(
+		num_distributions, weights, weights_sum_inverse,
+		distrib_data->weights);
 	for (i = 0; i < num_distributions; i++) {
 		CCS_VALIDATE_ERR_GOTO(
 			err, ccs_retain_object(distributions[i]), distrib);
@@ -435,8 +423,7 @@ _ccs_distribution_mixture_soa_samples(
 		ccs_int_t   index = _ccs_dichotomic_search(
                         d->num_distributions, d->weights, rnd);
 		for (size_t j = 0; j < dim; j++)
-			if (values[j])
-				p_values[j] = values[j] + i;
+			p_values[j] = values[j] ? values[j] + i : NULL;
 		CCS_VALIDATE(ccs_distribution_get_ops(d->distributions[index])
 				     ->soa_samples(
 					     d->distributions[index]->data, rng,
-- 
2.43.0


From 214aff385a3495f0ec668acb90f044555db1d9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:13 +0000
Subject: [PATCH 16/72] fix: sampling a parameter with a multidimensional
 distribution overflowed the buffers

---
 include/cconfigspace/parameter.h | 4 ++++
 src/parameter.c                  | 6 ++++++
 2 files changed, 10 insertions(+)

diff --git a/include/cconfigspace/parameter.h b/include/cconfigspace/parameter.h
index d10c3a7..0c7d2ed 100644
--- a/include/cconfigspace/parameter.h
+++ b/include/cconfigspace/parameter.h
@@ -536,6 +536,8 @@ ccs_parameter_convert_samples(
  * parameter; or if \p distribution is not a valid CCS distribution; or if \p
  * rng is not a valid CCS random number generator
  * @return #CCS_RESULT_ERROR_INVALID_VALUE if \p value_ret is NULL
+ * @return #CCS_RESULT_ERROR_INVALID_DISTRIBUTION if \p distribution is not of
+ * dimension 1
  * @return #CCS_RESULT_ERROR_SAMPLING_UNSUCCESSFUL if the sample could not be
  * generated, because the probability of obtaining a valid sample is too low
  * @return #CCS_RESULT_ERROR_UNSUPPORTED_OPERATION if the \p parameter is of
@@ -562,6 +564,8 @@ ccs_parameter_sample(
  * rng is not a valid CCS random number generator
  * @return #CCS_RESULT_ERROR_INVALID_VALUE if \p values is NULL and \p
  * num_values is greater than 0
+ * @return #CCS_RESULT_ERROR_INVALID_DISTRIBUTION if \p distribution is not of
+ * dimension 1
  * @return #CCS_RESULT_ERROR_SAMPLING_UNSUCCESSFUL if not enough samples could
  * not be generated, because the probability of obtaining a valid sample is too
  * low
diff --git a/src/parameter.c b/src/parameter.c
index 55d8137..83836c9 100644
--- a/src/parameter.c
+++ b/src/parameter.c
@@ -125,6 +125,9 @@ ccs_parameter_sample(
 	CCS_CHECK_OBJ(distribution, CCS_OBJECT_TYPE_DISTRIBUTION);
 	CCS_CHECK_OBJ(rng, CCS_OBJECT_TYPE_RNG);
 	CCS_CHECK_PTR(value_ret);
+	size_t dimension;
+	CCS_VALIDATE(ccs_distribution_get_dimension(distribution, &dimension));
+	CCS_REFUTE(dimension != 1, CCS_RESULT_ERROR_INVALID_DISTRIBUTION);
 	_ccs_parameter_ops_t *ops = ccs_parameter_get_ops(parameter);
 	CCS_VALIDATE(
 		ops->samples(parameter->data, distribution, rng, 1, value_ret));
@@ -143,6 +146,9 @@ ccs_parameter_samples(
 	CCS_CHECK_OBJ(distribution, CCS_OBJECT_TYPE_DISTRIBUTION);
 	CCS_CHECK_OBJ(rng, CCS_OBJECT_TYPE_RNG);
 	CCS_CHECK_ARY(num_values, values);
+	size_t dimension;
+	CCS_VALIDATE(ccs_distribution_get_dimension(distribution, &dimension));
+	CCS_REFUTE(dimension != 1, CCS_RESULT_ERROR_INVALID_DISTRIBUTION);
 	if (!num_values)
 		return CCS_RESULT_SUCCESS;
 	_ccs_parameter_ops_t *ops = ccs_parameter_get_ops(parameter);
-- 
2.43.0


From c90994e52316b2cd1f9f365cda6d7d35d484faef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:13 +0000
Subject: [PATCH 17/72] fix: objective values query overran small buffers and
 refused large ones

---
 src/evaluation.c          | 2 +-
 src/features_evaluation.c | 2 +-
 src/tree_evaluation.c     | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/evaluation.c b/src/evaluation.c
index acabf57..4201894 100644
--- a/src/evaluation.c
+++ b/src/evaluation.c
@@ -359,7 +359,7 @@ ccs_evaluation_get_objective_values(
 	CCS_VALIDATE(ccs_objective_space_get_objectives(
 		evaluation->data->objective_space, 0, NULL, NULL, &count));
 	if (values) {
-		CCS_REFUTE(count < num_values, CCS_RESULT_ERROR_INVALID_VALUE);
+		CCS_REFUTE(num_values < count, CCS_RESULT_ERROR_INVALID_VALUE);
 		for (size_t i = 0; i < count; i++) {
 			ccs_expression_t     expression;
 			ccs_objective_type_t type;
diff --git a/src/features_evaluation.c b/src/features_evaluation.c
index 7d2c103..e64b786 100644
--- a/src/features_evaluation.c
+++ b/src/features_evaluation.c
@@ -402,7 +402,7 @@ ccs_features_evaluation_get_objective_values(
 	CCS_VALIDATE(ccs_objective_space_get_objectives(
 		evaluation->data->objective_space, 0, NULL, NULL, &count));
 	if (values) {
-		CCS_REFUTE(count < num_values, CCS_RESULT_ERROR_INVALID_VALUE);
+		CCS_REFUTE(num_values < count, CCS_RESULT_ERROR_INVALID_VALUE);
 		for (size_t i = 0; i < count; i++) {
 			ccs_expression_t     expression;
 			ccs_objective_type_t type;
diff --git a/src/tree_evaluation.c b/src/tree_evaluation.c
index c78232f..614e32b 100644
--- a/src/tree_evaluation.c
+++ b/src/tree_evaluation.c
@@ -364,7 +364,7 @@ ccs_tree_evaluation_get_objective_values(
 	CCS_VALIDATE(ccs_objective_space_get_objectives(
 		evaluation->data->objective_space, 0, NULL, NULL, &count));
 	if (values) {
-		CCS_REFUTE(count < num_values, CCS_RESULT_ERROR_INVALID_VALUE);
+		CCS_REFUTE(num_values < count, CCS_RESULT_ERROR_INVALID_VALUE);
 		for (size_t i = 0; i < count; i++) {
 			ccs_expression_t     expression;
 			ccs_objective_type_t type;
-- 
2.43.0


From 012a64a726dfaf363346f5a680f79cf01020bbfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:13 +0000
Subject: [PATCH 18/72] fix: features values check required a configuration
 space

---
 src/features_space.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/features_space.c b/src/features_space.c
index 7bec62d..fa906d8 100644
--- a/src/features_space.c
+++ b/src/features_space.c
@@ -366,7 +366,7 @@ ccs_features_space_check_features_values(
 	ccs_datum_t         *values,
 	ccs_bool_t          *is_valid_ret)
 {
-	CCS_CHECK_OBJ(features_space, CCS_OBJECT_TYPE_CONFIGURATION_SPACE);
+	CCS_CHECK_OBJ(features_space, CCS_OBJECT_TYPE_FEATURES_SPACE);
 	CCS_CHECK_ARY(num_values, values);
 	CCS_VALIDATE(_check_features(
 		features_space, num_values, values, is_valid_ret));
-- 
2.43.0


From 7f0319c5267ff1322bc3de0d430f35ea38d5242d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:45 +0000
Subject: [PATCH 19/72] fix: out of range indices beyond 32 bits wrapped around
 to valid ones

---
 src/configuration_space.c | 10 +++++-----
 src/context_internal.h    |  4 ++--
 src/objective_space.c     |  2 +-
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/configuration_space.c b/src/configuration_space.c
index c02a730..a50c083 100644
--- a/src/configuration_space.c
+++ b/src/configuration_space.c
@@ -705,7 +705,7 @@ ccs_configuration_space_get_parameter_distribution(
 	_ccs_parameter_wrapper_cs_t *wrapper =
 		(_ccs_parameter_wrapper_cs_t *)utarray_eltptr(
 			configuration_space->data->parameters,
-			(unsigned int)index);
+			index);
 	CCS_REFUTE(!wrapper, CCS_RESULT_ERROR_OUT_OF_BOUNDS);
 	*distribution_ret = wrapper->distribution->distribution;
 	*index_ret        = wrapper->distribution_index;
@@ -1237,7 +1237,7 @@ _recompute_graph(ccs_configuration_space_t configuration_space)
 	ccs_result_t err = CCS_RESULT_SUCCESS;
 	for (size_t index = 0; index < utarray_len(array); index++) {
 		wrapper = (_ccs_parameter_wrapper_cs_t *)utarray_eltptr(
-			array, (unsigned int)index);
+			array, index);
 		if (!wrapper->condition)
 			continue;
 		size_t count;
@@ -1320,7 +1320,7 @@ ccs_configuration_space_set_condition(
 	_ccs_parameter_wrapper_cs_t *wrapper =
 		(_ccs_parameter_wrapper_cs_t *)utarray_eltptr(
 			configuration_space->data->parameters,
-			(unsigned int)parameter_index);
+			parameter_index);
 	CCS_REFUTE(!wrapper, CCS_RESULT_ERROR_OUT_OF_BOUNDS);
 	CCS_REFUTE(wrapper->condition, CCS_RESULT_ERROR_INVALID_PARAMETER);
 	ccs_result_t err;
@@ -1350,7 +1350,7 @@ ccs_configuration_space_get_condition(
 	_ccs_parameter_wrapper_cs_t *wrapper =
 		(_ccs_parameter_wrapper_cs_t *)utarray_eltptr(
 			configuration_space->data->parameters,
-			(unsigned int)parameter_index);
+			parameter_index);
 	CCS_REFUTE(!wrapper, CCS_RESULT_ERROR_OUT_OF_BOUNDS);
 	*expression_ret = wrapper->condition;
 	return CCS_RESULT_SUCCESS;
@@ -1453,7 +1453,7 @@ ccs_configuration_space_get_forbidden_clause(
 	CCS_CHECK_PTR(expression_ret);
 	ccs_expression_t *p_expr = (ccs_expression_t *)utarray_eltptr(
 		configuration_space->data->forbidden_clauses,
-		(unsigned int)index);
+		index);
 	CCS_REFUTE(!p_expr, CCS_RESULT_ERROR_OUT_OF_BOUNDS);
 	*expression_ret = *p_expr;
 	return CCS_RESULT_SUCCESS;
diff --git a/src/context_internal.h b/src/context_internal.h
index 3fa6a0b..86940e9 100644
--- a/src/context_internal.h
+++ b/src/context_internal.h
@@ -77,7 +77,7 @@ _ccs_context_get_parameter(
 	CCS_CHECK_PTR(parameter_ret);
 	_ccs_parameter_wrapper_t *wrapper =
 		(_ccs_parameter_wrapper_t *)utarray_eltptr(
-			context->data->parameters, (unsigned int)index);
+			context->data->parameters, index);
 	CCS_REFUTE(!wrapper, CCS_RESULT_ERROR_OUT_OF_BOUNDS);
 	*parameter_ret = wrapper->parameter;
 	return CCS_RESULT_SUCCESS;
@@ -184,7 +184,7 @@ _ccs_context_validate_value(
 	CCS_CHECK_PTR(value_ret);
 	_ccs_parameter_wrapper_t *wrapper =
 		(_ccs_parameter_wrapper_t *)utarray_eltptr(
-			context->data->parameters, (unsigned int)index);
+			context->data->parameters, index);
 	CCS_REFUTE(!wrapper, CCS_RESULT_ERROR_OUT_OF_BOUNDS);
 	ccs_bool_t valid;
 	CCS_VALIDATE(ccs_parameter_validate_value(
diff --git a/src/objective_space.c b/src/objective_space.c
index 0355ea6..1839076 100644
--- a/src/objective_space.c
+++ b/src/objective_space.c
@@ -544,7 +544,7 @@ ccs_objective_space_get_objective(
 	CCS_CHECK_PTR(expression_ret);
 	CCS_CHECK_PTR(type_ret);
 	_ccs_objective_t *p_obj = (_ccs_objective_t *)utarray_eltptr(
-		objective_space->data->objectives, (unsigned int)index);
+		objective_space->data->objectives, index);
 	CCS_REFUTE(!p_obj, CCS_RESULT_ERROR_OUT_OF_BOUNDS);
 	*expression_ret = p_obj->expression;
 	*type_ret       = p_obj->type;
-- 
2.43.0


From 9ccb518f6922dd21e17daa3de04a62c132b785bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:55 +0000
Subject: [PATCH 20/72] fix: space reference leaked when creating a
 configuration with an invalid transient value

---
 src/configuration.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/configuration.c b/src/configuration.c
index d558a05..82663c0 100644
--- a/src/configuration.c
+++ b/src/configuration.c
@@ -130,10 +130,12 @@ ccs_create_configuration(
 						configuration_space, i,
 						values[i],
 						config->data->values + i),
-					errmem);
+					errcs);
 	}
 	*configuration_ret = config;
 	return CCS_RESULT_SUCCESS;
+errcs:
+	ccs_release_object(configuration_space);
 errmem:
 	free((void *)mem);
 	return err;
-- 
2.43.0


From f41e2b827687edc04b2d14f1ada60622c6e4928a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:26 +0000
Subject: [PATCH 21/72] fix: rejected values left a binding half updated,
 surplus entries partially reset

---
 src/binding_internal.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/binding_internal.h b/src/binding_internal.h
index f1ebd26..cee0f37 100644
--- a/src/binding_internal.h
+++ b/src/binding_internal.h
@@ -76,10 +76,8 @@ _ccs_binding_get_values(
 		CCS_REFUTE(num_values < num, CCS_RESULT_ERROR_INVALID_VALUE);
 		memcpy(values, binding->data->values,
 		       num * sizeof(ccs_datum_t));
-		for (size_t i = num; i < num_values; i++) {
-			values[i].type    = CCS_DATA_TYPE_NONE;
-			values[i].value.i = 0;
-		}
+		for (size_t i = num; i < num_values; i++)
+			values[i] = ccs_none;
 	}
 	if (num_values_ret)
 		*num_values_ret = num;
@@ -96,6 +94,14 @@ _ccs_binding_set_values(
 	size_t num = binding->data->num_values;
 	CCS_REFUTE(num_values != num, CCS_RESULT_ERROR_INVALID_VALUE);
 	if (values) {
+		/* refuse invalid values before changing anything */
+		for (size_t i = 0; i < num_values; i++) {
+			ccs_datum_t value = values[i];
+			if (value.flags & CCS_DATUM_FLAG_TRANSIENT)
+				CCS_VALIDATE(ccs_context_validate_value(
+					binding->data->context, i, value,
+					&value));
+		}
 		for (size_t i = 0; i < num_values; i++) {
 			ccs_datum_t value = values[i];
 			if (value.flags & CCS_DATUM_FLAG_TRANSIENT)
-- 
2.43.0


From ceee0bde6a6884341fee0f45c7ae5df1e8ffb97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:29 +0000
Subject: [PATCH 22/72] fix: attaching a tree below itself formed an
 unreleasable cycle

---
 include/cconfigspace/tree.h | 3 ++-
 src/tree.c                  | 2 ++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/cconfigspace/tree.h b/include/cconfigspace/tree.h
index a58ee0e..ae8a80f 100644
--- a/include/cconfigspace/tree.h
+++ b/include/cconfigspace/tree.h
@@ -66,7 +66,8 @@ ccs_tree_get_arity(ccs_tree_t tree, size_t *arity_ret);
  * @return #CCS_RESULT_ERROR_INVALID_VALUE if \p tree already has a child at \p
  * index
  * @return #CCS_RESULT_ERROR_INVALID_TREE if \p child is already a child of
- * another node; or if child is the root of a tree space
+ * another node; or if child is the root of a tree space; or if \p child is \p
+ * tree or one of its ancestors
  */
 extern ccs_result_t
 ccs_tree_set_child(ccs_tree_t tree, size_t index, ccs_tree_t child);
diff --git a/src/tree.c b/src/tree.c
index 7c37190..687f0e3 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -271,6 +271,8 @@ ccs_tree_set_child(ccs_tree_t tree, size_t index, ccs_tree_t child)
 	CCS_REFUTE(
 		child_data->parent || child_data->index,
 		CCS_RESULT_ERROR_INVALID_TREE);
+	for (ccs_tree_t node = tree; node; node = node->data->parent)
+		CCS_REFUTE(node == child, CCS_RESULT_ERROR_INVALID_TREE);
 	CCS_VALIDATE(ccs_retain_object(child));
 
 	child_data->parent         = tree;
-- 
2.43.0


From 33857c1fc9d9c7a17f0b2cec2374230996e746d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:29 +0000
Subject: [PATCH 23/72] fix: generated child leaked when it cannot be attached

---
 src/tree_space_dynamic.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tree_space_dynamic.c b/src/tree_space_dynamic.c
index b088829..8449ccc 100644
--- a/src/tree_space_dynamic.c
+++ b/src/tree_space_dynamic.c
@@ -156,8 +156,10 @@ _ccs_tree_space_tree_get_child(
 	CCS_VALIDATE(ccs_tree_get_child(parent, index, child));
 	if (!*child) {
 		CCS_VALIDATE(child_cb(tree_space, parent, index, child));
-		CCS_VALIDATE(ccs_tree_set_child(parent, index, *child));
-		CCS_VALIDATE(ccs_release_object(*child));
+		ccs_result_t err = ccs_tree_set_child(parent, index, *child);
+		if (*child)
+			ccs_release_object(*child);
+		CCS_VALIDATE(err);
 	}
 	return CCS_RESULT_SUCCESS;
 }
-- 
2.43.0


From 7dcd2db3a803fb9608f1fd593da148585488af93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:11 +0000
Subject: [PATCH 24/72] fix: array capacity was recorded as grown when growing
 it failed

---
 src/utarray.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/utarray.h b/src/utarray.h
index 1fe8bc1..fef3e9e 100644
--- a/src/utarray.h
+++ b/src/utarray.h
@@ -92,11 +92,13 @@ typedef struct {
 #define utarray_reserve(a,by) do {                                            \
   if (((a)->i+(by)) > (a)->n) {                                               \
     char *utarray_tmp;                                                        \
-    while (((a)->i+(by)) > (a)->n) { (a)->n = ((a)->n ? (2*(a)->n) : 8); }    \
-    utarray_tmp=(char*)realloc((a)->d, (a)->n*(a)->icd.sz);                   \
+    unsigned utarray_n = (a)->n;                                              \
+    while (((a)->i+(by)) > utarray_n) { utarray_n = (utarray_n ? (2*utarray_n) : 8); } \
+    utarray_tmp=(char*)realloc((a)->d, utarray_n*(a)->icd.sz);                \
     if (utarray_tmp == NULL) {                                                \
       utarray_oom();                                                          \
     }                                                                         \
+    (a)->n=utarray_n;                                                         \
     (a)->d=utarray_tmp;                                                       \
   }                                                                           \
 } while(0)
-- 
2.43.0


From 5e0fef1f1bf25618cce8a00946757bcaa237c446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:36 +0000
Subject: [PATCH 25/72] fix: a tell that runs out of memory or cannot compare
 lost optima and freed them twice

---
 src/features_tuner_random.c | 45 +++++++++++++++++++++++++++----------
 src/tree_tuner_random.c     | 45 +++++++++++++++++++++++++++----------
 src/tuner_random.c          | 43 +++++++++++++++++++++++++----------
 3 files changed, 97 insertions(+), 36 deletions(-)

diff --git a/src/features_tuner_random.c b/src/features_tuner_random.c
index ef3d602..cb9787e 100644
--- a/src/features_tuner_random.c
+++ b/src/features_tuner_random.c
@@ -179,11 +179,26 @@ _ccs_features_tuner_random_ask(
 #undef utarray_oom
 #define utarray_oom()                                                          \
 	{                                                                      \
-		ccs_release_object(evaluations[i]);                            \
 		CCS_RAISE(                                                     \
 			CCS_RESULT_ERROR_OUT_OF_MEMORY,                        \
 			"Not enough memory to allocate new array");            \
 	}
+/* An evaluation whose objectives cannot be computed cannot be ranked. */
+static inline int
+_ccs_features_evaluation_is_comparable(ccs_features_evaluation_t evaluation)
+{
+	size_t      count;
+	ccs_datum_t value;
+	if (ccs_features_evaluation_get_objective_values(
+		    evaluation, 0, NULL, &count))
+		return 0;
+	for (size_t i = 0; i < count; i++)
+		if (ccs_features_evaluation_get_objective_value(
+			    evaluation, i, &value))
+			return 0;
+	return 1;
+}
+
 static ccs_result_t
 _ccs_features_tuner_random_tell(
 	ccs_features_tuner_t       tuner,
@@ -194,12 +209,24 @@ _ccs_features_tuner_random_tell(
 		(_ccs_random_features_tuner_data_t *)tuner->data;
 	UT_array    *history = d->history;
 	ccs_result_t err;
+	/* nothing can fail once an evaluation is recorded */
+	for (size_t i = 0; i < num_evaluations; i++) {
+		ccs_evaluation_result_t result;
+		CCS_VALIDATE(ccs_features_evaluation_get_result(
+			evaluations[i], &result));
+	}
+	utarray_reserve(history, num_evaluations);
+	utarray_reserve(d->optima, num_evaluations);
+	utarray_clear(d->old_optima);
+	utarray_reserve(
+		d->old_optima, utarray_len(d->optima) + num_evaluations);
 	for (size_t i = 0; i < num_evaluations; i++) {
 		ccs_evaluation_result_t result;
 		CCS_VALIDATE(ccs_features_evaluation_get_result(
 			evaluations[i], &result));
 		if (result == CCS_RESULT_SUCCESS) {
-			int       discard = 0;
+			int discard = !_ccs_features_evaluation_is_comparable(
+				evaluations[i]);
 			UT_array *tmp;
 			ccs_retain_object(evaluations[i]);
 			utarray_push_back(history, evaluations + i);
@@ -208,23 +235,17 @@ _ccs_features_tuner_random_tell(
 			d->optima     = tmp;
 			utarray_clear(d->optima);
 			ccs_features_evaluation_t *eval = NULL;
-#undef utarray_oom
-#define utarray_oom()                                                          \
-	{                                                                      \
-		d->optima = d->old_optima;                                     \
-		CCS_RAISE(                                                     \
-			CCS_RESULT_ERROR_OUT_OF_MEMORY,                        \
-			"Not enough memory to allocate new array");            \
-	}
 			while ((eval = (ccs_features_evaluation_t *)
 					utarray_next(d->old_optima, eval))) {
 				if (!discard) {
 					ccs_comparison_t cmp;
 					err = ccs_features_evaluation_compare(
 						evaluations[i], *eval, &cmp);
-					if (err)
+					if (err) {
 						discard = 1;
-					else
+						utarray_push_back(
+							d->optima, eval);
+					} else
 						switch (cmp) {
 						case CCS_COMPARISON_EQUIVALENT:
 						case CCS_COMPARISON_WORSE:
diff --git a/src/tree_tuner_random.c b/src/tree_tuner_random.c
index ed39c99..5e6bdf5 100644
--- a/src/tree_tuner_random.c
+++ b/src/tree_tuner_random.c
@@ -171,11 +171,26 @@ _ccs_tree_tuner_random_ask(
 #undef utarray_oom
 #define utarray_oom()                                                          \
 	{                                                                      \
-		ccs_release_object(evaluations[i]);                            \
 		CCS_RAISE(                                                     \
 			CCS_RESULT_ERROR_OUT_OF_MEMORY,                        \
 			"Out of memory to allocate array");                    \
 	}
+/* An evaluation whose objectives cannot be computed cannot be ranked. */
+static inline int
+_ccs_tree_evaluation_is_comparable(ccs_tree_evaluation_t evaluation)
+{
+	size_t      count;
+	ccs_datum_t value;
+	if (ccs_tree_evaluation_get_objective_values(
+		    evaluation, 0, NULL, &count))
+		return 0;
+	for (size_t i = 0; i < count; i++)
+		if (ccs_tree_evaluation_get_objective_value(
+			    evaluation, i, &value))
+			return 0;
+	return 1;
+}
+
 static ccs_result_t
 _ccs_tree_tuner_random_tell(
 	ccs_tree_tuner_t       tuner,
@@ -186,12 +201,24 @@ _ccs_tree_tuner_random_tell(
 		(_ccs_random_tree_tuner_data_t *)tuner->data;
 	UT_array    *history = d->history;
 	ccs_result_t err;
+	/* nothing can fail once an evaluation is recorded */
+	for (size_t i = 0; i < num_evaluations; i++) {
+		ccs_evaluation_result_t result;
+		CCS_VALIDATE(ccs_tree_evaluation_get_result(
+			evaluations[i], &result));
+	}
+	utarray_reserve(history, num_evaluations);
+	utarray_reserve(d->optima, num_evaluations);
+	utarray_clear(d->old_optima);
+	utarray_reserve(
+		d->old_optima, utarray_len(d->optima) + num_evaluations);
 	for (size_t i = 0; i < num_evaluations; i++) {
 		ccs_evaluation_result_t result;
 		CCS_VALIDATE(ccs_tree_evaluation_get_result(
 			evaluations[i], &result));
 		if (!result) {
-			int       discard = 0;
+			int discard = !_ccs_tree_evaluation_is_comparable(
+				evaluations[i]);
 			UT_array *tmp;
 			ccs_retain_object(evaluations[i]);
 			utarray_push_back(history, evaluations + i);
@@ -200,23 +227,17 @@ _ccs_tree_tuner_random_tell(
 			d->optima     = tmp;
 			utarray_clear(d->optima);
 			ccs_tree_evaluation_t *eval = NULL;
-#undef utarray_oom
-#define utarray_oom()                                                          \
-	{                                                                      \
-		d->optima = d->old_optima;                                     \
-		CCS_RAISE(                                                     \
-			CCS_RESULT_ERROR_OUT_OF_MEMORY,                        \
-			"Out of memory to allocate array");                    \
-	}
 			while ((eval = (ccs_tree_evaluation_t *)utarray_next(
 					d->old_optima, eval))) {
 				if (!discard) {
 					ccs_comparison_t cmp;
 					err = ccs_tree_evaluation_compare(
 						evaluations[i], *eval, &cmp);
-					if (err)
+					if (err) {
 						discard = 1;
-					else
+						utarray_push_back(
+							d->optima, eval);
+					} else
 						switch (cmp) {
 						case CCS_COMPARISON_EQUIVALENT:
 						case CCS_COMPARISON_WORSE:
diff --git a/src/tuner_random.c b/src/tuner_random.c
index e9c072f..fc89af6 100644
--- a/src/tuner_random.c
+++ b/src/tuner_random.c
@@ -171,11 +171,24 @@ _ccs_tuner_random_ask(
 #undef utarray_oom
 #define utarray_oom()                                                          \
 	{                                                                      \
-		ccs_release_object(evaluations[i]);                            \
 		CCS_RAISE(                                                     \
 			CCS_RESULT_ERROR_OUT_OF_MEMORY,                        \
 			"Out of memory to allocate array");                    \
 	}
+/* An evaluation whose objectives cannot be computed cannot be ranked. */
+static inline int
+_ccs_evaluation_is_comparable(ccs_evaluation_t evaluation)
+{
+	size_t      count;
+	ccs_datum_t value;
+	if (ccs_evaluation_get_objective_values(evaluation, 0, NULL, &count))
+		return 0;
+	for (size_t i = 0; i < count; i++)
+		if (ccs_evaluation_get_objective_value(evaluation, i, &value))
+			return 0;
+	return 1;
+}
+
 static ccs_result_t
 _ccs_tuner_random_tell(
 	ccs_tuner_t       tuner,
@@ -185,12 +198,24 @@ _ccs_tuner_random_tell(
 	_ccs_random_tuner_data_t *d = (_ccs_random_tuner_data_t *)tuner->data;
 	UT_array                 *history = d->history;
 	ccs_result_t              err;
+	/* nothing can fail once an evaluation is recorded */
+	for (size_t i = 0; i < num_evaluations; i++) {
+		ccs_evaluation_result_t result;
+		CCS_VALIDATE(
+			ccs_evaluation_get_result(evaluations[i], &result));
+	}
+	utarray_reserve(history, num_evaluations);
+	utarray_reserve(d->optima, num_evaluations);
+	utarray_clear(d->old_optima);
+	utarray_reserve(
+		d->old_optima, utarray_len(d->optima) + num_evaluations);
 	for (size_t i = 0; i < num_evaluations; i++) {
 		ccs_evaluation_result_t result;
 		CCS_VALIDATE(
 			ccs_evaluation_get_result(evaluations[i], &result));
 		if (!result) {
-			int       discard = 0;
+			int discard =
+				!_ccs_evaluation_is_comparable(evaluations[i]);
 			UT_array *tmp;
 			ccs_retain_object(evaluations[i]);
 			utarray_push_back(history, evaluations + i);
@@ -199,23 +224,17 @@ _ccs_tuner_random_tell(
 			d->optima     = tmp;
 			utarray_clear(d->optima);
 			ccs_evaluation_t *eval = NULL;
-#undef utarray_oom
-#define utarray_oom()                                                          \
-	{                                                                      \
-		d->optima = d->old_optima;                                     \
-		CCS_RAISE(                                                     \
-			CCS_RESULT_ERROR_OUT_OF_MEMORY,                        \
-			"Out of memory to allocate array");                    \
-	}
 			while ((eval = (ccs_evaluation_t *)utarray_next(
 					d->old_optima, eval))) {
 				if (!discard) {
 					ccs_comparison_t cmp;
 					err = ccs_evaluation_compare(
 						evaluations[i], *eval, &cmp);
-					if (err)
+					if (err) {
 						discard = 1;
-					else
+						utarray_push_back(
+							d->optima, eval);
+					} else
 						switch (cmp) {
 						case CCS_COMPARISON_EQUIVALENT:
 						case CCS_COMPARISON_WORSE:
-- 
2.43.0


From ed8cf4cf0833c6664e31a9ee00ff06ab3e781e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:28 +0000
Subject: [PATCH 26/72] fix: static tree space lost its random state when
 deserialized

---
 src/tree_space_deserialize.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/tree_space_deserialize.h b/src/tree_space_deserialize.h
index 69e02d3..771292f 100644
--- a/src/tree_space_deserialize.h
+++ b/src/tree_space_deserialize.h
@@ -49,6 +49,13 @@ _ccs_deserialize_bin_tree_space_static(
 		ccs_create_static_tree_space(
 			data.name, data.tree, tree_space_ret),
 		end);
+	CCS_VALIDATE_ERR_GOTO(
+		res, ccs_tree_space_set_rng(*tree_space_ret, data.rng),
+		tree_space);
+	goto end;
+tree_space:
+	ccs_release_object(*tree_space_ret);
+	*tree_space_ret = NULL;
 end:
 	if (data.rng)
 		ccs_release_object(data.rng);
-- 
2.43.0


From 32155ce43645d73d96de574aaedbce4781edf5e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:39 +0000
Subject: [PATCH 27/72] fix: user state of a dynamic tree space was not read
 back

---
 src/tree_space_deserialize.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tree_space_deserialize.h b/src/tree_space_deserialize.h
index 771292f..2f3fc05 100644
--- a/src/tree_space_deserialize.h
+++ b/src/tree_space_deserialize.h
@@ -89,6 +89,10 @@ _ccs_deserialize_bin_tree_space_dynamic(
 		_ccs_deserialize_bin_ccs_tree_space_common_data(
 			&data.common_data, version, buffer_size, buffer, opts),
 		end);
+	CCS_VALIDATE_ERR_GOTO(
+		res,
+		_ccs_deserialize_bin_ccs_blob(&data.blob, buffer_size, buffer),
+		end);
 	CCS_VALIDATE_ERR_GOTO(
 		res,
 		ccs_create_dynamic_tree_space(
-- 
2.43.0


From 9286e8395fce9c14d08e7b48ce7188546e4155f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:30 +0000
Subject: [PATCH 28/72] fix: malformed strings and integers in serialized data
 were read out of bounds

---
 src/cconfigspace_internal.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/cconfigspace_internal.h b/src/cconfigspace_internal.h
index eb20271..86f8cff 100644
--- a/src/cconfigspace_internal.h
+++ b/src/cconfigspace_internal.h
@@ -501,6 +501,9 @@ ccs_zigzag_decode_int64(uint64_t x)
 			CCS_REFUTE(                                            \
 				buff_size < 1,                                 \
 				CCS_RESULT_ERROR_NOT_ENOUGH_DATA);             \
+			CCS_REFUTE(                                            \
+				shift >= 8 * sizeof(MAPPED_TYPE),              \
+				CCS_RESULT_ERROR_INVALID_VALUE);               \
 			y = *buff;                                             \
 			v |= (y & 0x7f) << shift;                              \
 			buff_size -= 1;                                        \
@@ -778,6 +781,9 @@ _ccs_deserialize_bin_string(
 	size_t sz;
 	CCS_VALIDATE(_ccs_deserialize_bin_size(&sz, buffer_size, buffer));
 	CCS_REFUTE(*buffer_size < sz, CCS_RESULT_ERROR_NOT_ENOUGH_DATA);
+	CCS_REFUTE(
+		sz == 0 || (*buffer)[sz - 1] != '\0',
+		CCS_RESULT_ERROR_INVALID_VALUE);
 	*str = *buffer;
 	*buffer_size -= sz;
 	*buffer += sz;
-- 
2.43.0


From 831c29c8917aefed4c5d12d48485577c0ec9f69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:08 +0000
Subject: [PATCH 29/72] fix: user data size of a serialized object was not
 checked, objects leaked when reading it fails

---
 src/cconfigspace_internal.h           | 31 ++++++++++++++++++++-------
 src/configuration_deserialize.h       |  2 +-
 src/configuration_space_deserialize.h |  2 +-
 src/distribution_deserialize.h        |  2 +-
 src/evaluation_deserialize.h          |  2 +-
 src/expression_deserialize.h          |  2 +-
 src/features_deserialize.h            |  2 +-
 src/features_evaluation_deserialize.h |  2 +-
 src/features_space_deserialize.h      |  2 +-
 src/features_tuner_deserialize.h      |  2 +-
 src/map_deserialize.h                 |  2 +-
 src/objective_space_deserialize.h     |  2 +-
 src/parameter_deserialize.h           |  2 +-
 src/rng_deserialize.h                 |  2 +-
 src/tree_configuration_deserialize.h  |  2 +-
 src/tree_deserialize.h                |  2 +-
 src/tree_evaluation_deserialize.h     |  2 +-
 src/tree_space_deserialize.h          |  2 +-
 src/tree_tuner_deserialize.h          |  2 +-
 src/tuner_deserialize.h               |  2 +-
 20 files changed, 42 insertions(+), 27 deletions(-)

diff --git a/src/cconfigspace_internal.h b/src/cconfigspace_internal.h
index 86f8cff..48a0d04 100644
--- a/src/cconfigspace_internal.h
+++ b/src/cconfigspace_internal.h
@@ -1171,7 +1171,7 @@ _ccs_object_serialize_user_data(
 
 static inline ccs_result_t
 _ccs_object_deserialize_user_data(
-	ccs_object_t                       object,
+	ccs_object_t                      *object_ret,
 	ccs_serialize_format_t             format,
 	uint32_t                           version,
 	size_t                            *buffer_size,
@@ -1179,27 +1179,42 @@ _ccs_object_deserialize_user_data(
 	_ccs_object_deserialize_options_t *opts)
 {
 	(void)version;
+	ccs_result_t res = CCS_RESULT_SUCCESS;
 	switch (format) {
 	case CCS_SERIALIZE_FORMAT_BINARY: {
 		size_t serialize_data_size;
-		CCS_VALIDATE(_ccs_deserialize_bin_size(
-			&serialize_data_size, buffer_size, buffer));
+		CCS_VALIDATE_ERR_GOTO(
+			res,
+			_ccs_deserialize_bin_size(
+				&serialize_data_size, buffer_size, buffer),
+			err_object);
+		CCS_REFUTE_ERR_GOTO(
+			res, *buffer_size < serialize_data_size,
+			CCS_RESULT_ERROR_NOT_ENOUGH_DATA, err_object);
 		if (serialize_data_size) {
 			if (opts->deserialize_callback)
-				CCS_VALIDATE(opts->deserialize_callback(
-					object, serialize_data_size, *buffer,
-					opts->deserialize_user_data));
+				CCS_VALIDATE_ERR_GOTO(
+					res,
+					opts->deserialize_callback(
+						*object_ret,
+						serialize_data_size, *buffer,
+						opts->deserialize_user_data),
+					err_object);
 			*buffer_size -= serialize_data_size;
 			*buffer += serialize_data_size;
 		}
 		break;
 	}
 	default:
-		CCS_RAISE(
-			CCS_RESULT_ERROR_INVALID_VALUE,
+		CCS_RAISE_ERR_GOTO(
+			res, CCS_RESULT_ERROR_INVALID_VALUE, err_object,
 			"Unsupported serialization format: %d", format);
 	}
 	return CCS_RESULT_SUCCESS;
+err_object:
+	ccs_release_object(*object_ret);
+	*object_ret = NULL;
+	return res;
 }
 
 #endif //_CONFIGSPACE_INTERNAL_H
diff --git a/src/configuration_deserialize.h b/src/configuration_deserialize.h
index 719535f..b8f17d9 100644
--- a/src/configuration_deserialize.h
+++ b/src/configuration_deserialize.h
@@ -84,7 +84,7 @@ _ccs_configuration_deserialize(
 			"Unsupported serialization format: %d", format);
 	}
 	CCS_VALIDATE(_ccs_object_deserialize_user_data(
-		(ccs_object_t)*configuration_ret, format, version, buffer_size,
+		(ccs_object_t *)configuration_ret, format, version, buffer_size,
 		buffer, opts));
 	return CCS_RESULT_SUCCESS;
 }
diff --git a/src/configuration_space_deserialize.h b/src/configuration_space_deserialize.h
index 96b5faf..a611e0c 100644
--- a/src/configuration_space_deserialize.h
+++ b/src/configuration_space_deserialize.h
@@ -242,7 +242,7 @@ _ccs_configuration_space_deserialize(
 			"Unsupported serialization format: %d", format);
 	}
 	CCS_VALIDATE(_ccs_object_deserialize_user_data(
-		(ccs_object_t)*configuration_space_ret, format, version,
+		(ccs_object_t *)configuration_space_ret, format, version,
 		buffer_size, buffer, opts));
 	return CCS_RESULT_SUCCESS;
 }
diff --git a/src/distribution_deserialize.h b/src/distribution_deserialize.h
index d476cf4..9ca9c5a 100644
--- a/src/distribution_deserialize.h
+++ b/src/distribution_deserialize.h
@@ -395,7 +395,7 @@ _ccs_distribution_deserialize(
 			"Unsupported serialization format: %d", format);
 	}
 	CCS_VALIDATE(_ccs_object_deserialize_user_data(
-		(ccs_object_t)*distribution_ret, format, version, buffer_size,
+		(ccs_object_t *)distribution_ret, format, version, buffer_size,
 		buffer, opts));
 	return CCS_RESULT_SUCCESS;
 }
diff --git a/src/evaluation_deserialize.h b/src/evaluation_deserialize.h
index 6f07e79..12fef11 100644
--- a/src/evaluation_deserialize.h
+++ b/src/evaluation_deserialize.h
@@ -115,7 +115,7 @@ _ccs_evaluation_deserialize(
 			"Unsupported serialization format: %d", format);
 	}
 	CCS_VALIDATE(_ccs_object_deserialize_user_data(
-		(ccs_object_t)*evaluation_ret, format, version, buffer_size,
+		(ccs_object_t *)evaluation_ret, format, version, buffer_size,
 		buffer, opts));
 	return CCS_RESULT_SUCCESS;
 }
diff --git a/src/expression_deserialize.h b/src/expression_deserialize.h
index 15ec662..94f30df 100644
--- a/src/expression_deserialize.h
+++ b/src/expression_deserialize.h
@@ -241,7 +241,7 @@ _ccs_expression_deserialize(
 			"Unsupported serialization format: %d", format);
 	}
 	CCS_VALIDATE(_ccs_object_deserialize_user_data(
-		(ccs_object_t)*expression_ret, format, version, buffer_size,
+		(ccs_object_t *)expression_ret, format, version, buffer_size,
 		buffer, opts));
 	return CCS_RESULT_SUCCESS;
 }
diff --git a/src/features_deserialize.h b/src/features_deserialize.h
index 5066f06..719fb93 100644
--- a/src/features_deserialize.h
+++ b/src/features_deserialize.h
@@ -83,7 +83,7 @@ _ccs_features_deserialize(
 			"Unsupported serialization format: %d", format);
 	}
 	CCS_VALIDATE(_ccs_object_deserialize_user_data(
-		(ccs_object_t)*features_ret, format, version, buffer_size,
+		(ccs_object_t *)features_ret, format, version, buffer_size,
 		buffer, opts));
 	return CCS_RESULT_SUCCESS;
 }
diff --git a/src/features_evaluation_deserialize.h b/src/features_evaluation_deserialize.h
index be5f097..6fbc51d 100644
--- a/src/features_evaluation_deserialize.h
+++ b/src/features_evaluation_deserialize.h
@@ -125,7 +125,7 @@ _ccs_features_evaluation_deserialize(
 			"Unsupported serialization format: %d", format);
 	}
 	CCS_VALIDATE(_ccs_object_deserialize_user_data(
-		(ccs_object_t)*features_evaluation_ret, format, version,
+		(ccs_object_t *)features_evaluation_ret, format, version,
 		buffer_size, buffer, opts));
 	return CCS_RESULT_SUCCESS;
 }
diff --git a/src/features_space_deserialize.h b/src/features_space_deserialize.h
index 4cdcd1f..12dea4c 100644
--- a/src/features_space_deserialize.h
+++ b/src/features_space_deserialize.h
@@ -79,7 +79,7 @@ _ccs_features_space_deserialize(
 			"Unsupported serialization format: %d", format);
 	}
 	CCS_VALIDATE(_ccs_object_deserialize_user_data(
-		(ccs_object_t)*features_space_ret, format, version, buffer_size,
+		(ccs_object_t *)features_space_ret, format, version, buffer_size,
 		buffer, opts));
 	return CCS_RESULT_SUCCESS;
 }
diff --git a/src/features_tuner_deserialize.h b/src/features_tuner_deserialize.h
index 73a35e7..b6d0ebc 100644
--- a/src/features_tuner_deserialize.h
+++ b/src/features_tuner_deserialize.h
@@ -341,7 +341,7 @@ _ccs_features_tuner_deserialize(
 			"Unsupported serialization format: %d", format);
 	}
 	CCS_VALIDATE(_ccs_object_deserialize_user_data(
-		(ccs_object_t)*features_tuner_ret, format, version, buffer_size,
+		(ccs_object_t *)features_tuner_ret, format, version, buffer_size,
 		buffer, opts));
 	return CCS_RESULT_SUCCESS;
 }
diff --git a/src/map_deserialize.h b/src/map_deserialize.h
index 4f44632..cef3833 100644
--- a/src/map_deserialize.h
+++ b/src/map_deserialize.h
@@ -102,7 +102,7 @@ _ccs_map_deserialize(
 			"Unsupported serialization format: %d", format);
 	}
 	CCS_VALIDATE(_ccs_object_deserialize_user_data(
-		(ccs_object_t)*map_ret, format, version, buffer_size, buffer,
+		(ccs_object_t *)map_ret, format, version, buffer_size, buffer,
 		opts));
 	return CCS_RESULT_SUCCESS;
 }
diff --git a/src/objective_space_deserialize.h b/src/objective_space_deserialize.h
index 3baec98..336b408 100644
--- a/src/objective_space_deserialize.h
+++ b/src/objective_space_deserialize.h
@@ -150,7 +150,7 @@ _ccs_objective_space_deserialize(
 			"Unsupported serialization format: %d", format);
 	}
 	CCS_VALIDATE(_ccs_object_deserialize_user_data(
-		(ccs_object_t)*objective_space_ret, format, version,
+		(ccs_object_t *)objective_space_ret, format, version,
 		buffer_size, buffer, opts));
 	return CCS_RESULT_SUCCESS;
 }
diff --git a/src/parameter_deserialize.h b/src/parameter_deserialize.h
index c702021..7bac99b 100644
--- a/src/parameter_deserialize.h
+++ b/src/parameter_deserialize.h
@@ -227,7 +227,7 @@ _ccs_parameter_deserialize(
 			"Unsupported serialization format: %d", format);
 	}
 	CCS_VALIDATE(_ccs_object_deserialize_user_data(
-		(ccs_object_t)*parameter_ret, format, version, buffer_size,
+		(ccs_object_t *)parameter_ret, format, version, buffer_size,
 		buffer, opts));
 	return CCS_RESULT_SUCCESS;
 }
diff --git a/src/rng_deserialize.h b/src/rng_deserialize.h
index dc73355..8ecd41d 100644
--- a/src/rng_deserialize.h
+++ b/src/rng_deserialize.h
@@ -81,7 +81,7 @@ _ccs_rng_deserialize(
 			"Unsupported serialization format: %d", format);
 	}
 	CCS_VALIDATE(_ccs_object_deserialize_user_data(
-		(ccs_object_t)*rng_ret, format, version, buffer_size, buffer,
+		(ccs_object_t *)rng_ret, format, version, buffer_size, buffer,
 		opts));
 	return CCS_RESULT_SUCCESS;
 }
diff --git a/src/tree_configuration_deserialize.h b/src/tree_configuration_deserialize.h
index a46e280..39d4f9f 100644
--- a/src/tree_configuration_deserialize.h
+++ b/src/tree_configuration_deserialize.h
@@ -107,7 +107,7 @@ _ccs_tree_configuration_deserialize(
 			"Unsupported serialization format: %d", format);
 	}
 	CCS_VALIDATE(_ccs_object_deserialize_user_data(
-		(ccs_object_t)*configuration_ret, format, version, buffer_size,
+		(ccs_object_t *)configuration_ret, format, version, buffer_size,
 		buffer, opts));
 	return CCS_RESULT_SUCCESS;
 }
diff --git a/src/tree_deserialize.h b/src/tree_deserialize.h
index fbed9f0..e175824 100644
--- a/src/tree_deserialize.h
+++ b/src/tree_deserialize.h
@@ -135,7 +135,7 @@ _ccs_tree_deserialize(
 			"Unsupported serialization format: %d", format);
 	}
 	CCS_VALIDATE(_ccs_object_deserialize_user_data(
-		(ccs_object_t)*tree_ret, format, version, buffer_size, buffer,
+		(ccs_object_t *)tree_ret, format, version, buffer_size, buffer,
 		opts));
 	return CCS_RESULT_SUCCESS;
 }
diff --git a/src/tree_evaluation_deserialize.h b/src/tree_evaluation_deserialize.h
index e8a4da8..b391abb 100644
--- a/src/tree_evaluation_deserialize.h
+++ b/src/tree_evaluation_deserialize.h
@@ -115,7 +115,7 @@ _ccs_tree_evaluation_deserialize(
 			"Unsupported serialization format: %d", format);
 	}
 	CCS_VALIDATE(_ccs_object_deserialize_user_data(
-		(ccs_object_t)*evaluation_ret, format, version, buffer_size,
+		(ccs_object_t *)evaluation_ret, format, version, buffer_size,
 		buffer, opts));
 	return CCS_RESULT_SUCCESS;
 }
diff --git a/src/tree_space_deserialize.h b/src/tree_space_deserialize.h
index 2f3fc05..13f1fe3 100644
--- a/src/tree_space_deserialize.h
+++ b/src/tree_space_deserialize.h
@@ -188,7 +188,7 @@ _ccs_tree_space_deserialize(
 			"Unsupported serialization format: %d", format);
 	}
 	CCS_VALIDATE(_ccs_object_deserialize_user_data(
-		(ccs_object_t)*tree_space_ret, format, version, buffer_size,
+		(ccs_object_t *)tree_space_ret, format, version, buffer_size,
 		buffer, opts));
 	return CCS_RESULT_SUCCESS;
 }
diff --git a/src/tree_tuner_deserialize.h b/src/tree_tuner_deserialize.h
index 5126d68..a9cd16b 100644
--- a/src/tree_tuner_deserialize.h
+++ b/src/tree_tuner_deserialize.h
@@ -320,7 +320,7 @@ _ccs_tree_tuner_deserialize(
 			"Unsupported serialization format: %d", format);
 	}
 	CCS_VALIDATE(_ccs_object_deserialize_user_data(
-		(ccs_object_t)*tuner_ret, format, version, buffer_size, buffer,
+		(ccs_object_t *)tuner_ret, format, version, buffer_size, buffer,
 		opts));
 	return CCS_RESULT_SUCCESS;
 }
diff --git a/src/tuner_deserialize.h b/src/tuner_deserialize.h
index 468a24b..534759d 100644
--- a/src/tuner_deserialize.h
+++ b/src/tuner_deserialize.h
@@ -319,7 +319,7 @@ _ccs_tuner_deserialize(
 			"Unsupported serialization format: %d", format);
 	}
 	CCS_VALIDATE(_ccs_object_deserialize_user_data(
-		(ccs_object_t)*tuner_ret, format, version, buffer_size, buffer,
+		(ccs_object_t *)tuner_ret, format, version, buffer_size, buffer,
 		opts));
 	return CCS_RESULT_SUCCESS;
 }
-- 
2.43.0


From e8b47d22362b0f20a7e8837697dbe67cffe7495c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:31 +0000
Subject: [PATCH 30/72] fix: non-blocking descriptor streaming used stale or
 uninitialised state, end of input looped forever

---
 src/cconfigspace.c | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/cconfigspace.c b/src/cconfigspace.c
index 948cd55..efbe126 100644
--- a/src/cconfigspace.c
+++ b/src/cconfigspace.c
@@ -392,7 +392,7 @@ _ccs_object_serialize_file_descriptor(
 	va_list                args)
 {
 	int                             fd;
-	ccs_result_t                    res;
+	ccs_result_t                    res    = CCS_RESULT_SUCCESS;
 	_ccs_object_serialize_options_t opts   = {NULL, NULL, NULL};
 	_ccs_file_descriptor_state_t    state  = {NULL, 0, NULL, 0, -1, 0};
 	_ccs_file_descriptor_state_t   *pstate = NULL;
@@ -424,6 +424,7 @@ _ccs_object_serialize_file_descriptor(
 			CCS_REFUTE(!mem, CCS_RESULT_ERROR_OUT_OF_MEMORY);
 			*(opts.ppfd_state) = pstate =
 				(_ccs_file_descriptor_state_t *)mem;
+			pstate->base = mem;
 			pstate->base_size =
 				sizeof(_ccs_file_descriptor_state_t) +
 				object_size;
@@ -807,7 +808,7 @@ _ccs_object_deserialize_file_descriptor_read_loop(
 	_ccs_file_descriptor_state_t *pstate,
 	int                           non_blocking)
 {
-	do {
+	while (pstate->buffer_size) {
 		ssize_t count;
 		count = read(pstate->fd, pstate->buffer, pstate->buffer_size);
 		if (count == -1) {
@@ -818,10 +819,12 @@ _ccs_object_deserialize_file_descriptor_read_loop(
 			if (errno == EAGAIN && non_blocking)
 				return CCS_RESULT_AGAIN;
 		} else {
+			CCS_REFUTE(
+				count == 0, CCS_RESULT_ERROR_NOT_ENOUGH_DATA);
 			pstate->buffer_size -= count;
 			pstate->buffer += count;
 		}
-	} while (pstate->buffer_size);
+	}
 	return CCS_RESULT_SUCCESS;
 }
 
@@ -904,6 +907,13 @@ _ccs_object_deserialize_file_descriptor(
 				(const char **)&pstate->buffer, &object_size,
 				&pstate->version),
 			err_fd_buffer);
+		CCS_REFUTE_ERR_GOTO(
+			res,
+			object_size < header_size ||
+				object_size >
+					SIZE_MAX -
+						sizeof(_ccs_file_descriptor_state_t),
+			CCS_RESULT_ERROR_INVALID_VALUE, err_fd_buffer);
 		/* reallocate buffer to account for whole size */
 		if (non_blocking)
 			pstate->base_size =
@@ -915,6 +925,9 @@ _ccs_object_deserialize_file_descriptor(
 		CCS_REFUTE_ERR_GOTO(
 			res, !new_buffer, CCS_RESULT_ERROR_OUT_OF_MEMORY,
 			err_fd_buffer);
+		if (non_blocking)
+			*(opts.ppfd_state) = pstate =
+				(_ccs_file_descriptor_state_t *)new_buffer;
 		pstate->base = new_buffer;
 		/* seek to after the header */
 		offset       = header_size;
-- 
2.43.0


From c0c4a9b81b8d6ae016da5b0a282cceb54985c0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:00 +0000
Subject: [PATCH 31/72] fix: element counts and dimensions in serialized data
 were trusted, overflowing buffers

---
 src/binding_internal.h                |  2 +-
 src/cconfigspace_internal.h           | 17 +++++++++++++++++
 src/configuration_space_deserialize.h | 21 +++++++++++++++------
 src/context_deserialize.h             |  2 +-
 src/distribution_deserialize.h        |  6 +++---
 src/expression_deserialize.h          |  5 ++++-
 src/features_tuner_deserialize.h      |  4 ++--
 src/map_deserialize.h                 |  2 +-
 src/objective_space_deserialize.h     |  4 ++--
 src/parameter_deserialize.h           |  2 +-
 src/tree_configuration_deserialize.h  |  2 +-
 src/tree_deserialize.h                |  2 +-
 src/tree_tuner_deserialize.h          |  4 ++--
 src/tuner_deserialize.h               |  4 ++--
 14 files changed, 53 insertions(+), 24 deletions(-)

diff --git a/src/binding_internal.h b/src/binding_internal.h
index cee0f37..55201bd 100644
--- a/src/binding_internal.h
+++ b/src/binding_internal.h
@@ -272,7 +272,7 @@ _ccs_deserialize_bin_ccs_binding_data(
 	(void)version;
 	CCS_VALIDATE(_ccs_deserialize_bin_ccs_object(
 		(ccs_object_t *)&data->context, buffer_size, buffer));
-	CCS_VALIDATE(_ccs_deserialize_bin_size(
+	CCS_VALIDATE(_ccs_deserialize_bin_count(
 		&data->num_values, buffer_size, buffer));
 	if (data->num_values) {
 		data->values = (ccs_datum_t *)calloc(
diff --git a/src/cconfigspace_internal.h b/src/cconfigspace_internal.h
index 48a0d04..c7c7723 100644
--- a/src/cconfigspace_internal.h
+++ b/src/cconfigspace_internal.h
@@ -753,6 +753,23 @@ _ccs_deserialize_bin_size(size_t *sz, size_t *buffer_size, const char **buffer)
 	return CCS_RESULT_SUCCESS;
 }
 
+/* Number of elements that follow, each element takes at least one byte */
+static inline ccs_result_t
+_ccs_deserialize_bin_count(
+	size_t      *count,
+	size_t      *buffer_size,
+	const char **buffer)
+{
+	CCS_VALIDATE(_ccs_deserialize_bin_size(count, buffer_size, buffer));
+	if (*count > *buffer_size) {
+		*count = 0;
+		CCS_RAISE(
+			CCS_RESULT_ERROR_NOT_ENOUGH_DATA,
+			"Element count exceeds available data");
+	}
+	return CCS_RESULT_SUCCESS;
+}
+
 static inline size_t
 _ccs_serialize_bin_size_string(const char *str)
 {
diff --git a/src/configuration_space_deserialize.h b/src/configuration_space_deserialize.h
index a611e0c..6c0c1f8 100644
--- a/src/configuration_space_deserialize.h
+++ b/src/configuration_space_deserialize.h
@@ -35,13 +35,13 @@ _ccs_deserialize_bin_ccs_configuration_space_data(
 
 	CCS_VALIDATE(
 		_ccs_deserialize_bin_string(&data->name, buffer_size, buffer));
-	CCS_VALIDATE(_ccs_deserialize_bin_size(
+	CCS_VALIDATE(_ccs_deserialize_bin_count(
 		&data->num_parameters, buffer_size, buffer));
-	CCS_VALIDATE(_ccs_deserialize_bin_size(
+	CCS_VALIDATE(_ccs_deserialize_bin_count(
 		&data->num_conditions, buffer_size, buffer));
-	CCS_VALIDATE(_ccs_deserialize_bin_size(
+	CCS_VALIDATE(_ccs_deserialize_bin_count(
 		&data->num_distributions, buffer_size, buffer));
-	CCS_VALIDATE(_ccs_deserialize_bin_size(
+	CCS_VALIDATE(_ccs_deserialize_bin_count(
 		&data->num_forbidden_clauses, buffer_size, buffer));
 	CCS_VALIDATE(_ccs_rng_deserialize(
 		&data->rng, CCS_SERIALIZE_FORMAT_BINARY, version, buffer_size,
@@ -89,13 +89,22 @@ _ccs_deserialize_bin_ccs_configuration_space_data(
 	}
 
 	size_t *indices;
-	indices = data->distrib_parameter_indices;
+	size_t  remaining = data->num_parameters;
+	indices           = data->distrib_parameter_indices;
 	for (size_t i = 0; i < data->num_distributions; i++) {
 		CCS_VALIDATE(_ccs_distribution_deserialize(
 			data->distributions + i, CCS_SERIALIZE_FORMAT_BINARY,
 			version, buffer_size, buffer, opts));
 		CCS_VALIDATE(_ccs_deserialize_bin_size(
 			data->dimensions + i, buffer_size, buffer));
+		size_t dimension;
+		CCS_VALIDATE(ccs_distribution_get_dimension(
+			data->distributions[i], &dimension));
+		CCS_REFUTE(
+			data->dimensions[i] != dimension ||
+				dimension > remaining,
+			CCS_RESULT_ERROR_INVALID_VALUE);
+		remaining -= dimension;
 		for (size_t j = 0; j < data->dimensions[i]; j++) {
 			CCS_VALIDATE(_ccs_deserialize_bin_size(
 				indices, buffer_size, buffer));
@@ -152,7 +161,7 @@ _ccs_deserialize_bin_configuration_space(
 		res,
 		ccs_configuration_space_set_rng(
 			*configuration_space_ret, data.rng),
-		end);
+		err_configuration_space);
 	CCS_VALIDATE_ERR_GOTO(
 		res,
 		ccs_configuration_space_add_parameters(
diff --git a/src/context_deserialize.h b/src/context_deserialize.h
index e8fa1c8..39e001b 100644
--- a/src/context_deserialize.h
+++ b/src/context_deserialize.h
@@ -22,7 +22,7 @@ _ccs_deserialize_bin_ccs_context_data(
 	data->parameters     = NULL;
 	CCS_VALIDATE(
 		_ccs_deserialize_bin_string(&data->name, buffer_size, buffer));
-	CCS_VALIDATE(_ccs_deserialize_bin_size(
+	CCS_VALIDATE(_ccs_deserialize_bin_count(
 		&data->num_parameters, buffer_size, buffer));
 	if (data->num_parameters) {
 		data->parameters = (ccs_parameter_t *)calloc(
diff --git a/src/distribution_deserialize.h b/src/distribution_deserialize.h
index 9ca9c5a..6ccb1ed 100644
--- a/src/distribution_deserialize.h
+++ b/src/distribution_deserialize.h
@@ -130,7 +130,7 @@ _ccs_deserialize_bin_ccs_distribution_roulette_data(
 {
 	CCS_VALIDATE(_ccs_deserialize_bin_ccs_distribution_common_data(
 		&data->common_data, buffer_size, buffer));
-	CCS_VALIDATE(_ccs_deserialize_bin_size(
+	CCS_VALIDATE(_ccs_deserialize_bin_count(
 		&data->num_areas, buffer_size, buffer));
 	data->areas =
 		(ccs_float_t *)malloc(data->num_areas * sizeof(ccs_float_t));
@@ -198,7 +198,7 @@ _ccs_deserialize_bin_ccs_distribution_mixture_data(
 	new_opts.handle_map                        = NULL;
 	CCS_VALIDATE(_ccs_deserialize_bin_ccs_distribution_common_data(
 		&data->common_data, buffer_size, buffer));
-	CCS_VALIDATE(_ccs_deserialize_bin_size(
+	CCS_VALIDATE(_ccs_deserialize_bin_count(
 		&data->num_distributions, buffer_size, buffer));
 	data->distributions = (ccs_distribution_t *)calloc(
 		data->num_distributions, sizeof(ccs_distribution_t));
@@ -271,7 +271,7 @@ _ccs_deserialize_bin_ccs_distribution_multivariate_data(
 	new_opts.handle_map                        = NULL;
 	CCS_VALIDATE(_ccs_deserialize_bin_ccs_distribution_common_data(
 		&data->common_data, buffer_size, buffer));
-	CCS_VALIDATE(_ccs_deserialize_bin_size(
+	CCS_VALIDATE(_ccs_deserialize_bin_count(
 		&data->num_distributions, buffer_size, buffer));
 	data->distributions = (ccs_distribution_t *)calloc(
 		data->num_distributions, sizeof(ccs_distribution_t));
diff --git a/src/expression_deserialize.h b/src/expression_deserialize.h
index 94f30df..c92d2ed 100644
--- a/src/expression_deserialize.h
+++ b/src/expression_deserialize.h
@@ -38,8 +38,11 @@ _ccs_deserialize_bin_ccs_expression_data(
 	data->nodes = NULL;
 	CCS_VALIDATE(_ccs_deserialize_bin_ccs_expression_type(
 		&data->type, buffer_size, buffer));
-	CCS_VALIDATE(_ccs_deserialize_bin_size(
+	CCS_VALIDATE(_ccs_deserialize_bin_count(
 		&data->num_nodes, buffer_size, buffer));
+	/* literals and variables have no child nodes */
+	CCS_REFUTE(
+		data->num_nodes && !opts, CCS_RESULT_ERROR_INVALID_EXPRESSION);
 	if (data->num_nodes) {
 		data->nodes = (ccs_datum_t *)calloc(
 			data->num_nodes, sizeof(ccs_datum_t));
diff --git a/src/features_tuner_deserialize.h b/src/features_tuner_deserialize.h
index b6d0ebc..1d42913 100644
--- a/src/features_tuner_deserialize.h
+++ b/src/features_tuner_deserialize.h
@@ -52,9 +52,9 @@ _ccs_deserialize_bin_ccs_random_features_tuner_data(
 
 	CCS_VALIDATE(_ccs_deserialize_bin_ccs_features_tuner_common_data(
 		&data->common_data, version, buffer_size, buffer, opts));
-	CCS_VALIDATE(_ccs_deserialize_bin_size(
+	CCS_VALIDATE(_ccs_deserialize_bin_count(
 		&data->size_history, buffer_size, buffer));
-	CCS_VALIDATE(_ccs_deserialize_bin_size(
+	CCS_VALIDATE(_ccs_deserialize_bin_count(
 		&data->size_optima, buffer_size, buffer));
 
 	if (!(data->size_history + data->size_optima))
diff --git a/src/map_deserialize.h b/src/map_deserialize.h
index cef3833..a11c19b 100644
--- a/src/map_deserialize.h
+++ b/src/map_deserialize.h
@@ -21,7 +21,7 @@ _ccs_deserialize_bin_ccs_map_data(
 	size_t               *buffer_size,
 	const char          **buffer)
 {
-	CCS_VALIDATE(_ccs_deserialize_bin_size(
+	CCS_VALIDATE(_ccs_deserialize_bin_count(
 		&data->num_pairs, buffer_size, buffer));
 	data->pairs = (_ccs_map_pair_t *)malloc(
 		data->num_pairs * sizeof(_ccs_map_pair_t));
diff --git a/src/objective_space_deserialize.h b/src/objective_space_deserialize.h
index 336b408..8405d8a 100644
--- a/src/objective_space_deserialize.h
+++ b/src/objective_space_deserialize.h
@@ -25,9 +25,9 @@ _ccs_deserialize_bin_ccs_objective_space_data(
 
 	CCS_VALIDATE(
 		_ccs_deserialize_bin_string(&data->name, buffer_size, buffer));
-	CCS_VALIDATE(_ccs_deserialize_bin_size(
+	CCS_VALIDATE(_ccs_deserialize_bin_count(
 		&data->num_parameters, buffer_size, buffer));
-	CCS_VALIDATE(_ccs_deserialize_bin_size(
+	CCS_VALIDATE(_ccs_deserialize_bin_count(
 		&data->num_objectives, buffer_size, buffer));
 
 	if (!(data->num_parameters + data->num_objectives))
diff --git a/src/parameter_deserialize.h b/src/parameter_deserialize.h
index 7bac99b..225703a 100644
--- a/src/parameter_deserialize.h
+++ b/src/parameter_deserialize.h
@@ -48,7 +48,7 @@ _ccs_deserialize_bin_ccs_parameter_categorical_data(
 {
 	CCS_VALIDATE(_ccs_deserialize_bin_ccs_parameter_common_data(
 		&data->common_data, buffer_size, buffer));
-	CCS_VALIDATE(_ccs_deserialize_bin_size(
+	CCS_VALIDATE(_ccs_deserialize_bin_count(
 		&data->num_possible_values, buffer_size, buffer));
 	data->possible_values = (ccs_datum_t *)malloc(
 		data->num_possible_values * sizeof(ccs_datum_t));
diff --git a/src/tree_configuration_deserialize.h b/src/tree_configuration_deserialize.h
index 39d4f9f..a48c7f2 100644
--- a/src/tree_configuration_deserialize.h
+++ b/src/tree_configuration_deserialize.h
@@ -13,7 +13,7 @@ _ccs_deserialize_bin_tree_configuration_data(
 	(void)version;
 	CCS_VALIDATE(_ccs_deserialize_bin_ccs_object(
 		(ccs_object_t *)&data->tree_space, buffer_size, buffer));
-	CCS_VALIDATE(_ccs_deserialize_bin_size(
+	CCS_VALIDATE(_ccs_deserialize_bin_count(
 		&data->position_size, buffer_size, buffer));
 	if (data->position_size) {
 		data->position =
diff --git a/src/tree_deserialize.h b/src/tree_deserialize.h
index e175824..c74858d 100644
--- a/src/tree_deserialize.h
+++ b/src/tree_deserialize.h
@@ -32,7 +32,7 @@ _ccs_deserialize_bin_ccs_tree_data(
 	_ccs_object_deserialize_options_t new_opts = *opts;
 	new_opts.handle_map                        = NULL;
 	CCS_VALIDATE(
-		_ccs_deserialize_bin_size(&data->arity, buffer_size, buffer));
+		_ccs_deserialize_bin_count(&data->arity, buffer_size, buffer));
 	CCS_VALIDATE(_ccs_deserialize_bin_ccs_float(
 		&data->weight, buffer_size, buffer));
 	if (data->arity) {
diff --git a/src/tree_tuner_deserialize.h b/src/tree_tuner_deserialize.h
index a9cd16b..eae295d 100644
--- a/src/tree_tuner_deserialize.h
+++ b/src/tree_tuner_deserialize.h
@@ -48,9 +48,9 @@ _ccs_deserialize_bin_ccs_random_tree_tuner_data(
 
 	CCS_VALIDATE(_ccs_deserialize_bin_size_ccs_tree_tuner_common_data(
 		&data->common_data, version, buffer_size, buffer, opts));
-	CCS_VALIDATE(_ccs_deserialize_bin_size(
+	CCS_VALIDATE(_ccs_deserialize_bin_count(
 		&data->size_history, buffer_size, buffer));
-	CCS_VALIDATE(_ccs_deserialize_bin_size(
+	CCS_VALIDATE(_ccs_deserialize_bin_count(
 		&data->size_optima, buffer_size, buffer));
 
 	if (!(data->size_history + data->size_optima))
diff --git a/src/tuner_deserialize.h b/src/tuner_deserialize.h
index 534759d..3d2eb80 100644
--- a/src/tuner_deserialize.h
+++ b/src/tuner_deserialize.h
@@ -47,9 +47,9 @@ _ccs_deserialize_bin_ccs_random_tuner_data(
 
 	CCS_VALIDATE(_ccs_deserialize_bin_size_ccs_tuner_common_data(
 		&data->common_data, version, buffer_size, buffer, opts));
-	CCS_VALIDATE(_ccs_deserialize_bin_size(
+	CCS_VALIDATE(_ccs_deserialize_bin_count(
 		&data->size_history, buffer_size, buffer));
-	CCS_VALIDATE(_ccs_deserialize_bin_size(
+	CCS_VALIDATE(_ccs_deserialize_bin_count(
 		&data->size_optima, buffer_size, buffer));
 
 	if (!(data->size_history + data->size_optima))
-- 
2.43.0


From ce04ee852fd671c54e6f39f01344957e30e25c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:11 +0000
Subject: [PATCH 32/72] fix: deserialization error paths left dangling objects
 that were released twice

---
 src/distribution_deserialize.h   | 1 +
 src/expression_deserialize.h     | 1 +
 src/features_tuner_deserialize.h | 1 +
 src/parameter_deserialize.h      | 1 +
 src/tree_space_deserialize.h     | 1 +
 src/tree_tuner_deserialize.h     | 1 +
 src/tuner_deserialize.h          | 1 +
 7 files changed, 7 insertions(+)

diff --git a/src/distribution_deserialize.h b/src/distribution_deserialize.h
index 6ccb1ed..8375da0 100644
--- a/src/distribution_deserialize.h
+++ b/src/distribution_deserialize.h
@@ -372,6 +372,7 @@ _ccs_deserialize_bin_distribution(
 	return CCS_RESULT_SUCCESS;
 err_dis:
 	ccs_release_object(*distribution_ret);
+	*distribution_ret = NULL;
 	return res;
 }
 
diff --git a/src/expression_deserialize.h b/src/expression_deserialize.h
index c92d2ed..702dd87 100644
--- a/src/expression_deserialize.h
+++ b/src/expression_deserialize.h
@@ -221,6 +221,7 @@ _ccs_deserialize_bin_expression(
 	return CCS_RESULT_SUCCESS;
 err_exp:
 	ccs_release_object(*expression_ret);
+	*expression_ret = NULL;
 	return res;
 }
 
diff --git a/src/features_tuner_deserialize.h b/src/features_tuner_deserialize.h
index 1d42913..becf262 100644
--- a/src/features_tuner_deserialize.h
+++ b/src/features_tuner_deserialize.h
@@ -315,6 +315,7 @@ _ccs_deserialize_bin_features_tuner(
 	goto end;
 err_features_tuner:
 	ccs_release_object(*features_tuner_ret);
+	*features_tuner_ret = NULL;
 end:
 	ccs_release_object(new_opts.handle_map);
 	return res;
diff --git a/src/parameter_deserialize.h b/src/parameter_deserialize.h
index 225703a..a812cbb 100644
--- a/src/parameter_deserialize.h
+++ b/src/parameter_deserialize.h
@@ -204,6 +204,7 @@ _ccs_deserialize_bin_parameter(
 	return CCS_RESULT_SUCCESS;
 err_parameter:
 	ccs_release_object(*parameter_ret);
+	*parameter_ret = NULL;
 	return res;
 }
 
diff --git a/src/tree_space_deserialize.h b/src/tree_space_deserialize.h
index 13f1fe3..9048aa1 100644
--- a/src/tree_space_deserialize.h
+++ b/src/tree_space_deserialize.h
@@ -165,6 +165,7 @@ _ccs_deserialize_bin_tree_space(
 	return CCS_RESULT_SUCCESS;
 err_tree_space:
 	ccs_release_object(*tree_space_ret);
+	*tree_space_ret = NULL;
 	return res;
 }
 
diff --git a/src/tree_tuner_deserialize.h b/src/tree_tuner_deserialize.h
index eae295d..82c1ffa 100644
--- a/src/tree_tuner_deserialize.h
+++ b/src/tree_tuner_deserialize.h
@@ -295,6 +295,7 @@ _ccs_deserialize_bin_tree_tuner(
 	goto end;
 err_tuner:
 	ccs_release_object(*tuner_ret);
+	*tuner_ret = NULL;
 end:
 	ccs_release_object(new_opts.handle_map);
 	return res;
diff --git a/src/tuner_deserialize.h b/src/tuner_deserialize.h
index 3d2eb80..7884e22 100644
--- a/src/tuner_deserialize.h
+++ b/src/tuner_deserialize.h
@@ -294,6 +294,7 @@ _ccs_deserialize_bin_tuner(
 	goto end;
 err_tuner:
 	ccs_release_object(*tuner_ret);
+	*tuner_ret = NULL;
 end:
 	ccs_release_object(new_opts.handle_map);
 	return res;
-- 
2.43.0


From 62e4febca6927510f2c60621b0261f147cca40da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:52 +0000
Subject: [PATCH 33/72] fix: tuner deserialization trusted optima handles,
 leaked and double released on error

---
 src/features_tuner_deserialize.h | 9 +++++++--
 src/tree_tuner_deserialize.h     | 9 +++++++--
 src/tuner_deserialize.h          | 9 +++++++--
 3 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/features_tuner_deserialize.h b/src/features_tuner_deserialize.h
index becf262..9823632 100644
--- a/src/features_tuner_deserialize.h
+++ b/src/features_tuner_deserialize.h
@@ -83,6 +83,9 @@ _ccs_deserialize_bin_ccs_random_features_tuner_data(
 		CCS_REFUTE(
 			d.type != CCS_DATA_TYPE_OBJECT,
 			CCS_RESULT_ERROR_INVALID_HANDLE);
+		CCS_CHECK_OBJ(
+			(ccs_features_evaluation_t)(d.value.o),
+			CCS_OBJECT_TYPE_FEATURES_EVALUATION);
 		data->optima[i] = (ccs_features_evaluation_t)(d.value.o);
 	}
 	return CCS_RESULT_SUCCESS;
@@ -136,6 +139,8 @@ _ccs_deserialize_bin_random_features_tuner(
 		features_evaluations);
 	odata = (_ccs_random_features_tuner_data_clone_t
 			 *)((*features_tuner_ret)->data);
+	utarray_reserve(odata->history, data.size_history);
+	utarray_reserve(odata->optima, data.size_optima);
 	for (size_t i = 0; i < data.size_history; i++)
 		utarray_push_back(odata->history, data.history + i);
 	for (size_t i = 0; i < data.size_optima; i++)
@@ -299,8 +304,8 @@ _ccs_deserialize_bin_features_tuner(
 			end);
 		break;
 	default:
-		CCS_RAISE(
-			CCS_RESULT_ERROR_UNSUPPORTED_OPERATION,
+		CCS_RAISE_ERR_GOTO(
+			res, CCS_RESULT_ERROR_UNSUPPORTED_OPERATION, end,
 			"Unsuported features tuner type: %d", ttype);
 	}
 	if (opts->handle_map)
diff --git a/src/tree_tuner_deserialize.h b/src/tree_tuner_deserialize.h
index 82c1ffa..55beb93 100644
--- a/src/tree_tuner_deserialize.h
+++ b/src/tree_tuner_deserialize.h
@@ -79,6 +79,9 @@ _ccs_deserialize_bin_ccs_random_tree_tuner_data(
 		CCS_REFUTE(
 			d.type != CCS_DATA_TYPE_OBJECT,
 			CCS_RESULT_ERROR_INVALID_HANDLE);
+		CCS_CHECK_OBJ(
+			(ccs_tree_evaluation_t)(d.value.o),
+			CCS_OBJECT_TYPE_TREE_EVALUATION);
 		data->optima[i] = (ccs_tree_evaluation_t)(d.value.o);
 	}
 	return CCS_RESULT_SUCCESS;
@@ -125,6 +128,8 @@ _ccs_deserialize_bin_random_tree_tuner(
 			data.common_data.objective_space, tuner_ret),
 		evaluations);
 	odata = (_ccs_random_tree_tuner_data_clone_t *)((*tuner_ret)->data);
+	utarray_reserve(odata->history, data.size_history);
+	utarray_reserve(odata->optima, data.size_optima);
 	for (size_t i = 0; i < data.size_history; i++)
 		utarray_push_back(odata->history, data.history + i);
 	for (size_t i = 0; i < data.size_optima; i++)
@@ -279,8 +284,8 @@ _ccs_deserialize_bin_tree_tuner(
 			end);
 		break;
 	default:
-		CCS_RAISE(
-			CCS_RESULT_ERROR_INVALID_TYPE,
+		CCS_RAISE_ERR_GOTO(
+			res, CCS_RESULT_ERROR_INVALID_TYPE, end,
 			"Unsupported tuner type: %d", ttype);
 	}
 	if (opts->handle_map)
diff --git a/src/tuner_deserialize.h b/src/tuner_deserialize.h
index 7884e22..24ab7bc 100644
--- a/src/tuner_deserialize.h
+++ b/src/tuner_deserialize.h
@@ -78,6 +78,9 @@ _ccs_deserialize_bin_ccs_random_tuner_data(
 		CCS_REFUTE(
 			d.type != CCS_DATA_TYPE_OBJECT,
 			CCS_RESULT_ERROR_INVALID_HANDLE);
+		CCS_CHECK_OBJ(
+			(ccs_evaluation_t)(d.value.o),
+			CCS_OBJECT_TYPE_EVALUATION);
 		data->optima[i] = (ccs_evaluation_t)(d.value.o);
 	}
 	return CCS_RESULT_SUCCESS;
@@ -124,6 +127,8 @@ _ccs_deserialize_bin_random_tuner(
 			data.common_data.objective_space, tuner_ret),
 		evaluations);
 	odata = (_ccs_random_tuner_data_clone_t *)((*tuner_ret)->data);
+	utarray_reserve(odata->history, data.size_history);
+	utarray_reserve(odata->optima, data.size_optima);
 	for (size_t i = 0; i < data.size_history; i++)
 		utarray_push_back(odata->history, data.history + i);
 	for (size_t i = 0; i < data.size_optima; i++)
@@ -278,8 +283,8 @@ _ccs_deserialize_bin_tuner(
 			end);
 		break;
 	default:
-		CCS_RAISE(
-			CCS_RESULT_ERROR_INVALID_TYPE,
+		CCS_RAISE_ERR_GOTO(
+			res, CCS_RESULT_ERROR_INVALID_TYPE, end,
 			"Unsupported tuner type: %d", ttype);
 	}
 	if (opts->handle_map)
-- 
2.43.0


From a1237ec1aeeebf4717b6f6b57fe98b5e2751eee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:18 +0000
Subject: [PATCH 34/72] fix: spaces sharing a condition, clause, objective or
 distribution could not be deserialized

---
 src/configuration_space_deserialize.h | 11 ++++++++---
 src/objective_space_deserialize.h     |  5 ++++-
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/configuration_space_deserialize.h b/src/configuration_space_deserialize.h
index 6c0c1f8..6bc2613 100644
--- a/src/configuration_space_deserialize.h
+++ b/src/configuration_space_deserialize.h
@@ -32,6 +32,11 @@ _ccs_deserialize_bin_ccs_configuration_space_data(
 	_ccs_object_deserialize_options_t    *opts)
 {
 	uintptr_t mem;
+	/* conditions, clauses and distributions can be shared */
+	_ccs_object_deserialize_options_t expr_opts = *opts;
+	_ccs_object_deserialize_options_t dist_opts = *opts;
+	expr_opts.map_values                        = CCS_FALSE;
+	dist_opts.handle_map                        = NULL;
 
 	CCS_VALIDATE(
 		_ccs_deserialize_bin_string(&data->name, buffer_size, buffer));
@@ -85,7 +90,7 @@ _ccs_deserialize_bin_ccs_configuration_space_data(
 			data->cond_parameter_indices + i, buffer_size, buffer));
 		CCS_VALIDATE(_ccs_expression_deserialize(
 			data->conditions + i, CCS_SERIALIZE_FORMAT_BINARY,
-			version, buffer_size, buffer, opts));
+			version, buffer_size, buffer, &expr_opts));
 	}
 
 	size_t *indices;
@@ -94,7 +99,7 @@ _ccs_deserialize_bin_ccs_configuration_space_data(
 	for (size_t i = 0; i < data->num_distributions; i++) {
 		CCS_VALIDATE(_ccs_distribution_deserialize(
 			data->distributions + i, CCS_SERIALIZE_FORMAT_BINARY,
-			version, buffer_size, buffer, opts));
+			version, buffer_size, buffer, &dist_opts));
 		CCS_VALIDATE(_ccs_deserialize_bin_size(
 			data->dimensions + i, buffer_size, buffer));
 		size_t dimension;
@@ -116,7 +121,7 @@ _ccs_deserialize_bin_ccs_configuration_space_data(
 		CCS_VALIDATE(_ccs_expression_deserialize(
 			data->forbidden_clauses + i,
 			CCS_SERIALIZE_FORMAT_BINARY, version, buffer_size,
-			buffer, opts));
+			buffer, &expr_opts));
 	}
 
 	return CCS_RESULT_SUCCESS;
diff --git a/src/objective_space_deserialize.h b/src/objective_space_deserialize.h
index 8405d8a..a6acce5 100644
--- a/src/objective_space_deserialize.h
+++ b/src/objective_space_deserialize.h
@@ -22,6 +22,9 @@ _ccs_deserialize_bin_ccs_objective_space_data(
 	_ccs_object_deserialize_options_t *opts)
 {
 	uintptr_t mem;
+	/* objectives can be shared */
+	_ccs_object_deserialize_options_t expr_opts = *opts;
+	expr_opts.map_values                        = CCS_FALSE;
 
 	CCS_VALIDATE(
 		_ccs_deserialize_bin_string(&data->name, buffer_size, buffer));
@@ -52,7 +55,7 @@ _ccs_deserialize_bin_ccs_objective_space_data(
 	for (size_t i = 0; i < data->num_objectives; i++) {
 		CCS_VALIDATE(_ccs_expression_deserialize(
 			data->objectives + i, CCS_SERIALIZE_FORMAT_BINARY,
-			version, buffer_size, buffer, opts));
+			version, buffer_size, buffer, &expr_opts));
 		CCS_VALIDATE(_ccs_deserialize_bin_ccs_objective_type(
 			data->objective_types + i, buffer_size, buffer));
 	}
-- 
2.43.0


From 4ad9d1c3dfd14a57cd58ed8e2f2bd4a67b975829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:45 +0000
Subject: [PATCH 35/72] fix: a tuner told the same evaluation twice could not
 be deserialized

---
 src/features_tuner_deserialize.h | 29 +++++++++++++++++++++++++++--
 src/tree_tuner_deserialize.h     | 29 +++++++++++++++++++++++++++--
 src/tuner_deserialize.h          | 29 +++++++++++++++++++++++++++--
 3 files changed, 81 insertions(+), 6 deletions(-)

diff --git a/src/features_tuner_deserialize.h b/src/features_tuner_deserialize.h
index 9823632..a5fa1e1 100644
--- a/src/features_tuner_deserialize.h
+++ b/src/features_tuner_deserialize.h
@@ -68,10 +68,35 @@ _ccs_deserialize_bin_ccs_random_features_tuner_data(
 	mem += data->size_history * sizeof(ccs_features_evaluation_t);
 	data->optima = (ccs_features_evaluation_t *)mem;
 
-	for (size_t i = 0; i < data->size_history; i++)
+	for (size_t i = 0; i < data->size_history; i++) {
+		/* an evaluation can appear several times in the history */
+		_ccs_object_deserialize_options_t eval_opts = *opts;
+		size_t                            peek_size = *buffer_size;
+		const char                       *peek      = *buffer;
+		_ccs_object_internal_t            obj;
+		ccs_object_t                      handle;
+		ccs_bool_t                        found;
+		ccs_datum_t                       d;
+		CCS_VALIDATE(_ccs_deserialize_bin_ccs_object_internal(
+			&obj, &peek_size, &peek, &handle));
+		d = ccs_object(handle);
+		d.flags |= CCS_DATUM_FLAG_ID;
+		CCS_VALIDATE(ccs_map_exist(opts->handle_map, d, &found));
+		if (found)
+			eval_opts.map_values = CCS_FALSE;
 		CCS_VALIDATE(_ccs_features_evaluation_deserialize(
 			data->history + i, CCS_SERIALIZE_FORMAT_BINARY, version,
-			buffer_size, buffer, opts));
+			buffer_size, buffer, &eval_opts));
+		if (found) {
+			CCS_VALIDATE(ccs_map_get(opts->handle_map, d, &d));
+			CCS_CHECK_OBJ(
+				(ccs_features_evaluation_t)(d.value.o),
+				CCS_OBJECT_TYPE_FEATURES_EVALUATION);
+			CCS_VALIDATE(ccs_retain_object(d.value.o));
+			ccs_release_object(data->history[i]);
+			data->history[i] = (ccs_features_evaluation_t)(d.value.o);
+		}
+	}
 
 	for (size_t i = 0; i < data->size_optima; i++)
 		CCS_VALIDATE(_ccs_deserialize_bin_ccs_object(
diff --git a/src/tree_tuner_deserialize.h b/src/tree_tuner_deserialize.h
index 55beb93..ab74fbb 100644
--- a/src/tree_tuner_deserialize.h
+++ b/src/tree_tuner_deserialize.h
@@ -64,10 +64,35 @@ _ccs_deserialize_bin_ccs_random_tree_tuner_data(
 	mem += data->size_history * sizeof(ccs_tree_evaluation_t);
 	data->optima = (ccs_tree_evaluation_t *)mem;
 
-	for (size_t i = 0; i < data->size_history; i++)
+	for (size_t i = 0; i < data->size_history; i++) {
+		/* an evaluation can appear several times in the history */
+		_ccs_object_deserialize_options_t eval_opts = *opts;
+		size_t                            peek_size = *buffer_size;
+		const char                       *peek      = *buffer;
+		_ccs_object_internal_t            obj;
+		ccs_object_t                      handle;
+		ccs_bool_t                        found;
+		ccs_datum_t                       d;
+		CCS_VALIDATE(_ccs_deserialize_bin_ccs_object_internal(
+			&obj, &peek_size, &peek, &handle));
+		d = ccs_object(handle);
+		d.flags |= CCS_DATUM_FLAG_ID;
+		CCS_VALIDATE(ccs_map_exist(opts->handle_map, d, &found));
+		if (found)
+			eval_opts.map_values = CCS_FALSE;
 		CCS_VALIDATE(_ccs_tree_evaluation_deserialize(
 			data->history + i, CCS_SERIALIZE_FORMAT_BINARY, version,
-			buffer_size, buffer, opts));
+			buffer_size, buffer, &eval_opts));
+		if (found) {
+			CCS_VALIDATE(ccs_map_get(opts->handle_map, d, &d));
+			CCS_CHECK_OBJ(
+				(ccs_tree_evaluation_t)(d.value.o),
+				CCS_OBJECT_TYPE_TREE_EVALUATION);
+			CCS_VALIDATE(ccs_retain_object(d.value.o));
+			ccs_release_object(data->history[i]);
+			data->history[i] = (ccs_tree_evaluation_t)(d.value.o);
+		}
+	}
 
 	for (size_t i = 0; i < data->size_optima; i++)
 		CCS_VALIDATE(_ccs_deserialize_bin_ccs_object(
diff --git a/src/tuner_deserialize.h b/src/tuner_deserialize.h
index 24ab7bc..ae96298 100644
--- a/src/tuner_deserialize.h
+++ b/src/tuner_deserialize.h
@@ -63,10 +63,35 @@ _ccs_deserialize_bin_ccs_random_tuner_data(
 	mem += data->size_history * sizeof(ccs_evaluation_t);
 	data->optima = (ccs_evaluation_t *)mem;
 
-	for (size_t i = 0; i < data->size_history; i++)
+	for (size_t i = 0; i < data->size_history; i++) {
+		/* an evaluation can appear several times in the history */
+		_ccs_object_deserialize_options_t eval_opts = *opts;
+		size_t                            peek_size = *buffer_size;
+		const char                       *peek      = *buffer;
+		_ccs_object_internal_t            obj;
+		ccs_object_t                      handle;
+		ccs_bool_t                        found;
+		ccs_datum_t                       d;
+		CCS_VALIDATE(_ccs_deserialize_bin_ccs_object_internal(
+			&obj, &peek_size, &peek, &handle));
+		d = ccs_object(handle);
+		d.flags |= CCS_DATUM_FLAG_ID;
+		CCS_VALIDATE(ccs_map_exist(opts->handle_map, d, &found));
+		if (found)
+			eval_opts.map_values = CCS_FALSE;
 		CCS_VALIDATE(_ccs_evaluation_deserialize(
 			data->history + i, CCS_SERIALIZE_FORMAT_BINARY, version,
-			buffer_size, buffer, opts));
+			buffer_size, buffer, &eval_opts));
+		if (found) {
+			CCS_VALIDATE(ccs_map_get(opts->handle_map, d, &d));
+			CCS_CHECK_OBJ(
+				(ccs_evaluation_t)(d.value.o),
+				CCS_OBJECT_TYPE_EVALUATION);
+			CCS_VALIDATE(ccs_retain_object(d.value.o));
+			ccs_release_object(data->history[i]);
+			data->history[i] = (ccs_evaluation_t)(d.value.o);
+		}
+	}
 
 	for (size_t i = 0; i < data->size_optima; i++)
 		CCS_VALIDATE(_ccs_deserialize_bin_ccs_object(
-- 
2.43.0


From 9e44b528927c0e888a94421b928f8fa2d18c12fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:19 +0000
Subject: [PATCH 36/72] fix: clear the surplus entries of a tree configuration
 position query

---
 src/tree_configuration.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tree_configuration.c b/src/tree_configuration.c
index 4b76e1a..c009a21 100644
--- a/src/tree_configuration.c
+++ b/src/tree_configuration.c
@@ -180,6 +180,8 @@ ccs_tree_configuration_get_position(
 			position_size < size, CCS_RESULT_ERROR_INVALID_VALUE);
 		memcpy(position, configuration->data->position,
 		       size * sizeof(size_t));
+		for (size_t i = size; i < position_size; i++)
+			position[i] = 0;
 	}
 	if (position_size_ret)
 		*position_size_ret = size;
-- 
2.43.0


From 502cab403d7ef3d24a9221bd58bbcfc0411109e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:53 +0000
Subject: [PATCH 37/72] fix: refuse a missing buffer in
 ccs_tree_configuration_get_values

---
 src/tree_configuration.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tree_configuration.c b/src/tree_configuration.c
index c009a21..9baa40d 100644
--- a/src/tree_configuration.c
+++ b/src/tree_configuration.c
@@ -196,6 +196,7 @@ ccs_tree_configuration_get_values(
 	size_t                  *num_values_ret)
 {
 	CCS_CHECK_OBJ(configuration, CCS_OBJECT_TYPE_TREE_CONFIGURATION);
+	CCS_CHECK_ARY(num_values, values);
 	CCS_REFUTE(!values && !num_values_ret, CCS_RESULT_ERROR_INVALID_VALUE);
 	size_t num = configuration->data->position_size + 1;
 	if (values)
-- 
2.43.0


From c32f568df8b0c2a238e2d9743167b874c0a825af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:58 +0000
Subject: [PATCH 38/72] fix: failed features tuner deserialization leaked the
 evaluations already loaded

---
 src/features_tuner_deserialize.h | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/features_tuner_deserialize.h b/src/features_tuner_deserialize.h
index a5fa1e1..8a220d9 100644
--- a/src/features_tuner_deserialize.h
+++ b/src/features_tuner_deserialize.h
@@ -153,7 +153,7 @@ _ccs_deserialize_bin_random_features_tuner(
 		res,
 		_ccs_deserialize_bin_ccs_random_features_tuner_data(
 			&data, version, buffer_size, buffer, opts),
-		end);
+		features_evaluations);
 	CCS_VALIDATE_ERR_GOTO(
 		res,
 		ccs_create_random_features_tuner(
@@ -175,8 +175,10 @@ features_tuner:
 	ccs_release_object(*features_tuner_ret);
 	*features_tuner_ret = NULL;
 features_evaluations:
-	for (size_t i = 0; i < data.size_history; i++)
-		ccs_release_object(data.history[i]);
+	if (data.history)
+		for (size_t i = 0; i < data.size_history; i++)
+			if (data.history[i])
+				ccs_release_object(data.history[i]);
 end:
 	if (data.common_data.configuration_space)
 		ccs_release_object(data.common_data.configuration_space);
@@ -244,7 +246,7 @@ _ccs_deserialize_bin_user_defined_features_tuner(
 			data.base_data.common_data.features_space,
 			data.base_data.common_data.objective_space, vector,
 			opts->data, features_tuner_ret),
-		evaluations);
+		end);
 	if (vector->deserialize_state)
 		CCS_VALIDATE_ERR_GOTO(
 			res,
@@ -264,13 +266,10 @@ _ccs_deserialize_bin_user_defined_features_tuner(
 				data.base_data.size_history,
 				data.base_data.history),
 			features_tuner);
-	goto evaluations;
+	goto end;
 features_tuner:
 	ccs_release_object(*features_tuner_ret);
 	*features_tuner_ret = NULL;
-evaluations:
-	for (size_t i = 0; i < data.base_data.size_history; i++)
-		ccs_release_object(data.base_data.history[i]);
 end:
 	if (data.base_data.common_data.configuration_space)
 		ccs_release_object(
@@ -279,8 +278,12 @@ end:
 		ccs_release_object(data.base_data.common_data.objective_space);
 	if (data.base_data.common_data.features_space)
 		ccs_release_object(data.base_data.common_data.features_space);
-	if (data.base_data.history)
+	if (data.base_data.history) {
+		for (size_t i = 0; i < data.base_data.size_history; i++)
+			if (data.base_data.history[i])
+				ccs_release_object(data.base_data.history[i]);
 		free(data.base_data.history);
+	}
 	return res;
 }
 
-- 
2.43.0


From 9006311598727eac25391c6d9dac0d563433d739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:58 +0000
Subject: [PATCH 39/72] fix: a failed deserialization left its handles in the
 caller's handle map

---
 src/cconfigspace.c | 30 ++++++++++++++++++++++++++++--
 src/map.c          | 16 ++++++++++++++++
 src/map_internal.h |  8 ++++++++
 3 files changed, 52 insertions(+), 2 deletions(-)

diff --git a/src/cconfigspace.c b/src/cconfigspace.c
index efbe126..05b9f27 100644
--- a/src/cconfigspace.c
+++ b/src/cconfigspace.c
@@ -709,6 +709,32 @@ _ccs_object_deserialize_with_opts(
 	return CCS_RESULT_SUCCESS;
 }
 
+/* A failed deserialization leaves no entries in the caller's handle map. */
+static inline ccs_result_t
+_ccs_object_deserialize_or_rollback(
+	ccs_object_t                      *object_ret,
+	ccs_serialize_format_t             format,
+	uint32_t                           version,
+	size_t                            *buffer_size,
+	const char                       **buffer,
+	_ccs_object_deserialize_options_t *opts)
+{
+	ccs_result_t res;
+	size_t       num_handles = 0;
+	if (opts->handle_map)
+		num_handles = _ccs_map_get_num_entries(opts->handle_map);
+	CCS_VALIDATE_ERR_GOTO(
+		res,
+		_ccs_object_deserialize_with_opts(
+			object_ret, format, version, buffer_size, buffer, opts),
+		err_handles);
+	return CCS_RESULT_SUCCESS;
+err_handles:
+	if (opts->handle_map)
+		_ccs_map_truncate(opts->handle_map, num_handles);
+	return res;
+}
+
 static inline ccs_result_t
 _ccs_object_deserialize(
 	ccs_object_t             *object_ret,
@@ -726,7 +752,7 @@ _ccs_object_deserialize(
 		format, operation, args, &opts));
 	CCS_VALIDATE(_ccs_deserialize_header(
 		format, buffer_size, buffer, &size, &version));
-	CCS_VALIDATE(_ccs_object_deserialize_with_opts(
+	CCS_VALIDATE(_ccs_object_deserialize_or_rollback(
 		object_ret, format, version, buffer_size, buffer, &opts));
 	return CCS_RESULT_SUCCESS;
 }
@@ -947,7 +973,7 @@ _ccs_object_deserialize_file_descriptor(
 	/* decode object */
 	CCS_VALIDATE_ERR_GOTO(
 		res,
-		_ccs_object_deserialize_with_opts(
+		_ccs_object_deserialize_or_rollback(
 			object_ret, format, pstate->version,
 			&pstate->buffer_size, (const char **)&pstate->buffer,
 			&opts),
diff --git a/src/map.c b/src/map.c
index 91f21ae..158453b 100644
--- a/src/map.c
+++ b/src/map.c
@@ -373,3 +373,19 @@ ccs_map_clear(ccs_map_t map)
 	_ccs_map_remove(map->data, current);
 	return CCS_RESULT_SUCCESS;
 }
+
+size_t
+_ccs_map_get_num_entries(ccs_map_t map)
+{
+	return HASH_COUNT(map->data->map);
+}
+
+void
+_ccs_map_truncate(ccs_map_t map, size_t num_entries)
+{
+	size_t            i       = 0;
+	_ccs_map_datum_t *current = NULL, *tmp;
+	HASH_ITER(hh, map->data->map, current, tmp)
+	if (i++ >= num_entries)
+		_ccs_map_remove(map->data, current);
+}
diff --git a/src/map_internal.h b/src/map_internal.h
index a67ff7b..8748377 100644
--- a/src/map_internal.h
+++ b/src/map_internal.h
@@ -14,4 +14,12 @@ struct _ccs_map_s {
 	_ccs_map_data_t       *data;
 };
 
+/* Number of entries of map, they are ordered by insertion. */
+size_t
+_ccs_map_get_num_entries(ccs_map_t map);
+
+/* Removes the entries inserted after the first num_entries. */
+void
+_ccs_map_truncate(ccs_map_t map, size_t num_entries);
+
 #endif //_MAP_INTERNAL_H
-- 
2.43.0


From fcaa2de28483c90be46f7901e7b35360844cade3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:58 +0000
Subject: [PATCH 40/72] fix: sampling an integer normal distribution beyond the
 integer range could never end

---
 src/distribution_normal.c | 144 ++++++++++++--------------------------
 1 file changed, 44 insertions(+), 100 deletions(-)

diff --git a/src/distribution_normal.c b/src/distribution_normal.c
index bc2c3de..c259c97 100644
--- a/src/distribution_normal.c
+++ b/src/distribution_normal.c
@@ -280,23 +280,26 @@ _ccs_distribution_normal_samples_float(
 	return CCS_RESULT_SUCCESS;
 }
 
-/* Whether the quantized sample can be represented and is in the bounds. */
-static inline int
-_ccs_normal_int_representable(
+/* The closest multiple of the quantization inside of the bounds. */
+static inline ccs_int_t
+_ccs_normal_to_int(
 	ccs_float_t            value,
 	const ccs_scale_type_t scale_type,
 	const ccs_int_t        quantization,
 	const int              quantize)
 {
-	const ccs_int_t   q = quantize ? quantization : 1;
+	const ccs_int_t   q    = quantize ? quantization : 1;
+	const ccs_int_t   kmax = CCS_INT_MAX / q;
+	const ccs_int_t   kmin = scale_type == CCS_SCALE_TYPE_LOGARITHMIC ?
+					 1 :
+					 CCS_INT_MIN / q;
 	const ccs_float_t k =
 		round(quantize ? value * (1.0 / quantization) : value);
-	if (!(k >= -0x1p63 && k < 0x1p63))
-		return 0;
-	return (ccs_int_t)k <= CCS_INT_MAX / q &&
-	       (ccs_int_t)k >= (scale_type == CCS_SCALE_TYPE_LOGARITHMIC ?
-					1 :
-					CCS_INT_MIN / q);
+	if (!(k < (ccs_float_t)kmax))
+		return kmax * q;
+	if (!(k > (ccs_float_t)kmin))
+		return kmin * q;
+	return (ccs_int_t)k * q;
 }
 
 static inline ccs_result_t
@@ -310,58 +313,30 @@ _ccs_distribution_normal_samples_int(
 	size_t                 num_values,
 	ccs_numeric_t         *values)
 {
-	size_t      i;
-	ccs_float_t q;
-	if (quantize)
-		q = quantization * 0.5;
-	else
-		q = 0.5;
+	size_t i;
 	if (scale_type == CCS_SCALE_TYPE_LOGARITHMIC) {
-		ccs_float_t lq = log(q);
+		ccs_float_t lq = log((quantize ? quantization : 1) * 0.5);
 		if (mu - lq >= 0.0)
-			for (i = 0; i < num_values; i++)
-				do {
-					do {
-						values[i].f =
-							gsl_ran_gaussian(
-								grng, sigma) +
-							mu;
-					} while (values[i].f < lq);
-					values[i].f = exp(values[i].f);
-				} while (CCS_UNLIKELY(
-					!_ccs_normal_int_representable(
-						values[i].f, scale_type,
-						quantization, quantize)));
-		else
-			for (i = 0; i < num_values; i++)
+			for (i = 0; i < num_values; i++) {
 				do {
 					values[i].f =
-						gsl_ran_gaussian_tail(
-							grng, lq - mu, sigma) +
+						gsl_ran_gaussian(grng, sigma) +
 						mu;
-					values[i].f = exp(values[i].f);
-				} while (CCS_UNLIKELY(
-					!_ccs_normal_int_representable(
-						values[i].f, scale_type,
-						quantization, quantize)));
-	} else
-		for (i = 0; i < num_values; i++)
-			do {
+				} while (values[i].f < lq);
+				values[i].f = exp(values[i].f);
+			}
+		else
+			for (i = 0; i < num_values; i++)
 				values[i].f =
-					gsl_ran_gaussian(grng, sigma) + mu;
-			} while (CCS_UNLIKELY(
-					!_ccs_normal_int_representable(
-						values[i].f, scale_type,
-						quantization, quantize)));
-	if (quantize) {
-		ccs_float_t rquantization = 1.0 / quantization;
-		for (i = 0; i < num_values; i++)
-			values[i].i =
-				(ccs_int_t)round(values[i].f * rquantization) *
-				quantization;
+					exp(gsl_ran_gaussian_tail(
+						    grng, lq - mu, sigma) +
+					    mu);
 	} else
 		for (i = 0; i < num_values; i++)
-			values[i].i = round(values[i].f);
+			values[i].f = gsl_ran_gaussian(grng, sigma) + mu;
+	for (i = 0; i < num_values; i++)
+		values[i].i = _ccs_normal_to_int(
+			values[i].f, scale_type, quantization, quantize);
 	return CCS_RESULT_SUCCESS;
 }
 
@@ -451,61 +426,30 @@ _ccs_distribution_normal_strided_samples_int(
 	size_t                 stride,
 	ccs_numeric_t         *values)
 {
-	size_t      i;
-	ccs_float_t q;
-	if (quantize)
-		q = quantization * 0.5;
-	else
-		q = 0.5;
+	size_t i;
 	if (scale_type == CCS_SCALE_TYPE_LOGARITHMIC) {
-		ccs_float_t lq = log(q);
+		ccs_float_t lq = log((quantize ? quantization : 1) * 0.5);
 		if (mu - lq >= 0.0)
-			for (i = 0; i < num_values; i++)
+			for (i = 0; i < num_values; i++) {
 				do {
-					do {
-						values[i * stride].f =
-							gsl_ran_gaussian(
-								grng, sigma) +
-							mu;
-					} while (values[i * stride].f < lq);
 					values[i * stride].f =
-						exp(values[i * stride].f);
-				} while (CCS_UNLIKELY(
-					!_ccs_normal_int_representable(
-						values[i * stride].f, scale_type,
-						quantization, quantize)));
+						gsl_ran_gaussian(grng, sigma) +
+						mu;
+				} while (values[i * stride].f < lq);
+				values[i * stride].f = exp(values[i * stride].f);
+			}
 		else
 			for (i = 0; i < num_values; i++)
-				do {
-					values[i * stride].f =
-						gsl_ran_gaussian_tail(
-							grng, lq - mu, sigma) +
-						mu;
-					values[i * stride].f =
-						exp(values[i * stride].f);
-				} while (CCS_UNLIKELY(
-					!_ccs_normal_int_representable(
-						values[i * stride].f, scale_type,
-						quantization, quantize)));
-	} else
-		for (i = 0; i < num_values; i++)
-			do {
 				values[i * stride].f =
-					gsl_ran_gaussian(grng, sigma) + mu;
-			} while (CCS_UNLIKELY(
-					!_ccs_normal_int_representable(
-						values[i * stride].f, scale_type,
-						quantization, quantize)));
-	if (quantize) {
-		ccs_float_t rquantization = 1.0 / quantization;
-		for (i = 0; i < num_values; i++)
-			values[i * stride].i =
-				(ccs_int_t)round(
-					values[i * stride].f * rquantization) *
-				quantization;
+					exp(gsl_ran_gaussian_tail(
+						    grng, lq - mu, sigma) +
+					    mu);
 	} else
 		for (i = 0; i < num_values; i++)
-			values[i * stride].i = round(values[i * stride].f);
+			values[i * stride].f = gsl_ran_gaussian(grng, sigma) + mu;
+	for (i = 0; i < num_values; i++)
+		values[i * stride].i = _ccs_normal_to_int(
+			values[i * stride].f, scale_type, quantization, quantize);
 	return CCS_RESULT_SUCCESS;
 }
 
-- 
2.43.0


From e019a57e40e972383c6eb371a864e1d163983487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:20 +0000
Subject: [PATCH 41/72] fix: sampling a log-normal distribution far below its
 bound never ended

---
 src/distribution_normal.c | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/distribution_normal.c b/src/distribution_normal.c
index c259c97..5467a18 100644
--- a/src/distribution_normal.c
+++ b/src/distribution_normal.c
@@ -237,6 +237,17 @@ _ccs_distribution_normal_get_bounds(
 	return CCS_RESULT_SUCCESS;
 }
 
+/* gsl_ran_gaussian_tail never returns when (a / sigma)^2 overflows, the tail is
+ * then concentrated on a. */
+static inline ccs_float_t
+_ccs_gaussian_tail(gsl_rng *grng, const ccs_float_t a, const ccs_float_t sigma)
+{
+	const ccs_float_t s = a / sigma;
+	if (CCS_UNLIKELY(!isfinite(s * s)))
+		return a;
+	return gsl_ran_gaussian_tail(grng, a, sigma);
+}
+
 static inline ccs_result_t
 _ccs_distribution_normal_samples_float(
 	gsl_rng               *grng,
@@ -262,7 +273,7 @@ _ccs_distribution_normal_samples_float(
 		else
 			// use tail distribution
 			for (i = 0; i < num_values; i++)
-				values[i] = gsl_ran_gaussian_tail(
+				values[i] = _ccs_gaussian_tail(
 						    grng, lq - mu, sigma) +
 					    mu;
 	} else
@@ -328,7 +339,7 @@ _ccs_distribution_normal_samples_int(
 		else
 			for (i = 0; i < num_values; i++)
 				values[i].f =
-					exp(gsl_ran_gaussian_tail(
+					exp(_ccs_gaussian_tail(
 						    grng, lq - mu, sigma) +
 					    mu);
 	} else
@@ -395,7 +406,7 @@ _ccs_distribution_normal_strided_samples_float(
 			// use tail distribution
 			for (i = 0; i < num_values; i++)
 				values[i * stride] =
-					gsl_ran_gaussian_tail(
+					_ccs_gaussian_tail(
 						grng, lq - mu, sigma) +
 					mu;
 	} else
@@ -441,7 +452,7 @@ _ccs_distribution_normal_strided_samples_int(
 		else
 			for (i = 0; i < num_values; i++)
 				values[i * stride].f =
-					exp(gsl_ran_gaussian_tail(
+					exp(_ccs_gaussian_tail(
 						    grng, lq - mu, sigma) +
 					    mu);
 	} else
-- 
2.43.0


From 3d6bf47625af3d7e600db5f4a7acc05bceb65d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:03 +0000
Subject: [PATCH 42/72] fix: quantized log-normal samples could round below the
 lower bound

---
 src/distribution_normal.c | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/distribution_normal.c b/src/distribution_normal.c
index 5467a18..13e70c0 100644
--- a/src/distribution_normal.c
+++ b/src/distribution_normal.c
@@ -284,9 +284,12 @@ _ccs_distribution_normal_samples_float(
 			values[i] = exp(values[i]);
 	if (quantize) {
 		ccs_float_t rquantization = 1.0 / quantization;
-		for (i = 0; i < num_values; i++)
-			values[i] =
-				round(values[i] * rquantization) * quantization;
+		for (i = 0; i < num_values; i++) {
+			ccs_float_t k = round(values[i] * rquantization);
+			if (scale_type == CCS_SCALE_TYPE_LOGARITHMIC && k < 1.0)
+				k = 1.0;
+			values[i] = k * quantization;
+		}
 	}
 	return CCS_RESULT_SUCCESS;
 }
@@ -417,10 +420,12 @@ _ccs_distribution_normal_strided_samples_float(
 			values[i * stride] = exp(values[i * stride]);
 	if (quantize) {
 		ccs_float_t rquantization = 1.0 / quantization;
-		for (i = 0; i < num_values; i++)
-			values[i * stride] =
-				round(values[i * stride] * rquantization) *
-				quantization;
+		for (i = 0; i < num_values; i++) {
+			ccs_float_t k = round(values[i * stride] * rquantization);
+			if (scale_type == CCS_SCALE_TYPE_LOGARITHMIC && k < 1.0)
+				k = 1.0;
+			values[i * stride] = k * quantization;
+		}
 	}
 	return CCS_RESULT_SUCCESS;
 }
-- 
2.43.0


From 087fd349ec62c89f17cbce23f546b4a0aa6b4129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:19 +0000
Subject: [PATCH 43/72] fix: a failed batch of tree space samples leaked the
 configurations already created

---
 src/tree_space.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/tree_space.c b/src/tree_space.c
index c835e1b..15a59dc 100644
--- a/src/tree_space.c
+++ b/src/tree_space.c
@@ -150,8 +150,9 @@ _ccs_tree_space_samples(
 	ccs_rng_t    rng = data->rng;
 	ccs_result_t err = CCS_RESULT_SUCCESS;
 	UT_array    *arr = NULL;
+	size_t       i   = 0;
 	utarray_new(arr, &_size_t_icd);
-	for (size_t i = 0; i < num_configurations; i++) {
+	for (; i < num_configurations; i++) {
 		size_t     index;
 		ccs_tree_t tree = data->tree;
 		if (tree) {
@@ -181,6 +182,11 @@ _ccs_tree_space_samples(
 		utarray_clear(arr);
 	}
 err_arr:
+	if (err)
+		while (i > 0) {
+			ccs_release_object(configurations[--i]);
+			configurations[i] = NULL;
+		}
 	if (arr)
 		utarray_free(arr);
 	return err;
-- 
2.43.0


From 80b563bfa504ab4b4f944dbc3d230279a9e7f5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:53 +0000
Subject: [PATCH 44/72] fix: calls on bindings and contexts did not check the
 type of the object given

---
 src/binding.c | 19 ++++++++++++++++++-
 src/context.c | 17 ++++++++++++++++-
 2 files changed, 34 insertions(+), 2 deletions(-)

diff --git a/src/binding.c b/src/binding.c
index 6c2f705..f107759 100644
--- a/src/binding.c
+++ b/src/binding.c
@@ -1,9 +1,26 @@
 #include "cconfigspace_internal.h"
 #include "binding_internal.h"
 
+static inline int
+_ccs_binding_is_valid(ccs_binding_t binding)
+{
+	if (CCS_UNLIKELY(!binding || !binding->data))
+		return 0;
+	switch (binding->obj.type) {
+	case CCS_OBJECT_TYPE_CONFIGURATION:
+	case CCS_OBJECT_TYPE_FEATURES:
+	case CCS_OBJECT_TYPE_EVALUATION:
+	case CCS_OBJECT_TYPE_FEATURES_EVALUATION:
+	case CCS_OBJECT_TYPE_TREE_EVALUATION:
+		return 1;
+	default:
+		return 0;
+	}
+}
+
 #define CCS_CHECK_BINDING(b)                                                   \
 	CCS_REFUTE_MSG(                                                        \
-		CCS_UNLIKELY(!(b) || !(b)->data),                              \
+		CCS_UNLIKELY(!_ccs_binding_is_valid(b)),                       \
 		CCS_RESULT_ERROR_INVALID_OBJECT,                               \
 		"Invalid CCS binding '%s' == %p supplied", #b, b)
 
diff --git a/src/context.c b/src/context.c
index 4c8db37..3abcf29 100644
--- a/src/context.c
+++ b/src/context.c
@@ -1,9 +1,24 @@
 #include "cconfigspace_internal.h"
 #include "context_internal.h"
 
+static inline int
+_ccs_context_is_valid(ccs_context_t context)
+{
+	if (CCS_UNLIKELY(!context || !context->data))
+		return 0;
+	switch (context->obj.type) {
+	case CCS_OBJECT_TYPE_CONFIGURATION_SPACE:
+	case CCS_OBJECT_TYPE_OBJECTIVE_SPACE:
+	case CCS_OBJECT_TYPE_FEATURES_SPACE:
+		return 1;
+	default:
+		return 0;
+	}
+}
+
 #define CCS_CHECK_CONTEXT(c)                                                   \
 	CCS_REFUTE_MSG(                                                        \
-		CCS_UNLIKELY(!(c) || !(c)->data),                              \
+		CCS_UNLIKELY(!_ccs_context_is_valid(c)),                       \
 		CCS_RESULT_ERROR_INVALID_OBJECT,                               \
 		"Invalid CCS context '%s' == %p supplied", #c, c)
 
-- 
2.43.0


From d9014c6a778396d379a00b5d4af2069aaa19c302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:01 +0000
Subject: [PATCH 45/72] fix: a NULL result pointer crashed validity checks,
 evaluation hashes and ccs_rng_get_type

---
 src/evaluation.c          | 1 +
 src/features_evaluation.c | 1 +
 src/features_space.c      | 1 +
 src/objective_space.c     | 1 +
 src/rng.c                 | 1 +
 src/tree_evaluation.c     | 1 +
 6 files changed, 6 insertions(+)

diff --git a/src/evaluation.c b/src/evaluation.c
index 4201894..5872f58 100644
--- a/src/evaluation.c
+++ b/src/evaluation.c
@@ -126,6 +126,7 @@ _ccs_evaluation_serialize(
 static ccs_result_t
 _ccs_evaluation_hash(_ccs_evaluation_data_t *data, ccs_hash_t *hash_ret)
 {
+	CCS_CHECK_PTR(hash_ret);
 	ccs_hash_t h, ht;
 	CCS_VALIDATE(_ccs_binding_hash((_ccs_binding_data_t *)data, &h));
 	CCS_VALIDATE(ccs_configuration_hash(data->configuration, &ht));
diff --git a/src/features_evaluation.c b/src/features_evaluation.c
index e64b786..e297cde 100644
--- a/src/features_evaluation.c
+++ b/src/features_evaluation.c
@@ -138,6 +138,7 @@ _ccs_features_evaluation_hash(
 	_ccs_features_evaluation_data_t *data,
 	ccs_hash_t                      *hash_ret)
 {
+	CCS_CHECK_PTR(hash_ret);
 	ccs_hash_t h, ht;
 	CCS_VALIDATE(_ccs_binding_hash((_ccs_binding_data_t *)data, &h));
 	CCS_VALIDATE(ccs_configuration_hash(data->configuration, &ht));
diff --git a/src/features_space.c b/src/features_space.c
index fa906d8..418fc58 100644
--- a/src/features_space.c
+++ b/src/features_space.c
@@ -325,6 +325,7 @@ _check_features(
 	ccs_datum_t         *values,
 	ccs_bool_t          *is_valid_ret)
 {
+	CCS_CHECK_PTR(is_valid_ret);
 	UT_array *array          = features_space->data->parameters;
 	size_t    num_parameters = utarray_len(array);
 	CCS_REFUTE(
diff --git a/src/objective_space.c b/src/objective_space.c
index 1839076..ff6de24 100644
--- a/src/objective_space.c
+++ b/src/objective_space.c
@@ -440,6 +440,7 @@ _check_evaluation(
 	ccs_datum_t          *values,
 	ccs_bool_t           *is_valid_ret)
 {
+	CCS_CHECK_PTR(is_valid_ret);
 	UT_array *array          = objective_space->data->parameters;
 	size_t    num_parameters = utarray_len(array);
 	CCS_REFUTE(
diff --git a/src/rng.c b/src/rng.c
index c710ee0..25e8f12 100644
--- a/src/rng.c
+++ b/src/rng.c
@@ -138,6 +138,7 @@ ccs_result_t
 ccs_rng_get_type(ccs_rng_t rng, const gsl_rng_type **rng_type_ret)
 {
 	CCS_CHECK_OBJ(rng, CCS_OBJECT_TYPE_RNG);
+	CCS_CHECK_PTR(rng_type_ret);
 	*rng_type_ret = rng->data->rng_type;
 	return CCS_RESULT_SUCCESS;
 }
diff --git a/src/tree_evaluation.c b/src/tree_evaluation.c
index 614e32b..991c670 100644
--- a/src/tree_evaluation.c
+++ b/src/tree_evaluation.c
@@ -129,6 +129,7 @@ _ccs_tree_evaluation_hash(
 	_ccs_tree_evaluation_data_t *data,
 	ccs_hash_t                  *hash_ret)
 {
+	CCS_CHECK_PTR(hash_ret);
 	ccs_hash_t h, ht;
 	CCS_VALIDATE(_ccs_binding_hash((_ccs_binding_data_t *)data, &h));
 	CCS_VALIDATE(ccs_tree_configuration_hash(data->configuration, &ht));
-- 
2.43.0


From 36ce223ddb97eb3164e3f6d39d4f99f62d8a4b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:08 +0000
Subject: [PATCH 46/72] fix: comparing bindings of different kinds read one
 kind's data as the other's

---
 src/binding.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/binding.c b/src/binding.c
index f107759..56976f4 100644
--- a/src/binding.c
+++ b/src/binding.c
@@ -146,6 +146,11 @@ ccs_binding_cmp(ccs_binding_t binding, ccs_binding_t other_binding, int *cmp_ret
 		*cmp_ret = 0;
 		return CCS_RESULT_SUCCESS;
 	}
+	/* the comparison below only holds between bindings of the same kind */
+	if (binding->obj.type != other_binding->obj.type) {
+		*cmp_ret = binding->obj.type < other_binding->obj.type ? -1 : 1;
+		return CCS_RESULT_SUCCESS;
+	}
 	_ccs_binding_ops_t *ops = ccs_binding_get_ops(binding);
 	CCS_VALIDATE(ops->cmp(binding->data, other_binding, cmp_ret));
 	return CCS_RESULT_SUCCESS;
-- 
2.43.0


From 311e822bfbb4be2ef98794813cff621864b458cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:04 +0000
Subject: [PATCH 47/72] fix: adding a parameter to a space left dangling
 references when an allocation failed

The hash entry was freed while still linked in the name index, the array
of parameters kept the parameter when an index could not grow, and the
parent and child arrays were read before being initialised.
---
 src/configuration_space.c | 20 ++++++++++++--------
 src/features_space.c      | 12 ++++++++----
 src/objective_space.c     | 12 ++++++++----
 3 files changed, 28 insertions(+), 16 deletions(-)

diff --git a/src/configuration_space.c b/src/configuration_space.c
index a50c083..9beba7b 100644
--- a/src/configuration_space.c
+++ b/src/configuration_space.c
@@ -423,7 +423,7 @@ ccs_configuration_space_get_rng(
 #define uthash_nonfatal_oom(elt)                                               \
 	{                                                                      \
 		CCS_RAISE_ERR_GOTO(                                            \
-			err, CCS_RESULT_ERROR_OUT_OF_MEMORY, errorutarray,     \
+			err, CCS_RESULT_ERROR_OUT_OF_MEMORY, errorhash,        \
 			"Out of memory to allocate hash");                     \
 	}
 ccs_result_t
@@ -461,6 +461,8 @@ ccs_configuration_space_add_parameter(
 	_ccs_distribution_wrapper_t *distrib_wrapper;
 	uintptr_t                    pmem;
 	parameter_wrapper.parameter = parameter;
+	parameter_wrapper.parents   = NULL;
+	parameter_wrapper.children  = NULL;
 	CCS_VALIDATE(ccs_retain_object(parameter));
 
 	if (distribution) {
@@ -507,13 +509,10 @@ ccs_configuration_space_add_parameter(
 	parameter_wrapper.distribution_index  = 0;
 	parameter_wrapper.distribution        = distrib_wrapper;
 	parameter_wrapper.condition           = NULL;
-	parameter_wrapper.parents             = NULL;
-	parameter_wrapper.children            = NULL;
 	utarray_new(parameter_wrapper.parents, &_size_t_icd);
 	utarray_new(parameter_wrapper.children, &_size_t_icd);
-
-	utarray_push_back(parameters, &parameter_wrapper);
-	utarray_push_back(configuration_space->data->sorted_indexes, &index);
+	utarray_reserve(parameters, 1);
+	utarray_reserve(configuration_space->data->sorted_indexes, 1);
 
 	HASH_ADD_KEYPTR(
 		hh_name, configuration_space->data->name_hash,
@@ -521,12 +520,17 @@ ccs_configuration_space_add_parameter(
 	HASH_ADD(
 		hh_handle, configuration_space->data->handle_hash, parameter,
 		sizeof(ccs_parameter_t), parameter_hash);
+	utarray_push_back(parameters, &parameter_wrapper);
+	utarray_push_back(configuration_space->data->sorted_indexes, &index);
 	DL_APPEND(
 		configuration_space->data->distribution_list, distrib_wrapper);
 
 	return CCS_RESULT_SUCCESS;
-errorutarray:
-	utarray_pop_back(parameters);
+errorhash:
+	if (parameter_hash->hh_name.tbl)
+		HASH_DELETE(
+			hh_name, configuration_space->data->name_hash,
+			parameter_hash);
 errordistrib_wrapper:
 	if (parameter_hash)
 		free(parameter_hash);
diff --git a/src/features_space.c b/src/features_space.c
index 418fc58..9208038 100644
--- a/src/features_space.c
+++ b/src/features_space.c
@@ -144,7 +144,7 @@ ccs_features_space_get_name(
 #define uthash_nonfatal_oom(elt)                                               \
 	{                                                                      \
 		CCS_RAISE_ERR_GOTO(                                            \
-			err, CCS_RESULT_ERROR_OUT_OF_MEMORY, errorutarray,     \
+			err, CCS_RESULT_ERROR_OUT_OF_MEMORY, errorhash,        \
 			"Not enough memory to allocate hash");                 \
 	}
 ccs_result_t
@@ -182,7 +182,7 @@ ccs_features_space_add_parameter(
 	parameter_hash->name      = name;
 	parameter_hash->index     = utarray_len(parameters);
 
-	utarray_push_back(parameters, &parameter_wrapper);
+	utarray_reserve(parameters, 1);
 
 	HASH_ADD_KEYPTR(
 		hh_name, features_space->data->name_hash, parameter_hash->name,
@@ -190,10 +190,14 @@ ccs_features_space_add_parameter(
 	HASH_ADD(
 		hh_handle, features_space->data->handle_hash, parameter,
 		sizeof(ccs_parameter_t), parameter_hash);
+	utarray_push_back(parameters, &parameter_wrapper);
 
 	return CCS_RESULT_SUCCESS;
-errorutarray:
-	utarray_pop_back(parameters);
+errorhash:
+	if (parameter_hash->hh_name.tbl)
+		HASH_DELETE(
+			hh_name, features_space->data->name_hash,
+			parameter_hash);
 errormem:
 	free(parameter_hash);
 errorparameter:
diff --git a/src/objective_space.c b/src/objective_space.c
index ff6de24..46ec102 100644
--- a/src/objective_space.c
+++ b/src/objective_space.c
@@ -271,7 +271,7 @@ ccs_objective_space_get_name(
 #define uthash_nonfatal_oom(elt)                                               \
 	{                                                                      \
 		CCS_RAISE_ERR_GOTO(                                            \
-			err, CCS_RESULT_ERROR_OUT_OF_MEMORY, errorutarray,     \
+			err, CCS_RESULT_ERROR_OUT_OF_MEMORY, errorhash,        \
 			"Not enough memory to allocate hash");                 \
 	}
 ccs_result_t
@@ -310,7 +310,7 @@ ccs_objective_space_add_parameter(
 	parameter_hash->name      = name;
 	parameter_hash->index     = utarray_len(parameters);
 
-	utarray_push_back(parameters, &parameter_wrapper);
+	utarray_reserve(parameters, 1);
 
 	HASH_ADD_KEYPTR(
 		hh_name, objective_space->data->name_hash, parameter_hash->name,
@@ -318,10 +318,14 @@ ccs_objective_space_add_parameter(
 	HASH_ADD(
 		hh_handle, objective_space->data->handle_hash, parameter,
 		sizeof(ccs_parameter_t), parameter_hash);
+	utarray_push_back(parameters, &parameter_wrapper);
 
 	return CCS_RESULT_SUCCESS;
-errorutarray:
-	utarray_pop_back(parameters);
+errorhash:
+	if (parameter_hash->hh_name.tbl)
+		HASH_DELETE(
+			hh_name, objective_space->data->name_hash,
+			parameter_hash);
 errormem:
 	free(parameter_hash);
 errorparameter:
-- 
2.43.0


From bd9a07115bc6d32bf0c71e32bab9616853aecf3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:13 +0000
Subject: [PATCH 48/72] fix: a failing allocation while setting a destroy
 callback ended the process

---
 src/cconfigspace.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/cconfigspace.c b/src/cconfigspace.c
index 05b9f27..d887f21 100644
--- a/src/cconfigspace.c
+++ b/src/cconfigspace.c
@@ -94,6 +94,13 @@ ccs_object_get_refcount(ccs_object_t object, int32_t *refcount_ret)
 static const UT_icd _object_callback_icd = {
 	sizeof(_ccs_object_callback_t), NULL, NULL, NULL};
 
+#undef utarray_oom
+#define utarray_oom()                                                          \
+	{                                                                      \
+		CCS_RAISE(                                                     \
+			CCS_RESULT_ERROR_OUT_OF_MEMORY,                        \
+			"Not enough memory to allocate array");                \
+	}
 ccs_result_t
 ccs_object_set_destroy_callback(
 	ccs_object_t                  object,
@@ -109,6 +116,8 @@ ccs_object_set_destroy_callback(
 	utarray_push_back(obj->callbacks, &cb);
 	return CCS_RESULT_SUCCESS;
 }
+#undef utarray_oom
+#define utarray_oom() exit(-1)
 
 ccs_result_t
 ccs_object_set_user_data(ccs_object_t object, void *user_data)
-- 
2.43.0


From ab83603449f3ba730fa7b35f5f4ffc71f8cfe261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:50 +0000
Subject: [PATCH 49/72] fix: failing allocations lost map entries and
 references

A value being replaced in a map was lost when the new entry could not be
indexed, and references taken on clauses, objectives and stored strings
were lost when the array or index holding them could not grow.
---
 src/configuration_space.c | 1 +
 src/map.c                 | 2 +-
 src/objective_space.c     | 2 ++
 src/parameter_string.c    | 1 +
 4 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/configuration_space.c b/src/configuration_space.c
index 9beba7b..d62a367 100644
--- a/src/configuration_space.c
+++ b/src/configuration_space.c
@@ -1423,6 +1423,7 @@ ccs_configuration_space_add_forbidden_clause(
 		CCS_RAISE_ERR_GOTO(
 			err, CCS_RESULT_ERROR_INVALID_CONFIGURATION, end,
 			"Default configuration is invalid");
+	utarray_reserve(configuration_space->data->forbidden_clauses, 1);
 	CCS_VALIDATE_ERR_GOTO(err, ccs_retain_object(expression), end);
 	utarray_push_back(
 		configuration_space->data->forbidden_clauses, &expression);
diff --git a/src/map.c b/src/map.c
index 158453b..25633f6 100644
--- a/src/map.c
+++ b/src/map.c
@@ -223,9 +223,9 @@ ccs_map_set(ccs_map_t map, ccs_datum_t key, ccs_datum_t value)
 	_ccs_map_set_string(&entry->key, sz1, &mem);
 	_ccs_map_set_string(&entry->value, sz2, &mem);
 
+	HASH_ADD(hh, d->map, key, sizeof(ccs_datum_t), entry);
 	if (old_entry)
 		_ccs_map_remove(d, old_entry);
-	HASH_ADD(hh, d->map, key, sizeof(ccs_datum_t), entry);
 	return CCS_RESULT_SUCCESS;
 err_mem:
 	free(entry);
diff --git a/src/objective_space.c b/src/objective_space.c
index 46ec102..c88e5d1 100644
--- a/src/objective_space.c
+++ b/src/objective_space.c
@@ -505,6 +505,7 @@ ccs_objective_space_add_objective(
 	CCS_CHECK_OBJ(objective_space, CCS_OBJECT_TYPE_OBJECTIVE_SPACE);
 	CCS_VALIDATE(ccs_expression_check_context(
 		expression, (ccs_context_t)objective_space));
+	utarray_reserve(objective_space->data->objectives, 1);
 	CCS_VALIDATE(ccs_retain_object(expression));
 	_ccs_objective_t objective;
 	objective.expression = expression;
@@ -526,6 +527,7 @@ ccs_objective_space_add_objectives(
 	for (size_t i = 0; i < num_objectives; i++) {
 		CCS_VALIDATE(ccs_expression_check_context(
 			expressions[i], (ccs_context_t)objective_space));
+		utarray_reserve(objective_space->data->objectives, 1);
 		CCS_VALIDATE(ccs_retain_object(expressions[i]));
 		_ccs_objective_t objective;
 		objective.expression = expressions[i];
diff --git a/src/parameter_string.c b/src/parameter_string.c
index e45990b..2363ea5 100644
--- a/src/parameter_string.c
+++ b/src/parameter_string.c
@@ -117,6 +117,7 @@ _ccs_parameter_string_serialize(
 #undef uthash_nonfatal_oom
 #define uthash_nonfatal_oom(elt)                                               \
 	{                                                                      \
+		free(elt);                                                     \
 		CCS_RAISE(                                                     \
 			CCS_RESULT_ERROR_OUT_OF_MEMORY,                        \
 			"Not enough memory to allocate array");                \
-- 
2.43.0


From 02d04dde8be48bd9d9bb30d14f44d1b3b830ae62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:13 +0000
Subject: [PATCH 50/72] fix: first deserializations of generators by several
 threads raced

The table of generator types was looked up lazily without
synchronization; do it in ccs_init.
---
 src/cconfigspace.c    | 4 ++++
 src/rng_deserialize.h | 3 ++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/cconfigspace.c b/src/cconfigspace.c
index d887f21..8e3e95f 100644
--- a/src/cconfigspace.c
+++ b/src/cconfigspace.c
@@ -16,10 +16,14 @@ const ccs_version_t ccs_version  = {
         CCS_VERSION_REVISION, CCS_VERSION_PATCH, CCS_VERSION_MINOR,
         CCS_VERSION_MAJOR};
 
+/* looked up once here rather than by the first threads that need it */
+static const gsl_rng_type **_ccs_gsl_rng_types = NULL;
+
 ccs_result_t
 ccs_init()
 {
 	gsl_rng_env_setup();
+	_ccs_gsl_rng_types = gsl_rng_types_setup();
 	return CCS_RESULT_SUCCESS;
 }
 
diff --git a/src/rng_deserialize.h b/src/rng_deserialize.h
index 8ecd41d..f29f42e 100644
--- a/src/rng_deserialize.h
+++ b/src/rng_deserialize.h
@@ -3,7 +3,8 @@
 #include "cconfigspace_internal.h"
 #include "rng_internal.h"
 
-static const gsl_rng_type **_ccs_gsl_rng_types = NULL;
+/* set by ccs_init */
+static const gsl_rng_type **_ccs_gsl_rng_types;
 
 static inline ccs_result_t
 _ccs_deserialize_bin_rng(
-- 
2.43.0


From d95b1daa5e9ee1ed92e8f95a2e0dcb963f17e70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:00 +0000
Subject: [PATCH 51/72] fix: objectives of evaluations older than their space's
 parameters read out of bounds

---
 src/binding_internal.h    | 11 +++++++++++
 src/evaluation.c          | 12 ++++++++++++
 src/features_evaluation.c | 12 ++++++++++++
 src/tree_evaluation.c     | 12 ++++++++++++
 4 files changed, 47 insertions(+)

diff --git a/src/binding_internal.h b/src/binding_internal.h
index 55201bd..3c6ecc2 100644
--- a/src/binding_internal.h
+++ b/src/binding_internal.h
@@ -35,6 +35,17 @@ _ccs_binding_get_context(ccs_binding_t binding, ccs_context_t *context_ret)
 	return CCS_RESULT_SUCCESS;
 }
 
+// parameters added to a context have no value in the bindings that precede them
+static inline ccs_result_t
+_ccs_binding_check_num_values(ccs_binding_t binding, ccs_result_t error)
+{
+	size_t num_parameters;
+	CCS_VALIDATE(ccs_context_get_num_parameters(
+		binding->data->context, &num_parameters));
+	CCS_REFUTE(binding->data->num_values != num_parameters, error);
+	return CCS_RESULT_SUCCESS;
+}
+
 static inline ccs_result_t
 _ccs_binding_get_value(
 	ccs_binding_t binding,
diff --git a/src/evaluation.c b/src/evaluation.c
index 5872f58..5c56fcd 100644
--- a/src/evaluation.c
+++ b/src/evaluation.c
@@ -340,6 +340,9 @@ ccs_evaluation_get_objective_value(
 	ccs_objective_type_t type;
 	CCS_VALIDATE(ccs_objective_space_get_objective(
 		evaluation->data->objective_space, index, &expression, &type));
+	CCS_VALIDATE(_ccs_binding_check_num_values(
+		(ccs_binding_t)evaluation,
+		CCS_RESULT_ERROR_INVALID_EVALUATION));
 	CCS_VALIDATE(ccs_expression_eval(
 		expression, (ccs_context_t)evaluation->data->objective_space,
 		evaluation->data->values, value_ret));
@@ -361,6 +364,9 @@ ccs_evaluation_get_objective_values(
 		evaluation->data->objective_space, 0, NULL, NULL, &count));
 	if (values) {
 		CCS_REFUTE(num_values < count, CCS_RESULT_ERROR_INVALID_VALUE);
+		CCS_VALIDATE(_ccs_binding_check_num_values(
+			(ccs_binding_t)evaluation,
+			CCS_RESULT_ERROR_INVALID_EVALUATION));
 		for (size_t i = 0; i < count; i++) {
 			ccs_expression_t     expression;
 			ccs_objective_type_t type;
@@ -443,6 +449,12 @@ ccs_evaluation_compare(
 		evaluation->data->objective_space !=
 			other_evaluation->data->objective_space,
 		CCS_RESULT_ERROR_INVALID_OBJECT);
+	CCS_VALIDATE(_ccs_binding_check_num_values(
+		(ccs_binding_t)evaluation,
+		CCS_RESULT_ERROR_INVALID_EVALUATION));
+	CCS_VALIDATE(_ccs_binding_check_num_values(
+		(ccs_binding_t)other_evaluation,
+		CCS_RESULT_ERROR_INVALID_EVALUATION));
 	size_t count;
 	CCS_VALIDATE(ccs_objective_space_get_objectives(
 		evaluation->data->objective_space, 0, NULL, NULL, &count));
diff --git a/src/features_evaluation.c b/src/features_evaluation.c
index e297cde..58599dc 100644
--- a/src/features_evaluation.c
+++ b/src/features_evaluation.c
@@ -383,6 +383,9 @@ ccs_features_evaluation_get_objective_value(
 	ccs_objective_type_t type;
 	CCS_VALIDATE(ccs_objective_space_get_objective(
 		evaluation->data->objective_space, index, &expression, &type));
+	CCS_VALIDATE(_ccs_binding_check_num_values(
+		(ccs_binding_t)evaluation,
+		CCS_RESULT_ERROR_INVALID_EVALUATION));
 	CCS_VALIDATE(ccs_expression_eval(
 		expression, (ccs_context_t)evaluation->data->objective_space,
 		evaluation->data->values, value_ret));
@@ -404,6 +407,9 @@ ccs_features_evaluation_get_objective_values(
 		evaluation->data->objective_space, 0, NULL, NULL, &count));
 	if (values) {
 		CCS_REFUTE(num_values < count, CCS_RESULT_ERROR_INVALID_VALUE);
+		CCS_VALIDATE(_ccs_binding_check_num_values(
+			(ccs_binding_t)evaluation,
+			CCS_RESULT_ERROR_INVALID_EVALUATION));
 		for (size_t i = 0; i < count; i++) {
 			ccs_expression_t     expression;
 			ccs_objective_type_t type;
@@ -490,6 +496,12 @@ ccs_features_evaluation_compare(
 		evaluation->data->objective_space !=
 			other_evaluation->data->objective_space,
 		CCS_RESULT_ERROR_INVALID_OBJECT);
+	CCS_VALIDATE(_ccs_binding_check_num_values(
+		(ccs_binding_t)evaluation,
+		CCS_RESULT_ERROR_INVALID_EVALUATION));
+	CCS_VALIDATE(_ccs_binding_check_num_values(
+		(ccs_binding_t)other_evaluation,
+		CCS_RESULT_ERROR_INVALID_EVALUATION));
 	size_t count;
 	int    eql;
 	CCS_VALIDATE(ccs_objective_space_get_objectives(
diff --git a/src/tree_evaluation.c b/src/tree_evaluation.c
index 991c670..36d100c 100644
--- a/src/tree_evaluation.c
+++ b/src/tree_evaluation.c
@@ -345,6 +345,9 @@ ccs_tree_evaluation_get_objective_value(
 	ccs_objective_type_t type;
 	CCS_VALIDATE(ccs_objective_space_get_objective(
 		evaluation->data->objective_space, index, &expression, &type));
+	CCS_VALIDATE(_ccs_binding_check_num_values(
+		(ccs_binding_t)evaluation,
+		CCS_RESULT_ERROR_INVALID_EVALUATION));
 	CCS_VALIDATE(ccs_expression_eval(
 		expression, (ccs_context_t)evaluation->data->objective_space,
 		evaluation->data->values, value_ret));
@@ -366,6 +369,9 @@ ccs_tree_evaluation_get_objective_values(
 		evaluation->data->objective_space, 0, NULL, NULL, &count));
 	if (values) {
 		CCS_REFUTE(num_values < count, CCS_RESULT_ERROR_INVALID_VALUE);
+		CCS_VALIDATE(_ccs_binding_check_num_values(
+			(ccs_binding_t)evaluation,
+			CCS_RESULT_ERROR_INVALID_EVALUATION));
 		for (size_t i = 0; i < count; i++) {
 			ccs_expression_t     expression;
 			ccs_objective_type_t type;
@@ -450,6 +456,12 @@ ccs_tree_evaluation_compare(
 		evaluation->data->objective_space !=
 			other_evaluation->data->objective_space,
 		CCS_RESULT_ERROR_INVALID_OBJECT);
+	CCS_VALIDATE(_ccs_binding_check_num_values(
+		(ccs_binding_t)evaluation,
+		CCS_RESULT_ERROR_INVALID_EVALUATION));
+	CCS_VALIDATE(_ccs_binding_check_num_values(
+		(ccs_binding_t)other_evaluation,
+		CCS_RESULT_ERROR_INVALID_EVALUATION));
 	size_t count;
 	CCS_VALIDATE(ccs_objective_space_get_objectives(
 		evaluation->data->objective_space, 0, NULL, NULL, &count));
-- 
2.43.0


From 986ac617e2e3785af6a51ca119a3d96a0a3403fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:50 +0000
Subject: [PATCH 52/72] fix: checking a configuration did not check the result
 pointer

---
 src/configuration_space.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/configuration_space.c b/src/configuration_space.c
index d62a367..3a77daf 100644
--- a/src/configuration_space.c
+++ b/src/configuration_space.c
@@ -925,6 +925,7 @@ _check_configuration(
 	ccs_datum_t              *values,
 	ccs_bool_t               *is_valid_ret)
 {
+	CCS_CHECK_PTR(is_valid_ret);
 	UT_array *indexes = configuration_space->data->sorted_indexes;
 	UT_array *array   = configuration_space->data->parameters;
 	CCS_REFUTE(
-- 
2.43.0


From c66fde2519a52efb1b559789864e898ab4be6589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:26 +0000
Subject: [PATCH 53/72] fix: wide uniform integers ended the process with the
 narrowest generators

---
 src/distribution_uniform.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/distribution_uniform.c b/src/distribution_uniform.c
index ca72294..640c2b3 100644
--- a/src/distribution_uniform.c
+++ b/src/distribution_uniform.c
@@ -205,8 +205,8 @@ _ccs_distribution_uniform_get_bounds(
 	return CCS_RESULT_SUCCESS;
 }
 
-/* gsl_rng_uniform_int is limited to the range of the generator, wider ranges
- * combine several draws. */
+/* gsl_rng_uniform_int is limited to the range of the generator (15 bits for the
+ * narrowest one), wider ranges combine several draws. */
 static inline uint64_t
 _ccs_uniform_int(gsl_rng *grng, uint64_t n)
 {
@@ -216,8 +216,8 @@ _ccs_uniform_int(gsl_rng *grng, uint64_t n)
 	uint64_t       v;
 	do {
 		v = 0;
-		for (int i = 0; i < 4; i++)
-			v = (v << 16) | gsl_rng_uniform_int(grng, 1UL << 16);
+		for (int i = 0; i < 8; i++)
+			v = (v << 8) | gsl_rng_uniform_int(grng, 1UL << 8);
 	} while (v >= limit);
 	return v % n;
 }
-- 
2.43.0


From 9b0a84741d0cba577106cfd29cf689f657e28b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:49:52 +0000
Subject: [PATCH 54/72] fix: size of a tree node with a huge arity wrapped
 around

---
 src/tree.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/tree.c b/src/tree.c
index 687f0e3..460fb32 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -151,6 +151,12 @@ ccs_create_tree(size_t arity, ccs_datum_t value, ccs_tree_t *tree_ret)
 		size_strs += strlen(value.value.s) + 1;
 	}
 
+	CCS_REFUTE(
+		arity > (SIZE_MAX - sizeof(struct _ccs_tree_s) -
+			 sizeof(_ccs_tree_data_t) - 3 * sizeof(ccs_float_t) -
+			 size_strs) /
+				(2 * sizeof(ccs_float_t) + sizeof(ccs_tree_t)),
+		CCS_RESULT_ERROR_OUT_OF_MEMORY);
 	uintptr_t mem = (uintptr_t)calloc(
 		1, sizeof(struct _ccs_tree_s) + sizeof(_ccs_tree_data_t) +
 			   (arity + 1) * sizeof(ccs_float_t) +
-- 
2.43.0


From 9017ce60c79224b9790f55ca0207b7cfd47149d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:10 +0000
Subject: [PATCH 55/72] fix: empty strings, and names starting like a keyword,
 could not be parsed in expressions

---
 src/expression.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/expression.c b/src/expression.c
index b9b29d0..2dae64e 100644
--- a/src/expression.c
+++ b/src/expression.c
@@ -63,10 +63,10 @@ const int ccs_terminal_precedence[] = {
 };
 
 const char *ccs_terminal_regexp[] = {
-	"none",
-	"true",
-	"false",
-	"\"([^\\0\\t\\n\\r\\f\"\\\\]|\\\\[0tnrf\"\\\\])+\"|'([^\\0\\t\\n\\r\\f'\\\\]|\\\\[0tnrf'\\\\])+'",
+	"none\\b",
+	"true\\b",
+	"false\\b",
+	"\"([^\\0\\t\\n\\r\\f\"\\\\]|\\\\[0tnrf\"\\\\])*\"|'([^\\0\\t\\n\\r\\f'\\\\]|\\\\[0tnrf'\\\\])*'",
 	"[a-zA-Z_][a-zA-Z_0-9]*",
 	"-?[0-9]+",
 	"-?[0-9]+([eE][+-]?[0-9]+|\\.[0-9]+([eE][+-]?[0-9]+)?)"
-- 
2.43.0


From 335a92b67d636c887165c9de6561f281d37d6890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:44 +0000
Subject: [PATCH 56/72] fix: printed expressions lost parentheses and used
 escapes that cannot be parsed

---
 bindings/python/cconfigspace/expression.py | 34 ++++++++++++++++++++--
 1 file changed, 31 insertions(+), 3 deletions(-)

diff --git a/bindings/python/cconfigspace/expression.py b/bindings/python/cconfigspace/expression.py
index 005b761..948941c 100644
--- a/bindings/python/cconfigspace/expression.py
+++ b/bindings/python/cconfigspace/expression.py
@@ -169,11 +169,23 @@ class Expression(Object):
     res = ccs_expression_check_context(self.handle, context.handle)
     Error.check(res)
 
+  @property
+  def _precedence(self):
+    return ccs_expression_precedence[self.type]
+
   def __str__(self):
     t = self.type
     symbol = ccs_expression_symbols[t]
-    prec = ccs_expression_precedence[t]
-    nds = ["({})".format(n) if ccs_expression_precedence[n.type] < prec else n.__str__() for n in self.nodes]
+    prec = self._precedence
+    nds = self.nodes
+    # Operators of the same precedence group by their associativity
+    if len(nds) == 1:
+      grouped = [ prec ]
+    elif ccs_expression_associativity[t].value == AssociativityType.RIGHT_TO_LEFT:
+      grouped = [ prec + 1, prec ]
+    else:
+      grouped = [ prec, prec + 1 ]
+    nds = ["({})".format(n) if n._precedence < p else n.__str__() for n, p in zip(nds, grouped)]
     if len(nds) == 1:
       return "{}{}".format(symbol, nds[0])
     else:
@@ -410,10 +422,26 @@ class ExpressionLiteral(Expression):
     self._value = v.value
     return self._value
   
+  # A negative number reads as a negation
+  @property
+  def _precedence(self):
+    v = self.value
+    if isinstance(v, (int, float)) and str(v).startswith("-"):
+      return ccs_expression_precedence[ExpressionType.NEGATIVE]
+    return super()._precedence
+
+  # The escape sequences are those of the string terminal
+  _escapes = {"\0": "\\0", "\t": "\\t", "\n": "\\n", "\r": "\\r", "\f": "\\f", "\\": "\\\\"}
+
+  @classmethod
+  def _format_string(cls, v):
+    quote = '"' if "'" in v and '"' not in v else "'"
+    return quote + "".join("\\" + c if c == quote else cls._escapes.get(c, c) for c in v) + quote
+
   def __str__(self):
     v = self.value
     if isinstance(v, str):
-      return repr(v)
+      return self._format_string(v)
     elif v is None:
       return ExpressionLiteral.none_symbol
     elif v is True:
-- 
2.43.0


From 6f4e3a999befbd2ac79cce748c6f41f2d62020cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:56 +0000
Subject: [PATCH 57/72] fix: expressions could not be evaluated on an empty
 context nor list their parameters (Python)

---
 bindings/python/cconfigspace/expression.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/bindings/python/cconfigspace/expression.py b/bindings/python/cconfigspace/expression.py
index 948941c..dc85b36 100644
--- a/bindings/python/cconfigspace/expression.py
+++ b/bindings/python/cconfigspace/expression.py
@@ -141,14 +141,14 @@ class Expression(Object):
     if sz == 0:
       self._parameters = []
       return []
-    v = (ccs_parameter * sz.value)()
+    v = (ccs_parameter * sz)()
     res = ccs_expression_get_parameters(self.handle, sz, v, None)
     Error.check(res)
     self._parameters = [Parameter.from_handle(ccs_parameter(x)) for x in v]
     return self._parameters
 
   def eval(self, context = None, values = None):
-    if context and values:
+    if context is not None and values is not None:
       count = context.num_parameters
       if count != len(values):
         raise Error(Result(Result.ERROR_INVALID_VALUE))
@@ -158,7 +158,7 @@ class Expression(Object):
         v[i].set_value(values[i], string_store = ss)
       values = v
       context = context.handle
-    elif context or values:
+    elif context is not None or values is not None:
       raise Error(Result(Result.ERROR_INVALID_VALUE))
     v = Datum()
     res = ccs_expression_eval(self.handle, context, values, ct.byref(v))
@@ -496,7 +496,7 @@ class ExpressionList(Expression):
       super().__init__(handle = handle, retain = retain, auto_release = auto_release)
   
   def eval(self, index, context = None, values = None):
-    if context and values:
+    if context is not None and values is not None:
       count = context.num_parameters
       if count != len(values):
         raise Error(Result(Result.ERROR_INVALID_VALUE))
@@ -506,7 +506,7 @@ class ExpressionList(Expression):
         v[i].set_value(values[i], string_store = ss)
       values = v
       context = context.handle
-    elif context or values:
+    elif context is not None or values is not None:
       raise Error(Result(Result.ERROR_INVALID_VALUE))
     v = Datum()
     res = ccs_expression_list_eval_node(self.handle, context, values, index, ct.byref(v))
-- 
2.43.0


From 071d20087b2024db18c9807cf619fc3a294a23bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:30 +0000
Subject: [PATCH 58/72] fix: Python properties and queries that always raised
 or returned the wrong value

---
 bindings/python/cconfigspace/binding.py             | 4 ++--
 bindings/python/cconfigspace/context.py             | 4 ++--
 bindings/python/cconfigspace/features.py            | 2 +-
 bindings/python/cconfigspace/features_evaluation.py | 2 +-
 bindings/python/cconfigspace/map.py                 | 3 ++-
 bindings/python/cconfigspace/objective_space.py     | 2 +-
 bindings/python/cconfigspace/tree_space.py          | 2 +-
 7 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/bindings/python/cconfigspace/binding.py b/bindings/python/cconfigspace/binding.py
index 667efb0..d353e38 100644
--- a/bindings/python/cconfigspace/binding.py
+++ b/bindings/python/cconfigspace/binding.py
@@ -42,7 +42,7 @@ class Binding(Object):
     if isinstance(parameter, Parameter):
       res = ccs_binding_set_value_by_parameter(self.handle, parameter.handle, v)
     elif isinstance(parameter, str):
-      res = ccs_binding_set_value_by_name(self.handle, str.encode(parameter), ct.byref(v))
+      res = ccs_binding_set_value_by_name(self.handle, str.encode(parameter), v)
     else:
       res = ccs_binding_set_value(self.handle, parameter, v)
     Error.check(res)
@@ -124,7 +124,7 @@ class Binding(Object):
     v = ccs_hash()
     res = ccs_binding_hash(self.handle, ct.byref(v))
     Error.check(res)
-    return self.value
+    return v.value
 
   def __hash__(self):
     return self.hash
diff --git a/bindings/python/cconfigspace/context.py b/bindings/python/cconfigspace/context.py
index 0dfd0b2..b7aa24c 100644
--- a/bindings/python/cconfigspace/context.py
+++ b/bindings/python/cconfigspace/context.py
@@ -67,9 +67,9 @@ class Context(Object):
 
   def validate_value(self, parameter, value):
     if isinstance(parameter, Parameter):
-      parameter = parameter_index(parameter)
+      parameter = self.parameter_index(parameter)
     elif isinstance(parameter, str):
-      parameter = parameter_index_by_name(parameter)
+      parameter = self.parameter_index_by_name(parameter)
     pv = Datum(value)
     v = DatumFix(pv)
     vo = Datum()
diff --git a/bindings/python/cconfigspace/features.py b/bindings/python/cconfigspace/features.py
index 0d951bd..e3a3639 100644
--- a/bindings/python/cconfigspace/features.py
+++ b/bindings/python/cconfigspace/features.py
@@ -40,7 +40,7 @@ class Features(Binding):
     v = ccs_features_space()
     res = ccs_features_get_features_space(self.handle, ct.byref(v))
     Error.check(res)
-    self._features_space = ConfigurationSpace.from_handle(v)
+    self._features_space = FeaturesSpace.from_handle(v)
     return self._features_space
 
   def check(self):
diff --git a/bindings/python/cconfigspace/features_evaluation.py b/bindings/python/cconfigspace/features_evaluation.py
index 0ac43dd..af5cefa 100644
--- a/bindings/python/cconfigspace/features_evaluation.py
+++ b/bindings/python/cconfigspace/features_evaluation.py
@@ -115,6 +115,6 @@ class FeaturesEvaluation(Binding):
 
   def check(self):
     valid = ccs_bool()
-    res = res = ccs_features_evaluation(self.handle, ct.byref(valid))
+    res = ccs_features_evaluation_check(self.handle, ct.byref(valid))
     Error.check(res)
     return False if valid.value == 0 else True
diff --git a/bindings/python/cconfigspace/map.py b/bindings/python/cconfigspace/map.py
index e0bb655..4bf99e6 100644
--- a/bindings/python/cconfigspace/map.py
+++ b/bindings/python/cconfigspace/map.py
@@ -24,6 +24,7 @@ class Map(Object):
   def __len__(self):
     v = ct.c_size_t()
     res = ccs_map_get_keys(self.handle, 0, None, ct.byref(v))
+    Error.check(res)
     return v.value
 
   def __getitem__(self, key):
@@ -54,7 +55,7 @@ class Map(Object):
     b = ccs_bool()
     res = ccs_map_exist(self.handle, k, ct.byref(b))
     Error.check(res)
-    return False if b._value.i == ccs_false else True
+    return False if b.value == 0 else True
 
   def keys(self):
     sz = self.__len__()
diff --git a/bindings/python/cconfigspace/objective_space.py b/bindings/python/cconfigspace/objective_space.py
index 048aed5..6430470 100644
--- a/bindings/python/cconfigspace/objective_space.py
+++ b/bindings/python/cconfigspace/objective_space.py
@@ -75,7 +75,7 @@ class ObjectiveSpace(Context):
 
   def get_objective(self, index):
     v = ccs_expression()
-    t = ObjectiveType()
+    t = ObjectiveType(0)
     res = ccs_objective_space_get_objective(self.handle, index, ct.byref(v), ct.byref(t))
     Error.check(res)
     return (Expression.from_handle(v), t.value)
diff --git a/bindings/python/cconfigspace/tree_space.py b/bindings/python/cconfigspace/tree_space.py
index b91fa8c..49e9346 100644
--- a/bindings/python/cconfigspace/tree_space.py
+++ b/bindings/python/cconfigspace/tree_space.py
@@ -287,7 +287,7 @@ class DynamicTreeSpace(TreeSpace):
       self._tree_space_data = ct.cast(v, ct.py_object).value
     else:
       self._tree_space_data = None
-    return self._tuner_data
+    return self._tree_space_data
 
 TreeSpace.Dynamic = DynamicTreeSpace
 
-- 
2.43.0


From 1e103761f8d367862eea19a8b20fbb578f17d176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:12 +0000
Subject: [PATCH 59/72] fix: user-defined tuners and tree spaces could not be
 reloaded, nor feature tuners given usable features (Python)

---
 bindings/python/cconfigspace/features_tuner.py | 16 ++++++++--------
 bindings/python/cconfigspace/tree_space.py     |  2 +-
 bindings/python/cconfigspace/tree_tuner.py     |  8 ++++----
 bindings/python/cconfigspace/tuner.py          |  8 ++++----
 4 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/bindings/python/cconfigspace/features_tuner.py b/bindings/python/cconfigspace/features_tuner.py
index 73fe211..194cd65 100644
--- a/bindings/python/cconfigspace/features_tuner.py
+++ b/bindings/python/cconfigspace/features_tuner.py
@@ -197,8 +197,8 @@ def _wrap_user_defined_features_tuner_callbacks(delete, ask, tell, get_optima, g
       tun = ct.cast(tun, ccs_features_tuner)
       p_confs = ct.cast(p_configurations, ct.c_void_p)
       p_c = ct.cast(p_count, ct.c_void_p)
-      (configurations, count_ret) = ask(FeaturesTuner.from_handle(tun), Features.from_handle(features), count if p_confs.value else None)
-      if p_confs.value is not None and count < count_ret:
+      (configurations, count_ret) = ask(FeaturesTuner.from_handle(tun), Features.from_handle(ccs_features(features)), count if p_confs.value else None)
+      if p_confs.value is not None and (count < count_ret or count_ret != len(configurations)):
         raise Error(Result(Result.ERROR_INVALID_VALUE))
       if p_confs.value is not None:
         for i in range(len(configurations)):
@@ -232,7 +232,7 @@ def _wrap_user_defined_features_tuner_callbacks(delete, ask, tell, get_optima, g
       tun = ct.cast(tun, ccs_features_tuner)
       p_evals = ct.cast(p_evaluations, ct.c_void_p)
       p_c = ct.cast(p_count, ct.c_void_p)
-      optima = get_optima(FeaturesTuner.from_handle(tun), Features.from_handle(features) if features else None)
+      optima = get_optima(FeaturesTuner.from_handle(tun), Features.from_handle(ccs_features(features)) if features else None)
       count_ret = len(optima)
       if p_evals.value is not None and count < count_ret:
         raise Error(Result(Result.ERROR_INVALID_VALUE))
@@ -252,7 +252,7 @@ def _wrap_user_defined_features_tuner_callbacks(delete, ask, tell, get_optima, g
       tun = ct.cast(tun, ccs_features_tuner)
       p_evals = ct.cast(p_evaluations, ct.c_void_p)
       p_c = ct.cast(p_count, ct.c_void_p)
-      history = get_history(FeaturesTuner.from_handle(tun), Features.from_handle(features) if features else None)
+      history = get_history(FeaturesTuner.from_handle(tun), Features.from_handle(ccs_features(features)) if features else None)
       count_ret = (len(history) if history else 0)
       if p_evals.value is not None and count < count_ret:
         raise Error(Result(Result.ERROR_INVALID_VALUE))
@@ -271,7 +271,7 @@ def _wrap_user_defined_features_tuner_callbacks(delete, ask, tell, get_optima, g
     def suggest_wrapper(tun, features, p_configuration):
       try:
         tun = ct.cast(tun, ccs_features_tuner)
-        configuration = suggest(FeaturesTuner.from_handle(tun), Features.from_handle(features))
+        configuration = suggest(FeaturesTuner.from_handle(tun), Features.from_handle(ccs_features(features)))
         res = ccs_retain_object(configuration.handle)
         Error.check(res)
         p_configuration[0] = configuration.handle.value
@@ -310,15 +310,15 @@ def _wrap_user_defined_features_tuner_callbacks(delete, ask, tell, get_optima, g
         if p_h.value is None:
           history = []
         else:
-          history = [FeaturesEvaluation.from_handle(ccs_features_evaluation(p_h[i])) for i in range(size_history)]
+          history = [FeaturesEvaluation.from_handle(ccs_features_evaluation(p_history[i])) for i in range(size_history)]
         if p_o.value is None:
           optima = []
         else:
-          optima = [FeaturesEvaluation.from_handle(ccs_features_evaluation(p_o[i])) for i in range(num_optima)]
+          optima = [FeaturesEvaluation.from_handle(ccs_features_evaluation(p_optima[i])) for i in range(num_optima)]
         if p_s.value is None:
           state = None
         else:
-          state = ct.cast(p_s, POINTER(c_byte * state_size))
+          state = ct.cast(p_s, ct.POINTER(ct.c_byte * state_size))
         deserialize(FeaturesTuner.from_handle(tun), history, optima, state)
         return Result.SUCCESS
       except Exception as e:
diff --git a/bindings/python/cconfigspace/tree_space.py b/bindings/python/cconfigspace/tree_space.py
index 49e9346..95b58b6 100644
--- a/bindings/python/cconfigspace/tree_space.py
+++ b/bindings/python/cconfigspace/tree_space.py
@@ -204,7 +204,7 @@ def _wrap_user_defined_callbacks(delete, get_child, serialize, deserialize):
         if p_s.value is None:
           state = None
         else:
-          state = ct.cast(p_s, POINTER(c_byte * state_size))
+          state = ct.cast(p_s, ct.POINTER(ct.c_byte * state_size))
         deserialize(TreeSpace.from_handle(ts), state)
         return Result.SUCCESS
       except Exception as e:
diff --git a/bindings/python/cconfigspace/tree_tuner.py b/bindings/python/cconfigspace/tree_tuner.py
index 9561b0d..47d026f 100644
--- a/bindings/python/cconfigspace/tree_tuner.py
+++ b/bindings/python/cconfigspace/tree_tuner.py
@@ -182,7 +182,7 @@ def _wrap_user_defined_tree_tuner_callbacks(delete, ask, tell, get_optima, get_h
       p_confs = ct.cast(p_configurations, ct.c_void_p)
       p_c = ct.cast(p_count, ct.c_void_p)
       (configurations, count_ret) = ask(TreeTuner.from_handle(tun), count if p_confs.value else None)
-      if p_confs.value is not None and count < count_ret:
+      if p_confs.value is not None and (count < count_ret or count_ret != len(configurations)):
         raise Error(Result(Result.ERROR_INVALID_VALUE))
       if p_confs.value is not None:
         for i in range(len(configurations)):
@@ -294,15 +294,15 @@ def _wrap_user_defined_tree_tuner_callbacks(delete, ask, tell, get_optima, get_h
         if p_h.value is None:
           history = []
         else:
-          history = [TreeEvaluation.from_handle(ccs_tree_evaluation(p_h[i])) for i in range(size_history)]
+          history = [TreeEvaluation.from_handle(ccs_tree_evaluation(p_history[i])) for i in range(size_history)]
         if p_o.value is None:
           optima = []
         else:
-          optima = [TreeEvaluation.from_handle(ccs_tree_evaluation(p_o[i])) for i in range(num_optima)]
+          optima = [TreeEvaluation.from_handle(ccs_tree_evaluation(p_optima[i])) for i in range(num_optima)]
         if p_s.value is None:
           state = None
         else:
-          state = ct.cast(p_s, POINTER(c_byte * state_size))
+          state = ct.cast(p_s, ct.POINTER(ct.c_byte * state_size))
         deserialize(TreeTuner.from_handle(tun), history, optima, state)
         return Result.SUCCESS
       except Exception as e:
diff --git a/bindings/python/cconfigspace/tuner.py b/bindings/python/cconfigspace/tuner.py
index d15b0c0..e7f65c2 100644
--- a/bindings/python/cconfigspace/tuner.py
+++ b/bindings/python/cconfigspace/tuner.py
@@ -182,7 +182,7 @@ def _wrap_user_defined_tuner_callbacks(delete, ask, tell, get_optima, get_histor
       p_confs = ct.cast(p_configurations, ct.c_void_p)
       p_c = ct.cast(p_count, ct.c_void_p)
       (configurations, count_ret) = ask(Tuner.from_handle(tun), count if p_confs.value else None)
-      if p_confs.value is not None and count < count_ret:
+      if p_confs.value is not None and (count < count_ret or count_ret != len(configurations)):
         raise Error(Result(Result.ERROR_INVALID_VALUE))
       if p_confs.value is not None:
         for i in range(len(configurations)):
@@ -294,15 +294,15 @@ def _wrap_user_defined_tuner_callbacks(delete, ask, tell, get_optima, get_histor
         if p_h.value is None:
           history = []
         else:
-          history = [Evaluation.from_handle(ccs_evaluation(p_h[i])) for i in range(size_history)]
+          history = [Evaluation.from_handle(ccs_evaluation(p_history[i])) for i in range(size_history)]
         if p_o.value is None:
           optima = []
         else:
-          optima = [Evaluation.from_handle(ccs_evaluation(p_o[i])) for i in range(num_optima)]
+          optima = [Evaluation.from_handle(ccs_evaluation(p_optima[i])) for i in range(num_optima)]
         if p_s.value is None:
           state = None
         else:
-          state = ct.cast(p_s, POINTER(c_byte * state_size))
+          state = ct.cast(p_s, ct.POINTER(ct.c_byte * state_size))
         deserialize(Tuner.from_handle(tun), history, optima, state)
         return Result.SUCCESS
       except Exception as e:
-- 
2.43.0


From 014f01a05d5615e0bc54db71bfe54778a9676feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:45 +0000
Subject: [PATCH 60/72] fix: maps, error stacks and feature spaces could not be
 reloaded, and empty or zero arguments of (de)serialization were ignored
 (Python)

---
 bindings/python/cconfigspace/base.py        | 37 +++++++++++----------
 bindings/python/cconfigspace/error_stack.py |  4 +++
 bindings/python/cconfigspace/map.py         |  4 +++
 3 files changed, 28 insertions(+), 17 deletions(-)

diff --git a/bindings/python/cconfigspace/base.py b/bindings/python/cconfigspace/base.py
index 29a9c10..60c1b37 100644
--- a/bindings/python/cconfigspace/base.py
+++ b/bindings/python/cconfigspace/base.py
@@ -115,7 +115,7 @@ class CEnumeration(ct.c_int, metaclass=CEnumerationType):
     if self.value in self._reverse_members_:
       return self._reverse_members_[self.value]
     else:
-      raise ValueError("No enumeration member with value %r" % value)
+      raise ValueError("No enumeration member with value %r" % self.value)
 
   @classmethod
   def from_param(cls, param):
@@ -443,14 +443,17 @@ version_string = ccs_get_version_string().decode()
 
 class Object:
 
+  # objects whose creation failed have nothing to release
+  auto_release = False
+
   def __init__(self, handle, retain = False, auto_release = True):
     if handle is None:
       raise Error(Result(Result.ERROR_INVALID_OBJECT))
     self._handle = handle
-    self.auto_release = auto_release
     if retain:
       res = ccs_retain_object(handle)
       Error.check(res)
+    self.auto_release = auto_release
 
   def __del__(self):
     if self.auto_release:
@@ -530,7 +533,7 @@ class Object:
   def serialize(self, format = 'binary', path = None, file_descriptor = None, callback = None, callback_data = None):
     if format != 'binary':
       raise Error(Result(Result.ERROR_INVALID_VALUE))
-    if path and file_descriptor:
+    if path is not None and file_descriptor is not None:
       raise Error(Result(Result.ERROR_INVALID_VALUE))
     options = [SerializeOption.END]
     if callback:
@@ -539,13 +542,13 @@ class Object:
       options = [SerializeOption.CALLBACK, cb_wrapper_func, ct.py_object(callback_data)] + options
     elif _default_user_data_serializer:
       options = [SerializeOption.CALLBACK, _default_user_data_serializer, ct.py_object()] + options
-    if path:
+    if path is not None:
       p = str.encode(path)
       pp = ct.c_char_p(p)
       res = ccs_object_serialize(self.handle, SerializeFormat.BINARY, SerializeOperation.FILE, pp, *options)
       Error.check(res)
       return None
-    elif file_descriptor:
+    elif file_descriptor is not None:
       fd = ct.c_int(file_descriptor)
       res = ccs_object_serialize(self.handle, SerializeFormat.BINARY, SerializeOperation.FILE_DESCRIPTOR, fd, *options)
       Error.check(res)
@@ -564,21 +567,21 @@ class Object:
     if format != 'binary':
       raise Error(Result(Result.ERROR_INVALID_VALUE))
     mode_count = 0;
-    if path:
+    if path is not None:
       mode_count += 1
-    if buffer:
+    if buffer is not None:
       mode_count += 1
-    if file_descriptor:
+    if file_descriptor is not None:
       mode_count += 1
     if not mode_count == 1:
       raise Error(Result(Result.ERROR_INVALID_VALUE))
     o = ccs_object(0)
     options = [DeserializeOption.END]
-    if handle_map:
+    if handle_map is not None:
       options = [DeserializeOption.HANDLE_MAP, handle_map.handle] + options
-    if vector:
+    if vector is not None:
       options = [DeserializeOption.VECTOR, ct.byref(vector)] + options
-    if data:
+    if data is not None:
       options = [DeserializeOption.DATA, ct.py_object(data)] + options
     if callback:
       cb_wrapper = _get_deserialize_callback_wrapper(callback)
@@ -586,14 +589,14 @@ class Object:
       options = [DeserializeOption.CALLBACK, cb_wrapper_func, ct.py_object(callback_data)] + options
     elif _default_user_data_deserializer:
       options = [DeserializeOption.CALLBACK, _default_user_data_deserializer, ct.py_object()] + options
-    if buffer:
+    if buffer is not None:
       s = ct.c_size_t(ct.sizeof(buffer))
       res = ccs_object_deserialize(ct.byref(o), SerializeFormat.BINARY, SerializeOperation.MEMORY, s, buffer, *options)
-    elif path:
+    elif path is not None:
       p = str.encode(path)
       pp = ct.c_char_p(p)
       res = ccs_object_deserialize(ct.byref(o), SerializeFormat.BINARY, SerializeOperation.FILE, pp, *options)
-    elif file_descriptor:
+    elif file_descriptor is not None:
       fd = ct.c_int(file_descriptor)
       res = ccs_object_deserialize(ct.byref(o), SerializeFormat.BINARY, SerializeOperation.FILE_DESCRIPTOR, fd, *options)
     else:
@@ -711,8 +714,8 @@ def _register_serialize_callback(handle, callback_data):
     _register_destroy_callback(handle)
   _data_store[value]['serialize_calback'] = callback_data
 
-def deserialize(format = 'binary', handle_map = None, path = None, buffer = None, callback = None, callback_data = None):
-  return Object.deserialize(format = format, handle_map = handle_map, path = path, buffer = buffer, callback = callback, callback_data = callback_data)
+def deserialize(format = 'binary', handle_map = None, path = None, buffer = None, file_descriptor = None, callback = None, callback_data = None):
+  return Object.deserialize(format = format, handle_map = handle_map, path = path, buffer = buffer, file_descriptor = file_descriptor, callback = callback, callback_data = callback_data)
 
 def _set_destroy_callback(handle, callback, user_data = None):
   if callback is None:
@@ -771,7 +774,7 @@ setattr(Object, 'CLASS_MAP', {
   ObjectType.EXPRESSION: Expression,
   ObjectType.CONFIGURATION_SPACE: ConfigurationSpace,
   ObjectType.CONFIGURATION: Configuration,
-  ObjectType.FEATURES_SPACE: ConfigurationSpace,
+  ObjectType.FEATURES_SPACE: FeaturesSpace,
   ObjectType.FEATURES: Features,
   ObjectType.OBJECTIVE_SPACE: ObjectiveSpace,
   ObjectType.EVALUATION: Evaluation,
diff --git a/bindings/python/cconfigspace/error_stack.py b/bindings/python/cconfigspace/error_stack.py
index e7a08ee..408fc55 100644
--- a/bindings/python/cconfigspace/error_stack.py
+++ b/bindings/python/cconfigspace/error_stack.py
@@ -31,6 +31,10 @@ class ErrorStack(Object):
     else:
       super().__init__(handle = handle, retain = retain, auto_release = auto_release)
 
+  @classmethod
+  def from_handle(cls, handle, retain = True, auto_release = True):
+    return cls(handle = handle, retain = retain, auto_release = auto_release)
+
   def push(self, file, line, func):
     if file:
       file = str.encode(file)
diff --git a/bindings/python/cconfigspace/map.py b/bindings/python/cconfigspace/map.py
index 4bf99e6..9411121 100644
--- a/bindings/python/cconfigspace/map.py
+++ b/bindings/python/cconfigspace/map.py
@@ -21,6 +21,10 @@ class Map(Object):
     else:
       super().__init__(handle = handle, retain = retain, auto_release = auto_release)
 
+  @classmethod
+  def from_handle(cls, handle, retain = True, auto_release = True):
+    return cls(handle = handle, retain = retain, auto_release = auto_release)
+
   def __len__(self):
     v = ct.c_size_t()
     res = ccs_map_get_keys(self.handle, 0, None, ct.byref(v))
-- 
2.43.0


From ef8e51c01098835b513f7687d3be2ec5a11cb253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:13 +0000
Subject: [PATCH 61/72] fix: user callbacks and data were freed before the
 callbacks ran, or could not be registered (Python)

---
 bindings/python/cconfigspace/base.py | 37 +++++++++++++++-------------
 1 file changed, 20 insertions(+), 17 deletions(-)

diff --git a/bindings/python/cconfigspace/base.py b/bindings/python/cconfigspace/base.py
index 60c1b37..a78a41f 100644
--- a/bindings/python/cconfigspace/base.py
+++ b/bindings/python/cconfigspace/base.py
@@ -667,27 +667,35 @@ _default_user_data_deserializer = _json_user_data_deserializer_func
 # Delete wrappers are responsible for deregistering the object data_store
 def _register_vector(handle, vector_data):
   value = handle.value
-  if value in _data_store:
+  if value not in _data_store:
+    _register_destroy_callback(handle)
+  if _data_store[value]['vector'] is not None:
     raise Error(Result(Result.ERROR_INVALID_VALUE))
-  _data_store[value] = dict.fromkeys(['callbacks', 'user_data', 'serialize_calback', 'strings'])
-  _data_store[value]['callbacks'] = vector_data
-  _data_store[value]['strings'] = []
+  _data_store[value]['vector'] = vector_data
 
 def _unregister_vector(handle):
-  value = handle.value
-  del _data_store[value]
+  _data_store.pop(handle.value, None)
 
-# If objects don't have a user-defined del operation, then the first time a
-# data needs to be registered a destruction callback is attached.
+# The first time a data needs to be registered a destruction callback is
+# attached. The data, including the user's own destruction callbacks, is needed
+# until those have been called, and the vector until the object is deleted.
 def _register_destroy_callback(handle):
   value = handle.value
   def cb(obj, data):
-    del _data_store[value]
+    store = _data_store[value]
+    for callback, user_data in store['callbacks']:
+      try:
+        callback(Object.from_handle(ccs_object(obj)), user_data)
+      except Exception:
+        traceback.print_exc()
+    if store['vector'] is None:
+      del _data_store[value]
   cb_func = ccs_object_destroy_callback_type(cb)
   res = ccs_object_set_destroy_callback(handle, cb_func, None)
   Error.check(res)
-  _data_store[value] = dict.fromkeys(['callbacks', 'user_data', 'serialize_calback', 'strings'])
-  _data_store[value]['callbacks'] = [ [ cb, cb_func ] ]
+  _data_store[value] = dict.fromkeys(['destructor', 'vector', 'callbacks', 'user_data', 'serialize_calback', 'strings'])
+  _data_store[value]['destructor'] = [ cb, cb_func ]
+  _data_store[value]['callbacks'] = []
   _data_store[value]['strings'] = []
 
 def _register_callback(handle, callback_data):
@@ -720,12 +728,7 @@ def deserialize(format = 'binary', handle_map = None, path = None, buffer = None
 def _set_destroy_callback(handle, callback, user_data = None):
   if callback is None:
     raise Error(Result(Result.ERROR_INVALID_VALUE))
-  def cb_wrapper(obj, data):
-    callback(Object.from_handle(obj), data)
-  cb_wrapper_func = ccs_object_destroy_callback_type(cb_wrapper)
-  res = ccs_object_set_destroy_callback(handle, cb_wrapper_func, user_data)
-  Error.check(res)
-  _register_callback(handle, [callback, cb_wrapper, cb_wrapper_func, user_data])
+  _register_callback(handle, [callback, user_data])
 
 def _set_serialize_callback(handle, callback, user_data = None):
   if callback is None:
-- 
2.43.0


From bf9b5f4611b08ad1aba7bf5a240adc344db51e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:18 +0000
Subject: [PATCH 62/72] fix: configurations returned by a failing batch were
 never released (Python)

---
 bindings/python/cconfigspace/configuration_space.py | 4 +++-
 bindings/python/cconfigspace/features_tuner.py      | 5 +++--
 bindings/python/cconfigspace/tuner.py               | 5 +++--
 3 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/bindings/python/cconfigspace/configuration_space.py b/bindings/python/cconfigspace/configuration_space.py
index ff3d8e5..d6a7745 100644
--- a/bindings/python/cconfigspace/configuration_space.py
+++ b/bindings/python/cconfigspace/configuration_space.py
@@ -226,7 +226,9 @@ class ConfigurationSpace(Context):
       return []
     v = (ccs_configuration * count)()
     res = ccs_configuration_space_samples(self.handle, count, v)
+    # configurations found before a failure are ours to release
+    configurations = [Configuration(handle = ccs_configuration(x), retain = False) for x in v if x]
     Error.check(res)
-    return [Configuration(handle = ccs_configuration(x), retain = False) for x in v]
+    return configurations
 
 from .configuration import Configuration
diff --git a/bindings/python/cconfigspace/features_tuner.py b/bindings/python/cconfigspace/features_tuner.py
index 194cd65..644977e 100644
--- a/bindings/python/cconfigspace/features_tuner.py
+++ b/bindings/python/cconfigspace/features_tuner.py
@@ -93,9 +93,10 @@ class FeaturesTuner(Object):
     v = (ccs_configuration * count)()
     c = ct.c_size_t()
     res = ccs_features_tuner_ask(self.handle, features.handle, count, v, ct.byref(c))
+    # configurations found before a failure are ours to release
+    configurations = [Configuration(handle = ccs_configuration(x), retain = False) for x in v if x]
     Error.check(res)
-    count = c.value
-    return [Configuration(handle = ccs_configuration(v[x]), retain = False) for x in range(count)]
+    return configurations[:c.value]
 
   def tell(self, evaluations):
     count = len(evaluations)
diff --git a/bindings/python/cconfigspace/tuner.py b/bindings/python/cconfigspace/tuner.py
index e7f65c2..09048c6 100644
--- a/bindings/python/cconfigspace/tuner.py
+++ b/bindings/python/cconfigspace/tuner.py
@@ -80,9 +80,10 @@ class Tuner(Object):
     v = (ccs_configuration * count)()
     c = ct.c_size_t()
     res = ccs_tuner_ask(self.handle, count, v, ct.byref(c))
+    # configurations found before a failure are ours to release
+    configurations = [Configuration(handle = ccs_configuration(x), retain = False) for x in v if x]
     Error.check(res)
-    count = c.value
-    return [Configuration(handle = ccs_configuration(v[x]), retain = False) for x in range(count)]
+    return configurations[:c.value]
 
   def tell(self, evaluations):
     count = len(evaluations)
-- 
2.43.0


From 13ae5034d701486764edcd25d014521f89ebc3fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:30:00 +0000
Subject: [PATCH 63/72] fix: several samples of a multidimensional distribution
 could not be drawn (Python)

---
 bindings/python/cconfigspace/distribution.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bindings/python/cconfigspace/distribution.py b/bindings/python/cconfigspace/distribution.py
index ede4747..edb11a4 100644
--- a/bindings/python/cconfigspace/distribution.py
+++ b/bindings/python/cconfigspace/distribution.py
@@ -123,10 +123,10 @@ class Distribution(Object):
       Error.check(res)
       return list(v)
     else:
-      v = (Numeric*dim*count)()
+      v = (Numeric * (dim * count))()
       res = ccs_distribution_samples(self.handle, rng.handle, count, v)
       Error.check(res)
-      return [ [v[j][i].i if self.data_types[i] == NumericType.INT else v[j][i].f for i in range(dim) ] for j in range(count) ]
+      return [ [v[j * dim + i].i if self.data_types[i] == NumericType.INT else v[j * dim + i].f for i in range(dim) ] for j in range(count) ]
 
 ccs_create_uniform_int_distribution = _ccs_get_function("ccs_create_uniform_int_distribution", [ccs_int, ccs_int, ScaleType, ccs_int, ct.POINTER(ccs_distribution)])
 ccs_create_uniform_float_distribution = _ccs_get_function("ccs_create_uniform_float_distribution", [ccs_float, ccs_float, ScaleType, ccs_float, ct.POINTER(ccs_distribution)])
-- 
2.43.0


From 632a1e900ed76e124b6722edbdea91e72c624f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:30:30 +0000
Subject: [PATCH 64/72] fix: objects only held by a call's arguments were
 released before the call used them (Python)

---
 .../python/cconfigspace/configuration_space.py   | 10 ++++++----
 bindings/python/cconfigspace/expression.py       |  6 ++----
 bindings/python/cconfigspace/features_space.py   |  4 ++--
 bindings/python/cconfigspace/features_tuner.py   | 16 ++++------------
 bindings/python/cconfigspace/objective_space.py  |  4 ++--
 5 files changed, 16 insertions(+), 24 deletions(-)

diff --git a/bindings/python/cconfigspace/configuration_space.py b/bindings/python/cconfigspace/configuration_space.py
index d6a7745..d7d7950 100644
--- a/bindings/python/cconfigspace/configuration_space.py
+++ b/bindings/python/cconfigspace/configuration_space.py
@@ -57,8 +57,10 @@ class ConfigurationSpace(Context):
 
   def add_parameter(self, parameter, distribution = None):
     if distribution:
-      distribution = distribution.handle
-    res = ccs_configuration_space_add_parameter(self.handle, parameter.handle, distribution)
+      d = distribution.handle
+    else:
+      d = None
+    res = ccs_configuration_space_add_parameter(self.handle, parameter.handle, d)
     Error.check(res)
 
   def add_parameters(self, parameters, distributions = None):
@@ -71,8 +73,8 @@ class ConfigurationSpace(Context):
       distribs = (ccs_distribution * count)(*[x.handle.value if x else x for x in distributions])
     else:
       distribs = None
-    parameters = (ccs_parameter * count)(*[x.handle.value for x in parameters])
-    res = ccs_configuration_space_add_parameters(self.handle, count, parameters, distribs)
+    v = (ccs_parameter * count)(*[x.handle.value for x in parameters])
+    res = ccs_configuration_space_add_parameters(self.handle, count, v, distribs)
     Error.check(res)
 
   def set_distribution(self, distribution, parameters):
diff --git a/bindings/python/cconfigspace/expression.py b/bindings/python/cconfigspace/expression.py
index dc85b36..cc28ed7 100644
--- a/bindings/python/cconfigspace/expression.py
+++ b/bindings/python/cconfigspace/expression.py
@@ -157,11 +157,10 @@ class Expression(Object):
       for i in range(count):
         v[i].set_value(values[i], string_store = ss)
       values = v
-      context = context.handle
     elif context is not None or values is not None:
       raise Error(Result(Result.ERROR_INVALID_VALUE))
     v = Datum()
-    res = ccs_expression_eval(self.handle, context, values, ct.byref(v))
+    res = ccs_expression_eval(self.handle, context.handle if context is not None else None, values, ct.byref(v))
     Error.check(res)
     return v.value
 
@@ -505,11 +504,10 @@ class ExpressionList(Expression):
       for i in range(count):
         v[i].set_value(values[i], string_store = ss)
       values = v
-      context = context.handle
     elif context is not None or values is not None:
       raise Error(Result(Result.ERROR_INVALID_VALUE))
     v = Datum()
-    res = ccs_expression_list_eval_node(self.handle, context, values, index, ct.byref(v))
+    res = ccs_expression_list_eval_node(self.handle, context.handle if context is not None else None, values, index, ct.byref(v))
     Error.check(res)
     return v.value
 
diff --git a/bindings/python/cconfigspace/features_space.py b/bindings/python/cconfigspace/features_space.py
index feccf74..47b4892 100644
--- a/bindings/python/cconfigspace/features_space.py
+++ b/bindings/python/cconfigspace/features_space.py
@@ -32,8 +32,8 @@ class FeaturesSpace(Context):
     count = len(parameters)
     if count == 0:
       return None
-    parameters = (ccs_parameter * count)(*[x.handle.value for x in parameters])
-    res = ccs_features_space_add_parameters(self.handle, count, parameters)
+    v = (ccs_parameter * count)(*[x.handle.value for x in parameters])
+    res = ccs_features_space_add_parameters(self.handle, count, v)
     Error.check(res)
 
   def check(self, features):
diff --git a/bindings/python/cconfigspace/features_tuner.py b/bindings/python/cconfigspace/features_tuner.py
index 644977e..15ec43c 100644
--- a/bindings/python/cconfigspace/features_tuner.py
+++ b/bindings/python/cconfigspace/features_tuner.py
@@ -106,35 +106,27 @@ class FeaturesTuner(Object):
 
   def history_size(self, features = None):
     v = ct.c_size_t()
-    if features is not None:
-      features = features.handle
-    res = ccs_features_tuner_get_history(self.handle, features, 0, None, ct.byref(v))
+    res = ccs_features_tuner_get_history(self.handle, features.handle if features is not None else None, 0, None, ct.byref(v))
     Error.check(res)
     return v.value
 
   def history(self, features = None):
     count = self.history_size(features)
     v = (ccs_features_evaluation * count)()
-    if features is not None:
-      features = features.handle
-    res = ccs_features_tuner_get_history(self.handle, features, count, v, None)
+    res = ccs_features_tuner_get_history(self.handle, features.handle if features is not None else None, count, v, None)
     Error.check(res)
     return [FeaturesEvaluation.from_handle(ccs_features_evaluation(x)) for x in v]
 
   def num_optima(self, features = None):
     v = ct.c_size_t()
-    if features is not None:
-      features = features.handle
-    res = ccs_features_tuner_get_optima(self.handle, features, 0, None, ct.byref(v))
+    res = ccs_features_tuner_get_optima(self.handle, features.handle if features is not None else None, 0, None, ct.byref(v))
     Error.check(res)
     return v.value
 
   def optima(self, features = None):
     count = self.num_optima(features)
     v = (ccs_features_evaluation * count)()
-    if features is not None:
-      features = features.handle
-    res = ccs_features_tuner_get_optima(self.handle, features, count, v, None)
+    res = ccs_features_tuner_get_optima(self.handle, features.handle if features is not None else None, count, v, None)
     Error.check(res)
     return [FeaturesEvaluation.from_handle(ccs_features_evaluation(x)) for x in v]
 
diff --git a/bindings/python/cconfigspace/objective_space.py b/bindings/python/cconfigspace/objective_space.py
index 6430470..b72d71c 100644
--- a/bindings/python/cconfigspace/objective_space.py
+++ b/bindings/python/cconfigspace/objective_space.py
@@ -45,8 +45,8 @@ class ObjectiveSpace(Context):
     count = len(parameters)
     if count == 0:
       return None
-    parameters = (ccs_parameter * count)(*[x.handle.value for x in parameters])
-    res = ccs_objective_space_add_parameters(self.handle, count, parameters)
+    v = (ccs_parameter * count)(*[x.handle.value for x in parameters])
+    res = ccs_objective_space_add_parameters(self.handle, count, v)
     Error.check(res)
 
   def add_objective(self, expression, t = ObjectiveType.MINIMIZE):
-- 
2.43.0


From 5067aa9334aeff04aaffc5f01d6be7ec6af42d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:32:39 +0000
Subject: [PATCH 65/72] fix: bounds and oversampling of multidimensional
 distributions overran their buffers (Python)

---
 bindings/python/cconfigspace/distribution.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/bindings/python/cconfigspace/distribution.py b/bindings/python/cconfigspace/distribution.py
index edb11a4..0c956d5 100644
--- a/bindings/python/cconfigspace/distribution.py
+++ b/bindings/python/cconfigspace/distribution.py
@@ -79,17 +79,23 @@ class Distribution(Object):
   def bounds(self):
     if hasattr(self, "_bounds"):
       return self._bounds
-    v = Interval()
-    res = ccs_distribution_get_bounds(self.handle, ct.byref(v))
+    dim = self.dimension
+    v = (Interval * dim)()
+    res = ccs_distribution_get_bounds(self.handle, v)
     Error.check(res)
-    self._bounds = v
-    return v
+    self._bounds = v[0] if dim == 1 else list(v)
+    return self._bounds
 
   def is_oversampling(self, interval):
-    v = ccs_bool()
-    res = ccs_distribution_check_oversampling(self.handle, ct.byref(interval), ct.byref(v))
+    dim = self.dimension
+    intervals = [interval] if isinstance(interval, Interval) else list(interval)
+    if len(intervals) != dim:
+      raise Error(Result(Result.ERROR_INVALID_VALUE))
+    v = (ccs_bool * dim)()
+    res = ccs_distribution_check_oversampling(self.handle, (Interval * dim)(*intervals), v)
     Error.check(res)
-    return False if v.value == ccs_false else True
+    v = [ x != ccs_false for x in v ]
+    return v[0] if dim == 1 else v
 
   def sample(self, rng):
     dim = self.dimension
-- 
2.43.0


From 305b0d780ce34fef838e438e8d2c5eaa8ca1b78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:27 +0000
Subject: [PATCH 66/72] fix: default distributions of parameters were never
 released (Python)

---
 bindings/python/cconfigspace/parameter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/python/cconfigspace/parameter.py b/bindings/python/cconfigspace/parameter.py
index 00790a1..1b25a89 100644
--- a/bindings/python/cconfigspace/parameter.py
+++ b/bindings/python/cconfigspace/parameter.py
@@ -85,7 +85,7 @@ class Parameter(Object):
     v = ccs_distribution()
     res = ccs_parameter_get_default_distribution(self.handle, ct.byref(v))
     Error.check(res)
-    self._default_distribution = Distribution.from_handle(v)
+    self._default_distribution = Distribution.from_handle(v, retain = False)
     return self._default_distribution
 
   def check_value(self, value):
-- 
2.43.0


From efe140868736dae3776554e3ffdf8a64b3b47623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:15 +0000
Subject: [PATCH 67/72] fix: refuse a missing output in ccs_create_error_stack

The documented CCS_RESULT_ERROR_INVALID_VALUE was never returned, the NULL
pointer was written to.
---
 src/error_stack.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/error_stack.c b/src/error_stack.c
index baded2d..1b5673d 100644
--- a/src/error_stack.c
+++ b/src/error_stack.c
@@ -123,6 +123,8 @@ ccs_create_error_stack(
 {
 	ccs_result_t err;
 	va_list      args;
+	if (CCS_UNLIKELY(!error_stack_ret))
+		return CCS_RESULT_ERROR_INVALID_VALUE;
 	va_start(args, msg);
 	err = _ccs_create_error_stack(error_stack_ret, error_code, msg, args);
 	va_end(args);
-- 
2.43.0


From 5149ff0f122905577c709a0791f56320832ba54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:58 +0000
Subject: [PATCH 68/72] fix: kokkos connector never proposed the closed upper
 bound of an integer range

---
 connectors/kokkos/ccs-kokkos-connector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/connectors/kokkos/ccs-kokkos-connector.cpp b/connectors/kokkos/ccs-kokkos-connector.cpp
index e0135a2..52445be 100644
--- a/connectors/kokkos/ccs-kokkos-connector.cpp
+++ b/connectors/kokkos/ccs-kokkos-connector.cpp
@@ -314,7 +314,7 @@ variable_info_to_parameter(const char *name, VariableInfo *info)
 			  }
 			  if (!info->candidates.range.openUpper) {
 				  if (step == 0)
-					  upper = upper + epsilon;
+					  upper = upper + 1;
 				  else // this is dubious/would require
 				       // verification
 					  upper = upper + step;
-- 
2.43.0


From b91b4d8b8eb21ee13fadea43f5cd1b6b668f68e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:59 +0000
Subject: [PATCH 69/72] fix: kokkos connector ignored whether the ends of a
 floating point range are open

---
 connectors/kokkos/ccs-kokkos-connector.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/connectors/kokkos/ccs-kokkos-connector.cpp b/connectors/kokkos/ccs-kokkos-connector.cpp
index 52445be..83997bf 100644
--- a/connectors/kokkos/ccs-kokkos-connector.cpp
+++ b/connectors/kokkos/ccs-kokkos-connector.cpp
@@ -3,6 +3,7 @@
 #include <string>
 #include <iostream>
 #include <cassert>
+#include <cmath>
 #include <map>
 #include <set>
 #include <stack>
@@ -40,8 +41,6 @@
 static int64_t ccs_time = 0;
 #endif
 
-static constexpr const double epsilon = 1E-24;
-
 using namespace Kokkos::Tools::Experimental;
 
 // initialize the stack to true, so it should never be empty.
@@ -273,13 +272,15 @@ variable_info_to_parameter(const char *name, VariableInfo *info)
 			  assert(0.0 <= step);
 			  if (info->candidates.range.openLower) {
 				  if (step == 0.0)
-					  lower = lower + epsilon;
+					  lower = std::nextafter(
+						  lower, CCS_INFINITY);
 				  else
 					  lower = lower + step;
 			  }
 			  if (!info->candidates.range.openUpper) {
 				  if (step == 0.0)
-					  upper = upper + epsilon;
+					  upper = std::nextafter(
+						  upper, CCS_INFINITY);
 				  else // this is dubious/would require
 				       // verification
 					  upper = upper + step;
-- 
2.43.0


From c4c870df1bb915ffb52d593352b7393ce8fc2a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:26:21 +0000
Subject: [PATCH 70/72] fix: kokkos connector proposed values above the closed
 upper bound of a stepped floating point range

---
 connectors/kokkos/ccs-kokkos-connector.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/connectors/kokkos/ccs-kokkos-connector.cpp b/connectors/kokkos/ccs-kokkos-connector.cpp
index 83997bf..fff8a0a 100644
--- a/connectors/kokkos/ccs-kokkos-connector.cpp
+++ b/connectors/kokkos/ccs-kokkos-connector.cpp
@@ -281,9 +281,13 @@ variable_info_to_parameter(const char *name, VariableInfo *info)
 				  if (step == 0.0)
 					  upper = std::nextafter(
 						  upper, CCS_INFINITY);
-				  else // this is dubious/would require
-				       // verification
-					  upper = upper + step;
+				  else // first step past the last one in the
+				       // range, allowing for rounding
+					  upper = lower +
+						  (std::floor((upper - lower) /
+								      step +
+							      1E-9) +
+						   1.0) * step;
 			  }
 			  CCS_CHECK(ccs_create_numerical_parameter(
 				  name, CCS_NUMERIC_TYPE_FLOAT, lower, upper,
-- 
2.43.0


From 28d87c4800e00d91fc0283e5ff6edb308752c073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:26:48 +0000
Subject: [PATCH 71/72] fix: kokkos connector refused ranges shorter than their
 step

---
 connectors/kokkos/ccs-kokkos-connector.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/connectors/kokkos/ccs-kokkos-connector.cpp b/connectors/kokkos/ccs-kokkos-connector.cpp
index fff8a0a..a6de6b6 100644
--- a/connectors/kokkos/ccs-kokkos-connector.cpp
+++ b/connectors/kokkos/ccs-kokkos-connector.cpp
@@ -289,6 +289,8 @@ variable_info_to_parameter(const char *name, VariableInfo *info)
 							      1E-9) +
 						   1.0) * step;
 			  }
+			  if (step > upper - lower) // a single value
+				  step = upper - lower;
 			  CCS_CHECK(ccs_create_numerical_parameter(
 				  name, CCS_NUMERIC_TYPE_FLOAT, lower, upper,
 				  step, lower, &ret));
@@ -324,6 +326,10 @@ variable_info_to_parameter(const char *name, VariableInfo *info)
 				       // verification
 					  upper = upper + step;
 			  }
+			  if (lower < upper &&
+			      (uint64_t)step >
+				      (uint64_t)upper - (uint64_t)lower)
+				  step = upper - lower; // a single value
 			  CCS_CHECK(ccs_create_numerical_parameter(
 				  name, CCS_NUMERIC_TYPE_INT, lower, upper,
 				  step, lower, &ret));
-- 
2.43.0


From d0be109fae5d2ac7e9b47a3ba2b4a61d399a58f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:07:38 +0000
Subject: [PATCH 72/72] fix: tree weights that cannot be normalized (not
 finite, overflowing or vanishing) were accepted and mis-sampled

---
 src/tree.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/tree.c b/src/tree.c
index 460fb32..d1d22aa 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -233,6 +233,11 @@ _ccs_tree_update_weight(ccs_tree_t tree, size_t index, ccs_float_t weight)
 		tree_data->weights[index] = weight;
 		for (size_t i = 0; i < n; i++)
 			sum_weights += tree_data->weights[i];
+		/* too large or too small to be normalized */
+		CCS_REFUTE(
+			!isfinite(sum_weights) ||
+				(sum_weights > 0 && !isfinite(1.0 / sum_weights)),
+			CCS_RESULT_ERROR_INVALID_VALUE);
 		tree_data->sum_weights = sum_weights;
 		if (sum_weights > 0)
 			_ccs_distribution_roulette_normalize_areas(
@@ -350,7 +355,9 @@ ccs_result_t
 ccs_tree_set_weight(ccs_tree_t tree, ccs_float_t weight)
 {
 	CCS_CHECK_OBJ(tree, CCS_OBJECT_TYPE_TREE);
-	CCS_REFUTE(weight < 0.0, CCS_RESULT_ERROR_INVALID_VALUE);
+	CCS_REFUTE(
+		weight < 0.0 || !isfinite(weight),
+		CCS_RESULT_ERROR_INVALID_VALUE);
 	_ccs_tree_data_t *tree_data  = tree->data;
 	size_t            index      = tree_data->arity;
 	ccs_float_t       old_weight = tree_data->weights[index];
@@ -376,7 +383,8 @@ ccs_result_t
 ccs_tree_set_bias(ccs_tree_t tree, ccs_float_t bias)
 {
 	CCS_CHECK_OBJ(tree, CCS_OBJECT_TYPE_TREE);
-	CCS_REFUTE(bias < 0.0, CCS_RESULT_ERROR_INVALID_VALUE);
+	CCS_REFUTE(
+		bias < 0.0 || !isfinite(bias), CCS_RESULT_ERROR_INVALID_VALUE);
 	_ccs_tree_data_t *tree_data = tree->data;
 	ccs_float_t       old_bias  = tree_data->bias;
 	ccs_result_t      err       = CCS_RESULT_SUCCESS;
-- 
2.43.0

