From ab2e204f24d3f163da13c142be4e6e66cde9aa8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:02 +0000
Subject: [PATCH 01/50] fix: list membership with an inactive element evaluates
 to inactive

The inactive element was tested against the domain of the left variable,
so the evaluation failed instead of propagating the inactive state.
---
 src/expression.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/expression.c b/src/expression.c
index 028c660..3060291 100644
--- a/src/expression.c
+++ b/src/expression.c
@@ -725,8 +725,10 @@ _ccs_expr_in_eval(
 		ccs_datum_t right;
 		CCS_VALIDATE(ccs_expression_list_eval_node(
 			data->nodes[1], context, values, i, &right));
-		if (right.type == CCS_DATA_TYPE_INACTIVE)
+		if (right.type == CCS_DATA_TYPE_INACTIVE) {
 			inactive = CCS_TRUE;
+			continue;
+		}
 		CHECK_PARAMETERS(data->nodes[0], right, htl);
 		ccs_bool_t equal;
 		_ccs_datum_test_equal_generic(&left, &right, &equal);
-- 
2.43.0


From 3d494e06c34bb59e987d964bc720f5579eb31a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:02 +0000
Subject: [PATCH 02/50] fix: compare floating point operands by value, not by
 representation

0.0 == -0.0 evaluated to false while 0.0 <= -0.0 and 0.0 >= -0.0 are true.
---
 src/expression.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/expression.c b/src/expression.c
index 3060291..51f0ee2 100644
--- a/src/expression.c
+++ b/src/expression.c
@@ -363,6 +363,10 @@ _ccs_datum_test_equal_generic(ccs_datum_t *a, ccs_datum_t *b, ccs_bool_t *equal)
 		case CCS_DATA_TYPE_NONE:
 			*equal = CCS_TRUE;
 			break;
+		case CCS_DATA_TYPE_FLOAT:
+			*equal = a->value.f == b->value.f ? CCS_TRUE :
+							    CCS_FALSE;
+			break;
 		default:
 			*equal = memcmp(&(a->value), &(b->value),
 					sizeof(ccs_value_t)) == 0 ?
-- 
2.43.0


From b9ea129cac395ddb1628e7ae53e93e09e59572ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:53 +0000
Subject: [PATCH 03/50] fix: integer division and modulo of CCS_INT_MIN by -1

Both raised SIGFPE. The quotient does not fit an integer and is reported as
an error, the remainder is 0.
---
 src/expression.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/expression.c b/src/expression.c
index 51f0ee2..bf1b39b 100644
--- a/src/expression.c
+++ b/src/expression.c
@@ -885,7 +885,9 @@ _ccs_expr_divide_eval(
 	if (left.type == CCS_DATA_TYPE_INT) {
 		if (right.type == CCS_DATA_TYPE_INT) {
 			CCS_REFUTE(
-				right.value.i == 0,
+				right.value.i == 0 ||
+					(right.value.i == -1 &&
+					 left.value.i == CCS_INT_MIN),
 				CCS_RESULT_ERROR_INVALID_VALUE);
 			*result = ccs_int(left.value.i / right.value.i);
 			return CCS_RESULT_SUCCESS;
@@ -938,7 +940,10 @@ _ccs_expr_modulo_eval(
 			CCS_REFUTE(
 				right.value.i == 0,
 				CCS_RESULT_ERROR_INVALID_VALUE);
-			*result = ccs_int(left.value.i % right.value.i);
+			*result = ccs_int(
+				right.value.i == -1 ?
+					0 :
+					left.value.i % right.value.i);
 			return CCS_RESULT_SUCCESS;
 		} else if (right.type == CCS_DATA_TYPE_FLOAT) {
 			CCS_REFUTE(
-- 
2.43.0


From 3e114393cc6dd9987b80d88c4fe034d7a52064e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:53 +0000
Subject: [PATCH 04/50] fix: fill the extra entries of possible values with
 none

As every other getter does when given a larger array; the bounds of the loop
were swapped.
---
 src/parameter_categorical.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parameter_categorical.c b/src/parameter_categorical.c
index beefe62..70a2eac 100644
--- a/src/parameter_categorical.c
+++ b/src/parameter_categorical.c
@@ -405,7 +405,7 @@ _ccs_categorical_parameter_get_values(
 			CCS_RESULT_ERROR_INVALID_VALUE);
 		for (size_t i = 0; i < d->num_possible_values; i++)
 			possible_values[i] = d->possible_values[i].d;
-		for (size_t i = num_possible_values; i < d->num_possible_values;
+		for (size_t i = d->num_possible_values; i < num_possible_values;
 		     i++)
 			possible_values[i] = ccs_none;
 	}
-- 
2.43.0


From 1f4c637e6a2e619d044034beb9c9b2b75cd0c11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:53 +0000
Subject: [PATCH 05/50] fix: integer ranges larger than CCS_INT_MAX are valid

upper - lower overflowed and such parameters and distributions were rejected.
---
 src/distribution_uniform.c | 3 ++-
 src/parameter_numerical.c  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/distribution_uniform.c b/src/distribution_uniform.c
index 2b1f06c..5a1723f 100644
--- a/src/distribution_uniform.c
+++ b/src/distribution_uniform.c
@@ -397,7 +397,8 @@ ccs_create_uniform_distribution(
 			 (scale_type == CCS_SCALE_TYPE_LOGARITHMIC &&
 			  lower.i <= 0) ||
 			 quantization.i < 0 ||
-			 quantization.i > upper.i - lower.i),
+			 (uint64_t)quantization.i >
+				 (uint64_t)upper.i - (uint64_t)lower.i),
 		CCS_RESULT_ERROR_INVALID_VALUE);
 	CCS_REFUTE(
 		data_type == CCS_NUMERIC_TYPE_FLOAT &&
diff --git a/src/parameter_numerical.c b/src/parameter_numerical.c
index 645b518..37f8996 100644
--- a/src/parameter_numerical.c
+++ b/src/parameter_numerical.c
@@ -290,7 +290,8 @@ ccs_create_numerical_parameter(
 	CCS_REFUTE(
 		data_type == CCS_NUMERIC_TYPE_INT &&
 			(lower.i >= upper.i || quantization.i < 0 ||
-			 quantization.i > upper.i - lower.i ||
+			 (uint64_t)quantization.i >
+				 (uint64_t)upper.i - (uint64_t)lower.i ||
 			 default_value.i < lower.i ||
 			 default_value.i >= upper.i),
 		CCS_RESULT_ERROR_INVALID_VALUE);
-- 
2.43.0


From 5e4afcfc252a1ea24f234dc08a6b92e8c2071308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:59 +0000
Subject: [PATCH 06/50] fix: sample uniform integers whose range exceeds the
 one of the generator

gsl_rng_uniform_int aborts the program when asked for a number of values
larger than the range of the generator (2^32 - 1 by default).
---
 src/distribution_uniform.c | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/distribution_uniform.c b/src/distribution_uniform.c
index 5a1723f..91adea6 100644
--- a/src/distribution_uniform.c
+++ b/src/distribution_uniform.c
@@ -205,6 +205,22 @@ _ccs_distribution_uniform_get_bounds(
 	return CCS_RESULT_SUCCESS;
 }
 
+/* gsl_rng_uniform_int aborts if n is larger than the range of the generator */
+static inline uint64_t
+_ccs_uniform_int(gsl_rng *grng, uint64_t n)
+{
+	if (n <= gsl_rng_max(grng) - gsl_rng_min(grng))
+		return gsl_rng_uniform_int(grng, n);
+	const uint64_t limit = UINT64_MAX - UINT64_MAX % n;
+	uint64_t       r;
+	do {
+		r = 0;
+		for (int i = 0; i < 4; i++)
+			r = (r << 16) | gsl_rng_uniform_int(grng, 65536);
+	} while (r >= limit);
+	return r % n;
+}
+
 static ccs_result_t
 _ccs_distribution_uniform_strided_samples(
 	_ccs_distribution_data_t *data,
@@ -269,7 +285,7 @@ _ccs_distribution_uniform_strided_samples(
 						lower.i;
 		} else {
 			for (i = 0; i < num_values; i++) {
-				values[i * stride].i = gsl_rng_uniform_int(
+				values[i * stride].i = _ccs_uniform_int(
 					grng, internal_upper.i);
 			}
 			if (quantize)
@@ -344,7 +360,7 @@ _ccs_distribution_uniform_samples(
 						      lower.i;
 		} else {
 			for (i = 0; i < num_values; i++) {
-				values[i].i = gsl_rng_uniform_int(
+				values[i].i = _ccs_uniform_int(
 					grng, internal_upper.i);
 			}
 			if (quantize)
@@ -452,10 +468,11 @@ ccs_create_uniform_distribution(
 			distrib_data->internal_upper.f = log(upper.i);
 		} else {
 			distrib_data->internal_lower.i = 0;
-			distrib_data->internal_upper.i = upper.i - lower.i;
+			uint64_t range =
+				(uint64_t)upper.i - (uint64_t)lower.i;
 			if (quantization.i != 0)
-				distrib_data->internal_upper.i /=
-					quantization.i;
+				range /= (uint64_t)quantization.i;
+			distrib_data->internal_upper.i = range;
 		}
 	}
 	distrib->data     = (_ccs_distribution_data_t *)distrib_data;
-- 
2.43.0


From 85e1a17693a83bc82e4a69ba18282f83bf2506f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:30 +0000
Subject: [PATCH 07/50] fix: uniform samples stay within [lower, upper[ despite
 rounding

---
 src/distribution_uniform.c | 45 +++++++++++++++++++++++++++++++++-----
 1 file changed, 39 insertions(+), 6 deletions(-)

diff --git a/src/distribution_uniform.c b/src/distribution_uniform.c
index 91adea6..8c52c87 100644
--- a/src/distribution_uniform.c
+++ b/src/distribution_uniform.c
@@ -221,6 +221,30 @@ _ccs_uniform_int(gsl_rng *grng, uint64_t n)
 	return r % n;
 }
 
+/* rounding can bring a sample out of [lower, upper[ */
+static inline ccs_float_t
+_ccs_uniform_clamp_float(
+	_ccs_distribution_uniform_data_t *d,
+	ccs_float_t                       value)
+{
+	if (value < d->lower.f)
+		return d->lower.f;
+	if (value >= d->upper.f)
+		return d->quantize ? value - d->quantization.f :
+				     nextafter(d->upper.f, d->lower.f);
+	return value;
+}
+
+static inline ccs_int_t
+_ccs_uniform_clamp_int(_ccs_distribution_uniform_data_t *d, ccs_float_t value)
+{
+	if (value < d->lower.i)
+		return d->lower.i;
+	if (value >= d->upper.i)
+		return d->upper.i - 1;
+	return value;
+}
+
 static ccs_result_t
 _ccs_distribution_uniform_strided_samples(
 	_ccs_distribution_data_t *data,
@@ -268,12 +292,17 @@ _ccs_distribution_uniform_strided_samples(
 		else
 			for (i = 0; i < num_values; i++)
 				values[i * stride].f += lower.f;
+		for (i = 0; i < num_values; i++)
+			values[i * stride].f =
+				_ccs_uniform_clamp_float(d, values[i * stride].f);
 	} else {
 		if (scale_type == CCS_SCALE_TYPE_LOGARITHMIC) {
 			for (i = 0; i < num_values; i++) {
-				values[i * stride].i = floor(exp(gsl_ran_flat(
-					grng, internal_lower.f,
-					internal_upper.f)));
+				values[i * stride].i = _ccs_uniform_clamp_int(
+					d,
+					floor(exp(gsl_ran_flat(
+						grng, internal_lower.f,
+						internal_upper.f))));
 			}
 			if (quantize)
 				for (i = 0; i < num_values; i++)
@@ -345,12 +374,16 @@ _ccs_distribution_uniform_samples(
 		else
 			for (i = 0; i < num_values; i++)
 				values[i].f += lower.f;
+		for (i = 0; i < num_values; i++)
+			values[i].f = _ccs_uniform_clamp_float(d, values[i].f);
 	} else {
 		if (scale_type == CCS_SCALE_TYPE_LOGARITHMIC) {
 			for (i = 0; i < num_values; i++) {
-				values[i].i = floor(exp(gsl_ran_flat(
-					grng, internal_lower.f,
-					internal_upper.f)));
+				values[i].i = _ccs_uniform_clamp_int(
+					d,
+					floor(exp(gsl_ran_flat(
+						grng, internal_lower.f,
+						internal_upper.f))));
 			}
 			if (quantize)
 				for (i = 0; i < num_values; i++)
-- 
2.43.0


From 2c90123ac5497ff07a38607ff0c0cd41eb2e52cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:28 +0000
Subject: [PATCH 08/50] fix: a rejected condition leaves the evaluation order
 of the space untouched

---
 src/configuration_space.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/configuration_space.c b/src/configuration_space.c
index 6392af3..9cb09fb 100644
--- a/src/configuration_space.c
+++ b/src/configuration_space.c
@@ -1331,6 +1331,8 @@ ccs_configuration_space_set_condition(
 erre:
 	ccs_release_object(expression);
 	wrapper->condition = NULL;
+	// Restore the graph and the evaluation order
+	_generate_constraints(configuration_space);
 	return err;
 }
 
-- 
2.43.0


From deac18b625a013d3cb9fc6c80720bad0b1614946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:28 +0000
Subject: [PATCH 09/50] fix: release configurations already sampled when
 sampling several fails

---
 src/configuration_space.c | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/configuration_space.c b/src/configuration_space.c
index 9cb09fb..cf47081 100644
--- a/src/configuration_space.c
+++ b/src/configuration_space.c
@@ -1101,8 +1101,11 @@ ccs_configuration_space_samples(
 	while (count < num_configurations &&
 	       counter < 100 * num_configurations) {
 		if (!config)
-			CCS_VALIDATE(ccs_create_configuration(
-				configuration_space, 0, NULL, &config));
+			CCS_VALIDATE_ERR_GOTO(
+				err,
+				ccs_create_configuration(
+					configuration_space, 0, NULL, &config),
+				errc);
 		CCS_VALIDATE_ERR_GOTO(
 			err, _sample(configuration_space, config, &found),
 			errc);
@@ -1112,12 +1115,17 @@ ccs_configuration_space_samples(
 			config                  = NULL;
 		}
 	}
-	CCS_REFUTE(
-		count < num_configurations,
-		CCS_RESULT_ERROR_SAMPLING_UNSUCCESSFUL);
+	CCS_REFUTE_ERR_GOTO(
+		err, count < num_configurations,
+		CCS_RESULT_ERROR_SAMPLING_UNSUCCESSFUL, errc);
 	return CCS_RESULT_SUCCESS;
 errc:
-	ccs_release_object(config);
+	if (config)
+		ccs_release_object(config);
+	while (count > 0) {
+		ccs_release_object(configurations[--count]);
+		configurations[count] = NULL;
+	}
 	return err;
 }
 
-- 
2.43.0


From 70456ec05432409d58357c4963040564febb3e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:28 +0000
Subject: [PATCH 10/50] fix: temporary bounds of a mixture are sized by its
 dimension

---
 src/distribution_mixture.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/distribution_mixture.c b/src/distribution_mixture.c
index dc11674..8d6c89d 100644
--- a/src/distribution_mixture.c
+++ b/src/distribution_mixture.c
@@ -236,14 +236,14 @@ ccs_create_mixture_distribution(
 	cur_mem = mem;
 
 	tmp_mem = (uintptr_t)calloc(
-		1, sizeof(ccs_interval_t) * num_distributions +
+		1, sizeof(ccs_interval_t) * dimension +
 			   sizeof(ccs_numeric_type_t) * dimension);
 	CCS_REFUTE_ERR_GOTO(
 		err, !tmp_mem, CCS_RESULT_ERROR_OUT_OF_MEMORY, memory);
 	bounds_tmp = (ccs_interval_t *)tmp_mem;
 	data_types_tmp =
 		(ccs_numeric_type_t
-			 *)(tmp_mem + sizeof(ccs_interval_t) * num_distributions);
+			 *)(tmp_mem + sizeof(ccs_interval_t) * dimension);
 
 	distrib = (ccs_distribution_t)cur_mem;
 	cur_mem += sizeof(struct _ccs_distribution_s);
@@ -313,7 +313,7 @@ ccs_create_mixture_distribution(
 	distrib_data->weights[num_distributions] = 1.0;
 	CCS_REFUTE_ERR_GOTO(
 		err, 1.0 < distrib_data->weights[num_distributions - 1],
-		CCS_RESULT_ERROR_INVALID_VALUE, memory);
+		CCS_RESULT_ERROR_INVALID_VALUE, tmpmemory);
 	for (i = 0; i < num_distributions; i++) {
 		CCS_VALIDATE_ERR_GOTO(
 			err, ccs_retain_object(distributions[i]), distrib);
-- 
2.43.0


From 53af6fc2da2e2781ab4eb9ce940ca1acc9432fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:28 +0000
Subject: [PATCH 11/50] fix: mixture structure of array sampling skips
 unrequested components

---
 src/distribution_mixture.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/distribution_mixture.c b/src/distribution_mixture.c
index 8d6c89d..ed6e7fe 100644
--- a/src/distribution_mixture.c
+++ b/src/distribution_mixture.c
@@ -435,8 +435,7 @@ _ccs_distribution_mixture_soa_samples(
 		ccs_int_t   index = _ccs_dichotomic_search(
                         d->num_distributions, d->weights, rnd);
 		for (size_t j = 0; j < dim; j++)
-			if (values[j])
-				p_values[j] = values[j] + i;
+			p_values[j] = values[j] ? values[j] + i : NULL;
 		CCS_VALIDATE(ccs_distribution_get_ops(d->distributions[index])
 				     ->soa_samples(
 					     d->distributions[index]->data, rng,
-- 
2.43.0


From 9121efc2ae6cc8bd2a254e1beff87e0f5480e700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:31 +0000
Subject: [PATCH 12/50] fix: release the sampling buffer when parameter
 oversampling is unsuccessful

---
 src/parameter_categorical.c | 6 +++---
 src/parameter_numerical.c   | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/parameter_categorical.c b/src/parameter_categorical.c
index 70a2eac..94552e4 100644
--- a/src/parameter_categorical.c
+++ b/src/parameter_categorical.c
@@ -178,9 +178,9 @@ _ccs_parameter_categorical_samples(
 		vs           = NULL;
 		size_t coeff = 2;
 		while (found < num_values) {
-			CCS_REFUTE(
-				coeff > 32,
-				CCS_RESULT_ERROR_SAMPLING_UNSUCCESSFUL);
+			CCS_REFUTE_ERR_GOTO(
+				err, coeff > 32,
+				CCS_RESULT_ERROR_SAMPLING_UNSUCCESSFUL, errmem);
 			size_t     buff_sz = (num_values - found) * coeff;
 			ccs_int_t *oldvs   = vs;
 			vs                 = (ccs_int_t *)realloc(
diff --git a/src/parameter_numerical.c b/src/parameter_numerical.c
index 37f8996..2447243 100644
--- a/src/parameter_numerical.c
+++ b/src/parameter_numerical.c
@@ -160,9 +160,9 @@ _ccs_parameter_numerical_samples(
 		vs           = NULL;
 		size_t coeff = 2;
 		while (found < num_values) {
-			CCS_REFUTE(
-				coeff > 32,
-				CCS_RESULT_ERROR_SAMPLING_UNSUCCESSFUL);
+			CCS_REFUTE_ERR_GOTO(
+				err, coeff > 32,
+				CCS_RESULT_ERROR_SAMPLING_UNSUCCESSFUL, errmem);
 			size_t         buff_sz = (num_values - found) * coeff;
 			ccs_numeric_t *oldvs   = vs;
 			vs                     = (ccs_numeric_t *)realloc(
-- 
2.43.0


From 71a5826c23e0f584752489be6732d03842b4d2e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:31 +0000
Subject: [PATCH 13/50] fix: sampling a parameter requires a distribution of
 dimension one

---
 src/parameter.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/parameter.c b/src/parameter.c
index 55d8137..258647c 100644
--- a/src/parameter.c
+++ b/src/parameter.c
@@ -125,6 +125,9 @@ ccs_parameter_sample(
 	CCS_CHECK_OBJ(distribution, CCS_OBJECT_TYPE_DISTRIBUTION);
 	CCS_CHECK_OBJ(rng, CCS_OBJECT_TYPE_RNG);
 	CCS_CHECK_PTR(value_ret);
+	size_t dimension;
+	CCS_VALIDATE(ccs_distribution_get_dimension(distribution, &dimension));
+	CCS_REFUTE(dimension != 1, CCS_RESULT_ERROR_INVALID_DISTRIBUTION);
 	_ccs_parameter_ops_t *ops = ccs_parameter_get_ops(parameter);
 	CCS_VALIDATE(
 		ops->samples(parameter->data, distribution, rng, 1, value_ret));
@@ -145,6 +148,9 @@ ccs_parameter_samples(
 	CCS_CHECK_ARY(num_values, values);
 	if (!num_values)
 		return CCS_RESULT_SUCCESS;
+	size_t dimension;
+	CCS_VALIDATE(ccs_distribution_get_dimension(distribution, &dimension));
+	CCS_REFUTE(dimension != 1, CCS_RESULT_ERROR_INVALID_DISTRIBUTION);
 	_ccs_parameter_ops_t *ops = ccs_parameter_get_ops(parameter);
 	CCS_VALIDATE(ops->samples(
 		parameter->data, distribution, rng, num_values, values));
-- 
2.43.0


From a8300c73630c02fab745fe0ca73fc866145ef84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:31 +0000
Subject: [PATCH 14/50] fix: checking features values takes a features space

---
 src/features_space.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/features_space.c b/src/features_space.c
index 7bec62d..fa906d8 100644
--- a/src/features_space.c
+++ b/src/features_space.c
@@ -366,7 +366,7 @@ ccs_features_space_check_features_values(
 	ccs_datum_t         *values,
 	ccs_bool_t          *is_valid_ret)
 {
-	CCS_CHECK_OBJ(features_space, CCS_OBJECT_TYPE_CONFIGURATION_SPACE);
+	CCS_CHECK_OBJ(features_space, CCS_OBJECT_TYPE_FEATURES_SPACE);
 	CCS_CHECK_ARY(num_values, values);
 	CCS_VALIDATE(_check_features(
 		features_space, num_values, values, is_valid_ret));
-- 
2.43.0


From 77d1cb4e746c4676a156e1530f62b35ac436cf89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:32 +0000
Subject: [PATCH 15/50] fix: checking configurations, features or evaluations
 requires a result pointer

---
 src/configuration_space.c | 2 ++
 src/features_space.c      | 2 ++
 src/objective_space.c     | 1 +
 3 files changed, 5 insertions(+)

diff --git a/src/configuration_space.c b/src/configuration_space.c
index cf47081..eb93740 100644
--- a/src/configuration_space.c
+++ b/src/configuration_space.c
@@ -967,6 +967,7 @@ ccs_configuration_space_check_configuration(
 {
 	CCS_CHECK_OBJ(configuration_space, CCS_OBJECT_TYPE_CONFIGURATION_SPACE);
 	CCS_CHECK_OBJ(configuration, CCS_OBJECT_TYPE_CONFIGURATION);
+	CCS_CHECK_PTR(is_valid_ret);
 	CCS_REFUTE(
 		configuration->data->configuration_space != configuration_space,
 		CCS_RESULT_ERROR_INVALID_CONFIGURATION);
@@ -987,6 +988,7 @@ ccs_configuration_space_check_configuration_values(
 {
 	CCS_CHECK_OBJ(configuration_space, CCS_OBJECT_TYPE_CONFIGURATION_SPACE);
 	CCS_CHECK_ARY(num_values, values);
+	CCS_CHECK_PTR(is_valid_ret);
 	if (!configuration_space->data->graph_ok)
 		CCS_VALIDATE(_generate_constraints(configuration_space));
 	CCS_VALIDATE(_check_configuration(
diff --git a/src/features_space.c b/src/features_space.c
index fa906d8..a479d5e 100644
--- a/src/features_space.c
+++ b/src/features_space.c
@@ -350,6 +350,7 @@ ccs_features_space_check_features(
 {
 	CCS_CHECK_OBJ(features_space, CCS_OBJECT_TYPE_FEATURES_SPACE);
 	CCS_CHECK_OBJ(features, CCS_OBJECT_TYPE_FEATURES);
+	CCS_CHECK_PTR(is_valid_ret);
 	CCS_REFUTE(
 		features->data->features_space != features_space,
 		CCS_RESULT_ERROR_INVALID_FEATURES);
@@ -368,6 +369,7 @@ ccs_features_space_check_features_values(
 {
 	CCS_CHECK_OBJ(features_space, CCS_OBJECT_TYPE_FEATURES_SPACE);
 	CCS_CHECK_ARY(num_values, values);
+	CCS_CHECK_PTR(is_valid_ret);
 	CCS_VALIDATE(_check_features(
 		features_space, num_values, values, is_valid_ret));
 	return CCS_RESULT_SUCCESS;
diff --git a/src/objective_space.c b/src/objective_space.c
index 0355ea6..20a964a 100644
--- a/src/objective_space.c
+++ b/src/objective_space.c
@@ -466,6 +466,7 @@ ccs_objective_space_check_evaluation_values(
 {
 	CCS_CHECK_OBJ(objective_space, CCS_OBJECT_TYPE_OBJECTIVE_SPACE);
 	CCS_CHECK_ARY(num_values, values);
+	CCS_CHECK_PTR(is_valid_ret);
 	CCS_VALIDATE(_check_evaluation(
 		objective_space, num_values, values, is_valid_ret));
 	return CCS_RESULT_SUCCESS;
-- 
2.43.0


From ac571b61e183c3e0b4d7b5f93f2bf403beb03432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:12 +0000
Subject: [PATCH 16/50] fix: emptiness and equality of intervals follow the set
 of values they contain

---
 src/interval.c | 43 +++++++++++++++++++++++++------------------
 1 file changed, 25 insertions(+), 18 deletions(-)

diff --git a/src/interval.c b/src/interval.c
index cabc912..9ee0fc6 100644
--- a/src/interval.c
+++ b/src/interval.c
@@ -1,27 +1,30 @@
 #include "cconfigspace_internal.h"
 
-ccs_result_t
-ccs_interval_empty(ccs_interval_t *interval, ccs_bool_t *empty_ret)
+static inline ccs_bool_t
+_ccs_interval_empty(ccs_interval_t *interval)
 {
-	CCS_REFUTE(!interval || !empty_ret, CCS_RESULT_ERROR_INVALID_VALUE);
 	// Empty ranges
 	// [l,u] when l> u; ]l,u] when l>=u
-	// [l,u[ when l>=u; ]l,u[ when l>=u
+	// [l,u[ when l>=u; ]l,u[ when l>=u (or l+1>=u for integers)
 	if (interval->type == CCS_NUMERIC_TYPE_INT) {
-		if (interval->upper_included && interval->lower_included ?
-			    interval->lower.i > interval->upper.i :
-			    interval->lower.i >= interval->upper.i) {
-			*empty_ret = CCS_TRUE;
-		} else
-			*empty_ret = CCS_FALSE;
-	} else {
-		if (interval->upper_included && interval->lower_included ?
-			    interval->lower.f > interval->upper.f :
-			    interval->lower.f >= interval->upper.f) {
-			*empty_ret = CCS_TRUE;
-		} else
-			*empty_ret = CCS_FALSE;
+		if (interval->upper_included && interval->lower_included)
+			return interval->lower.i > interval->upper.i;
+		if (interval->lower.i >= interval->upper.i)
+			return CCS_TRUE;
+		return !interval->upper_included &&
+		       !interval->lower_included &&
+		       interval->lower.i + 1 == interval->upper.i;
 	}
+	return interval->upper_included && interval->lower_included ?
+		       interval->lower.f > interval->upper.f :
+		       interval->lower.f >= interval->upper.f;
+}
+
+ccs_result_t
+ccs_interval_empty(ccs_interval_t *interval, ccs_bool_t *empty_ret)
+{
+	CCS_REFUTE(!interval || !empty_ret, CCS_RESULT_ERROR_INVALID_VALUE);
+	*empty_ret = _ccs_interval_empty(interval);
 	return CCS_RESULT_SUCCESS;
 }
 #define MERGE_MAX(l1, li1, l2, li2, l, li)                                     \
@@ -146,7 +149,11 @@ ccs_interval_equal(
 	CCS_REFUTE(
 		interval1->type != interval2->type,
 		CCS_RESULT_ERROR_INVALID_TYPE);
-	if (interval1->type == CCS_NUMERIC_TYPE_FLOAT) {
+	ccs_bool_t empty1 = _ccs_interval_empty(interval1);
+	ccs_bool_t empty2 = _ccs_interval_empty(interval2);
+	if (empty1 || empty2) {
+		*equal_res = empty1 && empty2;
+	} else if (interval1->type == CCS_NUMERIC_TYPE_FLOAT) {
 		*equal_res =
 			(interval1->lower.f == interval2->lower.f &&
 			 interval1->upper.f == interval2->upper.f &&
-- 
2.43.0


From 7b8abab5234d47b4518671c12918d3bce6cd5d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:12 +0000
Subject: [PATCH 17/50] fix: the union of two intervals contains both of them

---
 src/interval.c | 45 +++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 41 insertions(+), 4 deletions(-)

diff --git a/src/interval.c b/src/interval.c
index 9ee0fc6..6538aec 100644
--- a/src/interval.c
+++ b/src/interval.c
@@ -101,6 +101,35 @@ ccs_interval_intersect(
 	return CCS_RESULT_SUCCESS;
 }
 
+// A bound shared by the two intervals is included if either includes it
+#define UNION_MAX(l1, li1, l2, li2, l, li)                                     \
+	{                                                                      \
+		if (l1 > l2) {                                                 \
+			l  = l1;                                               \
+			li = li1;                                              \
+		} else if (l2 > l1) {                                          \
+			l  = l2;                                               \
+			li = li2;                                              \
+		} else {                                                       \
+			l  = l1;                                               \
+			li = li1 || li2;                                       \
+		}                                                              \
+	}
+
+#define UNION_MIN(l1, li1, l2, li2, l, li)                                     \
+	{                                                                      \
+		if (l1 < l2) {                                                 \
+			l  = l1;                                               \
+			li = li1;                                              \
+		} else if (l2 < l1) {                                          \
+			l  = l2;                                               \
+			li = li2;                                              \
+		} else {                                                       \
+			l  = l1;                                               \
+			li = li1 || li2;                                       \
+		}                                                              \
+	}
+
 ccs_result_t
 ccs_interval_union(
 	ccs_interval_t *interval1,
@@ -113,23 +142,31 @@ ccs_interval_union(
 	CCS_REFUTE(
 		interval1->type != interval2->type,
 		CCS_RESULT_ERROR_INVALID_TYPE);
+	if (_ccs_interval_empty(interval1)) {
+		*interval_res = *interval2;
+		return CCS_RESULT_SUCCESS;
+	}
+	if (_ccs_interval_empty(interval2)) {
+		*interval_res = *interval1;
+		return CCS_RESULT_SUCCESS;
+	}
 	if (interval1->type == CCS_NUMERIC_TYPE_FLOAT) {
 		interval_res->type = CCS_NUMERIC_TYPE_FLOAT;
-		MERGE_MIN(
+		UNION_MIN(
 			interval1->lower.f, interval1->lower_included,
 			interval2->lower.f, interval2->lower_included,
 			interval_res->lower.f, interval_res->lower_included);
-		MERGE_MAX(
+		UNION_MAX(
 			interval1->upper.f, interval1->upper_included,
 			interval2->upper.f, interval2->upper_included,
 			interval_res->upper.f, interval_res->upper_included);
 	} else {
 		interval_res->type = CCS_NUMERIC_TYPE_INT;
-		MERGE_MIN(
+		UNION_MIN(
 			interval1->lower.i, interval1->lower_included,
 			interval2->lower.i, interval2->lower_included,
 			interval_res->lower.i, interval_res->lower_included);
-		MERGE_MAX(
+		UNION_MAX(
 			interval1->upper.i, interval1->upper_included,
 			interval2->upper.i, interval2->upper_included,
 			interval_res->upper.i, interval_res->upper_included);
-- 
2.43.0


From efada854e3711f6d070b566f39068e23655dd867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:47 +0000
Subject: [PATCH 18/50] fix: the keys of a map are its keys, not its values

---
 src/map.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/map.c b/src/map.c
index b10d5d0..91f21ae 100644
--- a/src/map.c
+++ b/src/map.c
@@ -294,7 +294,7 @@ ccs_map_get_keys(
 		_ccs_map_datum_t *current = NULL, *tmp;
 		size_t            i       = 0;
 		HASH_ITER(hh, map->data->map, current, tmp)
-		keys[i++] = current->value;
+		keys[i++] = current->key;
 		for (i = num_entries; i < num_keys; i++)
 			keys[i] = ccs_none;
 	}
-- 
2.43.0


From 49cdd8beee17335cd743884266b674740ebcdef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:47 +0000
Subject: [PATCH 19/50] fix: a tree cannot become its own descendant

---
 src/tree.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tree.c b/src/tree.c
index 7c37190..fdbfbc0 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -271,6 +271,8 @@ ccs_tree_set_child(ccs_tree_t tree, size_t index, ccs_tree_t child)
 	CCS_REFUTE(
 		child_data->parent || child_data->index,
 		CCS_RESULT_ERROR_INVALID_TREE);
+	for (ccs_tree_t t = tree; t; t = t->data->parent)
+		CCS_REFUTE(t == child, CCS_RESULT_ERROR_INVALID_TREE);
 	CCS_VALIDATE(ccs_retain_object(child));
 
 	child_data->parent         = tree;
-- 
2.43.0


From 653451cd5f805d30c11c2223bc28e999f149b79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:42 +0000
Subject: [PATCH 20/50] fix: an optimum that cannot be compared with a new
 evaluation stays an optimum

---
 src/features_tuner_random.c | 6 ++++--
 src/tree_tuner_random.c     | 6 ++++--
 src/tuner_random.c          | 6 ++++--
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/features_tuner_random.c b/src/features_tuner_random.c
index ef3d602..979939e 100644
--- a/src/features_tuner_random.c
+++ b/src/features_tuner_random.c
@@ -222,9 +222,11 @@ _ccs_features_tuner_random_tell(
 					ccs_comparison_t cmp;
 					err = ccs_features_evaluation_compare(
 						evaluations[i], *eval, &cmp);
-					if (err)
+					if (err) {
 						discard = 1;
-					else
+						utarray_push_back(
+							d->optima, eval);
+					} else
 						switch (cmp) {
 						case CCS_COMPARISON_EQUIVALENT:
 						case CCS_COMPARISON_WORSE:
diff --git a/src/tree_tuner_random.c b/src/tree_tuner_random.c
index ed39c99..cf7fe03 100644
--- a/src/tree_tuner_random.c
+++ b/src/tree_tuner_random.c
@@ -214,9 +214,11 @@ _ccs_tree_tuner_random_tell(
 					ccs_comparison_t cmp;
 					err = ccs_tree_evaluation_compare(
 						evaluations[i], *eval, &cmp);
-					if (err)
+					if (err) {
 						discard = 1;
-					else
+						utarray_push_back(
+							d->optima, eval);
+					} else
 						switch (cmp) {
 						case CCS_COMPARISON_EQUIVALENT:
 						case CCS_COMPARISON_WORSE:
diff --git a/src/tuner_random.c b/src/tuner_random.c
index e9c072f..26aeab1 100644
--- a/src/tuner_random.c
+++ b/src/tuner_random.c
@@ -213,9 +213,11 @@ _ccs_tuner_random_tell(
 					ccs_comparison_t cmp;
 					err = ccs_evaluation_compare(
 						evaluations[i], *eval, &cmp);
-					if (err)
+					if (err) {
 						discard = 1;
-					else
+						utarray_push_back(
+							d->optima, eval);
+					} else
 						switch (cmp) {
 						case CCS_COMPARISON_EQUIVALENT:
 						case CCS_COMPARISON_WORSE:
-- 
2.43.0


From 320b19bc136c157d16fb34d68cc876fc77dd97e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:12 +0000
Subject: [PATCH 21/50] fix: objective values are written only when the array
 can hold them all

---
 src/evaluation.c          | 2 +-
 src/features_evaluation.c | 2 +-
 src/tree_evaluation.c     | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/evaluation.c b/src/evaluation.c
index acabf57..4201894 100644
--- a/src/evaluation.c
+++ b/src/evaluation.c
@@ -359,7 +359,7 @@ ccs_evaluation_get_objective_values(
 	CCS_VALIDATE(ccs_objective_space_get_objectives(
 		evaluation->data->objective_space, 0, NULL, NULL, &count));
 	if (values) {
-		CCS_REFUTE(count < num_values, CCS_RESULT_ERROR_INVALID_VALUE);
+		CCS_REFUTE(num_values < count, CCS_RESULT_ERROR_INVALID_VALUE);
 		for (size_t i = 0; i < count; i++) {
 			ccs_expression_t     expression;
 			ccs_objective_type_t type;
diff --git a/src/features_evaluation.c b/src/features_evaluation.c
index 7d2c103..e64b786 100644
--- a/src/features_evaluation.c
+++ b/src/features_evaluation.c
@@ -402,7 +402,7 @@ ccs_features_evaluation_get_objective_values(
 	CCS_VALIDATE(ccs_objective_space_get_objectives(
 		evaluation->data->objective_space, 0, NULL, NULL, &count));
 	if (values) {
-		CCS_REFUTE(count < num_values, CCS_RESULT_ERROR_INVALID_VALUE);
+		CCS_REFUTE(num_values < count, CCS_RESULT_ERROR_INVALID_VALUE);
 		for (size_t i = 0; i < count; i++) {
 			ccs_expression_t     expression;
 			ccs_objective_type_t type;
diff --git a/src/tree_evaluation.c b/src/tree_evaluation.c
index c78232f..614e32b 100644
--- a/src/tree_evaluation.c
+++ b/src/tree_evaluation.c
@@ -364,7 +364,7 @@ ccs_tree_evaluation_get_objective_values(
 	CCS_VALIDATE(ccs_objective_space_get_objectives(
 		evaluation->data->objective_space, 0, NULL, NULL, &count));
 	if (values) {
-		CCS_REFUTE(count < num_values, CCS_RESULT_ERROR_INVALID_VALUE);
+		CCS_REFUTE(num_values < count, CCS_RESULT_ERROR_INVALID_VALUE);
 		for (size_t i = 0; i < count; i++) {
 			ccs_expression_t     expression;
 			ccs_objective_type_t type;
-- 
2.43.0


From d8b9cc999a441386b9a811deed13cccefe664fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:01 +0000
Subject: [PATCH 22/50] fix: creating a configuration from an invalid value
 releases its space

---
 src/configuration.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/configuration.c b/src/configuration.c
index d558a05..82663c0 100644
--- a/src/configuration.c
+++ b/src/configuration.c
@@ -130,10 +130,12 @@ ccs_create_configuration(
 						configuration_space, i,
 						values[i],
 						config->data->values + i),
-					errmem);
+					errcs);
 	}
 	*configuration_ret = config;
 	return CCS_RESULT_SUCCESS;
+errcs:
+	ccs_release_object(configuration_space);
 errmem:
 	free((void *)mem);
 	return err;
-- 
2.43.0


From efb39d1f85997772e5fd1dae7cca1748d329541a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:25 +0000
Subject: [PATCH 23/50] fix: objectives are not evaluated past the values of an
 evaluation

---
 src/evaluation.c               | 32 ++++++++++++-----------
 src/features_evaluation.c      | 32 ++++++++++++-----------
 src/objective_space_internal.h | 47 ++++++++++++++++++++++++++++++++++
 src/tree_evaluation.c          | 32 ++++++++++++-----------
 4 files changed, 98 insertions(+), 45 deletions(-)

diff --git a/src/evaluation.c b/src/evaluation.c
index 4201894..01a2dc0 100644
--- a/src/evaluation.c
+++ b/src/evaluation.c
@@ -1,5 +1,6 @@
 #include "cconfigspace_internal.h"
 #include "evaluation_internal.h"
+#include "objective_space_internal.h"
 #include "configuration_internal.h"
 #include <string.h>
 
@@ -339,9 +340,10 @@ ccs_evaluation_get_objective_value(
 	ccs_objective_type_t type;
 	CCS_VALIDATE(ccs_objective_space_get_objective(
 		evaluation->data->objective_space, index, &expression, &type));
-	CCS_VALIDATE(ccs_expression_eval(
-		expression, (ccs_context_t)evaluation->data->objective_space,
-		evaluation->data->values, value_ret));
+	CCS_VALIDATE(_ccs_objective_eval(
+		evaluation->data->objective_space, expression,
+		evaluation->data->num_values, evaluation->data->values,
+		value_ret));
 	return CCS_RESULT_SUCCESS;
 }
 
@@ -367,10 +369,10 @@ ccs_evaluation_get_objective_values(
 			CCS_VALIDATE(ccs_objective_space_get_objective(
 				evaluation->data->objective_space, i,
 				&expression, &type));
-			CCS_VALIDATE(ccs_expression_eval(
-				expression,
-				(ccs_context_t)evaluation->data->objective_space,
-				evaluation->data->values, values + i));
+			CCS_VALIDATE(_ccs_objective_eval(
+				evaluation->data->objective_space, expression,
+				evaluation->data->num_values, evaluation->data->values,
+				values + i));
 		}
 		for (size_t i = count; i < num_values; i++)
 			values[i] = ccs_none;
@@ -455,14 +457,14 @@ ccs_evaluation_compare(
 		CCS_VALIDATE(ccs_objective_space_get_objective(
 			evaluation->data->objective_space, i, &expression,
 			&type));
-		CCS_VALIDATE(ccs_expression_eval(
-			expression,
-			(ccs_context_t)evaluation->data->objective_space,
-			evaluation->data->values, values));
-		CCS_VALIDATE(ccs_expression_eval(
-			expression,
-			(ccs_context_t)evaluation->data->objective_space,
-			other_evaluation->data->values, values + 1));
+		CCS_VALIDATE(_ccs_objective_eval(
+			evaluation->data->objective_space, expression,
+			evaluation->data->num_values, evaluation->data->values,
+			values));
+		CCS_VALIDATE(_ccs_objective_eval(
+			evaluation->data->objective_space, expression,
+			other_evaluation->data->num_values, other_evaluation->data->values,
+			values + 1));
 		// Maybe relax to allow comparing Numerical values of different
 		// types.
 		if ((values[0].type != CCS_DATA_TYPE_INT &&
diff --git a/src/features_evaluation.c b/src/features_evaluation.c
index e64b786..fe70fc5 100644
--- a/src/features_evaluation.c
+++ b/src/features_evaluation.c
@@ -1,5 +1,6 @@
 #include "cconfigspace_internal.h"
 #include "features_evaluation_internal.h"
+#include "objective_space_internal.h"
 #include "configuration_internal.h"
 #include "features_internal.h"
 #include <string.h>
@@ -382,9 +383,10 @@ ccs_features_evaluation_get_objective_value(
 	ccs_objective_type_t type;
 	CCS_VALIDATE(ccs_objective_space_get_objective(
 		evaluation->data->objective_space, index, &expression, &type));
-	CCS_VALIDATE(ccs_expression_eval(
-		expression, (ccs_context_t)evaluation->data->objective_space,
-		evaluation->data->values, value_ret));
+	CCS_VALIDATE(_ccs_objective_eval(
+		evaluation->data->objective_space, expression,
+		evaluation->data->num_values, evaluation->data->values,
+		value_ret));
 	return CCS_RESULT_SUCCESS;
 }
 
@@ -410,10 +412,10 @@ ccs_features_evaluation_get_objective_values(
 			CCS_VALIDATE(ccs_objective_space_get_objective(
 				evaluation->data->objective_space, i,
 				&expression, &type));
-			CCS_VALIDATE(ccs_expression_eval(
-				expression,
-				(ccs_context_t)evaluation->data->objective_space,
-				evaluation->data->values, values + i));
+			CCS_VALIDATE(_ccs_objective_eval(
+				evaluation->data->objective_space, expression,
+				evaluation->data->num_values, evaluation->data->values,
+				values + i));
 		}
 		for (size_t i = count; i < num_values; i++)
 			values[i] = ccs_none;
@@ -511,14 +513,14 @@ ccs_features_evaluation_compare(
 		CCS_VALIDATE(ccs_objective_space_get_objective(
 			evaluation->data->objective_space, i, &expression,
 			&type));
-		CCS_VALIDATE(ccs_expression_eval(
-			expression,
-			(ccs_context_t)evaluation->data->objective_space,
-			evaluation->data->values, values));
-		CCS_VALIDATE(ccs_expression_eval(
-			expression,
-			(ccs_context_t)evaluation->data->objective_space,
-			other_evaluation->data->values, values + 1));
+		CCS_VALIDATE(_ccs_objective_eval(
+			evaluation->data->objective_space, expression,
+			evaluation->data->num_values, evaluation->data->values,
+			values));
+		CCS_VALIDATE(_ccs_objective_eval(
+			evaluation->data->objective_space, expression,
+			other_evaluation->data->num_values, other_evaluation->data->values,
+			values + 1));
 		if ((values[0].type != CCS_DATA_TYPE_INT &&
 		     values[0].type != CCS_DATA_TYPE_FLOAT) ||
 		    values[0].type != values[1].type) {
diff --git a/src/objective_space_internal.h b/src/objective_space_internal.h
index e99993a..b8927b5 100644
--- a/src/objective_space_internal.h
+++ b/src/objective_space_internal.h
@@ -30,4 +30,51 @@ struct _ccs_objective_space_data_s {
 	UT_array                    *objectives;
 };
 
+// Parameters may have been added to the space after the values were set.
+static inline ccs_result_t
+_ccs_objective_eval(
+	ccs_objective_space_t objective_space,
+	ccs_expression_t      expression,
+	size_t                num_values,
+	ccs_datum_t          *values,
+	ccs_datum_t          *value_ret)
+{
+	size_t num_parameters;
+	CCS_VALIDATE(ccs_objective_space_get_num_parameters(
+		objective_space, &num_parameters));
+	if (num_values < num_parameters) {
+		ccs_result_t     err = CCS_RESULT_SUCCESS;
+		ccs_parameter_t *parameters;
+		size_t           count;
+		CCS_VALIDATE(ccs_expression_get_parameters(
+			expression, 0, NULL, &count));
+		parameters = (ccs_parameter_t *)calloc(
+			count + 1, sizeof(ccs_parameter_t));
+		CCS_REFUTE(!parameters, CCS_RESULT_ERROR_OUT_OF_MEMORY);
+		CCS_VALIDATE_ERR_GOTO(
+			err,
+			ccs_expression_get_parameters(
+				expression, count, parameters, NULL),
+			end);
+		for (size_t i = 0; i < count; i++) {
+			size_t index;
+			CCS_VALIDATE_ERR_GOTO(
+				err,
+				ccs_objective_space_get_parameter_index(
+					objective_space, parameters[i], &index),
+				end);
+			CCS_REFUTE_ERR_GOTO(
+				err, index >= num_values,
+				CCS_RESULT_ERROR_INVALID_VALUE, end);
+		}
+	end:
+		free(parameters);
+		if (err)
+			return err;
+	}
+	CCS_VALIDATE(ccs_expression_eval(
+		expression, (ccs_context_t)objective_space, values, value_ret));
+	return CCS_RESULT_SUCCESS;
+}
+
 #endif //_OBJECTIVE_SPACE_INTERNAL_H
diff --git a/src/tree_evaluation.c b/src/tree_evaluation.c
index 614e32b..a03b53d 100644
--- a/src/tree_evaluation.c
+++ b/src/tree_evaluation.c
@@ -1,5 +1,6 @@
 #include "cconfigspace_internal.h"
 #include "tree_evaluation_internal.h"
+#include "objective_space_internal.h"
 #include "tree_configuration_internal.h"
 #include <string.h>
 
@@ -344,9 +345,10 @@ ccs_tree_evaluation_get_objective_value(
 	ccs_objective_type_t type;
 	CCS_VALIDATE(ccs_objective_space_get_objective(
 		evaluation->data->objective_space, index, &expression, &type));
-	CCS_VALIDATE(ccs_expression_eval(
-		expression, (ccs_context_t)evaluation->data->objective_space,
-		evaluation->data->values, value_ret));
+	CCS_VALIDATE(_ccs_objective_eval(
+		evaluation->data->objective_space, expression,
+		evaluation->data->num_values, evaluation->data->values,
+		value_ret));
 	return CCS_RESULT_SUCCESS;
 }
 
@@ -372,10 +374,10 @@ ccs_tree_evaluation_get_objective_values(
 			CCS_VALIDATE(ccs_objective_space_get_objective(
 				evaluation->data->objective_space, i,
 				&expression, &type));
-			CCS_VALIDATE(ccs_expression_eval(
-				expression,
-				(ccs_context_t)evaluation->data->objective_space,
-				evaluation->data->values, values + i));
+			CCS_VALIDATE(_ccs_objective_eval(
+				evaluation->data->objective_space, expression,
+				evaluation->data->num_values, evaluation->data->values,
+				values + i));
 		}
 		for (size_t i = count; i < num_values; i++)
 			values[i] = ccs_none;
@@ -462,14 +464,14 @@ ccs_tree_evaluation_compare(
 		CCS_VALIDATE(ccs_objective_space_get_objective(
 			evaluation->data->objective_space, i, &expression,
 			&type));
-		CCS_VALIDATE(ccs_expression_eval(
-			expression,
-			(ccs_context_t)evaluation->data->objective_space,
-			evaluation->data->values, values));
-		CCS_VALIDATE(ccs_expression_eval(
-			expression,
-			(ccs_context_t)evaluation->data->objective_space,
-			other_evaluation->data->values, values + 1));
+		CCS_VALIDATE(_ccs_objective_eval(
+			evaluation->data->objective_space, expression,
+			evaluation->data->num_values, evaluation->data->values,
+			values));
+		CCS_VALIDATE(_ccs_objective_eval(
+			evaluation->data->objective_space, expression,
+			other_evaluation->data->num_values, other_evaluation->data->values,
+			values + 1));
 		// Maybe relax to allow comparing Numerical values of different
 		// types.
 		if ((values[0].type != CCS_DATA_TYPE_INT &&
-- 
2.43.0


From 609cfc023eb98a87a61ab1efb8ecd0f97ef01df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:37 +0000
Subject: [PATCH 24/50] fix: a failed deserialization releases what it made and
 leaves the result alone

---
 src/cconfigspace.c               | 11 ++++++++---
 src/distribution_deserialize.h   |  1 +
 src/expression_deserialize.h     | 15 ++++++++++-----
 src/features_tuner_deserialize.h |  1 +
 src/parameter_deserialize.h      |  1 +
 src/tree_space_deserialize.h     |  1 +
 src/tree_tuner_deserialize.h     |  1 +
 src/tuner_deserialize.h          |  1 +
 8 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/cconfigspace.c b/src/cconfigspace.c
index 948cd55..ee5a0cd 100644
--- a/src/cconfigspace.c
+++ b/src/cconfigspace.c
@@ -955,6 +955,7 @@ ccs_object_deserialize(
 {
 	ccs_result_t res;
 	va_list      args;
+	ccs_object_t object = NULL;
 
 	CCS_CHECK_PTR(object_ret);
 
@@ -963,20 +964,20 @@ ccs_object_deserialize(
 	case CCS_SERIALIZE_OPERATION_MEMORY:
 		CCS_VALIDATE_ERR_GOTO(
 			res,
-			_ccs_object_deserialize_memory(object_ret, format, args),
+			_ccs_object_deserialize_memory(&object, format, args),
 			end);
 		break;
 	case CCS_SERIALIZE_OPERATION_FILE:
 		CCS_VALIDATE_ERR_GOTO(
 			res,
-			_ccs_object_deserialize_file(object_ret, format, args),
+			_ccs_object_deserialize_file(&object, format, args),
 			end);
 		break;
 	case CCS_SERIALIZE_OPERATION_FILE_DESCRIPTOR:
 		CCS_VALIDATE_ERR_GOTO(
 			res,
 			_ccs_object_deserialize_file_descriptor(
-				object_ret, format, args),
+				&object, format, args),
 			end);
 		break;
 	default:
@@ -986,6 +987,10 @@ ccs_object_deserialize(
 	}
 end:
 	va_end(args);
+	if (res == CCS_RESULT_SUCCESS)
+		*object_ret = object;
+	else if (object)
+		ccs_release_object(object);
 	return res;
 }
 
diff --git a/src/distribution_deserialize.h b/src/distribution_deserialize.h
index d476cf4..8d3529f 100644
--- a/src/distribution_deserialize.h
+++ b/src/distribution_deserialize.h
@@ -372,6 +372,7 @@ _ccs_deserialize_bin_distribution(
 	return CCS_RESULT_SUCCESS;
 err_dis:
 	ccs_release_object(*distribution_ret);
+	*distribution_ret = NULL;
 	return res;
 }
 
diff --git a/src/expression_deserialize.h b/src/expression_deserialize.h
index 15ec662..31f0fca 100644
--- a/src/expression_deserialize.h
+++ b/src/expression_deserialize.h
@@ -45,12 +45,16 @@ _ccs_deserialize_bin_ccs_expression_data(
 			data->num_nodes, sizeof(ccs_datum_t));
 		CCS_REFUTE(!data->nodes, CCS_RESULT_ERROR_OUT_OF_MEMORY);
 		for (size_t i = 0; i < data->num_nodes; i++) {
-			ccs_expression_t expr;
-			CCS_VALIDATE(_ccs_expression_deserialize(
+			ccs_expression_t expr = NULL;
+			ccs_result_t     res;
+			res = _ccs_expression_deserialize(
 				&expr, CCS_SERIALIZE_FORMAT_BINARY, version,
-				buffer_size, buffer, opts));
-			data->nodes[i].type    = CCS_DATA_TYPE_OBJECT;
-			data->nodes[i].value.o = expr;
+				buffer_size, buffer, opts);
+			if (expr) {
+				data->nodes[i].type    = CCS_DATA_TYPE_OBJECT;
+				data->nodes[i].value.o = expr;
+			}
+			CCS_VALIDATE(res);
 		}
 	}
 	return CCS_RESULT_SUCCESS;
@@ -218,6 +222,7 @@ _ccs_deserialize_bin_expression(
 	return CCS_RESULT_SUCCESS;
 err_exp:
 	ccs_release_object(*expression_ret);
+	*expression_ret = NULL;
 	return res;
 }
 
diff --git a/src/features_tuner_deserialize.h b/src/features_tuner_deserialize.h
index 73a35e7..b98a86a 100644
--- a/src/features_tuner_deserialize.h
+++ b/src/features_tuner_deserialize.h
@@ -315,6 +315,7 @@ _ccs_deserialize_bin_features_tuner(
 	goto end;
 err_features_tuner:
 	ccs_release_object(*features_tuner_ret);
+	*features_tuner_ret = NULL;
 end:
 	ccs_release_object(new_opts.handle_map);
 	return res;
diff --git a/src/parameter_deserialize.h b/src/parameter_deserialize.h
index c702021..4d228ee 100644
--- a/src/parameter_deserialize.h
+++ b/src/parameter_deserialize.h
@@ -204,6 +204,7 @@ _ccs_deserialize_bin_parameter(
 	return CCS_RESULT_SUCCESS;
 err_parameter:
 	ccs_release_object(*parameter_ret);
+	*parameter_ret = NULL;
 	return res;
 }
 
diff --git a/src/tree_space_deserialize.h b/src/tree_space_deserialize.h
index 69e02d3..b87ecdb 100644
--- a/src/tree_space_deserialize.h
+++ b/src/tree_space_deserialize.h
@@ -154,6 +154,7 @@ _ccs_deserialize_bin_tree_space(
 	return CCS_RESULT_SUCCESS;
 err_tree_space:
 	ccs_release_object(*tree_space_ret);
+	*tree_space_ret = NULL;
 	return res;
 }
 
diff --git a/src/tree_tuner_deserialize.h b/src/tree_tuner_deserialize.h
index 5126d68..389900e 100644
--- a/src/tree_tuner_deserialize.h
+++ b/src/tree_tuner_deserialize.h
@@ -295,6 +295,7 @@ _ccs_deserialize_bin_tree_tuner(
 	goto end;
 err_tuner:
 	ccs_release_object(*tuner_ret);
+	*tuner_ret = NULL;
 end:
 	ccs_release_object(new_opts.handle_map);
 	return res;
diff --git a/src/tuner_deserialize.h b/src/tuner_deserialize.h
index 468a24b..9f9f99b 100644
--- a/src/tuner_deserialize.h
+++ b/src/tuner_deserialize.h
@@ -294,6 +294,7 @@ _ccs_deserialize_bin_tuner(
 	goto end;
 err_tuner:
 	ccs_release_object(*tuner_ret);
+	*tuner_ret = NULL;
 end:
 	ccs_release_object(new_opts.handle_map);
 	return res;
-- 
2.43.0


From 692ae9441f181f8ae93b4f9ec0cb7c1cd5d79836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:58 +0000
Subject: [PATCH 25/50] fix: user data is not read past the end of the stream

---
 src/cconfigspace_internal.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cconfigspace_internal.h b/src/cconfigspace_internal.h
index eb20271..39895eb 100644
--- a/src/cconfigspace_internal.h
+++ b/src/cconfigspace_internal.h
@@ -1179,6 +1179,9 @@ _ccs_object_deserialize_user_data(
 		CCS_VALIDATE(_ccs_deserialize_bin_size(
 			&serialize_data_size, buffer_size, buffer));
 		if (serialize_data_size) {
+			CCS_REFUTE(
+				*buffer_size < serialize_data_size,
+				CCS_RESULT_ERROR_NOT_ENOUGH_DATA);
 			if (opts->deserialize_callback)
 				CCS_VALIDATE(opts->deserialize_callback(
 					object, serialize_data_size, *buffer,
-- 
2.43.0


From d75542a5f40c5d94072b45758ec16c2d5727e32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:38 +0000
Subject: [PATCH 26/50] fix: a features tuner that cannot be read back releases
 its evaluations

---
 src/features_tuner_deserialize.h | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/features_tuner_deserialize.h b/src/features_tuner_deserialize.h
index b98a86a..8a74485 100644
--- a/src/features_tuner_deserialize.h
+++ b/src/features_tuner_deserialize.h
@@ -125,7 +125,7 @@ _ccs_deserialize_bin_random_features_tuner(
 		res,
 		_ccs_deserialize_bin_ccs_random_features_tuner_data(
 			&data, version, buffer_size, buffer, opts),
-		end);
+		features_evaluations);
 	CCS_VALIDATE_ERR_GOTO(
 		res,
 		ccs_create_random_features_tuner(
@@ -145,8 +145,10 @@ features_tuner:
 	ccs_release_object(*features_tuner_ret);
 	*features_tuner_ret = NULL;
 features_evaluations:
-	for (size_t i = 0; i < data.size_history; i++)
-		ccs_release_object(data.history[i]);
+	if (data.history)
+		for (size_t i = 0; i < data.size_history; i++)
+			if (data.history[i])
+				ccs_release_object(data.history[i]);
 end:
 	if (data.common_data.configuration_space)
 		ccs_release_object(data.common_data.configuration_space);
@@ -205,7 +207,7 @@ _ccs_deserialize_bin_user_defined_features_tuner(
 		res,
 		_ccs_deserialize_bin_ccs_user_defined_features_tuner_data(
 			&data, version, buffer_size, buffer, opts),
-		end);
+		evaluations);
 	CCS_VALIDATE_ERR_GOTO(
 		res,
 		ccs_create_user_defined_features_tuner(
@@ -239,9 +241,10 @@ features_tuner:
 	ccs_release_object(*features_tuner_ret);
 	*features_tuner_ret = NULL;
 evaluations:
-	for (size_t i = 0; i < data.base_data.size_history; i++)
-		ccs_release_object(data.base_data.history[i]);
-end:
+	if (data.base_data.history)
+		for (size_t i = 0; i < data.base_data.size_history; i++)
+			if (data.base_data.history[i])
+				ccs_release_object(data.base_data.history[i]);
 	if (data.base_data.common_data.configuration_space)
 		ccs_release_object(
 			data.base_data.common_data.configuration_space);
-- 
2.43.0


From 58bd84ab885541d5ce6a1c33e23e333017f503a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:53 +0000
Subject: [PATCH 27/50] fix: a space that uses an expression or a distribution
 several times can be read back

---
 src/configuration_space_deserialize.h | 12 +++++++++---
 src/objective_space_deserialize.h     |  6 +++++-
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/configuration_space_deserialize.h b/src/configuration_space_deserialize.h
index 96b5faf..b6f1efc 100644
--- a/src/configuration_space_deserialize.h
+++ b/src/configuration_space_deserialize.h
@@ -32,6 +32,12 @@ _ccs_deserialize_bin_ccs_configuration_space_data(
 	_ccs_object_deserialize_options_t    *opts)
 {
 	uintptr_t mem;
+	/* expressions and distributions can be used several times, and are
+	   never referred to by handle */
+	_ccs_object_deserialize_options_t exp_opts = *opts;
+	_ccs_object_deserialize_options_t dis_opts = *opts;
+	exp_opts.map_values                        = CCS_FALSE;
+	dis_opts.handle_map                        = NULL;
 
 	CCS_VALIDATE(
 		_ccs_deserialize_bin_string(&data->name, buffer_size, buffer));
@@ -85,7 +91,7 @@ _ccs_deserialize_bin_ccs_configuration_space_data(
 			data->cond_parameter_indices + i, buffer_size, buffer));
 		CCS_VALIDATE(_ccs_expression_deserialize(
 			data->conditions + i, CCS_SERIALIZE_FORMAT_BINARY,
-			version, buffer_size, buffer, opts));
+			version, buffer_size, buffer, &exp_opts));
 	}
 
 	size_t *indices;
@@ -93,7 +99,7 @@ _ccs_deserialize_bin_ccs_configuration_space_data(
 	for (size_t i = 0; i < data->num_distributions; i++) {
 		CCS_VALIDATE(_ccs_distribution_deserialize(
 			data->distributions + i, CCS_SERIALIZE_FORMAT_BINARY,
-			version, buffer_size, buffer, opts));
+			version, buffer_size, buffer, &dis_opts));
 		CCS_VALIDATE(_ccs_deserialize_bin_size(
 			data->dimensions + i, buffer_size, buffer));
 		for (size_t j = 0; j < data->dimensions[i]; j++) {
@@ -107,7 +113,7 @@ _ccs_deserialize_bin_ccs_configuration_space_data(
 		CCS_VALIDATE(_ccs_expression_deserialize(
 			data->forbidden_clauses + i,
 			CCS_SERIALIZE_FORMAT_BINARY, version, buffer_size,
-			buffer, opts));
+			buffer, &exp_opts));
 	}
 
 	return CCS_RESULT_SUCCESS;
diff --git a/src/objective_space_deserialize.h b/src/objective_space_deserialize.h
index 3baec98..1bc4397 100644
--- a/src/objective_space_deserialize.h
+++ b/src/objective_space_deserialize.h
@@ -22,6 +22,10 @@ _ccs_deserialize_bin_ccs_objective_space_data(
 	_ccs_object_deserialize_options_t *opts)
 {
 	uintptr_t mem;
+	/* expressions can be used several times, and are never referred to by
+	   handle */
+	_ccs_object_deserialize_options_t exp_opts = *opts;
+	exp_opts.map_values                        = CCS_FALSE;
 
 	CCS_VALIDATE(
 		_ccs_deserialize_bin_string(&data->name, buffer_size, buffer));
@@ -52,7 +56,7 @@ _ccs_deserialize_bin_ccs_objective_space_data(
 	for (size_t i = 0; i < data->num_objectives; i++) {
 		CCS_VALIDATE(_ccs_expression_deserialize(
 			data->objectives + i, CCS_SERIALIZE_FORMAT_BINARY,
-			version, buffer_size, buffer, opts));
+			version, buffer_size, buffer, &exp_opts));
 		CCS_VALIDATE(_ccs_deserialize_bin_ccs_objective_type(
 			data->objective_types + i, buffer_size, buffer));
 	}
-- 
2.43.0


From 4ec54f8f4aaa49acd91d5bcce26853611545d305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:09 +0000
Subject: [PATCH 28/50] fix: a static tree space is read back with its random
 generator

---
 src/tree_space_deserialize.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/tree_space_deserialize.h b/src/tree_space_deserialize.h
index b87ecdb..bebce9c 100644
--- a/src/tree_space_deserialize.h
+++ b/src/tree_space_deserialize.h
@@ -49,6 +49,13 @@ _ccs_deserialize_bin_tree_space_static(
 		ccs_create_static_tree_space(
 			data.name, data.tree, tree_space_ret),
 		end);
+	CCS_VALIDATE_ERR_GOTO(
+		res, ccs_tree_space_set_rng(*tree_space_ret, data.rng),
+		tree_space);
+	goto end;
+tree_space:
+	ccs_release_object(*tree_space_ret);
+	*tree_space_ret = NULL;
 end:
 	if (data.rng)
 		ccs_release_object(data.rng);
-- 
2.43.0


From c60a37f4892e81e4ff81585e80d3083dfbca6930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:31 +0000
Subject: [PATCH 29/50] fix: the state of a dynamic tree space is read back

---
 src/tree_space_deserialize.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tree_space_deserialize.h b/src/tree_space_deserialize.h
index bebce9c..5b637fc 100644
--- a/src/tree_space_deserialize.h
+++ b/src/tree_space_deserialize.h
@@ -89,6 +89,10 @@ _ccs_deserialize_bin_tree_space_dynamic(
 		_ccs_deserialize_bin_ccs_tree_space_common_data(
 			&data.common_data, version, buffer_size, buffer, opts),
 		end);
+	CCS_VALIDATE_ERR_GOTO(
+		res,
+		_ccs_deserialize_bin_ccs_blob(&data.blob, buffer_size, buffer),
+		end);
 	CCS_VALIDATE_ERR_GOTO(
 		res,
 		ccs_create_dynamic_tree_space(
-- 
2.43.0


From dc027f55a4b50f01b539fae1009dabcc7a13fa55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:14 +0000
Subject: [PATCH 30/50] fix: a tuner that was told an evaluation twice can be
 read back

---
 src/cconfigspace_internal.h      | 20 ++++++++++++++++++++
 src/features_tuner_deserialize.h | 11 +++++++++--
 src/tree_tuner_deserialize.h     | 11 +++++++++--
 src/tuner_deserialize.h          | 11 +++++++++--
 4 files changed, 47 insertions(+), 6 deletions(-)

diff --git a/src/cconfigspace_internal.h b/src/cconfigspace_internal.h
index 39895eb..a364ed8 100644
--- a/src/cconfigspace_internal.h
+++ b/src/cconfigspace_internal.h
@@ -1050,6 +1050,26 @@ _ccs_deserialize_bin_ccs_object_internal(
 	return CCS_RESULT_SUCCESS;
 }
 
+/* is the handle of the next object of the stream in the map already? */
+static inline ccs_result_t
+_ccs_peek_bin_object_handle_exist(
+	ccs_map_t    map,
+	ccs_bool_t  *found_ret,
+	size_t      *buffer_size,
+	const char **buffer)
+{
+	_ccs_object_internal_t obj;
+	ccs_object_t           handle;
+	size_t                 size = *buffer_size;
+	const char            *buff = *buffer;
+	CCS_VALIDATE(_ccs_deserialize_bin_ccs_object_internal(
+		&obj, &size, &buff, &handle));
+	ccs_datum_t d = ccs_object(handle);
+	d.flags |= CCS_DATUM_FLAG_ID;
+	CCS_VALIDATE(ccs_map_exist(map, d, found_ret));
+	return CCS_RESULT_SUCCESS;
+}
+
 static inline ccs_result_t
 _ccs_object_handle_check_add(
 	ccs_map_t    map,
diff --git a/src/features_tuner_deserialize.h b/src/features_tuner_deserialize.h
index 8a74485..10619cb 100644
--- a/src/features_tuner_deserialize.h
+++ b/src/features_tuner_deserialize.h
@@ -68,10 +68,17 @@ _ccs_deserialize_bin_ccs_random_features_tuner_data(
 	mem += data->size_history * sizeof(ccs_features_evaluation_t);
 	data->optima = (ccs_features_evaluation_t *)mem;
 
-	for (size_t i = 0; i < data->size_history; i++)
+	for (size_t i = 0; i < data->size_history; i++) {
+		/* the same evaluation can be told several times */
+		_ccs_object_deserialize_options_t eval_opts = *opts;
+		ccs_bool_t                        found;
+		CCS_VALIDATE(_ccs_peek_bin_object_handle_exist(
+			opts->handle_map, &found, buffer_size, buffer));
+		eval_opts.map_values = !found;
 		CCS_VALIDATE(_ccs_features_evaluation_deserialize(
 			data->history + i, CCS_SERIALIZE_FORMAT_BINARY, version,
-			buffer_size, buffer, opts));
+			buffer_size, buffer, &eval_opts));
+	}
 
 	for (size_t i = 0; i < data->size_optima; i++)
 		CCS_VALIDATE(_ccs_deserialize_bin_ccs_object(
diff --git a/src/tree_tuner_deserialize.h b/src/tree_tuner_deserialize.h
index 389900e..6ebafe0 100644
--- a/src/tree_tuner_deserialize.h
+++ b/src/tree_tuner_deserialize.h
@@ -64,10 +64,17 @@ _ccs_deserialize_bin_ccs_random_tree_tuner_data(
 	mem += data->size_history * sizeof(ccs_tree_evaluation_t);
 	data->optima = (ccs_tree_evaluation_t *)mem;
 
-	for (size_t i = 0; i < data->size_history; i++)
+	for (size_t i = 0; i < data->size_history; i++) {
+		/* the same evaluation can be told several times */
+		_ccs_object_deserialize_options_t eval_opts = *opts;
+		ccs_bool_t                        found;
+		CCS_VALIDATE(_ccs_peek_bin_object_handle_exist(
+			opts->handle_map, &found, buffer_size, buffer));
+		eval_opts.map_values = !found;
 		CCS_VALIDATE(_ccs_tree_evaluation_deserialize(
 			data->history + i, CCS_SERIALIZE_FORMAT_BINARY, version,
-			buffer_size, buffer, opts));
+			buffer_size, buffer, &eval_opts));
+	}
 
 	for (size_t i = 0; i < data->size_optima; i++)
 		CCS_VALIDATE(_ccs_deserialize_bin_ccs_object(
diff --git a/src/tuner_deserialize.h b/src/tuner_deserialize.h
index 9f9f99b..2e10dc9 100644
--- a/src/tuner_deserialize.h
+++ b/src/tuner_deserialize.h
@@ -63,10 +63,17 @@ _ccs_deserialize_bin_ccs_random_tuner_data(
 	mem += data->size_history * sizeof(ccs_evaluation_t);
 	data->optima = (ccs_evaluation_t *)mem;
 
-	for (size_t i = 0; i < data->size_history; i++)
+	for (size_t i = 0; i < data->size_history; i++) {
+		/* the same evaluation can be told several times */
+		_ccs_object_deserialize_options_t eval_opts = *opts;
+		ccs_bool_t                        found;
+		CCS_VALIDATE(_ccs_peek_bin_object_handle_exist(
+			opts->handle_map, &found, buffer_size, buffer));
+		eval_opts.map_values = !found;
 		CCS_VALIDATE(_ccs_evaluation_deserialize(
 			data->history + i, CCS_SERIALIZE_FORMAT_BINARY, version,
-			buffer_size, buffer, opts));
+			buffer_size, buffer, &eval_opts));
+	}
 
 	for (size_t i = 0; i < data->size_optima; i++)
 		CCS_VALIDATE(_ccs_deserialize_bin_ccs_object(
-- 
2.43.0


From 0c3e31a13c2a00396770d7a9e5ef968519216be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:44 +0000
Subject: [PATCH 31/50] fix: resuming a non blocking serialization uses
 initialized state

---
 src/cconfigspace.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cconfigspace.c b/src/cconfigspace.c
index ee5a0cd..f2514a8 100644
--- a/src/cconfigspace.c
+++ b/src/cconfigspace.c
@@ -392,7 +392,7 @@ _ccs_object_serialize_file_descriptor(
 	va_list                args)
 {
 	int                             fd;
-	ccs_result_t                    res;
+	ccs_result_t                    res    = CCS_RESULT_SUCCESS;
 	_ccs_object_serialize_options_t opts   = {NULL, NULL, NULL};
 	_ccs_file_descriptor_state_t    state  = {NULL, 0, NULL, 0, -1, 0};
 	_ccs_file_descriptor_state_t   *pstate = NULL;
@@ -424,6 +424,7 @@ _ccs_object_serialize_file_descriptor(
 			CCS_REFUTE(!mem, CCS_RESULT_ERROR_OUT_OF_MEMORY);
 			*(opts.ppfd_state) = pstate =
 				(_ccs_file_descriptor_state_t *)mem;
+			pstate->base = mem;
 			pstate->base_size =
 				sizeof(_ccs_file_descriptor_state_t) +
 				object_size;
-- 
2.43.0


From ddd13f54dba59a26b7745eb24c76c77176247941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:58 +0000
Subject: [PATCH 32/50] fix: a non blocking deserialization follows its state
 when it moves

---
 src/cconfigspace.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cconfigspace.c b/src/cconfigspace.c
index f2514a8..b00e6e3 100644
--- a/src/cconfigspace.c
+++ b/src/cconfigspace.c
@@ -916,6 +916,10 @@ _ccs_object_deserialize_file_descriptor(
 		CCS_REFUTE_ERR_GOTO(
 			res, !new_buffer, CCS_RESULT_ERROR_OUT_OF_MEMORY,
 			err_fd_buffer);
+		/* the state lies at the start of the buffer */
+		if (non_blocking)
+			*(opts.ppfd_state) = pstate =
+				(_ccs_file_descriptor_state_t *)new_buffer;
 		pstate->base = new_buffer;
 		/* seek to after the header */
 		offset       = header_size;
-- 
2.43.0


From e73af60f1f637a56aa42a03fee69544efcc09546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:12 +0000
Subject: [PATCH 33/50] fix: deserializing from a descriptor stops at the end
 of the stream

---
 src/cconfigspace.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cconfigspace.c b/src/cconfigspace.c
index b00e6e3..c63e1e0 100644
--- a/src/cconfigspace.c
+++ b/src/cconfigspace.c
@@ -819,6 +819,8 @@ _ccs_object_deserialize_file_descriptor_read_loop(
 			if (errno == EAGAIN && non_blocking)
 				return CCS_RESULT_AGAIN;
 		} else {
+			/* end of file */
+			CCS_REFUTE(!count, CCS_RESULT_ERROR_NOT_ENOUGH_DATA);
 			pstate->buffer_size -= count;
 			pstate->buffer += count;
 		}
@@ -905,6 +907,9 @@ _ccs_object_deserialize_file_descriptor(
 				(const char **)&pstate->buffer, &object_size,
 				&pstate->version),
 			err_fd_buffer);
+		CCS_REFUTE_ERR_GOTO(
+			res, object_size <= header_size,
+			CCS_RESULT_ERROR_NOT_ENOUGH_DATA, err_fd_buffer);
 		/* reallocate buffer to account for whole size */
 		if (non_blocking)
 			pstate->base_size =
-- 
2.43.0


From abf6a2a894c4293b7e184e09e054cf6f9980a6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:39 +0000
Subject: [PATCH 34/50] fix: indexes beyond 32 bits are out of bounds instead
 of wrapping around

---
 src/configuration_space.c | 10 +++++-----
 src/context_internal.h    |  4 ++--
 src/objective_space.c     |  2 +-
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/configuration_space.c b/src/configuration_space.c
index eb93740..4d84d75 100644
--- a/src/configuration_space.c
+++ b/src/configuration_space.c
@@ -705,7 +705,7 @@ ccs_configuration_space_get_parameter_distribution(
 	_ccs_parameter_wrapper_cs_t *wrapper =
 		(_ccs_parameter_wrapper_cs_t *)utarray_eltptr(
 			configuration_space->data->parameters,
-			(unsigned int)index);
+			index);
 	CCS_REFUTE(!wrapper, CCS_RESULT_ERROR_OUT_OF_BOUNDS);
 	*distribution_ret = wrapper->distribution->distribution;
 	*index_ret        = wrapper->distribution_index;
@@ -1244,7 +1244,7 @@ _recompute_graph(ccs_configuration_space_t configuration_space)
 	ccs_result_t err = CCS_RESULT_SUCCESS;
 	for (size_t index = 0; index < utarray_len(array); index++) {
 		wrapper = (_ccs_parameter_wrapper_cs_t *)utarray_eltptr(
-			array, (unsigned int)index);
+			array, index);
 		if (!wrapper->condition)
 			continue;
 		size_t count;
@@ -1327,7 +1327,7 @@ ccs_configuration_space_set_condition(
 	_ccs_parameter_wrapper_cs_t *wrapper =
 		(_ccs_parameter_wrapper_cs_t *)utarray_eltptr(
 			configuration_space->data->parameters,
-			(unsigned int)parameter_index);
+			parameter_index);
 	CCS_REFUTE(!wrapper, CCS_RESULT_ERROR_OUT_OF_BOUNDS);
 	CCS_REFUTE(wrapper->condition, CCS_RESULT_ERROR_INVALID_PARAMETER);
 	ccs_result_t err;
@@ -1357,7 +1357,7 @@ ccs_configuration_space_get_condition(
 	_ccs_parameter_wrapper_cs_t *wrapper =
 		(_ccs_parameter_wrapper_cs_t *)utarray_eltptr(
 			configuration_space->data->parameters,
-			(unsigned int)parameter_index);
+			parameter_index);
 	CCS_REFUTE(!wrapper, CCS_RESULT_ERROR_OUT_OF_BOUNDS);
 	*expression_ret = wrapper->condition;
 	return CCS_RESULT_SUCCESS;
@@ -1460,7 +1460,7 @@ ccs_configuration_space_get_forbidden_clause(
 	CCS_CHECK_PTR(expression_ret);
 	ccs_expression_t *p_expr = (ccs_expression_t *)utarray_eltptr(
 		configuration_space->data->forbidden_clauses,
-		(unsigned int)index);
+		index);
 	CCS_REFUTE(!p_expr, CCS_RESULT_ERROR_OUT_OF_BOUNDS);
 	*expression_ret = *p_expr;
 	return CCS_RESULT_SUCCESS;
diff --git a/src/context_internal.h b/src/context_internal.h
index 3fa6a0b..86940e9 100644
--- a/src/context_internal.h
+++ b/src/context_internal.h
@@ -77,7 +77,7 @@ _ccs_context_get_parameter(
 	CCS_CHECK_PTR(parameter_ret);
 	_ccs_parameter_wrapper_t *wrapper =
 		(_ccs_parameter_wrapper_t *)utarray_eltptr(
-			context->data->parameters, (unsigned int)index);
+			context->data->parameters, index);
 	CCS_REFUTE(!wrapper, CCS_RESULT_ERROR_OUT_OF_BOUNDS);
 	*parameter_ret = wrapper->parameter;
 	return CCS_RESULT_SUCCESS;
@@ -184,7 +184,7 @@ _ccs_context_validate_value(
 	CCS_CHECK_PTR(value_ret);
 	_ccs_parameter_wrapper_t *wrapper =
 		(_ccs_parameter_wrapper_t *)utarray_eltptr(
-			context->data->parameters, (unsigned int)index);
+			context->data->parameters, index);
 	CCS_REFUTE(!wrapper, CCS_RESULT_ERROR_OUT_OF_BOUNDS);
 	ccs_bool_t valid;
 	CCS_VALIDATE(ccs_parameter_validate_value(
diff --git a/src/objective_space.c b/src/objective_space.c
index 20a964a..1a311ce 100644
--- a/src/objective_space.c
+++ b/src/objective_space.c
@@ -545,7 +545,7 @@ ccs_objective_space_get_objective(
 	CCS_CHECK_PTR(expression_ret);
 	CCS_CHECK_PTR(type_ret);
 	_ccs_objective_t *p_obj = (_ccs_objective_t *)utarray_eltptr(
-		objective_space->data->objectives, (unsigned int)index);
+		objective_space->data->objectives, index);
 	CCS_REFUTE(!p_obj, CCS_RESULT_ERROR_OUT_OF_BOUNDS);
 	*expression_ret = p_obj->expression;
 	*type_ret       = p_obj->type;
-- 
2.43.0


From 9a72d8f97a5d3a65d9024c05c186ad9341e948da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:39 +0000
Subject: [PATCH 35/50] fix: binding and context functions refuse objects of
 other types

---
 src/binding.c | 19 ++++++++++++++++++-
 src/context.c | 17 ++++++++++++++++-
 2 files changed, 34 insertions(+), 2 deletions(-)

diff --git a/src/binding.c b/src/binding.c
index 6c2f705..fc590c2 100644
--- a/src/binding.c
+++ b/src/binding.c
@@ -1,9 +1,26 @@
 #include "cconfigspace_internal.h"
 #include "binding_internal.h"
 
+static inline ccs_bool_t
+_is_binding_type(ccs_object_type_t type)
+{
+	switch (type) {
+	case CCS_OBJECT_TYPE_CONFIGURATION:
+	case CCS_OBJECT_TYPE_FEATURES:
+	case CCS_OBJECT_TYPE_EVALUATION:
+	case CCS_OBJECT_TYPE_FEATURES_EVALUATION:
+	case CCS_OBJECT_TYPE_TREE_EVALUATION:
+		return CCS_TRUE;
+	default:
+		return CCS_FALSE;
+	}
+}
+
 #define CCS_CHECK_BINDING(b)                                                   \
 	CCS_REFUTE_MSG(                                                        \
-		CCS_UNLIKELY(!(b) || !(b)->data),                              \
+		CCS_UNLIKELY(                                                  \
+			!(b) || !(b)->data ||                                  \
+			!_is_binding_type((b)->obj.type)),                     \
 		CCS_RESULT_ERROR_INVALID_OBJECT,                               \
 		"Invalid CCS binding '%s' == %p supplied", #b, b)
 
diff --git a/src/context.c b/src/context.c
index 4c8db37..9f941c7 100644
--- a/src/context.c
+++ b/src/context.c
@@ -1,9 +1,24 @@
 #include "cconfigspace_internal.h"
 #include "context_internal.h"
 
+static inline ccs_bool_t
+_is_context_type(ccs_object_type_t type)
+{
+	switch (type) {
+	case CCS_OBJECT_TYPE_CONFIGURATION_SPACE:
+	case CCS_OBJECT_TYPE_FEATURES_SPACE:
+	case CCS_OBJECT_TYPE_OBJECTIVE_SPACE:
+		return CCS_TRUE;
+	default:
+		return CCS_FALSE;
+	}
+}
+
 #define CCS_CHECK_CONTEXT(c)                                                   \
 	CCS_REFUTE_MSG(                                                        \
-		CCS_UNLIKELY(!(c) || !(c)->data),                              \
+		CCS_UNLIKELY(                                                  \
+			!(c) || !(c)->data ||                                  \
+			!_is_context_type((c)->obj.type)),                     \
 		CCS_RESULT_ERROR_INVALID_OBJECT,                               \
 		"Invalid CCS context '%s' == %p supplied", #c, c)
 
-- 
2.43.0


From fed4521a4290b9bc6ce7e7a78a5f957c218ae5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:16 +0000
Subject: [PATCH 36/50] fix: refuse NULL outputs documented as invalid values
 instead of writing through them

---
 src/cconfigspace.c        | 1 +
 src/error_stack.c         | 2 ++
 src/evaluation.c          | 1 +
 src/features_evaluation.c | 1 +
 src/rng.c                 | 1 +
 src/tree_evaluation.c     | 1 +
 6 files changed, 7 insertions(+)

diff --git a/src/cconfigspace.c b/src/cconfigspace.c
index c63e1e0..8605d27 100644
--- a/src/cconfigspace.c
+++ b/src/cconfigspace.c
@@ -1012,6 +1012,7 @@ end:
 ccs_result_t
 ccs_get_result_name(ccs_result_t result, const char **name)
 {
+	CCS_CHECK_PTR(name);
 	switch (result) {
 		ETOCASE(CCS_RESULT_AGAIN);
 		ETOCASE(CCS_RESULT_SUCCESS);
diff --git a/src/error_stack.c b/src/error_stack.c
index baded2d..a6456ec 100644
--- a/src/error_stack.c
+++ b/src/error_stack.c
@@ -123,6 +123,8 @@ ccs_create_error_stack(
 {
 	ccs_result_t err;
 	va_list      args;
+	if (!error_stack_ret)
+		return CCS_RESULT_ERROR_INVALID_VALUE;
 	va_start(args, msg);
 	err = _ccs_create_error_stack(error_stack_ret, error_code, msg, args);
 	va_end(args);
diff --git a/src/evaluation.c b/src/evaluation.c
index 01a2dc0..e4039d2 100644
--- a/src/evaluation.c
+++ b/src/evaluation.c
@@ -127,6 +127,7 @@ _ccs_evaluation_serialize(
 static ccs_result_t
 _ccs_evaluation_hash(_ccs_evaluation_data_t *data, ccs_hash_t *hash_ret)
 {
+	CCS_CHECK_PTR(hash_ret);
 	ccs_hash_t h, ht;
 	CCS_VALIDATE(_ccs_binding_hash((_ccs_binding_data_t *)data, &h));
 	CCS_VALIDATE(ccs_configuration_hash(data->configuration, &ht));
diff --git a/src/features_evaluation.c b/src/features_evaluation.c
index fe70fc5..1601e39 100644
--- a/src/features_evaluation.c
+++ b/src/features_evaluation.c
@@ -139,6 +139,7 @@ _ccs_features_evaluation_hash(
 	_ccs_features_evaluation_data_t *data,
 	ccs_hash_t                      *hash_ret)
 {
+	CCS_CHECK_PTR(hash_ret);
 	ccs_hash_t h, ht;
 	CCS_VALIDATE(_ccs_binding_hash((_ccs_binding_data_t *)data, &h));
 	CCS_VALIDATE(ccs_configuration_hash(data->configuration, &ht));
diff --git a/src/rng.c b/src/rng.c
index c710ee0..25e8f12 100644
--- a/src/rng.c
+++ b/src/rng.c
@@ -138,6 +138,7 @@ ccs_result_t
 ccs_rng_get_type(ccs_rng_t rng, const gsl_rng_type **rng_type_ret)
 {
 	CCS_CHECK_OBJ(rng, CCS_OBJECT_TYPE_RNG);
+	CCS_CHECK_PTR(rng_type_ret);
 	*rng_type_ret = rng->data->rng_type;
 	return CCS_RESULT_SUCCESS;
 }
diff --git a/src/tree_evaluation.c b/src/tree_evaluation.c
index a03b53d..537bf2e 100644
--- a/src/tree_evaluation.c
+++ b/src/tree_evaluation.c
@@ -130,6 +130,7 @@ _ccs_tree_evaluation_hash(
 	_ccs_tree_evaluation_data_t *data,
 	ccs_hash_t                  *hash_ret)
 {
+	CCS_CHECK_PTR(hash_ret);
 	ccs_hash_t h, ht;
 	CCS_VALIDATE(_ccs_binding_hash((_ccs_binding_data_t *)data, &h));
 	CCS_VALIDATE(ccs_tree_configuration_hash(data->configuration, &ht));
-- 
2.43.0


From 7765cbc7004f1c0f208f463dda92e9608dba40f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:16 +0000
Subject: [PATCH 37/50] fix: tree_configuration_get_values refuses a NULL array
 of non zero size

---
 src/tree_configuration.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tree_configuration.c b/src/tree_configuration.c
index 4b76e1a..25e8314 100644
--- a/src/tree_configuration.c
+++ b/src/tree_configuration.c
@@ -194,6 +194,7 @@ ccs_tree_configuration_get_values(
 	size_t                  *num_values_ret)
 {
 	CCS_CHECK_OBJ(configuration, CCS_OBJECT_TYPE_TREE_CONFIGURATION);
+	CCS_CHECK_ARY(num_values, values);
 	CCS_REFUTE(!values && !num_values_ret, CCS_RESULT_ERROR_INVALID_VALUE);
 	size_t num = configuration->data->position_size + 1;
 	if (values)
-- 
2.43.0


From 447a20c5afc45f065e4030e0ae5b6f71ed168c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:16 +0000
Subject: [PATCH 38/50] fix: binding_cmp orders evaluations of different types
 without mixing up their data

---
 src/binding.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/binding.c b/src/binding.c
index fc590c2..126afb3 100644
--- a/src/binding.c
+++ b/src/binding.c
@@ -146,6 +146,16 @@ ccs_binding_cmp(ccs_binding_t binding, ccs_binding_t other_binding, int *cmp_ret
 		*cmp_ret = 0;
 		return CCS_RESULT_SUCCESS;
 	}
+	if (binding->obj.type != other_binding->obj.type) {
+		// The data that follows the values differs
+		CCS_VALIDATE(_ccs_binding_cmp(
+			binding->data, other_binding, cmp_ret));
+		if (!*cmp_ret)
+			*cmp_ret = binding->obj.type < other_binding->obj.type ?
+					   -1 :
+					   1;
+		return CCS_RESULT_SUCCESS;
+	}
 	_ccs_binding_ops_t *ops = ccs_binding_get_ops(binding);
 	CCS_VALIDATE(ops->cmp(binding->data, other_binding, cmp_ret));
 	return CCS_RESULT_SUCCESS;
-- 
2.43.0


From 3d4a5f84e451419405b33986c8b038a466100e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:04 +0000
Subject: [PATCH 39/50] fix: keep normal integer samples within the integers
 and the distribution bounds

---
 src/distribution_normal.c | 46 +++++++++++++++++++++++----------------
 1 file changed, 27 insertions(+), 19 deletions(-)

diff --git a/src/distribution_normal.c b/src/distribution_normal.c
index 9f6be69..7e335e1 100644
--- a/src/distribution_normal.c
+++ b/src/distribution_normal.c
@@ -280,6 +280,26 @@ _ccs_distribution_normal_samples_float(
 	return CCS_RESULT_SUCCESS;
 }
 
+// The accepted values lie within half a step of the representable integers:
+// round to the closest one that is a multiple of the quantization.
+static inline ccs_int_t
+_ccs_distribution_normal_round(
+	ccs_float_t            value,
+	const ccs_scale_type_t scale_type,
+	const ccs_int_t        quantization)
+{
+	const ccs_int_t max = CCS_INT_MAX / quantization;
+	const ccs_int_t min = scale_type == CCS_SCALE_TYPE_LOGARITHMIC ?
+				      1 :
+				      CCS_INT_MIN / quantization;
+	ccs_float_t     r   = round(value * (1.0 / quantization));
+	if (r >= (ccs_float_t)max)
+		return max * quantization;
+	if (r <= (ccs_float_t)min)
+		return min * quantization;
+	return (ccs_int_t)r * quantization;
+}
+
 static inline ccs_result_t
 _ccs_distribution_normal_samples_int(
 	gsl_rng               *grng,
@@ -331,15 +351,9 @@ _ccs_distribution_normal_samples_int(
 			} while (CCS_UNLIKELY(
 				values[i].f - q > (ccs_float_t)CCS_INT_MAX ||
 				values[i].f + q < (ccs_float_t)CCS_INT_MIN));
-	if (quantize) {
-		ccs_float_t rquantization = 1.0 / quantization;
-		for (i = 0; i < num_values; i++)
-			values[i].i =
-				(ccs_int_t)round(values[i].f * rquantization) *
-				quantization;
-	} else
-		for (i = 0; i < num_values; i++)
-			values[i].i = round(values[i].f);
+	for (i = 0; i < num_values; i++)
+		values[i].i = _ccs_distribution_normal_round(
+			values[i].f, scale_type, quantize ? quantization : 1);
 	return CCS_RESULT_SUCCESS;
 }
 
@@ -473,16 +487,10 @@ _ccs_distribution_normal_strided_samples_int(
 					(ccs_float_t)CCS_INT_MAX ||
 				values[i * stride].f + q <
 					(ccs_float_t)CCS_INT_MIN));
-	if (quantize) {
-		ccs_float_t rquantization = 1.0 / quantization;
-		for (i = 0; i < num_values; i++)
-			values[i * stride].i =
-				(ccs_int_t)round(
-					values[i * stride].f * rquantization) *
-				quantization;
-	} else
-		for (i = 0; i < num_values; i++)
-			values[i * stride].i = round(values[i * stride].f);
+	for (i = 0; i < num_values; i++)
+		values[i * stride].i = _ccs_distribution_normal_round(
+			values[i * stride].f, scale_type,
+			quantize ? quantization : 1);
 	return CCS_RESULT_SUCCESS;
 }
 
-- 
2.43.0


From 691674b2e6e16eb1b4bae4182dc26ba641a69e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:43 +0000
Subject: [PATCH 40/50] fix: a child refused by a dynamic tree space was leaked

---
 src/tree_space_dynamic.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/tree_space_dynamic.c b/src/tree_space_dynamic.c
index b088829..258f69d 100644
--- a/src/tree_space_dynamic.c
+++ b/src/tree_space_dynamic.c
@@ -153,13 +153,19 @@ _ccs_tree_space_tree_get_child(
 		size_t           child_index,
 		ccs_tree_t      *child_ret))
 {
+	ccs_result_t err;
 	CCS_VALIDATE(ccs_tree_get_child(parent, index, child));
 	if (!*child) {
 		CCS_VALIDATE(child_cb(tree_space, parent, index, child));
-		CCS_VALIDATE(ccs_tree_set_child(parent, index, *child));
+		CCS_VALIDATE_ERR_GOTO(
+			err, ccs_tree_set_child(parent, index, *child), errc);
 		CCS_VALIDATE(ccs_release_object(*child));
 	}
 	return CCS_RESULT_SUCCESS;
+errc:
+	if (*child)
+		ccs_release_object(*child);
+	return err;
 }
 
 static ccs_result_t
-- 
2.43.0


From efce444f6f132d3eef7358c50817f4599861f05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:52 +0000
Subject: [PATCH 41/50] fix: replacing an entry of a map under its own key read
 freed memory

---
 src/map.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/map.c b/src/map.c
index 91f21ae..997e211 100644
--- a/src/map.c
+++ b/src/map.c
@@ -209,6 +209,11 @@ ccs_map_set(ccs_map_t map, ccs_datum_t key, ccs_datum_t value)
 	if (old_entry)
 		if (!_datum_cmp(&value, &old_entry->value))
 			return CCS_RESULT_SUCCESS;
+	/* the strings given can be those of the entry about to be removed */
+	if (old_entry && key.type == CCS_DATA_TYPE_STRING)
+		key.flags |= CCS_DATUM_FLAG_TRANSIENT;
+	if (old_entry && value.type == CCS_DATA_TYPE_STRING)
+		value.flags |= CCS_DATUM_FLAG_TRANSIENT;
 
 	CCS_VALIDATE_ERR_GOTO(res, _ccs_map_check_datum(key, &sz, &sz1), err);
 	CCS_VALIDATE_ERR_GOTO(
-- 
2.43.0


From de258f14926630799645d29e71c5bc6fef475da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:49 +0000
Subject: [PATCH 42/50] fix: an array that could not grow took itself for
 having grown

---
 src/utarray.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/utarray.h b/src/utarray.h
index 1fe8bc1..6f4737e 100644
--- a/src/utarray.h
+++ b/src/utarray.h
@@ -92,12 +92,16 @@ typedef struct {
 #define utarray_reserve(a,by) do {                                            \
   if (((a)->i+(by)) > (a)->n) {                                               \
     char *utarray_tmp;                                                        \
-    while (((a)->i+(by)) > (a)->n) { (a)->n = ((a)->n ? (2*(a)->n) : 8); }    \
-    utarray_tmp=(char*)realloc((a)->d, (a)->n*(a)->icd.sz);                   \
+    unsigned utarray_n = (a)->n;                                              \
+    while (((a)->i+(by)) > utarray_n) {                                       \
+      utarray_n = (utarray_n ? (2*utarray_n) : 8);                            \
+    }                                                                         \
+    utarray_tmp=(char*)realloc((a)->d, utarray_n*(a)->icd.sz);                \
     if (utarray_tmp == NULL) {                                                \
       utarray_oom();                                                          \
     }                                                                         \
     (a)->d=utarray_tmp;                                                       \
+    (a)->n=utarray_n;                                                         \
   }                                                                           \
 } while(0)
 
-- 
2.43.0


From 59b4d3065e37d1c370c60599bb1efda0cbbbc43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:12:32 +0000
Subject: [PATCH 43/50] fix: a parameter that could not be added for lack of
 memory was left half added

---
 src/configuration_space.c | 18 +++++++++++++-----
 src/features_space.c      |  4 ++++
 src/objective_space.c     |  4 ++++
 3 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/configuration_space.c b/src/configuration_space.c
index 4d84d75..44f0b90 100644
--- a/src/configuration_space.c
+++ b/src/configuration_space.c
@@ -461,6 +461,10 @@ ccs_configuration_space_add_parameter(
 	_ccs_distribution_wrapper_t *distrib_wrapper;
 	uintptr_t                    pmem;
 	parameter_wrapper.parameter = parameter;
+	parameter_wrapper.parents   = NULL;
+	parameter_wrapper.children  = NULL;
+	parameters                  = configuration_space->data->parameters;
+	index                       = utarray_len(parameters);
 	CCS_VALIDATE(ccs_retain_object(parameter));
 
 	if (distribution) {
@@ -498,17 +502,14 @@ ccs_configuration_space_add_parameter(
 		err, !parameter_hash, CCS_RESULT_ERROR_OUT_OF_MEMORY,
 		errordistrib_wrapper);
 
-	parameters                = configuration_space->data->parameters;
-	index                     = utarray_len(parameters);
 	parameter_hash->parameter = parameter;
 	parameter_hash->name      = name;
 	parameter_hash->index     = index;
+	parameter_hash->hh_name.tbl = NULL;
 	distrib_wrapper->parameter_indexes[0] = index;
 	parameter_wrapper.distribution_index  = 0;
 	parameter_wrapper.distribution        = distrib_wrapper;
 	parameter_wrapper.condition           = NULL;
-	parameter_wrapper.parents             = NULL;
-	parameter_wrapper.children            = NULL;
 	utarray_new(parameter_wrapper.parents, &_size_t_icd);
 	utarray_new(parameter_wrapper.children, &_size_t_icd);
 
@@ -526,8 +527,15 @@ ccs_configuration_space_add_parameter(
 
 	return CCS_RESULT_SUCCESS;
 errorutarray:
-	utarray_pop_back(parameters);
+	if (parameter_hash->hh_name.tbl)
+		HASH_DELETE(
+			hh_name, configuration_space->data->name_hash,
+			parameter_hash);
 errordistrib_wrapper:
+	if (utarray_len(configuration_space->data->sorted_indexes) > index)
+		utarray_pop_back(configuration_space->data->sorted_indexes);
+	if (utarray_len(parameters) > index)
+		utarray_pop_back(parameters);
 	if (parameter_hash)
 		free(parameter_hash);
 	if (parameter_wrapper.parents)
diff --git a/src/features_space.c b/src/features_space.c
index a479d5e..f078b00 100644
--- a/src/features_space.c
+++ b/src/features_space.c
@@ -181,6 +181,7 @@ ccs_features_space_add_parameter(
 	parameter_hash->parameter = parameter;
 	parameter_hash->name      = name;
 	parameter_hash->index     = utarray_len(parameters);
+	parameter_hash->hh_name.tbl = NULL;
 
 	utarray_push_back(parameters, &parameter_wrapper);
 
@@ -193,6 +194,9 @@ ccs_features_space_add_parameter(
 
 	return CCS_RESULT_SUCCESS;
 errorutarray:
+	if (parameter_hash->hh_name.tbl)
+		HASH_DELETE(
+			hh_name, features_space->data->name_hash, parameter_hash);
 	utarray_pop_back(parameters);
 errormem:
 	free(parameter_hash);
diff --git a/src/objective_space.c b/src/objective_space.c
index 1a311ce..bf47d7e 100644
--- a/src/objective_space.c
+++ b/src/objective_space.c
@@ -309,6 +309,7 @@ ccs_objective_space_add_parameter(
 	parameter_hash->parameter = parameter;
 	parameter_hash->name      = name;
 	parameter_hash->index     = utarray_len(parameters);
+	parameter_hash->hh_name.tbl = NULL;
 
 	utarray_push_back(parameters, &parameter_wrapper);
 
@@ -321,6 +322,9 @@ ccs_objective_space_add_parameter(
 
 	return CCS_RESULT_SUCCESS;
 errorutarray:
+	if (parameter_hash->hh_name.tbl)
+		HASH_DELETE(
+			hh_name, objective_space->data->name_hash, parameter_hash);
 	utarray_pop_back(parameters);
 errormem:
 	free(parameter_hash);
-- 
2.43.0


From 89fb7a0f742bd89e51e0d77805767f51abef71b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:19:25 +0000
Subject: [PATCH 44/50] fix: a distribution or clause that could not be added
 for lack of memory was leaked

---
 src/configuration_space.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/configuration_space.c b/src/configuration_space.c
index 44f0b90..bc0bb45 100644
--- a/src/configuration_space.c
+++ b/src/configuration_space.c
@@ -648,7 +648,7 @@ ccs_configuration_space_set_distribution(
 		dmem = (uintptr_t)malloc(
 			sizeof(_ccs_distribution_wrapper_t) + sizeof(size_t));
 		CCS_REFUTE_ERR_GOTO(
-			err, !dmem, CCS_RESULT_ERROR_OUT_OF_MEMORY, memory);
+			err, !dmem, CCS_RESULT_ERROR_OUT_OF_MEMORY, dwrappers);
 		dwrapper = (_ccs_distribution_wrapper_t *)dmem;
 		dwrapper->parameter_indexes =
 			(size_t *)(dmem + sizeof(_ccs_distribution_wrapper_t));
@@ -1434,6 +1434,7 @@ ccs_configuration_space_add_forbidden_clause(
 		CCS_RAISE_ERR_GOTO(
 			err, CCS_RESULT_ERROR_INVALID_CONFIGURATION, end,
 			"Default configuration is invalid");
+	utarray_reserve(configuration_space->data->forbidden_clauses, 1);
 	CCS_VALIDATE_ERR_GOTO(err, ccs_retain_object(expression), end);
 	utarray_push_back(
 		configuration_space->data->forbidden_clauses, &expression);
-- 
2.43.0


From 01837c03fb25069d195890ad420deec8d194d5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:19:34 +0000
Subject: [PATCH 45/50] fix: an objective that could not be added for lack of
 memory was leaked

---
 src/objective_space.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/objective_space.c b/src/objective_space.c
index bf47d7e..ca586d7 100644
--- a/src/objective_space.c
+++ b/src/objective_space.c
@@ -505,6 +505,7 @@ ccs_objective_space_add_objective(
 	CCS_CHECK_OBJ(objective_space, CCS_OBJECT_TYPE_OBJECTIVE_SPACE);
 	CCS_VALIDATE(ccs_expression_check_context(
 		expression, (ccs_context_t)objective_space));
+	utarray_reserve(objective_space->data->objectives, 1);
 	CCS_VALIDATE(ccs_retain_object(expression));
 	_ccs_objective_t objective;
 	objective.expression = expression;
@@ -526,6 +527,7 @@ ccs_objective_space_add_objectives(
 	for (size_t i = 0; i < num_objectives; i++) {
 		CCS_VALIDATE(ccs_expression_check_context(
 			expressions[i], (ccs_context_t)objective_space));
+		utarray_reserve(objective_space->data->objectives, 1);
 		CCS_VALIDATE(ccs_retain_object(expressions[i]));
 		_ccs_objective_t objective;
 		objective.expression = expressions[i];
-- 
2.43.0


From 837fb68cad9e5d3f9041f9a455735c9dcad76bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:19:42 +0000
Subject: [PATCH 46/50] fix: a string that could not be stored for lack of
 memory was leaked

---
 src/parameter_string.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parameter_string.c b/src/parameter_string.c
index e45990b..2363ea5 100644
--- a/src/parameter_string.c
+++ b/src/parameter_string.c
@@ -117,6 +117,7 @@ _ccs_parameter_string_serialize(
 #undef uthash_nonfatal_oom
 #define uthash_nonfatal_oom(elt)                                               \
 	{                                                                      \
+		free(elt);                                                     \
 		CCS_RAISE(                                                     \
 			CCS_RESULT_ERROR_OUT_OF_MEMORY,                        \
 			"Not enough memory to allocate array");                \
-- 
2.43.0


From 3620be44c13921f6a2098833ec3db6b7cc166c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:19:50 +0000
Subject: [PATCH 47/50] fix: a tuner that could not be told for lack of memory
 used freed evaluations

---
 src/features_tuner_random.c | 14 +++++---------
 src/tree_tuner_random.c     | 14 +++++---------
 src/tuner_random.c          | 14 +++++---------
 3 files changed, 15 insertions(+), 27 deletions(-)

diff --git a/src/features_tuner_random.c b/src/features_tuner_random.c
index 979939e..f4d4ec5 100644
--- a/src/features_tuner_random.c
+++ b/src/features_tuner_random.c
@@ -179,7 +179,6 @@ _ccs_features_tuner_random_ask(
 #undef utarray_oom
 #define utarray_oom()                                                          \
 	{                                                                      \
-		ccs_release_object(evaluations[i]);                            \
 		CCS_RAISE(                                                     \
 			CCS_RESULT_ERROR_OUT_OF_MEMORY,                        \
 			"Not enough memory to allocate new array");            \
@@ -201,6 +200,11 @@ _ccs_features_tuner_random_tell(
 		if (result == CCS_RESULT_SUCCESS) {
 			int       discard = 0;
 			UT_array *tmp;
+			// What follows can then not fail for lack of memory
+			utarray_reserve(history, 1);
+			utarray_clear(d->old_optima);
+			utarray_reserve(
+				d->old_optima, utarray_len(d->optima) + 1);
 			ccs_retain_object(evaluations[i]);
 			utarray_push_back(history, evaluations + i);
 			tmp           = d->old_optima;
@@ -208,14 +212,6 @@ _ccs_features_tuner_random_tell(
 			d->optima     = tmp;
 			utarray_clear(d->optima);
 			ccs_features_evaluation_t *eval = NULL;
-#undef utarray_oom
-#define utarray_oom()                                                          \
-	{                                                                      \
-		d->optima = d->old_optima;                                     \
-		CCS_RAISE(                                                     \
-			CCS_RESULT_ERROR_OUT_OF_MEMORY,                        \
-			"Not enough memory to allocate new array");            \
-	}
 			while ((eval = (ccs_features_evaluation_t *)
 					utarray_next(d->old_optima, eval))) {
 				if (!discard) {
diff --git a/src/tree_tuner_random.c b/src/tree_tuner_random.c
index cf7fe03..20a1852 100644
--- a/src/tree_tuner_random.c
+++ b/src/tree_tuner_random.c
@@ -171,7 +171,6 @@ _ccs_tree_tuner_random_ask(
 #undef utarray_oom
 #define utarray_oom()                                                          \
 	{                                                                      \
-		ccs_release_object(evaluations[i]);                            \
 		CCS_RAISE(                                                     \
 			CCS_RESULT_ERROR_OUT_OF_MEMORY,                        \
 			"Out of memory to allocate array");                    \
@@ -193,6 +192,11 @@ _ccs_tree_tuner_random_tell(
 		if (!result) {
 			int       discard = 0;
 			UT_array *tmp;
+			// What follows can then not fail for lack of memory
+			utarray_reserve(history, 1);
+			utarray_clear(d->old_optima);
+			utarray_reserve(
+				d->old_optima, utarray_len(d->optima) + 1);
 			ccs_retain_object(evaluations[i]);
 			utarray_push_back(history, evaluations + i);
 			tmp           = d->old_optima;
@@ -200,14 +204,6 @@ _ccs_tree_tuner_random_tell(
 			d->optima     = tmp;
 			utarray_clear(d->optima);
 			ccs_tree_evaluation_t *eval = NULL;
-#undef utarray_oom
-#define utarray_oom()                                                          \
-	{                                                                      \
-		d->optima = d->old_optima;                                     \
-		CCS_RAISE(                                                     \
-			CCS_RESULT_ERROR_OUT_OF_MEMORY,                        \
-			"Out of memory to allocate array");                    \
-	}
 			while ((eval = (ccs_tree_evaluation_t *)utarray_next(
 					d->old_optima, eval))) {
 				if (!discard) {
diff --git a/src/tuner_random.c b/src/tuner_random.c
index 26aeab1..829c996 100644
--- a/src/tuner_random.c
+++ b/src/tuner_random.c
@@ -171,7 +171,6 @@ _ccs_tuner_random_ask(
 #undef utarray_oom
 #define utarray_oom()                                                          \
 	{                                                                      \
-		ccs_release_object(evaluations[i]);                            \
 		CCS_RAISE(                                                     \
 			CCS_RESULT_ERROR_OUT_OF_MEMORY,                        \
 			"Out of memory to allocate array");                    \
@@ -192,6 +191,11 @@ _ccs_tuner_random_tell(
 		if (!result) {
 			int       discard = 0;
 			UT_array *tmp;
+			// What follows can then not fail for lack of memory
+			utarray_reserve(history, 1);
+			utarray_clear(d->old_optima);
+			utarray_reserve(
+				d->old_optima, utarray_len(d->optima) + 1);
 			ccs_retain_object(evaluations[i]);
 			utarray_push_back(history, evaluations + i);
 			tmp           = d->old_optima;
@@ -199,14 +203,6 @@ _ccs_tuner_random_tell(
 			d->optima     = tmp;
 			utarray_clear(d->optima);
 			ccs_evaluation_t *eval = NULL;
-#undef utarray_oom
-#define utarray_oom()                                                          \
-	{                                                                      \
-		d->optima = d->old_optima;                                     \
-		CCS_RAISE(                                                     \
-			CCS_RESULT_ERROR_OUT_OF_MEMORY,                        \
-			"Out of memory to allocate array");                    \
-	}
 			while ((eval = (ccs_evaluation_t *)utarray_next(
 					d->old_optima, eval))) {
 				if (!discard) {
-- 
2.43.0


From c04498ee0d62c8d34d8c56411b75d6734433988c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:19:57 +0000
Subject: [PATCH 48/50] fix: tree configurations sampled before a failure were
 leaked

---
 src/tree_space.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/tree_space.c b/src/tree_space.c
index c835e1b..15a59dc 100644
--- a/src/tree_space.c
+++ b/src/tree_space.c
@@ -150,8 +150,9 @@ _ccs_tree_space_samples(
 	ccs_rng_t    rng = data->rng;
 	ccs_result_t err = CCS_RESULT_SUCCESS;
 	UT_array    *arr = NULL;
+	size_t       i   = 0;
 	utarray_new(arr, &_size_t_icd);
-	for (size_t i = 0; i < num_configurations; i++) {
+	for (; i < num_configurations; i++) {
 		size_t     index;
 		ccs_tree_t tree = data->tree;
 		if (tree) {
@@ -181,6 +182,11 @@ _ccs_tree_space_samples(
 		utarray_clear(arr);
 	}
 err_arr:
+	if (err)
+		while (i > 0) {
+			ccs_release_object(configurations[--i]);
+			configurations[i] = NULL;
+		}
 	if (arr)
 		utarray_free(arr);
 	return err;
-- 
2.43.0


From e7e8d99e56c1bb27d2b46c96ae43fca63dac129f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:20:10 +0000
Subject: [PATCH 49/50] fix: a tuner that could not be read back for lack of
 memory released its evaluations twice

---
 src/features_tuner_deserialize.h | 2 ++
 src/tree_tuner_deserialize.h     | 2 ++
 src/tuner_deserialize.h          | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/src/features_tuner_deserialize.h b/src/features_tuner_deserialize.h
index 10619cb..be436bc 100644
--- a/src/features_tuner_deserialize.h
+++ b/src/features_tuner_deserialize.h
@@ -143,6 +143,8 @@ _ccs_deserialize_bin_random_features_tuner(
 		features_evaluations);
 	odata = (_ccs_random_features_tuner_data_clone_t
 			 *)((*features_tuner_ret)->data);
+	utarray_reserve(odata->history, data.size_history);
+	utarray_reserve(odata->optima, data.size_optima);
 	for (size_t i = 0; i < data.size_history; i++)
 		utarray_push_back(odata->history, data.history + i);
 	for (size_t i = 0; i < data.size_optima; i++)
diff --git a/src/tree_tuner_deserialize.h b/src/tree_tuner_deserialize.h
index 6ebafe0..01249c5 100644
--- a/src/tree_tuner_deserialize.h
+++ b/src/tree_tuner_deserialize.h
@@ -132,6 +132,8 @@ _ccs_deserialize_bin_random_tree_tuner(
 			data.common_data.objective_space, tuner_ret),
 		evaluations);
 	odata = (_ccs_random_tree_tuner_data_clone_t *)((*tuner_ret)->data);
+	utarray_reserve(odata->history, data.size_history);
+	utarray_reserve(odata->optima, data.size_optima);
 	for (size_t i = 0; i < data.size_history; i++)
 		utarray_push_back(odata->history, data.history + i);
 	for (size_t i = 0; i < data.size_optima; i++)
diff --git a/src/tuner_deserialize.h b/src/tuner_deserialize.h
index 2e10dc9..44a46c3 100644
--- a/src/tuner_deserialize.h
+++ b/src/tuner_deserialize.h
@@ -131,6 +131,8 @@ _ccs_deserialize_bin_random_tuner(
 			data.common_data.objective_space, tuner_ret),
 		evaluations);
 	odata = (_ccs_random_tuner_data_clone_t *)((*tuner_ret)->data);
+	utarray_reserve(odata->history, data.size_history);
+	utarray_reserve(odata->optima, data.size_optima);
 	for (size_t i = 0; i < data.size_history; i++)
 		utarray_push_back(odata->history, data.history + i);
 	for (size_t i = 0; i < data.size_optima; i++)
-- 
2.43.0


From cd850b4732ae86e37fd7c59df36c10a034f1b6ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:20:19 +0000
Subject: [PATCH 50/50] fix: an entry of a map that could not be replaced for
 lack of memory was lost

---
 src/map.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/map.c b/src/map.c
index 997e211..7887dc5 100644
--- a/src/map.c
+++ b/src/map.c
@@ -228,9 +228,9 @@ ccs_map_set(ccs_map_t map, ccs_datum_t key, ccs_datum_t value)
 	_ccs_map_set_string(&entry->key, sz1, &mem);
 	_ccs_map_set_string(&entry->value, sz2, &mem);
 
+	HASH_ADD(hh, d->map, key, sizeof(ccs_datum_t), entry);
 	if (old_entry)
 		_ccs_map_remove(d, old_entry);
-	HASH_ADD(hh, d->map, key, sizeof(ccs_datum_t), entry);
 	return CCS_RESULT_SUCCESS;
 err_mem:
 	free(entry);
-- 
2.43.0

