API(ccs_object_get_type, "hR")
API(ccs_object_get_refcount, "hR")
API(ccs_binding_get_context, "hR")
API(ccs_binding_get_value, "hiR")
API(ccs_binding_set_value, "hiv")
API(ccs_binding_get_values, "hnbR")
API(ccs_binding_set_values, "hna")
API(ccs_binding_get_value_by_name, "hsR")
API(ccs_binding_set_value_by_name, "hsv")
API(ccs_binding_get_value_by_parameter, "hhR")
API(ccs_binding_set_value_by_parameter, "hhv")
API(ccs_binding_hash, "hR")
API(ccs_binding_cmp, "hhR")
API(ccs_create_configuration, "hnaC")
API(ccs_configuration_get_configuration_space, "hR")
API(ccs_configuration_get_value, "hiR")
API(ccs_configuration_set_value, "hiv")
API(ccs_configuration_get_values, "hnbR")
API(ccs_configuration_get_value_by_name, "hsR")
API(ccs_configuration_check, "hR")
API(ccs_configuration_hash, "hR")
API(ccs_configuration_cmp, "hhR")
API(ccs_create_configuration_space, "sC")
API(ccs_configuration_space_get_name, "hR")
API(ccs_configuration_space_set_rng, "hh")
API(ccs_configuration_space_get_rng, "hR")
API(ccs_configuration_space_add_parameter, "hhh")
API(ccs_configuration_space_get_num_parameters, "hR")
API(ccs_configuration_space_get_parameter, "hiR")
API(ccs_configuration_space_get_parameter_distribution, "hiRR")
API(ccs_configuration_space_get_parameter_by_name, "hsR")
API(ccs_configuration_space_get_parameter_index_by_name, "hsR")
API(ccs_configuration_space_get_parameter_index, "hhR")
API(ccs_configuration_space_get_parameter_indexes, "hnab")
API(ccs_configuration_space_get_parameters, "hnbR")
API(ccs_configuration_space_validate_value, "hivR")
API(ccs_configuration_space_set_condition, "hih")
API(ccs_configuration_space_get_condition, "hiR")
API(ccs_configuration_space_get_conditions, "hnbR")
API(ccs_configuration_space_add_forbidden_clause, "hh")
API(ccs_configuration_space_add_forbidden_clauses, "hna")
API(ccs_configuration_space_get_forbidden_clause, "hiR")
API(ccs_configuration_space_get_forbidden_clauses, "hnbR")
API(ccs_configuration_space_check_configuration, "hhR")
API(ccs_configuration_space_check_configuration_values, "hnaR")
API(ccs_configuration_space_get_default_configuration, "hC")
API(ccs_configuration_space_sample, "hC")
API(ccs_configuration_space_samples, "hnO")
API(ccs_context_get_name, "hR")
API(ccs_context_get_parameter_index, "hhR")
API(ccs_context_get_num_parameters, "hR")
API(ccs_context_get_parameter, "hiR")
API(ccs_context_get_parameter_by_name, "hsR")
API(ccs_context_get_parameter_index_by_name, "hsR")
API(ccs_context_get_parameters, "hnbR")
API(ccs_context_get_parameter_indexes, "hnab")
API(ccs_context_validate_value, "hivR")
API(ccs_create_normal_distribution, "vvvvvC")
API(ccs_create_normal_int_distribution, "vvvvC")
API(ccs_create_normal_float_distribution, "vvvvC")
API(ccs_create_uniform_distribution, "vvvvvC")
API(ccs_create_uniform_int_distribution, "vvvvC")
API(ccs_create_uniform_float_distribution, "vvvvC")
API(ccs_create_roulette_distribution, "naC")
API(ccs_create_mixture_distribution, "naaC")
API(ccs_create_multivariate_distribution, "naC")
API(ccs_distribution_get_type, "hR")
API(ccs_distribution_get_dimension, "hR")
API(ccs_normal_distribution_get_properties, "hRRRR")
API(ccs_uniform_distribution_get_properties, "hRRRR")
API(ccs_roulette_distribution_get_num_areas, "hR")
API(ccs_roulette_distribution_get_areas, "hnbR")
API(ccs_mixture_distribution_get_num_distributions, "hR")
API(ccs_mixture_distribution_get_distributions, "hnbR")
API(ccs_mixture_distribution_get_weights, "hnbR")
API(ccs_multivariate_distribution_get_num_distributions, "hR")
API(ccs_multivariate_distribution_get_distributions, "hnbR")
API(ccs_create_evaluation, "hhvnaC")
API(ccs_evaluation_get_objective_space, "hR")
API(ccs_evaluation_get_configuration, "hR")
API(ccs_evaluation_get_result, "hR")
API(ccs_evaluation_set_result, "hv")
API(ccs_evaluation_get_value, "hiR")
API(ccs_evaluation_set_value, "hiv")
API(ccs_evaluation_get_values, "hnbR")
API(ccs_evaluation_get_value_by_name, "hsR")
API(ccs_evaluation_check, "hR")
API(ccs_evaluation_get_objective_value, "hiR")
API(ccs_evaluation_get_objective_values, "hnbR")
API(ccs_evaluation_hash, "hR")
API(ccs_evaluation_cmp, "hhR")
API(ccs_evaluation_compare, "hhR")
API(ccs_create_expression, "vnaC")
API(ccs_create_binary_expression, "vvvC")
API(ccs_create_unary_expression, "vvC")
API(ccs_create_literal, "vC")
API(ccs_create_variable, "hC")
API(ccs_expression_get_type, "hR")
API(ccs_expression_get_num_nodes, "hR")
API(ccs_expression_get_nodes, "hnbR")
API(ccs_literal_get_value, "hR")
API(ccs_variable_get_parameter, "hR")
API(ccs_expression_get_parameters, "hnbR")
API(ccs_expression_check_context, "hh")
API(ccs_create_features, "hnaC")
API(ccs_features_get_features_space, "hR")
API(ccs_features_get_value, "hiR")
API(ccs_features_set_value, "hiv")
API(ccs_features_get_values, "hnbR")
API(ccs_features_get_value_by_name, "hsR")
API(ccs_features_check, "hR")
API(ccs_features_hash, "hR")
API(ccs_features_cmp, "hhR")
API(ccs_create_features_evaluation, "hhhvnaC")
API(ccs_features_evaluation_get_objective_space, "hR")
API(ccs_features_evaluation_get_configuration, "hR")
API(ccs_features_evaluation_get_features, "hR")
API(ccs_features_evaluation_get_result, "hR")
API(ccs_features_evaluation_set_result, "hv")
API(ccs_features_evaluation_get_value, "hiR")
API(ccs_features_evaluation_set_value, "hiv")
API(ccs_features_evaluation_get_values, "hnbR")
API(ccs_features_evaluation_get_value_by_name, "hsR")
API(ccs_features_evaluation_get_objective_value, "hiR")
API(ccs_features_evaluation_get_objective_values, "hnbR")
API(ccs_features_evaluation_hash, "hR")
API(ccs_features_evaluation_cmp, "hhR")
API(ccs_features_evaluation_compare, "hhR")
API(ccs_features_evaluation_check, "hR")
API(ccs_create_features_space, "sC")
API(ccs_features_space_get_name, "hR")
API(ccs_features_space_add_parameter, "hh")
API(ccs_features_space_add_parameters, "hna")
API(ccs_features_space_get_num_parameters, "hR")
API(ccs_features_space_get_parameter, "hiR")
API(ccs_features_space_get_parameter_by_name, "hsR")
API(ccs_features_space_get_parameter_index_by_name, "hsR")
API(ccs_features_space_get_parameter_index, "hhR")
API(ccs_features_space_get_parameter_indexes, "hnab")
API(ccs_features_space_get_parameters, "hnbR")
API(ccs_features_space_validate_value, "hivR")
API(ccs_features_space_check_features, "hhR")
API(ccs_features_space_check_features_values, "hnaR")
API(ccs_features_tuner_get_type, "hR")
API(ccs_features_tuner_get_name, "hR")
API(ccs_features_tuner_get_configuration_space, "hR")
API(ccs_features_tuner_get_objective_space, "hR")
API(ccs_features_tuner_get_features_space, "hR")
API(ccs_features_tuner_ask, "hhnOR")
API(ccs_features_tuner_tell, "hna")
API(ccs_features_tuner_suggest, "hhC")
API(ccs_features_tuner_get_optima, "hhnbR")
API(ccs_features_tuner_get_history, "hhnbR")
API(ccs_create_random_features_tuner, "shhhC")
API(ccs_create_map, "C")
API(ccs_map_set, "hvv")
API(ccs_map_exist, "hvR")
API(ccs_map_get, "hvR")
API(ccs_map_del, "hv")
API(ccs_map_get_keys, "hnbR")
API(ccs_map_get_values, "hnbR")
API(ccs_map_get_pairs, "hnbbR")
API(ccs_map_clear, "h")
API(ccs_create_objective_space, "sC")
API(ccs_objective_space_get_name, "hR")
API(ccs_objective_space_add_parameter, "hh")
API(ccs_objective_space_add_parameters, "hna")
API(ccs_objective_space_get_num_parameters, "hR")
API(ccs_objective_space_get_parameter, "hiR")
API(ccs_objective_space_get_parameter_by_name, "hsR")
API(ccs_objective_space_get_parameter_index_by_name, "hsR")
API(ccs_objective_space_get_parameter_index, "hhR")
API(ccs_objective_space_get_parameter_indexes, "hnab")
API(ccs_objective_space_get_parameters, "hnbR")
API(ccs_objective_space_check_evaluation_values, "hnaR")
API(ccs_objective_space_validate_value, "hivR")
API(ccs_objective_space_add_objective, "hhv")
API(ccs_objective_space_add_objectives, "hnaa")
API(ccs_objective_space_get_objective, "hiRR")
API(ccs_objective_space_get_objectives, "hnbbR")
API(ccs_create_numerical_parameter, "svvvvvC")
API(ccs_create_int_numerical_parameter, "svvvvC")
API(ccs_create_float_numerical_parameter, "svvvvC")
API(ccs_numerical_parameter_get_properties, "hRRRR")
API(ccs_create_categorical_parameter, "snaiC")
API(ccs_categorical_parameter_get_values, "hnbR")
API(ccs_create_ordinal_parameter, "snaiC")
API(ccs_ordinal_parameter_get_values, "hnbR")
API(ccs_ordinal_parameter_compare_values, "hvvR")
API(ccs_create_discrete_parameter, "snaiC")
API(ccs_discrete_parameter_get_values, "hnbR")
API(ccs_create_string_parameter, "sC")
API(ccs_parameter_get_type, "hR")
API(ccs_parameter_get_default_value, "hR")
API(ccs_parameter_get_name, "hR")
API(ccs_parameter_get_default_distribution, "hC")
API(ccs_parameter_check_value, "hvR")
API(ccs_parameter_check_values, "hnab")
API(ccs_parameter_validate_value, "hvRR")
API(ccs_parameter_validate_values, "hnabb")
API(ccs_parameter_sample, "hhhR")
API(ccs_parameter_samples, "hhhnb")
API(ccs_parameter_sampling_interval, "hR")
API(ccs_create_rng, "C")
API(ccs_rng_get, "hR")
API(ccs_rng_uniform, "hR")
API(ccs_rng_min, "hR")
API(ccs_rng_max, "hR")
API(ccs_tree_get_value, "hR")
API(ccs_tree_get_arity, "hR")
API(ccs_tree_set_child, "hih")
API(ccs_tree_get_child, "hiR")
API(ccs_tree_get_children, "hnbR")
API(ccs_tree_get_parent, "hRR")
API(ccs_tree_get_position, "hnbR")
API(ccs_tree_get_values, "hnbR")
API(ccs_tree_position_is_valid, "hnaR")
API(ccs_tree_get_values_at_position, "hnanb")
API(ccs_tree_get_node_at_position, "hnaR")
API(ccs_tree_get_weight, "hR")
API(ccs_tree_set_weight, "hv")
API(ccs_tree_get_bias, "hR")
API(ccs_tree_set_bias, "hv")
API(ccs_tree_sample, "hhR")
API(ccs_tree_samples, "hhnb")
API(ccs_create_tree_configuration, "hnaC")
API(ccs_tree_configuration_get_tree_space, "hR")
API(ccs_tree_configuration_get_position, "hnbR")
API(ccs_tree_configuration_get_values, "hnbR")
API(ccs_tree_configuration_get_node, "hR")
API(ccs_tree_configuration_check, "hR")
API(ccs_tree_configuration_hash, "hR")
API(ccs_tree_configuration_cmp, "hhR")
API(ccs_create_tree_evaluation, "hhvnaC")
API(ccs_tree_evaluation_get_objective_space, "hR")
API(ccs_tree_evaluation_get_configuration, "hR")
API(ccs_tree_evaluation_get_result, "hR")
API(ccs_tree_evaluation_set_result, "hv")
API(ccs_tree_evaluation_get_value, "hiR")
API(ccs_tree_evaluation_set_value, "hiv")
API(ccs_tree_evaluation_get_values, "hnbR")
API(ccs_tree_evaluation_get_value_by_name, "hsR")
API(ccs_tree_evaluation_check, "hR")
API(ccs_tree_evaluation_get_objective_value, "hiR")
API(ccs_tree_evaluation_get_objective_values, "hnbR")
API(ccs_tree_evaluation_hash, "hR")
API(ccs_tree_evaluation_cmp, "hhR")
API(ccs_tree_evaluation_compare, "hhR")
API(ccs_create_static_tree_space, "shC")
API(ccs_tree_space_get_type, "hR")
API(ccs_tree_space_get_name, "hR")
API(ccs_tree_space_set_rng, "hh")
API(ccs_tree_space_get_rng, "hR")
API(ccs_tree_space_get_tree, "hR")
API(ccs_tree_space_get_node_at_position, "hnaR")
API(ccs_tree_space_get_values_at_position, "hnanb")
API(ccs_tree_space_check_position, "hnaR")
API(ccs_tree_space_check_configuration, "hhR")
API(ccs_tree_space_sample, "hC")
API(ccs_tree_space_samples, "hnO")
API(ccs_tree_tuner_get_type, "hR")
API(ccs_tree_tuner_get_name, "hR")
API(ccs_tree_tuner_get_tree_space, "hR")
API(ccs_tree_tuner_get_objective_space, "hR")
API(ccs_tree_tuner_ask, "hnOR")
API(ccs_tree_tuner_tell, "hna")
API(ccs_tree_tuner_suggest, "hC")
API(ccs_tree_tuner_get_optima, "hnbR")
API(ccs_tree_tuner_get_history, "hnbR")
API(ccs_create_random_tree_tuner, "shhC")
API(ccs_tuner_get_type, "hR")
API(ccs_tuner_get_name, "hR")
API(ccs_tuner_get_configuration_space, "hR")
API(ccs_tuner_get_objective_space, "hR")
API(ccs_tuner_ask, "hnOR")
API(ccs_tuner_tell, "hna")
API(ccs_tuner_suggest, "hC")
API(ccs_tuner_get_optima, "hnbR")
API(ccs_tuner_get_history, "hnbR")
API(ccs_create_random_tuner, "shhC")
