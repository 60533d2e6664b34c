L(dnmx_sv), O(dnmx_sv, begin), O(dnmx_sv, end),
L(struct dnmx_basic_domain), O(struct dnmx_basic_domain, m_name), O(struct dnmx_basic_domain, m_settings), O(struct dnmx_basic_domain, user_data), O(struct dnmx_basic_domain, context),
L(dnmx_domain_settings), O(dnmx_domain_settings, canonicalize_types), O(dnmx_domain_settings, allow_duplicate_feature_names), O(dnmx_domain_settings, allow_duplicate_mixin_names),
L(struct dnmx_basic_type), O(struct dnmx_basic_type, ftable), O(struct dnmx_basic_type, ftable_length),
L(dnmx_ftable_entry), O(dnmx_ftable_entry, begin), O(dnmx_ftable_entry, top_bid_back), O(dnmx_ftable_entry, end),
L(dnmx_ftable_payload), O(dnmx_ftable_payload, mixin_index), O(dnmx_ftable_payload, payload), O(dnmx_ftable_payload, data),
L(struct dnmx_basic_object), O(struct dnmx_basic_object, m_type), O(struct dnmx_basic_object, m_mixin_data),
L(dnmx_object_mixin_data), O(dnmx_object_mixin_data, buf), O(dnmx_object_mixin_data, mixin),
L(dnmx_mixin_info), O(dnmx_mixin_info, id), O(dnmx_mixin_info, dom), O(dnmx_mixin_info, name), O(dnmx_mixin_info, size), O(dnmx_mixin_info, alignment), O(dnmx_mixin_info, obj_buf_size),
O(dnmx_mixin_info, obj_buf_alignment_and_mixin_offset), O(dnmx_mixin_info, init), O(dnmx_mixin_info, copy_init), O(dnmx_mixin_info, move_init), O(dnmx_mixin_info, copy_asgn), O(dnmx_mixin_info, move_asgn),
O(dnmx_mixin_info, destroy), O(dnmx_mixin_info, equals), O(dnmx_mixin_info, compare), O(dnmx_mixin_info, allocator), O(dnmx_mixin_info, mixin_class), O(dnmx_mixin_info, type_info_class), O(dnmx_mixin_info, user_data),
O(dnmx_mixin_info, features), O(dnmx_mixin_info, num_features), O(dnmx_mixin_info, order_priority), O(dnmx_mixin_info, force_external), O(dnmx_mixin_info, dependency),
L(dnmx_feature_info), O(dnmx_feature_info, id), O(dnmx_feature_info, name), O(dnmx_feature_info, allow_clashes), O(dnmx_feature_info, default_payload), O(dnmx_feature_info, feature_class),
L(dnmx_feature_for_mixin), O(dnmx_feature_for_mixin, info), O(dnmx_feature_for_mixin, payload), O(dnmx_feature_for_mixin, bid), O(dnmx_feature_for_mixin, priority),
L(dnmx_mutation_rule_info), O(dnmx_mutation_rule_info, name), O(dnmx_mutation_rule_info, apply), O(dnmx_mutation_rule_info, user_data), O(dnmx_mutation_rule_info, order_priority),
L(dnmx_type_class), O(dnmx_type_class, name), O(dnmx_type_class, matches),
L(dnmx_mutate_func_args), O(dnmx_mutate_func_args, info), O(dnmx_mutate_func_args, mixin_buf), O(dnmx_mutate_func_args, target_type), O(dnmx_mutate_func_args, source_type), O(dnmx_mutate_func_args, target_index), O(dnmx_mutate_func_args, source_index), O(dnmx_mutate_func_args, user_data),
L(dnmx_mutate_to_override), O(dnmx_mutate_to_override, mixin), O(dnmx_mutate_to_override, mixin_name), O(dnmx_mutate_to_override, init_new), O(dnmx_mutate_to_override, update_common), O(dnmx_mutate_to_override, user_data),
L(dnmx_mutate_op), O(dnmx_mutate_op, op_type), O(dnmx_mutate_op, mixin), O(dnmx_mutate_op, mixin_name), O(dnmx_mutate_op, init_override), O(dnmx_mutate_op, user_data),
L(dnmx_int_result), O(dnmx_int_result, result), O(dnmx_int_result, error),
