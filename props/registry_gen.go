// Code generated by gen.sh. DO NOT EDIT.

package props

// Registry maps harness names to harnesses.
var Registry = map[string]func(){
	"C01_functions":     C01_functions,
	"C01_helpers":       C01_helpers,
	"C01_literal":       C01_literal,
	"C01_long":          C01_long,
	"C01_methods":       C01_methods,
	"C01_places":        C01_places,
	"C02_functions":     C02_functions,
	"C02_long":          C02_long,
	"C02_longest":       C02_longest,
	"C02_methods":       C02_methods,
	"C02_pairs":         C02_pairs,
	"C02_parameters":    C02_parameters,
	"C02_places":        C02_places,
	"C03_conditions":    C03_conditions,
	"C03_constants":     C03_constants,
	"C03_floats":        C03_floats,
	"C03_functions":     C03_functions,
	"C03_helpers":       C03_helpers,
	"C03_integer":       C03_integer,
	"C03_methods":       C03_methods,
	"C03_outside":       C03_outside,
	"C03_parameters":    C03_parameters,
	"C03_percentiles":   C03_percentiles,
	"C03_places":        C03_places,
	"C03_refused":       C03_refused,
	"C04_accepted":      C04_accepted,
	"C04_conditions":    C04_conditions,
	"C04_expressions":   C04_expressions,
	"C04_functions":     C04_functions,
	"C04_later":         C04_later,
	"C04_lists":         C04_lists,
	"C04_many":          C04_many,
	"C04_methods":       C04_methods,
	"C04_names":         C04_names,
	"C04_nested":        C04_nested,
	"C04_nodes":         C04_nodes,
	"C04_operands":      C04_operands,
	"C04_patterns":      C04_patterns,
	"C04_sortText":      C04_sortText,
	"C05_again":         C05_again,
	"C05_alike":         C05_alike,
	"C05_failed":        C05_failed,
	"C05_functions":     C05_functions,
	"C05_identity":      C05_identity,
	"C05_lookup":        C05_lookup,
	"C05_manyNodes":     C05_manyNodes,
	"C05_methods":       C05_methods,
	"C05_others":        C05_others,
	"C05_quoted":        C05_quoted,
	"C05_shared":        C05_shared,
	"C05_unresolved":    C05_unresolved,
	"C06_api":           C06_api,
	"C06_many":          C06_many,
	"C06_repeated":      C06_repeated,
	"C06_roots":         C06_roots,
	"C06_slices":        C06_slices,
	"C06_statements":    C06_statements,
	"C06_values":        C06_values,
	"C07_again":         C07_again,
	"C07_forms":         C07_forms,
	"C07_functions":     C07_functions,
	"C07_long":          C07_long,
	"C07_many":          C07_many,
	"C07_methods":       C07_methods,
	"C07_sequences":     C07_sequences,
	"C08_absent":        C08_absent,
	"C08_builders":      C08_builders,
	"C08_chains":        C08_chains,
	"C08_kinds":         C08_kinds,
	"C08_many":          C08_many,
	"C08_places":        C08_places,
	"C08_same":          C08_same,
	"C08_trees":         C08_trees,
	"C08_xor":           C08_xor,
	"C09_assign":        C09_assign,
	"C09_grouping":      C09_grouping,
	"C09_long":          C09_long,
	"C09_many":          C09_many,
	"C09_mixed":         C09_mixed,
	"C09_operands":      C09_operands,
	"C09_same":          C09_same,
	"C09_unary":         C09_unary,
	"C09_values":        C09_values,
	"C10_chain":         C10_chain,
	"C10_clauses":       C10_clauses,
	"C10_labels":        C10_labels,
	"C10_long":          C10_long,
	"C10_many":          C10_many,
	"C10_mentions":      C10_mentions,
	"C10_nodes":         C10_nodes,
	"C10_relationship":  C10_relationship,
	"C10_same":          C10_same,
	"C10_several":       C10_several,
	"C10_values":        C10_values,
	"C11_clauses":       C11_clauses,
	"C11_inside":        C11_inside,
	"C11_items":         C11_items,
	"C11_kinds":         C11_kinds,
	"C11_many":          C11_many,
	"C11_other":         C11_other,
	"C11_parts":         C11_parts,
	"C11_same":          C11_same,
	"C11_several":       C11_several,
	"C11_union":         C11_union,
	"C12_arguments":     C12_arguments,
	"C12_definitions":   C12_definitions,
	"C12_many":          C12_many,
	"C12_nested":        C12_nested,
	"C12_own":           C12_own,
	"C12_same":          C12_same,
	"C12_values":        C12_values,
	"C12_variadic":      C12_variadic,
	"C13_calls":         C13_calls,
	"C13_deep":          C13_deep,
	"C13_exists":        C13_exists,
	"C13_longer":        C13_longer,
	"C13_many":          C13_many,
	"C13_mixed":         C13_mixed,
	"C13_returnless":    C13_returnless,
	"C13_same":          C13_same,
	"C13_subquery":      C13_subquery,
	"C13_trees":         C13_trees,
	"C13_union":         C13_union,
	"C13_yield":         C13_yield,
	"C14_lookup":        C14_lookup,
	"C14_many":          C14_many,
	"C14_map":           C14_map,
	"C14_nested":        C14_nested,
	"C14_pairs":         C14_pairs,
	"C14_projection":    C14_projection,
	"C14_same":          C14_same,
	"C14_siblings":      C14_siblings,
	"C14_twice":         C14_twice,
	"C14_values":        C14_values,
	"C15_kinds":         C15_kinds,
	"C15_many":          C15_many,
	"C15_nested":        C15_nested,
	"C15_places":        C15_places,
	"C15_same":          C15_same,
	"C15_sequence":      C15_sequence,
	"C15_values":        C15_values,
	"C16_counts":        C16_counts,
	"C16_empty":         C16_empty,
	"C16_items":         C16_items,
	"C16_kinds":         C16_kinds,
	"C16_many":          C16_many,
	"C16_nothing":       C16_nothing,
	"C16_return":        C16_return,
	"C16_same":          C16_same,
	"C16_sorts":         C16_sorts,
	"C16_with":          C16_with,
	"C17_bounds":        C17_bounds,
	"C17_comprehension": C17_comprehension,
	"C17_condition":     C17_condition,
	"C17_list":          C17_list,
	"C17_many":          C17_many,
	"C17_nested":        C17_nested,
	"C17_pattern":       C17_pattern,
	"C17_predicate":     C17_predicate,
	"C17_raw":           C17_raw,
	"C17_returned":      C17_returned,
	"C17_same":          C17_same,
	"C17_slice":         C17_slice,
	"C17_slices":        C17_slices,
	"C17_unwind":        C17_unwind,
	"C18_chains":        C18_chains,
	"C18_functions":     C18_functions,
	"C18_methods":       C18_methods,
	"C19_composed":      C19_composed,
	"C19_conditions":    C19_conditions,
	"C19_deep":          C19_deep,
	"C19_deepMixed":     C19_deepMixed,
	"C19_expressions":   C19_expressions,
	"C19_functions":     C19_functions,
	"C19_methods":       C19_methods,
	"C19_placed":        C19_placed,
	"C19_sequences":     C19_sequences,
	"C19_statements":    C19_statements,
	"C20_actions":       C20_actions,
	"C20_delete":        C20_delete,
	"C20_labels":        C20_labels,
	"C20_many":          C20_many,
	"C20_named":         C20_named,
	"C20_patterns":      C20_patterns,
	"C20_refused":       C20_refused,
	"C20_remove":        C20_remove,
	"C20_same":          C20_same,
	"C20_set":           C20_set,
	"C20_setAfter":      C20_setAfter,
	"C21_continue":      C21_continue,
	"C21_expressions":   C21_expressions,
	"C21_functions":     C21_functions,
	"C21_methods":       C21_methods,
	"C21_render":        C21_render,
	"C21_values":        C21_values,
	"K08_flattened":     K08_flattened,
}
