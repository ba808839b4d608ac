-------------------------------- MODULE CCSArgs --------------------------------
(* What every public function expects of its arguments, and what it answers when  *)
(* an argument is not what it should be: an error code, nothing written through    *)
(* an output, nothing kept, nothing left behind.                                   *)
(* Arguments (in the order of the prototype):                                      *)
(*   H(k)   a handle of the type of fixture k        H2(k)  of the subtype of k     *)
(*   HB(k)  any binding     HC(k)  any context       HA(k)  any object              *)
(*   HO(k)  as H, may be NULL                                                       *)
(*   HP(k)  a parameter looked up      HV(k)  a context that an expression needs     *)
(*   S(x)   a string        SL(x)  the name of a parameter of the first argument     *)
(*   N(n)   a number of elements of the arrays that follow; NS(n): of output arrays  *)
(*          that must not be smaller                                                *)
(*   XV(n)  an index below n that is itself a value     AHP(ks)  parameters looked up *)
(*   X(n)   an index below n       AH(ks) AI(x) input arrays    AO AP output arrays   *)
(*   PH(ks) P(x) what must be there whatever the number of elements                   *)
(*   O      an output       OO  an output that may be NULL                            *)
(*   OG     outputs one of which must be there                                         *)
(*   R      the number of elements an output array needs: may be NULL, but not         *)
(*          together with the arrays                                                  *)
(*   D(v) C(v)  a value                                                               *)
EXTENDS CCSValues, Sequences, FiniteSets, TLC

H(k) == <<"h", k>>
H2(k) == <<"h2", k>>
HB(k) == <<"hb", k>>
HC(k) == <<"hc", k>>
HA(k) == <<"ha", k>>
HO(k) == <<"ho", k>>
HP(k) == <<"hp", k>>
HV(k) == <<"hv", k>>
S(x) == <<"s", x>>
SL(x) == <<"sl", x>>
N(n) == <<"n", n>>
NS(n) == <<"ns", n>>
X(n) == <<"x", n>>
XV(n) == <<"xv", n>>
AH(ks) == <<"ah", ks>>
AHP(ks) == <<"ahp", ks>>
AHO(ks) == <<"aho", ks>>
AI(x) == <<"ai", x>>
PH(ks) == <<"ph", ks>>
P(x) == <<"p", x>>
AO == <<"ao">>
AP == <<"ap">>
O == <<"o">>
OG == <<"og">>
OO == <<"oo">>
R == <<"r">>
I(n) == n
D(v) == <<"d", v>>
C(v) == <<"c", v>>

(* the fixtures and their types *)
TypeOf == [
  rng |-> "rng", map |-> "map", err |-> "err",
  num |-> "param", cat |-> "param", ord |-> "param", disc |-> "param", str |-> "param", newp |-> "param", newp2 |-> "param",
  uni |-> "dist", nor |-> "dist", rou |-> "dist", mix |-> "dist", mul |-> "dist",
  expr |-> "expr", expr2 |-> "expr", lit |-> "expr", var |-> "expr", list |-> "expr",
  cs |-> "cs", fs |-> "fs", os |-> "os", conf |-> "conf", feat |-> "feat",
  eval |-> "eval", feval |-> "feval", teval |-> "teval", tconf |-> "tconf",
  tree |-> "tree", leaf |-> "tree", bare |-> "tree", newtree |-> "tree", tspace |-> "tspace", dyn |-> "tspace",
  tuner |-> "tuner", utuner |-> "tuner", ftuner |-> "ftuner", uftuner |-> "ftuner", ttuner |-> "ttuner", uttuner |-> "ttuner"]
Kinds == DOMAIN TypeOf
SubType == [num |-> "num", newp |-> "num", newp2 |-> "num", utuner |-> "user", uftuner |-> "user", uttuner |-> "user",
            tuner |-> "rand", ftuner |-> "rand", ttuner |-> "rand", expr |-> "gen", expr2 |-> "gen"] @@ [k \in Kinds |-> k]
SubCode == [param |-> INVALID_PARAMETER, dist |-> INVALID_DISTRIBUTION, expr |-> INVALID_EXPRESSION, tspace |-> INVALID_TREE_SPACE,
            tuner |-> INVALID_TUNER, ftuner |-> INVALID_FEATURES_TUNER, ttuner |-> INVALID_TUNER]
Bindings == {"conf", "feat", "eval", "feval", "teval"}
Contexts == {"cs", "fs", "os"}

Sig == [
  binding_cmp |-> <<HB("conf"), HB("conf"), O>>,
  binding_get_context |-> <<HB("conf"), O>>,
  binding_get_value |-> <<HB("conf"), X(2), O>>,
  binding_get_value_by_name |-> <<HB("conf"), SL("a"), O>>,
  binding_get_value_by_parameter |-> <<HB("conf"), HP("num"), O>>,
  binding_get_values |-> <<HB("conf"), NS(2), AO, R>>,
  binding_hash |-> <<HB("conf"), O>>,
  binding_set_value |-> <<HB("conf"), X(2), D(I(1))>>,
  binding_set_value_by_name |-> <<HB("conf"), SL("a"), D(I(1))>>,
  binding_set_value_by_parameter |-> <<HB("conf"), HP("num"), D(I(1))>>,
  binding_set_values |-> <<HB("conf"), N(2), AI("datum")>>,
  categorical_parameter_get_values |-> <<H2("cat"), NS(2), AO, R>>,
  configuration_check |-> <<H("conf"), O>>,
  configuration_cmp |-> <<H("conf"), H("conf"), O>>,
  configuration_get_configuration_space |-> <<H("conf"), O>>,
  configuration_get_value |-> <<H("conf"), X(2), O>>,
  configuration_get_value_by_name |-> <<H("conf"), SL("a"), O>>,
  configuration_get_values |-> <<H("conf"), NS(2), AO, R>>,
  configuration_hash |-> <<H("conf"), O>>,
  configuration_set_value |-> <<H("conf"), X(2), D(I(1))>>,
  configuration_space_add_forbidden_clause |-> <<H("cs"), H("expr2")>>,
  configuration_space_add_forbidden_clauses |-> <<H("cs"), N(2), AH(<<"expr2", "expr2">>)>>,
  configuration_space_add_parameter |-> <<H("cs"), H("newp"), HO("uni")>>,
  configuration_space_add_parameters |-> <<H("cs"), N(2), AH(<<"newp", "newp2">>), AHO(<<"uni", "uni">>)>>,
  configuration_space_check_configuration |-> <<H("cs"), H("conf"), O>>,
  configuration_space_check_configuration_values |-> <<H("cs"), N(2), AI("datum"), O>>,
  configuration_space_get_condition |-> <<H("cs"), X(2), O>>,
  configuration_space_get_conditions |-> <<H("cs"), NS(2), AO, R>>,
  configuration_space_get_default_configuration |-> <<H("cs"), O>>,
  configuration_space_get_forbidden_clause |-> <<H("cs"), X(2), O>>,
  configuration_space_get_forbidden_clauses |-> <<H("cs"), NS(2), AO, R>>,
  configuration_space_get_name |-> <<H("cs"), O>>,
  configuration_space_get_num_parameters |-> <<H("cs"), O>>,
  configuration_space_get_parameter |-> <<H("cs"), X(2), O>>,
  configuration_space_get_parameter_by_name |-> <<H("cs"), SL("a"), O>>,
  configuration_space_get_parameter_distribution |-> <<H("cs"), X(2), O, O>>,
  configuration_space_get_parameter_index |-> <<H("cs"), HP("num"), O>>,
  configuration_space_get_parameter_index_by_name |-> <<H("cs"), SL("a"), O>>,
  configuration_space_get_parameter_indexes |-> <<H("cs"), N(2), AHP(<<"num", "cat">>), AO>>,
  configuration_space_get_parameters |-> <<H("cs"), NS(2), AO, R>>,
  configuration_space_get_rng |-> <<H("cs"), O>>,
  configuration_space_sample |-> <<H("cs"), O>>,
  configuration_space_samples |-> <<H("cs"), N(2), AO>>,
  configuration_space_set_condition |-> <<H("cs"), X(2), H("expr2")>>,
  configuration_space_set_distribution |-> <<H("cs"), H("mul"), AI("ix")>>,
  configuration_space_set_rng |-> <<H("cs"), H("rng")>>,
  configuration_space_validate_value |-> <<H("cs"), X(2), D(I(1)), O>>,
  context_get_name |-> <<HC("cs"), O>>,
  context_get_num_parameters |-> <<HC("cs"), O>>,
  context_get_parameter |-> <<HC("cs"), X(2), O>>,
  context_get_parameter_by_name |-> <<HC("cs"), SL("a"), O>>,
  context_get_parameter_index |-> <<HC("cs"), HP("num"), O>>,
  context_get_parameter_index_by_name |-> <<HC("cs"), SL("a"), O>>,
  context_get_parameter_indexes |-> <<HC("cs"), N(2), AHP(<<"num", "cat">>), AO>>,
  context_get_parameters |-> <<HC("cs"), NS(2), AO, R>>,
  context_validate_value |-> <<HC("cs"), X(2), D(I(1)), O>>,
  create_binary_expression |-> <<C(3), D(I(1)), D(I(2)), O>>,
  create_categorical_parameter |-> <<S("a"), N(2), AI("values"), XV(2), O>>,
  create_configuration |-> <<H("cs"), N(2), AI("datum"), O>>,
  create_configuration_space |-> <<S("a"), O>>,
  create_discrete_parameter |-> <<S("a"), N(2), AI("values"), XV(2), O>>,
  create_dynamic_tree_space |-> <<S("a"), H("tree"), P("tsvec"), C("null"), O>>,
  create_evaluation |-> <<H("os"), H("conf"), C(0), N(2), AI("datum"), O>>,
  create_expression |-> <<C(3), N(2), AI("datum"), O>>,
  create_features |-> <<H("fs"), N(2), AI("datum"), O>>,
  create_features_evaluation |-> <<H("os"), H("conf"), H("feat"), C(0), N(2), AI("datum"), O>>,
  create_features_space |-> <<S("a"), O>>,
  create_float_numerical_parameter |-> <<S("a"), C(0), C(9), C(0), C(1), O>>,
  create_int_numerical_parameter |-> <<S("a"), C(0), C(9), C(0), C(1), O>>,
  create_literal |-> <<D(I(1)), O>>,
  create_map |-> <<O>>,
  create_mixture_distribution |-> <<N(2), AH(<<"uni", "uni">>), AI("half"), O>>,
  create_multivariate_distribution |-> <<N(2), AH(<<"uni", "rou">>), O>>,
  create_normal_distribution |-> <<C(1), C(0), C(1), C(0), C(0), O>>,
  create_normal_float_distribution |-> <<C(0), C(1), C(0), C(0), O>>,
  create_normal_int_distribution |-> <<C(0), C(1), C(0), C(0), O>>,
  create_numerical_parameter |-> <<S("a"), C(1), C(0), C(9), C(0), C(1), O>>,
  create_objective_space |-> <<S("a"), O>>,
  create_ordinal_parameter |-> <<S("a"), N(2), AI("values"), XV(2), O>>,
  create_random_features_tuner |-> <<S("a"), H("cs"), H("fs"), H("os"), O>>,
  create_random_tree_tuner |-> <<S("a"), H("tspace"), H("os"), O>>,
  create_random_tuner |-> <<S("a"), H("cs"), H("os"), O>>,
  create_rng |-> <<O>>,
  create_rng_with_type |-> <<P("gsl"), O>>,
  create_roulette_distribution |-> <<N(2), AI("half"), O>>,
  create_static_tree_space |-> <<S("a"), H("tree"), O>>,
  create_string_parameter |-> <<S("a"), O>>,
  create_tree |-> <<C(2), D(I(1)), O>>,
  create_tree_configuration |-> <<H("tspace"), N(2), AI("zeros"), O>>,
  create_tree_evaluation |-> <<H("os"), H("tconf"), C(0), N(2), AI("datum"), O>>,
  create_unary_expression |-> <<C(14), D(I(1)), O>>,
  create_uniform_distribution |-> <<C(1), C(0), C(9), C(0), C(0), O>>,
  create_uniform_float_distribution |-> <<C(0), C(9), C(0), C(0), O>>,
  create_uniform_int_distribution |-> <<C(0), C(9), C(0), C(0), O>>,
  create_user_defined_features_tuner |-> <<S("a"), H("cs"), H("fs"), H("os"), P("ftvec"), C("null"), O>>,
  create_user_defined_tree_tuner |-> <<S("a"), H("tspace"), H("os"), P("ttvec"), C("null"), O>>,
  create_user_defined_tuner |-> <<S("a"), H("cs"), H("os"), P("tvec"), C("null"), O>>,
  create_variable |-> <<H("num"), O>>,
  discrete_parameter_get_values |-> <<H2("disc"), NS(2), AO, R>>,
  distribution_check_oversampling |-> <<H("mul"), P("interval"), O>>,
  distribution_get_bounds |-> <<H("mul"), O>>,
  distribution_get_data_types |-> <<H("mul"), O>>,
  distribution_get_dimension |-> <<H("uni"), O>>,
  distribution_get_type |-> <<H("uni"), O>>,
  distribution_parameters_sample |-> <<H("mul"), HO("rng"), PH(<<"num", "cat">>), O>>,
  distribution_parameters_samples |-> <<H("mul"), HO("rng"), PH(<<"num", "cat">>), N(2), AO>>,
  distribution_sample |-> <<H("mul"), HO("rng"), O>>,
  distribution_samples |-> <<H("mul"), HO("rng"), N(2), AO>>,
  distribution_soa_samples |-> <<H("mul"), HO("rng"), N(2), AP>>,
  distribution_strided_samples |-> <<H("mul"), HO("rng"), N(2), C(3), AO>>,
  dynamic_tree_space_get_tree_space_data |-> <<H2("dyn"), O>>,
  evaluation_check |-> <<H("eval"), O>>,
  evaluation_cmp |-> <<H("eval"), H("eval"), O>>,
  evaluation_compare |-> <<H("eval"), H("eval"), O>>,
  evaluation_get_configuration |-> <<H("eval"), O>>,
  evaluation_get_objective_space |-> <<H("eval"), O>>,
  evaluation_get_objective_value |-> <<H("eval"), X(2), O>>,
  evaluation_get_objective_values |-> <<H("eval"), NS(2), AO, R>>,
  evaluation_get_result |-> <<H("eval"), O>>,
  evaluation_get_value |-> <<H("eval"), X(2), O>>,
  evaluation_get_value_by_name |-> <<H("eval"), SL("a"), O>>,
  evaluation_get_values |-> <<H("eval"), NS(2), AO, R>>,
  evaluation_hash |-> <<H("eval"), O>>,
  evaluation_set_result |-> <<H("eval"), C(-1)>>,
  evaluation_set_value |-> <<H("eval"), X(2), D(I(1))>>,
  expression_check_context |-> <<H("expr"), HV("cs")>>,
  expression_eval |-> <<H("expr"), HC("cs"), AI("datum"), O>>,
  expression_get_nodes |-> <<H("expr"), NS(2), AO, R>>,
  expression_get_num_nodes |-> <<H("expr"), O>>,
  expression_get_parameters |-> <<H("expr"), NS(2), AO, R>>,
  expression_get_type |-> <<H("expr"), O>>,
  expression_list_eval_node |-> <<H2("list"), HC("cs"), AI("datum"), X(2), O>>,
  features_check |-> <<H("feat"), O>>,
  features_cmp |-> <<H("feat"), H("feat"), O>>,
  features_evaluation_check |-> <<H("feval"), O>>,
  features_evaluation_cmp |-> <<H("feval"), H("feval"), O>>,
  features_evaluation_compare |-> <<H("feval"), H("feval"), O>>,
  features_evaluation_get_configuration |-> <<H("feval"), O>>,
  features_evaluation_get_features |-> <<H("feval"), O>>,
  features_evaluation_get_objective_space |-> <<H("feval"), O>>,
  features_evaluation_get_objective_value |-> <<H("feval"), X(2), O>>,
  features_evaluation_get_objective_values |-> <<H("feval"), NS(2), AO, R>>,
  features_evaluation_get_result |-> <<H("feval"), O>>,
  features_evaluation_get_value |-> <<H("feval"), X(2), O>>,
  features_evaluation_get_value_by_name |-> <<H("feval"), SL("a"), O>>,
  features_evaluation_get_values |-> <<H("feval"), NS(2), AO, R>>,
  features_evaluation_hash |-> <<H("feval"), O>>,
  features_evaluation_set_result |-> <<H("feval"), C(1)>>,
  features_evaluation_set_value |-> <<H("feval"), X(2), D(I(1))>>,
  features_get_features_space |-> <<H("feat"), O>>,
  features_get_value |-> <<H("feat"), X(2), O>>,
  features_get_value_by_name |-> <<H("feat"), SL("a"), O>>,
  features_get_values |-> <<H("feat"), NS(2), AO, R>>,
  features_hash |-> <<H("feat"), O>>,
  features_set_value |-> <<H("feat"), X(2), D(I(1))>>,
  features_space_add_parameter |-> <<H("fs"), H("newp")>>,
  features_space_add_parameters |-> <<H("fs"), N(2), AH(<<"newp", "newp2">>)>>,
  features_space_check_features |-> <<H("fs"), H("feat"), O>>,
  features_space_check_features_values |-> <<H("fs"), N(2), AI("datum"), O>>,
  features_space_get_name |-> <<H("fs"), O>>,
  features_space_get_num_parameters |-> <<H("fs"), O>>,
  features_space_get_parameter |-> <<H("fs"), X(2), O>>,
  features_space_get_parameter_by_name |-> <<H("fs"), SL("a"), O>>,
  features_space_get_parameter_index |-> <<H("fs"), HP("num"), O>>,
  features_space_get_parameter_index_by_name |-> <<H("fs"), SL("a"), O>>,
  features_space_get_parameter_indexes |-> <<H("fs"), N(2), AHP(<<"num", "cat">>), AO>>,
  features_space_get_parameters |-> <<H("fs"), NS(2), AO, R>>,
  features_space_validate_value |-> <<H("fs"), X(2), D(I(1)), O>>,
  features_tuner_ask |-> <<H("ftuner"), H("feat"), N(2), AO, R>>,
  features_tuner_get_configuration_space |-> <<H("ftuner"), O>>,
  features_tuner_get_features_space |-> <<H("ftuner"), O>>,
  features_tuner_get_history |-> <<H("ftuner"), HO("feat"), NS(2), AO, R>>,
  features_tuner_get_name |-> <<H("ftuner"), O>>,
  features_tuner_get_objective_space |-> <<H("ftuner"), O>>,
  features_tuner_get_optima |-> <<H("ftuner"), HO("feat"), NS(2), AO, R>>,
  features_tuner_get_type |-> <<H("ftuner"), O>>,
  features_tuner_suggest |-> <<H("ftuner"), H("feat"), O>>,
  features_tuner_tell |-> <<H("ftuner"), N(2), AH(<<"feval", "feval">>)>>,
  get_result_name |-> <<C(-1), O>>,
  interval_empty |-> <<P("interval"), O>>,
  interval_equal |-> <<P("interval"), P("interval"), O>>,
  interval_intersect |-> <<P("interval"), P("interval"), O>>,
  interval_union |-> <<P("interval"), P("interval"), O>>,
  literal_get_value |-> <<H2("lit"), O>>,
  map_clear |-> <<H("map")>>,
  map_del |-> <<H("map"), D(I(1))>>,
  map_exist |-> <<H("map"), D(I(1)), O>>,
  map_get |-> <<H("map"), D(I(1)), O>>,
  map_get_keys |-> <<H("map"), NS(2), AO, R>>,
  map_get_pairs |-> <<H("map"), NS(2), AO, AO, R>>,
  map_get_values |-> <<H("map"), NS(2), AO, R>>,
  map_set |-> <<H("map"), D(I(1)), D(I(1))>>,
  mixture_distribution_get_distributions |-> <<H2("mix"), NS(2), AO, R>>,
  mixture_distribution_get_num_distributions |-> <<H2("mix"), O>>,
  mixture_distribution_get_weights |-> <<H2("mix"), NS(2), AO, R>>,
  multivariate_distribution_get_distributions |-> <<H2("mul"), NS(2), AO, R>>,
  multivariate_distribution_get_num_distributions |-> <<H2("mul"), O>>,
  normal_distribution_get_properties |-> <<H2("nor"), OG, OG, OG, OG>>,
  numerical_parameter_get_properties |-> <<H2("num"), OG, OG, OG, OG>>,
  object_get_refcount |-> <<HA("rng"), O>>,
  object_get_type |-> <<HA("rng"), O>>,
  object_get_user_data |-> <<HA("rng"), O>>,
  object_set_destroy_callback |-> <<HA("rng"), P("destroy"), C("null")>>,
  object_set_serialize_callback |-> <<HA("rng"), C("null"), C("null")>>,
  object_set_user_data |-> <<HA("rng"), C("null")>>,
  objective_space_add_objective |-> <<H("os"), H("expr"), C(0)>>,
  objective_space_add_objectives |-> <<H("os"), N(2), AH(<<"expr", "expr2">>), AI("otypes")>>,
  objective_space_add_parameter |-> <<H("os"), H("newp")>>,
  objective_space_add_parameters |-> <<H("os"), N(2), AH(<<"newp", "newp2">>)>>,
  objective_space_check_evaluation_values |-> <<H("os"), N(2), AI("datum"), O>>,
  objective_space_get_name |-> <<H("os"), O>>,
  objective_space_get_num_parameters |-> <<H("os"), O>>,
  objective_space_get_objective |-> <<H("os"), X(2), O, O>>,
  objective_space_get_objectives |-> <<H("os"), NS(2), AO, AO, R>>,
  objective_space_get_parameter |-> <<H("os"), X(2), O>>,
  objective_space_get_parameter_by_name |-> <<H("os"), SL("a"), O>>,
  objective_space_get_parameter_index |-> <<H("os"), HP("num"), O>>,
  objective_space_get_parameter_index_by_name |-> <<H("os"), SL("a"), O>>,
  objective_space_get_parameter_indexes |-> <<H("os"), N(2), AHP(<<"num", "cat">>), AO>>,
  objective_space_get_parameters |-> <<H("os"), NS(2), AO, R>>,
  objective_space_validate_value |-> <<H("os"), X(2), D(I(1)), O>>,
  ordinal_parameter_compare_values |-> <<H2("ord"), D(I(1)), D(I(2)), O>>,
  ordinal_parameter_get_values |-> <<H2("ord"), NS(2), AO, R>>,
  parameter_check_value |-> <<H("num"), D(I(1)), O>>,
  parameter_check_values |-> <<H("num"), N(2), AI("datum"), AO>>,
  parameter_convert_samples |-> <<H("num"), C(0), N(2), AI("numeric"), AO>>,
  parameter_get_default_distribution |-> <<H("num"), O>>,
  parameter_get_default_value |-> <<H("num"), O>>,
  parameter_get_name |-> <<H("num"), O>>,
  parameter_get_type |-> <<H("num"), O>>,
  parameter_sample |-> <<H("num"), H("uni"), HO("rng"), O>>,
  parameter_samples |-> <<H("num"), H("uni"), HO("rng"), N(2), AO>>,
  parameter_sampling_interval |-> <<H("num"), O>>,
  parameter_validate_value |-> <<H("num"), D(I(1)), O, O>>,
  parameter_validate_values |-> <<H("num"), N(2), AI("datum"), AO, AO>>,
  retain_object |-> <<HA("rng")>>,
  rng_get |-> <<H("rng"), O>>,
  rng_get_gsl_rng |-> <<H("rng"), O>>,
  rng_get_type |-> <<H("rng"), O>>,
  rng_max |-> <<H("rng"), O>>,
  rng_min |-> <<H("rng"), O>>,
  rng_set_seed |-> <<H("rng"), C(1)>>,
  rng_uniform |-> <<H("rng"), O>>,
  roulette_distribution_get_areas |-> <<H2("rou"), NS(2), AO, R>>,
  roulette_distribution_get_num_areas |-> <<H2("rou"), O>>,
  tree_configuration_check |-> <<H("tconf"), O>>,
  tree_configuration_cmp |-> <<H("tconf"), H("tconf"), O>>,
  tree_configuration_get_node |-> <<H("tconf"), O>>,
  tree_configuration_get_position |-> <<H("tconf"), NS(2), AO, R>>,
  tree_configuration_get_tree_space |-> <<H("tconf"), O>>,
  tree_configuration_get_values |-> <<H("tconf"), NS(3), AO, R>>,
  tree_configuration_hash |-> <<H("tconf"), O>>,
  tree_evaluation_check |-> <<H("teval"), O>>,
  tree_evaluation_cmp |-> <<H("teval"), H("teval"), O>>,
  tree_evaluation_compare |-> <<H("teval"), H("teval"), O>>,
  tree_evaluation_get_configuration |-> <<H("teval"), O>>,
  tree_evaluation_get_objective_space |-> <<H("teval"), O>>,
  tree_evaluation_get_objective_value |-> <<H("teval"), X(2), O>>,
  tree_evaluation_get_objective_values |-> <<H("teval"), NS(2), AO, R>>,
  tree_evaluation_get_result |-> <<H("teval"), O>>,
  tree_evaluation_get_value |-> <<H("teval"), X(2), O>>,
  tree_evaluation_get_value_by_name |-> <<H("teval"), SL("a"), O>>,
  tree_evaluation_get_values |-> <<H("teval"), NS(2), AO, R>>,
  tree_evaluation_hash |-> <<H("teval"), O>>,
  tree_evaluation_set_result |-> <<H("teval"), C(1)>>,
  tree_evaluation_set_value |-> <<H("teval"), X(2), D(I(1))>>,
  tree_get_arity |-> <<H("tree"), O>>,
  tree_get_bias |-> <<H("tree"), O>>,
  tree_get_child |-> <<H("tree"), X(2), O>>,
  tree_get_children |-> <<H("tree"), NS(2), AO, R>>,
  tree_get_node_at_position |-> <<H("tree"), N(2), AI("zeros"), O>>,
  tree_get_parent |-> <<H("leaf"), OO, OO>>,
  tree_get_position |-> <<H("leaf"), NS(2), AO, R>>,
  tree_get_value |-> <<H("tree"), O>>,
  tree_get_values |-> <<H("leaf"), NS(3), AO, R>>,
  tree_get_values_at_position |-> <<H("tree"), N(2), AI("zeros"), NS(3), AO>>,
  tree_get_weight |-> <<H("tree"), O>>,
  tree_position_is_valid |-> <<H("tree"), N(2), AI("zeros"), O>>,
  tree_sample |-> <<H("tree"), HO("rng"), O>>,
  tree_samples |-> <<H("tree"), HO("rng"), N(2), AO>>,
  tree_set_bias |-> <<H("tree"), C(1)>>,
  tree_set_child |-> <<H("bare"), X(2), H("newtree")>>,
  tree_set_weight |-> <<H("tree"), C(1)>>,
  tree_space_check_configuration |-> <<H("tspace"), H("tconf"), O>>,
  tree_space_check_position |-> <<H("tspace"), N(2), AI("zeros"), O>>,
  tree_space_get_name |-> <<H("tspace"), O>>,
  tree_space_get_node_at_position |-> <<H("tspace"), N(2), AI("zeros"), O>>,
  tree_space_get_rng |-> <<H("tspace"), O>>,
  tree_space_get_tree |-> <<H("tspace"), O>>,
  tree_space_get_type |-> <<H("tspace"), O>>,
  tree_space_get_values_at_position |-> <<H("tspace"), N(2), AI("zeros"), NS(3), AO>>,
  tree_space_sample |-> <<H("tspace"), O>>,
  tree_space_samples |-> <<H("tspace"), N(2), AO>>,
  tree_space_set_rng |-> <<H("tspace"), H("rng")>>,
  tree_tuner_ask |-> <<H("ttuner"), N(2), AO, R>>,
  tree_tuner_get_history |-> <<H("ttuner"), NS(2), AO, R>>,
  tree_tuner_get_name |-> <<H("ttuner"), O>>,
  tree_tuner_get_objective_space |-> <<H("ttuner"), O>>,
  tree_tuner_get_optima |-> <<H("ttuner"), NS(2), AO, R>>,
  tree_tuner_get_tree_space |-> <<H("ttuner"), O>>,
  tree_tuner_get_type |-> <<H("ttuner"), O>>,
  tree_tuner_suggest |-> <<H("ttuner"), O>>,
  tree_tuner_tell |-> <<H("ttuner"), N(2), AH(<<"teval", "teval">>)>>,
  tuner_ask |-> <<H("tuner"), N(2), AO, R>>,
  tuner_get_configuration_space |-> <<H("tuner"), O>>,
  tuner_get_history |-> <<H("tuner"), NS(2), AO, R>>,
  tuner_get_name |-> <<H("tuner"), O>>,
  tuner_get_objective_space |-> <<H("tuner"), O>>,
  tuner_get_optima |-> <<H("tuner"), NS(2), AO, R>>,
  tuner_get_type |-> <<H("tuner"), O>>,
  tuner_suggest |-> <<H("tuner"), O>>,
  tuner_tell |-> <<H("tuner"), N(2), AH(<<"eval", "eval">>)>>,
  uniform_distribution_get_properties |-> <<H2("uni"), OG, OG, OG, OG>>,
  user_defined_features_tuner_get_tuner_data |-> <<H2("uftuner"), O>>,
  user_defined_tree_tuner_get_tuner_data |-> <<H2("uttuner"), O>>,
  user_defined_tuner_get_tuner_data |-> <<H2("utuner"), O>>,
  variable_get_parameter |-> <<H2("var"), O>>
]

(* ---- faults: <<position, what, detail>> --------------------------------------- *)
Wrong(i, ok) == {<<i, "wrong", k>> : k \in {x \in Kinds : TypeOf[x] \notin ok}}
Same2(i, k) == {<<i, "wrong", x>> : x \in {y \in Kinds : TypeOf[y] = TypeOf[k] /\ SubType[y] # SubType[k]}}
Null(i) == {<<i, "null">>}
Sized(g, i) == \E j \in 1..(i - 1) : g[j][1] \in {"n", "ns"}
FaultsAt(g, i) ==
  LET a == g[i] IN
  CASE a[1] = "h" -> Null(i) \cup Wrong(i, {TypeOf[a[2]]})
    [] a[1] = "h2" -> Null(i) \cup Wrong(i, {TypeOf[a[2]]}) \cup Same2(i, a[2])
    [] a[1] = "hb" -> Null(i) \cup Wrong(i, Bindings)
    [] a[1] = "hc" -> Null(i) \cup Wrong(i, Contexts)
    [] a[1] = "hp" -> Null(i) \cup Wrong(i, {"param"})
    [] a[1] = "hv" -> Null(i) \cup Wrong(i, Contexts)
    [] a[1] = "ha" -> Null(i)
    [] a[1] = "ho" -> Wrong(i, {TypeOf[a[2]]})
    [] a[1] = "s" -> Null(i)
    [] a[1] = "sl" -> Null(i) \cup {<<i, "absent">>}
    [] a[1] = "ns" -> {<<i, "small">>}
    [] a[1] \in {"x", "xv"} -> {<<i, "over", d>> : d \in {"n", "n+1", "2^32", "2^32+", "max"}}
    [] a[1] \in {"ah", "ahp", "ph"} -> Null(i) \cup {<<i, "enull">>} \cup {<<i, "ewrong", k>> : k \in {x \in Kinds : TypeOf[x] # TypeOf[a[2][1]]}}
    [] a[1] = "aho" -> {<<i, "ewrong", k>> : k \in {x \in Kinds : TypeOf[x] # TypeOf[a[2][1]]}}
    [] a[1] \in {"ai", "ao", "ap", "p", "o"} -> Null(i)
    [] a[1] = "r" \/ (a[1] = "og" /\ i = Len(g)) -> {<<i, "nothing">>}
    [] OTHER -> {}
Faults(f) == UNION {FaultsAt(Sig[f], i) : i \in DOMAIN Sig[f]}

CodeOf(f, w) ==
  LET a == Sig[f][w[1]] IN
  CASE w[2] = "absent" -> {INVALID_NAME}
    [] w[2] = "over" -> IF a[1] = "xv" THEN {INVALID_VALUE} ELSE {OUT_OF_BOUNDS}
    [] a[1] \in {"hp", "ahp"} -> IF w[2] = "null" /\ a[1] = "ahp" THEN {INVALID_VALUE} ELSE {INVALID_OBJECT, INVALID_PARAMETER}
    [] w[2] = "wrong" -> IF a[1] = "h2" /\ TypeOf[w[3]] = TypeOf[a[2]] THEN {SubCode[TypeOf[a[2]]]} ELSE {INVALID_OBJECT}
    [] w[2] \in {"enull", "ewrong"} -> {INVALID_OBJECT}
    [] w[2] = "null" -> IF a[1] \in {"h", "h2", "hb", "hc", "ha"} THEN {INVALID_OBJECT} ELSE {INVALID_VALUE}
    [] OTHER -> {INVALID_VALUE}
(* elements are taken one by one: those before the faulty one may have been used *)
Partly(f) == f \in {"configuration_space_add_parameters", "features_space_add_parameters", "objective_space_add_parameters",
  "configuration_space_get_parameter_indexes", "features_space_get_parameter_indexes", "objective_space_get_parameter_indexes",
  "context_get_parameter_indexes", "objective_space_add_objectives", "configuration_space_add_forbidden_clauses",
  "tuner_tell", "features_tuner_tell", "tree_tuner_tell"}
Elements(ws) == \E w \in ws : w[2] \in {"enull", "ewrong"}
CallCodes(f, ws) == IF ws = {} THEN {0} ELSE UNION {CodeOf(f, w) : w \in ws}
=============================================================================
