"""Independent description of the built-in functions and decorators and of the
operators (written from the documentation of the output format, not imported
from the code under test)."""

# name -> (namespace, reported type, required params, optional params, variadic)
# variadic: None or (prefix, first number)
def _f(ns, typ, req="", opt="", var=None):
    return (ns, typ, req.split(), opt.split(), var)

S, A = "sys", "az"
FUNCS = {
    "any": _f(S, "any", "value"),
    "array": _f(S, "array", "convert_to_array"),
    "concat": _f(S, "concat", "arg_1", var=("arg_", 2)),
    "contains": _f(S, "contains", "container item_to_find"),
    "empty": _f(S, "empty", "item_to_test"),
    "first": _f(S, "first", "arg_1"),
    "flatten": _f(S, "flatten", "array_to_flattern"),
    "intersection": _f(S, "intersection", "arg_1 arg_2", var=("arg_", 3)),
    "last": _f(S, "last", "arg_1"),
    "length": _f(S, "length", "arg_1"),
    "max": _f(S, "max", "arg_1", var=("arg_", 2)),
    "min": _f(S, "min", "arg_1", var=("arg_", 2)),
    "range": _f(S, "range", "start_index count"),
    "skip": _f(S, "skip", "original_value number_to_skip"),
    "take": _f(S, "take", "original_value number_to_take"),
    "union": _f(S, "union", "arg_1 arg_2", var=("arg_", 3)),
    "dateTimeAdd": _f(S, "date_time_add", "base duration", "format"),
    "dateTimeFromEpoch": _f(S, "date_time_from_epoch", "epoch_time"),
    "dateTimeToEpoch": _f(S, "date_time_to_epoch", "date_time"),
    "utcNow": _f(S, "utc_now", "", "format"),
    "loadFileAsBase64": _f(S, "load_file_as_base64", "file_path"),
    "loadJsonContent": _f(S, "load_json_content", "file_path", "json_path encoding"),
    "loadTextContent": _f(S, "load_text_content", "file_path", "encoding"),
    "loadYamlContent": _f(S, "load_yaml_content", "file_path", "path_filter encoding"),
    "filter": _f(S, "filter", "input_array expression"),
    "bool": _f(S, "bool", "arg_1"),
    "int": _f(S, "int", "value_to_convert"),
    "json": _f(S, "json", "arg_1"),
    "pickZones": _f(A, "pick_zones", "provider_namespace resource_type location", "number_of_zones offset"),
    "reference": _f(A, "reference", "resource_identifier", "api_version full"),
    "managementGroup": _f(A, "management_group", "", "identifier"),
    "subscription": _f(A, "subscription", "", "subscription_id"),
    "base64": _f(S, "base64", "input_string"),
    "base64ToJson": _f(S, "base64_to_json", "base64_value"),
    "base64ToString": _f(S, "base64_to_string", "base64_value"),
    "dataUri": _f(S, "data_uri", "string_to_convert"),
    "dataUriToString": _f(S, "data_uri_to_string", "data_uri_to_convert"),
    "endsWith": _f(S, "ends_with", "string_to_search string_to_find"),
    "format": _f(S, "format", "format_string", var=("arg_", 1)),
    "guid": _f(S, "guid", "base_string", var=("extra_string_", 1)),
    "indexOf": _f(S, "index_of", "string_to_search string_to_find"),
    "join": _f(S, "join", "input_array delimiter"),
    "lastIndexOf": _f(S, "last_index_of", "string_to_search string_to_find"),
    "padLeft": _f(S, "pad_left", "value_to_pad total_length", "padding_character"),
    "replace": _f(S, "replace", "original_string old_string new_string"),
    "split": _f(S, "split", "input_string delimiter"),
    "startsWith": _f(S, "starts_with", "string_to_search string_to_find"),
    "string": _f(S, "string", "value_to_convert"),
    "substring": _f(S, "substring", "string_to_parse start_index", "length"),
    "toLower": _f(S, "to_lower", "string_to_change"),
    "toUpper": _f(S, "to_upper", "string_to_change"),
    "trim": _f(S, "trim", "string_to_trim"),
    "uniqueString": _f(S, "unique_string", "base_string", var=("extra_string_", 1)),
    "uri": _f(S, "uri", "base_uri relative_uri"),
    "uriComponent": _f(S, "uri_component", "string_to_encode"),
    "uriComponentToString": _f(S, "uri_component_to_string", "uri_encoded_string"),
}
# functions reported without parameters
BARE = {"deployment": (A, "deployment"), "environment": (A, "environment"),
        "newGuid": (S, "new_guid"), "tenant": (A, "tenant")}
# functions whose parameters depend on the number of arguments: (ns, min, max accepted)
SPECIAL = {
    "resourceId": (A, 2, 8), "subscriptionResourceId": (A, 2, 7), "tenantResourceId": (A, 2, 6),
    "managementGroupResourceId": (A, 2, 6), "extensionResourceId": (A, 3, 7),
    "listKeys": (A, 2, 3), "resourceGroup": (A, 0, 2),
}
ALL_FUNCS = sorted(list(FUNCS) + list(BARE) + list(SPECIAL))


def arity_range(name):
    """Accepted argument counts (upper bound of variadic ones chosen here)."""
    if name in FUNCS:
        _, _, req, opt, var = FUNCS[name]
        return len(req), len(req) + len(opt) + (4 if var else 0)
    if name in BARE:
        return 0, 0
    return SPECIAL[name][1], SPECIAL[name][2]


def namespace(name):
    if name in FUNCS:
        return FUNCS[name][0]
    return (BARE.get(name) or SPECIAL[name])[0]


def _names(prefix_args, names):
    return {**prefix_args, **{f"resource_name_{i + 1}": n for i, n in enumerate(names)}}


def call(name, ns, args):
    """Expected report of a call; name without namespace, ns None or 'sys'/'az'."""
    known = name in FUNCS or name in BARE or name in SPECIAL
    if not known or (ns and ns != namespace(name)):
        full = f"{ns}.{name}" if ns else name
        return {"type": full, "parameters": {f"arg_{i + 1}": a for i, a in enumerate(args)}}
    if name in BARE:
        return {"type": BARE[name][1]}
    if name in FUNCS:
        _, typ, req, opt, var = FUNCS[name]
        p = {n: None for n in opt}
        p.update(zip(req + opt, args))
        if var:
            for i, a in enumerate(args[len(req):]):
                p[f"{var[0]}{var[1] + i}"] = a
        return {"type": typ, "parameters": p}
    n = len(args)
    if name == "listKeys":
        p = {"func_name": "listKeys", "resource_identifier": args[0], "api_version": args[1]}
        if n == 3:
            p["function_values"] = args[2]
        return {"type": "list_func", "parameters": p}
    if name == "resourceGroup":
        p = {"resource_group_name": None, "subscription_id": None}
        if n == 1:
            p["resource_group_name"] = args[0]
        elif n == 2:
            p["subscription_id"], p["resource_group_name"] = args
        return {"type": "resource_group", "parameters": p}
    if name == "resourceId":
        lead = {2: 0, 3: 0, 4: 1}.get(n, 2)
        names = args[lead + 1:]
        p = _names({"resource_type": args[lead], "resource_group_name": None, "subscription_id": None}, names)
        if lead == 1:
            p["resource_group_name"] = args[0]
        elif lead == 2:
            p["subscription_id"], p["resource_group_name"] = args[0], args[1]
        p.setdefault("resource_name_2", None)
        return {"type": "resource_id", "parameters": p}
    if name == "subscriptionResourceId":
        lead = 0 if n < 4 else 1
        p = _names({"resource_type": args[lead], "subscription_id": args[0] if lead else None}, args[lead + 1:])
        p.setdefault("resource_name_2", None)
        return {"type": "subscription_resource_id", "parameters": p}
    if name == "extensionResourceId":
        p = _names({"resource_id": args[0], "resource_type": args[1]}, args[2:])
        p.setdefault("resource_name_2", None)
        return {"type": "extension_resource_id", "parameters": p}
    typ = {"tenantResourceId": "tenant_resource_id", "managementGroupResourceId": "management_group_resource_id"}[name]
    p = _names({"resource_type": args[0]}, args[1:])
    p.setdefault("resource_name_2", None)
    return {"type": typ, "parameters": p}


DECOS = {  # name -> (type, takes an argument)
    "allowed": ("allowed", True), "batchSize": ("batchSize", True), "description": ("description", True),
    "export": ("export", False), "minLength": ("min_length", True), "maxLength": ("max_length", True),
    "minValue": ("min_value", True), "maxValue": ("max_value", True), "metadata": ("metadata", True),
    "sealed": ("sealed", False), "secure": ("secure", False),
}

BINOPS = {
    ">=": "greater_than_or_equals", ">": "greater_than", "<=": "less_than_or_equals", "<": "less_than",
    "==": "equals", "!=": "not_equals", "=~": "equals_case_insensitive", "!~": "not_equals_case_insensitive",
    "&&": "and", "||": "or", "??": "coalesce", "+": "add", "/": "divide", "%": "modulo", "*": "multiply",
    "-": "substract",
}
ACCOPS = {".": "property_accessor", ".?": "property_accessor", "::": "nested_resource_accessor"}
UNOPS = {"!": ("not", "bool_value"), "-": ("minus", "integer_value")}
