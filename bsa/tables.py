"""Documented names: built-in functions with the parameters every permitted number of arguments is bound to, decorators,
operators.  Written from Bicep's documentation and pycep's published result types."""
from __future__ import annotations

SYS, AZ = "sys", "az"


def fixed(*names):
    return {len(names): lambda a, n=names: dict(zip(n, a))}


def opt(required, optional):
    out = {}
    for k in range(len(required), len(required) + len(optional) + 1):
        out[k] = lambda a, n=(*required, *optional): {p: (a[i] if i < len(a) else None) for i, p in enumerate(n)}
    return out


def many(prefix, lo, hi=6):
    return {k: (lambda a: {f"{prefix}_{i + 1}": v for i, v in enumerate(a)}) for k in range(lo, hi + 1)}


def base_many(base, prefix, hi=6):
    return {k: (lambda a: {base: a[0], **{f"{prefix}_{i + 1}": v for i, v in enumerate(a[1:])}}) for k in range(1, hi + 1)}


def names(a):
    d = {f"resource_name_{i + 1}": v for i, v in enumerate(a)}
    d.setdefault("resource_name_2", None)
    return d


def _resource_id(a):
    sub = rg = None
    a = list(a)
    if len(a) >= 5:
        sub, rg, *a = a
    elif len(a) == 4:
        rg, *a = a
    return {"resource_type": a[0], **names(a[1:]), "resource_group_name": rg, "subscription_id": sub}


def _subscription_resource_id(a):
    sub = None
    a = list(a)
    if len(a) >= 4:
        sub, *a = a
    return {"resource_type": a[0], **names(a[1:]), "subscription_id": sub}


def _resource_group(a):
    if len(a) == 2:
        return {"resource_group_name": a[1], "subscription_id": a[0]}
    return {"resource_group_name": a[0] if a else None, "subscription_id": None}


NOPARAMS = {0: lambda a: None}
FUNCTIONS = {
    # any
    "any": (SYS, "any", fixed("value")),
    # array
    "array": (SYS, "array", fixed("convert_to_array")),
    "concat": (SYS, "concat", many("arg", 1)),
    "contains": (SYS, "contains", fixed("container", "item_to_find")),
    "empty": (SYS, "empty", fixed("item_to_test")),
    "first": (SYS, "first", fixed("arg_1")),
    "flatten": (SYS, "flatten", fixed("array_to_flattern")),
    "intersection": (SYS, "intersection", many("arg", 2)),
    "last": (SYS, "last", fixed("arg_1")),
    "length": (SYS, "length", fixed("arg_1")),
    "max": (SYS, "max", many("arg", 1)),
    "min": (SYS, "min", many("arg", 1)),
    "range": (SYS, "range", fixed("start_index", "count")),
    "skip": (SYS, "skip", fixed("original_value", "number_to_skip")),
    "take": (SYS, "take", fixed("original_value", "number_to_take")),
    "union": (SYS, "union", many("arg", 2)),
    # date
    "dateTimeAdd": (SYS, "date_time_add", opt(["base", "duration"], ["format"])),
    "dateTimeFromEpoch": (SYS, "date_time_from_epoch", fixed("epoch_time")),
    "dateTimeToEpoch": (SYS, "date_time_to_epoch", fixed("date_time")),
    "utcNow": (SYS, "utc_now", opt([], ["format"])),
    # deployment
    "deployment": (AZ, "deployment", NOPARAMS),
    "environment": (AZ, "environment", NOPARAMS),
    # file
    "loadFileAsBase64": (SYS, "load_file_as_base64", fixed("file_path")),
    "loadJsonContent": (SYS, "load_json_content", opt(["file_path"], ["json_path", "encoding"])),
    "loadYamlContent": (SYS, "load_yaml_content", opt(["file_path"], ["path_filter", "encoding"])),
    "loadTextContent": (SYS, "load_text_content", opt(["file_path"], ["encoding"])),
    # lambda
    "filter": (SYS, "filter", fixed("input_array", "expression")),
    # logical, numeric, object
    "bool": (SYS, "bool", fixed("arg_1")),
    "int": (SYS, "int", fixed("value_to_convert")),
    "json": (SYS, "json", fixed("arg_1")),
    # resource
    "extensionResourceId": (AZ, "extension_resource_id", {
        k: (lambda a: {"resource_id": a[0], "resource_type": a[1], **names(a[2:])}) for k in range(3, 7)}),
    "listKeys": (AZ, "list_func", {
        2: lambda a: {"func_name": "listKeys", "resource_identifier": a[0], "api_version": a[1]},
        3: lambda a: {"func_name": "listKeys", "resource_identifier": a[0], "api_version": a[1], "function_values": a[2]}}),
    "managementGroupResourceId": (AZ, "management_group_resource_id", {
        k: (lambda a: {"resource_type": a[0], **names(a[1:])}) for k in range(2, 7)}),
    "pickZones": (AZ, "pick_zones", opt(["provider_namespace", "resource_type", "location"], ["number_of_zones", "offset"])),
    "reference": (AZ, "reference", opt(["resource_identifier"], ["api_version", "full"])),
    "resourceId": (AZ, "resource_id", {k: _resource_id for k in range(2, 7)}),
    "subscriptionResourceId": (AZ, "subscription_resource_id", {k: _subscription_resource_id for k in range(2, 7)}),
    "tenantResourceId": (AZ, "tenant_resource_id", {
        k: (lambda a: {"resource_type": a[0], **names(a[1:])}) for k in range(2, 7)}),
    # scope
    "managementGroup": (AZ, "management_group", opt([], ["identifier"])),
    "resourceGroup": (AZ, "resource_group", {k: _resource_group for k in range(3)}),
    "subscription": (AZ, "subscription", opt([], ["subscription_id"])),
    "tenant": (AZ, "tenant", NOPARAMS),
    # string
    "base64": (SYS, "base64", fixed("input_string")),
    "base64ToJson": (SYS, "base64_to_json", fixed("base64_value")),
    "base64ToString": (SYS, "base64_to_string", fixed("base64_value")),
    "dataUri": (SYS, "data_uri", fixed("string_to_convert")),
    "dataUriToString": (SYS, "data_uri_to_string", fixed("data_uri_to_convert")),
    "endsWith": (SYS, "ends_with", fixed("string_to_search", "string_to_find")),
    "format": (SYS, "format", base_many("format_string", "arg")),
    "guid": (SYS, "guid", base_many("base_string", "extra_string")),
    "indexOf": (SYS, "index_of", fixed("string_to_search", "string_to_find")),
    "join": (SYS, "join", fixed("input_array", "delimiter")),
    "lastIndexOf": (SYS, "last_index_of", fixed("string_to_search", "string_to_find")),
    "newGuid": (SYS, "new_guid", NOPARAMS),
    "padLeft": (SYS, "pad_left", opt(["value_to_pad", "total_length"], ["padding_character"])),
    "replace": (SYS, "replace", fixed("original_string", "old_string", "new_string")),
    "split": (SYS, "split", fixed("input_string", "delimiter")),
    "startsWith": (SYS, "starts_with", fixed("string_to_search", "string_to_find")),
    "string": (SYS, "string", fixed("value_to_convert")),
    "substring": (SYS, "substring", opt(["string_to_parse", "start_index"], ["length"])),
    "toLower": (SYS, "to_lower", fixed("string_to_change")),
    "toUpper": (SYS, "to_upper", fixed("string_to_change")),
    "trim": (SYS, "trim", fixed("string_to_trim")),
    "uniqueString": (SYS, "unique_string", base_many("base_string", "extra_string")),
    "uri": (SYS, "uri", fixed("base_uri", "relative_uri")),
    "uriComponent": (SYS, "uri_component", fixed("string_to_encode")),
    "uriComponentToString": (SYS, "uri_component_to_string", fixed("uri_encoded_string")),
}


def call(name, args):
    """what a call must be recorded as"""
    f = FUNCTIONS.get(name)
    if f is None:
        return {"function": {"type": name, "parameters": {f"arg_{i + 1}": a for i, a in enumerate(args)}}}
    d = f[2][len(args)](args)
    return {"function": {"type": f[1]} if d is None else {"type": f[1], "parameters": d}}


# name -> (recorded type, takes an argument)
DECORATORS = {
    "allowed": ("allowed", True),
    "batchSize": ("batchSize", True),
    "description": ("description", True),
    "export": ("export", False),
    "minLength": ("min_length", True),
    "maxLength": ("max_length", True),
    "minValue": ("min_value", True),
    "maxValue": ("max_value", True),
    "metadata": ("metadata", True),
    "sealed": ("sealed", False),
    "secure": ("secure", False),
}

BINARY = {
    ">=": "greater_than_or_equals", ">": "greater_than", "<=": "less_than_or_equals", "<": "less_than", "==": "equals",
    "!=": "not_equals", "=~": "equals_case_insensitive", "!~": "not_equals_case_insensitive", "&&": "and", "||": "or",
    "??": "coalesce", "+": "add", "/": "divide", "%": "modulo", "*": "multiply", "-": "substract",
}
UNARY = {"!": ("not", "bool_value"), "-": ("minus", "integer_value")}


def binary(op, a, b):
    return {"operator": {"type": BINARY[op], "operands": {"operand_1": a, "operand_2": b}}}


def unary(op, a):
    t, k = UNARY[op]
    return {"operator": {"type": t, "operands": {k: a}}}


def ternary(c, a, b):
    return {"operator": {"type": "conditional", "operands": {"condition": c, "true_value": a, "false_value": b}}}


def index(a, b):
    return {"operator": {"type": "index_accessor", "operands": {"operand_1": a, "operand_2": b}}}


def prop(a, b):
    return {"operator": {"type": "property_accessor", "operands": {"operand_1": a, "operand_2": b}}}


def nested(a, b):
    return {"operator": {"type": "nested_resource_accessor", "operands": {"operand_1": a, "operand_2": b}}}


def method(a, f, args):
    return {"operator": {"type": "function_accessor", "operands": {
        "operand_1": a, "func_name": f, **{f"operand_{i + 2}": x for i, x in enumerate(args)}}}}
