CALLBACKS = "application callbacks only touch the value state of the option they are given and the parser's error code"
NAMED = "table entries that can be set have a name (the definition macros guarantee it)"
CHECKS = {
    "P06": ("levels", "run_p06", "other", [CALLBACKS]),
    "P07": ("levels", "run_p07", "other", [CALLBACKS, NAMED]),
    "P01": ("pipeline", "run_p01", "other", [CALLBACKS]),
    "P02": ("pipeline", "run_p02", "other", [CALLBACKS]),
    "P03": ("pipeline", "run_p03", "other", [CALLBACKS]),
    "P37": ("kept", "run_kept", "other", []),
    "P36": ("explained", "run_explained", "other", [CALLBACKS]),
    "P20": ("pipeline", "run_p20", "other", [CALLBACKS]),
    "P05": ("pipeline", "run_apply", "other", [CALLBACKS]),
    "P08": ("tables", "run_env", "other", [CALLBACKS]),
    "P04": ("tables", "run_free", "other", [CALLBACKS]),
    "P11": ("accessors", "run_accessors", "other", []),
    "P12": ("iterators", "run_iterators", "other", []),
    "P33": ("iterators", "run_exec", "other", []),
    "P31": ("cmdline", "run_p31", "other", [CALLBACKS]),
    "P32": ("cmdline", "run_p32", "other", [CALLBACKS]),
    "P09": ("names", "run_names", "other", []),
    "P10": ("lookups", "run_lookups", "other", []),
    "P19": ("paths", "run_paths", "other", []),
    "P15": ("nesting", "run_nesting", "other", [CALLBACKS]),
    "P22": ("validators", "run_validators", "other", []),
    "P23": ("validators", "run_regex", "other", []),
    "P26": ("streams", "run_streams", "other", [CALLBACKS]),
    "P28": ("hidden", "run_hidden", "other", [CALLBACKS]),
    "P25": ("definitions", "run_definitions", "other", [CALLBACKS]),
    "P24": ("macros", "run_macros", "other", []),
    "P30": ("collections_", "run_flags", "other", [CALLBACKS]),
    "P34": ("outputs", "run_outputs", "other", []),
    "P27": ("effects", "run_effects", "other", [CALLBACKS]),
    "P35": ("progress", "run_progress", "other", []),
    "P14": ("bounds", "run_bounds", "other", []),
    "P13": ("capacity", "run_capacity", "other", [CALLBACKS]),
    "P29": ("listing", "run_listing", "other", []),
    "P16": ("blocks", "run_failures", "other", []),
    "P17": ("blocks", "run_leaks", "other", []),
    "P18": ("blocks", "run_release", "other", []),
    "P21": ("iterators", "run_strerror", "other", []),
}
