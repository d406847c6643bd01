"""What each property is checked with.

design   TLC models of the design alone: (module, cfg, constants, constants of the thorough tier)
models   the sets of Inputs that TLC explores, all of whose members are run on the real program
random   generators of further invocations, with their weights
special  generators of large invocations
n        how many random invocations (quick, thorough)
"""
SCAN_BER = ("MC_Scanner", "MC_Scanner", {"Which": '"ber"', "Longest": 4}, {"Which": '"ber"', "Longest": 6})
SCAN_ING = ("MC_Scanner", "MC_Scanner", {"Which": '"ingenico"', "Longest": 3}, {"Which": '"ingenico"', "Longest": 5})
MASKING = ("MC_Masking", "MC_Masking", {"Steps": 1}, {"Steps": 3})
BER_MODELS = ["BerStructure", "BerLengths", "BerForms", "BerShapes"]
ING_MODELS = ["IngenicoFields", "IngenicoMutants", "IngenicoSeparators"]


def plan(models, random, n=(2500, 30000), design=(), special=()):
    return {"models": models, "random": random, "n": n, "design": list(design), "special": list(special)}


PLAN = {
    "C01": plan(BER_MODELS, {"ber_random": 3, "ber_spoilt": 1, "siblings": 1, "dumped": 1}, design=[SCAN_BER], special=["crowded", "long_values", "all_tags"]),
    "C02": plan(BER_MODELS + ["BerNesting"], {"ber_random": 1, "ber_spoilt": 3, "ber_noise": 3}, design=[SCAN_BER], special=["crowded", "long_values"]),
    "C03": plan(["BerNesting", "BerShapes", "BerStructure", "BerMasks", "IngenicoFields"],
                {"ber_random": 3, "ber_spoilt": 2, "ing_random": 3, "masked_each": 2, "dumped": 1}, design=[SCAN_BER], special=["crowded", "deep_nesting", "long_values"]),
    "C04": plan(["BerMasks", "IngenicoFields", "BerShapes", "Sizes"], {"ber_random": 3, "ing_random": 3, "masked_each": 2, "auto_random": 1, "layered": 1},
                design=[MASKING], special=["many_options", "long_values"]),
    "C05": plan(["BerMasks", "BerShapes", "Sizes"], {"masked_each": 6, "ber_random": 1, "ing_random": 2, "auto_random": 1},
                design=[MASKING], special=["long_values"]),
    "C06": plan(ING_MODELS, {"ing_random": 4, "ing_spoilt": 1, "siblings": 1, "ing_tiny": 1}, design=[SCAN_ING], special=["crowded", "long_values"]),
    "C07": plan(ING_MODELS, {"ing_random": 1, "ing_spoilt": 5, "ing_tiny": 2}, design=[SCAN_ING], special=["crowded", "long_values"]),
    "C08": plan(["Detection"], {"auto_random": 4, "auto_tiny": 1}, n=(3000, 40000)),
    "C09": plan(["Sorting"], {"siblings": 3, "ber_random": 2, "ing_random": 1, "auto_random": 1}, n=(1500, 15000), special=["crowded"]),
    "C10": plan(["SettingsLayers", "SettingsFiles", "SettingsBad"], {"layered": 1}, n=(3500, 60000), special=["many_options"]),
    "C11": plan(["Tags"], {"single_value": 1, "ber_random": 1, "ing_random": 1, "value_in_block": 1}, n=(1500, 20000), special=["all_tags", "odd_tags"]),
    "C12": plan(["Sizes", "Codes", "Layouts"], {"value_in_block": 5, "ber_random": 2, "ing_random": 2, "auto_random": 1}),
    "C13": plan(["ValuesOfBits", "ValuesOfBitsListed"], {"single_value": 2, "value_in_block": 4}, special=["all_bytes"]),
    "C14": plan(["ValuesOfBits", "ValuesOfBitsListed"], {"single_value": 2, "value_in_block": 4}, special=["all_bytes"]),
    "C15": plan(["CvmLists"], {"single_value": 1, "value_in_block": 1}, special=["all_rules"]),
    "C16": plan(["CvmResultsSet"], {"single_value": 1, "value_in_block": 1}, special=["all_rules"]),
    "C17": plan(["IadSet"], {"single_value": 1, "value_in_block": 1}),
    "C18": plan(["ServiceCodes"], {"single_value": 1, "value_in_block": 1}, special=["all_services"]),
    "C19": plan(["Codes"], {"value_in_block": 1}, special=["all_codes"]),
    "C20": plan(["Layouts", "BerShapes", "Sizes"], {"dumped": 4, "ber_random": 2, "ing_random": 1, "value_in_block": 2, "auto_random": 1},
                special=["long_values"]),
    "C21": plan(["Tags", "Sizes"], {"spellings": 4, "single_value": 1, "ber_random": 1}, n=(2500, 30000), special=["far_apart"]),
    "C22": plan(["Detection", "Names"], {"coloured": 1}, n=(3500, 50000), special=["coloured_bits"]),
    "C23": plan(["Commands", "SettingsBad", "BerLengths", "IngenicoMutants", "Sizes", "Codes"],
                {"noise": 6, "command_line": 2, "ing_tiny": 1, "layered": 1, "ber_spoilt": 1, "ing_spoilt": 1}, n=(4000, 60000),
                design=[("MC", "MC_Live", {"Size": 1}, {"Size": 1})], special=["swarms", "deep_nesting", "long_values"]),
    "C24": plan(["Commands", "Names", "Pairs"], {"command_line": 2, "command_around": 3, "names": 3}, n=(3500, 60000)),
    "C25": plan(["Sizes"], {"value_in_block": 3, "single_value": 2}, n=(3500, 40000), special=["wide_sizes"]),
    "C26": plan(["Detection", "SettingsFiles"],
                {"coloured": 2, "layered": 3, "command_line": 2, "single_value": 2, "value_in_block": 1, "ber_random": 1, "ing_random": 1, "ber_spoilt": 1, "noise": 1, "conventional": 2},
                n=(3500, 30000), design=[("MC_Effects", "MC_Effects", {"Size": 1}, {"Size": 1})]),
}
# Random values of the kinds that a property is about.
FOCUS = {
    "C13": dict(ops=("tvr", "tsi", "cvr", "iad"), tags="95 9B 9F33 9F40 9F0D 9F0E 9F0F 9F10", wrong=.02),
    "C14": dict(ops=("tvr", "tsi", "cvr", "cvmresults", "iad"), tags="95 9B 9F33 9F40 9F0D 9F0E 9F0F 9F34 9F10", wrong=.02),
    "C15": dict(ops=("cvmlist",), tags="8E", wrong=.02),
    "C16": dict(ops=("cvmresults",), tags="9F34", wrong=.02),
    "C17": dict(ops=("iad",), tags="9F10", wrong=.02),
    "C18": dict(ops=("servicecode",), tags="5F30", wrong=.02),
    "C19": dict(ops=(), tags="8A 9C 9F35 9F39", wrong=.02),
    "C11": dict(ops=("identify",), tags=None, wrong=.02),
    "C25": dict(ops=("tvr", "tsi", "cvr", "cvmresults", "iad", "cvmlist", "identify"), tags=None, wrong=.5),
}
