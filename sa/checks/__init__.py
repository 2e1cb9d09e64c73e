REGISTRY = {
    "T01": ("orderbook", "T01"),
    "T02": ("orderindex", "T02"),
    "T03": ("bestprice", "T03"),
    "T04": ("priority", "T04"),
    "T05": ("routing", "T05"),
    "T06": ("routing", "T06"),
    "Q07": ("pricing", "Q07"),
    "Q08": ("pricing", "Q08"),
    "Q09": ("pricing", "Q09"),
    "Q19": ("curves", "Q19"),
    "Q24": ("curves", "Q24"),
    "Q20": ("market", "Q20"),
    "Q01": ("risk", "Q01"),
    "Q02": ("risk", "Q02"),
    "Q23": ("interpolation", "Q23"),
    "Q05": ("selection", "Q05"),
    "Q06": ("wiring", "Q06"),
    "T07": ("krx", "T07"),
    "T08": ("krx", "T08"),
    "T09": ("krx", "T09"),
    "Q10": ("calendars", "Q10"),
    "Q11": ("calendars", "Q11"),
    "Q12": ("periods", "Q12"),
    "Q13": ("periods", "Q13"),
    "Q14": ("contracts", "Q14"),
    "Q15": ("contracts", "Q15"),
    "Q16": ("contracts", "Q16"),
    "Q25": ("loading", "Q25"),
    "Q17": ("loading", "Q17"),
    "T13": ("atomics", "T13"),
    "T15": ("stamps", "T15"),
    "T16": ("stamps", "T16"),
    "T18": ("stamps", "T18"),
    "T11": ("ids", "T11"),
    "T17": ("ids", "T17"),
    "T14": ("logs", "T14"),
    "Q21": ("filing", "Q21"),
    "Q22": ("filing", "Q22"),
}
