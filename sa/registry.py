CHECKS = {
    "E06": ("views", "views"),
    "R12": ("tensors", "tensors"),
    "R08": ("pyarrays", "arrays"),
    "E02": ("rtypes", "rtypes"),
    "E01": ("elements", "elements"),
    "D05": ("names", "split"),
    "D04": ("names", "names"),
    "D03": ("compiler", "predict"),
    "D02": ("compiler", "session"),
    "D01": ("driver", "command"),
    "R17": ("hashing", "lookup"),
    "R19": ("nulls", "absent"),
    "R14": ("state", "state"),
    "R13": ("order", "order"),
    "R01": ("resources", "leak"),
    "R02": ("resources", "release"),
    "R03": ("resources", "checked"),
    "R05": ("session", "typestate"),
    "R06": ("session", "signals"),
    "R07": ("session", "load"),
    "O01": ("options", "options"),
    "R09": ("external", "external"),
    "R10": ("instrument", "instrument"),
    "E03": ("pool", "pool"),
}
