"""How each property's monitor is built and run."""
PORC = "github.com/anishathalye/porcupine v1.3.1"
PROPS = {
    "C06": {"files": ["c06_*_test.go"]},
    "C07": {"files": ["c07_*_test.go"]},
    "C08": {"files": ["c08_*_test.go"], "race": True, "shards": 3, "procs": 8},
    "C09": {"files": ["c09_*_test.go"]},
    "C10": {"files": ["c10_*_test.go"]},
    "C11": {"files": ["c11_*_test.go"]},
    "C12": {"files": ["c12_*_test.go"], "race": True, "require": [PORC], "shards": 4, "procs": 4},
    "C13": {"files": ["c13_*_test.go"], "race": True, "require": [PORC], "shards": 4, "procs": 4},
}
PROPS.update({
    "C05": {"files": ["c05_*_test.go"]},
    "C14": {"files": ["c14_*_test.go"]},
    "C15": {"files": ["c15_*_test.go"]},
    "C16": {"files": ["c16_*_test.go"]},
})
PROPS.update({
    "C17": {"files": ["c17_*_test.go"]},
    "C18": {"files": ["c18_*_test.go"]},
    "C21": {"files": ["c21_*_test.go"]},
    "C22": {"files": ["c22_*_test.go"]},
})
PROPS.update({
    "C01": {"files": ["swarmlib_test.go", "c01_*_test.go"],
            "rates": [{"bad": "first attempts that did not converge", "of": "first attempts", "min": 50, "max": 0.02},
                      {"bad": "runs with default settings slower than 15 s", "of": "runs with default settings", "min": 50, "max": 0.03}]},
})
PROPS.update({
    "C02": {"files": ["swarmlib_test.go", "c02_*_test.go"]},
    "C03": {"files": ["swarmlib_test.go", "c03_*_test.go"]},
    "C04": {"files": ["swarmlib_test.go", "c04_*_test.go"],
            "rates": [{"bad": "recoveries slower than 10 s", "of": "recoveries", "min": 100, "max": 0.02}]},
})
PROPS.update({
    "C19": {"files": ["c19_*_test.go"]},
    "C20": {"files": ["c20_*_test.go"]},
})
PROPS.update({
    "C23": {"files": ["c23_*_test.go"], "race": True, "procs": 4},
})
PROPS.update({
    "C24": {"files": ["c24_*_test.go"], "race": True, "procs": 4},
    "C25": {"files": ["c25_*_test.go"]},
    "C26": {"files": ["c26_*_test.go"]},
    "C32": {"files": ["c32_*_test.go"]},
})
PROPS.update({
    "C28": {"files": ["c28_*_test.go"]},
})
PROPS.update({
    "C29": {"files": ["c29_*_test.go"], "limit": 800},
})
PROPS.update({
    "C30": {"files": ["c30_*_test.go"]},
})
PROPS.update({
    "C31": {"files": ["c31_*_test.go"], "race": True, "procs": 4},
})
PROPS.update({
    "C33": {"files": ["c33_*_test.go"]},
    "C34": {"files": ["swarmlib_test.go", "c34_*_test.go"]},
})
PROPS.update({
    "C27": {"files": ["c27_*_test.go"], "race": True, "procs": 4},
    "C35": {"files": ["swarmlib_test.go", "c35_*_test.go"]},
})
PROPS.update({
    "C37": {"files": ["c37_*_test.go"]},
})
PROPS.update({
    "C36": {"files": ["swarmlib_test.go", "c36_*_test.go"]},
})
PROPS.update({
    "C38": {"files": ["vtlib_test.go", "c38_*_test.go"], "program": "./simulations/emerge"},
})
PROPS.update({
    "C39": {"files": ["vtlib_test.go", "c39_*_test.go"]},
})
PROPS.update({
    "C40": {"files": ["c40_*_test.go"]},
})
