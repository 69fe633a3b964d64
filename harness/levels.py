"""How much each check explores, and what it takes for granted."""
SIZE = {"C26": 4000, "C06": 7000, "C08": 6000, "C27": 1800, "C28": 1500}
THOROUGH_S = 600

ASSUMPTIONS = [
    "values are small rationals read exactly; answers the specification cannot determine in exact arithmetic are not judged",
    "points lie on a dyadic grid, steps are well above the library's smallest step of 1e-5",
    "one thread, one process",
]
NOTES = {}
