"""Which units decide which property, and what is assumed beside the contracts."""
UNITS = {
    "C01": ["reduce"],
    "C02": ["reduce"],
    "C03": ["reduce"],
    "C04": ["expanded"],
    "C05": ["static", "reduce"],
    "C06": ["model"],
    "C07": ["expr"],
    "C08": ["model"],
    "C09": ["model"],
    "C10": ["qubo"],
    "C11": ["index"],
    "C12": ["prods", "set"],
    "C13": ["repr"],
    "C14": ["solution", "quad"],
    "C15": ["algo"],
    "C16": ["solve"],
    "C17": ["set"],
    "C18": ["sparse", "set"],
    "C19": ["edge"],
    "C21": ["beta"],
    "C22": ["solve"],
}
# the crate of contracts that kani checks over the whole domain
KANI = {"C20": "kani"}
ASSUME_ALL = [
    "the extracted text means what the source means: the rewriting rules of vx (DESIGN.md) keep behaviour",
    "contracts of std collections and iterators as written in units/prelude",
    "memory allocation succeeds",
]
ASSUME = {}
NOTE = {}
NA = {}
