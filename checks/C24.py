"""C24: array views, reductions and slices equal their definitions."""
from lib import cpp

ID = "C24"
RULE = ("arrays of 1-8 dimensions (integer and floating, owned and external storage, distinct and equal sizes, single categories, one very long dimension, up to 120,000 elements) in a sanitizer build with the index monitor: every index class is iterated and "
        "every reduction, slice, total, difference, copy, move, resize and list compared with a plain element list; non-trivial if more than one dimension, two elements and a value that is not zero; distinct by shape and values")
QUICK, THOROUGH = 16000, 400000
REQUIRE = {"reductions": 50000, "permuted_reductions": 12000, "slices": 25000, "nested_loops": 14000, "integer": 7000, "floating": 3500, "refused": 5000, "dim8": 200, "dim1": 2000, "many_elements": 6}


def main(run, replay):
    exe = cpp.program(run, "c24", "c24.cpp", cpp.SAN, cpp.SAN)
    if exe is None:
        return
    cpp.drive(run, exe, QUICK if run.tier == "quick" else THOROUGH, replay=replay)
