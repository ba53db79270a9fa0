"""C25: statistical functions against extended-precision references."""
from lib import cpp

ID = "C25"
RULE = ("the functions are called in a sanitizer build with arguments over their whole ranges (both tails, end points, branch points and their neighbours, degrees of freedom to 2^32-1, correlations to the ends of the range, extreme variates, "
        "frequencies to depletion) and compared with long double and boost references or a plain model; distinct by argument, arguments outside the double range of the result not counted")
QUICK, THOROUGH = 24000, 1500000
REQUIRE = {"cumNorm": 60000, "cumNorm_far_tail": 8000, "invCumNorm": 60000, "invCumNorm_far_tail": 6000, "pValue": 40000, "pValue_many_dof": 4000, "pValue_upper_tail": 4000, "chiSq": 1500,
           "correlated": 200000, "correlations": 50, "refused": 20000, "draws": 200000, "depleted": 1500, "constrained": 50000, "constrained_impossible": 1000}


def main(run, replay):
    exe = cpp.program(run, "c25", "c25.cpp", cpp.SAN, cpp.SAN)
    if exe is None:
        return
    cpp.drive(run, exe, QUICK if run.tier == "quick" else THOROUGH, replay=replay)
