"""Quick and thorough plans of the library properties judged case by case."""
from common import *

# seconds: (random serial, sweep budget, fuzz); builds that run the driver besides "serial"
PLANS = {
    "C01": dict(rand=4, sweep=18, fuzz=8, extra=[]),
    "C02": dict(rand=6, sweep=30, fuzz=8, extra=[]),
    "C03": dict(rand=8, sweep=40, fuzz=8, extra=[("parallel", 6, 40)]),
    "C04": dict(rand=8, sweep=60, fuzz=8, extra=[("parallel", 8, 60)]),
    "C06": dict(rand=12, sweep=40, fuzz=14, extra=[]),
    "C07": dict(rand=6, sweep=None, fuzz=14, extra=[("checked", 10, None), ("checked-parallel", 6, None)]),
    "C08": dict(rand=12, sweep=30, fuzz=14, extra=[]),
    "C09": dict(rand=10, sweep=30, fuzz=10, extra=[]),
    "C10": dict(rand=14, sweep=30, fuzz=14, extra=[]),
    "C11": dict(rand=8, sweep=40, fuzz=10, extra=[]),
    "C12": dict(rand=14, sweep=30, fuzz=12, extra=[]),
    "C13": dict(rand=25, sweep=None, fuzz=14, extra=[]),
    "C14": dict(rand=16, sweep=None, fuzz=14, extra=[]),
    "C15": dict(rand=25, sweep=None, fuzz=12, extra=[]),
    "C16": dict(rand=18, sweep=None, fuzz=14, extra=[]),
    "C24": dict(rand=12, sweep=30, fuzz=12, extra=[]),
    "C25": dict(rand=20, sweep=None, fuzz=0, extra=[]),
    "C26": dict(rand=5, sweep=None, fuzz=0, extra=[("checked", 5, None), ("parallel", 4, None)]),
    "C29": dict(rand=14, sweep=None, fuzz=12, extra=[]),
    "C33": dict(rand=20, sweep=None, fuzz=12, extra=[]),
    "C30": dict(rand=12, sweep=30, fuzz=10, extra=[]),
    "C18": dict(rand=14, sweep=None, fuzz=0, extra=[]),
}

RULES = {
    "C01": "colour blocks: every endpoint pair with scattered index words, plus structured random blocks; distinct by block bytes; all are non-trivial",
    "C02": "channel blocks: every endpoint pair with every code at every position, plus structured random blocks; distinct by block bytes; all are non-trivial",
    "C03": "images of every size up to 36x36, extreme sizes and random ones, with surplus input and output; non-trivial if the image has pixels; distinct by format, size and surplus",
    "C04": "images of every size up to 24x24, extreme sizes and random ones, compared with their blocks compressed one by one in another order with other calls in between; non-trivial if the image has pixels",
    "C06": "blocks with every mask; masked-out pixels and high mask bits are replaced three times; non-trivial if the mask leaves a pixel out; distinct by block, mask, format and parameters",
    "C07": "hostile blocks, images, parameters and buffer lengths; distinct by input; all are non-trivial",
    "C08": "BC1 blocks with every arrangement of transparent pixels and random ones; non-trivial if both kinds of pixel occur among the unmasked ones",
    "C09": "BC2 blocks with every alpha at every position and random ones; non-trivial if a pixel is unmasked",
    "C10": "channel values with every minimum and maximum, and structured random ones, in all places a channel block occurs; non-trivial if a pixel is unmasked",
    "C11": "all 2^24 colours, and random blocks of one colour with masked and transparent pixels of other colours; all are non-trivial",
    "C12": "blocks of two colours; non-trivial if exactly two colours are considered",
    "C13": "structured random blocks; non-trivial if at least two colours are considered; distinct by block, mask, format and parameters",
    "C14": "structured random blocks; non-trivial if at least two colours are considered; distinct by block, mask, format and parameters",
    "C15": "groups of encodings of a block that differ in one parameter; non-trivial if at least two colours are considered",
    "C16": "groups of encodings of a block in all formats, with other channels and parameters disturbed; non-trivial if a pixel is unmasked",
    "C24": "BC2 and BC3 blocks: all 2^24 colours, and structured random blocks; non-trivial if a pixel is unmasked",
    "C25": "single calls on structured random blocks, and images of 1 to 262144 blocks of all shapes, each timed against an ordinary block; all are non-trivial; observed: highest cost ratios in percent",
    "C26": "pairs of lengths of every magnitude, and products around what an address can express; all are non-trivial; distinct by format and size",
    "C29": "blocks with pixels alike in colour, alpha or both, and the same with their pixels moved; non-trivial if two pixels are unmasked; distinct by block, mask, format and parameters",
    "C30": "channel values with every minimum and maximum, and structured random ones, in all places a channel is kept; non-trivial if a pixel is unmasked",
    "C33": "images compressed and decompressed up to five times, some pixels edited in between; all are non-trivial; distinct by image and format",
    "C18": "blocks and images compressed and decompressed under a counting allocator; non-trivial if there is a pixel",
}

def check(prop, tier, seed, totals):
    plan = PLANS[prop]
    k = 1 if tier == "quick" else 12
    exhaustive = None
    sweep = plan["sweep"] and (plan["sweep"] * (1 if tier == "quick" else 20))
    r = monitor(prop, totals, "serial", seed, plan["rand"] * k, sweep)
    if sweep:
        exhaustive = bool(r["sweep_complete"]) and prop in ("C01", "C02", "C11")
    for flavour, rand, sw in plan["extra"]:
        monitor(prop, totals, flavour, seed + 1, rand * k, sw and sw * (1 if tier == "quick" else 4))
    if prop in ("C03", "C04"):
        for flavour in ["parallel"] + (["serial"] if tier != "quick" else []):
            giant(prop, totals, flavour, seed, tier != "quick")
    if prop == "C18":
        giant(prop, totals, "serial", seed, tier != "quick")
    if plan["fuzz"]:
        fuzz(prop, totals, seed, plan["fuzz"] * k)
    return RULES[prop], exhaustive
