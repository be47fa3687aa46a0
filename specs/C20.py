"""C20: parsing a dump gives the value back: the contracts of the serializer and of the parser, and the induction that ties them together."""
import importlib
from roundtrip import lemma_targets, token_targets

PROP = "C20"
PARTS = ("C01", "C02", "C03", "C04", "C05", "C07", "C08", "C09")


def targets(tier):
    out, seen = lemma_targets(), set()
    for p in PARTS:
        for t in importlib.import_module(p).targets(tier):
            k = (t.drv, t.name.replace(" (leaves the stream fit for numbers)", ""))
            if k in seen or p == "C01" and "ignore" in t.name:
                continue
            seen.add(k)
            out.append(t)
    return out


REPLAY = ("dump.cpp", ["C20"])
REPLAY_BOUND = "native cross-check: trees of up to two nested levels over eight leaves, boundary numbers and code points, random trees, compact and indented, escaping on and off, three instantiations: dumped, parsed and compared"
ASSUMPTIONS = ["Texts (keys included) are well-formed in their encoding: they are the encoding of the code points the decoder yields, and decoding an encoded code point gives it back (the lemmas of C01).",
               "operator<< of an integer writes its decimal digits; of a finite double a sign, digits, a fraction and an exponent in the C locale's form, whose value is the double to the precision in force; which double is read from it is a function of that text (C03: the formula evaluated is the decimal value, rounding is not specified).",
               "The indentation character is a space, tab or line break; objects with the same keys hold them in the same order (std::map).",
               "The induction itself (over the nesting of the value, over the elements, the digits, the code points and the text that is left) is the meta-argument; every step of it is an obligation"]
NOT_PROVED = ["rounding of floats when they are written and read: only that a float is read back as a float from exactly the text written for it"]
BUDGET = 850
