"""C13: values shown in the tree are the values in the file"""
from checks import c12

RULE = ("datasets of ranks 0-3, many lengths (0, 1, around and above the limit), number types, text styles; attributes of many types; limits of shown items "
        "from -1 to 50; each shown value is parsed and compared with the value read by h5py, each abridged array must have the first (limit-2), '...', and the last; "
        "non-trivial: at least 6 lines, distinct by counts of what was matched")
ASSUMPTIONS = ["rank at most 3 (higher ranks are shown without values)", "compound, opaque, reference, and enumeration types: any text",
               "quotation marks around text are not judged"]


def run(ctx):
    c12.drive(ctx, "value")
