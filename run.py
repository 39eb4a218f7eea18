import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, "lib"), os.path.join(HERE, "checks")]
import traceback

TABLE = {
    "C01": ("cache", "c01"), "C02": ("cache", "c02"), "C04": ("cache", "c04"),
    "C03": ("cachekey", "c03"), "C05": ("cachekey", "c05"),
    "C06": ("cachelock", "c06"), "C07": ("sources", "c07"),
    "C08": ("tokens", "c08"), "C09": ("tokens", "c09"), "C10": ("nbest", "c10"), "C11": ("align", "c11"), "C12": ("maps", "c12"), "C14": ("segment", "c14"),
    "C13": ("purity", "c13"), "C21": ("cli", "c21"),
    "C15": ("numerals", "c15"), "C16": ("numerals", "c16"), "C17": ("numerals", "c17"), "C18": ("numerals", "c18"),
    "C19": ("components", "c19"), "C20": ("options", "main"),
    "C22": ("tokens", "c22"),
}


def main():
    prop = sys.argv[1]
    module, fn = TABLE[prop]
    try:
        getattr(__import__(module), fn)()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        print("ERROR: the machinery of %s failed" % prop)
        sys.exit(3)


main()
