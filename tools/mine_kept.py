"""Which words of complete families each script keeps apart (there and back on the tree the property was written for):
mc/spec/kept.json, one bit per word, for scripts whose repertoire is not a product of letters and signs."""
import base64, json, os, sys, zlib
import multiprocessing as mp
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from mc import env, deva
from mc.api import conv_lines
from mc.deva import nfc
from mc.scripts import INDIC, LATIN, SEMITIC
from mc.checks import c03


def mine(X):
    out, n = {}, [0, 0]
    for f, ws, nat in [(f, ws, nat) for f, ws in c03.kept_families().items() for nat in (False, True)]:
        bits = bytearray((len(ws) + 7) // 8)
        i = 0
        for b in deva.batches(iter(ws)):
            back = conv_lines(X, "Devanagari", conv_lines("Devanagari", X, b, nat), nat)
            for w, z in zip(b, back):
                n[1] += 1
                if w == z or nfc(w) == nfc(z):
                    bits[i >> 3] |= 1 << (i & 7)
                    n[0] += 1
                i += 1
        out[f + (" native" if nat else "")] = base64.b64encode(zlib.compress(bytes(bits), 9)).decode()
    return X, out, n


if __name__ == "__main__":
    with mp.Pool(6) as p:
        r = p.map(mine, [x for x in INDIC + LATIN + SEMITIC if x not in ("Devanagari", "RomanLoC")], chunksize=1)
    json.dump({x: o for x, o, n in r}, open(os.path.join(env.VERIF, "mc", "spec", "kept.json"), "w"), indent=0, sort_keys=True)
    print({x: "%d/%d" % tuple(n) for x, o, n in r})
