"""The om of every script, derived once from the code and reviewed (letters named OM in Unicode, otherwise o with the
script's anusvara, candrabindu or m) -> mc/spec/om.json"""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from mc import env
from mc.api import conv1
from mc.scripts import INDIC, LATIN
SKIP = {"RomanLoC"}           # spells according to the source
om = {x: conv1("Devanagari", x, "ॐ") for x in INDIC + LATIN if x not in SKIP}
native = {x: conv1("Devanagari", x, "ॐ", True) for x in om}
no = [x for x in om if x != "Devanagari" and conv1(x, "Devanagari", om[x]) != "ॐ"]
json.dump({"om": om, "native": native, "not_read_back": no},
          open(os.path.join(env.VERIF, "mc", "spec", "om.json"), "w", encoding="utf8"), ensure_ascii=False, indent=0, sort_keys=True)
print(len(om), len(no), {x: (om[x], native[x]) for x in om if om[x] != native[x]})
