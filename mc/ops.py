"""An alphabet of public calls (plain data), used by the history and the concurrency exploration."""
import json, os, warnings
from . import env
from .api import T
from .scripts import INDIC, LATIN, SEMITIC

OPTS = json.load(open(os.path.join(env.VERIF, "mc", "spec", "options.json"), encoding="utf8"))
TXT = "त्रि संस्कृतम् कै ॐ १२ । अइ ङ्ग"
# texts in the orthographies that detection tells apart
DETECT = {"Thai": ["สังสกฤต", "ธมฺโม", "พุทธัง สะระณัง คัจฉามิ", "นะโม ตัสส์", "ตัสส์", "s̥ง\u0325"], "Lao": ["ພຸດທັງ ສະຣະນັງ", "ນະໂມ ຕັສ໌", "ຕສ໌"],
          "Urdu": ["یہ پاکستان ہے", "کِتاب"], "Arab-Fa": ["این کتاب است پ"], "Assamese": ["ৰাম"], "Burmese": ["မြန်မာ"], "Mon": ["ဘာသာမန်ၚ်"],
          "Latn": ["saṃskṛta ṭ", "saMskRta", "RRi shrI", "ʾalif ḥ"], "RussianCyrillic": ["намах̣"], "Syre": ["ܫܠܡܐ"], "Hebr": ["שָׁלוֹם"]}


def call(op):
    """perform one call; the result is a string (exceptions are results too)"""
    kw = dict(op[3]) if len(op) > 3 else {}
    src, tgt, txt = op[0], op[1], op[2]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            f = kw.pop("call", "process")
            if f == "auto_detect":
                r = T.auto_detect(txt)
            elif f == "convert":
                r = T.convert(src, tgt, txt, kw.get("nativize", True), kw.get("pre_options", []), kw.get("post_options", []))
            else:
                r = T.process(src, tgt, txt, **kw)
            return r if isinstance(r, str) else repr(r)
        except Exception as e:
            return "<raised %s: %s>" % (type(e).__name__, str(e)[:80])


def alphabet(samples, size):
    """samples: script -> text in that script.  size: 'core' (about 60 calls) or 'full' (about 700)"""
    D = "Devanagari"
    out = []
    core = ["Tamil", "Bengali", "IAST", "Arab", "Hebrew", "Urdu", "Tibetan", "Thai", "Burmese", "Itrans", "Khmer", "Grantha"]
    for s in (INDIC + LATIN + SEMITIC if size == "full" else core):
        if s == D:
            continue
        out.append([D, s, TXT])
        out.append([s, D, samples[s]])
        if size == "full":
            out.append([D, s, TXT, {"nativize": False}])
            out.append([s, D, samples[s], {"nativize": False}])
    for a, b in (("Tamil", "Telugu"), ("Bengali", "IAST"), ("Arab", "Hebr"), ("IAST", "Tamil"), ("Urdu", "Tamil"), ("HK", "Siddham"), ("Hiragana", "Devanagari"), ("Devanagari", "Katakana")):
        t = {"Hiragana": "かきくけこ さん"}.get(a) or (TXT if a == D else samples.get(a, TXT))
        out.append([a, b, t])
        out.append([a, b, t, {"nativize": False}])
    for kind, key in (("pre", "pre_options"), ("post", "post_options")):
        names = list(OPTS[kind])
        if size == "core":
            names = [n for n in names if n in ("indicDandas", "TamilTranscribe", "siddhammukta", "SchwaFinalGurmukhi", "RetainTamilNumerals", "TamilSubScript", "removeDiacritics", "capitalizeSentence")]
        for n in names:
            for a, b, w in OPTS[kind][n][:1]:
                out.append([a, b, w + " " + w + " .", {key: [n], "nativize": False}])
                if size == "core":
                    out.append([a, b, w, {key: [n]}])
    for s in ("Tamil", "Bengali", "Arab", "IAST", "Thai", "Burmese"):
        out.append(["autodetect", D, samples[s]])
        out.append(["", "", samples[s], {"call": "auto_detect"}])
    for s, ts in DETECT.items():
        for t in ts if size == "full" else ts[:1]:
            out.append(["autodetect", "IAST", t])
            out.append([s if s in INDIC + LATIN + SEMITIC else "IAST", D, t])
            out.append(["", "", t, {"call": "auto_detect"}])
            out.append(["autodetect", D, t, {"nativize": False}])
    out.append(["Deva", "Taml", TXT, {"param": "script_code"}])
    out.append(["Beng", "Deva", samples["Bengali"], {"param": "script_code"}])
    out.append(["sa-Deva", "ta-Taml", TXT, {"param": "script_code"}])
    out.append(["sa", "ta", TXT, {"param": "lang_code"}])
    out.append(["Hindi", "Tamil", TXT, {"param": "lang_name"}])
    out.append(["NoSuch", "Tamil", TXT])
    out.append([D, "NoSuch", TXT])
    out.append([D, "RomanLoC", TXT])
    out.append(["Tamil", "RomanLoC", samples["Tamil"]])
    out.append(["BatakKaro", "RomanLoC", samples["BatakKaro"]])
    out.append(["autodetect", D, ""])
    out.append([D, "ISO259", TXT])
    out.append(["ISO233", D, "kitāb"])
    seen, uniq = set(), []
    for o in out:
        k = json.dumps(o, ensure_ascii=False, sort_keys=True)
        if k not in seen:
            seen.add(k)
            uniq.append(o)
    return uniq
