"""C18  everything is written in the script asked for, and a script reads everything it writes"""
import json, os, re
from .. import core, deva, env
from ..api import conv_lines, conv1
from ..scripts import ALL, INDIC, LATIN, SEMITIC, LONG, HUBS, skip_pair

D = "Devanagari"
# characters each writing system uses (letters, signs, digits, marks), reviewed by Unicode name
REP = {k: set(v) | {" "} for k, v in json.load(open(os.path.join(env.VERIF, "mc", "spec", "repertoire.json"), encoding="utf8")).items()}
ABJAD = {"Hebrew", "Shahmukhi", "Urdu", "Thaana", "RomanSemitic"} | set(SEMITIC)
NOTGT = {"RomanLoC"}
# pairs whose conversion is language-specific on purpose
PAIRS = {("Oriya", "IPA"), ("Sinhala", "IPA")} | {("ThamLoC", b) for b in ("KhuenTham", "LaoTham", "LueTham", "TaiTham")}
PAIRS |= {(a, "LimbuLoC") for a in ("Arab", "Arab-Fa", "Arab-Pa", "Arab-Ur")}
PAIRS |= {("Urdu", "LimbuLoC"), ("Shahmukhi", "LimbuLoC"), ("Thaana", "Shahmukhi"), ("Urdu", "Latn"), ("Urdu", "Type"),
          ("Shahmukhi", "Latn"), ("Shahmukhi", "Type"), ("Hebrew", "Latn"), ("Hebrew", "Hebr")}
# what a script writes but does not claim to read: sound spellings, marks for foreign letters
UNREAD = json.load(open(os.path.join(env.VERIF, "mc", "spec", "unread.json"), encoding="utf8"))
READ = {"\u200c"}                                             # the non-joiner Devanagari shows after its eyelash r
OM = re.compile("ओ[ंँ]|औँ|ॐ")


def words(thorough):
    fam = [deva.fam_akshara(deva.FULL), LONG, "०१२३४५६७८९॥", deva.fam_hiatus(deva.CORE)]
    if thorough:
        fam += [deva.fam_cluster2(deva.FULL, signs=["", "ि", "े", "ो"]), deva.fam_cvc(deva.FULL, signs=["", "ि", "े"], ayog=False),
                deva.fam_hiatus(deva.FULL)]
    else:
        fam += [deva.fam_cluster2(deva.CORE, signs=[""], ayog=False)]
    return list(dict.fromkeys(w for f in fam for w in f))


def apart(a, b):
    if a == "RomanSemitic" and b in SEMITIC:          # an internal scheme whose letters are kept as Latin text there
        return True
    return a == b or a in NOTGT or b in NOTGT or (a, b) in PAIRS or skip_pair(a, b) or a in ABJAD and b in ("Hebrew", "Urdu", "Shahmukhi", "Thaana")


def extra(a, b):
    """a character of the source which the target group takes over as it is"""
    return {"ʾ"} if a == "Cham" and b in SEMITIC else set()


class C18(core.Check):
    id = "C18"
    rule = "one evaluation = one word converted (and looked at character by character); distinct = distinct results"

    def tasks(self):
        return [["write", a] for a in ALL] + [["read", a] for a in INDIC + LATIN if a not in ABJAD]

    def prepare(self):
        self.W = words(self.thorough)
        self.S = words(True) if self.thorough else list(dict.fromkeys(list(deva.fam_akshara(deva.FULL)) + LONG))

    def run(self, task):
        kind, a = task
        c = {"evaluations": 0, "distinct_nontrivial": 0}
        sus, smp = [], []
        if kind == "read":
            X = conv_lines(D, a, self.W)
            Y = conv_lines(a, D, X)
            ok = REP[D] | READ | set(UNREAD.get(a, ""))
            c["evaluations"] += len(Y)
            c["distinct_nontrivial"] += len(set(Y))
            sus = [{"kind": "read", "source": a, "word": w} for w, y in zip(self.W, Y) if set(y) - ok]
            return c, sus[:60], smp
        V = self.W if a == D else self.S
        Y = conv_lines(D, a, V)
        P = [(w, x) for w, x, b in zip(V, Y, conv_lines(a, D, Y)) if w == b]
        core = P if self.thorough else set(deva.fam_akshara(deva.CORE)) | set(LONG)
        P2 = P if self.thorough else [p for p in P if p[0] in core]
        for b in ALL:
            if apart(a, b):
                continue
            ok = REP[b] | extra(a, b)
            Q = [x for w, x in (P if a in HUBS or b in HUBS else P2)
                 if not (a in LATIN and OM.search(w))]
            for nat in (False, True) if a in HUBS or self.thorough else (False,):
                Z = conv_lines(a, b, Q, nat)
                c["evaluations"] += len(Z)
                c["distinct_nontrivial"] += len(set(Z))
                sus += [{"kind": "write", "source": a, "target": b, "nativize": nat, "text": x} for x, z in zip(Q, Z) if set(z) - ok][:30]
            if Q and b == "Tibetan":
                smp.append({"source": a, "target": b, "text": Q[-1], "result": Z[-1]})
        return c, sus, smp

    def judge(self, x):
        if x["kind"] == "read":
            a, w = x["source"], x["word"]
            t = conv1(D, a, w)
            y = conv1(a, D, t)
            bad = set(y) - REP[D] - READ - set(UNREAD.get(a, ""))
            if bad:
                return "%s writes %r for %r, and reads it back as %r, leaving %s unread" % (a, t, w, y, sorted(map(ascii, bad)))
            return None
        a, b, t = x["source"], x["target"], x["text"]
        z = conv1(a, b, t, x["nativize"])
        bad = set(z) - REP[b] - extra(a, b)
        if bad:
            return "%s -> %s (nativize=%s): %r is written %r; %s is not a character of %s" % (a, b, x["nativize"], t, z, sorted(map(ascii, bad)), b)


CHECK = C18
