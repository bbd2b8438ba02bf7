"""C19  files: a text, HTML or Word file is converted like its text, markup and source stay as they are"""
import io, itertools, os, resource, shutil, signal, sys, tempfile, warnings, zipfile
import xml.etree.ElementTree as ET
from html.parser import HTMLParser
from .. import core, env
from ..api import conv

TF = None
# source, target, nativize, pre, post, words of the source
PLANS = [
    ("Devanagari", "IAST", True, [], [], ["राम", "क्षेत्र", "१२।", "वाऽक् कृ"]),
    ("Devanagari", "Tamil", True, ["AnuChandraEqDeva"], ["TamilRemoveApostrophe"], ["राम", "ढाँचा", "खग", "ज्ञान"]),
    ("IAST", "Devanagari", False, [], [], ["rāma", "kṣetra", "12", "vāk kṛ"]),
    ("HK", "Telugu", True, [], ["TeluguRemoveAeAo"], ["rAma", "html", "p", "a:b"]),
    ("Tamil", "Devanagari", True, ["TamilTranscribe"], ["DevanagariAVowels"], ["பாம்பு", "தமிழ்", "அங்கம்", "௧௨"]),
    ("Itrans", "Bengali", False, [], [], ["rAma", "##Ab-1## ka", "kSha", "oM"]),
    ("Devanagari", "Arab-Ur", True, [], [], ["राम", "क", "बिल्ली", "घर"]),
    ("Gurmukhi", "ISO", True, ["SchwaFinalGurmukhi"], ["IASTPali"], ["ਸਿੰਘ", "ਪੱਕਾ", "੧੨", "ਅੰਗ"]),
]
NAMES = ["a", "two words", "dots.in.name", "कख", "new.html.notes", "my.txt.copy", "x.docx.old"]
VOID = {"br", "img", "hr", "meta", "input"}


def files():
    """the module under test (loaded lazily: it needs the optional parsers)"""
    global TF
    if TF is None:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            from aksharamukha import transliterate_file
        TF = transliterate_file
    return TF


# ---- documents ------------------------------------------------------------------------------
def html_bodies(words, depth):
    """every tree of a few nodes: texts, elements (block, inline, with attributes), void elements, comments"""
    w = itertools.cycle(words)
    leaf = ["%s", "<br/>", "<!-- %s -->", "<img alt=\"%s\" src=\"%s.png\"/>", "&lt;%s&gt; &amp;", ""]
    elem = ["<blockquote>{}</blockquote>", "<b>{}</b>", "<div class=\"%s\" id=\"x\">{}</div>", "<span title=\"%s?q=%s\">{}</span>"]

    def nodes(d):
        yield from leaf
        if d:
            for e in elem:
                for n in nodes(d - 1):
                    yield e.replace("{}", n)
    one = list(nodes(depth))
    fill = lambda s: "".join(next(w) if x is None else x for x in _slots(s))
    for n in one:
        yield fill("<div>" + n + "</div>")
    two = list(nodes(1))
    for a, b in itertools.product(two, two):
        yield fill("<ul><li>" + a + "</li></ul><div>" + b + "</div>")
        yield fill("<div>" + a + b + "</div>")


def _slots(s):
    p = s.split("%s")
    for i, x in enumerate(p):
        if i:
            yield None
        yield x


HEADS = ["", "<head><title>%s</title></head>", "<head><meta charset=\"utf-8\"/><style>p { color: red } .ka { top: 0 }</style><script>var ka = \"rama\"; if (ka < 2) ka += 1;</script></head>"]


class Events(HTMLParser):
    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.ev, self.raw, self.buf = [], None, ""

    def flush(self):
        if self.buf.strip():
            self.ev.append(("text", self.buf))
        self.buf = ""

    def handle_starttag(self, t, a):
        self.flush()
        self.ev.append(("start", t, sorted(a)))
        self.raw = t if t in ("script", "style") else None

    def handle_startendtag(self, t, a):
        self.flush()
        self.ev.append(("start", t, sorted(a)))
        if t not in VOID:
            self.ev.append(("end", t))

    def handle_endtag(self, t):
        self.flush()
        self.raw = None
        if t not in VOID:
            self.ev.append(("end", t))

    def handle_data(self, d):
        if self.raw:
            self.ev.append(("raw", self.raw, " ".join(d.split())))
        else:
            self.buf += d

    def handle_comment(self, d):
        self.flush()
        self.ev.append(("comment", " ".join(d.split())))

    def handle_decl(self, d):
        self.flush()
        self.ev.append(("decl", d))


def events(s):
    p = Events()
    p.feed(s)
    p.close()
    p.flush()
    return p.ev


def squeeze(s):
    return " ".join(s.split())


W_NS = "http://schemas.openxmlformats.org/wordprocessingml/2006/main"


def docx_bytes(parts):
    b = io.BytesIO()
    with zipfile.ZipFile(b, "w", zipfile.ZIP_DEFLATED) as z:
        for n, d in parts:
            z.writestr(n, d)
    return b.getvalue()


def w_part(tag, body):
    return ('<?xml version="1.0" encoding="UTF-8" standalone="yes"?>\n<w:%s xmlns:w="%s" xmlns:r="http://r/">%s</w:%s>'
            % (tag, W_NS, body, tag)).encode("utf8")


RUNS = ['<w:p><w:r><w:t>%s</w:t></w:r></w:p>', '<w:p w:rsid="ab"><w:pPr><w:pStyle w:val="ka"/></w:pPr><w:r><w:t xml:space="preserve">%s </w:t></w:r><w:r><w:tab/><w:t>%s</w:t></w:r></w:p>',
        '<w:p><w:r><w:t/></w:r></w:p>', '<w:p><w:r><w:instrText>PAGE ka</w:instrText></w:r></w:p>', '<w:p/>', '<w:tbl><w:tr><w:tc><w:p><w:r><w:t>%s</w:t></w:r></w:p></w:tc></w:tr></w:tbl>',
        '<w:p><w:hyperlink r:id="rama"><w:r><w:t>a&lt;%s&amp;</w:t></w:r></w:hyperlink><!-- ka --></w:p>']


def docx_parts(kinds, words):
    w = itertools.cycle(words)
    fill = lambda s: "".join(next(w) if x is None else x for x in _slots(s))
    body = "<w:body>" + "".join(fill(RUNS[k]) for k in kinds) + "</w:body>"
    return [("[Content_Types].xml", b'<?xml version="1.0"?><Types xmlns="rama"><a>rama</a></Types>'),
            ("word/document.xml", w_part("document", body)),
            ("word/header1.xml", w_part("hdr", fill(RUNS[0]))),
            ("word/_rels/document.xml.rels", b'<?xml version="1.0"?><R Target="ka"/>'),
            ("word/media/image1.png", bytes(range(256)) * 3),
            ("docProps/core.xml", ("<?xml version='1.0'?><c>%s</c>" % words[0]).encode("utf8")),
            ("word/empty/", b"")]


# ---- the property ---------------------------------------------------------------------------
class C19(core.Check):
    id = "C19"
    rule = "one evaluation = one file (or one failing operation) processed in a scratch folder; distinct = distinct documents written"

    def tasks(self):
        t = [(k, i) for k in ("txt", "html", "docx") for i in range(len(PLANS))]
        return t + [("name", 0), ("fault", 0), ("fault", 2)]

    def prepare(self):
        files()

    def cases(self, task):
        kind, i = task
        words = PLANS[i][5]
        if kind == "txt":
            A = words + ["", " ", "\t" + words[0]]
            for n in range(0, 5 if self.thorough else 4):
                for ls in itertools.product(A, repeat=n):
                    yield {"kind": "txt", "plan": i, "name": "a.txt", "text": "\n".join(ls)}
        elif kind == "html":
            for n, b in enumerate(html_bodies(words, 3 if self.thorough else 2)):
                h = "".join(words[1] if x is None else x for x in _slots(HEADS[n % 3]))
                yield {"kind": "html", "plan": i, "name": ("a.html", "a.htm")[n % 2],
                       "text": "<!DOCTYPE html>\n<html>%s<body>%s</body></html>" % (h, b)}
        elif kind == "docx":
            for n in range(0, 5 if self.thorough else 4):
                for ks in itertools.product(range(len(RUNS)), repeat=n):
                    yield {"kind": "docx", "plan": i, "name": "a.docx", "runs": list(ks)}
        elif kind == "name":
            for p in range(len(PLANS)):
                for nm in NAMES:
                    yield {"kind": "txt", "plan": p, "name": nm + ".txt", "text": PLANS[p][5][0]}
                    yield {"kind": "html", "plan": p, "name": nm + ".html", "text": "<!DOCTYPE html>\n<html><body><p>%s</p></body></html>" % PLANS[p][5][0]}
                    yield {"kind": "docx", "plan": p, "name": nm + ".docx", "runs": [0]}
        else:
            docs = [{"kind": "txt", "name": "a.txt", "text": "\n".join(words * 4)},
                    {"kind": "html", "name": "a.html", "text": "<!DOCTYPE html>\n<html><body><p>%s</p></body></html>" % words[0]},
                    {"kind": "docx", "name": "a.docx", "runs": [0, 1]}]
            for d in docs:
                d["plan"] = i
                for n in range(0, 200 if d["kind"] != "docx" else 2400, 1 if self.thorough else 3):
                    yield dict(d, limit=n)                                  # the disk is full after n bytes
                for bad in ("undecodable", "target-is-folder", "missing", "truncated"):
                    yield dict(d, bad=bad)

    def run(self, task):
        c = {"evaluations": 0, "distinct_nontrivial": 0}
        sus, smp, seen = [], [], set()
        for x in self.cases(task):
            c["evaluations"] += 1
            seen.add(repr(sorted(x.items())))
            if len(sus) < 40 and self.judge(x):
                sus.append(x)
        c["distinct_nontrivial"] = len(seen)
        smp.append(x)
        return c, sus, smp

    def source(self, x):
        if x["kind"] == "docx":
            return docx_bytes(docx_parts(x["runs"], PLANS[x["plan"]][5]))
        return x["text"].encode("utf8")

    def judge(self, x):
        d = tempfile.mkdtemp(prefix="mc-c19-")
        try:
            return self.fault(x, d) if "limit" in x or "bad" in x else self.plain(x, d)
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def call(self, x, path):
        s, t, nat, pre, post, _ = PLANS[x["plan"]]
        out, sys.stdout = sys.stdout, io.StringIO()
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                files().process(s, t, path, nativize=nat, pre_options=list(pre), post_options=list(post))
        finally:
            sys.stdout = out

    def plain(self, x, d):
        p = os.path.join(d, x["name"])
        src = self.source(x)
        with open(p, "wb") as f:
            f.write(src)
        try:
            self.call(x, p)
        except Exception as e:
            return "%s: raised %s: %s" % (self.show(x), type(e).__name__, str(e)[:100])
        if open(p, "rb").read() != src:
            return "%s: the source file was changed" % self.show(x)
        new = [n for n in os.listdir(d) if n != x["name"]]
        s, t = PLANS[x["plan"]][:2]
        base, ext = os.path.splitext(x["name"])
        if len(new) != 1 or not (new[0].startswith(base) and new[0].endswith(ext) and s in new[0] and t in new[0]):
            return "%s: wrote %r instead of one new file named after the source and the two scripts" % (self.show(x), sorted(new))
        got = open(os.path.join(d, new[0]), "rb").read()
        return getattr(self, "same_" + x["kind"])(x, src, got)

    def conv(self, x, s):
        a, b, nat, pre, post, _ = PLANS[x["plan"]]
        return conv(a, b, s, nat, pre, post)

    def show(self, x):
        return "%s -> %s, %s %r" % (PLANS[x["plan"]][0], PLANS[x["plan"]][1], x["name"], x.get("text", x.get("runs")))

    def same_txt(self, x, src, got):
        want = self.conv(x, x["text"])
        if got.decode("utf8", "replace") != want:
            return "%s is written %r, but the text converts to %r" % (self.show(x), got.decode("utf8", "replace"), want)

    def same_html(self, x, src, got):
        want = [("text", squeeze(self.conv(x, e[1]))) if e[0] == "text" else e for e in events(src.decode("utf8"))]
        have = [("text", squeeze(e[1])) if e[0] == "text" else e for e in events(got.decode("utf8", "replace"))]
        # the writer may add the <head> and <body> it needs; nothing else
        if not any(e[:2] == ("start", "head") for e in want):
            have = [e for e in have if e[:2] not in (("start", "head"), ("end", "head"))]
        want = [e for e in want if e != ("text", "")]
        if have != want:
            for i, (a, b) in enumerate(itertools.zip_longest(want, have)):
                if a != b:
                    return "%s: item %d is written %r, expected %r" % (self.show(x), i, b, a)

    def same_docx(self, x, src, got):
        try:
            old, new = zipfile.ZipFile(io.BytesIO(src)), zipfile.ZipFile(io.BytesIO(got))
            if old.namelist() != new.namelist():
                return "%s: parts %r became %r" % (self.show(x), old.namelist(), new.namelist())
            for n in old.namelist():
                a, b = old.read(n), new.read(n)
                if not (n.startswith("word/") and n.endswith(".xml")):
                    if a != b:
                        return "%s: part %s was changed" % (self.show(x), n)
                    continue
                m = self.tree(ET.fromstring(a, ET.XMLParser(target=ET.TreeBuilder(insert_comments=True))), x), self.tree(ET.fromstring(b, ET.XMLParser(target=ET.TreeBuilder(insert_comments=True))), None)
                for e, f in itertools.zip_longest(*m):
                    if e != f:
                        return "%s: %s has %r, expected %r" % (self.show(x), n, f, e)
        except (zipfile.BadZipFile, ET.ParseError) as e:
            return "%s: the document written is broken (%s)" % (self.show(x), e)

    def tree(self, e, x):
        out = []
        for n in e.iter():
            t = n.text or ""
            if x is not None and n.tag == "{%s}t" % W_NS:
                t = self.conv(x, t)
            out.append((n.tag if isinstance(n.tag, str) else "comment", sorted(n.attrib.items()), t, n.tail or ""))
        return out

    # -- every failing operation ---------------------------------------------------------------
    def fault(self, x, d):
        """in a child process: the source survives, and a failure is reported"""
        p = os.path.join(d, x["name"])
        src = self.source(x)
        bad = x.get("bad")
        if bad == "undecodable":
            src = b"\xff\xfe" + src
        if bad == "truncated":
            src = src[:len(src) // 2] + (b"\xe0" if x["kind"] != "docx" else b"")
        if bad != "missing":
            with open(p, "wb") as f:
                f.write(src)
        s, t = PLANS[x["plan"]][:2]
        if bad == "target-is-folder":
            base, ext = os.path.splitext(p)
            for j in ("", "_"):
                os.mkdir(base + "_" + s + j + t + ext)
        r, w = os.pipe()
        pid = os.fork()
        if not pid:
            code = b"?"
            try:
                sys.stdout = open(os.devnull, "w")
                if "limit" in x:
                    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                    resource.setrlimit(resource.RLIMIT_FSIZE, (x["limit"], x["limit"]))
                with warnings.catch_warnings(record=True) as ws:
                    warnings.simplefilter("always")
                    a, b, nat, pre, post, _ = PLANS[x["plan"]]
                    files().process(a, b, p, nativize=nat, pre_options=list(pre), post_options=list(post))
                    code = b"w" if any("Not a file" in str(v.message) or v.category is UserWarning for v in ws) else b"k"
            except Exception:
                code = b"e"
            finally:
                os.write(w, code)
                os._exit(0)
        os.close(w)
        code = os.read(r, 1)
        os.close(r)
        os.waitpid(pid, 0)
        what = "%s with %s" % (self.show(x), "the disk full after %d bytes" % x["limit"] if "limit" in x else bad)
        if bad == "missing":
            if code not in (b"w", b"e"):
                return "%s: nothing is reported" % what
            return "%s: a file appeared" % what if os.listdir(d) else None
        if open(p, "rb").read() != src:
            return "%s: the source file was changed" % what
        if "limit" in x:
            new = [n for n in os.listdir(d) if n != x["name"]]
            if code == b"k":                                       # success reported: everything must be there
                if len(new) != 1:
                    return "%s: success reported, but %r written" % (what, new)
                return getattr(self, "same_" + x["kind"])(x, src, open(os.path.join(d, new[0]), "rb").read())
            return None
        if bad == "undecodable" and x["kind"] == "docx":
            return None                                            # a package may start with other bytes
        if code == b"k":
            return "%s: nothing is reported" % what
        return None


CHECK = C19
