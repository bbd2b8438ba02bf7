"""The names of the writing systems (written down here, not read from the library), and small vocabularies."""
import functools
from . import deva
from .api import conv1, Raised

INDIC = """Ahom Assamese Balinese BatakKaro BatakManda BatakPakpak BatakSima BatakToba Bengali BengaliRaBa Bhaiksuki
Brahmi Buginese Buhid Burmese Chakma Cham Devanagari DivesAkuru Dogra Grantha GranthaGrantamil GranthaPandya
Gujarati GunjalaGondi Gurmukhi GurmukhiLoC Hanunoo Hebrew Javanese Kaithi Kannada Kawi KhamtiShan Kharoshthi
Khmer KhmerLoC Khojki KhomThai Khudawadi KhuenTham Lao Lao2 LaoPali LaoTham Lepcha Limbu LimbuLoC LueTham
Mahajani Makasar Malayalam Marchen MasaramGondi MeeteiMayek Modi Mon Multani Nandinagari Newa OldPersian Oriya
Pallava PhagsPa Ranjana Rejang RomanSemitic Saurashtra Shahmukhi Shan ShanLoC Sharada Siddham
SiddhamDevanagari Sinhala Soyombo Sundanese SylotiNagri Tagalog Tagbanwa TaiLaing TaiTham Takri Tamil
TamilBrahmi TamilExtended TamilGrantha Telugu Thaana Thai ThamLoC Tibetan TibetanLoC Tirhuta Urdu Vatteluttu
ZanabazarSquare""".split()
LATIN = """Aksharaa Ariyaka AssameseRomanLoC Avestan BalineseRomanLoC BalineseSimpleRomanLoC BarahaNorth BarahaSouth
BengaliRomanLoC BurmeseRomanLoC DevanagariRomanLoC GujaratiRomanLoC GurmukhiLoCRomanLoC HK HanifiRohingya IAST
IASTPali IPA ISO ISOPali Itrans JavaneseRomanLoC JavaneseSimpleRomanLoC KannadaRomanLoC KhmerLoCRomanLoC
LimbuLoCRomanLoC Mongolian Mro OriyaRomanLoC RomanColloquial RomanKana RomanLoC RomanReadable RussianCyrillic
SLP1 Santali ShanLoCRomanLoC SinhalaRomanLoC SoraSompeng TeluguRomanLoC ThamLoCRomanLoC TibetanLoCRomanLoC
Titus TolongSiki Velthuis WX WX-kok Wancho WarangCiti""".split()
SEMITIC = """Arab Arab-Fa Arab-Pa Arab-Ur Armi Brah Chrs Egyp Elym Ethi Grek Hatr Hebr Hebr-Ar Latn Mani Narb Nbat Palm
Phli Phlp Phnx Prti Samr Sarb Sogd Sogo Syre Syrj Syrn Thaa Type Ugar""".split()

# targets only: lossy pronunciation schemes that are not read back
ALL = INDIC + LATIN + SEMITIC
SOURCES = ALL
TARGETS = ALL
HUBS = ["Devanagari", "Tamil", "Bengali", "IAST", "HK"]


def skip_pair(a, b):
    """the one pair that asks a remote web service"""
    return a == "Tamil" and b == "IPA"


LONG = """क खा गि घी ङ चु छू ज झृ ञ टे ठै डो ढौ णं तः थँ द्य ध्र न प्त फ ब्ध भ म य र ल व श ष स ह ळ क़ ख़ ग़ ज़ ड़ ढ़ फ़ य़
अ आ इ ई उ ऊ ऋ ॠ ए ऐ ओ औ अं अः ॐ ऽ क्ष ज्ञ श्री त् न् म् ङ् र्म र्क्य त्र कां किं के कै को कौ त्त ह्म अग अइ कई के_ऑ सॅ
संस्कृतम् अग्निमीळे कर्म । ॥ १२ हिं ञ्च ङ्ग न्त म्ब""".replace("के_ऑ", "ऑ").split()
SHORT = "क अ ओ के गो त् नं इ ऋ त्र ज्ञ हः ॐ स्व म् १".split()


@functools.lru_cache(None)
def vocabulary(script, size):
    V = LONG if size == "long" else SHORT
    if script == "Devanagari":
        return V
    out = []
    for w in V:
        x = conv1("Devanagari", script, w)
        if not isinstance(x, Raised) and x and x not in out and not any(c.isspace() for c in x):
            out.append(x)
    return out
