"""Which script a code or a language name stands for (ISO 15924, ISO 639 and the names of ISO 639 languages).  Written
down here, not read from the library.  Codes shared by several scripts of equal standing (Brah, Batk, Lana, doi, gon,
ja, new, pal, syr, ...) are left out unless one of them is the obvious reading."""
from .scripts import LATIN, SEMITIC

SCRIPT = dict(x.split("=") for x in """Ahom=Ahom Arab=Arab Armi=Armi Avst=Avestan Bali=Balinese Beng=Bengali Bhks=Bhaiksuki
Bugi=Buginese Buhd=Buhid Cakm=Chakma Cham=Cham Cyrl=RussianCyrillic Deva=Devanagari Dogr=Dogra Elym=Elym Ethi=Ethi
Gong=GunjalaGondi Gonm=MasaramGondi Gran=Grantha Gujr=Gujarati Guru=Gurmukhi Hano=Hanunoo Hatr=Hatr Hebr=Hebrew
Hira=Hiragana Java=Javanese Kana=Katakana Kawi=Kawi Khar=Kharoshthi Khmr=Khmer Khoj=Khojki Knda=Kannada Kthi=Kaithi
Laoo=Lao Lepc=Lepcha Limb=Limbu Mahj=Mahajani Maka=Makasar Mani=Mani Marc=Marchen Mlym=Malayalam Modi=Modi
Mong=Mongolian Mroo=Mro Mtei=MeeteiMayek Mult=Multani Mymr=Burmese Nand=Nandinagari Narb=Narb Nbat=Nbat Newa=Newa
Olck=Santali Orya=Oriya Palm=Palm Phag=PhagsPa Phli=Phli Phlp=Phlp Phnx=Phnx Prti=Prti Ranj=Ranjana Rjng=Rejang
Rohg=HanifiRohingya Samr=Samr Sarb=Sarb Saur=Saurashtra Shrd=Sharada Sidd=Siddham Sind=Khudawadi Sinh=Sinhala
Sogd=Sogd Sogo=Sogo Sora=SoraSompeng Soyo=Soyombo Sund=Sundanese Sylo=SylotiNagri Syrc=Syre Syre=Syre Syrj=Syrj
Syrn=Syrn Tagb=Tagbanwa Takr=Takri Taml=Tamil Telu=Telugu Tglg=Tagalog Thaa=Thaana Thai=Thai Tibt=Tibetan Tirh=Tirhuta
Ugar=Ugar Wara=WarangCiti Wcho=Wancho Xpeo=OldPersian Zanb=ZanabazarSquare Latn=ISO Chrs=Chrs Egyp=Egyp Grek=Grek
Arab-Pa=Arab-Pa Arab-Ur=Arab-Ur Arab-Fa=Arab-Fa Hebr-Ar=Hebr-Ar""".split())

# language(s) : script : name.  The first script of a language is the one its bare code stands for ("-": not decided)
_L = """ae,ave Avst Avestan;aho Ahom Ahom;anp,awa,bho,mag Kthi Kaithi;ar,ara Arab Arab;as Beng Assamese;ban Bali Balinese
bbc Batk BatakToba;btd Batk BatakPakpak;btm Batk BatakManda;bts Batk BatakSima;btx Batk BatakKaro;bn,ben Beng Bengali
bku Buhd Buhid;bo,bod,tib Tibt Tibetan;bug Bugi Buginese;my,mya,bur Mymr Burmese;ccp Cakm Chakma;cja,cjm Cham Cham
dv,div Thaa Thaana;fa,fas,per Arab Arab-Fa;tl,tgl,fil Tglg Tagalog;gez Ethi Ethi;gu,guj Gujr Gujarati;he,heb Hebr Hebrew
hi,hin,mr,mar Deva Devanagari;hnn Hano Hanunoo;hoc Wara WarangCiti;jv,jav Java Javanese;kn,kan Knda Kannada
ks,kas Shrd Sharada;kaw Kawi Kawi;khb Lana LueTham;kkh Lana KhuenTham;kht Mymr KhamtiShan;km,khm Khmr Khmer
lo,lau Laoo Lao;lep Lepc Lepcha;lif Limb Limbu;mai Tirh Tirhuta;mak Maka Makasar;ml,mal Mlym Malayalam
mni Mtei MeeteiMayek;mnw Mymr Mon;mro Mroo Mro;mwr Mahj Mahajani;nnp Wcho Wancho;or,ori,ory Orya Oriya
pa,pan,pnb Arab Shahmukhi;pgd Khar Kharoshthi;phn Phnx Phnx;qhy Nbat Nbat;rej Rjng Rejang;rhg Rohg HanifiRohingya
ru,rus Cyrl RussianCyrillic;sam Samr Samr;sat,mjx Olck Santali;saz Saur Saurashtra;sd,snd Sind Khudawadi;shn Mymr Shan
si,sin Sinh Sinhala;skr Mult Multani;srb Sora SoraSompeng;su,sun,bac,osn Sund Sundanese;syl Sylo SylotiNagri
ta,tam Taml Tamil;tbw,tbk,tgt Tagb Tagbanwa;te,tel Telu Telugu;th,tha Thai Thai;tjl Mymr TaiLaing;uga Ugar Ugar
ur,urd Arab Urdu;xzh Marc Marchen;sa,san,pi,pli Deva Devanagari"""
# further scripts of a language: only with the script code
_M = """pa,pan,pnb Guru Gurmukhi;mr,mar Modi Modi;hi,hin Kthi Kaithi;doi Dogr Dogra;doi Takr Takri;new,nwx Newa Newa;new,nwx Ranj Ranjana
lo,lau Lana LaoTham;oty Brah TamilBrahmi;ja,jpn Hira Hiragana;ja,jpn Kana Katakana;gon Gong GunjalaGondi;gon Gonm MasaramGondi
fa,per Xpeo OldPersian;ar,ara Narb Narb;ar,ara Sarb Sarb;arc Armi Armi;arc Elym Elym;arc Hatr Hatr;arc Palm Palm
pal Phli Phli;pal Phlp Phlp;pal Prti Prti;pal Mani Mani;sog Sogd Sogd;sog Sogo Sogo;syr Syre Syre;syr Syrn Syrn;syr Syrj Syrj
san,pi,pli,sa Laoo LaoPali"""
LANG, PAIR = {}, {}
for _t, _d in ((_L, True), (_M, False)):
    for _e in _t.replace("\n", ";").split(";"):
        _c, _s, _n = _e.split()
        for _l in _c.split(","):
            if _d:
                LANG[_l] = _n
            PAIR["%s-%s" % (_l, _s)] = _n
# Sanskrit and Pali are written in every script
for _s in SCRIPT:
    if _s not in ("Arab", "Hebr-Ar", "Laoo", "Latn", "Syrc", "Chrs", "Egyp", "Grek") and "-" not in _s:
        for _l in ("sa", "san", "pi", "pli"):
            PAIR["%s-%s" % (_l, _s)] = SCRIPT[_s]
for _l in ("la", "en", "eng"):
    LANG[_l] = "ISO"
# a particular romanization
ROMAN_S = {"%s-%s" % (l, n): n for l in ("Latn", "en", "eng") for n in LATIN if n != "WX-kok"}
ROMAN_L = {"%s-%s" % (l, n): n for l in ("la", "en", "eng") for n in LATIN if n != "WX-kok"}
# as script codes, the languages of Sanskrit do not choose a script
PAIR_S = {c: n for c, n in PAIR.items() if c.split("-")[0] not in ("sa", "san", "pi", "pli", "syr")}

NAME = dict(x.split("=") for x in """Arabic=Arab;Avestan=Avestan;Ahom=Ahom;Assamese=Assamese;Awadhi=Kaithi;Balinese=Balinese
Batak Toba=BatakToba;Bangla=Bengali;Bengali=Bengali;Bhojpuri=Kaithi;Buhid=Buhid;Tibetan=Tibetan;Batak Karo=BatakKaro
Buginese=Buginese;Burmese=Burmese;Chakma=Chakma;Divehi=Thaana;Persian=Arab-Fa;Filipino=Tagalog;Gujarati=Gujarati;Hebrew=Hebrew
Hindi=Devanagari;Hanunoo=Hanunoo;Javanese=Javanese;Kannada=Kannada;Kashmiri=Sharada;Kawi=Kawi;Khmer=Khmer;Lepcha=Lepcha
Limbu=Limbu;Lao=Lao;Maithili=Tirhuta;Makasar=Makasar;Malayalam=Malayalam;Marathi=Devanagari;Manipuri=MeeteiMayek;Mon=Mon
Marwari=Mahajani;Odia=Oriya;Pali=Devanagari;Phoenician=Phnx;Punjabi=Shahmukhi;Rejang=Rejang;Rohingya=HanifiRohingya
Russian=RussianCyrillic;Sanskrit=Devanagari;Santali=Santali;Saurashtra=Saurashtra;Sindhi=Khudawadi;Shan=Shan;Sinhala=Sinhala
Saraiki=Multani;Sora=SoraSompeng;Sundanese=Sundanese;Sylheti=SylotiNagri;Tamil=Tamil;Tagbanwa=Tagbanwa;Telugu=Telugu;Thai=Thai
Ugaritic=Ugar;Urdu=Urdu;English=ISO;Latin=ISO""".replace("\n", ";").split(";"))

# written in the shared code but undecided (several scripts, no obvious first)
UNDECIDED_S = {"brah", "batk", "lana", "zzzz"}
UNDECIDED_L = {"doi", "gon", "ja", "jpn", "new", "nwx", "pal", "syr", "arc", "sog", "oty", "ar", "ara"}
