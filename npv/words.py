"""Text that is not a number: vocabulary, look-alikes, punctuation, white space."""

from . import lexicon as lx

FILLER = {
    "en": """the a cows chickens dollars I have don't robust often someone tension weigh
        network height eighteenish thirsty fortyish tenant listen milliner thousandfold
        hundredweight billionaire seconds thirds fifths firstly secondly thirdly firsthand
        secondhand with goldsmith tooth health month north width crieth fourthly oneself
        anyone alone bone phone stone money honey done gone onetime twofold twosome weights
        freight tennis attend sixpence sevens nines ninety9 one1 1one x2 zeros nought nil
        dozen couple half quarter twice once by over divided band sand android andy Anderson
        and-so y uno dos два एक ph.d e.g 3.14 11:08 1997 2nd 21st 100th $5 #1 50% C++ x_y
        naïve café über straße İstanbul ＡＢＣ""".split(),
    "es": """las gallinas patos personas viven unos unas onces docenas cientos miles millonario
        millonaria unidad unico tresillo ochentero sesentón nuevecita dosis cerote ciencia
        milagro familia domingo milpa cienfuegos docena veinteañero ya yo yate hoy soy muy
        treintañera primero segundo tercero avisté luego fuimos año niño one two three два
        एक first second twentieth 3,14 11:08 1997 2º $5 ¿qué? ¡hola! x_y""".split(),
    "hi": """जनवरी मैें साल का हूँ उनका मासिक वेतन है खेल शुरू किया जाय तरह दोस्त दोनों एकता
        अनेक तीनों सातवां पंचायत लाखों हज़ारों करोड़पति अरबी सौदा नौकर दसवां पचासी1 छात्र
        बीसवीं आठवां one two dos два first 1997 11:08 50% x_y""".split(),
    "ru": """коров стол столица семья пятница тройка двойка одиннадцатый первый второй третий
        стопка стой тысячный миллионер полтора пара дважды однажды семьянин сороконожка
        пятьсотый восток восьмёрка и а но в one two dos एक first second 1997 11:08 50% x_y
        её ёлка йод""".split(),
    "uk": """корів стіл столиця сім'я сім’я сімʼя п'ятниця п’ятниця п'яний пʼяний м'яч двійка трійка
        перший другий третій тисячний мільйонер півтора пара двічі разу сорочка
        вісімка сотня столик і та але one two dos एक first second 1997 11:08 50% x_y її йод
        ґанок""".split(),
}
# decomposed letters, compatibility letters and letters that normalization would rewrite: they are
# somebody's text and stay as they are
FILLER["en"] += ["don\u2019t", "cafe\u0301", "re\u0301sume\u0301", "A\u030angstro\u0308m", "\ufb01sh",
                 "of\ufb01ce", "\u212b", "\u2126", "na\u00efvete\u0301", "\u1e9e", "\u01c4", 
                 "o\u20ddne", "\u2167", "\u2460", "\u4e94", "\ud55c", "\u1112\u1161\u11ab"]
FILLER["es"] += ["an\u0303o", "corazo\u0301n", "pingu\u0308ino", "doscientas\u00aa", "\u212bs", "camio\u0301n"]
FILLER["hi"] += ["\u0958\u0948\u0926\u0940", "\u0959\u092c\u0930", "\u092c\u095c\u093e",
                 "\u0915\u093c\u0948\u0926\u0940", "\u0921\u093c\u0930", "cafe\u0301"]
FILLER["ru"] += ["и\u0306од", "е\u0308лка", "стои\u0306", "замо\u0301к", "сто\u0438\u0306ка", "\u212b"]
FILLER["uk"] += ["і\u0308жак", "и\u0306ти", "краї\u0301на", "Украі\u0308на", "\u212b"]
# words that make something else of the numbers beside them, for a reader who means well
CONTEXT = {
    "en": """point dot decimal minus negative plus positive times squared cubed percent per cent dollars cents pounds euros o'clock
        past to of a an or nor the no number nr street avenue floor page chapter act part section volume louis henry age aged years
        old feet inches degrees kilos miles half quarter thirds dozen dozens score couple pair several few some many almost about
        around nearly roughly exactly more less than between from until till through thru equals is are was monday january may am pm
        noon midnight bc ad hours minutes days weeks times fold grade size level version route track set lot hundredths tenths
        nothing none nil oh zip double triple single each every both all any other another next last final same only just""",
    "es": """coma punto menos más negativo por ciento_ medio media docena par unos unas veces euros pesos dólares grados o u ni de del
        a al en punto calle número página capítulo siglo año años edad horas hora minutos días casi cerca unos entre hasta desde
        kilos metros enero mayo lunes mitad tercio cuarto doble triple nada cada ambos todo todos otro otra""",
    "hi": """दशमलव ऋण माइनस प्लस आधा डेढ़ ढाई साढ़े सवा पौने प्रतिशत रुपये गुना बार और या से तक लगभग करीब दर्जन बजे साल वर्ष दिन
        घंटे मिनट पृष्ठ अध्याय कक्षा नंबर उम्र किलो मीटर जोड़ी हर सब कोई कुछ""",
    "ru": """целых десятых минус плюс точка запятая половина полтора процентов процент рублей раз раза градусов около почти или либо
        до от из без по час часов минут дней лет год года глава страница номер улица дом квартира этаж класс килограмм метров дюжина
        пара четверть треть вдвое втрое оба обе каждый все другой ещё январь мая понедельник""",
    "uk": """цілих десятих мінус плюс крапка кома половина півтора відсотків гривень разів рази градусів близько майже або чи
        до від з із без по година годин хвилин днів років рік розділ сторінка номер вулиця будинок квартира поверх клас кілограм
        метрів дюжина пара чверть третина вдвічі втричі обидва обидві кожен усі інший ще січень травня понеділок""",
}
for _l in CONTEXT:
    CONTEXT[_l] = [w for w in CONTEXT[_l].split() if "_" not in w and not lx.numberish(w, _l)]
    FILLER[_l] += CONTEXT[_l]
# words above that hold a hyphen or conjunction inside are fine: no part of them is a number word

SKIPS = {"en": ["and", "-", "AND", "And"], "es": ["y", "Y"], "hi": [], "ru": [], "uk": []}

#: characters that end a word without being white space, conjunctions, apostrophes,
#: combining characters or sentence separators
PUNCT = list("!?;:()[]{}\"/\\%$#@&*+=<>~^|") + ["…", "«", "»", "“", "”", "—", "–", "¿", "¡", "€", "№",
                                                "•", "→", "😀", "।", "†", "\u2010", "\u2011", "\u2212", "\u200b",
                                                "\u2060", "\ufeff", "`", "\u00b4", "\u00b7", "\u2018", "\u201e", "§",
                                                "\u3001", "\u3002", "\uff0c", "\uff0e", "\u060c", "°"]
SPACES = [" ", " ", " ", "  ", "   ", "\t", "\n", "\r\n", "\u00a0", "\u3000", "\u2003", " \t ", "\n\n",
          "\x0b", "\u2028", "\u2029", "\x85", "\x0c", "\u202f", "\u2009", "\x1c", "\u1680"]


def space(rng, plain=0.7):
    return " " if rng.random() < plain else rng.choice(SPACES)


def filler(rng, lang):
    return rng.choice(FILLER[lang])


LETTERS = ["bcdfghjklmnpqrstvwxz", "бвгджзклмнпрстфхцчш", "βγδζθκλμξπρσφχψ", "कखगघचजटडतदनपबमरलवसह", "日月火水木金土山川田",
           "가나다라마바사", "בגדהזחטכלמ", "abcdefghijklmnopqrstuvwxyz"]


def odd(rng, lang):
    """A word of an unusual kind: very long, one letter, camel case, with digits or underscores, another script."""
    while True:
        letters = rng.choice(LETTERS)
        k = rng.randrange(7)
        w = "".join(rng.choice(letters) for _ in range(rng.choice([17, 33, 65, 130, 260]) if k == 0 else 1 if k == 1
                                                       else rng.randint(2, 12)))
        if k == 2:
            w = w.capitalize() + "".join(rng.choice(LETTERS[0]) for _ in range(rng.randint(1, 8))).capitalize()
        elif k == 3:
            w = rng.choice(["%s%d", "%s_%d", "_%s%d"]) % (w, rng.randint(0, 999))
        elif k == 4:
            w = "%s_%s" % (w, rng.choice(lx.L[lang].words))
        elif k == 5:
            w = rng.choice(lx.L[lang].words).capitalize() + rng.choice(lx.L[lang].words).capitalize()
        if "'" not in w and "’" not in w and not any(
                lx.numberish(x, lang) for x in (w, w.lower(), w.strip("_0123456789"))):
            return w


#: what texts are written with besides words: every one stays as it is
MARKUP = """&amp; &nbsp; &lt; &gt; &quot; &#39; &#x27; &copy &eacute; &shy; <br/> <br> <b> </b> <p/> <!--x--> <x/>
    %20 %2C %s %d %(x)s %% {0} {x} {} {{x}} ${x} $x $$ \\n \\t \\r\\n \\1 \\g<1> \\0 \\d+ \\u0041 \\x41 \\\\ \\w \\ \\N{DASH} "\\"
    https://example.com http://example.com/x?y=z&w=%20 ftp://x.org/ //x www.example.org mailto:x@example.org x@example.com
    C:\\temp /usr/lib ~/x ../x ./x *x* **x** _x_ __x__ `x` ```x``` [x](y) ![x](y) #x ##x >x |x| x|y :smile: :) ;-) <3 (c) (tm)
    {"x":null} [x] x=y; x==y x!=y x->y x=>y x::y x&&y x||y !x @x #x; /*x*/ //x //; ;x '' "" ( ) ---x--- --x -x x- --
    10:30 2024-01-31 31/12/2024 1.2.3 v1.2 1e5 0x1F 0b11 1_000 1,000 1.000,5 12% 5km 3x3 4x4 +1 -1 #1 No.1 §1 ^1 ~1 1/2 1:2 A4 B2B
    H2O CO2 i18n e.g. i.e. etc. Mr. Dr. a.m. p.m. U.S.A. Ph.D. vs. No. pp. cf. \u00bd \u00b2 \u2460 \u2167 \u33a1 \u2122 \u00ae \u00a9
    \u0661 \u096b \uff15 \ue000 \ufdd0 \U0001f1fa\U0001f1f8 \U0001f468\u200d\U0001f469 \u2764\ufe0f 1\ufe0f\u20e3 \u202ex\u202c \u2028x""".split()
MARKUP += ["<a href=\"x\">", "<!-- x -->", "% s", "\\ n", "\\\n", "\x1b[0m", "\x1b[31mx\x1b[0m", "\x08x", "x\r", "x\ty", "BEGIN:VCARD",
           "SELECT * FROM x;", "'; DROP TABLE x", "x\x00y", "x\x00", "=?utf-8?q?x?=", "data:,x", "file:///x", "[[x]]", "{{{x}}}"]


def markup(rng):
    return rng.choice(MARKUP)


def recase(rng, text, p=0.4):
    if rng.random() > p:
        return text
    kind = rng.randrange(4)
    if kind == 0:
        return text.upper()
    if kind == 1:
        return text.title()
    if kind == 2:
        return text[:1].upper() + text[1:]
    return "".join(c.upper() if rng.random() < 0.5 else c for c in text)


def apostrophes(rng, text):
    """Ukrainian: any of the apostrophe characters in use."""
    return "".join(rng.choice(lx.APOSTROPHES) if c in lx.APOSTROPHES else c for c in text)


def selftest():
    import re

    for lang, words in FILLER.items():
        for w in words:
            inner = "'’" if lang == "uk" else ""
            for part in re.split(r"[^\w\u0300-\u036f\u0900-\u0963\u0966-\u097f%s]+" % inner, w):
                if part:
                    assert not lx.numberish(part, lang) or part.lower() in ("y", "and"), (lang, w, part)
            assert not lx.numberish(w, lang) or w in ("y",), (lang, w)
            for v in (w.upper(), w.title(), w.swapcase()):
                assert not lx.numberish(v, lang) or w in ("y",), (lang, v)
