"""Month names by language, as people write them, for the date formats of the transformation registries 1 to 5."""

# names after a day ("5 ledna"); where another form is used with a year alone it follows in ALONE
FULL = {
    "bg": "януари февруари март април май юни юли август септември октомври ноември декември",
    "cs": "ledna února března dubna května června července srpna září října listopadu prosince",
    "cy": "ionawr chwefror mawrth ebrill mai mehefin gorffennaf awst medi hydref tachwedd rhagfyr",
    "da": "januar februar marts april maj juni juli august september oktober november december",
    "de": "januar februar märz april mai juni juli august september oktober november dezember",
    "el": "ιανουαρίου φεβρουαρίου μαρτίου απριλίου μαΐου ιουνίου ιουλίου αυγούστου σεπτεμβρίου οκτωβρίου νοεμβρίου δεκεμβρίου",
    "en": "january february march april may june july august september october november december",
    "es": "enero febrero marzo abril mayo junio julio agosto septiembre octubre noviembre diciembre",
    "et": "jaanuar veebruar märts aprill mai juuni juuli august september oktoober november detsember",
    "fi": "tammikuuta helmikuuta maaliskuuta huhtikuuta toukokuuta kesäkuuta heinäkuuta elokuuta syyskuuta lokakuuta marraskuuta joulukuuta",
    "fr": "janvier février mars avril mai juin juillet août septembre octobre novembre décembre",
    "hr": "siječnja veljače ožujka travnja svibnja lipnja srpnja kolovoza rujna listopada studenoga prosinca",
    "it": "gennaio febbraio marzo aprile maggio giugno luglio agosto settembre ottobre novembre dicembre",
    "nl": "januari februari maart april mei juni juli augustus september oktober november december",
    "no": "januar februar mars april mai juni juli august september oktober november desember",
    "pl": "stycznia lutego marca kwietnia maja czerwca lipca sierpnia września października listopada grudnia",
    "pt": "janeiro fevereiro março abril maio junho julho agosto setembro outubro novembro dezembro",
    "ro": "ianuarie februarie martie aprilie mai iunie iulie august septembrie octombrie noiembrie decembrie",
    "sk": "januára februára marca apríla mája júna júla augusta septembra októbra novembra decembra",
    "sl": "januar februar marec april maj junij julij avgust september oktober november december",
    "sv": "januari februari mars april maj juni juli augusti september oktober november december",
    "hu": "január február március április május június július augusztus szeptember október november december",
    "lt": "sausio vasario kovo balandžio gegužės birželio liepos rugpjūčio rugsėjo spalio lapkričio gruodžio",
    "lv": "janvāris februāris marts aprīlis maijs jūnijs jūlijs augusts septembris oktobris novembris decembris",
    "hi": "जनवरी फरवरी मार्च अप्रैल मई जून जुलाई अगस्त सितंबर अक्टूबर नवंबर दिसंबर",
}
ALONE = {
    "cs": "leden únor březen duben květen červen červenec srpen září říjen listopad prosinec",
    "cy": "ionawr chwefror fawrth ebrill fai fehefin ngorffennaf awst fedi hydref dachwedd ragfyr",
    "el": "ιανουάριος φεβρουάριος μάρτιος απρίλιος μάιος ιούνιος ιούλιος αύγουστος σεπτέμβριος οκτώβριος νοέμβριος δεκέμβριος",
    "fi": "tammikuu helmikuu maaliskuu huhtikuu toukokuu kesäkuu heinäkuu elokuu syyskuu lokakuu marraskuu joulukuu",
    "hr": "siječanj veljača ožujak travanj svibanj lipanj srpanj kolovoz rujan listopad studeni prosinac",
    "pl": "styczeń luty marzec kwiecień maj czerwiec lipiec sierpień wrzesień październik listopad grudzień",
    "sk": "január február marec apríl máj jún júl august september október november december",
    "lt": "sausis vasaris kovas balandis gegužė birželis liepa rugpjūtis rugsėjis spalis lapkritis gruodis",
}
# further spellings, month by month
MORE = {
    "cs": {2: ["unora"], 3: ["brezna"], 6: ["cervna"], 7: ["cervence"], 9: ["zari"], 10: ["rijna"]},
    "de": {3: ["maerz", "marz"], 1: ["jänner", "jaenner"]},
    "el": {4: ["άπρ"], 10: ["όκτ"], 11: ["νοε"]},
    "fr": {2: ["fevrier"], 8: ["aout"], 12: ["decembre"]},
    "hr": {3: ["ozujka"]},
    "nl": {3: ["mrt"]},
    "hu": {3: ["marc"], 4: ["apr"], 5: ["maj"], 6: ["jun"], 7: ["jul"]},
    "lt": {8: ["rgp", "rugp"], 9: ["rgs", "rugs"], 10: ["spl"], 12: ["grd"]},
    "lv": {6: ["jun"], 7: ["jul"]},
    "pl": {10: ["paz"]},
    "ro": {11: ["nov"]},
    "sk": {5: ["maj"], 6: ["jun"], 7: ["jul"]},
    "et": {3: ["marts"]},
    "bg": {5: ["маи"]},
}
ALONE_MORE = {"cy": {3: ["mawrth"], 5: ["mai"], 6: ["mehefin"], 7: ["gorffennaf"], 9: ["medi", "fed"], 11: ["tachwedd", "nhachwedd", "thachwedd"], 12: ["rhagfyr"]}}
# length of the usual short form
SHORT = {"cs": None, "fr": 4, "et": None, "lv": None, "hu": None, "lt": None, "cy": None, "hi": None, "hr": None, "en": 3, "bg": None, "de": 3, "el": 3, "sl": None, "da": 3, "es": 3, "fi": 3,
         "it": 3, "nl": None, "no": 3, "pl": 3, "pt": 3, "ro": 3, "sk": 3, "sv": 3}
SHORT_LIST = {"cs": "led úno bře dub kvě čvn čvc srp zář říj lis pro", "fr": "janv févr mars avr mai juin juil août sept oct nov déc", "et": "jaan veebr märts apr mai juuni juuli aug sept okt nov dets",
              "lv": "janv febr marts apr maijs jūn jūl aug sept okt nov dec", "hu": "jan feb márc ápr máj jún júl aug szept okt nov dec", "lt": "sau vas kov bal geg bir lie rugp rugs spa lap gru",
              "cy": "ion chwe maw ebr mai meh gor aws med hyd tach rhag", "hr": "sij velj ožu tra svi lip srp kol ruj lis stu pro", "bg": "ян фев мар апр май юни юли авг сеп окт ное дек",
              "el": "ιαν φεβ μαρ απρ μαΐ ιούν ιούλ αύγ σεπ οκτ νοέ δεκ",
              "sl": "jan feb mar apr maj jun jul avg sep okt nov dec", "nl": "jan feb maa apr mei jun jul aug sep okt nov dec"}
ROMAN = "I II III IV V VI VII VIII IX X XI XII".split()
DEVA = str.maketrans("0123456789", "०१२३४५६७८९")
WIDE = str.maketrans("0123456789", "０１２３４５６７８９")
ERAS = [("明治", "明", 1868, "1868-10-23", "1912-07-29"), ("大正", "大", 1912, "1912-07-30", "1926-12-24"), ("昭和", "昭", 1926, "1926-12-25", "1989-01-07"),
        ("平成", "平", 1989, "1989-01-08", "2019-04-30"), ("令和", "令", 2019, "2019-05-01", None)]
# months of the Indian national calendar: names in both scripts
SAKA = [["Chaitra", "चैत्र"], ["Vaisakha", "Vaishākha", "वैशाख", "बैसाख"], ["Jyaistha", "Jyeshtha", "ज्येष्ठ"], ["Asadha", "Āṣāḍha", "आषाढ"], ["Sravana", "Śrāvaṇa", "श्रावण", "सावन"],
        ["Bhadra", "Bhādra", "भाद्रपद", "भादो"], ["Asvina", "Āśvina", "आश्विन"], ["Kartika", "Kārtika", "कार्तिक"], ["Margasirsa", "Mārgaśīrṣa", "Agrahayana", "मार्गशीर्ष", "अगहन"],
        ["Pausa", "Pauṣa", "पौष"], ["Magha", "Māgha", "माघ"], ["Phalguna", "Phālguna", "फाल्गुन"]]


def names(lang, month, alone=False):
    """all the ways of writing the month"""
    i = month - 1
    out = []
    if alone and lang in ALONE:
        out.append(ALONE[lang].split()[i])
        if lang == "cs":
            out.append(FULL[lang].split()[i])
    else:
        out.append(FULL[lang].split()[i])
    out += (ALONE_MORE.get(lang, MORE.get(lang, {})) if alone else MORE.get(lang, {})).get(month, [])
    if lang in SHORT_LIST and not (alone and lang == "cy" and False):
        out.append(SHORT_LIST[lang].split()[i])
    elif SHORT[lang]:
        out.append(FULL[lang].split()[i][:SHORT[lang]])
    return out


def saka(y, m, d):
    """day of the Indian national calendar -> date.  The year begins on 22 March, in leap years on the 21st."""
    import datetime
    g = y + 78
    leap = g % 4 == 0 and (g % 100 != 0 or g % 400 == 0)
    start = datetime.date(g, 3, 21 if leap else 22)
    lengths = [31 if leap else 30] + [31] * 5 + [30] * 6
    if not 1 <= d <= lengths[m - 1]:
        return None
    return start + datetime.timedelta(sum(lengths[:m - 1]) + d - 1)
