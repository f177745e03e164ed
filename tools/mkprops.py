import json
P=[]
def p(id,title,st,over,qt,why,files,mech,state=None,obs=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    a["hook_needed"]=None
    assert len(title)<=80,title
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a})
HG="hangul.go";JM="jamo.go";ST="stroke.go";CN="constant.go"
CP="encoding/cp949/cp949.go";PU="encoding/cp949/public.go";EN="encoding/cp949/encoding.go"
LF="encoding/cp949/lookup_from.go";LT="encoding/cp949/lookup_to.go";HJ="hanja/hanja.go";HT="hanja/table.go"
p("H01","Splitting a syllable is its canonical decomposition and joining restores it",
 "For every precomposed Hangul syllable (U+AC00..U+D7A3) Split returns exactly its Unicode canonical decomposition: a conjoining lead consonant, a conjoining vowel, and a conjoining tail consonant or 0 if it has none. SplitCompat returns the same three as compatibility jamo (0 for no tail). Joining either triple with Join gives back the same syllable.",
 ["inputs"],"all 11172 precomposed syllables",
 "The tests split six syllables and join four; the index arithmetic has 11172 outcomes and every boundary (no tail, last tail, last vowel) is a separate case.",
 [HG,JM,CN],[("Split",HG),("SplitCompat",HG),("Join",HG),("leadIdx/medialIdx/tailIdx",JM)],obs=["Split","SplitCompat","Join"])
p("H02","Join composes exactly the valid jamo triples and rejects all others",
 "For every three runes, Join returns a precomposed syllable exactly if the first is a lead consonant, the second a vowel and the third a tail consonant or 0, each given as a modern conjoining jamo or as the compatibility jamo that converts to one; the syllable is then the one whose canonical decomposition is that triple. For every other triple it returns U+FFFD, never another character.",
 ["inputs"],"all triples of 32-bit runes, negative and non-Unicode values included",
 "Four valid triples are tested and no invalid one; the domain is 2^96.",
 [HG,JM,CN],[("Join",HG),("Lead",JM),("Medial",JM),("Tail",JM),("leadIdx/medialIdx/tailIdx",JM)],obs=["Join"])
p("H03","The jamo and Hangul classification predicates are exact for every rune",
 "For every rune: IsLead holds exactly for U+1100..U+1112, IsMedial for U+1161..U+1175, IsTail for U+11A8..U+11C2; IsJaeum exactly for U+3131..U+314E, leads and tails; IsMoeum exactly for U+314F..U+3163 and medials. IsHangul holds exactly for the syllables U+AC00..U+D7A3 and the runes for which IsJaeum or IsMoeum holds.",
 ["inputs"],"all 2^32 rune values",
 "No test calls any of the predicates; an off-by-one at either end of one of eight ranges is invisible.",
 [HG,JM,CN],[("IsHangul",HG),("IsLead/IsMedial/IsTail",JM),("IsJaeum/IsMoeum",JM)],obs=["IsHangul","IsJaeum","IsMoeum","IsLead","IsMedial","IsTail"])
p("H04","Conversions between conjoining and compatibility jamo are exact inverses",
 "CompatJamo maps each of the 67 modern conjoining jamo to the compatibility jamo of the same letter, leaves the 51 modern compatibility jamo unchanged, and returns 0 for every other rune. Lead, Medial and Tail map a compatibility jamo to the conjoining lead, vowel or tail of the same letter where there is one, leave conjoining jamo of their own kind unchanged, and return 0 for every other rune. So converting any modern jamo to a compatibility jamo and back to its own kind gives the same jamo.",
 ["inputs"],"all 2^32 rune values, for each of the four conversions",
 "Four of the 67 conversions are tested in one direction, none in the other; one wrong or missing table entry stays unseen.",
 [JM,CN],[("CompatJamo",JM),("Lead",JM),("Medial",JM),("Tail",JM)],
 state=[("toCompatJamo, toLead, toTail","letter correspondence tables",JM)],obs=["CompatJamo","Lead","Medial","Tail"])
p("H05","Composite jamo split into their single letters, nothing else does",
 "SplitMultiElement splits exactly the 16 doubled or clustered consonants and the 11 composite vowels, given as compatibility or conjoining jamo, into their single letters in writing order as compatibility jamo (two or three of them, none of which can be split further); for every other rune it returns an empty result and false. The answer does not depend on what callers did with slices returned earlier.",
 ["inputs","histories"],"all 2^32 rune values; any caller use of earlier results",
 "One composite and one simple jamo are tested, and never after a caller changed a returned slice.",
 [JM],[("SplitMultiElement",JM)],state=[("multiElements","element lists",JM)],obs=["SplitMultiElement"])
p("H06","Stroke counts are additive over letters and syllables",
 "Each of the 24 single letters has its conventional stroke count (the basic table: \u3131 1, \u3134 1, \u3137 2, \u3139 3, \u3141 3, \u3142 4, \u3145 2, \u3147 1, \u3148 3, \u314a 4, \u314b 2, \u314c 3, \u314d 4, \u314e 3, \u314f 2, \u3151 3, \u3153 2, \u3155 3, \u3157 2, \u315b 3, \u315c 2, \u3160 3, \u3161 1, \u3163 1); Stroke of a composite jamo is the sum over its single letters, the same for every form (lead, tail, vowel, compatibility) of a letter. Stroke of a syllable is the sum over its jamo, and Stroke of any other rune is 0.",
 ["inputs"],"all 2^32 rune values",
 "Nine values are tested out of 11172 syllables and 118 jamo; a wrong count of one letter or element shows up only in the syllables which contain it.",
 [ST,JM,HG],[("Stroke",ST),("SplitMultiElement",JM),("Split",HG)],state=[("strokes","counts of the single letters",ST)],obs=["Stroke"])
p("H07","The final consonant of a word is that of its last syllable, or none",
 "For every string, LastConsonant returns the conjoining tail consonant of the last character if that is a precomposed syllable which has one, and 0 in every other case (empty string, a last character without a tail, or one which is not a precomposed syllable). EndsWithConsonant is true exactly if LastConsonant is not 0. What precedes the last character does not matter.",
 ["inputs"],"all byte strings, valid UTF-8 or not",
 "Five words are tested, none of which ends in anything but a syllable.",
 [HG],[("LastConsonant",HG),("EndsWithConsonant",HG),("Split",HG)],obs=["LastConsonant","EndsWithConsonant"])
p("H08","A postposition is chosen by the final consonant, with the \u3139 exception",
 "For all strings, AppendPostposition returns the word followed by exactly one of the two given forms, otherwise unchanged: the first (with) if the word has a final consonant by LastConsonant, the second (without) if it has none. The only exception: if the first form is exactly \"\uc73c\ub85c\" and the final consonant is \u3139, it is the second.",
 ["inputs"],"all triples of strings",
 "Nine triples are tested; the exception must neither leak to other particles or finals nor miss its case.",
 [HG],[("AppendPostposition",HG),("LastConsonant",HG)],obs=["AppendPostposition"])
p("H09","Every exported jamo constant is the Unicode code point of its letter",
 "Each of the 52 exported compatibility jamo constants (NG = ZS included), 19 lead, 21 medial and 27 tail constants has the value of the Unicode character that its name and comment denote.",
 ["configurations"],"all 119 exported constants",
 "The constants come from iota sequences of which only the five last values are tested; swapping two neighbours shifts nothing else.",
 [CN],[("iota blocks",CN)],obs=["the package's constants"])
p("C01","Decoding CP949 is total, character by character, by the standard mapping",
 "For every byte sequence, From reads bytes 0x00..0x7F as ASCII and every other byte together with the one after it as a double-byte code, and its output is the concatenation, in order, of the UTF-8 forms of the characters that standard CP949 (Microsoft code page 949) assigns, U+FFFD standing for each unassigned code. It fails exactly if the sequence ends within a double-byte character, with ErrCP949UnexpectedStream and no output.",
 ["inputs"],"all finite byte sequences",
 "Four texts and one truncated byte are tested: about 120 of 17048 codes, no unassigned one.",
 [CP,PU,LF],[("From",PU),("translateFromCp949.Translate",CP),("appendRune/ensureCap",CP)],state=[("fromTable","CP949 to Unicode, sorted for binary search",LF)],obs=["From"])
p("C02","Encoding to CP949 is total, one code or one '?' per character",
 "For every byte sequence, To succeeds and its output is the concatenation, in order, of one item per UTF-8 character: the byte itself for ASCII, the two bytes standard CP949 assigns, or a single '?' for a character CP949 does not have (all characters outside the BMP among them). Each byte that is not part of a valid UTF-8 character counts as one such character.",
 ["inputs"],"all finite byte sequences, valid UTF-8 or not",
 "The four tested texts have only characters which CP949 has; unmappable, non-BMP and invalid input is never tried.",
 [CP,PU,LT],[("To",PU),("translateToCp949.Translate",CP)],state=[("toTable","Unicode to CP949, sorted for binary search",LT)],obs=["To"])
p("C03","CP949 conversion is lossless for everything that CP949 can represent",
 "For every valid UTF-8 text whose characters all exist in CP949, decoding its encoding gives back the same bytes. For every sequence of ASCII bytes and assigned double-byte codes, encoding its decoding gives back the same bytes.",
 ["inputs"],"all texts over the 17176 representable characters, of any length",
 "The four test texts are checked in both directions; the guarantee is about every text and every code.",
 [CP,PU,LF,LT],[("From",PU),("To",PU)],state=[("fromTable, toTable","two inverse tables",LF+", "+LT)],obs=["From","To"])
p("C04","Reading CP949 through NewReader does not depend on how the data arrives",
 "For every source, however it splits the data over its reads, and whatever the sizes of the caller's buffers, the bytes a NewReader reader has returned are always a prefix of the decoding (as by From) of the complete characters the source has delivered, without loss, duplication or change; when Read reports io.EOF, or the source's own error, all of them have been returned. If the source ends inside a character, the complete ones are returned and the final error is ErrCP949UnexpectedStream.",
 ["inputs","histories"],"all byte sequences, all splits into source reads (empty ones, data together with an error included), all sequences of caller buffer sizes",
 "No test uses NewReader at all.",
 [PU,CP],[("NewReader",PU),("cp949Reader.Read",PU),("translateFromCp949.Translate",CP)],
 state=[("cdata","decoded, not yet returned",PU),("rdata","read, not yet decoded",PU),("err","final error",PU)],obs=["NewReader","Read"])
p("C05","Writing through NewWriter does not depend on how the text is split",
 "For every sequence of Write calls on a NewWriter writer, the bytes passed to the destination are always the encoding (as by To) of everything written so far, without loss, duplication or change, except for an incomplete UTF-8 character at the very end (at most three bytes), which is held back until it is completed. A successful Write reports the full length of its data; an error of the destination is returned with a count of 0.",
 ["inputs","histories"],"all byte sequences and all ways of splitting them over Write calls",
 "No test uses NewWriter at all.",
 [PU,CP],[("NewWriter",PU),("cp949Writer.Write",PU),("translateToCp949.Translate",CP)],state=[("buf","bytes of an incomplete character",PU)],obs=["NewWriter","Write"])
p("C06","The x/text Decoder and Encoder honour the Transformer contract",
 "For every destination and source buffer and either value of atEOF, Transform of the decoder and of the encoder reports counts within the two buffers, consumes whole characters only, and the destination holds exactly the conversion (as by From and To) of the bytes reported as consumed. A nil error means everything was consumed; ErrShortDst is reported exactly if the next character does not fit, ErrShortSrc only if the remaining source is an incomplete character and atEOF is false, and any other error only from the decoder for a truncated character at the end. So converting through any sequence of buffers gives the same text as From and To.",
 ["inputs","histories"],"all sources, all destination sizes, both values of atEOF, all ways of resuming",
 "The tests convert four short texts through 4096-byte buffers: no buffer ever runs short.",
 [EN,PU],[("cp949Decoder.Transform",EN),("cp949Encoder.Transform",EN),("NewDecoder/NewEncoder",EN)],obs=["NewDecoder().Transform","NewEncoder().Transform"])
p("C07","The mapping tables are the standard CP949 repertoire and mutually inverse",
 "The double-byte codes which From assigns and the characters to which To gives a double-byte code are exactly the 17048 pairs of standard CP949, one to one in both directions. In particular every one of the 11172 precomposed syllables can be encoded and decodes to itself, and no assigned code is unreachable by lookup.",
 ["inputs"],"all 65536 two-byte codes and all runes",
 "The tests check that the tables are sorted, not what they contain or that lookups find it.",
 [LF,LT,CP],[("sort.Search over the tables",CP)],state=[("fromTable, toTable","17048 pairs each",LF+", "+LT)],obs=["From","To"])
p("J01","Hanja conversion replaces hanja by their readings and nothing else",
 "For every string, Convert returns a string with the same number of characters in which each character for which IsHanja holds is replaced by its single-syllable Hangul reading and every other one is unchanged (a byte which is not valid UTF-8 counts as the character U+FFFD). A character's reading does not depend on its neighbours, the result contains no character for which IsHanja holds, and converting it again changes nothing.",
 ["inputs"],"all byte strings, valid UTF-8 or not",
 "One sentence is tested; position handling, repetition and foreign text are not.",
 [HJ,HT],[("Convert",HJ),("IsHanja",HJ)],state=[("table","hanja to reading",HT)],obs=["Convert","IsHanja"])
p("J02","The hanja dictionary is complete and each entry is a well-formed reading",
 "IsHanja holds exactly for the 27496 ideographs of the published dictionary (all within U+3400..U+4DBF, U+4E00..U+9FFF and U+F900..U+FAFF), and Convert maps each of them to the reading published for it, always one precomposed Hangul syllable. No Hangul, Latin or other non-ideographic character is ever taken for a hanja.",
 ["inputs"],"all 2^32 rune values",
 "The test looks up eight of 27496 entries and no character outside the dictionary.",
 [HT,HJ],[("table lookup",HJ)],state=[("table","hanja to reading",HT)],obs=["IsHanja","Convert"])
p("X01","No input makes an operation of these packages panic or loop forever",
 "Every exported function and method of the three packages returns normally for every argument: no out-of-range index or slice, nil dereference, division by zero or failed type assertion, and no endless loop. This includes invalid runes, invalid UTF-8, truncated or unassigned CP949 codes, nil and empty slices, buffers of any length, and streams of any shape over readers and writers that keep their own contracts.",
 ["inputs","histories"],"all arguments of all exported functions, and all call sequences of the streaming types",
 "Tests run on well-formed Korean text of a few dozen bytes.",
 [HG,JM,ST,CP,PU,EN,HJ],[("index guards, binary search bounds, buffer growth","every function"),("ensureCap growth loop",CP)],obs=["all exported functions"])
p("X02","Conversions leave inputs and package state alone and return fresh memory",
 "No exported operation modifies the bytes or runes its caller passed as input (except the destination buffer of Read and Transform, within its length), nor any package-level table or variable after initialisation. Slices returned by From, To and SplitMultiElement are not shared with the package, with the input or with any other result, so a result depends on the arguments alone, whatever was called before or concurrently, and later calls do not change results already returned.",
 ["inputs","histories","schedules"],"all arguments, all earlier calls and all interleavings with other calls (absence of shared writes)",
 "Each test calls a function and compares at once; none looks at the input afterwards, keeps results across calls or modifies them.",
 [HG,JM,ST,CP,PU,EN,HJ],[("fresh translator per conversion",CP),("read-only tables","all packages"),("copy of the element list",JM)],obs=["From","To","SplitMultiElement","Convert","Read","Write","Transform"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+'\n')
try:
    import jsonschema
    sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for x in P: jsonschema.validate(x,sch)
    print('valid',len(P))
except ImportError: print('nojs')
for x in P:
    import re
    n=len(re.findall(r'[.!?](?: |$)',x['statement'])); print(x['id'],n) if n>3 else 0
