"""The properties (text side).  properties.jsonl and MANIFEST.json are generated from this by mkmanifest.py."""
PROPS = []
NA = {}
NOTES = ('No hooks are needed: the checks read the source of /repo and import it; nothing in /repo is instrumented. '
         'Fixed and known defects are listed in known_findings.json.')


def prop(id, title, statement, over, text, why, files, mech, note, **kw):
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                      why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]),
                      note=note, **kw))


H = 'converter21/humdrum/'
TRUST = ('Trusted: the VC generator /verif/pyvc, z3, its models of Python built-ins; numbers treated as exact rationals. '
         'Items that left the provable subset are run as labelled bounded stand-ins and not counted as proved. ')

prop('C01', 'Humdrum rhythm text denotes one exact duration and durations print back',
     'Every Humdrum rhythm text (N, N%M, breves 0/00/000, dots, grace q, mensural letters, time signatures) denotes exactly the '
     'duration its notation defines, at any scale and regardless of what was converted before. Every positive duration prints as a '
     'text that reads back as exactly that duration, using the plain N / dotted / breve spelling where one exists.',
     ['inputs', 'histories'], 'all rhythm texts with any surrounding note text, all positive rational durations and scales, all '
     'earlier conversion histories (cache states)',
     'the value space is infinite (numerators, dots, tuplets) and the result goes through a cache filled by earlier calls; tests '
     'sample a few dozen strings each from a fresh cache',
     [H + 'convert.py'], [('recip text to duration', H + 'convert.py Convert.recipToDuration/recipToDurationNoDots'),
                          ('duration to recip text', H + 'convert.py Convert.durationToRecip'),
                          ('mensural rhythm', H + 'convert.py Convert.mensToDuration'),
                          ('time signature duration', H + 'convert.py Convert.timeSigToDuration')],
     TRUST + 'Dots and zeros are enumerated up to 5 / 4.')

prop('C02', 'Kern pitch text and numeric pitch representations agree and invert',
     'For every kern note text, the diatonic letter, accidental count, octave, base-7, base-12 (MIDI) and base-40 numbers are the '
     'ones its first note spells (rests and pitchless text give the documented sentinels). Converting a base-7 or base-40 pitch '
     'number to kern text and back returns the same pitch, and all the numeric representations agree with each other.',
     ['inputs'], 'all kern tokens of any length and all pitch numbers',
     'unbounded strings (any octave repetition, accidentals, surrounding signifiers) and all integers; tests touch a handful of '
     'pitches',
     [H + 'convert.py'], [('kern to number', H + 'convert.py Convert.kernToBase40/kernToBase7/kernToMidiNoteNumber'),
                          ('number to kern', H + 'convert.py Convert.base40ToKern/base7ToKern')],
     TRUST)

prop('C03', 'music21 pitch spelling and kern pitch text are two-way faithful',
     'Every pitch (letter, octave, any number of sharps or flats, or a natural) converts from kern text to the music21 name with '
     'the same letter, octave and alteration, and from a music21 pitch to kern text that spells exactly it; going there and back '
     'returns the same spelling.',
     ['inputs'], 'all kern pitch texts and all octaves / letters / alterations',
     'octave doubling, upper/lower case and accidental spelling interact; tests use a few notes around middle C',
     [H + 'm21convert.py', H + 'convert.py'],
     [('kern to music21 names', H + 'm21convert.py M21Convert.m21PitchName/m21PitchNameWithOctave/m21StepName'),
      ('music21 to kern', H + 'm21convert.py M21Convert.kernPitchFromM21Pitch/kernPitchFromM21OctaveAndStep')],
     TRUST)

prop('C04', 'Clef, key, meter and transposition interpretations keep their meaning',
     'Each Humdrum interpretation (*clef, *k[...], *key:, *M, *met, *ITr/*Tr transposition) yields a music21 object with exactly '
     'the meaning of its text, for standard and non-standard key signatures, all clefs with octave shift, and all diatonic/'
     'chromatic transpositions; and the text written from such an object denotes the same thing again.',
     ['inputs'], 'all supported interpretation texts / objects',
     'products of sign, line, octave, accidentals and modes; tests hold only a few literal cases',
     [H + 'm21convert.py', H + 'convert.py', H + 'humdrumtoken.py'],
     [('clefs', H + 'm21convert.py M21Convert.m21Clef/clefTokenStringFromM21Clef'),
      ('keys', H + 'm21convert.py M21Convert.m21KeySignature'), ('meters', H + 'm21convert.py M21Convert.m21TimeSignature'),
      ('transposition', H + 'convert.py Convert.transToBase40/base40ToTrans')],
     TRUST + 'music21 objects are the real ones, evaluated over the enumerated domain.')

prop('C05', 'Barlines keep style, repeat direction and fermata in both directions',
     'Every Humdrum barline text gives, on the left of the following measure and on the right of the preceding one, the music21 '
     'barline style and repeat direction it draws; two adjacent music21 barlines combine (never failing) into one Humdrum barline '
     'that loses or invents no repeat; style -> text -> barlines -> style is the identity (dashed, exported as regular, excepted). '
     'A fermata above or below a barline stays there.',
     ['inputs'], 'all barline styles, repeat kinds, measure numbers, fermatas and pairs of adjacent barlines',
     'a cross product of about 40 styles on two sides; tests cover a few',
     [H + 'm21convert.py', H + 'convert.py'],
     [('text to barline', H + 'm21convert.py M21Convert.m21BarlineFromHumdrumString'),
      ('combining', H + 'm21convert.py M21Convert.combineTwoMeasureStyles'),
      ('barline to text', H + 'convert.py Convert.measureStyleToHumdrumBarlineStyleStr')],
     TRUST + 'music21 barlines are the real ones, evaluated over the enumerated domain.')

prop('C06', 'Splitting and dotting durations loses no time',
     'Whenever a duration is split into several notatable ones (plain power-of-two notes with up to three dots), the parts add up to '
     'exactly the original, every part is notatable whenever the duration has any such decomposition, a split at a given point reaches '
     'exactly that point, a dotted duration equals its base times (2 - 2^-dots), and gaps in a voice are filled by rests of exactly '
     'the missing time, in place.',
     ['inputs'], 'all durations (dyadic and tuplet), split points and gaps',
     'an infinite family of rationals; tests do not touch the decomposition at all',
     ['converter21/shared/m21utilities.py', H + 'measuredata.py'],
     [('decomposition', 'converter21/shared/m21utilities.py M21Utilities.getPowerOfTwoQuarterLengthsWithDotsAddingTo'),
      ('split at a point', 'converter21/shared/m21utilities.py M21Utilities.getPowerOfTwoDurationsWithDotsAddingToAndCrossing'),
      ('dots', 'converter21/shared/m21utilities.py M21Utilities.computeDurationNoDotsAndNumDots'),
      ('gap rests', H + 'measuredata.py MeasureData._parseEventsIn')],
     TRUST + 'Decided over an enumerated set of about 1000 durations; gap filling through the whole exporter is a bounded stand-in.')

prop('C07', 'Token and line parameters are stored, listed and parsed faithfully',
     'The three-level parameter store returns at every address exactly the value last stored there, whatever other addresses were '
     'written or deleted, in all the equivalent ways to name an address, and lists and counts exactly the parameters of each '
     'namespace. A layout comment (!LO:NS:key=value:flag) parses into its namespaces and its parameters in order, with &colon; '
     'standing for a colon, and any text written into a layout parameter reads back as that text; it applies to exactly the next '
     'token of its spine (a global one: to every token of the next line), or to the one chord note its n=... names.',
     ['inputs', 'histories'], 'all namespaces, keys, values and parameter texts; all pairs of store operations',
     'equivalent address forms, collisions between namespaces, and separators inside values cannot be sampled exhaustively',
     [H + 'humhash.py', H + 'humparamset.py', H + 'humdrumline.py', H + 'm21convert.py', H + 'humdrumtoken.py', H + 'humdrumfilestructure.py'],
     [('store', H + 'humhash.py HumHash'), ('layout text', H + 'humparamset.py HumParamSet.readString'),
      ('line parameters', H + 'humdrumline.py HumdrumLine.setParameters'),
      ('escaping', H + 'm21convert.py M21Convert._cleanSpacesAndColons'),
      ('what it applies to', H + 'humdrumfilestructure.py HumdrumFileStructure.processLocalParametersForStrand/analyzeGlobalParameters'),
      ('chord notes', H + 'humdrumtoken.py HumdrumToken.layoutParameter')],
     TRUST + 'Stores with up to two parameters of arbitrary names.')

prop('C08', 'Humdrum lines are classified, split into tokens and rebuilt without loss',
     'The kind of every Humdrum line (comment, interpretation, barline, data, reference record, empty, global or in spines) follows '
     'from its text exactly as the format defines; key and value of a reference record are exactly the texts around its first colon; '
     'a line splits into exactly the texts between its tabs, and rebuilding it from its tokens gives the same line; inserting, '
     'appending or replacing tokens changes only those tokens; a text of many lines yields every line, in order.',
     ['inputs'], 'all line texts, reference keys and values, token lists and edits of one line',
     'any Unicode text may follow the leading characters; tests hold a few literal lines',
     [H + 'humdrumline.py', H + 'humdrumfilebase.py'],
     [('line kinds and reference records', H + 'humdrumline.py HumdrumLine.isReference/referenceKey/referenceValue'),
      ('tokens', H + 'humdrumline.py HumdrumLine.createTokensFromLine/createLineFromTokens'),
      ('records of a file', H + 'humdrumfilebase.py HumdrumFileBase.readString')],
     TRUST + 'Lines of up to three tokens of arbitrary text.')

prop('C09', 'Every token query tells what the token text and spine say, also after edits',
     'Each predicate or attribute of a Humdrum token (its kind, spine manipulators, nulls, notes, rests, grace and invisible notes, '
     'ties, slurs, stems, elision levels, dots, subtokens, instrument names, staff/part/group numbers, barline numbers, tempo, staff '
     'lines, scale) is exactly what its text and the exclusive interpretation of its spine define, and stays so after the text, a '
     'subtoken, the line or the track is changed, whatever was asked before.',
     ['inputs', 'histories'], 'all token texts in all spine types; all orders of asking and changing',
     'answers are cached on first use and texts are unbounded; tests ask fresh tokens about a few texts',
     [H + 'humdrumtoken.py', H + 'convert.py'],
     [('kinds and caches', H + 'humdrumtoken.py HumdrumToken._clearCachedTokenTextProperties/_clearCachedDataTypeProperties'),
      ('notes and rests', H + 'convert.py Convert.isKernNote/isKernRest/isMensNote/isMensRest'),
      ('elision', H + 'convert.py Convert._getElisionLevelWorker'),
      ('tempo', H + 'humdrumtoken.py HumdrumToken.tempoBPM/tempoName')],
     TRUST + 'Histories: one or all predicates asked before one change.')

prop('C10', 'Spine manipulators and links place every token in its right track',
     'Splitting, merging, exchanging, adding and ending spines (*^ *v *x *+ *-) gives every later field the spine type and the track '
     'its spine has, restores the label of a split once its parts are merged (in any order), numbers the subtracks from left to '
     'right, links every token to exactly the tokens of the next line its spine continues in (and back), lets a null token stand '
     'only for data of its own strand, and refuses malformed manipulator lines with a parse error.',
     ['inputs', 'histories'], 'all manipulator lines over spines of arbitrary types; all sequences of such lines in a file',
     'the combinations of manipulators over several spines, line after line, are far more than the sample files hold',
     [H + 'humdrumfilebase.py', H + 'humdrumfilestructure.py', H + 'humdrumline.py', H + 'humdrumtoken.py'],
     [('types and labels', H + 'humdrumfilebase.py HumdrumFileBase.adjustSpines/getMergedSpineInfo'),
      ('links', H + 'humdrumfilebase.py HumdrumFileBase.stitchLinesTogether'),
      ('tracks', H + 'humdrumline.py HumdrumLine.analyzeTracks'),
      ('null tokens', H + 'humdrumfilestructure.py HumdrumFileStructure.resolveNullTokens')],
     TRUST + 'Manipulator lines of up to four spines; whole files of several manipulator lines are a bounded stand-in.')

prop('C11', 'Every line and token of a Humdrum file has its exact place and length in time',
     'In every rhythmically consistent file each line starts when the notes before it in its spines have ended, null and non-data '
     'lines are placed between their neighbours, each line lasts until the next, and the time since the last barline, to the next '
     'barline and to the end follow exactly, in exact fractions, also across splits, merges, grace notes, tuplets, added spines and '
     '**recip spines; data without rhythm lasts until the next of its spine; parts that disagree about the time of a line are '
     'refused with a parse error.',
     ['inputs', 'histories'], 'all durations of the notes; all arrangements of data, null, barline and comment lines',
     'durations are arbitrary rationals and times are accumulated over the whole file; tests compare a few files',
     [H + 'humdrumfilestructure.py', H + 'humdrumline.py', H + 'humdrumtoken.py'],
     [('note by note', H + 'humdrumfilestructure.py HumdrumFileStructure.prepareDurations/setLineDurationFromStart'),
      ('null lines', H + 'humdrumfilestructure.py HumdrumFileStructure.analyzeNullLineRhythms/fillInMissingStartTimes'),
      ('barlines', H + 'humdrumfilestructure.py HumdrumFileStructure.analyzeMeter'),
      ('tokens without rhythm', H + 'humdrumfilestructure.py HumdrumFileStructure.assignDurationsToNonRhythmicTrack')],
     TRUST + 'Arbitrary durations over files of up to nine lines; longer files are a bounded stand-in.')

M = 'converter21/mei/'
prop('C12', 'MEI attribute values and music21 objects translate both ways without loss',
     'Every MEI note value (with dots and gestural values), accidental (written or gestural), staff location, clef (with octave '
     'displacement), key signature, meter, transposition, barline and repeat, articulation, tie, font style and time stamp stands for '
     'exactly the music21 object it names, and what the exporter writes for a music21 object reads back as the same object; MEI has '
     'no value for ticks, short and heavy-light barlines, which become plain ones.',
     ['inputs'], 'all values of these attributes and all music21 objects of these classes',
     'two large tables and parsers, written separately, must be each other\'s inverse over the whole domain; tests read a few values '
     'in one direction',
     [M + 'm21objectconvert.py', M + 'meireader.py', 'converter21/shared/m21utilities.py'],
     [('durations', M + 'm21objectconvert.py m21DurationToMeiDurDotsGrace, meireader.py durationFromAttributes'),
      ('accidentals', M + 'm21objectconvert.py m21AccidToMeiAccid, meireader.py _accidentalFromAttr/_accidGesFromAttr'),
      ('clefs, keys, meters', M + 'm21objectconvert.py m21ClefToMei/m21KeySigToMei/m21TimeSigToMei, meireader.py '
       '_clefFromElement/_keySigFromElement/timeSigFromElement'),
      ('barlines', M + 'm21objectconvert.py m21BarlinesToMeiMeasureBarlineAttr, meireader.py _makeBarlines'),
      ('time stamps', M + 'm21objectconvert.py _offsetToBeat, meireader.py tstampStrToOffsetQL/_beatToOffset')],
     TRUST + 'music21 objects are real ones over enumerated domains; the decimal text of time stamps is a bounded stand-in.')

prop('C13', 'Metadata keep their key, language, text and dates through reference records',
     'A date, whatever of its parts are known, however certain they are and whether single, relative, between or alternative, is '
     'written as Humdrum text, as ISO and as EDTF text that reads back as the same date (ISO and EDTF as far as they can express '
     'it); a text that is no date is kept as text and raises no error. A reference record is read as its key, number, language and '
     'text, a metadata item is written as the record of its key with its number, language and text, and reading a file and writing '
     'it keeps every record and makes up none.',
     ['inputs'], 'all dates with all combinations of parts and certainty; all keys, numbers, languages and texts; sets of records',
     'dates combine optional parts, certainty and kinds in far more ways than tests hold, and parser and writer are separate code',
     ['converter21/shared/m21utilities.py', H + 'm21convert.py', H + 'humdrumfile.py', H + 'humdrumwriter.py'],
     [('Humdrum dates', 'converter21/shared/m21utilities.py M21Utilities._stringFromDate/_dateFromString/m21DatePrimitiveFromString'),
      ('ISO and EDTF', 'converter21/shared/m21utilities.py M21Utilities.isoDateFromM21DatePrimitive/m21DatePrimitiveFromIsoDate'),
      ('records read', H + 'humdrumfile.py HumdrumFile._parseReferenceItem/_createScoreMetadata'),
      ('records written', H + 'm21convert.py M21Convert.m21MetadataItemToHumdrumReferenceLineStr')],
     TRUST + 'Whole files of records are a bounded stand-in; texts of dates are normalised (1/2 becomes 1/02).')

prop('C14', 'Chord symbols keep root, bass and notes through Harte, **mxhm and text',
     'A chord symbol of any kind, on any root, over any bass and with degrees added, omitted or altered is written as the Harte text '
     'that names exactly its degrees, and a Harte text reads as the chord of exactly the degrees and bass it names; chords of any '
     'kind, root and bass likewise survive **mxhm text and the printable text used by MEI (the printable text of a diminished minor '
     'ninth is ambiguous), and simplifying a chord symbol never changes which notes it has. A text that is no chord gives none.',
     ['inputs'], 'all chord kinds, roots, basses, added, omitted and altered degrees; all Harte shorthands',
     'kinds, roots, basses and modifications multiply, and five tables and parsers must agree; tests read a few symbols',
     ['converter21/shared/m21utilities.py', H + 'm21convert.py'],
     [('Harte', 'converter21/shared/m21utilities.py M21Utilities.makeHarteFromChordSymbol/makeChordSymbolFromHarte'),
      ('**mxhm', H + 'm21convert.py M21Convert.m21ChordSymToHarmonyText/getM21ChordSymFromHarmonyText'),
      ('printable text', 'converter21/shared/m21utilities.py M21Utilities.convertChordSymbolToText/'
       'convertChordSymbolFigureToPrintableText/convertPrintableTextToChordSymbolFigure'),
      ('simplification', 'converter21/shared/m21utilities.py M21Utilities.simplifyChordSymbol')],
     TRUST + 'music21 chord symbols are real ones over enumerated domains; arbitrary Harte texts are a bounded stand-in.')

prop('C15', 'Marks on notes stay on their note and keep their kind and placement',
     'Articulations, fermatas, trills, mordents and turns, ties and slurs, beams, stems, tremolos and grace notes on a note are written '
     'as the Humdrum signs for exactly that kind, interval size, delay and placement, and those signs on a note read as exactly these '
     'marks, whatever else is in the token; so reading and writing a file keeps every mark on its note, every beam level and hook, '
     'and the two ends of every tie and every properly nested slur.',
     ['inputs'], 'all combinations of marks, placements, chords and sequences of notes',
     'marks share characters and are told apart by neighbours in one token; their combinations multiply; tests hold few of them',
     [H + 'm21convert.py', H + 'humdrumfile.py', H + 'humdrumfilecontent.py'],
     [('articulations', H + 'm21convert.py M21Convert.m21Articulations/_getHumdrumStringFromM21Articulations'),
      ('fermatas, ornaments, tremolos', H + 'm21convert.py M21Convert._getHumdrumStringAndLayoutsFromM21Expressions, ' + H
       + 'humdrumfile.py HumdrumFile._addFermata/_addTrill/_addMordent/_addTurn'),
      ('ties, stems, beams, grace notes', H + 'm21convert.py M21Convert._getTieStartStopAndLayoutsFromM21GeneralNote/'
       '_getHumdrumBeamStringFromM21Beams/kernGraceTypeFromM21Duration')],
     TRUST + 'music21 objects are real ones over enumerated domains; whole files (reading of ornaments, slurs, beams) are bounded '
     'stand-ins. Not claimed: crossing slurs, placement of trills, turns inside chords, the direction of a hook in mid-beam.')

prop('C16', 'Every note of a score keeps its part, voice, measure and time in conversion',
     'Converting a score between Humdrum, MEI and music21, in either direction, keeps every note, chord, rest and grace note with its '
     'pitches, duration, ties, part, voice, measure and offset, and every clef, key and time signature, barline and measure number; '
     'voices and parts that come and go are split and joined so that the written Humdrum file is well formed and each note stands '
     'in the spine of its part, its voice and its time, and interpretations stand before the notes of their time.',
     ['inputs'], 'all scores: parts, voices, measures, notes and times',
     'it takes every stage of reading and writing together, for any mix of voices, rhythms and measures; tests read a few files',
     [H + 'humgrid.py', H + 'gridmeasure.py', H + 'gridslice.py', H + 'humdrumwriter.py', H + 'humdrumfile.py',
      'converter21/mei/meireader.py', 'converter21/mei/meiscore.py'],
     [('the grid in time order', H + 'gridmeasure.py GridMeasure.addDataToken/addTokenOfSliceType/addGraceToken'),
      ('spines split and joined', H + 'humgrid.py HumGrid.transferTokens/manipulatorCheck'),
      ('lines', H + 'gridslice.py GridSlice.transferTokens, ' + H + 'gridmeasure.py GridMeasure.transferTokens'),
      ('MEI', 'converter21/mei/meireader.py MeiReader.run, converter21/mei/meiscore.py MeiScore.annotateTies')],
     TRUST + 'The grid lemmas are for all times and token texts; measures have up to three voices in two parts. Whole scores in each '
     'direction are bounded stand-ins over random scores of up to three parts.')

prop('C17', 'Lyrics, dynamics, hairpins, texts and tempo marks keep their words and place',
     'Every syllable keeps its text, its place in the word, its verse number and verse label on its note; every dynamic keeps its '
     'letters, the words and brackets around them and its placement; every hairpin keeps its kind and the notes it starts and ends at; every '
     'text keeps its words and placement; every metronome mark keeps its note value, dots and number: when read from Humdrum text, '
     'written as Humdrum or MEI, and read again, in any part and whatever else stands at the same time.',
     ['inputs'], 'all songs: syllables, verses, dynamics, hairpins, texts, tempo marks and their combinations',
     'words, separators and dynamic letters are told apart by spaces, hyphens and case in free text; their combinations multiply',
     [H + 'humdrumwriter.py', H + 'humdrumfile.py', H + 'm21convert.py', H + 'humdrumtoken.py', 'converter21/mei/meireader.py'],
     [('lyrics', H + 'humdrumwriter.py HumdrumWriter._addLyrics, ' + H + 'humdrumfile.py HumdrumFile._convertVerses'),
      ('dynamics and hairpins', H + 'm21convert.py M21Convert.getDynamicString/getDynamicWedgeString, ' + H
       + 'humdrumfile.py HumdrumFile._processDynamics'),
      ('tempo', H + 'm21convert.py M21Convert.durationFromHumdrumTempoNoteName/getMMTokenAndTempoTextFromM21TempoIndication')],
     TRUST + 'music21 objects are real ones over enumerated domains; whole songs are bounded stand-ins. Not claimed: the words of a tempo '
     'mark in mid-measure, dynamics inside a hairpin (they end it), placements left open.')

prop('C18', 'Malformed Humdrum is refused or repaired and counted, never misread',
     'A text whose lines do not fit its spines (fields missing or too many, data before the spines have types, no types at all, a '
     'manipulator without its partner, spines that disagree about the time of a line) is refused with an error and an empty score; '
     'with acceptSyntaxErrors it is read as lines that do fit, in which every field that had a place keeps its text, and the number '
     'of repairs is reported; a well-formed file is read the same in both ways and counts no repair.',
     ['inputs'], 'all texts: any number of fields, lines, kinds of fields and manipulators',
     'there are endless ways to break a file, and each has to be noticed by one of several checks; the tests read well-formed files',
     [H + 'humdrumfilebase.py', H + 'humdrumfilestructure.py', 'converter21/HumdrumConverter.py'],
     [('spines', H + 'humdrumfilebase.py HumdrumFileBase.analyzeSpines/adjustSpines'),
      ('links', H + 'humdrumfilebase.py HumdrumFileBase.stitchLinesTogether/analyzeLinks'),
      ('repairs', H + 'humdrumfilebase.py HumdrumFileBase.fixLinesWithMismatchedTokens/analyzeSpines'),
      ('times', H + 'humdrumfilestructure.py HumdrumFileStructure.setLineDurationFromStart')],
     TRUST + 'Files of up to five spines and six lines in the lemmas; random broken files are bounded stand-ins. Not claimed: fields of '
     'another kind than their line when reading strictly; lines that go back in time though no two spines of a line disagree; the repair '
     'of spines without a type and of a manipulator without its partner.')

prop('C19', 'Parts keep their order, names and groups',
     'The staves of a score come out of a conversion in the same order from top to bottom, each with its own notes and name, and every '
     'group of staves (brace, bracket, square bracket or shared barlines, nested in any way) holds exactly the staves it held: in the '
     'system decoration and instrument names of Humdrum, and in the staffGrp and staffDef elements of MEI, however the staves are numbered.',
     ['inputs'], 'all scores of any number of parts and all nestings of groups, in any order of the group objects',
     'each side re-derives the nesting from sets of staves or from text, so what matters is the combination of nesting, order and '
     'numbering, of which the tests hold a few',
     [H + 'humdrumwriter.py', H + 'humdrumfile.py', 'converter21/mei/meireader.py', 'converter21/mei/meiscore.py', 'converter21/shared/m21utilities.py'],
     [('nesting', 'converter21/shared/m21utilities.py M21Utilities.getStaffGroupTrees'),
      ('decoration written', H + 'humdrumwriter.py HumdrumWriter._getSystemDecoration'),
      ('decoration read', H + 'humdrumfile.py HumdrumFile._processSystemDecoration'),
      ('MEI read', 'converter21/mei/meireader.py MeiReader.processStaffGroupDescriptionTree'),
      ('MEI written', 'converter21/mei/meiscore.py MeiScore.makeScoreDefElement')],
     TRUST + 'The lemmas cover all nestings of two to four staves up to depth two and some of up to eleven staves and depth four; others are '
     'bounded stand-ins. Not claimed: part names in written MEI (none are written); the abbreviation of the only part of a score; groups '
     'drawn as a line in Humdrum (it has no sign for them); groups of Humdrum files without a system decoration (a default is made).')

prop('C20', 'MEI ids are unique and every reference names the element that is meant',
     'In every MEI file that is written the xml:ids are valid and unique, and every reference (startid, endid, plist, sameas) is to an '
     'element of that file, the one the line, bracket or sign is attached to; an id that was given is kept. When an MEI file is read, a '
     'reference reaches exactly the elements it names, with or without the hash sign.',
     ['inputs', 'histories'], 'all scores with any voices, chords and lines; all numbers and texts as ids; all lists of references',
     'ids come from memory locations and voice numbers, so whether two collide depends on the run and the score; tests compare '
     'structure without looking up references',
     ['converter21/shared/m21utilities.py', 'converter21/mei/m21objectconvert.py', 'converter21/mei/meireader.py'],
     [('ids', 'converter21/shared/m21utilities.py M21Utilities.assureXmlId/makeXmlIdFrom'),
      ('references written', 'converter21/mei/m21objectconvert.py M21ObjectConvert.postStavesSpannerToMei/convertM21ObjectToMeiSameAs'),
      ('references read', 'converter21/mei/meireader.py MeiReader._ppTuplets/_ppBeams/_ppArpeggios/_clefFromElement')],
     TRUST + 'Scores of up to two parts, two bars and three voices, lines over up to four notes and chosen numbers in the lemmas; whole '
     'random files and random numbers are bounded stand-ins. Not claimed: ids that the user gave twice; references in the header.')
prop('C21', 'Writing a score leaves it as it was, and writing it again says the same',
     'Writing a score as Humdrum or as MEI changes nothing in it: elements, times, pitches, ties, beams, tuplets, words, signs, lines, '
     'styles and names are what they were, and no note-to-self of the writer is left on any element. Writing the same score again '
     'therefore gives the same file (but for dates of writing and the names of ids).',
     ['inputs', 'histories'], 'all scores, any number of times, in any order of formats',
     'whether something is left behind depends on which of many kinds of elements the score has; tests write each score once and '
     'throw it away',
     ['converter21/humdrum/humdrumwriter.py', 'converter21/mei/meiwriter.py', 'converter21/mei/meiscore.py'],
     [('Humdrum', 'converter21/humdrum/humdrumwriter.py HumdrumWriter.write'),
      ('MEI', 'converter21/mei/meiwriter.py MeiWriter.write'),
      ('notes-to-self', 'converter21/mei/meiscore.py MeiScore.annotateScore/deannotateScore')],
     TRUST + 'Twenty kinds of small scores in the lemmas, written with makeNotation=False (with True music21 makes the copy); random '
     'whole scores, both settings and both formats in turn are a bounded stand-in. Not claimed: notes between the ends of an octave line '
     'may be filled in; hidden rests with unprintable durations are split in the given score on purpose; ids that the user set as '
     'xml_id attributes are removed after writing MEI.')
