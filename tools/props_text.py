AI = 'partitioned constant-propagation abstract interpretation of writer composed with reader over finite vocabularies'
AI_NOTE = ('Decides, from the source, the spelling functions over the listed finite vocabulary (each member is one partition; '
           'anything the interpreter cannot determine is reported as undecided, never as a violation). Assumes the models of '
           'music21 objects in props/; does not decide whole-score conversion.')
PROPS = [
 dict(id='C01', title='Humdrum pitch and rhythm spelling is exact in both directions',
  statement='Every note written to Humdrum carries a pitch token that spells exactly its step, octave and alteration and a rhythm token that denotes exactly its duration (dots, tuplets, grace notes and differing visual durations included). Reading a Humdrum pitch or rhythm token gives exactly the pitch and duration that token denotes, whatever other signs surround it. The base-40, base-7 and MIDI numbers of a pitch, the bottom-line pitch of a clef and the note value of a metronome mark obey the same definitions.',
  quant='all steps, octaves, alterations, displayed accidentals, note types, dots, tuplet ratios, rational rhythms and surrounding signs',
  why='The tests parse a few tokens (c, 4c, 8.) and never write notes; the vocabulary has thousands of members and the writer and the reader are separate hand-written tables.',
  files=['converter21/humdrum/m21convert.py', 'converter21/humdrum/convert.py', 'converter21/shared/m21utilities.py'],
  mech=[('pitch writer and reader', 'M21Convert.kernPitchFromM21Pitch / m21PitchName*'), ('rhythm writer and reader', 'M21Convert.kernRecipFromM21Duration, Convert.recipToDuration, Convert.durationToRecip'), ('base-40/base-7/MIDI', 'Convert.kernToBase40, base40ToKern, kernToMidiNoteNumber')],
  technique=AI, note=AI_NOTE),
 dict(id='C02', title='Humdrum signatures, clefs, transpositions and barlines survive a round trip',
  statement='Every key signature, key, clef, time signature (with its common or cut symbol), instrument transposition, staff group symbol and barline (style, repeat direction, measure number, fermata) that is written to Humdrum is read back as the same thing. When two neighbouring measures share one barline, the combined barline keeps every repeat and fermata of both. Bar lengths derived from time signatures are exact.',
  quant='all key signatures from 14 flats to 14 sharps and non-standard ones, all clef shapes, lines and octaves, all meters, transposing intervals and barline types',
  why='The tests contain no writer test and read only a handful of tokens; the writer tables and reader tables are independent.',
  files=['converter21/humdrum/m21convert.py', 'converter21/humdrum/convert.py', 'converter21/humdrum/humgrid.py', 'converter21/humdrum/humdrumtoken.py'],
  mech=[('key signatures', 'M21Convert.keySigTokenFromM21KeySignature / m21KeySignature'), ('clefs', 'M21Convert.clefTokenFromM21Clef / m21Clef'), ('barlines', 'MeasureStyle tables, M21Convert.m21BarlineFromHumdrumString, HumGrid.createBarToken')],
  technique=AI, note=AI_NOTE),
 dict(id='C03', title='Humdrum note markings survive a round trip',
  statement='Every articulation, tie, slur, beam, stem direction, notehead, fermata, trill (with its wavy line), mordent, turn, bowed tremolo, ottava and dynamic that is written to Humdrum on a note or a chord is read back as the same marking, with its placement, style, size, delay and shown accidentals, on the same note. This holds for any combination of markings on one note and for every position of a note in a chord. A marking that Humdrum cannot express writes nothing.',
  quant='all markings, placements, styles, pairs of markings and chord positions',
  why='The tests never write a note; combinations of signs in one token and per-note layout comments in chords are never exercised.',
  files=['converter21/humdrum/m21convert.py', 'converter21/humdrum/humdrumfile.py', 'converter21/humdrum/humdrumtoken.py', 'converter21/humdrum/humparamset.py'],
  mech=[('token writers', 'M21Convert.kernTokenStringAndLayoutsFromM21Note / ...FromM21Chord'), ('articulations', 'M21Convert.m21Articulations'), ('ornaments', 'HumdrumFile._addTrill/_addMordent/_addTurn'), ('layout comments', 'HumdrumToken.layoutParameter, HumParamSet.readString'), ('dynamics', 'M21Convert.getDynamicParameters, HumdrumFile._processDynamics')],
  technique=AI, note=AI_NOTE),
 dict(id='C04', title='MEI pitch and rhythm survive a round trip exactly',
  statement='Every note, rest, space and chord written to MEI carries pitch and duration attributes that denote exactly its step, octave, accidental (shown or only sounding), note value, dots, tuplet ratio, grace kind and, where it differs, its sounding duration, and reading them gives the same pitch and duration back. Accidentals and dots given as child elements, pitches under an ottava and unpitched display positions are read with the meaning MEI gives them. Every offset in a measure that is written as a time stamp is read back as exactly that offset.',
  quant='all steps, octaves, accidentals, note types, dots, tuplet ratios, grace kinds, ottavas, and offsets in all common meters',
  why='The tests check some reader functions with mocks and never write MEI; writer and reader use separate tables.',
  files=['converter21/mei/m21objectconvert.py', 'converter21/mei/meireader.py', 'converter21/mei/meilayer.py', 'converter21/mei/meishared.py'],
  mech=[('attribute writers', 'M21ObjectConvert.m21NoteToMei, m21DurationToMeiDurDotsGes, makeTstamp...'), ('readers', 'MeiReader.noteFromElement, _durationFromAttributes, _tstampToOffset'), ('tuplets', 'MeiReader.scaleToTuplet, tupletFromElement')],
  technique=AI, note=AI_NOTE),
 dict(id='C05', title='MEI signatures, clefs, barlines and staff groups survive a round trip',
  statement='Every key signature, key, clef, meter (with its common or cut symbol) and barline (style and repeat direction, at the start, the end or inside a measure) that MEI can express and that is written to MEI is read back as the same thing, hidden ones staying hidden. When neighbouring measures share a barline, the combined barline keeps every repeat of both. The transposition of a staff and the symbol, barline grouping, nesting and order of staff groups are kept.',
  quant='all key signatures from 12 flats to 12 sharps, all tonics and modes, clef shapes, lines and octaves, meters, barline types, both MEI versions',
  why='The tests mock the elements and never write MEI; the writer and the reader use separate tables.',
  files=['converter21/mei/m21objectconvert.py', 'converter21/mei/meireader.py', 'converter21/mei/meiscore.py', 'converter21/mei/meimeasure.py'],
  mech=[('key signatures', 'M21ObjectConvert.m21KeySigToMei / MeiReader.keySigFromElement'), ('clefs', 'm21ClefToMei / clefFromElement'), ('meters', 'm21TimeSigToMei / _timeSigFromElement'), ('barlines', 'm21BarlineToMeiMeasureBarlineAttr, MeiMeasure combine / MeiReader._makeBarlines')],
  technique=AI, note=AI_NOTE),
 dict(id='C06', title='MEI note markings, spanners, lyrics and directions survive a round trip',
  statement='Every articulation, stem direction, notehead, color, cue size, fermata, trill (with its wavy line), mordent, turn, arpeggio, slur, tie, ottava, hairpin, beam across a barline and lyric that MEI can express is written to MEI and read back as the same marking, with its placement, kind, shown accidentals and end points. Text directions, dynamics, rehearsal marks and metronome marks keep their staff, offset, text, font and color. This holds for notes, chords, notes in chords and rests wherever the marking can occur on them.',
  quant='all markings, placements, styles, member positions, verse numbers, elisions and both ways MEI attaches a marking (by element or by time stamp)',
  why='The tests mock the elements and never write MEI; the writer and the reader use separate tables.',
  files=['converter21/mei/m21objectconvert.py', 'converter21/mei/meireader.py', 'converter21/mei/meishared.py'],
  mech=[('note children', 'M21ObjectConvert.fillInArticulationAttributes, ...Lyric / MeiReader.noteFromElement'), ('directions', 'M21ObjectConvert.postNoteElementToMei / MeiReader._pp*, dynamFromElement, dirFromElement'), ('ornaments', 'trillToMei, turnToMei, mordentToMei / trillFromElement ...')],
  technique=AI, note=AI_NOTE),
 dict(id='C07', title='MEI output is well nested and its containers enclose exactly their notes',
  statement='On every path through the MEI export each element that is opened is closed exactly once, innermost first, and the document has exactly one root. The beams (with secondary breaks and partial beams), tuplets, one-note and two-note tremolos and endings written enclose exactly the notes or measures they belong to, and reading them gives every note the same beams, tuplets and tremolos back. Gaps between the notes of a voice, and a late start of a voice, are filled with spaces that add up to exactly the gap.',
  quant='all control-flow paths of the writer; all beam and tuplet groupings, tremolo marks, note values, gaps and endings of the enumerated vocabulary',
  why='The tests never write MEI; nesting depends on which combination of beams, tuplets and tremolos starts and ends on a note.',
  files=['converter21/mei/meilayer.py', 'converter21/mei/meiscore.py', 'converter21/mei/meimeasure.py', 'converter21/mei/meistaff.py', 'converter21/mei/m21objectconvert.py', 'converter21/mei/meireader.py'],
  mech=[('tree builder events', 'every function that calls TreeBuilder.start/end'), ('containers', 'MeiLayer.makeRootElement, MeiScore.annotateBeams, annotateTuplets / MeiReader.beamFromElement, tupletFromElement'), ('endings', 'MeiMeasure.makeRootElement')],
  technique='interprocedural path-sensitive typestate analysis of tree builder events; '+AI, note=AI_NOTE),
 dict(id='C08', title='Exporting a score leaves the score of the caller as it was',
  statement='Exporting to MEI or Humdrum, with or without renotation and whether it succeeds or fails part way, leaves no bookkeeping behind: every attribute, identifier and temporary spanner that the export adds to objects of the caller is gone when the export ends. The MEI export changes nothing else in the score it is given, and the Humdrum export rewrites only its own copy. Making a well-formed score from a note, measure, part or stream, and the repair functions when not asked to work in place, leave their argument alone.',
  quant='all control-flow paths and failure points of the exports, all object kinds, all kinds of input',
  why='No test exports a score and looks at it afterwards, and none makes an export fail.',
  files=['converter21/mei/meiscore.py', 'converter21/mei/meilayer.py', 'converter21/mei/m21objectconvert.py', 'converter21/mei/meiwriter.py', 'converter21/humdrum/humdrumwriter.py', 'converter21/shared/m21utilities.py'],
  mech=[('notes to self', 'M21Utilities.extendCustomM21Attributes and every store of a mei_* attribute'), ('clean-up', 'MeiScore.deannotateScore, HumdrumWriter.deannotateScore, M21Utilities.removeAllXmlIds'), ('copies', 'HumdrumWriter.write, M21Utilities.makeScoreFromObject, fixupBad*')],
  technique='effect and ownership analysis with must-reach registration of bookkeeping; '+AI, note=AI_NOTE),
 dict(id='C09', title='A result depends only on the input and the options',
  statement='The result of a conversion never depends on conversions done earlier in the same process: nothing a conversion does changes a value that later conversions see, and a remembered value is only ever used where computing it again would give the same. The same input and options give the same result in every run, apart from generated identifiers: no result depends on the order of a set, on memory addresses, hashes, clocks or random numbers. What a token of a Humdrum file says about itself always follows its present text and data type.',
  quant='all functions, all values that outlive a call, all orders in which a set can be walked, all histories of earlier conversions',
  why='Each test runs one small conversion in a fresh process with fixed data; leaks between conversions and run-to-run differences need two conversions or two hash seeds.',
  files=['converter21/humdrum/convert.py', 'converter21/humdrum/m21convert.py', 'converter21/humdrum/humdrumtoken.py', 'converter21/shared/m21utilities.py', 'converter21/mei/meireader.py', 'converter21/mei/meilayer.py'],
  mech=[('memo tables', 'Convert._knownRecipDurationCache, M21Convert._measureStyleLookup, _repeatBothStyleCombos'), ('remembered token properties', 'HumdrumToken.cachedTokenTextProperties, cachedDataTypeProperties and the setters of text, track and ownerLine'), ('sets', 'every expression of set type')],
  technique='whole-program alias and effect analysis of values that outlive a call; backward slicing of memo values against their keys; order-dependence analysis of set uses; '+AI,
  note='The alias analysis is flow-insensitive and field-based; an alias that goes through an unresolved call is not followed. Set element types come from annotations; sets of numbers are taken as ordered deterministically.'),
 dict(id='C10', title='Titles, people, dates and other metadata survive both formats',
  statement='Every piece of metadata that has a reference key (titles, composers and other contributors, places, publication, catalogue, source, encoding and analytic data) keeps its key, value, order, role and, where the format can express it, language when a score is written and read back: as Humdrum reference records for all keys, and in the MEI header for all keys that have a place there. Dates of every kind (partial, before or after, between, alternatives, approximate, uncertain, with a time of day, before the common era) come back as the same date, an isodate denotes the date it was made from, and text that is not a possible date is kept as text instead of refusing the file. Free-form records, several values of one key and many keys at once never disturb one another.',
  quant='all known keys, one and several values, languages, roles, kinds of dates and texts of the enumerated vocabulary',
  why='The tests check a few dates and never write or read metadata.',
  files=['converter21/humdrum/humdrumwriter.py', 'converter21/humdrum/humdrumfile.py', 'converter21/humdrum/m21convert.py', 'converter21/shared/m21utilities.py', 'converter21/mei/meimetadata.py', 'converter21/mei/meimetadatareader.py'],
  mech=[('reference records', 'HumdrumWriter._addHeaderRecords, HumdrumFile._prepareMetadata, _parseReferenceItem, _createScoreMetadata, M21Convert.m21MetadataItemToHumdrumReferenceLineStr'), ('MEI header', 'MeiMetadata.make*Element / MeiMetadataReader.process*'), ('dates', 'M21Utilities.m21DatePrimitiveFromString, stringFromM21DateObject, isoDateFromM21DatePrimitive, m21DatePrimitiveFromIsoDate'), ('key tables', 'M21Utilities.humdrumReferenceKeyToM21MetadataPropertyUniqueName and the role tables')],
  technique=AI, note=AI_NOTE),
 dict(id='C11', title='No input makes a conversion loop forever or run off its data',
  statement='Whatever file or score is converted, the conversion ends: every loop comes closer to its end on every path through its body, its counter is not disturbed by loops inside it, and walks along linked tokens and groups keep going in one direction. No loop lengthens the collection it is walking over, and no function calls itself with the arguments it was called with. A loop that looks ahead in a text or a list stops at its end.',
  quant='all while loops, for loops and recursive calls of the package and all control-flow paths through their bodies',
  why='A hang needs a particular combination of tokens; the tests run the paths of a few files.',
  files=['converter21/humdrum/humdrumfile.py', 'converter21/humdrum/humdrumfilebase.py', 'converter21/humdrum/humdrumfilestructure.py', 'converter21/humdrum/humgrid.py', 'converter21/humdrum/gridmeasure.py', 'converter21/humdrum/m21convert.py', 'converter21/mei/meireader.py', 'converter21/shared/m21utilities.py'],
  mech=[('token walks', 'HumdrumFile._getSystemArpeggioTokens, _checkForVerseLabels and every other while loop over linked tokens'), ('line and slice loops', 'HumdrumFileBase.analyzeSpines, HumGrid.manipulatorCheck, GridMeasure.addGraceToken'), ('text loops', 'M21Convert.translateSMUFLNotesToNoteNames, M21Utilities.convertPrintableTextToChordSymbolFigure'), ('recursion', 'HumdrumFileStructure.analyzeSpineStrands and every other recursive function')],
  technique='path-sensitive dataflow of loop-carried state (progress, direction, clobbering, growth) over every loop of the package; interprocedural side-effect summaries',
  note='Progress is a change of what the exit depends on, not a proof of a decreasing measure: a loop that changes its state in circles is not reported.'),
 dict(id='C12', title='Lyrics, words, tempos and rehearsal marks survive Humdrum',
  statement='Writing to Humdrum and reading back keeps the words that go with the notes. A text direction keeps its text (colons, line breaks, equals signs and non-breaking spaces included), its placement above, below or between staves, its font style, justification, color and time. A rehearsal mark keeps its text, staff, placement, font, size, color, enclosure and time in the measure. A tempo keeps its words, its number of quarter notes per minute (rounded) and the note value of its beat with its dots. A lyric keeps its text, its verse number, its elisions and its verse label, even when other verses are silent; a lyric marked by a text signifier gets its color. A global record is always a single token.',
  quant='all texts, styles, placements, offsets, verse numbers, labels and note values of the vocabulary in the code, in combination',
  why='The tests compare no words after a conversion; escapes matter only for rare characters, and verse numbers only with gaps.',
  files=['converter21/humdrum/m21convert.py', 'converter21/humdrum/humdrumfile.py', 'converter21/humdrum/humdrumwriter.py', 'converter21/humdrum/humdrumtoken.py', 'converter21/humdrum/humparamset.py', 'converter21/humdrum/convert.py', 'converter21/humdrum/gridslice.py'],
  mech=[('text directions', 'M21Convert.textLayoutParameterFromM21Pieces, HumdrumFile._processLinkedDirection'), ('rehearsal marks', 'M21Convert.rehearsalMarkLayoutParameterFromM21Pieces, HumdrumFile._checkForGlobalRehearsal'), ('tempos', 'M21Convert.getMMTokenAndTempoTextFromM21TempoIndication, Convert.getTempoText, HumdrumFile._createMetronomeMark, _handleTempoChange, HumdrumToken.tempoBPM'), ('lyrics', 'HumdrumWriter._addLyrics, HumdrumFile._convertVerses, _colorVerse, _getVerseLabels'), ('global records', 'GridSlice.transferTokens')],
  technique=AI, note=AI_NOTE),
 dict(id='C13', title='A Humdrum file is read with the spines, times and connections it spells',
  statement='Every token of a Humdrum file belongs to the spine and sub-spine, and has the data type, that the splits, joins, exchanges, additions and terminations before it give, and is linked to exactly the tokens before and after it there. Every line starts at the exact time that the durations before it add up to (tuplets, dots, grace notes, voices, null lines), in the file and in its bar. A null token stands for the last token of its own spine. Every slur end is matched with its own start (nested, elided, across voices and staves, linked by a signifier), and every linked tie with the open tie of its pitch. An accidental is shown where the key signature, the measure so far or an explicit sign require it, and nowhere else; the other note of a trill or mordent has the alteration its interval needs. A layout comment applies to the next token of its own spine. User signifiers mean what their definition says, whatever the character. Ottavas, rhythmic scaling, spine colors, clefs, repetition marks, cross-staff stems and rest positions apply to their own spine while in force.',
  quant='all spine structures (each manipulator and their combinations), note values, tuplets, graces, voices, slur and tie shapes, keys, accidentals, ornaments, layout comments and signifiers',
  why='The tests read a few well-behaved files and look at single tokens; a wrong link, time or match shows only for rare structures.',
  files=['converter21/humdrum/humdrumfilebase.py', 'converter21/humdrum/humdrumfilestructure.py', 'converter21/humdrum/humdrumfilecontent.py', 'converter21/humdrum/humsignifiers.py', 'converter21/humdrum/humdrumtoken.py', 'converter21/humdrum/humdrumline.py', 'converter21/humdrum/convert.py', 'converter21/humdrum/humhash.py'],
  mech=[('spines and links', 'HumdrumFileBase.analyzeSpines, adjustSpines, stitchLinesTogether, analyzeTracks'), ('times', 'HumdrumFileStructure.analyzeRhythm, analyzeNullLineRhythms, fillInMissingStartTimes, analyzeMeter'), ('null tokens', 'HumdrumFileStructure.resolveNullTokens'), ('slurs and ties', 'HumdrumFileContent.analyzeSpineSlursOrPhrases, createLinkedSlursOrPhrases, generateLinkedTieStartsAndEnds'), ('accidentals', 'HumdrumFileContent.analyzeKernAccidentals'), ('layout comments', 'HumdrumFileStructure.processLocalParametersForStrand'), ('signifiers', 'HumSignifiers.generateKnownInfo'), ('states', 'HumdrumFileContent.analyzeOttavas, analyzeRScale, initializeSpineColor, analyzeClefNulls, checkDataForCrossStaffStems, analyzeRestPositions')],
  technique=AI, note=AI_NOTE),
 dict(id='C14', title='The score read from a Humdrum file has the music the file spells',
  statement='Reading a Humdrum file gives a score with one part per staff (from the last spine to the first), measures with the numbers, offsets, lengths and barlines (double, dotted, dashed, heavy, hidden, final, repeats, endings) of the file, and in each measure the voices its sub-spines spell, each note, chord, rest and grace note once, in order, at its time, with its pitch, duration type, dots and tuplet ratio. Tuplets start and stop at the ends of their groups; beams start, continue, break and hook at every level where the file says. Ties, slurs (nested, across voices, staves and barlines, with placement), hairpins, ottavas, arpeggios and tremolos connect exactly the notes the file connects. Articulations, fermatas, ornaments (with the accidentals their interval needs), stems, noteheads, colors, cue size and hidden notes are on the notes that carry them, accidentals are shown where needed. Clefs, key and time signatures (also changes within a measure), tempos, dynamics (with placement) and texts are at their time in their staff; syllables are under their notes with their verse and place in the word; parts have their names and staff groups their staves, symbol and barlines; a transposing part has its written pitches.',
  quant='all files built from the notation vocabulary above: every note value, tuplet, beam and voice shape, number of staves and spines, and position in the measure and the file',
  why='The tests read files and compare nothing of the resulting score; a wrong voice, offset or connection shows only in particular combinations.',
  files=['converter21/humdrum/humdrumfile.py', 'converter21/humdrum/humdrumtoken.py', 'converter21/humdrum/humdrumline.py', 'converter21/humdrum/m21convert.py', 'converter21/humdrum/convert.py', 'converter21/shared/m21utilities.py'],
  mech=[('measures and voices', 'HumdrumFile.createMusic21Stream, _setupSystemMeasures, _setSystemMeasureStyle, _generateStaffLayerTokensForMeasure, _fillContentsOfLayer'), ('notes', 'HumdrumFile._convertNote, _convertChord, _convertRest, _convertRhythm, _replaceGeneralNoteWithGrace, _processTieStart'), ('tuplets and beams', 'HumdrumFile._prepareBeamAndTupletGroups, _startTuplet, _startBeam'), ('spanners', 'HumdrumFile._processSlurs, _processDynamics, _processHairpin, _handleOttavaMark, _checkForTremolo'), ('signs', 'HumdrumFile._addKeyTimeChangesToSystemMeasures, _handleClefChange, _processLinkedDirection, _handleTempoChange'), ('marks', 'HumdrumFile._addArticulations, _addOrnaments, _addFermata'), ('parts and groups', 'HumdrumFile._createPart, _processSystemDecoration'), ('lyrics', 'HumdrumFile._convertVerses')],
  technique=AI, note=AI_NOTE),
 dict(id='C15', title='The score read from an MEI file has the music the file spells',
  statement='Reading an MEI file gives a score with one part per staff definition, measures with the numbers, offsets, lengths and barlines (repeats included, also rptboth), endings, and in each measure one voice per layer, with each note, chord, rest, space, measure rest and grace note once, in order, at its time, with its pitch (accidentals, gestural or written, from attribute or element), duration type, dots and tuplet ratio. Tuplets (nested ones and tupletSpans too) start and stop at the ends of their groups; beams start, continue, break and hook at every level, across grace notes, rests and chords. Ties and slurs, by attribute or by element, join exactly the notes they name, in their order. Dynamics, directions, tempos, rehearsal marks, hairpins, octaves, fermatas, trills, mordents, turns, arpeggios and tremolos are on the note or at the time stamp (in the unit of the meter in force) and in the staff the file names, with placement, accidentals and style. Syllables are on their notes with verse and position. Clefs, keys and meters, initial or changed for all staves or one, labels, staff groups and transposition are read. What an editorial element encloses is read, of alternatives one.',
  quant='all MEI files built from the elements and attributes above: every duration, nesting of beams, tuplets, chords and editorial elements, number of staves and layers, and place in the measure, section and score',
  why='The tests read parts of a few files through mocks and compare little of the resulting score; a wrong offset, staff or connection shows only in particular combinations.',
  files=['converter21/mei/meireader.py', 'converter21/mei/meishared.py', 'converter21/shared/m21utilities.py'],
  mech=[('preprocessing', 'MeiReader._ppSlurs, _ppTies, _ppBeams, _ppTuplets, _ppHairpins, _ppOctaves, _ppTrills, _ppTurns, _ppConclude'), ('structure', 'MeiReader.allPartsPresent, scoreFromElement, sectionScoreCore, measureFromElement, staffFromElement, layerFromElement, _correctMRestDurs'), ('definitions', 'MeiReader.scoreDefFromElement, staffDefFromElement, staffGrpFromElement, clefFromElement, _transpositionFromAttrs'), ('notes', 'MeiReader.noteFromElement, chordFromElement, restFromElement, mRestFromElement, durationFromAttributes, beamFromElement, tupletFromElement, bTremFromElement, fTremFromElement'), ('control events', 'MeiReader.dynamFromElement, dirFromElement, tempoFromElement, hairpinFromElement, octaveFromElement, fermataFromElement, _tstampToOffset'), ('editorial elements', 'MeiReader.chooseSubElement, passThruEditorialLayerChildrenFromElement, appChoiceLayerChildrenFromElement')],
  technique=AI, note=AI_NOTE),
 dict(id='C16', title='A score written to Humdrum and read back has the same music',
  statement='A score exported to Humdrum and imported again has the same parts in the same order, with their names and staff groups; the same measures, with numbers, offsets, lengths, barlines, repeats and endings; in each measure the same voices, with each note, chord, rest (hidden ones too) and grace note once, in order, at its time, with its pitch, shown accidental, duration type, dots and tuplet ratio. Tuplets start and stop, and beams start, continue, break and hook at every level, at the same notes. Ties, slurs (nested, across barlines, voices of a staff, with placement), hairpins, ottavas, arpeggios and tremolos connect the same notes. Articulations, ornaments with their accidentals, fermatas, stems, colors, dynamics with placement, text directions, tempos and rehearsal marks, clefs, key and time signatures (also changes inside a measure, of one staff or all) are at the same time in the same staff. Syllables are under the same notes with verse and place in the word. Nothing is added. What Humdrum (as converter21 writes it) has no notation for is excepted: quarter tones, noteheads, line styles of slurs, slurs between staves, nested tuplets, placement of tuplets and fermatas, dashed barlines, styles of MEI texts.',
  quant='all scores built from the notation vocabulary above, read from either format: every note value, tuplet, beam and voice shape, number of staves and layers, combination of signs at one time, and position in the measure and the score',
  why='No test writes a score; a note, voice or sign is lost or moved only in particular combinations of durations, voices, staves and simultaneous signs.',
  files=['converter21/humdrum/humdrumwriter.py', 'converter21/humdrum/humgrid.py', 'converter21/humdrum/gridmeasure.py', 'converter21/humdrum/gridslice.py', 'converter21/humdrum/gridstaff.py', 'converter21/humdrum/gridvoice.py', 'converter21/humdrum/measuredata.py', 'converter21/humdrum/eventdata.py', 'converter21/humdrum/m21convert.py', 'converter21/humdrum/humdrumfile.py'],
  mech=[('score data', 'HumdrumWriter.write, ScoreData, PartData, StaffData, MeasureData._parseMeasure, _parseEventsIn, _sortEvents, EventData'), ('grid', 'HumdrumWriter._stitchParts, _insertMeasure, _convertNowEvents, _addEvent, _addGraceLines, GridMeasure.addDataToken, addGraceToken, HumGrid.addNullTokens, manipulatorCheck, cleanupManipulators, transferTokens'), ('tokens', 'EventData.getNoteKernTokenStringAndLayouts, M21Convert.kernTokenStringAndLayoutsFromM21GeneralNote'), ('signs', 'HumdrumWriter._appendZeroDurationEvents, _addClefLine, _addKeySigLine, _addTimeSigLine, _addEventDynamics, _addUnassociatedDynamics, _addUnassociatedTexts, _addTexts, _addTempo, HumGrid.removeRedundantClefChanges'), ('barlines and endings', 'HumGrid.addMeasureLines, addLastBarline, createBarToken, HumdrumWriter._insertRepeatBracketSlices'), ('lyrics', 'HumdrumWriter._addLyrics'), ('reading', 'HumdrumFile.createMusic21Stream')],
  technique=AI, note=AI_NOTE),
 dict(id='C17', title='A score written to MEI and read back has the same music',
  statement='A score exported to MEI and imported again has the same parts and staff groups; the same measures, with numbers, offsets, lengths, barlines, repeats and endings; in each measure the same voices, with each note, chord, rest, hidden rest and grace note once, in order, at its time, with its pitch, accidental, duration type, dots and tuplet ratio. Tuplets (across beams, nested) start and stop, and beams (also around grace notes, rests and across barlines) start, continue, break and hook at every level, at the same notes. Ties, slurs (also between staves and voices, crossing, with placement), hairpins, octaves, arpeggios and tremolos connect the same notes; hairpins and octaves span the same time. Articulations, ornaments with their accidentals, fermatas, stems, colors, dynamics, directions, tempos and rehearsal marks, clefs, key and time signatures (also changes inside a measure, of one staff or all) are at the same time in the same staff with their text, placement and style. Syllables are under the same notes with verse and place in the word. Nothing is added. What MEI (as converter21 reads it) has no notation for is excepted: part and instrument names of Humdrum, transposition of Humdrum parts, breath marks and other signs between notes, line styles of ties.',
  quant='all scores built from the notation vocabulary above, read from either format: every note value, nesting of beams and tuplets, voice shape, number of staves, combination of signs at one time, and position in the measure and the score',
  why='No test writes a score to MEI; an element is closed too early, given to another staff or dropped only for particular nestings and combinations.',
  files=['converter21/mei/meiwriter.py', 'converter21/mei/meiscore.py', 'converter21/mei/meimeasure.py', 'converter21/mei/meistaff.py', 'converter21/mei/meilayer.py', 'converter21/mei/meielement.py', 'converter21/mei/meishared.py', 'converter21/mei/m21objectconvert.py', 'converter21/shared/m21utilities.py', 'converter21/mei/meireader.py'],
  mech=[('annotation', 'MeiScore.annotateScore, annotateBeams, annotateTuplets, annotateTies, annotatePositionedRests'), ('structure', 'MeiScore.makeRootElement, makeScoreDefElement, makeStaffGrpElement, MeiMeasure.makeRootElement, _checkForEndingStart, MeiStaff.makeRootElement, MeiLayer.makeRootElement, processBeamTupletFTremStart, processBeamTupletFTremEnd'), ('control events', 'MeiLayer.makePostStavesElements, MeiStaff.makePostStavesElements, M21ObjectConvert.postStavesSpannerToMei, convertPostStaveStreamElement, makeTstamp, makeTstamp2'), ('objects', 'M21ObjectConvert.convertM21ObjectToMei and its converters, m21DurationToMeiDurDotsGrace'), ('reading', 'MeiReader.run')],
  technique=AI, note=AI_NOTE),
]
NA = [
 dict(id='N01', title='A whole score converted there and back is musically identical',
  statement='For every score that both formats can represent, exporting it and importing the result gives a score with the same parts, measures, voices, notes, onsets, durations and notations.',
  quant='all scores', why='No test converts a score there and back; the space of scores is unbounded.',
  files=['converter21/humdrum/humdrumwriter.py', 'converter21/humdrum/humdrumfile.py', 'converter21/mei/meiwriter.py', 'converter21/mei/meireader.py'],
  mech=[('export and import', 'HumdrumWriter.write, HumdrumFile.createMusic21Stream, MeiWriter.write, MeiReader.run')],
  reason='Equality for every score is an unbounded claim about runtime values (onsets, voice assignment, grid layout) which no static argument in reach bounds; what the abstract interpretation of writer and reader decides, on the abstract scores of the file skeletons, is claimed as C16 and C17, the token, attribute and table inverses as C01 to C12.'),
 dict(id='N02', title='Every Humdrum line written has one token per spine and correct timing',
  statement='In every Humdrum file written, each non-comment line has exactly as many fields as there are active spines after the preceding manipulators, and the durations in every spine add up to the same time at each line.',
  quant='all scores', why='No test writes a file.',
  files=['converter21/humdrum/humgrid.py', 'converter21/humdrum/gridslice.py', 'converter21/humdrum/gridmeasure.py'],
  mech=[('grid transfer', 'HumGrid.transferTokens, GridSlice.transferTokens')],
  reason='The number of fields per line is a runtime sum over dynamic grid contents (voices per staff, side spines, merges and splits); bounding it needs a numeric shape invariant of the grid that static analysis in reach cannot establish without running the code.'),
 dict(id='N03', title='Conversion of large scores takes time proportional to their size',
  statement='Converting a score takes time at most proportional to its length times a small factor.',
  over=['inputs'], quant='all scores', why='No test measures time.',
  files=['converter21/humdrum/humdrumfile.py', 'converter21/mei/meireader.py'], mech=[('conversion', 'whole package')],
  reason='A timing property; the cost is decided by runtime sizes and by music21 internals.'),
]
