#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit the property texts)."""
import json, os
NS='normalizedstring/normalizedstring.go'; RG='normalizedstring/range.go'
PTS='pretokenizedstring/pretokenizedstring.go'
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
        **({'state':[dict(name=a,meaning=b,where=c) for a,b,c in state]} if state else {}),
        observe_at=observe or [],hook_needed=None)))

p('C01','Split patterns tile the whole text',
  'For every valid UTF-8 text, the captures a split pattern reports are ordered, contiguous and non-overlapping, start at byte 0 and end at the last byte of the text, so that concatenating them gives the text back. This holds for function, rune, literal string, regexp, regexp2 and inverted patterns, including an empty text (one empty non-match capture) and an empty literal.',
  ['inputs'],'every valid UTF-8 text and every pattern of each of the six kinds (a regular expression engine is assumed to report ordered, non-overlapping, in-range matches)',
  'Tests feed each pattern 3-6 short ASCII literals; coverage must hold for every text, including multi-byte runes, matches at either edge, and zero-width matches.',
  ['splitpattern/func.go','splitpattern/regexp.go','splitpattern/regexp2.go','splitpattern/string.go','splitpattern/rune.go','splitpattern/invertedpattern.go'],
  [('FuncSplitPattern.FindMatches: gap before a match, match, trailing gap','splitpattern/func.go'),('RegexpSplitPattern.FindMatches','splitpattern/regexp.go'),('Regexp2SplitPattern.FindMatches: rune index to byte conversion','splitpattern/regexp2.go'),('empty literal short cut','splitpattern/string.go')],
  observe=['SplitPattern.FindMatches result'])
p('C02','Split patterns flag exactly the matches',
  'A capture is flagged as a match exactly when its bytes are a match of the pattern: a rune accepted by the predicate (one capture per rune), an occurrence of the rune or of the literal text (taken literally, whatever characters it contains), or a match reported by the regular expression; all text in between is flagged non-match. Inverting a pattern flips the flag of every capture and changes no offset.',
  ['inputs'],'every valid UTF-8 text and every pattern of each kind',
  'Tests sample a handful of texts; literals with regexp metacharacters and predicates true on multi-byte runes are never tried.',
  ['splitpattern/func.go','splitpattern/regexp.go','splitpattern/regexp2.go','splitpattern/string.go','splitpattern/rune.go','splitpattern/invertedpattern.go'],
  [('predicate decides the flag','splitpattern/func.go'),('QuoteMeta before compiling','splitpattern/string.go'),('flag flip','splitpattern/invertedpattern.go')],
  observe=['Capture.IsMatch'])
p('C03','One alignment per byte of normalized text',
  'Through any sequence of the editing, slicing and splitting operations, a normalized string built from a text keeps exactly one alignment entry for each byte of its current normalized text.',
  ['inputs','histories'],'every valid UTF-8 text and every history of edits (transform, filter, map, trim, prepend, append, replace, case mapping; runes written are Unicode scalar values), slices and splits',
  'Tests apply one or two edits to a few literals and compare whole structures; the invariant must survive every edit script and every composition of edits.',
  [NS],[('FromString builds per-byte alignments',NS),('TransformRange rebuilds text and alignments together',NS),('Slice copies the alignments of the sliced range',NS)],
  state=[('alignments','original (start,end) for each normalized byte',NS),('normalized','current text',NS)],observe=['NormalizedString.Get','NormalizedString.CoerceRangeToOriginal','NormalizedString.OriginalAlignments'])
p('C04','Alignments stay ordered and inside the original text',
  'Through any sequence of editing, slicing and splitting operations, the alignment entries of a normalized string are non-decreasing from left to right (both starts and ends), never reversed (start <= end), and every one lies inside the original text. Converting any non-empty normalized range therefore always gives a forward range inside the original text.',
  ['inputs','histories'],'every valid UTF-8 text and every history of edits, slices and splits',
  'Ordering is a relation between all pairs of bytes after all histories of edits; tests compare a few final states.',
  [NS],[('TransformRange copies existing alignments with a forward-only cursor',NS),('Slice rebases by the slice start',NS)],
  state=[('alignments','original (start,end) for each normalized byte',NS)],observe=['NormalizedString.CoerceRangeToOriginal','NormalizedString.OriginalAlignments'])
p('C05','The original text and its position are never altered',
  'No normalizing, pre-tokenizing or tokenizing operation changes the original text of a normalized string, its reported position (original offsets), or any other normalized string: a slice is independent of the string it was taken from. The reported original offsets of a non-empty slice are exactly where its original text sits in the outermost text, through any nesting of slices.',
  ['inputs','histories'],'every valid UTF-8 text, every history of edits and nested slices/splits',
  'Tests slice once, from an unsliced string; composition of shifts and non-interference need all histories.',
  [NS,PTS],[('only constructors write original and originalShift',NS),('Slice adds the original range start to the shift',NS),('TransformRange allocates fresh alignments',NS)],
  state=[('original','text before edits',NS),('originalShift','position of original in the outermost text',NS)],observe=['NormalizedString.GetOriginal','NormalizedString.OriginalOffsets'])
p('C06','Out-of-range requests fail, they do not panic',
  'Asking a normalized string for any range - negative, reversed, out of bounds, in either referential - through the range getters, the range conversions or slicing either succeeds or reports failure, and never panics. A getter that succeeds returns the requested range of the text, and slicing succeeds only on rune boundaries. A non-empty range of the original text is converted to exactly the normalized text that comes from it: from the first byte aligned to characters of the range to the last byte aligned before the end of the range.',
  ['inputs'],'every normalized string that satisfies the alignment invariants and every pair of integers, as original or normalized range',
  'Tests use in-range literals; the failing inputs are integer ranges outside the text.',
  [NS,RG,'strutils/strutils.go'],[('rangeFits / rangeIsValid guards',NS),('IsRuneBoundary bounds check','strutils/strutils.go')],
  observe=['NormalizedString.GetRange','NormalizedString.GetOriginalRange','NormalizedString.CoerceRangeToNormalized','NormalizedString.CoerceRangeToOriginal','NormalizedString.Slice'])
p('C07','Editing operations produce exactly the edited text',
  'Filtering keeps exactly the runes the predicate accepts, mapping replaces each rune by its image, trimming removes exactly the leading and/or trailing white space asked for, prepending and appending add exactly the given text at that end of a non-empty string, and a transform writes exactly the runes of its script in place of the given range and leaves the rest untouched. Replacing substitutes the content for every match of the pattern and leaves all other text as it was.',
  ['inputs'],'every valid UTF-8 text, predicate, mapping to Unicode scalar values, added text, pattern tiling the text, and script that consumes no more runes than the range holds',
  'Tests check about twenty literal edits; runs of removed runes at the edges or between kept runes, multi-byte runes and several replacements of different lengths need all inputs.',
  [NS],[('Filter/Map/TrimLeftRight/Prepend/Append build the scripts',NS),('TransformRange applies them',NS),('Replace tracks the length difference',NS)],
  observe=['NormalizedString.Get'])
p('C08','Edits keep every surviving rune aligned to its source',
  'After filtering, mapping, trimming, lower/upper-casing, prepending or appending, every rune that survives (or is the image of a rune) has exactly the alignment its source rune had before the edit, and text that was added is aligned to the rune next to it. In a transform, a replacement rune takes the alignment of the rune it replaces, and an inserted rune that of the byte before it.',
  ['inputs'],'every valid UTF-8 text and every predicate/mapping/added text',
  'Tests compare alignments after a few edits of short, mostly ASCII, literals; a wrong removal count shifts alignments only for particular run shapes and rune widths.',
  [NS],[('removed-rune counters in Filter and TrimLeftRight',NS),('cursor of TransformRange',NS)],
  observe=['NormalizedString.GetOriginalRange over a normalized range'])
p('C09','Splitting follows the delimiter behaviour and loses nothing',
  'Splitting a normalized string yields, in order, pieces that tile its text, cut exactly at the capture boundaries that the chosen delimiter behaviour keeps: all of them (isolated), all but those before a delimiter that follows a non-delimiter (merged with previous), all but those after a delimiter that precedes a non-delimiter (merged with next), only those between a delimiter and a non-delimiter (contiguous). With the removed behaviour, the pieces are exactly the non-delimiter captures.',
  ['inputs'],'every valid UTF-8 text and every capture list that tiles it, for all five behaviours',
  'One example per behaviour is tested; runs of consecutive delimiters at either edge, and their parity, need all capture lists.',
  [NS],[('Split: per-behaviour merge loops and final slicing',NS)],observe=['NormalizedString.Split'])
p('C10','Pre-tokenized splits: order, tokens and errors are respected',
  'Splitting, normalizing or tokenizing a pre-tokenized string never touches a split that already has tokens, visits the others once each in order, keeps the order of all splits, and drops a split only if it is produced empty by a split function. If a split function fails, its error is returned and the list of splits stays as it was; normalizing and tokenizing stop at the first error and return it.',
  ['inputs','histories','fault_sequences'],'every list of splits, every mix of tokenized and untokenized splits, every split/normalize/tokenize function including failing ones',
  'There is no test of this package; mixed tokenized/untokenized lists and failing callbacks are never exercised.',
  [PTS],[('tokens != nil guard',PTS),('IsEmpty filter',PTS),('assignment of the new list only after success',PTS)],
  state=[('splits','ordered list of (normalized string, optional tokens)',PTS)],observe=['PreTokenizedString.Splits'])
p('C11','An encoding has one entry per token in every column',
  'An encoding built from a pre-tokenized string has, for every token of every split in order, exactly one entry in each of its columns (ids, type ids, tokens, words, offsets, special mask 0, attention mask 1), with the id and value of that token, the given type id and the given word index or, if negative, the index of the split. It fails if any split has not been tokenized, and is empty if there are no splits.',
  ['inputs'],'every list of splits and tokens, every word index and type id',
  'No test builds an encoding; equal column lengths and per-row correspondence must hold for all token lists.',
  ['encodings/encodings.go',PTS],[('EncodingFromEncodableTokens','encodings/encodings.go'),('IntoEncoding',PTS)],
  observe=['PreTokenizedString.IntoEncoding','encodings.EncodingFromEncodableTokens'])
p('C12','Encoded offsets point into the outermost original text',
  'The offsets of every token in an encoding are its range in the split converted to the original referential of that split and moved by the position of the split in the outermost text; when the conversion fails they are the offsets of the token itself. The byte splits a pre-tokenized string reports carry, in order, the text and tokens of each split with its original offsets, or with consecutive offsets in the normalized text.',
  ['inputs','histories'],'every list of splits with arbitrary edits and token ranges',
  'No test covers these conversions; they combine shifts and alignments of arbitrary edit histories.',
  [PTS],[('IntoEncoding offset conversion',PTS),('GetOriginalByteSplits / GetNormalizedByteSplits',PTS)],
  observe=['PreTokenizedString.IntoEncoding','PreTokenizedString.GetOriginalByteSplits','PreTokenizedString.GetNormalizedByteSplits'])
p('C13','BPE tokens tile the input',
  'The tokens BPE returns for a valid UTF-8 text have contiguous, ordered offsets that start at 0 and end at the length of the text, so each token stands for its own bytes and none is lost or counted twice, with or without dropout and unknown-token fusion.',
  ['inputs','configurations'],'every valid UTF-8 text, vocabulary, merge table, dropout, prefix/suffix and fusion setting',
  'One ASCII word is tokenized by the tests; offsets depend on every merge and on unknown runs.',
  ['models/bpemodel/bpemodel.go','models/bpemodel/word.go'],[('mergeWord accounts each rune to a symbol or to the pending unknown','models/bpemodel/bpemodel.go'),('MergeAll transfers the length of the right symbol','models/bpemodel/word.go'),('wordToTokens running offset','models/bpemodel/bpemodel.go')],
  state=[('Symbol.Length','bytes the symbol stands for','models/bpemodel/word.go')],observe=['BPEModel.Tokenize'])
p('C14','BPE applies only listed merges, lowest rank first',
  'A merge is applied only to two adjacent symbols that the merge table lists as a pair, and gives exactly the symbol the table lists for them. Among the candidate merges waiting to be applied, the one with the lowest rank comes first and, for equal ranks, the leftmost; every pair that becomes adjacent through a merge becomes a candidate, and stale candidates are skipped.',
  ['inputs','configurations'],'every symbol sequence and merge table',
  'A single word with eight merges is tested; stale entries, rank ties and chains of merges on both sides need all tables.',
  ['models/bpemodel/word.go','models/bpemodel/wordmerge.go','models/bpemodel/mergemap.go'],[('WordMergeHeap.Less','models/bpemodel/wordmerge.go'),('MergeAll expiry check and neighbour links','models/bpemodel/word.go')],
  state=[('Prev/Next','links between live symbols','models/bpemodel/word.go')],observe=['BPEModel.Tokenize'])
p('C15','BPE decorates and looks up each character as configured',
  'BPE looks up each character of the text alone, behind the continuing-subword prefix unless it is the first, and followed by the end-of-word suffix if it is the last. A character that is not in the vocabulary becomes the unknown token if one is configured, fused with an immediately preceding unknown exactly when fusion is enabled; a configured unknown token that is not in the vocabulary is reported as an error.',
  ['inputs','configurations'],'every text, vocabulary and setting of prefix, suffix, unknown token and fusion',
  'No test sets a prefix, suffix, unknown token or fusion.',
  ['models/bpemodel/bpemodel.go'],[('mergeWord','models/bpemodel/bpemodel.go')],observe=['BPEModel.Tokenize'])
p('C16','WordPiece matches the longest piece first and tiles the input',
  'WordPiece returns contiguous tokens covering the text from 0 to its length, each being the longest vocabulary entry that starts where the previous one ended (behind the continuing prefix except for the first), trying candidates that shrink by one whole rune at a time. If some position has no match, or the text has more characters than the limit, the result is a single unknown token covering the whole text, or an error if the unknown token is not in the vocabulary.',
  ['inputs','configurations'],'every valid UTF-8 text, vocabulary, prefix, unknown token and limit',
  'Tests use ASCII words only; multi-byte runes and partial matches need all inputs.',
  ['models/wordpiecemodel/wordpiecemodel.go'],[('Tokenize greedy loop','models/wordpiecemodel/wordpiecemodel.go')],observe=['WordPieceModel.Tokenize'])
p('C17','Every token agrees with the vocabulary',
  'The id and the value of every token a model returns belong together in its vocabulary: the value is the term the vocabulary gives for the id, or the id is the one it gives for the value. A model never makes up an id or a value: a failing lookup gives an unknown token, a shorter piece, or an error.',
  ['inputs','configurations'],'every text, vocabulary and model configuration',
  'Tests check tokens of a few words in a consistent vocabulary.',
  ['models/bpemodel/bpemodel.go','models/wordpiecemodel/wordpiecemodel.go'],[('wordToTokens','models/bpemodel/bpemodel.go'),('Tokenize','models/wordpiecemodel/wordpiecemodel.go')],observe=['models.Model.Tokenize'])
p('C18','A vocabulary is a bijection that only grows',
  'At any moment each term of a vocabulary has one id, each id one term, and looking up one way and back gives the start again; the size is the number of terms. Adding a term that exists changes nothing, adding a new one never changes what existing terms and ids map to, and its id is the size of the vocabulary unless that id is already taken; a file in which two terms share an id is rejected.',
  ['inputs','histories'],'every vocabulary file and every sequence of added terms',
  'Tests load one three-term file and never look up what they add; collisions with sparse ids and repeated terms need all histories.',
  ['vocabulary/vocabulary.go'],[('AddTerm','vocabulary/vocabulary.go'),('FromJSONFile','vocabulary/vocabulary.go')],
  state=[('termToID/idToTerm','the two directions','vocabulary/vocabulary.go')],observe=['Vocabulary.GetID','Vocabulary.GetString','Vocabulary.Size'])
p('C19','Merge files load completely or not at all',
  'Reading a merge file gives each merge the next rank, starting at 0 and counting merge lines only, with the ids of its two terms and of their concatenation (minus the prefix of the right one). A line that does not have exactly two terms, a term that is not in the vocabulary, a right term shorter than the prefix, or a read error gives an error and no merge table; it never panics.',
  ['inputs','fault_sequences'],'every file content, vocabulary and non-negative prefix length',
  'Tests read one well-formed three-line file.',
  ['models/bpemodel/mergemap.go'],[('MergeMapFromFile','models/bpemodel/mergemap.go')],observe=['bpemodel.MergeMapFromFile'])
p('C20','No error is swallowed',
  'Whenever a pattern, normalizer, pre-tokenizer step, split function, tokenizer, vocabulary lookup, file or decoder reports an error, the operation that called it stops and reports that error (or a more specific one) to its own caller; success is reported only if nothing failed.',
  ['inputs','fault_sequences'],'every fallible call in the library and every failure of it',
  'Only one failing collaborator is ever injected by the tests; the others need a fault at each call.',
  ['normalizers/sequencenormalizer/sequencenormalizer.go',NS,PTS,'pretokenizers','models','vocabulary/vocabulary.go','splitpattern'],[('if err != nil { return ... err } at each call','all packages')],
  observe=['every exported function with an error result'])
p('C21','Components are immutable and safe to share',
  'Using a normalizer, pre-tokenizer, split pattern, model, or offset converter never changes it, nor any package-level state: after construction it can be used by any number of goroutines on different strings, and any number of times, always with the behaviour of the first time.',
  ['schedules','histories'],'every interleaving and history of uses of every component in the library',
  'No test uses a component concurrently or checks that a second use behaves as the first.',
  ['normalizers','pretokenizers','splitpattern','models','strutils/strutils.go'],[('methods only read their receiver; per-call state lives in locals','all packages')],
  observe=['Normalize','PreTokenize','FindMatches','Tokenize','Convert'])
p('C22','Results are deterministic unless dropout is on',
  'The same operation on the same input gives the same result: no result depends on map iteration order, time, goroutine scheduling, addresses or randomness, except that BPE merges depend on the random generator when, and only when, dropout is greater than zero.',
  ['inputs','schedules','configurations'],'every exported operation and input',
  'A test sees one run; map order and randomness vary between runs.',
  ['models/bpemodel/word.go','models/bpemodel/bpemodel.go','vocabulary/vocabulary.go'],[('dropout guard before rand.Float64','models/bpemodel/word.go'),('only order-insensitive map ranges','vocabulary/vocabulary.go')],
  observe=['every exported function'])
p('C23','The byte-level alphabet is the GPT-2 bijection',
  'The byte-level pre-tokenizer maps the 256 byte values to 256 distinct printable characters: the bytes 0x21-0x7E, 0xA1-0xAC and 0xAE-0xFF to the character with the same code, and the others, in increasing order, to the characters from U+0100 on. Every byte of the text is written as exactly one such character, in order, aligned with the rune it comes from.',
  ['inputs'],'every byte value and every valid UTF-8 text',
  'Tests check a few strings; about 100 byte values never occur in them.',
  ['pretokenizers/bytelevelpretokenizer/bytelevelpretokenizer.go'],[('init table','pretokenizers/bytelevelpretokenizer/bytelevelpretokenizer.go'),('PreTokenize byte expansion','pretokenizers/bytelevelpretokenizer/bytelevelpretokenizer.go')],
  observe=['PreTokenize'])
p('C24','Character classes are exactly the documented ones',
  'BERT text cleaning removes exactly NUL, U+FFFD and the Unicode "Other" category except tab, newline and carriage return, and turns exactly those three and the Unicode white space into a plain space; Chinese handling puts spaces around exactly the CJK ideograph blocks, and accent stripping removes exactly the non-spacing marks. Trimming, and the white-space and BERT pre-tokenizers, use exactly the Unicode White_Space property, and BERT punctuation is exactly the Unicode punctuation category.',
  ['inputs'],'all 1,114,112 Unicode code points, for each predicate',
  'Tests contain a few dozen distinct code points.',
  ['normalizers/bertnormalizer/bertnormalizer.go',NS,'pretokenizers/bertpretokenizer/bertpretokenizer.go','pretokenizers/whitespacesplitpretokenizer/whitespacesplitpretokenizer.go'],[('rune predicates and range tables','normalizers/bertnormalizer/bertnormalizer.go')],
  observe=['Normalize','PreTokenize','Trim'])
p('C25','Each configuration option has exactly its effect',
  'Every option given to a constructor controls its own step and nothing else: each BERT step runs if and only if its flag is set, in the order cleaning, Chinese characters, accents, lower case; strip sides, delimiter, replacement, prefix space, splitting expression and model options are used as given; default constructors behave as the general one with the documented defaults. Sequences run all their normalizers in order on the same string.',
  ['configurations','inputs'],'every combination of options of every constructor',
  'Tests try a few combinations; the option space of each constructor is the quantifier.',
  ['normalizers','pretokenizers','models'],[('constructors store each argument in its field','all constructors'),('flag guards in Normalize / PreTokenize','normalizers/bertnormalizer/bertnormalizer.go')],
  observe=['Normalize','PreTokenize','Tokenize'])
p('C26','Pre-tokenizers cut at the documented delimiters',
  'Each pre-tokenizer applies its documented pattern with its documented delimiter behaviour to every untokenized split: white-space, rune-delimiter and word pre-tokenizers drop exactly their delimiters, BERT drops white space and then isolates each punctuation mark, byte-level isolates the matches of its expression, and meta-space turns spaces into its replacement and keeps each replacement at the start of the piece that follows. A prefix space is added only when enabled and the text does not already start with one.',
  ['inputs','configurations'],'every text, every list of splits and every configuration of the six pre-tokenizers',
  'Tests run each pre-tokenizer on one to ten short texts.',
  ['pretokenizers'],[('PreTokenize of each package','pretokenizers')],observe=['PreTokenize'])
p('C27','Rune boundaries and rune offsets are exact',
  'The boundary test accepts an index exactly when it is the start or the end of the text or the index of a byte that does not continue a UTF-8 sequence, and rejects every index outside the text without panicking. Converting byte offsets 0 <= start <= end <= length of a valid UTF-8 text to rune offsets gives, at both ends, the position among the runes of the rune that the byte belongs to, or the number of runes at the end of the text; it never panics, and preserves order.',
  ['inputs'],'every valid UTF-8 text and every integer index / byte range inside it',
  'Tests check one string, and do not test the converter at all.',
  ['strutils/strutils.go'],[('IsRuneBoundary','strutils/strutils.go'),('BytesToRuneOffsetConverter','strutils/strutils.go')],observe=['IsRuneBoundary','Convert'])
p('C28','Original-side alignments invert the normalized-side ones',
  'For every normalized string reachable by edits, the recalculated original alignments have one entry per byte of the original text, and each entry is the range of normalized bytes that are aligned to that original byte.',
  ['inputs','histories'],'every text and edit history',
  'Tests check about fifteen final states.',
  [NS],[('OriginalAlignments',NS)],observe=['NormalizedString.OriginalAlignments'])
p('C29','Default expressions segment as the reference tokenizers do',
  'The default byte-level and word splitting expressions match, at every position of every text, exactly what the reference expressions match there: the one of GPT-2, which tells upper from lower case, and one that takes runs of word characters, and runs of what is neither a word character nor white space.',
  ['inputs'],'every text',
  'Tests compare a few sentences; expressions that differ in one class or in the order of alternatives agree on most texts.',
  ['pretokenizers/bytelevelpretokenizer/bytelevelpretokenizer.go','pretokenizers/whitespacepretokenizer/whitespacepretokenizer.go'],[('DefaultSplittingRegexp','pretokenizers/bytelevelpretokenizer/bytelevelpretokenizer.go'),('DefaultWordRegexp','pretokenizers/whitespacepretokenizer/whitespacepretokenizer.go')],observe=['PreTokenize'])
p('C30','Dropout skips each merge with the configured probability',
  'With dropout p, every candidate merge is skipped independently with probability p; with p >= 1 no merge is ever applied.',
  ['configurations','schedules'],'every p and input',
  'A test samples one run.',
  ['models/bpemodel/word.go'],[('MergeAll dropout test','models/bpemodel/word.go')],observe=['BPEModel.Tokenize'])
p('C31','Every operation finishes',
  'Every operation ends by returning, for every text, vocabulary, merge table, configuration and range: each of its loops makes progress towards its end with every iteration, nothing calls itself without end, and nothing waits for an event that may never come.',
  ['inputs','configurations'],'every input and configuration of every operation',
  'A test that ends says nothing about the next input.',
  ['models/bpemodel/word.go','models/wordpiecemodel/wordpiecemodel.go','vocabulary/vocabulary.go','splitpattern/regexp2.go',NS],[('merging of a word','models/bpemodel/word.go'),('search for the longest piece','models/wordpiecemodel/wordpiecemodel.go'),('loops','all packages')],observe=['every exported function'])
p('C32','Tokenizing a text takes time near-linear in its length',
  'The time and the memory an operation takes grow no faster than quadratically with the length of the text.',
  ['inputs'],'every text and configuration',
  'Tests use short texts.',
  ['models/bpemodel/word.go',NS],[('loops over the text','all packages')],observe=['every exported function'])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+'\n')
