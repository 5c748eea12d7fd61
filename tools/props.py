TECH = {
 'ai': 'abstract interpretation of the SSA form (constants, boolean-function bits, guarded values) against the standard\'s formulas',
}
NA = []
PROPS = []
def P(id, title, st, over, q, why, files, mech, obs, note, **k):
    PROPS.append(dict(id=id, title=title, st=st, over=over.split(), q=q, why=why, files=files.split(),
                      mech=mech, obs=obs, note=note, **k))

FN = 'Deciding step: abstract interpretation of the current source from the public constructor to the matrix a writer receives. '
RS = 'The Reed-Solomon dependency (outside the repository) is an uninterpreted symbol source: only its call interface is checked. '
SYM = ['New/NewWith followed by Save: the matrix handed to a Writer']
BUILD = [('matrix construction', 'qrcode.go: prefillMatrix, fillDataBinary and their helpers'), ('version table', 'version_cfg.go, version.go')]

# --- S: structure of the symbol -------------------------------------------------
P('S01', 'Finder, separator, timing, alignment and dark modules',
  'In every symbol the library produces, the three finder patterns, their separators, the two timing patterns, every alignment pattern of the version (at the positions of ISO/IEC 18004) and the dark module are present and have exactly the colours the standard prescribes. This holds for every version 1 to 40, every error correction level, every text and whichever mask is chosen.',
  'inputs configurations', 'all 40 versions x 4 levels, all payload bits, all masks',
  'The tests build a few symbols and compare none with the standard; alignment centres of 40 versions and payload independence need all symbols.',
  'qrcode.go version.go version_cfg.go matrix.go', BUILD + [('alignment positions', 'version.go: loadAlignmentPatternLoc')], SYM,
  FN + RS + 'Covers all 160 version/level pairs with every payload and EC bit symbolic and the mask choice open.')
P('S02', 'Placement of codewords in the data region',
  'Read in the standard\'s order (two-column strips from the right, alternating upwards and downwards, skipping the vertical timing column and all function modules), the unmasked data region holds one whole codeword after another, most significant bit first, every codeword exactly once, followed by the version\'s remainder modules, which are light. This holds for every version, level and text.',
  'inputs configurations', 'all versions and levels, all payload bits',
  'Tests do not decode the symbols; a slip in the zigzag near an alignment pattern or version block shows in some versions only.',
  'qrcode.go matrix.go', [('zigzag placement', 'qrcode.go: fillDataBinary'), ('function modules first', 'qrcode.go: prefillMatrix')], SYM,
  FN + RS + 'The provenance of each module is tracked to one bit of one block codeword.')
P('S03', 'The declared mask is the mask applied, on data modules only',
  'The mask pattern number stored in the format information is the one whose condition has been XORed onto the symbol: each data-region module is flipped exactly where the standard\'s condition of that mask (on row and column) holds, and no function module is ever flipped. This holds for each of the eight masks, every version, level and text.',
  'inputs configurations', 'eight masks x all versions and levels, all payload bits',
  'Which mask is chosen depends on the text; tests see a few choices only.',
  'mask.go qrcode.go', [('mask conditions', 'mask.go: modulo functions'), ('mask application', 'qrcode.go: xorMask'), ('mask choice', 'qrcode.go: masking')], SYM,
  FN + RS + 'Penalty scores are abstracted to free values so that each of the eight masks can win.')
P('S04', 'Format information: level, mask, BCH code, both copies',
  'Both copies of the format information hold the same 15-bit word: the error correction level requested, the mask used, the BCH(15,5) check bits and the standard\'s XOR constant, each bit at its prescribed module. This holds for all 32 level/mask combinations and every version and text.',
  'inputs configurations', '4 levels x 8 masks x all versions and payloads',
  'The 32 words are a table and the placement is index arithmetic; tests check neither against the code definition.',
  'version.go qrcode.go version_cfg.go', [('format table', 'version.go: formatBitSequence'), ('placement', 'qrcode.go: fillFormatInfo')], SYM,
  FN + 'The BCH words are computed from the generator polynomial, not read from the repository.')
P('S05', 'Version information blocks',
  'Symbols of version 7 and above carry the version number with its BCH(18,6) check bits in both version blocks, each bit at its prescribed module; smaller symbols carry no version block. This holds for every level, text and mask.',
  'inputs configurations', 'versions 7 to 40 x levels, all payloads and masks', 'Tests look at no version block.',
  'version.go qrcode.go', [('version words', 'version.go: versionBitSequence'), ('placement', 'qrcode.go: fillVersionInfo')], SYM,
  FN + 'The BCH words are computed from the generator polynomial.')
P('S06', 'Block structure: number and size of data and error correction blocks',
  'For every version and level, the message codewords are cut, in order, into exactly the blocks ISO/IEC 18004 prescribes (count, and data codewords per block), and error correction of exactly the prescribed length is computed over each block alone. No codeword is lost, duplicated or moved to another block.',
  'inputs configurations', 'all 160 version/level pairs, all payload bits', 'The block table has 160 hand-written entries; tests use a handful.',
  'version_cfg.go encoder.go qrcode.go', [('block table', 'version_cfg.go'), ('splitting', 'qrcode.go: dataEncoding/splitIntoBlocks')], ['the blocks passed to the Reed-Solomon encoder, and the resulting matrix'],
  FN + 'The prescribed values are derived from the standard\'s capacity formulas and checked against every table entry through the analysed run.')
P('S07', 'Interleaving of data and error correction codewords',
  'The codewords of the symbol are ordered as the standard prescribes: the first data codeword of every block, then the second of every block, and so on (short blocks are skipped once exhausted), followed by the error correction codewords interleaved the same way. This holds for every version, level and text.',
  'inputs configurations', 'all 160 version/level pairs, all payload bits', 'Only symbols with several blocks of two sizes show the difference; tests decode none.',
  'qrcode.go', [('interleaving', 'qrcode.go: arrangeBits')], SYM, FN + RS)
P('S08', 'Symbol dimension and module types',
  'A symbol of version v is a square of 4v+17 modules and the reported dimension is that number. Every module the matrix yields has been assigned (none is left in its initial state) and its type names the region it belongs to (finder, separator, timing, format, version, dark or data), so a writer can style regions separately. This holds for every version, level and text.',
  'inputs configurations', 'all versions and levels, all payload bits', 'Type errors in one region of one version are invisible to the image tests.',
  'qrcode.go matrix.go matrix_type.go', [('types', 'matrix_type.go'), ('construction', 'qrcode.go: prefillMatrix')], SYM + ['Dimension()'], FN)
# --- E: segment encoding ------------------------------------------------------------
ENC = [('segment encoding', 'encoder.go: Encode and the encode functions'), ('padding', 'encoder.go: breakUpInto8bit')]
MSG = ['the data codewords of the symbol (first blocks of the interleaved sequence)']
P('E01', 'Numeric and alphanumeric segments carry the standard\'s groups',
  'A numeric text is stored as the numeric mode indicator and groups of three digits in 10 bits (a rest of two in 7 bits, of one in 4 bits); an alphanumeric text as its indicator and pairs of characters (45 times the first value plus the second) in 11 bits, a single rest character in 6 bits. This holds for every text of these alphabets, every length up to capacity and every version.',
  'inputs', 'every digit and every one of the 45 characters at every position, all lengths modulo the group size, all versions',
  'Tests encode a few strings; leading zeros in a group, the rest groups and all 45 values need all inputs.', 'encoder.go', ENC, MSG,
  FN + 'Characters are symbolic; result bits are compared as boolean functions of the characters.')
P('E02', 'Byte segments carry every byte unchanged',
  'In byte mode the symbol stores the byte mode indicator and the bytes of the text in order, eight bits each, for all 256 byte values, whether or not the text is valid UTF-8, for every version and every length up to capacity.',
  'inputs', 'all byte values at every position, all versions', 'Tests encode ASCII and little else.', 'encoder.go qrcode.go', ENC, MSG, FN)
P('E03', 'Kanji segments carry 13-bit Shift JIS values',
  'In Kanji mode each character is stored as its Shift JIS code reduced as the standard prescribes (subtract 0x8140 or 0xC140, high byte times 0xC0 plus low byte) in 13 bits, behind the Kanji mode indicator. This holds for every ideograph that has a Shift JIS code in the two Kanji ranges (the library admits ideographs only to Kanji mode, no kana, no symbols), at every position and in every version.',
  'inputs', 'every ideograph with a Shift JIS code in range; mixed texts', 'Tests encode a few words; both ranges and their edges need all characters.', 'encoder.go utilities.go chardet.go',
  ENC + [('Shift JIS', 'encoder.go: toShiftJIS')], MSG, FN + 'The Shift JIS table is read from golang.org/x/text (trusted).')
P('E04', 'Character count indicator: width per version and value',
  'The character count field has the width the standard prescribes for the mode and version range (1-9, 10-26, 27-40) and holds the number of characters: bytes in byte mode, digits, alphanumerics or Kanji characters in the others. This holds for every length from empty to capacity.',
  'inputs configurations', 'all modes, versions, levels and lengths', 'The width changes at versions 10 and 27; tests use few versions.', 'encoder.go', [('count width', 'encoder.go: charCountMap / charCountBits')] + ENC, MSG, FN)
P('E05', 'Terminator, bit padding and pad codewords',
  'After the segment the symbol stores at most four zero bits of terminator (fewer if less room is left), zero bits up to the codeword boundary, and then the pad codewords 11101100 and 00010001 alternating, so that the message exactly fills the data codewords. This holds for every mode, version, level and length, in particular when the text fills or nearly fills the symbol.',
  'inputs configurations', 'all modes, versions, levels, lengths near capacity and near empty', 'Edge cases sit at the last 0 to 12 bits of capacity, which tests miss.', 'encoder.go', ENC, MSG, FN)
# --- M: choices --------------------------------------------------------------------------
OPT = [('options', 'encoder_option.go'), ('mode detection', 'chardet.go'), ('construction', 'qrcode.go: build / NewWith')]
VER = [('version choice', 'version.go: analyzeVersion, qrcode.go'), ('capacity table', 'version_cfg.go')]
P('M01', 'Automatic mode is the narrowest mode that holds the whole text',
  'Without a requested mode the text is stored in the narrowest mode able to hold every one of its characters: numeric, alphanumeric, Kanji (for texts made of ideographs that have a code in the Kanji ranges), else byte. One character outside a mode, wherever it stands, excludes that mode for the whole text.',
  'inputs', 'every sequence of character classes up to length 3 and longer texts with one odd character anywhere', 'Detection is stateful over the text: failures need a particular order of characters.', 'chardet.go encoder.go qrcode.go', OPT, MSG,
  FN + 'Nine classes partition the characters; each character is symbolic in its class. Texts longer than three are covered by patterns, not by all sequences.')
P('M02', 'A requested mode is honoured or refused',
  'If a mode is requested and can hold every character of the text (numeric: digits, alphanumeric: the 45 characters of the standard, Kanji: ideographs with a code in the Kanji ranges, byte: any), the symbol uses that mode; otherwise construction returns an error and no symbol. A mode is never silently replaced, no character is ever silently dropped or altered, and unknown mode values are refused with an error too.',
  'inputs configurations', 'every mode value x sequences of character classes, with and without a version', 'Tests request modes for matching texts.', 'chardet.go encoder.go qrcode.go encoder_option.go', OPT, ['result of NewWith, message of the symbol'], FN)
P('M03', 'The chosen version is the smallest that fits',
  'Without a requested version the symbol has the smallest version whose data capacity for the mode and level, by the standard, holds the text; a text beyond the capacity of version 40 is refused with an error. This holds for every mode, level and length.',
  'inputs configurations', 'all versions, levels and modes at capacity and one character beyond', '640 capacity borders; tests touch a few.', 'version.go version_cfg.go qrcode.go', VER, ['Dimension() and message of the symbol, error of New'], FN)
P('M04', 'A requested version is honoured or the text is refused, never cut',
  'If a version is requested, the symbol has exactly that version and holds the whole text, or construction returns an error and no symbol. A text that does not fit is never cut, and a text that fits is never refused.',
  'inputs configurations', 'all versions, levels and modes; texts at, just above and far above capacity', '640 borders; tests touch a few.', 'version.go qrcode.go encoder.go', VER, ['Dimension() and message of the symbol, error of NewWith'], FN)
P('M05', 'The minimum version raises the automatic version and nothing else',
  'With a minimum version and no requested version, the symbol\'s version is the larger of the minimum and the smallest version that fits, and the stored message is the one of that version. Level, mode and content do not change.',
  'inputs configurations', 'all minimum versions, levels, modes and text sizes below, at and above', 'Tests set one minimum.', 'encoder_option.go qrcode.go version.go', VER + OPT, ['Dimension() and message of the symbol'], FN)
P('M06', 'The symbol\'s message decodes to exactly the input text',
  'For every text that construction accepts with default options, decoding the symbol\'s data codewords by the standard gives exactly the input text: nothing is dropped, cut, duplicated, reordered or altered, whatever mixture of characters it contains and however long it is.',
  'inputs', 'texts over mixed character classes, lengths from 1 to capacity', 'Tests decode nothing.', 'chardet.go encoder.go qrcode.go version.go', OPT + ENC, MSG, FN + 'Long texts are fixed patterns with symbolic characters at changing positions.')
P('M07', 'Invalid options are ignored and the last valid option wins',
  'A version or minimum version outside 1 to 40 or an unknown error correction level leaves the setting as it was; of several valid settings of the same option the last one counts; unset options take the defaults (automatic mode, smallest version, level Q). This holds for every pair of settings.',
  'configurations', 'all pairs of valid and invalid settings', 'Tests set each option once.', 'encoder_option.go', OPT, ['version, level and message of the symbol'], FN)
P('M08', 'Strings, byte slices and named variants give the same symbol',
  'Construction from a string, a byte slice, or any type derived from them gives the same symbol for the same bytes, never fails for lack of knowing the type, and never modifies the caller\'s bytes.',
  'inputs', 'all text types x character classes', 'Tests use string mostly.', 'qrcode.go utilities.go', OPT, ['result of New/NewWith'], FN)
# --- R: running behaviour of construction and saving ----------------------------------------
RES = ['result of New/NewWith', 'the matrix handed to a Writer by Save']
MASK = [('mask choice', 'qrcode.go: masking'), ('penalties', 'mask_evaluation.go')]
P('R01', 'Construction and saving never panic, and give a symbol or an error',
  'For every text (empty, any characters, any length up to far beyond what fits) and every combination of option values, valid or nonsense, New/NewWith return in bounded time either a symbol and no error or an error and no symbol, never both or neither and never by panicking; and saving the symbol and reading its matrix through any accessor does not panic either.',
  'inputs configurations', 'all mode/version/level/minimum-version requests incl. invalid ones x texts over nine character classes, and lengths around all capacities', 'The combinations of options and text shapes are too many to sample; panics sit in odd ones.',
  'qrcode.go encoder.go encoder_option.go version.go matrix.go chardet.go', OPT + BUILD, RES, FN + 'Characters are symbolic; long texts have symbolic ends.')
P('R02', 'The mask has the lowest penalty; the lowest number wins ties',
  'Of the eight mask patterns the symbol carries the one whose candidate symbol has the lowest penalty; when several share the lowest penalty, the one with the lowest mask number is used. The order in which concurrently computed penalties arrive makes no difference, so that the same text and options always give the same symbol.',
  'inputs schedules', 'every order relation of the eight penalties x four orders of the concurrent evaluations x versions and levels', 'Ties are rare and the arrival order is the scheduler\'s choice.',
  'qrcode.go mask_evaluation.go', MASK, RES, FN + 'Penalties are free values here; R03 decides the penalties themselves.')
P('R03', 'Mask penalties follow the four documented rules',
  'The penalty of a candidate symbol is the sum of the four documented rules: 3 plus the excess over five for every run of five or more same-coloured modules in a row or column; 3 for every 2x2 block of one colour; 40 for every dark-light-dark-dark-dark-light-dark pattern with four light modules before or after it in a row or column; and 10 for every full five percent by which the share of dark modules departs from one half. Only colours count, not module types.',
  'inputs', 'symbols with 10 to 13 free payload or error correction bits, every valuation of them', 'A slip in one rule changes the mask for some texts only; tests compare no mask with the rules.',
  'mask_evaluation.go qrcode.go', MASK, RES, FN + 'The analysed penalty expression is compared with the rules at every valuation of the free bits, on many base symbols. Valuations in which the dark share is an exact multiple of five percent are left out (the documentation is not explicit there).')
P('R04', 'Concurrent constructions and saves are free of data races',
  'Several goroutines may construct symbols (also from one shared list of options) and save, measure and read the same or different symbols at once, with debug mode on or off: no memory is accessed by two of them without ordering when one writes, every goroutine the library starts ends, and each gets the result it would get alone.',
  'schedules histories', 'two concurrent constructions with own or shared options, two concurrent saves and uses of one symbol, and each construction\'s own goroutines, debug mode off and on, under four orders', 'The race detector sees only schedules and accesses that happen in the tests, which hardly use concurrency.',
  'qrcode.go mask_evaluation.go matrix.go version.go debug.go', MASK + [('shared tables', 'version_cfg.go, version.go')], RES, FN + 'Happens-before ordering is by vector clocks over every abstract memory cell, so a race is found whatever order is analysed.',
  tech='happens-before (vector clock) race analysis on the abstract interpretation of the SSA form')
P('R05', 'A symbol does not depend on earlier or later work',
  'The symbol for a text and options is the same whatever the process did before: other symbols built or saved, other options, texts that were refused, the same option list used repeatedly. And a symbol, once built, never changes: saving it again later gives the same matrix.',
  'histories', 'histories of constructions with other texts, modes, versions, levels, refused ones, saves in between', 'Tests build symbols in one fixed history and compare no repeats.',
  'qrcode.go encoder.go version.go matrix.go encoder_option.go chardet.go', OPT + BUILD, RES, FN)
P('R06', 'The symbol is independent of the caller\'s buffer',
  'When the text is given as bytes, the caller may reuse or overwrite its buffer at any time after construction returned without changing the symbol, and the library never writes to the caller\'s buffer.',
  'inputs histories', 'symbolic texts in several modes, every byte overwritten after construction', 'Tests never reuse a buffer.', 'qrcode.go utilities.go encoder.go', OPT, RES, FN)
P('R07', 'Building a symbol has no side effects',
  'With the debug switch off (the default), constructing a symbol and handing it to a writer neither reads nor writes files or standard streams, nor logs, nor changes the environment, sleeps, uses the network or ends the process, for any text that is accepted.',
  'inputs configurations', 'all modes, versions, levels and character classes', 'Tests do not observe the streams or the file system.', 'qrcode.go debug.go matrix.go version.go encoder.go', BUILD + [('debug output', 'debug.go')], ['calls that leave the process memory'], FN,
  tech='effect analysis on the abstract interpretation of the SSA form')
P('R08', 'Save writes once, closes once and returns the writer\'s error',
  'Save hands the matrix to the writer exactly once, closes the writer exactly once after Write has returned, whether Write or Close fail or not, and returns Write\'s own error. Saving can be repeated with the same result, and a nil writer is accepted without a panic.',
  'fault_sequences', 'all combinations of failing and succeeding Write and Close', 'Tests use writers that always succeed.', 'qrcode.go writer.go', [('Save', 'qrcode.go: Save')], ['calls on the Writer, result of Save'], FN)
P('R09', 'Debug mode changes no symbol',
  'Debug mode (SetDebugMode, or the environment variable QRCODE_DEBUG) only adds output: for every text and options the symbol, whether the text is refused, and the outcome of Save are the same with debug mode on, off, or switched on between two constructions, and nothing panics, also when the draft pictures debug mode writes cannot be created, written or closed.',
  'inputs configurations fault_sequences', 'symbolic and fixed texts x modes, versions and levels x failures of every file operation', 'Tests never compare symbols of the two modes, and cannot make the draft files fail.',
  'debug.go qrcode.go mask_evaluation.go matrix.go', BUILD + [('debug output', 'debug.go: debugLogf, debugDraw')], RES, FN + 'Log output is taken to succeed; the pixels of the draft pictures are not looked at.')
P('X01', 'All views of a matrix agree',
  'The matrix given to a writer shows the same modules through every accessor: iteration by rows and by columns visits every module exactly once in its order, and Row, Col, Bitmap and Copy hold the same values at the same positions. Rows and columns outside the matrix are nil.',
  'inputs configurations', 'symbols of ten versions with symbolic payload; all rows and columns', 'Tests read small hand-made matrices through one accessor.', 'matrix.go', [('views', 'matrix.go: Iterate, Row, Col, Bitmap, Copy')], ['public accessors of Matrix'], FN)
P('X02', 'Views of a matrix are copies',
  'What Row, Col, Bitmap and Copy return belongs to the caller: overwriting it changes neither the matrix, nor the symbol it came from, nor any other view.',
  'histories', 'every row and column of symbols of several versions', 'Tests never write to a view.', 'matrix.go', [('views', 'matrix.go: Row, Col, Bitmap, Copy')], ['public accessors of Matrix'], FN)
P('X03', 'Module values: type, state and name agree',
  'The values of modules a writer meets are told apart by Type (data, version, format, finder, dark, splitter, timing: pairwise different) and IsSet (the state); QRValue_X_V1 and QRValue_X_V0 have type QRType_X and are set and unset; a value prints as its type\'s letter and its state (1 or 0), no two values alike.',
  'inputs', 'all named values; every module of symbols with symbolic payload', 'Writers outside the repository depend on the values; tests look at internal functions only.', 'matrix_type.go matrix.go', [('values', 'matrix_type.go')], ['QRValue and QRType'], FN)
# --- W: writers -------------------------------------------------------------------
WFN = 'Deciding step: abstract interpretation of the current source of the writer on symbols whose data modules are free bits. '
IMG = ['the image handed to the ImageEncoder']
DRAW = [('drawing', 'writer/standard/writer.go: draw')]
SOPT = [('options', 'writer/standard/image_option_api.go')]
P('W01', 'The standard image is the module grid: size, borders, colours',
  'The image the standard writer hands to its encoder is exactly (modules * block width + left + right) by (modules * block width + top + bottom) pixels; every border pixel has the background colour, and every pixel of a module\'s square has the foreground colour exactly when that module is set, the background colour otherwise. WithBorderWidth takes none (40 each), one (all four), two or three (top/bottom, left/right) or four values (top, right, bottom, left); without WithQRWidth, or with 0, a block is 20 pixels.',
  'inputs configurations', 'symbols with free data modules x block widths x every form of border argument', 'Tests write files nobody reads back; exchanged borders or a shifted grid stay unseen.',
  'writer/standard/writer.go writer/standard/image_option.go writer/standard/image_option_api.go', DRAW + SOPT, IMG, WFN + 'The drawing library is modelled by pixel-centre fills.')
P('W02', 'Each set module is drawn once by the right shape method',
  'When the standard writer draws with an IShape (built-in or the user\'s own), every set module leads to exactly one call: DrawFinder for finder-pattern modules, Draw for all others, with a DrawContext whose UpperLeft and Edge are that module\'s exact square in the image and whose Color is the foreground colour. A call for an unset module, if made, is made at most once and carries the background colour (transparent if so configured). There are no calls for anything that is not a module.',
  'inputs configurations', 'symbols with free data modules x block widths, borders, colours, transparency, logo', 'Tests install no recording shape.',
  'writer/standard/writer.go writer/standard/image_qr_shape.go', DRAW, ['calls of a user\'s IShape'], WFN + 'Colours are free values.')
P('W03', 'Foreground and background colours come from the options',
  'Every pixel of a set module has the foreground colour and every other pixel the background colour the options give, for 8-bit opaque colours of any color.Color kind and hex strings; the last option of a kind wins; nil colours and empty strings are ignored. With WithBgTransparent, in any position of the option list, everything but the set modules is fully transparent and set modules keep the foreground colour.',
  'inputs configurations', 'free colour bytes x option orders and forms x free data modules', 'Colour channels swapped or an option order mattering do not fail tests that write files.',
  'writer/standard/image_option.go writer/standard/image_option_api.go writer/standard/writer.go', SOPT + [('colour of a module', 'image_option.go: translateToRGBA, backgroundColor, parseFromColor')], IMG, WFN + 'Colours are free values; colours deeper than 8 bits or semi-transparent are outside the statement (an existing test pins their truncation).')
P('W04', 'Attribute promises the geometry of the image',
  'Writer.Attribute(dimension) reports, for every dimension, block width 0 to 255 and every border setting, exactly the width, height, borders (top, right, bottom, left) and block width of the image Write produces for a symbol of that dimension.',
  'inputs configurations', 'all block widths x all forms of borders with free values x dimensions', 'One configuration is tested.',
  'writer/standard/image_option.go writer/standard/writer.go', [('attribute', 'image_option.go: preCalculateAttribute')], ['Attribute', 'image size (W01)'], WFN + 'Border values are free 8-bit values.')
P('W05', 'The logo is centred, whole and on top, if it fits',
  'A logo whose width and height are at most 1/multiplier of the image\'s (5 unless WithLogoSizeMultiplier says otherwise) appears unchanged, pixel by pixel, in the centre of the image ((image - logo)/2 rounded down from the left and the top) on top of the modules, wherever the logo\'s own bounds start (sub-images); partly transparent logo pixels are blended over an opaque image beneath; everything outside its rectangle is as without it. A logo that does not fit is left out, the image is as without it, and Write still succeeds.',
  'inputs configurations', 'free logo pixels x sizes at and one beyond the limit in each direction x multipliers x bounds origins', 'Tests draw one logo and compare nothing.',
  'writer/standard/writer.go', [('logo', 'writer.go: draw, validLogoImage')], IMG, WFN)
P('W06', 'The logo safe zone clears exactly the modules under the logo',
  'With WithLogoSafeZone and a logo that fits, set modules whose square shares at least a pixel with the logo\'s rectangle are not drawn (their place shows the background colour) and count as unset in the neighbour masks of the modules around; all other modules are drawn and counted as usual. Without a logo, or with one that does not fit, nothing is cleared.',
  'inputs configurations', 'free data modules x logo sizes in every alignment to the module grid x asymmetric borders', 'Off-by-one and transposed zones need asymmetric borders and non-square logos.',
  'writer/standard/writer.go', [('safe zone', 'writer.go: blockOverlapsLogo, draw')], IMG + ['calls of a user\'s IShape'], WFN)
P('W07', 'Shapes are told the state of all eight neighbours',
  'DrawContext.Neighbours has, for every module drawn, the flag NTopLeft ... NBotRight of each direction set exactly when the neighbour in that direction exists and is set, and NSelf exactly when the module itself is set; modules a logo safe zone clears count as unset; the nine flags are distinct bits.',
  'inputs', 'every module of symbols with free data modules', 'A transposed mask looks right on symmetric patterns.',
  'writer/standard/writer.go writer/standard/image_qr_shape.go', [('neighbours', 'writer.go: getNeighbours')], ['DrawContext.Neighbours in a user\'s IShape'], WFN)
P('W08', 'The gradient colours the set modules by projection',
  'With WithFgGradient each pixel of a set module has, up to one unit per channel, the colour obtained by linear interpolation between the two neighbouring stops at the pixel\'s position projected onto the gradient\'s direction (0 right, 90 up, 180 left, 270 down), normalised to 0..1 over the four corners of the image; before the first and after the last stop the colour of that stop. Background pixels and the logo are untouched. NewGradient sorts the stops of the gradient and leaves the caller\'s slice as it was. A nil gradient or one without stops changes nothing.',
  'inputs configurations', 'angles in all quadrants x stop lists in any order x free data modules', 'Tests check a single interpolation, not an image.',
  'writer/standard/gradient.go writer/standard/writer.go', [('gradient', 'gradient.go')], IMG, WFN + 'Angles and stops are sampled, pixels and modules are all covered.')
P('W09', 'Writing does not change the writer; writers are independent',
  'A writer may write any number of symbols: each image depends only on the symbol and the writer\'s options, never on what was written before; Attribute does not change by writing, images handed to the encoder earlier are not altered, and other writers (also ones made from the same option values, and default ones) are not affected. Two writers may write at the same time without data races and give the images they give alone.',
  'histories schedules configurations', 'sequences of writes x option combinations x four scheduling orders of two writers', 'Tests write once per writer and never concurrently.',
  'writer/standard/writer.go writer/standard/image_option.go writer/standard/gradient.go', DRAW + SOPT, IMG + ['Attribute'], WFN,
  tech='abstract interpretation of the SSA form (image equality over free modules) and happens-before (vector clock) race analysis')
P('W10', 'Halftone images keep every module\'s middle',
  'With a halftone image and a block width that is a multiple of three, the middle ninth of every data module has the module\'s own colour, and each of its other eight ninths is black where the scaled picture is dark and white (transparent with WithBgTransparent) where it is light, at the same relative position; the whole picture is scaled to three by three points per module. Modules of all other types are drawn as without a halftone image.',
  'inputs configurations', 'free data modules x free black and white pictures x colours, transparency, borders', 'The tests with halftone images only write files.',
  'writer/standard/writer.go writer/standard/imgkit/process.go', [('halftone', 'writer.go: draw, halftoneColor')], IMG, WFN + 'The external scaler is free to give any picture.')
P('W17', 'Shipped shapes keep modules readable and keep their parameters',
  'With every built-in or shipped shape (block width at least 3 pixels) the pixels in the middle of each module have the foreground colour exactly when the module is set. Looking at one module in each of the 512 states of its neighbourhood: an unset module draws no foreground; stripes and chains reach the middle of the edge shared with a neighbour exactly when both are set and the shape connects in that direction, the liquid block whenever both are set; vertical stripe and chain blocks are the transposed horizontal ones; stripe width and block size follow the given ratio, with the documented defaults (0.85; 1.0) for values outside the documented ranges. RoundedFinder draws the three finder patterns alike and mirror-symmetrically. Assemble uses its first function for finder modules and the second for all others. A shape can be used for any number of images of any sizes: each comes out as with a fresh shape.',
  'inputs configurations', 'all shapes and parameters x all 512 neighbourhoods, and whole images of free data modules', 'There are no tests of the shapes package.',
  'writer/standard/shapes/blocks.go writer/standard/shapes/finders.go writer/standard/shapes/constructor.go writer/standard/image_qr_shape.go', [('blocks', 'shapes/blocks.go'), ('finders', 'shapes/finders.go'), ('circle', 'image_qr_shape.go')], IMG, WFN)
P('W18', 'imgkit.Gray and Binaryzation work pixel by pixel',
  'imgkit.Gray(src) has src\'s bounds (wherever they start) and at each point the luminance of src there; Binaryzation(src, t) has src\'s bounds and is white exactly at the points whose luminance is above t, black elsewhere. Neither changes src.',
  'inputs', 'pictures with any bounds, free gray pixels, every threshold, sample colours', 'The tests of imgkit are skipped.',
  'writer/standard/imgkit/process.go', [('processing', 'imgkit/process.go')], ['results of Gray and Binaryzation'], 'Deciding step: abstract interpretation of the current source on free pixels. ')
P('W19', 'Hex colours: #rrggbb and #rgb',
  'WithFgColorRGBHex and WithBgColorRGBHex give, for every string of # and six or three hexadecimal digits in either case, exactly the opaque colour the digits denote: two digits per channel in the order red, green, blue, or one digit doubled.',
  'inputs', 'all digit values in all positions', 'A few strings are tested.',
  'writer/standard/image_option.go', [('hex colours', 'image_option.go: parseFromHex')], IMG, WFN)
P('W20', 'Image options: the last of a kind wins, different kinds commute',
  'The image depends only on the last option of each kind (module width, borders, background and foreground colour, background transparency, gradient, logo, logo size limit, logo safe zone, halftone picture, shape), not on the order in which options of different kinds are given; options that set nothing (nil colours, empty hex strings, a nil or empty gradient, a nil logo, nil halftone picture, nil shape) leave everything as it was. Exactly one encoder is called, once, with that image and the writer\'s output: JPEG by default, otherwise the last one given with WithBuiltinImageEncoder or WithCustomImageEncoder, a nil encoder being ignored.',
  'configurations histories', 'all pairs of kinds in both orders, all kinds in several orders, two settings of every kind, encoder lists', 'There are thousands of orders; tests give each option once in one order.',
  'writer/standard/image_option.go writer/standard/image_option_api.go writer/standard/image_format.go writer/standard/writer.go', SOPT + DRAW, IMG + ['calls of a user\'s ImageEncoder'], WFN + 'Option values are concrete, some modules are free.')
P('W21', 'All writers can be reused and leave the symbol as it is',
  'Each of the four writers can write several symbols, one after the other, of any sizes: each output (image, text; terminal cells when the symbols do not shrink) is the one a fresh writer with the same settings gives for that symbol, other writers of the same kind do not interfere, and no writer changes a module of the symbol it is given. Different compressed and file writers may write at the same time without data races.',
  'histories schedules', 'sequences of symbols of growing, shrinking and equal sizes x two interleaved writers x four scheduling orders', 'Tests write once per writer.',
  'writer/compressed/writer.go writer/file/writer.go writer/terminal/writer.go writer/standard/writer.go', [('writing', 'writer.go: Write of each writer')], ['outputs of the writers', 'the matrix after Write'], WFN)

P('W22', 'imgkit.Scale renders the whole picture onto the rectangle',
  'imgkit.Scale(src, rect, scaler) gives an image whose bounds are exactly rect, whatever the origins of src and rect: the whole of src (src.Bounds()) is rendered by the given scaler, called once, onto all of rect, and every pixel is what the scaler makes there. A nil scaler means draw.ApproxBiLinear. The source keeps its pixels.',
  'inputs configurations', 'pictures and rectangles of several sizes and origins x own scaler or none, all pixels free', 'Nothing tests the origin or the size of the result.',
  'writer/standard/imgkit/process.go', [('scaling', 'imgkit/process.go: Scale')], ['bounds and pixels of the result', 'calls of the scaler', 'pixels of the source'], WFN + 'The scalers of golang.org/x/image/draw are modelled as giving any pixels.')

IO = 'Deciding step: abstract interpretation of the current source with a model of the operating system in which every operation may fail under its own free condition; the obligations are checked on every feasible sequence of operations. '
OUTS = ['bytes that reach the output, returned errors, operations on files']
P('W11', 'Writers report every I/O error and close their output once',
  'Write of the standard writer (with the JPEG, PNG or a caller\'s encoder) and of the compressed writer returns nil exactly when the image was encoded without an error and all of it was written to the output; any failure of the encoder or of a write is returned. Write does not close the output. Close closes the output exactly once and returns its error; for the standard writer an output that is already closed (os.ErrClosed) is no error.',
  'fault_sequences inputs', 'every operation may fail, in every combination', 'Tests write to files that never fail.',
  'writer/standard/writer.go writer/standard/image_format.go writer/compressed/writer.go', [('output', 'writer.go: drawTo, Close'), ('encoders', 'image_format.go'), ('compressed', 'compressed/writer.go')], OUTS, IO,
  tech='abstract interpretation of the SSA form with free failure conditions on every I/O operation')
P('W12', 'The image goes to the named file',
  'standard.New(name) and compressed.New(name) open exactly the named file for writing, creating it when missing and emptying it when it exists; if opening fails they return the error and no writer. A Write that returns nil leaves exactly the encoded image in that file and touches no other; Close closes it. imgkit.Save writes the image as JPEG for .jpg and .jpeg, as PNG for .png, and refuses other extensions with an error; it returns failures of opening, encoding and writing and always closes the file.',
  'fault_sequences inputs', 'several names and extensions, every operation may fail in every combination', 'Tests open files that can be opened.',
  'writer/standard/writer.go writer/compressed/writer.go writer/standard/imgkit/io.go', [('opening', 'writer.go: New'), ('opening', 'compressed/writer.go: New'), ('saving', 'imgkit/io.go: Save')], OUTS, IO,
  tech='abstract interpretation of the SSA form with free failure conditions on every I/O operation')
P('W13', 'The compressed image is the module grid in two colours',
  'The compressed writer encodes one PNG whose image is paletted with at most two colours, is modules*BlockSize + 2*Padding pixels wide and high, and is black exactly in the BlockSize squares of the set modules (row and column in place, Padding pixels from the edges) and white everywhere else.',
  'inputs configurations', 'free modules, several versions, block sizes and paddings', 'The compressed writer has no tests.',
  'writer/compressed/writer.go', [('drawing', 'compressed/writer.go: Write')], ['the image handed to image/png'], WFN)
P('W14', 'The file writer prints the symbol in half blocks',
  'The file writer prints, for an n by n symbol, ceil(n/2) lines of n characters, each followed by a line feed: the character shows the two modules above each other (space, upper half, lower half or full block; beyond the last row counts as unset), and nothing else is written. The first failing write ends Write with an error; a nil file is an error. The caller\'s file is never closed.',
  'fault_sequences inputs', 'fixed patterns with up to eight free modules; every write may fail', 'The file writer has no tests.',
  'writer/file/writer.go', [('printing', 'file/writer.go: Write')], ['the text written to the file'], IO,
  tech='abstract interpretation of the SSA form with free failure conditions on every I/O operation')
P('W15', 'The terminal shows the symbol with a white border',
  'When the terminal writer first flushes the screen, module (x,y) fills the two cells at columns 2(x+1) and 2(x+1)+1 of line y+1 in black when it is set and in white otherwise, and the ring of one module around the symbol is white; the message is below it. Write returns an error of the flush at once, otherwise when a key is pressed and not on other events; Close gives the terminal back.',
  'inputs fault_sequences histories', 'free modules, several versions, event sequences', 'The terminal writer has no tests.',
  'writer/terminal/writer.go', [('drawing', 'terminal/writer.go: Write, preDraw, drawBlock'), ('waiting', 'terminal/writer.go: hold')], ['cells of the screen, returned errors'], IO,
  tech='abstract interpretation of the SSA form with a modelled terminal and free failure conditions')
P('W16', 'Images loaded from files behave like images given directly',
  'WithLogoImageFilePNG, WithLogoImageFileJPEG and WithHalftone give the same image, pixel by pixel, as WithLogoImage or WithHalftoneImage with the decoded picture. If the file cannot be opened or does not decode, the option has no effect: the image is as without it (an earlier setting stays) and nothing panics. The file is only read and is closed in every case. imgkit.Read returns the picture or an error.',
  'fault_sequences configurations', 'open and decode failures x earlier settings', 'Tests load existing files only.',
  'writer/standard/image_option_api.go writer/standard/imgkit/io.go', [('loading', 'image_option_api.go: WithLogoImageFilePNG, WithLogoImageFileJPEG, WithHalftone'), ('reading', 'imgkit/io.go: Read')], IMG + ['operations on files'], IO,
  tech='abstract interpretation of the SSA form (image equality) with modelled file failures')

# --- L: the programs ---------------------------------------------------------------
CLI = 'Deciding step: abstract interpretation of main with a model of the command line library and of an operating system in which every operation may fail under its own free condition. '
CLIF = 'cmd/qrcode/app.go cmd/qrcode/main.go'
CLIM = [('the command', 'app.go: generate, parseGenerateContextFrom'), ('exit status', 'main.go')]
FF = 'abstract interpretation of the SSA form with free failure conditions on every I/O operation'
P('L01', "The command's exit status tells whether the code was made",
  'cmd/qrcode ends with exit status 0 exactly when its arguments are valid (block size 0 to 255, four borders of 0 to 255), the text can be encoded, and opening the output, encoding the image and writing all of it succeed (with --terminal: the terminal can be initialised). In every other case the status is not 0. A halftone picture that cannot be read does not count as a failure.',
  'inputs fault_sequences', 'sample command lines x a failure at every operation on the output', 'The command has no tests.',
  CLIF, CLIM, ['exit status of the process'], CLI, tech=FF)
P('L02', 'A command that cannot make the code leaves the output alone',
  'When cmd/qrcode gets no text or one that cannot be encoded, a wrong flag, a block size above 255, malformed borders, or is only asked for help or its version, it opens, creates, empties and removes no file and does not take the terminal: an existing output file keeps its content.',
  'inputs', 'command lines of every such kind', 'The command has no tests.',
  CLIF, CLIM, ['operations on files and the terminal'], CLI, tech=FF)
P('L03', "The command's flags give the image they name",
  'cmd/qrcode [flags] text writes exactly one image, to the file named by --output/-o (qrcode.jpg without it) and nothing else: PNG when the extension is .png, JPEG otherwise. It equals pixel by pixel the image of the standard writer for the same text with the options the flags name: --block/-s the module width (5 without it), --borders/-b top,right,bottom,left (0 without), --circle, --transparent, --halftone. With --terminal the symbol is shown in the terminal and no file is touched.',
  'configurations', 'sample command lines covering every flag, its alias and combinations', 'The command has no tests.',
  CLIF, CLIM, ['the bytes in the output file', 'the terminal\'s cells'], CLI, tech='abstract interpretation of the SSA form (image equality) with a modelled command line library')
P('L04', 'generateQRCode gives the image its options name, or an error',
  'The JavaScript function generateQRCode(content, options) of cmd/wasm never panics for missing, partial or full option objects (undefined, null and non-objects count as no options, missing fields as their defaults) and returns a plain object. On success: success true, error empty and base64EncodedImage the base64 form of exactly one encoded image, PNG unless outputImageEncoder is jpg or jpeg, which equals pixel by pixel the standard writer\'s image for the content with the encodeVersion, encodeECLevel, outputBgColor, outputBgTransparent, outputQrColor, outputQrWidth, outputCircleShape and outputMargin named. With no content, content that cannot be encoded, or a failing encoder: success false, a non-empty error and an empty image. A call does not depend on the calls before it.',
  'inputs configurations fault_sequences', 'calls with every option present, missing and undefined in combinations', 'The only test prints an empty structure.',
  'cmd/wasm/main.go cmd/wasm/types.go', [('the function', 'main.go: genqrcode'), ('options', 'types.go')], ['the object returned to JavaScript'],
  'Deciding step: abstract interpretation of main and the registered function with a model of syscall/js. ', tech='abstract interpretation of the SSA form (image equality) with a modelled JavaScript boundary')
