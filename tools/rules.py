"""How the cases of each check are made and what makes one non-trivial; how
many cases the quick tier runs and by how much the thorough tier multiplies
them (for each of two seeds)."""
GR = ("A case is a random grammar over up to 9 token kinds (primitives, sequences, choices, repetitions with bounds and "
      "separators, delimited/padded parts, maps, fallible maps, recursive rules, recovery strategies; optional or forced "
      "features as the property needs) with inputs made by walking the grammar, mutating such sentences, and at random; "
      "it is parsed with one of three token/error/location instantiations, with recovery on and off. ")
RULES = {
 'C01': GR + "Every node of the grammar carries a monitor which compares index, location, next token and remaining tokens before and after a failure. Non-trivial: some node failed after it had consumed at least one token.",
 'C02': "A case is a random history of stream operations (up to some hundred, in phases that favour running ahead, saving, returning, end of input) over 0-60 tokens; each answer is compared with an array and a cursor. Non-trivial: it returned to a position other than the current one and read more than four tokens.",
 'C03': "A case streams thousands to hundred thousands of tracked tokens through stream operations with a bounded backtracking window, or through a grammar as streamed items, and samples the number of live tokens and bytes. Non-trivial: the stream advanced more than eight times the window (or a streamed grammar run).",
 'C04': GR + "The number of polls of the source, repeated polls after the end, and the furthest token looked at are compared with those the reference semantics needs. Non-trivial: something was parsed and backtracking took place or the end of input was seen.",
 'C05': GR + "No recovery. Result kind, output and end position are compared with the reference semantics. Non-trivial: the input is not empty and the reference backtracked or consumed more than one token.",
 'C06': GR + "Repetitions in all builder variants (minimum, maximum, separators, leading/trailing). Non-trivial: the input has more than one token.",
 'C07': GR + "Parsers with recovery strategies, run with and without recovery and compared with the reference semantics and each other. Non-trivial: a recovery strategy ran in the reference.",
 'C08': GR + "Non-trivial: the result is recovered with more than one error.",
 'C09': GR + "Choices with recovering alternatives. Non-trivial: a choice was settled by recovery, or failed after a strategy had run.",
 'C10': GR + "Failure index and errors are compared with the reference semantics. Non-trivial: a choice failed.",
 'C11': GR + "No choices, no recovery. Non-trivial: the parse fails behind the first token.",
 'C12': GR + "Recovery strategies of up to eight steps, with user closures recorded. Non-trivial: a step of a strategy ran.",
 'C13': "A case is a set of delimiter pairs and a token sequence (balanced, mutated or random); the scan is run directly or by recovery, and the stop position and all errors are compared with a reference scanner; also user-defined scanners. Non-trivial: nesting deeper than one, or more than one error.",
 'C14': GR + "All spans and locations in results, closures and errors, for the index tracker, the row/column tracker (multi-line, multi-byte tokens, random start) and user-defined ones. Non-trivial: a non-empty span or a location behind the first token was compared.",
 'C15': GR + "Streamed parses over inputs of several items, with the tail taken at a random moment. Non-trivial: at least two items consumed input.",
 'C16': GR + "Variants with clones, boxes, error annotations, shorthand strategies and recursive references; reuse, interleaved and nested use. Every evaluated combination of grammar, input and variant counts, distinct by hash.",
 'C17': GR + "Maps, error maps and fallible maps with all outcomes, calls recorded. Non-trivial: a map was called or errors were mapped.",
 'C18': GR + "Every entry point and result conversion. Non-trivial: the result is not a plain success or has several errors.",
 'C19': "A case is a list of tokens (u8, char or structured) held in every supported container, as sequence, one-of and none-of, on inputs around it. Non-trivial: the list is not empty.",
 'C20': "A case is an error built through a public constructor or taken from a parse, rendered, and compared with the text composed independently from its contents. Non-trivial: every distinct text.",
 'C21': GR + "The same grammar and input for several error types and trackers, as configurations of the whole parse. Non-trivial: the reference result has errors.",
 'C22': GR + "Hostile grammars (deep, many recoveries) under a step limit, and (1 case in 16) families of long/deep inputs at two sizes whose token inspections, polls and time steps must scale linearly. Non-trivial: more than 30 reference steps, or a scaling run.",
 'C24': GR + "Each grammar is run by plans that hold on to, drop and reorder results, streams and saved states, and abandon the parse at a random token inspection by a panic; live tokens, heap bytes and blocks are compared before and after; also under AddressSanitizer. Every distinct plan on a grammar counts.",
 'C25': "A case is a generated and possibly mutated document for one of four front ends written with the library (JSON, operator precedence arithmetic, fixed-shape records with delimiter recovery, statement lists), compared with hand-written parsers. Every distinct document counts.",
}
# quick cases, factor for thorough
CASES = {
 'C01': (120000, 20), 'C02': (800000, 20), 'C03': (30000, 15), 'C04': (180000, 20), 'C05': (350000, 20),
 'C06': (300000, 20), 'C07': (350000, 20), 'C08': (350000, 20), 'C09': (350000, 20), 'C10': (350000, 20),
 'C11': (500000, 20), 'C12': (600000, 20), 'C13': (600000, 20), 'C14': (250000, 20), 'C15': (400000, 20),
 'C16': (120000, 20), 'C17': (350000, 20), 'C18': (500000, 20), 'C19': (250000, 20), 'C20': (600000, 20),
 'C21': (150000, 20), 'C22': (30000, 15), 'C24': (40000, 15), 'C25': (400000, 20),
}
LEVELS = {}
