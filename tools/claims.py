LN = ("Abstract interpretation of the optimised-off MIR of every reachable function, all paths, loops by inductive fact sets; "
      "sound for the modelled standard library (models listed in DESIGN.md). Unproved obligations are violations.")
CLAIMS = {
    "C01": dict(technique="abstract interpretation of MIR: path provenance and depth check at every file-system event", level_note=LN),
    "C02": dict(technique="abstract interpretation of MIR: effect and typestate of file handles and locks", level_note=LN),
    "C03": dict(technique="abstract interpretation of MIR: stream and file offset provenance of stored bytes", level_note=LN),
    "C04": dict(technique="abstract interpretation of MIR: completion facts of every write, flush and finish at each successful return, typestate of buffered writers at drop", level_note=LN),
    "C05": dict(technique="abstract interpretation of MIR: validation facts that dominate every store mutation of a chunk write", level_note=LN),
    "C06": dict(technique="abstract interpretation of MIR, once per element type: type facts that dominate every chunk access and success", level_note=LN),
    "C07": dict(technique="abstract interpretation of MIR, once per element type: symbolic byte encoding of element i on both sides", level_note=LN),
    "C08": dict(technique="abstract interpretation of MIR, once per element type: stream offsets and completion facts of every transfer", level_note=LN),
    "C09": dict(technique="abstract interpretation of MIR in ten feature sets: stored format of every encoder against every decoder and stored name", level_note=LN),
    "C10": dict(technique="abstract interpretation of MIR: provenance and range of every compression parameter from document to encoder", level_note=LN),
    "C11": dict(technique="abstract interpretation of MIR: data type document term written and read back, and strings each accepting path pins", level_note=LN),
    "C12": dict(technique="abstract interpretation of MIR: metadata document term of every field read back by the tree's own deserializers", level_note=LN),
    "C13": dict(technique="abstract interpretation of MIR: path facts at every successful open or metadata load", level_note=LN),
    "C14": dict(technique="abstract interpretation of MIR: path facts at every successful and failing metadata load", level_note=LN),
    "C15": dict(technique="abstract interpretation of MIR: symbolic key term at every store call, compared with the specified term", level_note=LN),
    "C16": dict(technique="abstract interpretation of MIR: symbolic integer terms of grid arithmetic, and domination of every failing operation", level_note=LN),
    "C17": dict(technique="abstract interpretation of MIR: path facts at every store access and failing return of chunk reads", level_note=LN),
    "C18": dict(technique="abstract interpretation of MIR: inductive facts of the iterator state and symbolic element-wise box arithmetic", level_note=LN),
    "C19": dict(technique="abstract interpretation of MIR: symbolic array element at an arbitrary position after each chunk, by exact linear reasoning per dimension", level_note=LN),
    "C20": dict(technique="abstract interpretation of MIR: symbolic element of the chunk written at an arbitrary position, by exact linear reasoning per dimension", level_note=LN),
    "C21": dict(technique="abstract interpretation of MIR: existence facts that dominate every store mutation of a creation", level_note=LN),
    "C22": dict(technique="abstract interpretation of MIR: set of erased keys and prefixes on every successful path", level_note=LN),
    "C23": dict(technique="abstract interpretation of MIR: symbolic document written compared with document read", level_note=LN),
    "C24": dict(technique="abstract interpretation of MIR: effects reachable from read-only operations, with the handle modes of every open", level_note=LN),
    "C25": dict(technique="abstract interpretation of MIR: keys, prefixes and names returned, as symbolic strings, for directories and stores with symbolic entries", level_note=LN + " Listings are analysed for directories of up to two entries and stores of up to five, with symbolic names; larger ones are covered only as far as entries are handled alike."),
    "C26": dict(technique="abstract interpretation of MIR: reachable panics, slice and index bounds and arithmetic checks of every operation that reads stored data", level_note=LN),
    "C27": dict(technique="abstract interpretation of MIR: typestate of locked handles at every lock acquisition and store call", level_note=LN),
    "C28": dict(technique="abstract interpretation of MIR: order and extents of every chunk buffer viewed as an array, against the metadata", level_note=LN),
}
NOT_APPLICABLE = {
    "C29": "The store interface has no operation that reads and replaces a key under one lock, so set_attributes and the creations release the lock between their read and their write by design: the property is false of the current design, no small repair exists, and a static rule would only restate that.",
    "C30": "The file-system store rewrites files in place under a lock and makes no promise about crashes (no temporary file, rename or sync): there is no mechanism in the tree whose use a static analysis could check.",
    "C31": "The compression libraries are foreign crates; equality of their output with their input for every byte sequence is a property of their algorithms, beyond static arguments in reach. What this tree contributes (which format, which parameters, all bytes passed, stream finished) is C04, C09 and C10.",
}
