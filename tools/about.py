# What each check decides: how, oracle, bounds, assumptions. gen.py writes bounds.json (read by the
# engine for the evidence) and the Properties section of DESIGN.md from it.
HASH = "BLAKE2b, SHA-2, HMAC and PBKDF2 are deterministic functions of their input bytes (uninterpreted on symbolic data; counterexamples are re-solved with the real hash values and replayed)"
EDM = "GeScalarMultBase+ToBytes, ScReduce and ScMulAdd are deterministic functions of their operands here (uninterpreted); that they compute the right function is C19-C21"
CBORW = "the CBOR codec's type caches are filled once with concrete data before the symbolic part (the codec itself is executed symbolically)"
JM = "encoding/json is replaced by a model written for the harness (harness/jm: objects, arrays, strings, integers, case-insensitive field match, typed errors); the replay uses the real package"
WORLD = "files and processes are replaced by a recording model (harness/world); the replay uses real files and a scratch script as cardano-cli"
A = {}
def a(id, how, oracle, bounds, assume=(), beyond=""):
    A[id] = dict(how=how, oracle=oracle, bounds=list(bounds), assume=list(assume), beyond=beyond)

a("C01", "Constructors, Bytes, NewAddressFromBytes and the base-address conversions are executed on symbolic credentials.",
  "CIP-19 layout written out in the harness (own base-128 encoder)",
  ["all 28-byte hashes, key and script credentials, both networks", "pointers: slot < 2^35 with indexes < 2^21, and each number over all 64-bit values with the other two fixed; thorough: all triples of 64-bit numbers", "any two addresses of the same or neighbouring kinds, encoded and decoded one after the other"],
  beyond="script credentials, testnet forms and pointers never occur in the tests")
a("C02", "NewAddressFromBytes/FromHex on symbolic byte strings; accepted exactly if a reference predicate accepts, and then re-encoding and network are compared.",
  "reference predicate on lengths, header and base-128 numbers",
  ["every byte string of 0-60 bytes with a header other than Byron's; pointer headers 1-36 bytes (thorough 36-45); one number of up to 12 groups between short ones", "hexadecimal: lengths 29 and 57, arbitrary text of up to 4 characters, and an address's digits followed by up to 3 characters"],
  beyond="truncation and trailing data at every length, all header bytes")
a("C03", "String and NewAddress executed symbolically, bech32 included; the GF(2) normal form makes the checksum round trip decidable.",
  "prefix table; bytes, network and text equality",
  ["all credentials, both networks; pointers of 3-group slots with 1-2-group and 1-group indexes, and five larger shapes up to the longest (59 bytes); two addresses one after the other"])
a("C04", "bech32.Encode and Decode on symbolic payloads and parts.", "BIP-173 encoder written on bits in the harness",
  ["payloads of 0-12 bytes under four prefixes, 29, 32-34, 57, 59, 65, 80, 100 and 128 bytes; thorough: 13-64 bytes; the first and last 3 bytes of 255-257 and 600; parts of 31 and 83 characters", "human-readable parts of 0-3 arbitrary ASCII characters"])
a("C05", "Decode on arbitrary symbolic text; corruption of a symbolic address text at every position.", "the reference encoder: whatever decodes has to be its own encoding",
  ["every ASCII text of up to 8 characters (thorough 10), addr1 plus up to 9 (quick); non-ASCII characters at every position from a list of seven", "one replaced character at every position of an arbitrary enterprise address; two at most 4 apart (thorough: any two); any swap of neighbours"])
a("C06", "ByronAddress.MarshalCBOR/UnmarshalCBOR and the CBOR decoder on symbolic data; CRC-32 is executed bit-precisely (linear over GF(2)).", "CBOR and CRC-32 layout written out in the harness",
  ["all root hashes, payloads of 0, 1, 23, 24, 30 and 44 bytes, checksums of every encoded size", "arbitrary data of up to 3 bytes after a Byron header (thorough 4) and arbitrary inner data of up to 3 (thorough 4) bytes", "attributes, derivation payload, network, type and checksum of the wrong CBOR kind (26 forms)"],
  ["CBOR half-precision floats inside inner data are not followed (symbolic floating point); such paths are listed in the evidence", "base58 is a bijection between byte strings and texts (stand-in for H_text; the replay uses the real one)"])
a("C07", "VariableNatEncode/Decode on symbolic numbers and bytes.", "reference base-128 codec", ["all 64-bit numbers; all byte strings of 0-12 bytes; two numbers one after the other"], beyond="every overflow and truncation point")
a("C08", "MarshalCBOR of every kind, alone and through the codec inside an output.", "shortest-form CBOR byte string of Bytes()", ["all credentials, both networks; pointers of fifteen combinations of encoded sizes from 32 to 59 bytes (thorough: 90); two addresses one after the other"])
a("C09", "Tx.Bytes, TxBody.Bytes, Hex executed symbolically through fxamacker/cbor's reflection-driven encoder.", "CBOR layout of the ledger's CDDL written out in the harness",
  ["one input and output with every index, amount, fee and ttl (integer size classes pairwise; thorough: all combinations)", "0-3 inputs, outputs (every address kind) and witnesses; 23-26, 255 and 256 inputs or outputs with concrete values; every kind of change after any query; two transactions filled from one list with spare room"], [CBORW])
a("C10", "Hash and Bytes of the same transaction, repeated, with metadata of several shapes; map iteration order is explored (and counterexamples are replayed repeatedly).", "BLAKE2b of the body/metadata slice cut out of the serialized transaction",
  ["all field values by size class; metadata: byte strings of up to 29, 64, 65, 255, 256, 300 and 65536 bytes, all 64-bit numbers, text, arrays, structs, raw CBOR, empty values, maps with keys of several lengths, Go maps of 2 (thorough 3) entries in every order"], [HASH, CBORW])
a("C11", "TxBuilder.Sign/Build sequences on symbolic keys and bodies.", "public key and RFC 8032 signature of each key over the hash of the returned body, computed in the harness from the same uninterpreted primitives",
  ["0-3 (1 build: also 4, 9, 16, 23-25, 256) keys given at construction or by Sign, 1-2 builds, body changes and metadata changes in between; two builders made from one slice of keys with up to 2 spare places; eight ways of going on with a builder after a build"], [HASH, EDM, CBORW])
a("C12", "AddChangeIfNeeded (fee fixpoint loop unrolled) and Build on symbolic amounts.", "sum of inputs = sum of outputs + fee; outputs kept; at most one positive change output",
  ["one input and output: all amounts below 2^62 for mainnet fee parameters; 2-3 inputs and outputs with one arbitrary input and output amount each", "11 cases of change address kind, up to 24 keys and 24 inputs, ttl and metadata; 22-24 outputs; 256 keys, inputs or outputs; queries and builds while the builder is incomplete; six sets of fee parameters; every fixed fee below 2^32"], [HASH, EDM, CBORW], "amounts at CBOR size boundaries, where the fee depends on itself")
a("C13", "As C12; the fee is compared with the linear formula on the length of the finally signed transaction.", "fixed + per byte * len(Bytes()) of what Build returns", ["as C12"], [HASH, EDM, CBORW], "amounts at CBOR size boundaries, several keys, long change addresses")
a("C14", "Every sequence of queries (MinFee, Fee, Hash, Bytes, Hex) on a symbolic transaction.", "serialized bytes, id, fee and witnesses before and after",
  ["any two queries (thorough three); seven shapes; numbers of every encoded size"], [HASH, CBORW])
a("C15", "Tx.Fee on symbolic parameters and fields.", "formula on len(Bytes())", ["all fee parameters below 2^32 and field values by size class; metadata of 0, 12 and 24 bytes; 0-3, 23, 24, 256 inputs, outputs or witnesses, every address kind, metadata maps, lists and up to 65536 bytes; any change between two queries"], [CBORW])
a("C16", "Derive and Public on symbolic keys; group and field arithmetic through the jobs of C20 and C21.", "BIP32-Ed25519 formulas over byte-wise addition in the harness",
  ["all 96-byte keys with the scalar's top bit clear, all 32-bit indices; paths of two derivations; two keys that may share any of scalar, prefix and chain code and two indices that may be equal, one after the other"], [HASH, EDM])
a("C17", "NewXPrv, FromBip39Entropy, NormalizeBytesForce3rd on symbolic seeds.", "clamping and hash layout in the harness",
  ["seeds of every length 0-65; entropies of 1-40 bytes, passwords of 0-130 bytes (five and seven sizes); two seeds one after the other"], [HASH])
a("C18", "XPrv.Sign on symbolic keys and messages; scalar, field and group arithmetic through the jobs of C19-C21.", "RFC 8032 equation over the same primitives",
  ["all keys; messages of 0, 1, 31-33, 64, 96, 100, 128, 192, 256, 300, 513, 1000, 1025 and 4097 bytes; two keys and two messages that may share parts, one after the other"], [HASH, EDM])
a("C19", "ScReduce and ScMulAdd are executed with 64-bit terms kept at word level and translated to integer polynomials: a no-overflow interval analysis gives every >> as an exact floor division, carries cancel in a normal form, and what is left (a congruence modulo L, a bound below L) is a linear integer query. ScMinimal is decided on bit vectors.", "residue modulo L as a mathematical integer",
  ["none: all 64-byte inputs, all triples of 32-byte operands, results aliasing any operand"], beyond="carries that only run through all limbs for a 2^-40 fraction of inputs")
a("C20", "FeMul, FeSquare, FeSquare2, FeAdd, FeSub, FeNeg, FeFromBytes, FeToBytes as C19, limb bounds included; FeCMove, FeZero, FeOne, FeCopy, FeIsNegative, FeIsNonZero on bit vectors.", "value of the limbs modulo 2^255-19",
  ["all limbs within 1.65*2^26/2^25 for multiplication and squaring, 2.2+1.1 times 2^25/2^24 for addition and subtraction, 1.1*2^25/2^24 for storing; all 32-byte strings for loading"], beyond="operands at the limb bounds, values within 19 of a multiple of p")
a("C21", "The group operations are executed over polynomial arithmetic (field functions replaced by exact integer polynomials; C20 discharges that, the stand-ins check C20's operand bounds) and compared with the addition law as polynomial identities; every table entry that selectPoint returns is compared with the multiple computed independently; GeScalarMultBase is executed over integer multiples (group operations replaced, digits symbolic) and proved congruent to the scalar modulo L; FeInvert and fePow22523 over exponents; ToBytes over stand-ins for quotients.", "twisted Edwards addition law, RFC 8032 base point (independent math/big implementation), integers modulo L and p-1",
  ["none for the group law and recoding: all points, all scalars below 2^255; selectPoint for all 32 positions and digits -8..8"],
  ["the Edwards addition law is complete and the base point has order L (textbook facts)"])
a("C22", "Constructors on symbolic bytes of every length, hash helpers.", "length table; the digest function itself", ["lengths 0-66 for all ten constructors; hash helpers on 20 lengths up to 4097; two inputs one after the other"], [HASH])
a("C23", "Every operation of the cardano-cli backend against a model of processes, files and JSON; listings have symbolic hashes, indexes and amounts.", "arguments expected per operation and network; rows as listed",
  ["0-4 rows; hashes of 32 arbitrary bytes; numerals up to 20 digits; eleven kinds of malformed row at every place; any output of up to 6 ASCII bytes, with and without header; failing commands of every operation; any protocol magic; parameters and tip with numerals up to 20 digits, malformed answers; two questions one after the other to one node or to two of different networks"], [JM, WORLD, "network ids 0 and 1; printed text is ASCII"])
a("C24", "Every operation of the blockfrost backend against models of blockfrost-go's client and net/http.", "reported values; URL, body and header of the request",
  ["0-3 outputs with assets before, after or without; quantities of up to 20 digits, any output index, any 32-byte hash; malformed fields at every place; any reply status and 4-byte body; any 63-bit parameters and tip; broken replies; two questions one after the other with different replies"], ["blockfrost-go's client and net/http's transport are replaced by models that return the symbolic reply; the replay runs the real ones against a local stand-in"])
a("C25", "LoadProtocol on a symbolic document through the JSON model.", "field by name; 64-bit and 8-bit ranges",
  ["every field with numerals of several lengths up to 20 digits; versions up to three digits; truncation at every byte; missing file"], [JM, WORLD])
a("C26", "Every query and Build on a symbolic transaction whose metadata has no CBOR form.", "an error", ["functions and channels, bare and in lists and maps; one input and output with any index, fee, ttl and amount; with and without serializable metadata before"], [CBORW, EDM])
a("C27", "MinFee on the configurations of C12, then SetFee, with and without an output for the rest, Build and Bytes.", "fixed + per byte * len(Bytes()) of what Build returns", ["as C12"], [HASH, EDM, CBORW], "amounts at CBOR size boundaries, several keys, metadata")
a("C28", "Two operations are executed one after the other as two goroutines on symbolic data; every access of the second to memory the first accessed is compared with it, and one that no release/acquire pair orders (mutex, once, atomic, pool, sync.Map) is a race. Counterexamples are replayed in two goroutines under the race detector.", "the happens-before order of the Go memory model",
  ["all ordered pairs of 10 address, 6 text, 10 key, 7 transaction, 4 cardano-cli and 4 blockfrost operations on symbolic hashes, keys, indices and amounts, and loading parameters; signing and deriving with the real group arithmetic on fixed keys; two goroutines, one operation each"], [HASH, EDM, WORLD], "an unsynchronized cache, scratch buffer or pooled value that single-threaded use never notices")
a("C29", "FromBytes is executed over polynomials in y and an indeterminate root candidate (field functions replaced as in C21; the zero tests and the parity are free booleans), with every result compared modulo p; GeDoubleScalarMultVartime is executed over combinations m*A + n*B (group operations replaced; the jobs of C20 and C21 discharge them) with symbolic digits; slide on bit vectors.", "decompression formula of RFC 8032; the digits' sums as integers",
  ["none for decoding: all 32-byte strings", "double multiplication: any top position of four, one arbitrary digit of each scalar among fixed ones of both signs", "digit recoding: 10 arbitrary consecutive bits (thorough: 12) at six positions, among zeros, ones or a mixed pattern, below 2^252"],
  ["the candidate u*v^3*(u*v^7)^((p-5)/8) squares to u/v or -u/v if u/v is a square or minus one is, and to neither otherwise (textbook fact for p = 5 mod 8)", "the Edwards addition law is complete"], "carries rippling through runs of ones; roots that need the square root of -1")


COST = dict(C01="2 s", C02="30 s", C03="2 s", C04="6 s", C05="40 s", C06="20 s", C07="2 s", C08="4 s", C09="7 s", C10="6 s", C11="3 s", C12="45 s", C13="40 s",
  C14="6 s", C15="8 s", C16="11 s", C17="2 s", C18="10 s", C19="2 s", C20="2 s", C21="8 s", C22="2 s", C23="30 s", C24="8 s", C25="6 s", C26="5 s", C27="40 s", C28="30 s", C29="45 s")
