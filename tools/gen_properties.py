#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. Edit the list here and rerun."""
import json, os

P = []

def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

prop("C01", "Signed inputs really unlock the outputs they spend",
     "Whenever a signing operation reports success (or the building of a single unlocking script does), every input it signed carries an unlocking script that the network's script and signature rules accept for the exact output it spends and for the exact transaction the caller is left holding. This holds for single-key-hash, bare-public-key and threshold key-hash outputs, for any number and mixture of inputs, and no matter what was signed, edited or re-signed before. The signatures commit to the whole transaction.",
     ["inputs", "histories"],
     "every mixture of supported locking scripts, every order and superset of the keys, every input/output count, value, sequence, version and lock time, and every earlier history of edits and signatures of the same transaction",
     "The tests sign a handful of fixed transactions, mostly with one kind of input, and several only check that signing returned no error; the space of script mixtures, key orders and fee-loop re-signs is not walked.",
     ["sign.go", "sig_hash.go"],
     [("matching a key to a locking script and placing its signature", "sign.go signInput"),
      ("re-signing after each fee correction", "sign.go Sign"),
      ("digest that is signed", "sig_hash.go SignatureHash")],
     ["the serialized transaction after signing, judged by an independent digest, signature and script evaluator"])

prop("C02", "Signing succeeds exactly when the supplied keys suffice",
     "Signing reports success if and only if the supplied keys unlock every input; if a key is missing it says so and still unlocks every input whose keys are present, and an output kind that cannot be signed is reported as such. The order of the keys and the presence of unrelated keys never change the outcome. The keys reported as used are exactly those whose signatures appear in the transaction, each once.",
     ["inputs"],
     "every subset, order and padding of the key list against every mixture of one- and many-key inputs",
     "The tests pass the right keys in one order; subsets, permutations, superfluous keys and threshold inputs with too few or too many keys are combinations the tests do not enumerate.",
     ["sign.go"],
     [("missing keys are remembered while the other inputs are signed", "sign.go Sign, SignOnly"),
      ("threshold counting", "sign.go signInput"),
      ("list of used keys", "sign.go appendKeys")],
     ["returned keys and error", "the unlocking scripts left in the transaction"])

prop("C03", "A transaction reported complete never pays less than the fee rate",
     "When funding, fee calculation or signing reports success, the value left for the miner is at least the fee rate times the transaction size rounded up, where the size is the worst-case signed size before signing and the actual serialized size after signing. Signing always terminates, however long or short the individual signatures turn out to be. If signing stops only because keys are missing, the fee still covers the worst-case size of the finished transaction.",
     ["inputs", "histories", "configurations"],
     "every fee rate, set of funding outputs, output list, change destination, input or output count (including where the count prefix widens) and every sequence of signature lengths",
     "The tests try a few fixed amounts at one or two fee rates, never cross the 252/253 count boundary with an exact fee, and cannot choose how long each signature comes out.",
     ["fees.go", "inputs.go", "sign.go"],
     [("fee loop around signing", "sign.go Sign"),
      ("incremental funding arithmetic", "inputs.go AddFunding, AddFundingBreakChange"),
      ("fee adjustment", "fees.go AdjustFee, CalculateFee")],
     ["input value minus output value against serialized size"],
     hook="signature lengths are chosen by replacing the key library's signing step at build time; nothing in the repository changes")

prop("C04", "A transaction reported complete does not overpay the miner",
     "When fee calculation or signing reports success and the transaction has a change output, the fee is no more than what the worst-case signed size requires. If it has none, or after funding alone, the excess is smaller than what makes a change output worthwhile (its dust limit plus its fee, with each part rounded up to a whole satoshi). In particular no surplus larger than that is ever silently given to the miner.",
     ["inputs", "histories", "configurations"],
     "every fee rate, dust rate, surplus (walked one satoshi at a time across every decision boundary), change destination and signature length sequence",
     "The tests check the fee of a few transactions within a loose tolerance; a boundary that drops a worthwhile change output or forgets to lower an over-estimated fee needs the surplus to fall in a narrow window.",
     ["fees.go", "inputs.go", "sign.go"],
     [("change kept, added or dropped", "fees.go AdjustFee"),
      ("change decided while funding", "inputs.go AddFunding, AddFundingBreakChange"),
      ("fee lowered after signing", "sign.go Sign")],
     ["input value minus output value against the size of the transaction"])

prop("C05", "Funding, fees and signing never touch what payees are owed",
     "Funding, fee calculation and signing never alter the destination, amount or relative order of any output that is not marked to receive the remainder, and never remove one. They never alter, reorder or remove an input that is already present, nor change the transaction's version, lock time or input sequences.",
     ["histories", "inputs"],
     "every sequence of building, funding, fee and signing operations, every placement of change among the outputs, successful or not",
     "Tests look at totals or at one output position after one call; interactions such as change before a payee, change removed and re-added, or a failed call followed by another are not explored.",
     ["fees.go", "inputs.go", "outputs.go", "sign.go"],
     [("only remainder outputs are used for fee transfer", "fees.go AdjustFee"),
      ("funding appends", "inputs.go AddFunding")],
     ["the outputs and inputs of the transaction before and after each operation"])

prop("C06", "Value totals are exact and money is never created",
     "The reported input value, output value, fee and remainder always equal the sums over the current inputs and outputs, whatever operations led there. No funding, fee calculation or signing reports success on a transaction whose outputs exceed its inputs (moving a fee by an amount the caller chooses is the caller's decision).",
     ["histories", "inputs"],
     "every sequence of operations and every value in the monetary range, including values above 2^32 and 2^53 and zero-value outputs",
     "Tests use small amounts and check totals at the end of a fixed script; truncation or a total that goes stale after an unusual edit would not show.",
     ["fees.go", "txbuilder.go"],
     [("sums over inputs and outputs", "fees.go InputValue, OutputValue, Fee, ActualFee, Remainder"),
      ("insufficient value errors", "inputs.go AddFunding, sign.go Sign")],
     ["the accounting queries against sums over the serialized transaction and the spent outputs"])

prop("C07", "Every edit keeps each input and output paired with its own data",
     "After any sequence of adding, inserting, updating and removing inputs and outputs, each input still carries the spent script, value, key label, sequence and unlocking script that belong to its outpoint, and each output its own script, value, flags and key label, in the order a plain list would have. Edits to one entry never change another.",
     ["histories"],
     "every sequence of edits at every position up to a depth, from empty and from populated transactions",
     "The tests cover a few single edits; aliasing between shared backing storage or mispaired parallel lists only shows after particular sequences of insertions and removals.",
     ["inputs.go", "outputs.go", "break_value.go", "models.go"],
     [("parallel lists kept in step", "inputs.go InsertInput, RemoveInput; outputs.go InsertOutput, RemoveOutput"),
      ("bulk append", "break_value.go AddOutputs")],
     ["the builder's inputs and outputs after each edit, compared with a plain list"],
     state=[("Inputs/Outputs", "data kept beside the wire transaction, index by index", "txbuilder.go TxBuilder")])

prop("C08", "A transaction never spends the same outpoint twice",
     "No sequence of operations lets the same outpoint appear in two inputs: an attempt to add, insert or update an input to an outpoint already spent by another input is refused as a duplicate, and funding skips such entries. Outpoints that differ in either transaction hash or index are never refused.",
     ["histories"],
     "every sequence of input edits and funding calls over outpoints that collide in hash, in index, in both or in neither, at every position",
     "One test adds one duplicate in one way; the check is repeated in five places and must hold for every position and history.",
     ["inputs.go"],
     [("duplicate scans", "inputs.go AddInput, AddInputUTXO, InsertInput, UpdateInputUTXO, AddFunding, AddFundingBreakChange")],
     ["the outpoints of the transaction and the returned errors"])

prop("C09", "A refused operation leaves the transaction exactly as it was",
     "Any single edit or fee adjustment that returns an error leaves every input, output, flag and setting as it was before the call. An edit naming a position past the end, a duplicate outpoint, an amount below the allowed minimum, or more value than is there is refused with an error rather than applied or crashing.",
     ["histories", "inputs"],
     "every refusable edit or fee adjustment with every position and boundary amount, in every state reached by a bounded sequence of edits",
     "Tests check that some bad calls return an error, not that the state is untouched, and do not try the first position past the end for every editor.",
     ["inputs.go", "outputs.go", "fees.go"],
     [("index and amount checks before mutation", "inputs.go, outputs.go"),
      ("insufficient change check", "fees.go AdjustFee")],
     ["a complete snapshot of the builder before and after a failing call"])

prop("C10", "The signature digest is the one the network computes",
     "For every transaction, input, spent script, spent value and standard signature type, the digest and preimage produced are byte-for-byte those of the network's fork-id signature algorithm, including the out-of-range single-output case and scripts with code separators. Asking for an input that does not exist is an error.",
     ["inputs"],
     "every combination of signature type, input and output counts, signed index, script shape and length class, value, sequence, version and lock time",
     "The tests have a few fixed vectors; they do not vary each digest field for each of the twelve signature types.",
     ["sig_hash.go"],
     [("preimage layout per signature type", "sig_hash.go writeSignatureHashPreimageBytes"),
      ("script after the last code separator", "sig_hash.go afterOpCodeSeparator")],
     ["returned digest and preimage, against an independent implementation"])

prop("C11", "Caching digest parts never changes a digest",
     "Computing digests for any sequence of inputs and signature types through one shared cache gives the same results as computing each with a fresh cache, as long as the caller clears the cache (or only its outputs part) after changing the transaction as documented. Digest computation never modifies the transaction.",
     ["histories"],
     "every sequence of digest requests interleaved with transaction changes and the documented clears",
     "Tests use one cache for one or two digests; a stale or mixed-up cached part needs a particular order of signature types and clears.",
     ["sig_hash.go"],
     [("cached prevouts, sequence and outputs hashes", "sig_hash.go SigHashCache")],
     ["digests with a shared cache against digests with a fresh cache"],
     state=[("SigHashCache", "remembered hashes of outpoints, sequences and outputs", "sig_hash.go")])

prop("C12", "The size estimate is a tight upper bound on the signed size",
     "The estimated size of an unsigned transaction is never smaller than its size once signed, for every supported kind of input and any number of inputs and outputs, and exceeds it by no more than the slack of each signature's encoding. Per-input and per-output size estimates add up to the whole, and the published sizes of the standard kinds agree with them.",
     ["inputs"],
     "every mixture and number of input kinds (including counts and script lengths where a length prefix widens), output script lengths and signature lengths",
     "Tests compare sizes for a few key-hash inputs; threshold scripts longer than one length-prefix byte and counts above 252 are boundary cases needing enumeration.",
     ["fees.go"],
     [("size formulas", "fees.go UnlockingScriptSize, InputSize, OutputSize, EstimatedSize, VarIntSerializeSize")],
     ["estimate against serialized size after signing"])

prop("C13", "Breaking a value loses nothing, whatever the random draws",
     "For every random outcome, splitting a value over a list of destinations succeeds and gives outputs whose values sum to the value given, less exactly one output fee per output created when fees are to be taken from it; only an amount too small for any output may be left over. Destinations are used in order, each at most once and keeping its label, one output is marked as the remainder if and only if that was asked for, and no output costs more to spend than it holds unless the break value itself, less a tenth, is that small.",
     ["inputs", "programs"],
     "every sequence of random draws, every number of destinations from one up, every relation of value to break value and fee rate, both fee modes and both ways of giving destinations",
     "Tests run a few random splits per execution and check loosely; they cannot choose the draws, so a bad branch may never be drawn, and small break values are never tried.",
     ["break_value.go"],
     [("running remainder", "break_value.go BreakValue, BreakValueLockingScripts")],
     ["the returned outputs"],
     hook="random draws are chosen by replacing the standard library generator at build time; nothing in the repository changes")

prop("C14", "Breaking a quantity gives exactly that quantity in the asked-for parts",
     "For every random outcome, splitting a non-zero quantity into at least one part succeeds and returns at least one and at most the requested number of parts, none of them zero, that sum to exactly the quantity.",
     ["inputs", "programs"],
     "every sequence of random draws, part counts from one up, and every relation of quantity to break value",
     "Tests print or loosely check one random split; the draw sequences that overflow the part count or divide by zero are rarely or never produced.",
     ["break_value.go"],
     [("running remainder and count", "break_value.go BreakQuantity")],
     ["the returned quantities"],
     hook="random draws are chosen at build time, as for C13")

prop("C15", "Shuffling outputs only reorders them",
     "Randomizing outputs yields a permutation in which every output keeps its own script, value, flags and key label; when only the outputs after a position are randomized, those up to it stay in place. Every permutation is possible, and inputs and settings are untouched.",
     ["inputs", "programs"],
     "every random outcome for every number of outputs up to a bound and every position, including the last and past the end",
     "A test that shuffles once compares nothing about pairing, and one random order out of n! is seen per run.",
     ["break_value.go"],
     [("shuffle of combined entries", "break_value.go RandomizeOutputs, RandomizeOutputsAfter")],
     ["outputs before and after"],
     hook="random draws are chosen at build time, as for C13")

prop("C16", "Funding succeeds when it can and takes no more than it needs",
     "Funding uses the offered outputs in the order given, skipping those already spent, stops at the first point where outputs and fee are covered, and takes each with its own value, script and key label. It succeeds whenever the offered values can cover the outputs, the fee and a change output, reports insufficient value only when they cannot (splitting the change may additionally need what one more change output costs), and a transaction with a change destination that it reports funded can then be signed with the right keys.",
     ["inputs", "configurations", "histories"],
     "every list of offered outputs (kinds, order, duplicates, values one satoshi around every threshold), fee and dust rates, already present inputs and remainder outputs, and both funding methods",
     "Tests fund a few transactions with comfortable amounts; the thresholds where one more input is or is not needed, and funding an already funded transaction, are not walked.",
     ["inputs.go"],
     [("incremental needed value", "inputs.go AddFunding, AddFundingBreakChange")],
     ["the inputs after funding, the returned error, and a following signature"])

prop("C17", "Sending the maximum spends everything offered",
     "With a send-maximum output, funding from a non-empty list spends every offered output exactly once and the remainder output receives the whole input value less the other outputs and the required fee, to the satoshi. If that is not possible it is reported as insufficient value and nothing is silently dropped.",
     ["inputs", "configurations"],
     "every list of offered outputs with duplicates, every mixture of other outputs, fee rates, both ways of asking for the maximum, before and after other outputs were added",
     "The tests send the maximum once with fixed values; the interplay with duplicates, other remainder outputs and boundary values is not enumerated.",
     ["inputs.go", "outputs.go", "fees.go"],
     [("all inputs added then fee calculated", "inputs.go AddFunding"),
      ("remainder output allowed at zero", "outputs.go AddOutput")],
     ["value of the remainder output and the list of inputs"])

prop("C18", "A copy of a transaction builder is fully independent",
     "A copy equals the original in every observable respect, including how later fee adjustments treat its change output, and afterwards no operation on either one is visible in the other. Edits, funding, signing and direct modification of scripts are all covered.",
     ["histories"],
     "every state reached by a bounded sequence of operations, copied at every point, followed by every operation on either side",
     "No test mutates after copying; shared storage shows only when a specific part is later changed in place.",
     ["txbuilder.go"],
     [("deep copy of transaction, inputs and outputs", "txbuilder.go Copy")],
     ["complete snapshots of both builders"])

prop("C19", "Outputs are accepted, valued and updated by the dust rules",
     "An ordinary output is accepted if and only if its value covers the fee for its own bytes, unless it can never be spent or is the remainder of a send-maximum; a dust output is given exactly the dust limit of its script. Adding value to a dust output replaces its amount and is refused below the dust limit, adding to any other output adds to its amount, and subtracting never takes an output below its dust limit or wraps around.",
     ["inputs", "histories"],
     "every script length class, rate and amount one satoshi around each limit, every flag combination, every sequence of value edits",
     "Tests use one script size and a comfortable value; the limits depend on script length and two rates and need boundary values.",
     ["outputs.go"],
     [("limit checks", "outputs.go AddOutput, InsertOutput, AddValueToOutput, SubtractValueFromOutput, SetOutputToDust")],
     ["output values and flags and returned errors"])

prop("C20", "Rebuilding from an existing transaction recovers what it spends",
     "A builder made from an existing transaction and its parent transactions, spent outputs or another transaction source describes exactly that transaction, with every input given the script and value (and key label when known) of the outpoint it spends, whatever the order of or extra entries in the supplied data. If data is missing for an input that is reported; with parents or spent outputs the other inputs are still filled in and the resulting builder can be queried, copied and printed.",
     ["inputs"],
     "every mapping of inputs to parents, order, omission, decoy with equal index or equal hash, out-of-range index and coinbase input",
     "Tests rebuild with complete data in order; wrong matching needs decoys and omissions in particular positions.",
     ["txbuilder.go"],
     [("outpoint lookup", "txbuilder.go NewTxBuilderFromWire, NewTxBuilderFromWireUTXOs, NewTxBuilderFromTransactionWithOutputs")],
     ["the builder's inputs and outputs, returned error, query results"])

prop("C21", "The standalone fee library agrees with first principles",
     "For every transaction the standalone fee functions report the size, fee, input value, output value and dust limits that follow from the wire format, the spent outputs and the fee rate, and agree with the builder's estimates for the supported script kinds. Unknown scripts and inputs with missing data are reported as errors and never crash.",
     ["inputs"],
     "every supported and unsupported script kind, size and value class, fee and dust rate, including inputs whose size and value are only declared in embedded unlocking data",
     "The package has no tests at all.",
     ["fees/fees.go"],
     [("size and value functions", "fees/fees.go")],
     ["returned sizes, fees and values against an independent calculation"])

prop("C22", "Independent builders never affect each other",
     "Building, funding, splitting, shuffling and signing separate transactions at the same time gives each exactly the result it would have had alone, under every interleaving. No operation on one builder changes data given to, or held by, another builder or the caller's own argument lists, and two builders never use the same memory without an order between them.",
     ["schedules", "histories"],
     "every interleaving of operations on two builders that share keys, scripts and funding lists, to a preemption bound at statement granularity",
     "The tests run one builder at a time in one goroutine.",
     ["break_value.go", "sign.go", "sig_hash.go", "inputs.go", "outputs.go"],
     [("no package-level mutable state apart from the random source", "break_value.go"),
      ("caller's slices only read", "inputs.go, outputs.go, sign.go")],
     ["final serialized transactions and builder snapshots under each schedule, and the shared arguments"])

prop("C23", "The command-line tool only prints transactions that do what was asked",
     "Whenever the tool prints a transaction, that transaction spends exactly the requested outpoints, pays exactly the requested amount to the requested destination and the rest less the fee back to the key's own address, and is validly signed at the configured fee rate; chained sends each spend the previous one, and consolidation spends everything the server listed into the recipient. A valid request with enough money does print one. If an argument is invalid or any lookup fails, or a fetched transaction is not the one asked for, it prints no transaction and does not crash.",
     ["inputs", "fault_sequences", "configurations"],
     "every command, argument shape, set of outpoints and amounts, network setting and every server answer or failure at each lookup",
     "The command has no tests; its lookups need a server that can be made to fail at each step.",
     ["cmd/main.go"],
     [("argument parsing, lookups and early returns", "cmd/main.go CreateSend, CreateSends, Consolidate, GetTx, GetUTXOs, httpGet")],
     ["printed transaction hex, extended hex, requests made and exit status of the built tool"],
     hook="server answers are chosen by replacing the standard library HTTP transport at build time")

prop("C24", "Reports describe the transaction truthfully and change nothing",
     "The textual descriptions of a transaction state its identifier, its inputs with the scripts and values they spend, its outputs with exact values, and size, fee and fee rate figures consistent with the transaction. Producing a description, or asking any query, never modifies the builder and never crashes, even when input data is missing.",
     ["inputs", "histories"],
     "every state reached by a bounded sequence of operations, with and without known spent outputs and embedded unlocking data, over the whole monetary range",
     "No test reads the produced text, and none checks that a query leaves the state alone.",
     ["txbuilder.go", "print.go", "fees.go", "sign.go"],
     [("rendering", "txbuilder.go String, print.go TxString"),
      ("queries", "fees.go, txbuilder.go, inputs.go InputAddress, outputs.go OutputAddress, sign.go InputIsSigned")],
     ["the produced text, parsed back, and snapshots around each query"])

prop("C25", "Inputs described only by embedded unlocking data are counted",
     "An input whose spent output is unknown but which carries embedded unlocking data contributes exactly the declared unlocking size and value to estimated size, estimated fee, input value, fee and funding decisions, and real data takes precedence when present. Malformed or foreign embedded data is ignored and never crashes.",
     ["inputs"],
     "every declared size and value including boundaries of length prefixes, every mixture with ordinary inputs at every position, valid, truncated and foreign payloads",
     "One test uses one such input; size boundaries, mixtures and malformed payloads are not covered.",
     ["fees.go", "print.go", "fees/fees.go"],
     [("parsing embedded data for unknown inputs", "fees.go EstimatedSize, InputValue")],
     ["size, fee and value queries and the outcome of funding"])

prop("C26", "Fee and dust arithmetic is exact at every size and rate",
     "The fee for a size is the smallest whole number of satoshis not below size times rate, and the per-input, per-output, per-address and total-cost figures are that fee for the corresponding size. The dust limit of an output is three times the rate times its size plus a standard input, and never less than one satoshi.",
     ["inputs", "configurations"],
     "every size in a dense range around each boundary crossed with every rate in a representative set, and every script kind and length class",
     "Tests cover a few sizes at a few rates; rounding errors appear at particular products only.",
     ["fees.go", "outputs.go", "inputs.go"],
     [("rounding", "fees.go EstimatedFeeValue, EstimatedFeeValueDown"),
      ("dust", "outputs.go DustLimit and variants")],
     ["returned amounts against exact rational arithmetic"])

prop("C27", "A fee adjustment moves exactly the requested amount",
     "Adjusting the fee moves exactly the requested amount between the first remainder output and the fee, adds a change output only when the surplus is worth more than creating and spending it, removes only a change output that such an adjustment had added, and refuses an increase that cannot be paid. Calculating the fee brings it to the estimate, and repeating that changes nothing further; zeroizing brings it to zero if there is a remainder output.",
     ["histories", "inputs"],
     "every amount one satoshi around each decision boundary, every arrangement of remainder and payee outputs, with and without a change destination, and every sequence of adjustments to a depth",
     "Tests call the adjustment indirectly with a few amounts; the boundaries between keep, add, remove and refuse and repeated adjustments are not explored.",
     ["fees.go"],
     [("increase and decrease branches", "fees.go AdjustFee, CalculateFee, ZeroizeFee")],
     ["outputs and fee before and after, returned flag and error"],
     state=[("addedForFee", "marks a change output created by a fee adjustment", "models.go OutputSupplement")])

prop("C28", "Surplus only ever goes to the designated change destination",
     "Every output that funding, fee calculation or signing adds pays the designated change destination, or one of the listed change destinations, carries its key label and is marked to receive the remainder as documented; value is only ever added to outputs so marked. If a surplus worth keeping has nowhere to go, a change destination is demanded instead; a send-maximum needs a remainder output from the start.",
     ["histories", "configurations"],
     "every arrangement of existing remainder outputs, change destinations (none, equal to a payee, of each script kind), order of setting the destination and adding outputs, and surplus size",
     "Tests set one change address up front; setting it late, changing it, or having it equal a payee are not combined with funding and signing.",
     ["outputs.go", "inputs.go", "fees.go"],
     [("change destination setting and matching", "outputs.go SetChangeAddress, SetChangeLockingScript"),
      ("change output creation", "fees.go AdjustFee, inputs.go AddFunding")],
     ["new outputs and increased outputs after each operation"])

prop("C29", "Signing without fee adjustment only fills in unsigned inputs",
     "Signing without fee adjustment changes nothing except the unlocking scripts of inputs that had none, and signing one chosen input changes only that input's unlocking script and refuses a wrong key or output kind without change. Inputs signed by several parties one after another, in any order and any split that leaves the keys of one input together, end with every input validly signed and nothing else changed.",
     ["histories", "inputs"],
     "every split of the keys over parties, every order of parties, every mixture of input kinds, with some inputs already signed",
     "A test signs once with all keys; partial signing by several parties in different orders is not enumerated.",
     ["sign.go"],
     [("skipping signed inputs", "sign.go SignOnly"),
      ("single input signing", "sign.go SignP2PKHInput")],
     ["the transaction before and after each partial signature"])

path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(path, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
