#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the anchors stay reviewable)."""
import json, os
V = "src/verify.rs"; S = "src/seals.rs"; L = "src/lib.rs"
EV = "ContractVerify::evaluate in src/verify.rs"
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                     observe_at=observe or ["result of evaluating a consignment", "calls the contract receives while a consignment is evaluated"],
                     hook_needed=None)))
SEALS = ("seals", "definitions of still unspent cells known so far in this consignment", EV)

p("C01", "Only operations verified against the contract's code enter its state",
  "Whatever a peer or the network delivers, every operation added to a contract's state has passed the verification program of that contract's own code against the state at that moment: it names this contract, calls an existing method, reads only existing state, satisfies the script and all lock conditions. An operation failing any of these is refused and the evaluation ends with an error. The operation added is exactly the one that was delivered and verified.",
  ["inputs", "histories", "fault_sequences"],
  "every delivered operation stream, every prior contract state, every tampering by a byzantine peer (single or combined with other defects)",
  "The tests never add an operation: their only operations fail before being applied, and their script accepts everything, so no test reaches a script, lock, missing-input or wrong-contract failure.",
  [V], [("call of the codex verification for operations not yet known", EV), ("the contract id of the genesis alone is substituted", EV)], [SEALS])
p("C02", "State is consumed only with a witness closing every seal over that operation",
  "An operation consuming owned state is accepted only when it comes with a witness in which the seal of every single consumed cell is closed over exactly this operation. This holds for operations already known just as for new ones, and a witness given with an operation consuming nothing must still commit to that operation. A witness failing this is never recorded.",
  ["inputs", "histories", "fault_sequences"],
  "every number and order of consumed cells, every known/unknown status, every lost, stale, replaced, partial or tampered witness, for OP_RETURN and taproot commitments",
  "Tests use one input and only three broken witnesses (absent, not spending, not committing); they have no valid witness, no multi-input operation and no known operation.",
  [V, S], [("verify_seals_closing over all collected seals", EV), ("missing witness check", EV)], [SEALS])
p("C03", "No cell is consumed twice or without a known seal within a consignment",
  "Within one consignment each delivered seal definition allows at most one closing: an operation consuming a cell whose definition was not delivered before it, or whose delivered definition was already used up by this or an earlier operation and not delivered again since, is refused. The same cell listed twice in one operation is refused too.",
  ["inputs", "histories", "fault_sequences"],
  "every order, repetition, omission and duplication of operations and inputs in a stream",
  "One test has a single missing definition; none has two consumers of a cell, a repeated input, or a duplicated or re-ordered operation.",
  [V], [("removal of each consumed cell from the known seals", EV)], [SEALS])
p("C04", "A reported seal definition binds only the cell whose token commits to it",
  "A seal definition reported for an output of an operation is accepted only if the authorization token stored in the owned cell at that very output position commits to it; a definition altered in any part, moved to another position, or given for an output that does not exist makes the operation refused, wherever among correct definitions it appears. Leaving out any of the definitions is always allowed. So nobody can take over another owner's cell by supplying his own seal for it.",
  ["inputs", "fault_sequences"],
  "every operation with any number of owned cells, every subset of reported definitions, every in-transit alteration, swap or shift, for known and unknown operations",
  "One test supplies one wrong definition for one cell; nothing tests several cells, positions, partial knowledge, or alterations of individual parts of a definition.",
  [V, S], [("comparison of reported definitions with the operation's owned outputs", EV), ("WTxoSeal::auth_token", S)], [SEALS])
p("C05", "A witness-relative seal resolves to the witness delivered with its operation",
  "A seal defined relative to a witness becomes the named output of the witness last delivered with the operation defining it, keeps its fallback part, and can be closed only by spending that output; a seal with an explicit outpoint never depends on any witness. If the defining operation comes without a witness, its witness-relative seals cannot be used by that consignment.",
  ["inputs", "histories", "fault_sequences"],
  "every mix of explicit and witness-relative seals in one operation, chains of them, any output number, operations delivered again with a replacement witness, witnesses lost or substituted",
  "Unit tests resolve one seal; the only evaluated witness-relative seal is one in a witnessless genesis, expecting a failure; no test has one that is successfully resolved and closed.",
  [V, S], [("resolution with the published witness id", EV), ("WTxoSeal::resolve / to_src", S)], [SEALS])
p("C06", "Evaluation starts from the genesis of this contract and never re-applies it",
  "A consignment is evaluated only if its first operation commits to the code of this contract and is the genesis of this contract; otherwise it is refused before anything is recorded. Only the first operation is treated this way: no later operation gets the contract identity substituted. The genesis is never added to the state as an operation.",
  ["inputs", "histories", "fault_sequences"],
  "every first operation (bit-flipped or foreign code commitments, genesis of another contract, dropped or re-ordered genesis, genesis repeated later), any contract state",
  "One test has one fully different code commitment; near misses, other contracts' genesis, a missing or repeated genesis are never tried.",
  [V], [("codex commitment check of the first operation", EV), ("genesis is not applied", EV)])
p("C07", "A refused operation leaves no trace; everything before it stays fully recorded",
  "When evaluation stops at some operation for any reason, the contract holds exactly the effects of the operations preceding it in the stream: nothing of the refused operation (neither state, seals nor witness) is recorded, and nothing of the accepted ones is lost.",
  ["inputs", "histories", "fault_sequences"],
  "every position of the first bad operation or stream failure, and every kind of failure",
  "Tests compare the recorded data only after successful evaluations of empty or genesis-only consignments; after an error nothing is inspected.",
  [V], [("all fallible checks of an operation precede its first notification", EV)], [SEALS])
p("C08", "Stream failures surface unchanged and never pass for the end of a consignment",
  "If reading the consignment fails at any point - an I/O error of any kind, a truncated or undecodable record - the evaluation returns a stream error carrying the original error, processes nothing of the failed read, and does not read further. A later evaluation of the intact consignment on the same contract succeeds.",
  ["fault_sequences", "crash_points"],
  "every read position, every error kind (interrupted, timed out, unexpected end, corrupted record, application error), first and repeated failures",
  "The test reader cannot fail: its error type is Infallible.",
  [V], [("mapping of reader errors to the stream error", EV)])
p("C09", "Re-delivering known operations is accepted and changes nothing",
  "Evaluating a consignment again, or one overlapping with already known operations, succeeds although the inputs of these operations are long gone from the state; no known operation is added a second time and the state stays the same, while their seals and witnesses are still verified and reported.",
  ["histories", "inputs", "schedules"],
  "every repetition, overlap, duplicated network delivery and partial overlap of consignments",
  "No test evaluates twice, nor has a known operation other than the genesis.",
  [V], [("is_known short-cut around the codex verification", EV)])
p("C10", "A crash at any point of an evaluation is healed by evaluating again",
  "If a wallet crashes between any two notifications of an evaluation and only a prefix of what it recorded survives, then restarting and evaluating the same consignment again succeeds and leads to the same operations, state, seals and witnesses as an evaluation without the crash.",
  ["crash_points", "histories"],
  "every crash point inside an evaluation, every surviving prefix of the unsynced records, repeated crashes",
  "Tests have no persistent state, no crash and no second evaluation.",
  [V], [("seals and witnesses are reported for known operations too", EV), ("notification order witness, operation, seals", EV)])
p("C11", "Wallets receiving the same operations converge, whatever the delivery order",
  "Any two wallets of a contract which accepted the same set of valid operations hold the same contract state and the same seals for them, whatever the order, grouping, duplication, delay or loss and retransmission of the consignments that brought them there.",
  ["schedules", "histories", "fault_sequences"],
  "every topological ordering, overlap and network schedule (loss, duplication, reordering, partition and heal) over any number of wallets",
  "Tests have one contract instance and one delivery.",
  [V, S], [("evaluate depends only on the stream and the contract state", EV)])
p("C12", "Consignment records survive encoding, storage and copying unchanged",
  "A record of a consignment (operation, seal definitions, witness) that is serialised - in the binary or the textual form - or copied, and read back in pieces of any size, is identical to the original and evaluates identically. Truncated data never decode into a record, and a corrupted stream is either reported as unreadable or judged by exactly the record it decodes to.",
  ["inputs", "fault_sequences"],
  "every record content (any number of definitions, sparse positions, with and without witness), every chunking, truncation point and flipped bit",
  "No test serialises, decodes or copies a record for comparison.",
  [V], [("strict encoding and serde derives of OperationSeals", V), ("Clone for OperationSeals", V)], observe=["bytes of an encoded record", "record decoded back"])
p("C13", "Honest consignments are always accepted, with or without partial knowledge",
  "A consignment in which every operation is valid, follows the operations it depends on and carries correct witnesses and the definitions needed is accepted and adds all its unknown operations, whichever valid order it is in, however many other definitions are withheld, and whatever was evaluated before. Once faults stop, each payment reaches its recipient within a bounded number of retransmissions.",
  ["inputs", "histories", "schedules"],
  "all valid histories: any fan-in and fan-out, sparse definitions, several operations per witness transaction, shared outpoints, all commitment types",
  "No existing test evaluates a valid operation other than the genesis; all the others are expected failures.",
  [V, S], [("evaluation loop", EV)])
p("C14", "Byzantine peers cannot steal, inflate or double-spend",
  "Among wallets which accept only witnesses present in the blockchain, whatever consignments a byzantine peer crafts, no wallet ever records an operation consuming a cell whose owner did not close its seal over that operation, the total issued supply never grows, and no two wallets record different operations consuming the same cell.",
  ["histories", "schedules", "fault_sequences"],
  "every byzantine behaviour of peers able to sign only for their own outputs, all deliveries and orders, several wallets and contracts",
  "Tests contain neither ownership, a blockchain nor two parties.",
  [V, S], [("interplay of seal binding, seal closing, single consumption and code verification", EV)])
p("C15", "Evaluations of different contracts and wallets never influence each other",
  "Evaluating a consignment gives the same verdict and the same recorded data whether it runs alone, is interleaved at any point with evaluations for other wallets or contracts on the same or other threads, or follows any earlier successful or failed evaluations of other contracts.",
  ["schedules", "histories"],
  "every interleaving of concurrently running evaluations at the points where they call the reader or the contract, nested evaluations, and failures in the middle of some of them",
  "Tests run each evaluation alone and compare nothing across evaluations.",
  [V, S], [("all evaluation state is local to the call", EV)], [SEALS])
p("C16", "Failure reports name the real cause and the operation, cell or witness at fault",
  "The error of a failed evaluation names a defect really present in the first bad operation, with the right operation id, cell address, witness id, sets of reported and actual tokens, or verification failure; a defect is never blamed on another operation or kind of failure. The text of the error states these identifiers.",
  ["inputs", "fault_sequences"],
  "every defect at every position of every stream, alone or together with other defects in the same or later operations",
  "Six fixed messages are compared, always for the first or second operation.",
  [V], [("construction of VerificationError", EV), ("Display of VerificationError", V)])
p("C17", "The contract is notified exactly as documented",
  "For each accepted operation the contract gets its witness if one was delivered, then the operation if it is neither known nor the genesis, and the reported seals if there is at least one - each exactly once, complete, under the right operation id, and an operation never before its witness; this holds for known operations and the genesis as regards witnesses and seals. There are no other notifications.",
  ["inputs", "histories", "schedules"],
  "every accepted operation of every stream: with or without witness, seals and known status",
  "The only successful evaluations in tests are of an empty stream and of a genesis without seals, which cause no notification at all.",
  [V], [("apply_witness, apply_operation, apply_seals calls", EV)])
p("C18", "Evaluation of any stream ends with a verdict after a bounded number of reads",
  "Whatever the stream contains, evaluation neither panics nor loops: it reads each record at most once, stops reading at the first failure or at the end of the stream, reads everything up to there before reporting success, and returns a verdict.",
  ["inputs", "fault_sequences", "histories"],
  "every hostile, corrupted, truncated, duplicated or very long stream",
  "Tests read at most two records and do not watch what is read.",
  [V], [("read loop and early returns", EV)])
p("C19", "Verdicts depend on nothing but the consignment and the contract",
  "Evaluating equal consignments on equal contracts always gives the same verdict, the same error with the same text, and the same notifications in the same order, whatever the clock shows, however it jumps, and whatever randomness, memory layout, thread or process the evaluation has.",
  ["inputs", "schedules", "histories"],
  "every consignment and contract; every state of the host: clock, hash seeds, thread, process",
  "Tests evaluate once, and under one state of the host.",
  [V], [("evaluation loop and construction of errors", EV)])
p("C20", "Every supported feature set and build profile gives the same consensus behaviour",
  "Builds with any combination of the optional features which has the Bitcoin seals, with or without debug assertions and overflow checks, and with any level of optimisation, give the same verdicts, the same errors and the same notifications for the same consignments and contracts.",
  ["configurations", "inputs"],
  "all consignments and contracts in each of the feature sets and build profiles",
  "Tests run in one profile and in one feature set, and their results are not compared with those of other builds.",
  ["Cargo.toml", V, L, S], [("cfg attributes, features of dependencies, arithmetic, assertions", "src/lib.rs, src/seals.rs, src/verify.rs")])
p("C21", "Wallets of the earlier release and of this one understand each other",
  "Records written by a wallet which was not updated, in the binary or the textual form, are read by this code unchanged, and the records this code writes are read unchanged by such a wallet: the byte layout, the field names of the textual form, and the type and library names by which records are announced stay as they are.",
  ["configurations", "inputs", "histories"],
  "all values of records, in both directions, in networks where a part of the wallets was updated",
  "No test pins a layout or a name; round trips within one release say nothing on it.",
  [V, L], [("StrictType and serde derives of OperationSeals with LIB_NAME_RGB", V)])
p("C22", "The memory an evaluation takes does not grow with the length of the consignment",
  "However long a consignment is, between its records an evaluation keeps no more memory than in proportion to the seal definitions which were delivered, can be used by the rest of the consignment and are not used yet; while a record is processed it takes besides that only memory in proportion to the size of a record; a record which neither uses nor defines seals makes it allocate no more when there are many unused definitions; and when it is over, with success or with failure, it leaves nothing behind, however many evaluations there were.",
  ["inputs", "histories"],
  "consignments of any length and shape, any number of evaluations in one process, each end of an evaluation",
  "Tests have two records and do not look at the memory.",
  [V], [("evaluation loop: the map of seals not used yet and the collections of one record", EV)])
# --- not applicable to the technique
p("N01", "Authorization tokens are binding for seal definitions",
  "Two different seal definitions never share an authorization token except by a collision of the underlying truncated hash.",
  ["inputs"], "all pairs of seal definitions",
  "One fixed token is compared with a constant.", [S], [("WTxoSeal::auth_token truncating the commitment id to 30 bytes", S)], observe=["authorization token of a definition"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
