#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
 'C01': 'Seeded search; the oracle is the reference ledger re-deriving the verdict of every record, and the recording contract. The script VM is run for real on both sides.',
 'C02': 'Seeded search; witnesses are real Bitcoin tapret/opret transactions re-verified seal by seal by the reference.',
 'C03': 'Seeded search with a reference ledger of delivered definitions as the oracle.',
 'C04': 'Seeded search; every single-field alteration, move and index fault of definitions is drawn at random positions.',
 'C05': 'Seeded search over reorgs, re-witnessing and fallback closings.',
 'C06': 'Seeded search; one known finding (F1) is recorded, see DESIGN.md.',
 'C07': 'Seeded search; compares contract, witness and seal stores before and after each refused record.',
 'C08': 'Seeded search with reader faults at random byte positions and with all io::ErrorKind values used by the simulator.',
 'C09': 'Seeded search over replays and overlapping consignments.',
 'C10': 'Seeded search; a part of the runs enumerates every crash point of the evaluation at hand.',
 'C11': 'Seeded search over delivery orders, duplicates, losses and partitions; convergence is compared at quiescence.',
 'C12': 'Seeded search over chunked, truncated and corrupted encodings in the binary and JSON forms.',
 'C13': 'Seeded search; liveness is judged within a bounded number of retransmissions after faults stop.',
 'C14': 'Seeded search with byzantine peers having all signing powers except the victims\' keys; one known finding (F2) is recorded.',
 'C15': 'Seeded search over interleavings at every notification and read, nested evaluations and OS threads handed over one at a time; a second process repeats runs.',
 'C16': 'Seeded search; every error is compared with the set of defects which the reference finds in the first bad record.',
 'C17': 'Seeded search; the history of notifications is compared with the one the reference predicts.',
 'C18': 'Seeded search; panics, hangs, aborts and surplus reads are observed for every evaluation, including corrupted and very large consignments.',
 'C19': 'Seeded search; evaluations are repeated under another simulated clock, other hash seeds and on other threads, runs in other processes.',
 'C20': 'Seeded search; each run is executed by four builds of the simulator (feature sets x profiles) and everything observed is compared by digest. One platform only.',
 'C21': 'Seeded search; a quarter of the senders are wallets of the pinned release, written independently of the code under test; records are exchanged in both directions.',
 'C22': 'Seeded search; the allocator of the simulator counts the bytes of the evaluation alone. Bounds are several times what is needed now; memory in proportion to the length of the stream exceeds them in streams of thousands of records.',
}
NA = {
 'N01': 'Collision resistance of a hash is a cryptographic assumption; no schedule or fault can decide it.',
}
m = {
 'version': 1,
 'setup_cmd': 'cd sim && cargo build --release --offline --locked && bash builds.sh',
 'checks': [{
   'property': k, 'quick_cmd': f'bash check.sh {k} quick', 'thorough_cmd': f'bash check.sh {k} thorough',
   'technique': 'deterministic simulation with fault injection (seeded search)', 'level': 'exploration', 'level_note': v,
 } for k, v in NOTE.items()],
 'not_applicable': [{'property': k, 'reason': v} for k, v in NA.items()],
}
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1); print(file=open(os.path.join(root, 'MANIFEST.json'), 'a'))
