"""Writes /verif/MANIFEST.json from properties.jsonl."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ps = [json.loads(l) for l in open(os.path.join(R, 'properties.jsonl')) if l.strip()]
T = 'contract-based deductive verification of the compiled code (symbolic execution of bytecode, loop invariants, z3)'
N = {
 'C07': 'The CRC loops (and the CRC table, computed by executing the static initialiser) are related to the bitwise definitions by loop invariants, the sums to a fold. Verified from the compiled class files on every run, for all byte sequences.',
 'C08': 'Each operation of the registry is proved against a map for every history (invariant: the registry object holds an arbitrary map); the initial content is read off the executed static initialiser.',
 'C09': 'Every factory operation is proved against a map for an arbitrary earlier history; the initial tables come from executing the static initialisers; the discriminator tables of the protocol are pinned in contracts/messages.txt.',
 'C12': 'writeFixedString, readFixedString, trimByChar and padChar are proved for all texts, widths, padding characters and sides; UTF-8 coding itself (java.lang.String) is a trusted model.',
 'C13': 'Every bitmap operation is proved bit by bit with bit-vectors, for all states and positions.',
 'default': 'Every method the property depends on is executed symbolically from the class files compiled from /repo on every run, callees through their contracts, loops through invariants, all inputs, no bound; JDK and netty methods are trusted models. A harness also runs the real code on generated inputs and looks for a failing input when an obligation is not discharged.',
 'C05': 'Proved through causality: decoding an encoding takes all of it, only through reads checked against the writer index, and no exception is caught on the way; then a strict prefix makes the first read that passes its end throw. The harness cuts real encodings.',
 'C14': 'Every behaviour of write and read is determined by proof; the positions that the multi-byte wire forms lose are listed as known findings, everything else must survive.',
}
m = {'version': 1, 'setup_cmd': 'python3-vt fpv/setup.py',
     'checks': [{'property': p['id'], 'quick_cmd': 'python3-vt fpv/check.py ' + p['id'], 'thorough_cmd': 'python3-vt fpv/check.py %s --thorough' % p['id'], 'technique': T, 'level': 'proof', 'level_note': N.get(p['id'], N['default'])} for p in ps],
     'not_applicable': []}
json.dump(m, open(os.path.join(R, 'MANIFEST.json'), 'w'), indent=1)
