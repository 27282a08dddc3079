"""Write MANIFEST.json from the check modules (technique / level notes live here)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {
 "C01": ("runtime monitoring: generated workloads, byte-equality oracle at the read/write boundary", "exploration", "Held on the executions listed in the evidence; trusts cryptography, PyNaCl. Chunk counts above 1024 only with scaled-down block constants."),
 "C02": ("runtime monitoring: generated recipient/identity rings, plaintext oracle", "exploration", "Held on the observed rings; entries come from pyage and from an independent reference writer."),
 "C03": ("runtime monitoring: near-miss identities, exception-type oracle with positive control", "exploration", "Every negative is paired with a positive control on the same file."),
 "C04": ("runtime monitoring: exhaustive small and sampled large payload mutations, rejection oracle", "exploration", "All bit flips and truncations of the small files of a run, sampled for multi-chunk files."),
 "C05": ("runtime monitoring: header mutation workload, rejection oracle", "exploration", "All single-bit, single-byte and listed structural edits of the headers of a run."),
 "C06": ("runtime monitoring: written files checked by an independent strict reader", "exploration", "The reference reader (mon/ref.py) is the statement of the format; ssh-ed25519 is the draft variant."),
 "C07": ("runtime monitoring: files of an independent writer fed to the real reader", "exploration", "The reference writer covers all entry kinds; files of the original release are committed fixtures."),
 "C08": ("runtime monitoring: ledger of every key, nonce and salt seen at the library boundary over histories, threads, forks and reset generators", "exploration", "Uniqueness over the observed histories; randomness quality is judged by origin and repetition, not statistically."),
 "C09": ("runtime monitoring: interposed scrypt boundary, written entries recomputed independently", "exploration", "Refusals are judged by what reached the KDF."),
 "C10": ("runtime monitoring: round trips and reference PEM reader/writer as oracle, malformed-armor workload", "exploration", "mon/ref.py states the armor grammar."),
 "C11": ("runtime monitoring: independent bech32 as oracle over keys and corrupted strings", "exploration", "Corruptions of up to four characters are sampled, one and two characters exhaustively for chosen strings."),
 "C12": ("runtime monitoring: independent OpenSSH writer and ssh-keygen-made fixtures, structural mutations with rejection oracle", "exploration", "nistp384 is not supported by the program and left out."),
 "C13": ("runtime monitoring: independent fingerprints and birational map as oracle, ssh-keygen when present", "exploration", "Held on the keys of a run."),
 "C14": ("runtime monitoring: generated directories and key files, exact identity lists as oracle", "exploration", "Directories mix every supported and unsupported kind of file."),
 "C15": ("runtime monitoring: generated worlds of aliases, files, URLs and github users; fetch monitor and audit hook; entries opened by an independent reader", "exploration", "http: a loopback server that records requests; https and github: a recording stand-in below requests."),
 "C16": ("runtime monitoring: failing command executions, monitor on exit status, output channel and output path", "exploration", "Causes of failure crossed with output modes; every failing case has a positive control."),
 "C17": ("runtime monitoring: fault injection at every output byte offset (write shim, RLIMIT_FSIZE, closed readers) with exit status oracle", "fault_enumeration", "Offsets exhaustive for small outputs, around buffer boundaries for large ones."),
 "C18": ("runtime monitoring: real command executions over the option matrix, byte-equality oracle", "exploration", "The option product is enumerated; contents and identity sources are drawn."),
 "C19": ("runtime monitoring: generate executions judged by independent key arithmetic and file modes", "exploration", "All 512 permission modes."),
 "C20": ("runtime monitoring: differential oracle (independent implementations of every primitive) over generated inputs", "exploration", "Reference implementations are in mon/ref.py and cross-checked by published vectors."),
 "C21": ("runtime monitoring: secret markers searched in every channel, audit-hook monitor of files, processes and sockets", "exploration", "Secrets are searched raw and in hex, base64, repr and partial forms."),
 "C22": ("runtime monitoring: controlled scheduler with forced preemption at executed lines, results compared with solo runs", "exploration", "Interleavings observed are counted in the evidence."),
 "C23": ("runtime monitoring: mutation workload with a step-count monitor and a strict reference reader as forgery oracle", "exploration", "Steps are executed source lines of the program; native time is bounded by a watchdog only."),
 "C24": ("runtime monitoring: low-order encodings in keys and entries, refusal oracle with positive controls", "exploration", "All fourteen published low-order encodings and their high-bit variants."),
 "C25": ("runtime monitoring: generated headers, round-trip and stream-position oracle", "exploration", "Over in-memory, buffered and pipe streams."),
 "C26": ("runtime monitoring: generated operation histories against a sequential model", "exploration", "Models: an accepted-bytes log for writers, io.BytesIO for readers; targets that accept parts, fail once, or fail while closing."),
 "C28": ("runtime monitoring: histories of operations in one process, process state and traced memory compared", "exploration", "Oracle: what the inputs of the moment denote; state snapshots before and after; growth over thousands of different operations."),
 "C27": ("runtime monitoring: real commands on pseudo-terminals, everything shown and every terminal setting recorded", "exploration", "Types only while the command waits with echo off; interrupts, hang-ups and ends of input at the prompt."),
}
EXTRA = os.path.join(V, "tools", "manifest_notes.json")
if os.path.exists(EXTRA):
    NOTES.update({k: tuple(v) for k, v in json.load(open(EXTRA)).items()})
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if os.path.exists(os.path.join(V, "mon", "checks", i.lower() + ".py")) and i in NOTES:
        t, lev, note = NOTES[i]
        checks.append({"property": i, "quick_cmd": f"./run.sh {i}", "thorough_cmd": f"./run.sh {i} --tier thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": t, "level": lev, "level_note": note})
    else:
        na.append({"property": i, "reason": "check not built yet"})
doc = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
       "notes": "No hooks in /repo: all monitors attach from outside (API boundary, audit hooks, patched library boundary, descriptors)."}
json.dump(doc, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks", len(na), "n/a")
