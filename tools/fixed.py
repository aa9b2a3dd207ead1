"""Adds 'fixed' entries to known_findings.json for the fix: commits of /repo (run by hand)."""
import json, subprocess
M = [
 ("position propagator follows", "C06", "alchemy-stale-mass", "after an alchemical exchange the centroid position step used stale masses, so a restarted run diverged from the uninterrupted one"),
 ("detect a client that closes", "C01", "close-after-getforce", "a client closing the connection right after GETFORCE left the dispatch in an endless wait"),
 ("match clients and requests by the value", "C01", "lock-identity", "matching by object identity failed for request ids above 256, so matching='lock' deadlocked"),
 ("do not spin for ever when no free", "C01", "spin-no-client", "distribution loop never ended when no free client could take any pending request"),
 ("a connection reset while", "C01", "reset-kills-server", "a connection reset raised in the server thread and stopped the whole dispatch"),
 ("requests given up by a dispatch", "C01", "given-up-lost", "requests given up by a dispatch thread stayed Running for ever"),
 ("extra strings that are bare JSON", "C02", "extra-bare-json", "an extra string holding a bare JSON value (number, list, null) broke the evaluation"),
 ("python driver announces the encoded", "C02", "driver-extra-length", "driver announced the number of characters, not of bytes, of a non-ASCII extra string"),
 ("python driver copes with partial", "C02", "driver-partial-io", "driver misread fragmented data, truncated short sends and span for ever on a lost server"),
 ("reassemble message headers", "C02", "split-header", "a protocol header split by the transport was taken for a broken client"),
 ("soft exit requests from several", "C04", "concurrent-exit", "two concurrent or nested exit requests cut the clean-up short: missing or partial RESTART"),
 ("label the restart file", "C04", "restart-label", "a RESTART re-stored during exit was labelled with the next step's number"),
 ("the restart state cannot change", "C04", "store-write-race", "RESTART written by the monitor thread while the main thread was storing a newer state"),
 ("a soft exit does not leave incomplete", "C04", "torn-rows", "an exit in the middle of an output row or frame left a partial row or frame in the file"),
 ("checkpoints replace the previous", "C05", "torn-checkpoint", "a crash while overwriting a checkpoint left a truncated file and no other copy"),
 ("an exit between two interactive", "C04", "interactive-label", "an exit at the start of a second interactive run stored the state under the next step's number"),
 ("a soft exit from another thread does not", "C04", "aux-output-closed", "an exit from another thread made the main thread die writing a closed auxiliary output"),
]
def load_more():
    try:
        return json.load(open("/verif/tools/fixed_more.json"))
    except FileNotFoundError:
        return []
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
out = []
for sub, prop, key, what in M + [tuple(x) for x in load_more()]:
    h = [l.split()[0] for l in log if "fix: " + sub in l]
    assert len(h) == 1, (sub, h)
    out.append({"property": prop, "status": "fixed", "key": key, "commit": h[0], "what": "fixed: property=%s %s %s" % (prop, h[0], what)})
fn = "/verif/known_findings.json"
try:
    known = [e for e in json.load(open(fn))["findings"] if e["status"] == "known"]
except FileNotFoundError:
    known = []
done = {l.split(" ", 1)[1] for l in log if "fix:" in l}
if len(out) != len(done):
    print("WARNING: %d fix commits, %d entries" % (len(done), len(out)))
json.dump({"findings": out + known}, open(fn, "w"), indent=1)
