"""Writes MANIFEST.json and the "fixed" part of known_findings.json."""
import importlib
import json
import pathlib
import sys

ROOT = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(ROOT))

BASE = "explicit-state exploration of the real code: "
T = {
 "C01": "every string over the codec's byte classes up to a length is enumerated and replayed against a reference codec",
 "C02": "every value of every header field and every payload length is enumerated, frames compared with a reference builder/parser",
 "C03": "every placement of the enumerated damages is injected, a reference decoder says what may be delivered",
 "C04": "all chunkings (schedules of feed and poll) of a response are enumerated",
 "C05": "all histories of unusable inputs up to a depth are enumerated in front of and behind a genuine response",
 "C06": "all event histories up to a depth against a reference session automaton, step by step",
 "C07": "all error bytes x services x histories against a reference session automaton",
 "C08": "all payload lengths, contents, key ids enumerated through sealing and opening against an independent implementation",
 "C09": "every value of every request field enumerated against a reference encoder",
 "C10": "every value of every payload byte and all data lengths enumerated against a reference decoder",
 "C11": "every day, every second and every byte value enumerated against own calendar arithmetic",
 "C12": "every value of every record byte enumerated against a declarative layout",
 "C13": "all record sequences and all truncations up to a bound enumerated",
 "C14": "all divisions of the objects into pages enumerated against a byte-level device simulator",
 "C15": "boundary values of every field of every type enumerated through export and import",
 "C16": "all segmentations, delays and fault placements of a fake operating system on a virtual clock, validated against real sockets and ttys",
 "C17": "all operation sequences x fault placements against a reference lifecycle automaton",
 "C18": "all placements of link and device faults in sequences of client operations over a fake operating system and device simulator",
 "C19": "all reached session states of enumerated histories observed at every environment interaction",
 "C20": "every value of every message byte enumerated against a reference layout",
 "C21": "all interleavings of session steps; controlled scheduler over two real threads with every preemption point",
 "C22": "all short byte strings and all structured malformed telegrams in every session state",
 "C24": "all cycles of exchanges over an event alphabet, iterated; memory reachable from the session must stay bounded",
 "C25": "every enumerated damage and short byte string read by every frame class, a reference parser decides which are intact",
 "C26": "every value of every configured field around its range and all border combinations tried at creation and later",
 "C27": "all sequences of codec calls up to a depth, each result compared with that of a fresh process and each argument with a copy",
 "C28": "every damage of every attribute and all pairs, and all sequences of good and damaged imports up to a depth, enumerated through import",
 "C23": "every enumerated tampering of sealed payloads injected behind an intact outer frame",
}
checks = []
for pid in sorted(T):
    m = importlib.import_module("mc.props." + pid.lower())
    assert m.PROP == pid
    cmd = "/opt/venv/bin/python -B check.py %s " % pid
    checks.append({
        "property": pid, "quick_cmd": cmd + "quick", "thorough_cmd": cmd + "thorough", "technique": BASE + T[pid], "level": m.LEVEL,
        "level_note": "Exhaustive within the bounds named in the evidence file and DESIGN.md section 2; every execution runs the code of /repo. "
                      + " ".join(a[0].upper() + a[1:] + "." for a in m.ASSUMPTIONS)})
(ROOT / "MANIFEST.json").write_text(json.dumps({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": []}, indent=1) + "\n")

FIXED = """
C02 86e381b 16-bit addresses were written and read big-endian while every other integer of the frame is little-endian
C10 dea251a the oldest record id of archive responses was read from two of its four bytes
C06 4798fca WriteTimeResponse carried the service number of another request, so the answer to writing the time was refused
C11 01dba6d years before 2000 or after 2099 were encoded as some other year
C03 86e381b a frame with wrongly ordered addresses was accepted (see C02)
C22 4b183e3 frames shorter than their fixed fields with agreeing redundancy bytes raised IndexError or were accepted
C23 d6035a4 sealed payloads with too few bytes or a wrong key id raised exceptions other than ValueError
C23 0647700 a sealed length header beyond the content delivered a shortened payload
C13 ea98586 a parameter list cut off inside a record silently gave a shorter list
C12 b73035b correction counters (type 49) could not be decoded or exported: missing in the type maps
C12 126d7c6 difference base counters (type 73) could not be decoded: missing base class
C15 1b4c978 error standard counters, modems and set points came back from import as plain dicts
C15 bf40062 flow rates without decimals could not be imported
C15 736008e device error texts were exported as integers
C17 3ef1cdf a failing shutdown leaked the socket
C16 398aa07 end of stream made receiving spin for ever; a silent serial line made it wait for ever
C07 8221297 device errors with several bits set were not reported
C05 6f52d10 one unusable frame in the buffer blocked every later response
C07 b2ce084 after a device error the session stayed waiting for a response
C22 e3437b8 an encrypted frame without key or a service without response class raised TypeError/KeyError
C22 6c03183 an undecodable payload raised ValueError/IndexError and stayed in the buffer
C06 7f8ead2 a request that could not be encoded left the session waiting for its response
C18 243d50d reconnecting kept the half-received buffer and the outstanding request of the old link
C14 b955a1c a download without objects raised an error
C09 98f2052 passwords of another length than six shifted the other fields
C19 6dbd356 the receive buffer, which can hold an echoed request with its password, was shown in representations
C18 aac7345 device parameters that could not be decoded raised IndexError, ValueError, AssertionError or TypeError from a client operation
C18 cdf6324 a parameter page leading beyond index 65535 raised OverflowError from a client operation
C08 ada7ce8 a key configured without its key id made everything, passwords included, leave in clear
C10 845d57d archive responses without the fixed fields were decoded from missing bytes
"""
kf = ROOT / "known_findings.json"
k = json.loads(kf.read_text())
k["fixed"] = ["fixed: property=" + line for line in FIXED.strip().splitlines() if not line.startswith("C03 86e")]
kf.write_text(json.dumps(k, indent=1) + "\n")
