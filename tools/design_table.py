"""Rewrites section 2 of DESIGN.md between its markers: per property the oracle, the families and the numbers of the last runs."""
import importlib
import json
import pathlib
import re
import sys

ROOT = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(ROOT))
from mc import core, sut  # noqa: E402,F401

ORACLE = {
    "C01": "reference stuffing by a per-byte table and its inverse (`mc/ref.py`); only the last wire byte is the terminator; refusals by the same rule",
    "C02": "reference frame builder and parser with their own LRC/CHK/DRC; the library's bytes, and its reading of the reference's bytes, must agree field by field",
    "C03": "the reference decoder says for every damaged stream whether some delimited segment still is a good frame; if none is, nothing may be delivered, otherwise exactly what it encodes",
    "C04": "the answer of the reference decoder, no answer before the terminator, nothing left after it - for every chunking of the same bytes",
    "C05": "reference session: whatever unusable units come first, the genuine answer is delivered exactly once and the session is idle again",
    "C06": "reference automaton (idle / waiting for kind k); every history is replayed step by step on the real connection and compared at every step",
    "C07": "set of errors whose bits are set in the error byte; the session must be idle after the error",
    "C08": "independent open(): own CRC16 bit by bit, the AES single-block primitive chained by hand; header, length, key id, padding; no plain request bytes on the wire",
    "C09": "reference layouts of the six requests, every field on its own; arguments outside a field must be refused before anything is sent",
    "C10": "reference decoder of the response payloads",
    "C11": "own calendar and BCD arithmetic",
    "C12": "declarative layout table (`mc/layouts.py`), each atom decoded by own code; the complete attribute set is compared",
    "C13": "records cut out by the reference splitter and decoded alone; any inconsistency must be refused",
    "C14": "the object list from the start index on; the exact sequence of requested indices",
    "C15": "equality and class of every object after dump -> JSON text -> load",
    "C16": "stream model of the bytes the peer sent and a virtual clock; horizon on the reads; the fake operating system is compared with real loopback TCP and pseudo terminals",
    "C17": "reference lifecycle automaton, count of open handles, bytes accepted by the operating system",
    "C18": "the device's answers; only library errors; bounded virtual time; success only with a whole genuine answer on this link; usable after reconnecting",
    "C19": "search for every four-byte piece of the secrets in many spellings",
    "C20": "layout table of the call-in record",
    "C21": "every session run alone gives its trace; interleaved and threaded runs must give the same traces",
    "C24": "what is reachable from session, client, transport and the modules of the library, and the blocks the process has allocated, after warm-up and after two further blocks of rounds: no growth with the rounds",
    "C25": "reference frame parser: fields and serialisation of what is intact, refusal (value error) of everything else",
    "C26": "ranges of the protocol's fields; reference layout of the request that leaves",
    "C28": "the damage made: the attributes it hit must be named; exported values for good imports",
    "C27": "result of the same call in a fresh process; deep copies of arguments and earlier results",
    "C22": "only answer, need-more-data or a library error; the genuine response afterwards is delivered",
    "C23": "independent open() says whether the content is genuine under the configured key and key id; otherwise nothing is delivered and the genuine response afterwards is",
}
titles = {d["id"]: d["title"] for d in map(json.loads, (ROOT / "properties.jsonl").read_text().splitlines())}
out = []
for pid in sorted(titles):
    m = importlib.import_module("mc.props." + pid.lower())
    try:
        ev = json.loads((ROOT / "evidence" / (pid + ".json")).read_text())["coverage"]
    except FileNotFoundError:
        ev = {"families": {}}
    out += ["", "**%s %s** (`mc/props/%s.py`, level %s)" % (pid, titles[pid], pid.lower(), m.LEVEL), "", "Oracle: %s." % ORACLE.get(pid, m.RULE), "",
            "| family | enumerated in full | cases | executions |", "|---|---|---|---|"]
    for f in m.families("quick"):
        e = ev.get("families", {}).get(f.name, {})
        out.append("| %s | %s | %s | %s |" % (f.name, f.bound.replace("|", "/"), e.get("cases", ""), e.get("evaluations", "")))
    if m.ASSUMPTIONS:
        out += ["", "Assumed: " + "; ".join(m.ASSUMPTIONS) + "."]
p = ROOT / "DESIGN.md"
s = p.read_text()
a, b = "<!-- families -->", "<!-- end families -->"
s = s[:s.index(a) + len(a)] + "\n".join(out) + "\n\n" + s[s.index(b):]
p.write_text(s)
rows = ["", "| bug | property | what it breaks | caught by |", "|---|---|---|---|"]
try:
    caught = json.loads((ROOT / "tools" / "caught.json").read_text())
except FileNotFoundError:
    caught = {}
for d in sorted((ROOT / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    rows.append("| %s | %s | %s | %s |" % (d.name, m["property"], m["what_it_breaks"].replace("|", "/").replace("\n", " "), caught.get(d.name, "")))
s = p.read_text()
a, b = "<!-- seeds -->", "<!-- end seeds -->"
s = s[:s.index(a) + len(a)] + "\n".join(rows) + "\n\n" + s[s.index(b):]
p.write_text(s)
