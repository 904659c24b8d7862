#!/usr/bin/env python3
"""Regenerates known_findings.jsonl: the defects repaired in /repo (fixed) and those recorded only (known)."""
import json, subprocess, sys
FIX = [
 ("C05", "b10db6c", "primitives assumed one Read returns everything: a packet split by the transport was decoded wrongly"),
 ("C07", "6f8262b", "strings longer than 65535 bytes were written with a truncated length prefix"),
 ("C01", "514ddb3", "WriteToAsProperty of a string did not count the identifier byte, so CONNECT reported too few bytes"),
 ("C07", "29e6d08", "variable byte integers above 268435455 were written, and encodings of more than four bytes were read"),
 ("C05", "25e4ca5", "Connack.ReadFrom reported a wrong byte count and mistook its end"),
 ("C08", "50091ce", "Publish.Write always wrote at the start of the payload"),
 ("C05", "c93a26f", "a PUBLISH payload that arrives in pieces was truncated"),
 ("C02", "8536944", "the stand-alone PUBLISH decoder assumed a two-byte fixed header"),
 ("C06", "c69d1fc", "a PUBLISH with QoS 3 was accepted"),
 ("C05", "7a73895", "a PUBLISH with the payload format indicator property was refused"),
 ("C06", "892e6e6", "unknown properties and properties that overrun their section were accepted"),
 ("C06", "01a8f70", "acknowledgements cut before a mandatory field were accepted"),
 ("C05", "cdd90f9", "DISCONNECT and AUTH with Remaining Length 0 were refused"),
 ("C04", "d131adf", "DISCONNECT properties were missing or not counted in the declared lengths"),
 ("C04", "1fc89fe", "AUTH packets lacked the reason code and the property length"),
 ("C03", "d04fa3a", "SetNoLocal panicked for short filters and No Local survived on shared subscriptions"),
 ("C01", "afac15c", "declared lengths of CONNECT properties and will properties were wrong"),
 ("C01", "8c8d39f", "CONNECT properties carried wrong identifiers"),
 ("L02", "e2d438e", "Disconnect refused to work while connected and the connected flag was racy"),
 ("D01", "277557e", "client mutexes were acquired in different orders and could deadlock"),
 ("K01", "962bb9b", "with a keep alive of zero the connection was declared dead at once"),
 ("F01", "1c9909d", "the Receive Maximum defaulted to 0 and QoS 0 publishes counted against it"),
 ("L03", "efb2dd0", "an acknowledgement whose handling failed left the client mutex locked"),
 ("Q02", "71b15fe", "a PUBREC with a failure reason code was answered with a PUBREL and kept in the store"),
 ("F02", "fa8e108", "send slots were lost and blocked publishers were not woken"),
 ("R02", "905d3a3", "packet identifiers could be zero or still in use"),
 ("E02", "a8e65fc", "closing event channels raced with delivery and closed a channel twice"),
 ("E01", "a39bbd2", "a publish could be lost or doubled between the general and the bound role of a channel"),
 ("R01", "fbfb905", "acknowledgements were matched to the wrong request, and requests hung when the connection ended"),
 ("X02", "ff90e0c", "a poll whose deadline passed inside a header, or a malformed packet, lost the stream position"),
 ("F03", "fb4532c", "exceeding the Receive Maximum deadlocked the poll and the excess message was acknowledged"),
 ("Q04", "92fc9ae", "a redelivered QoS 2 message was delivered twice, and QoS 1 publishes were kept in the store"),
 ("D02", "274f298", "the store and the receive quota were used without the client mutex"),
 ("X01", "5634923", "Connect did not return when its context was canceled"),
 ("T01", "281440d", "topic filters with wildcards matched topics they must not match and missed some they must match"),
]
extra = json.load(open("/verif/tools/findings_extra.json")) if len(sys.argv) < 2 else []
with open("/verif/known_findings.jsonl", "w") as f:
    for p, c, w in FIX + [tuple(x) for x in extra if isinstance(x, list)]:
        c = subprocess.check_output(["git", "-C", "/repo", "rev-parse", "--short", c], text=True).strip()
        f.write(json.dumps({"kind": "fixed", "property": p, "commit": c, "what": w, "line": f"fixed: property={p} {c} {w}"}) + "\n")
    for x in extra:
        if isinstance(x, dict):
            f.write(json.dumps(dict({"kind": "known"}, **x)) + "\n")
