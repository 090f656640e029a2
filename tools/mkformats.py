#!/usr/bin/env python3
"""Freezes the format definitions of the base tree into config/formats.json: the reference the format checks decide against.
(Run by hand only; checks never read the format definitions of the tree under test.)"""
import json, os, sys
import xml.etree.ElementTree as ET
A = sys.argv[1] if len(sys.argv) > 1 else "/repo/apertium"
out = {}
for f in ["txt", "html", "html-noent", "html-alt", "odt", "rtf", "wxml", "xlsx", "pptx", "mediawiki", "xpresstag", "latex"]:
    r = ET.fromstring(open("%s/%s-format.xml" % (A, f), "rb").read())
    o = r.find("options")
    rules = []
    for x in r.findall("rules/format-rule"):
        e = {"prio": int(x.get("priority")), "eos": x.get("eos") == "yes", "eoh": x.get("eoh") == "yes", "type": x.get("type")}
        if x.find("begin") is not None:
            e["begin"], e["end"] = x.find("begin").get("regexp"), x.find("end").get("regexp")
        else:
            e["tag"] = x.find("tag").get("regexp")
        rules.append(e)
    reps = [{"re": x.get("regexp"), "map": {y.get("source"): y.get("target") for y in x.findall("replace")}}
            for x in r.findall("rules/replacement-rule")]
    out[f] = {"rules": rules, "reps": reps, "space": o.find("space-chars").get("regexp"),
              "escape": o.find("escape-chars").get("regexp"), "large": int(o.find("largeblocks").get("size")),
              "caseless": o.find("case-sensitive").get("value") == "no"}
json.dump(out, open(os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/config/formats.json", "w"), indent=0, ensure_ascii=True, sort_keys=True)
