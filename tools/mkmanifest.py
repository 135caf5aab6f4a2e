"""Writes MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
"C01": "runtime monitor: long-double least-squares certificate on every fit of a hostile point-cloud workload",
"C02": "runtime monitor: reported angles checked against the fit's own normal/axes and the generating attitude",
"C03": "runtime monitor: metamorphic relations between pairs of observed fits",
"C04": "runtime monitor: every returned error axis compared with a closed-form long-double evaluation",
"C05": "runtime monitor: bounds, order and monotonicity assertions over families of runs",
"C06": "statistical runtime monitor: coverage counted over repeated sampling of the real fit",
"C07": "runtime monitor over random call histories: bit-level snapshots of all state around every call",
"C08": "runtime monitor: save/carry/recover chains, every query of the recovered fit compared",
"C09": "trace checker: observed membership after each request compared with a reference model",
"C10": "runtime monitor: group fits certified against a long-double decomposition of the stacked points",
"C11": "runtime monitor: exported mappings read back through strict JSON and compared field by field",
"C12": "runtime monitor: normal equations and covariance certified in long double",
"C13": "runtime monitor: axes, lengths and angles of reconstructed planes against direct trigonometry",
"C14": "runtime monitor: each returned direction mapped to the axes frame and tested against the sheet equation",
"C15": "runtime monitor: each returned direction tested against the dual conic and the observed girdles",
"C16": "runtime monitor: each returned envelope point tested against the conic of the section",
"C17": "runtime monitor: conic operations evaluated on sampled surface points carried alongside",
"C18": "runtime monitor: defining equations of angles, rotations and conversions, in extended precision",
"C19": "runtime monitor: recording axes and map stand-ins; every drawn vertex mapped back to space",
"C20": "runtime monitor: notebook HTML parsed and executed in a JavaScript engine with a recording viewer",
"C21": "runtime monitor: coordinates extracted from in-memory rasters against the known elevation function",
"C22": "runtime monitor: front-end sources executed under node, each ring checked against its cone",
"C23": "floating-point sanitizer (numpy error hooks with call sites) plus finiteness monitor",
"C24": "offline checker over the event log of estimator calls; percentile oracle by sorting",
"C25": "resource monitor: allocation peaks, CPU time and address-space limits in a child process",
"C26": "concurrency stress with line-level forced thread switches; results against a pristine process",
"C27": "runtime monitor: front-end side views executed under node with recording DOM stand-ins",
"C28": "runtime monitor over interaction histories: front-end stereonet executed under node on a recording document, every drawn path mapped back to directions",
"C29": "runtime monitor over edit histories: web application executed under node on a recording document; trace of sheet and plot states against a reference model",
"C30": "runtime monitor over interaction histories: notebook interface executed under node on a recording document; trace of shown, highlighted and selected items against a reference model",
"C31": "runtime monitor over sequences of data sets and label requests: plot components executed under node on a recording document, labels and regions mapped back to directions",
}
BASE = ("The oracle judged every execution of the workload; holds for all explored cases, not proved for others. "
        "Trusts numpy/scipy basic arithmetic and the reference formulas in lib/ref.py and the check module. ")
NOTE = {
"C06": "Statistical: a population fails only when its coverage count is incompatible with 95%. ",
"C25": "Ratios of measured peaks/times with generous factors; detects changes of growth order, not constant factors. ",
"C26": "Interleavings are sampled at line granularity, not enumerated. ",
"C22": "DOM and quaternion library replaced by stand-ins; d3 and mathjs are those bundled in the repository. ",
"C27": "DOM and quaternion library replaced by stand-ins; d3 and mathjs are those bundled in the repository. ",
"C29": "React, widget packages, versor package, chroma-js and the document replaced by stand-ins; d3 and mathjs are those bundled in the repository. ",
"C30": "React, widget packages, chroma-js and the document replaced by stand-ins; d3 and mathjs are those bundled in the repository. ",
"C31": "React, path-intersection packages, chroma-js and the document replaced by stand-ins; d3 and mathjs are those bundled in the repository. ",
"C28": "Document, chroma-js and uuid replaced by stand-ins; d3 and mathjs are those bundled in the repository. ",
}
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = dict(version=1, setup_cmd="mkdir -p evidence && /opt/venv/bin/python -c 'import numpy, scipy, matplotlib' && node --version >/dev/null",
    checks=[dict(property=p,
        quick_cmd="/opt/venv/bin/python checks/run.py %s --tier quick" % p,
        thorough_cmd="/opt/venv/bin/python checks/run.py %s --tier thorough" % p,
        evidence_file="evidence/%s.json" % p, technique=T[p], level="exploration",
        level_note=BASE + NOTE.get(p, "") + "Bounds: see 'rule' in the evidence file and DESIGN.md.") for p in props],
    not_applicable=[],
    notes="No hooks in /repo: all observation is from outside (sys.monitoring, numpy error hooks, recording stand-ins, "
          "resource limits). The code under test is imported from /repo's working tree, byte-code caches bypassed; "
          "the front-end sources are bundled from the tree on every run.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
